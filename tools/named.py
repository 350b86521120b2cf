# writes the contracts of collections that find their members by name (specs/**/zz_named.go)
import os
BASE='/verif/specs/domain/languages/lexers/'
MOD='github.com/steve-care-software/steve/'
def coll(typ,coll,ctor,with_,find,name,empty_ok=False,unique=False,nonnil='list[i] != nil',listm='All',imports=()):
    fn='zz%sNamed'%coll
    nm=lambda i: name.replace('@','list[%s]'%i)
    s='''
func zzFound%(coll)s(list []%(typ)s, q string, n zzgov.Iter, fix_mp map[string]%(typ)s) bool {
	found, ok := fix_mp[q]
	return ok == zzgov.Exists(0, int(n), func(i int) bool { return %(ni)s == q }) &&
		(!ok || zzgov.Exists(0, int(n), func(i int) bool { return %(ni)s == q && zzgov.Same(list[i], found) }))
}
'''
    if unique:
        s+='''
func zzOnce%(coll)s(list []%(typ)s, a, b int, n zzgov.Iter) bool {
	return int(n) <= b || %(na)s != %(nb)s
}

func zzHeld%(coll)s(list []%(typ)s, n zzgov.Iter, fix_mp map[string]%(typ)s) bool {
	return zzgov.ForAll(0, len(list), func(k int) bool {
		_, ok := fix_mp[%(nk)s]
		return ok == zzgov.Exists(0, int(n), func(i int) bool { return %(ni)s == %(nk)s })
	})
}
'''
    s+='''
// %(doc)s
//
//gov:lemma L05
//gov:inv zzFound%(coll)s
func zz%(coll)sNamed(junk, list []%(typ)s, q string) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return %(nonnil)s }))
	zzgov.NoPanic()
	obj, err := %(ctor)s.%(with_)s(junk).Create().%(with_)s(list).Now()
	zzgov.Ensures("an answer or an error", (err == nil) == (obj != nil))
	zzgov.Ensures("%(emptytext)s", len(list) > 0 || err %(emptyop)s nil)
%(accept)s	if err != nil {
		return
	}
	zzgov.Ensures("members in the order given", %(same)s)
	found, err := obj.%(find)s(q)
	zzgov.Ensures("found exactly when a member has the name", (err == nil) == zzgov.Exists(0, len(list), func(i int) bool { return %(ni)s == q }))
	zzgov.Ensures("the one found is a member of that name", err != nil || zzgov.Exists(0, len(list), func(i int) bool { return %(ni)s == q && zzgov.Same(list[i], found) }))
}
'''
    if unique:
        s+='''
// two members of the same name are refused
//
//gov:lemma L05
//gov:inv zzOnce%(coll)s zzHeld%(coll)s
func zz%(coll)sTwice(list []%(typ)s, a, b int) {
	zzgov.Requires(0 <= a && a < b && b < len(list))
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return %(nonnil)s }))
	zzgov.NoPanic()
	_, err := %(ctor)s.%(with_)s(list).Now()
	zzgov.Ensures("refused", err != nil || %(na)s != %(nb)s)
}

// and nothing else is
//
//gov:lemma L05
//gov:inv zzHeld%(coll)s
func zz%(coll)sAccepted(list []%(typ)s) {
	zzgov.Requires(len(list) > 0)
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return %(nonnil)s }))
	zzgov.NoPanic()
	_, err := %(ctor)s.%(with_)s(list).Now()
	zzgov.Ensures("refused only with two members of one name", err == nil || zzgov.Exists(0, len(list), func(i int) bool {
		return zzgov.Exists(0, i, func(j int) bool { return %(ni)s == %(nj)s })
	}))
}
'''
    acc='' if unique else '	zzgov.Ensures("members are accepted", len(list) == 0 || err == nil)\n'
    same='zzgov.Same(obj.%s(), list)'%listm
    if empty_ok: same='len(obj.%s()) == len(list) && zzgov.ForAll(0, len(list), func(i int) bool { return zzgov.Same(obj.%s()[i], list[i]) })'%(listm,listm)
    d=dict(typ=typ,coll=coll,ctor=ctor,with_=with_,find=find,nonnil=nonnil,ni=nm('i'),nj=nm('j'),nk=nm('k'),na=nm('a'),nb=nm('b'),doc='a member is found under its name, and only one that carries it',
      emptytext='nothing is accepted' if empty_ok else 'nothing is refused', emptyop='==' if empty_ok else '!=',accept=acc,same=same)
    return s%d
files={
 'containers/rules':('rules',[coll('Rule','Rules','NewBuilder()','WithRules','Find','@.Name()',unique=True)]),
 'containers/tokens':('tokens',[coll('Token','Tokens','NewBuilder()','WithTokens','Find','@.Name()',unique=True),
    coll('TokenSpecifier','TokenSpecifiers','NewTokenSpecifiersBuilder()','WithTokenSpecifiers','Find','@.Content().Name()',nonnil='list[i] != nil && list[i].Content() != nil && (list[i].Content().IsToken() || list[i].Content().IsRule())')]),
 'containers/patterns':('patterns',[coll('Pattern','Patterns','NewBuilder()','WithList','Find','@.Name()'),coll('Group','Groups','NewGroupsBuilder()','WithList','Find','@.Name()'),
    coll('Discovery','Discoveries','NewDiscoveriesBuilder()','WithList','Find','@.Container().Name()',nonnil='list[i] != nil && list[i].Container() != nil && (list[i].Container().IsReverse() || list[i].Container().IsGroup())')]),
 'roots':('roots',[coll('Container','Containers','NewContainersBuilder()','WithList','Fetch','@.Name()',listm='List')]),
}
for p,(pkg,parts) in files.items():
    os.makedirs(BASE+p,exist_ok=True)
    open(BASE+p+'/zz_named.go','w').write('//go:build go1.21\n\npackage %s\n\nimport (\n\t"%szzgov"\n)\n\n//gov:fileprops L05\n'%(pkg,MOD)+''.join(parts))
