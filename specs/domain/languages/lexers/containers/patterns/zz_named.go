//go:build go1.21

package patterns

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L05

func zzFoundPatterns(list []Pattern, q string, n zzgov.Iter, fix_mp map[string]Pattern) bool {
	found, ok := fix_mp[q]
	return ok == zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == q }) &&
		(!ok || zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == q && zzgov.Same(list[i], found) }))
}

// a member is found under its name, and only one that carries it
//
//gov:lemma L05
//gov:inv zzFoundPatterns
func zzPatternsNamed(junk, list []Pattern, q string) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	obj, err := NewBuilder().WithList(junk).Create().WithList(list).Now()
	zzgov.Ensures("an answer or an error", (err == nil) == (obj != nil))
	zzgov.Ensures("nothing is refused", len(list) > 0 || err != nil)
	zzgov.Ensures("members are accepted", len(list) == 0 || err == nil)
	if err != nil {
		return
	}
	zzgov.Ensures("members in the order given", zzgov.Same(obj.All(), list))
	found, err := obj.Find(q)
	zzgov.Ensures("found exactly when a member has the name", (err == nil) == zzgov.Exists(0, len(list), func(i int) bool { return list[i].Name() == q }))
	zzgov.Ensures("the one found is a member of that name", err != nil || zzgov.Exists(0, len(list), func(i int) bool { return list[i].Name() == q && zzgov.Same(list[i], found) }))
}

func zzFoundGroups(list []Group, q string, n zzgov.Iter, fix_mp map[string]Group) bool {
	found, ok := fix_mp[q]
	return ok == zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == q }) &&
		(!ok || zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == q && zzgov.Same(list[i], found) }))
}

// a member is found under its name, and only one that carries it
//
//gov:lemma L05
//gov:inv zzFoundGroups
func zzGroupsNamed(junk, list []Group, q string) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	obj, err := NewGroupsBuilder().WithList(junk).Create().WithList(list).Now()
	zzgov.Ensures("an answer or an error", (err == nil) == (obj != nil))
	zzgov.Ensures("nothing is refused", len(list) > 0 || err != nil)
	zzgov.Ensures("members are accepted", len(list) == 0 || err == nil)
	if err != nil {
		return
	}
	zzgov.Ensures("members in the order given", zzgov.Same(obj.All(), list))
	found, err := obj.Find(q)
	zzgov.Ensures("found exactly when a member has the name", (err == nil) == zzgov.Exists(0, len(list), func(i int) bool { return list[i].Name() == q }))
	zzgov.Ensures("the one found is a member of that name", err != nil || zzgov.Exists(0, len(list), func(i int) bool { return list[i].Name() == q && zzgov.Same(list[i], found) }))
}

func zzFoundDiscoveries(list []Discovery, q string, n zzgov.Iter, fix_mp map[string]Discovery) bool {
	found, ok := fix_mp[q]
	return ok == zzgov.Exists(0, int(n), func(i int) bool { return list[i].Container().Name() == q }) &&
		(!ok || zzgov.Exists(0, int(n), func(i int) bool { return list[i].Container().Name() == q && zzgov.Same(list[i], found) }))
}

// a member is found under its name, and only one that carries it
//
//gov:lemma L05
//gov:inv zzFoundDiscoveries
func zzDiscoveriesNamed(junk, list []Discovery, q string) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && list[i].Container() != nil && (list[i].Container().IsReverse() || list[i].Container().IsGroup()) }))
	zzgov.NoPanic()
	obj, err := NewDiscoveriesBuilder().WithList(junk).Create().WithList(list).Now()
	zzgov.Ensures("an answer or an error", (err == nil) == (obj != nil))
	zzgov.Ensures("nothing is refused", len(list) > 0 || err != nil)
	zzgov.Ensures("members are accepted", len(list) == 0 || err == nil)
	if err != nil {
		return
	}
	zzgov.Ensures("members in the order given", zzgov.Same(obj.All(), list))
	found, err := obj.Find(q)
	zzgov.Ensures("found exactly when a member has the name", (err == nil) == zzgov.Exists(0, len(list), func(i int) bool { return list[i].Container().Name() == q }))
	zzgov.Ensures("the one found is a member of that name", err != nil || zzgov.Exists(0, len(list), func(i int) bool { return list[i].Container().Name() == q && zzgov.Same(list[i], found) }))
}
