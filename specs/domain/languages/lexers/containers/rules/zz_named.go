//go:build go1.21

package rules

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L05

func zzFoundRules(list []Rule, q string, n zzgov.Iter, fix_mp map[string]Rule) bool {
	found, ok := fix_mp[q]
	return ok == zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == q }) &&
		(!ok || zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == q && zzgov.Same(list[i], found) }))
}

func zzOnceRules(list []Rule, a, b int, n zzgov.Iter) bool {
	return int(n) <= b || list[a].Name() != list[b].Name()
}

func zzHeldRules(list []Rule, n zzgov.Iter, fix_mp map[string]Rule) bool {
	return zzgov.ForAll(0, len(list), func(k int) bool {
		_, ok := fix_mp[list[k].Name()]
		return ok == zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == list[k].Name() })
	})
}

// a member is found under its name, and only one that carries it
//
//gov:lemma L05
//gov:inv zzFoundRules
func zzRulesNamed(junk, list []Rule, q string) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	obj, err := NewBuilder().WithRules(junk).Create().WithRules(list).Now()
	zzgov.Ensures("an answer or an error", (err == nil) == (obj != nil))
	zzgov.Ensures("nothing is refused", len(list) > 0 || err != nil)
	if err != nil {
		return
	}
	zzgov.Ensures("members in the order given", zzgov.Same(obj.All(), list))
	found, err := obj.Find(q)
	zzgov.Ensures("found exactly when a member has the name", (err == nil) == zzgov.Exists(0, len(list), func(i int) bool { return list[i].Name() == q }))
	zzgov.Ensures("the one found is a member of that name", err != nil || zzgov.Exists(0, len(list), func(i int) bool { return list[i].Name() == q && zzgov.Same(list[i], found) }))
}

// two members of the same name are refused
//
//gov:lemma L05
//gov:inv zzOnceRules zzHeldRules
func zzRulesTwice(list []Rule, a, b int) {
	zzgov.Requires(0 <= a && a < b && b < len(list))
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	_, err := NewBuilder().WithRules(list).Now()
	zzgov.Ensures("refused", err != nil || list[a].Name() != list[b].Name())
}

// and nothing else is
//
//gov:lemma L05
//gov:inv zzHeldRules
func zzRulesAccepted(list []Rule) {
	zzgov.Requires(len(list) > 0)
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	_, err := NewBuilder().WithRules(list).Now()
	zzgov.Ensures("refused only with two members of one name", err == nil || zzgov.Exists(0, len(list), func(i int) bool {
		return zzgov.Exists(0, i, func(j int) bool { return list[i].Name() == list[j].Name() })
	}))
}
