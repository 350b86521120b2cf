//go:build go1.21

package paths

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L05

// zzFound: what has been gathered of the list so far, seen by the name q
func zzFound(list []Element, q string, n zzgov.Iter, fix_mp map[string]Element) bool {
	found, ok := fix_mp[q]
	return ok == zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == q }) &&
		(!ok || zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == q && zzgov.Same(list[i], found) }))
}

// a dependency is found under its name, and only one that carries it
//
//gov:lemma L05
//gov:inv zzFound
func zzDependenciesNamed(junk, list []Element, q string) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	obj, err := NewDependenciesBuilder().WithDependencies(junk).Create().WithDependencies(list).Now()
	zzgov.Ensures("accepted", err == nil && obj != nil)
	found, err := obj.Fetch(q)
	zzgov.Ensures("found exactly when a dependency has the name", (err == nil) == zzgov.Exists(0, len(list), func(i int) bool { return list[i].Name() == q }))
	zzgov.Ensures("the one found is a dependency of that name", err != nil || zzgov.Exists(0, len(list), func(i int) bool { return list[i].Name() == q && zzgov.Same(list[i], found) }))
}

// zzFirst: nothing before i carries the name of i
func zzFirst(list []Element, i int) bool {
	return !zzgov.Exists(0, i, func(j int) bool { return list[j].Name() == list[i].Name() })
}

// zzHeld: the names seen so far are those of the elements gone through
func zzHeld(list []Element, a, b int, n zzgov.Iter, fix_mp map[string]Element) bool {
	_, ok := fix_mp[list[a].Name()]
	_, ko := fix_mp[list[b].Name()]
	return ok == zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == list[a].Name() }) &&
		ko == zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == list[b].Name() })
}

// zzOrdered: a and b, the first of their names, are kept one after the other
func zzOrdered(list []Element, a, b int, n zzgov.Iter, kept []Element) bool {
	if !zzFirst(list, a) || !zzFirst(list, b) || int(n) <= a {
		return true
	}
	if int(n) <= b {
		return zzgov.Exists(0, len(kept), func(k int) bool { return zzgov.Same(kept[k], list[a]) })
	}
	return zzgov.Exists(0, len(kept), func(k int) bool {
		return zzgov.Same(kept[k], list[a]) && zzgov.Exists(k+1, len(kept), func(l int) bool { return zzgov.Same(kept[l], list[b]) })
	})
}

// the first dependency of each name is kept, in the order given
//
//gov:lemma L05
//gov:inv zzHeld zzOrdered
func zzDependenciesInOrder(list []Element, a, b int) {
	zzgov.Requires(0 <= a && a < b && b < len(list))
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	obj, err := NewDependenciesBuilder().WithDependencies(list).Now()
	zzgov.Ensures("accepted", err == nil)
	all := obj.All()
	zzgov.Ensures("in order", !zzFirst(list, a) || !zzFirst(list, b) || zzgov.Exists(0, len(all), func(k int) bool {
		return zzgov.Same(all[k], list[a]) && zzgov.Exists(k+1, len(all), func(l int) bool { return zzgov.Same(all[l], list[b]) })
	}))
}

// zzNoMore: what is kept are elements of the list gone through
func zzNoMore(list []Element, q int, n zzgov.Iter, kept []Element) bool {
	return len(kept) <= int(n) && (q >= len(kept) || zzgov.Exists(0, int(n), func(i int) bool { return zzgov.Same(kept[q], list[i]) }))
}

// zzInside: the names kept so far have been noted
func zzInside(list []Element, n zzgov.Iter, kept []Element, fix_mp map[string]Element) bool {
	return zzgov.ForAll(0, len(kept), func(k int) bool {
		_, ok := fix_mp[kept[k].Name()]
		return kept[k] != nil && ok
	})
}

// zzOnce: two places do not hold the same name
func zzOnce(list []Element, q, r int, n zzgov.Iter, kept []Element) bool {
	return r >= len(kept) || kept[q].Name() != kept[r].Name()
}

// nothing but the given dependencies is kept, none of them twice
//
//gov:lemma L05
//gov:inv zzNoMore zzInside zzOnce
func zzDependenciesOnce(list []Element, q, r int) {
	zzgov.Requires(0 <= q && q < r)
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	obj, err := NewDependenciesBuilder().WithDependencies(list).Now()
	zzgov.Ensures("accepted", err == nil)
	all := obj.All()
	zzgov.Ensures("nothing more", q >= len(all) || zzgov.Exists(0, len(list), func(i int) bool { return zzgov.Same(all[q], list[i]) }))
	zzgov.Ensures("each name once", r >= len(all) || all[q].Name() != all[r].Name())
	zzgov.Ensures("empty only when nothing was given", obj.IsEmpty() == (len(all) == 0))
}
