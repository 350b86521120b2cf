//go:build go1.21

package roots

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L05

func zzFoundContainers(list []Container, q string, n zzgov.Iter, fix_mp map[string]Container) bool {
	found, ok := fix_mp[q]
	return ok == zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == q }) &&
		(!ok || zzgov.Exists(0, int(n), func(i int) bool { return list[i].Name() == q && zzgov.Same(list[i], found) }))
}

// a member is found under its name, and only one that carries it
//
//gov:lemma L05
//gov:bodies
//gov:inv zzFoundContainers
func zzContainersNamed(junk, list []Container, q string) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	obj, err := NewContainersBuilder().WithList(junk).Create().WithList(list).Now()
	zzgov.Ensures("an answer or an error", (err == nil) == (obj != nil))
	zzgov.Ensures("nothing is refused", len(list) > 0 || err != nil)
	zzgov.Ensures("members are accepted", len(list) == 0 || err == nil)
	if err != nil {
		return
	}
	zzgov.Ensures("members in the order given", zzgov.Same(obj.List(), list))
	found, err := obj.Fetch(q)
	zzgov.Ensures("found exactly when a member has the name", (err == nil) == zzgov.Exists(0, len(list), func(i int) bool { return list[i].Name() == q }))
	zzgov.Ensures("the one found is a member of that name", err != nil || zzgov.Exists(0, len(list), func(i int) bool { return list[i].Name() == q && zzgov.Same(list[i], found) }))
}
