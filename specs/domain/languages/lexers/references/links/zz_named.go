//go:build go1.21

package links

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L05 L13

//gov:helper
func ZZLinks(list []Link) bool {
	return zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && list[i].Include() != nil })
}

func zzLocalFound(list []Link, q string, n zzgov.Iter, fix_mpLocalToken map[string]Link) bool {
	return zzLocal(list, q, int(n), fix_mpLocalToken)
}

func zzLocalKept(list []Link, q string, fix_mpLocalToken map[string]Link) bool {
	return zzLocal(list, q, len(list), fix_mpLocalToken)
}

func zzLocal(list []Link, q string, n int, mp map[string]Link) bool {
	found, ok := mp[q]
	return ok == zzgov.Exists(0, n, func(i int) bool { return list[i].LocalToken() == q }) &&
		(!ok || zzgov.Exists(0, n, func(i int) bool { return list[i].LocalToken() == q && zzgov.Same(list[i], found) }))
}

func zzApart(list []Link, fix_mpLocalToken map[string]Link, fix_mpRefToken map[string]map[string]Link) bool {
	return zzgov.ForAll(0, len(list), func(i int) bool {
		m, ok := fix_mpRefToken[list[i].Include().Name()]
		return !ok || m != nil && !zzgov.Same(m, fix_mpLocalToken)
	})
}

func zzApartFrom(list []Link, include string, fix_mpRefToken map[string]map[string]Link) bool {
	at, held := fix_mpRefToken[include]
	return zzgov.ForAll(0, len(list), func(i int) bool {
		m, ok := fix_mpRefToken[list[i].Include().Name()]
		return !ok || !held || list[i].Include().Name() == include || !zzgov.Same(m, at)
	})
}

func zzRefFound(list []Link, include, reference string, n zzgov.Iter, fix_mpRefToken map[string]map[string]Link) bool {
	m, ok := fix_mpRefToken[include]
	if ok != zzgov.Exists(0, int(n), func(i int) bool { return list[i].Include().Name() == include }) {
		return false
	}
	found, has := m[reference]
	return has == zzgov.Exists(0, int(n), func(i int) bool {
		return list[i].Include().Name() == include && list[i].ReferenceToken() == reference
	}) && (!has || zzgov.Exists(0, int(n), func(i int) bool {
		return list[i].Include().Name() == include && list[i].ReferenceToken() == reference && zzgov.Same(list[i], found)
	}))
}

// links keep their order and are found by their local name
//
//gov:lemma L05 L13
//gov:inv zzLocalFound zzLocalKept zzApart
func zzLinksByLocal(junk, list []Link, q string) {
	zzgov.Requires(ZZLinks(list) && ZZLinks(junk))
	zzgov.NoPanic()
	obj, err := NewBuilder().WithLinks(junk).Create().WithLinks(list).Now()
	ok := len(list) > 0
	zzgov.Ensures("obtained exactly when not empty", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("members in the order given", zzgov.Same(obj.All(), list))
	found, err := obj.FetchByLocalToken(q)
	zzgov.Ensures("found exactly when a link has that local name", (err == nil) == zzgov.Exists(0, len(list), func(i int) bool { return list[i].LocalToken() == q }))
	zzgov.Ensures("the one found has that local name", err != nil || zzgov.Exists(0, len(list), func(i int) bool { return list[i].LocalToken() == q && zzgov.Same(list[i], found) }))
}

// and by the grammar they refer to with the name there
//
//gov:lemma L05 L13
//gov:inv zzApart zzApartFrom zzRefFound
func zzLinksByReference(list []Link, include, reference string) {
	zzgov.Requires(len(list) > 0 && ZZLinks(list))
	zzgov.NoPanic()
	obj, err := NewBuilder().WithLinks(list).Now()
	zzgov.Ensures("obtained", err == nil && obj != nil)
	found, err := obj.FetchByReferenceToken(include, reference)
	zzgov.Ensures("found exactly when a link refers to that name of that grammar", (err == nil) == zzgov.Exists(0, len(list), func(i int) bool {
		return list[i].Include().Name() == include && list[i].ReferenceToken() == reference
	}))
	zzgov.Ensures("the one found refers to that name of that grammar", err != nil || zzgov.Exists(0, len(list), func(i int) bool {
		return list[i].Include().Name() == include && list[i].ReferenceToken() == reference && zzgov.Same(list[i], found)
	}))
}
