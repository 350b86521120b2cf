//go:build go1.21

package rings

import (
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops R01

//gov:lemma R01
func zzRing(min, max uint, junk, list []hash.Hash) {
	zzgov.NoPanic()
	ring, err := NewRingBuilder(min, max).WithList(junk).Create().WithList(list).Now()
	ok := list != nil && uint(len(list)) >= min && uint(len(list)) <= max
	zzgov.Ensures("obtained exactly within the limits", (err == nil) == ok && (ring != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("members as given", zzgov.Same(ring.List(), list))
	zzgov.Ensures("digest of the members in order", ring.Hash() == hash.ZZDigest(zzgov.Concat(len(list), func(i int) []byte { return list[i][:] })))
}

//gov:lemma R01
func zzRings(junk, list []Ring) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	rings, err := NewBuilder().WithList(junk).Create().WithList(list).Now()
	ok := len(list) > 0
	zzgov.Ensures("obtained exactly when not empty", (err == nil) == ok && (rings != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("members as given", zzgov.Same(rings.List(), list))
	zzgov.Ensures("digest of the members' digests in order", rings.Hash() == hash.ZZDigest(zzgov.Concat(len(list), func(i int) []byte { return hash.ZZBytes(list[i].Hash()) })))
}
