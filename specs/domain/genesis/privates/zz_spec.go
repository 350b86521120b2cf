//go:build go1.21

package privates

import (
	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/genesis"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops G01

//gov:lemma G01
func zzPrivates(junk, list []Private) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	privates, err := NewBuilder().WithList(junk).Create().WithList(list).Now()
	ok := len(list) > 0
	zzgov.Ensures("obtained exactly when not empty", (err == nil) == ok && (privates != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("members as given", zzgov.Same(privates.List(), list))
	zzgov.Ensures("digest of the members' digests in order", privates.Hash() == hash.ZZDigest(zzgov.Concat(len(list), func(i int) []byte { return hash.ZZBytes(list[i].Hash()) })))
}

//gov:lemma G01
func zzPrivate(junkUnit genesis.Unit, junkKey signature.PrivateKey, unit genesis.Unit, pk signature.PrivateKey) {
	zzgov.Requires(pk == nil || signature.ZZKey(pk))
	zzgov.NoPanic()
	private, err := NewPrivateBuilder().WithUnit(junkUnit).WithPrivateKey(junkKey).Create().WithUnit(unit).WithPrivateKey(pk).Now()
	ok := unit != nil && pk != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (private != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("unit as given", zzgov.Same(private.Unit(), unit))
	zzgov.Ensures("private key as given", zzgov.Same(private.PrivateKey(), pk))
	zzgov.Ensures("digest of every part", private.Hash() == hash.ZZDigest([]byte(string(hash.ZZBytes(unit.Hash()))+pk.String())))
}
