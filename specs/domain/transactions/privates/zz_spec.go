//go:build go1.21

package privates

import (
	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/receipts"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops T02

//gov:lemma T02
func zzPrivates(junk, list []Private) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	privates, err := NewBuilder().WithList(junk).Create().WithList(list).Now()
	ok := len(list) > 0
	zzgov.Ensures("obtained exactly when not empty", (err == nil) == ok && (privates != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("members as given", zzgov.Same(privates.List(), list))
	zzgov.Ensures("digest of the members' digests in order", privates.Hash() == hash.ZZDigest(zzgov.Concat(len(list), func(i int) []byte { return hash.ZZBytes(list[i].Hash()) })))
}

//gov:lemma T02
func zzPrivate(junkKey signature.PrivateKey, junkReceipt receipts.Receipt, pk signature.PrivateKey, receipt receipts.Receipt) {
	zzgov.Requires(pk == nil || signature.ZZKey(pk))
	zzgov.NoPanic()
	private, err := NewPrivateBuilder().WithPrivateKey(junkKey).WithReceipt(junkReceipt).Create().WithPrivateKey(pk).WithReceipt(receipt).Now()
	ok := pk != nil && receipt != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (private != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("private key as given", zzgov.Same(private.PrivateKey(), pk))
	zzgov.Ensures("receipt as given", zzgov.Same(private.Receipt(), receipt))
	zzgov.Ensures("digest of every part", private.Hash() == hash.ZZDigest([]byte(string(hash.ZZBytes(receipt.Hash()))+pk.String())))
}
