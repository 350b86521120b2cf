//go:build go1.21

package receipts

import (
	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/transactions/secrets"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops T02

//gov:lemma T02
func zzReceipt(junkSecret secrets.Secret, junkSig signature.Signature, secret secrets.Secret, sig signature.Signature) {
	zzgov.Requires(sig == nil || signature.ZZSig(sig))
	zzgov.NoPanic()
	receipt, err := NewBuilder().WithSecret(junkSecret).WithSignature(junkSig).Create().WithSecret(secret).WithSignature(sig).Now()
	ok := secret != nil && sig != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (receipt != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("secret as given", zzgov.Same(receipt.Secret(), secret))
	zzgov.Ensures("signature as given", zzgov.Same(receipt.Signature(), sig))
	zzgov.Ensures("digest of every part", receipt.Hash() == hash.ZZDigest([]byte(string(hash.ZZBytes(secret.Hash()))+sig.String())))
}
