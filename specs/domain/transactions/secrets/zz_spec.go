//go:build go1.21

package secrets

import (
	"strconv"

	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/transactions"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops T02

//gov:lemma T02
func zzSecrets(junk, list []Secret) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	secrets, err := NewBuilder().WithList(junk).Create().WithList(list).Now()
	ok := len(list) > 0
	zzgov.Ensures("obtained exactly when not empty", (err == nil) == ok && (secrets != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("members as given", zzgov.Same(secrets.List(), list))
	zzgov.Ensures("digest of the members' digests in order", secrets.Hash() == hash.ZZDigest(zzgov.Concat(len(list), func(i int) []byte { return hash.ZZBytes(list[i].Hash()) })))
}

//gov:lemma T02
func zzSecret(junkAmount uint, junkNonce string, junkPublic transactions.Transaction, junkOrigin Secret, junkSides Secrets, amount uint, nonce string, public transactions.Transaction, origin Secret, sides Secrets) {
	zzgov.NoPanic()
	builder := NewSecretBuilder().WithAmount(junkAmount).WithNonce(junkNonce).WithPublic(junkPublic).WithOrigin(junkOrigin).WithSides(junkSides).Create()
	secret, err := builder.WithAmount(amount).WithNonce(nonce).WithPublic(public).WithOrigin(origin).WithSides(sides).Now()
	ok := amount > 0 && nonce != "" && public != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (secret != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("amount as given", secret.Amount() == amount)
	zzgov.Ensures("nonce as given", secret.Nonce() == nonce)
	zzgov.Ensures("public transaction as given", zzgov.Same(secret.Public(), public))
	zzgov.Ensures("origin exactly when given", secret.HasOrigin() == (origin != nil) && zzgov.Same(secret.Origin(), origin))
	zzgov.Ensures("sides exactly when given", secret.HasSides() == (sides != nil) && zzgov.Same(secret.Sides(), sides))
	data := string(hash.ZZBytes(public.Hash())) + strconv.Itoa(int(amount)) + nonce
	if origin != nil {
		data += string(hash.ZZBytes(origin.Hash()))
	}
	if sides != nil {
		data += string(hash.ZZBytes(sides.Hash()))
	}
	zzgov.Ensures("digest of every part", secret.Hash() == hash.ZZDigest([]byte(data)))
}
