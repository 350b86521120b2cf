//go:build go1.21

package transactions

import (
	"strconv"
	"time"

	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/genesis"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/rings"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops T01

//gov:lemma T01
func zzTransactions(junk, list []Transaction) {
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	trx, err := NewBuilder().WithList(junk).Create().WithList(list).Now()
	ok := len(list) > 0
	zzgov.Ensures("obtained exactly when not empty", (err == nil) == ok && (trx != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("members as given", zzgov.Same(trx.List(), list))
	zzgov.Ensures("digest of the members' digests in order", trx.Hash() == hash.ZZDigest(zzgov.Concat(len(list), func(i int) []byte { return hash.ZZBytes(list[i].Hash()) })))
}

//gov:lemma T01
func zzTransaction(junkContent Content, junkAuth signature.RingSignature, content Content, auth signature.RingSignature) {
	zzgov.Requires(auth == nil || signature.ZZRing(auth))
	zzgov.NoPanic()
	trx, err := NewTransactionBuilder().WithContent(junkContent).WithAuthorization(junkAuth).Create().WithContent(content).WithAuthorization(auth).Now()
	ok := content != nil && auth != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (trx != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("content as given", zzgov.Same(trx.Content(), content))
	zzgov.Ensures("authorization as given", zzgov.Same(trx.Authorization(), auth))
	zzgov.Ensures("digest of every part", trx.Hash() == hash.ZZDigest([]byte(string(hash.ZZBytes(content.Hash()))+auth.String())))
}

//gov:lemma T01
func zzContent(junkOwner rings.Ring, junkAmount hash.Hash, junkOrigin Origin, junkExternal hash.Hash, junkTime time.Time, owner rings.Ring, withAmount bool, amount hash.Hash, origin Origin, withExternal bool, external hash.Hash, withTime bool, at time.Time) {
	zzgov.Requires(origin == nil || origin.IsGenesis() || origin.IsTransaction())
	zzgov.NoPanic()
	builder := NewContentBuilder().WithOwner(junkOwner).WithAmount(junkAmount).WithOrigin(junkOrigin).WithExternal(junkExternal).CreatedOn(junkTime).Create()
	builder = builder.WithOwner(owner).WithOrigin(origin)
	if withAmount {
		builder = builder.WithAmount(amount)
	}
	if withExternal {
		builder = builder.WithExternal(external)
	}
	if withTime {
		builder = builder.CreatedOn(at)
	}
	content, err := builder.Now()
	ok := owner != nil && withAmount && origin != nil && withExternal && withTime
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (content != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("owner as given", zzgov.Same(content.Owner(), owner))
	zzgov.Ensures("amount as given", content.Amount() == amount)
	zzgov.Ensures("origin as given", zzgov.Same(content.Origin(), origin))
	zzgov.Ensures("external digest as given", content.External() == external)
	zzgov.Ensures("creation time as given", zzgov.Same(content.CreatedOn(), at))
	data := string(hash.ZZBytes(owner.Hash())) + string(hash.ZZBytes(amount)) + string(hash.ZZBytes(origin.Hash())) + string(hash.ZZBytes(external)) + strconv.Itoa(int(at.Unix()))
	zzgov.Ensures("digest of every part", content.Hash() == hash.ZZDigest([]byte(data)))
}

//gov:lemma T01
func zzOrigin(junkGenesis genesis.Unit, junkTrx Transaction, unit genesis.Unit, trx Transaction) {
	zzgov.NoPanic()
	origin, err := NewOriginBuilder().WithGenesis(junkGenesis).WithTransaction(junkTrx).Create().WithGenesis(unit).WithTransaction(trx).Now()
	ok := unit != nil || trx != nil
	zzgov.Ensures("obtained exactly when one is given", (err == nil) == ok && (origin != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("exactly one kind", origin.IsGenesis() == !origin.IsTransaction())
	zzgov.Ensures("a genesis unit when one is given", origin.IsGenesis() == (unit != nil))
	if unit != nil {
		zzgov.Ensures("genesis unit as given", zzgov.Same(origin.Genesis(), unit))
		zzgov.Ensures("digest of the genesis unit", origin.Hash() == unit.Hash())
		return
	}
	zzgov.Ensures("transaction as given", zzgov.Same(origin.Transaction(), trx))
	zzgov.Ensures("digest of the transaction", origin.Hash() == trx.Hash())
}
