//go:build go1.21

package chains

import (
	"strconv"
	"time"

	uuid "github.com/satori/go.uuid"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/rings"
	"github.com/steve-care-software/steve/domain/transactions"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops C01

//gov:lemma C01
func zzBlock(junkHeight uint, junkFees rings.Ring, junkTrx transactions.Transactions, junkTime time.Time, junkPrev hash.Hash, height uint, fees rings.Ring, trx transactions.Transactions, withTime bool, at time.Time, withPrev bool, prev hash.Hash) {
	zzgov.NoPanic()
	builder := NewBlockBuilder().WithHeight(junkHeight).WithFees(junkFees).WithTransactions(junkTrx).CreatedOn(junkTime).WithPrevious(junkPrev).Create()
	builder = builder.WithHeight(height).WithFees(fees).WithTransactions(trx)
	if withTime {
		builder = builder.CreatedOn(at)
	}
	if withPrev {
		builder = builder.WithPrevious(prev)
	}
	block, err := builder.Now()
	ok := height > 0 && fees != nil && trx != nil && withTime
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (block != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("height as given", block.Height() == height)
	zzgov.Ensures("fees as given", zzgov.Same(block.Fees(), fees))
	zzgov.Ensures("transactions as given", zzgov.Same(block.Transactions(), trx))
	zzgov.Ensures("creation time as given", zzgov.Same(block.CreatedOn(), at))
	zzgov.Ensures("previous block exactly when given", block.HasPrevious() == withPrev && (block.Previous() != nil) == withPrev)
	data := strconv.Itoa(int(height)) + string(hash.ZZBytes(fees.Hash())) + string(hash.ZZBytes(trx.Hash())) + strconv.Itoa(int(at.Unix()))
	if withPrev {
		zzgov.Ensures("previous block as given", *block.Previous() == prev)
		data += string(hash.ZZBytes(prev))
	}
	zzgov.Ensures("digest of every part", block.Hash() == hash.ZZDigest([]byte(data)))
}

//gov:lemma C01
func zzChain(junkID uuid.UUID, junkRoot hash.Hash, junkHead Block, junkTime time.Time, withID bool, id uuid.UUID, withRoot bool, root hash.Hash, head Block, withTime bool, at time.Time) {
	zzgov.NoPanic()
	builder := NewBuilder().WithID(junkID).WithRoot(junkRoot).WithHead(junkHead).CreatedOn(junkTime).Create()
	if withID {
		builder = builder.WithID(id)
	}
	if withRoot {
		builder = builder.WithRoot(root)
	}
	if withTime {
		builder = builder.CreatedOn(at)
	}
	chain, err := builder.WithHead(head).Now()
	ok := withID && withRoot && withTime
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (chain != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("identifier as given", chain.ID() == id)
	zzgov.Ensures("root as given", chain.Root() == root)
	zzgov.Ensures("creation time as given", zzgov.Same(chain.CreatedOn(), at))
	zzgov.Ensures("head exactly when given", chain.HasHead() == (head != nil) && zzgov.Same(chain.Head(), head))
	data := string(id.Bytes()) + string(hash.ZZBytes(root)) + strconv.Itoa(int(at.Unix()))
	if head != nil {
		data += string(hash.ZZBytes(head.Hash()))
	}
	zzgov.Ensures("digest of every part", chain.Hash() == hash.ZZDigest([]byte(data)))
}
