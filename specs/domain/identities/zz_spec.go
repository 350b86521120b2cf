//go:build go1.21

package identities

import (
	"github.com/steve-care-software/steve/domain/transactions/privates"
	"github.com/steve-care-software/steve/domain/transactions/secrets"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops I01

//gov:lemma I01
func zzIdentity(junkName string, junkTrx Transactions, junkGenesis privates.Privates, name string, trx Transactions, genesis privates.Privates) {
	zzgov.NoPanic()
	identity, err := NewBuilder().WithName(junkName).WithTransactions(junkTrx).WithGenesis(junkGenesis).Create().WithName(name).WithTransactions(trx).WithGenesis(genesis).Now()
	ok := name != "" && trx != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (identity != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", identity.Name() == name)
	zzgov.Ensures("transactions as given", zzgov.Same(identity.Transactions(), trx))
	zzgov.Ensures("genesis exactly when given", identity.HasGenesis() == (genesis != nil) && zzgov.Same(identity.Genesis(), genesis))
}

//gov:lemma I01
func zzTransactions(junkOutgoing privates.Privates, junkIncoming secrets.Secrets, outgoing privates.Privates, incoming secrets.Secrets) {
	zzgov.NoPanic()
	trx, err := NewTransactionsBuilder().WithOutgoing(junkOutgoing).WithIncoming(junkIncoming).Create().WithOutgoing(outgoing).WithIncoming(incoming).Now()
	zzgov.Ensures("always obtained", err == nil && trx != nil)
	zzgov.Ensures("outgoing exactly when given", trx.HasOutgoing() == (outgoing != nil) && zzgov.Same(trx.Outgoing(), outgoing))
	zzgov.Ensures("incoming exactly when given", trx.HasIncoming() == (incoming != nil) && zzgov.Same(trx.Incoming(), incoming))
}
