SIG='domain/cryptography/keys/signature/'
SEEDS=[
dict(id='hash-half-compare',property='H01',pkg='domain/hash',needs='two digests that agree on their first half',breaks='digests that differ only in their second half compare equal',
 edits=[('domain/hash/hash.go','''	otherBytes := []byte{}
	for _, oneByte := range other {
		otherBytes = append(otherBytes, oneByte)
	}
''','''	otherBytes := []byte{}
	for index, oneByte := range other {
		if index < len(other)/2 {
			otherBytes = append(otherBytes, oneByte)
			continue
		}

		otherBytes = append(otherBytes, currentBytes[index])
	}
''')],demo='''
package hash
import "testing"
func TestZZDemo(t *testing.T) {
	a, b := Hash{}, Hash{}
	b[50] = 1
	if a.Compare(b) { t.Fatal("different digests compare equal") }
	if !a.Compare(a) { t.Fatal("same digests differ") }
}'''),
dict(id='ring-extra-digests',property='S03',pkg='domain/cryptography/keys/signature',needs='a verification against more digests than the ring has keys',breaks='a signature is accepted against a longer list of expected digests',
 edits=[(SIG+'ringsignature_adapter.go','if len(pubKeyHashes) != len(ringPubKeys) {','if len(pubKeyHashes) < len(ringPubKeys) {')],demo='''
package signature
import ("testing"; "github.com/steve-care-software/steve/domain/hash")
func TestZZDemo(t *testing.T) {
	pk := NewPrivateKeyFactory().Create()
	ring := []PublicKey{pk.PublicKey()}
	sig, err := pk.RingSign("msg", ring)
	if err != nil { t.Fatal(err) }
	h, _ := hash.NewAdapter().FromString(ring[0].String())
	if ok, _ := NewRingSignatureAdapter().ToVerification(sig, "msg", []hash.Hash{*h}); !ok { t.Fatal("the right digests are refused") }
	if ok, err := NewRingSignatureAdapter().ToVerification(sig, "msg", []hash.Hash{*h, *h}); ok && err == nil { t.Fatal("two digests accepted for a ring of one") }
}'''),
dict(id='ring-repeated-key-text',property='S04',pkg='domain/cryptography/keys/signature',needs='a ring in which one key stands twice in a row, written as text and read back',breaks='the ring read back is shorter and does not verify',
 edits=[(SIG+'ringsignature_adapter.go','''	for _, oneRingPointStr := range ringPointsStr {
		if oneRingPointStr == "" {
			continue
		}
''','''	for index, oneRingPointStr := range ringPointsStr {
		if oneRingPointStr == "" || (index > 0 && ringPointsStr[index-1] == oneRingPointStr) {
			continue
		}
''')],demo='''
package signature
import "testing"
func TestZZDemo(t *testing.T) {
	pk, other := NewPrivateKeyFactory().Create(), NewPrivateKeyFactory().Create()
	ring := []PublicKey{other.PublicKey(), pk.PublicKey(), pk.PublicKey()}
	sig, err := pk.RingSign("msg", ring)
	if err != nil { t.Fatal(err) }
	back, err := NewRingSignatureAdapter().ToSignature(sig.String())
	if err != nil { t.Fatal(err) }
	if !back.Verify("msg") || back.String() != sig.String() { t.Fatal("the signature does not read back") }
}'''),
dict(id='ring-sign-padded-message',property='S02',pkg='domain/cryptography/keys/signature',needs='a message with white space around it, and a ring of two or more',breaks='the signature does not verify for that message',
 edits=[(SIG+'privatekey.go','es[(i+1)%r] = createHash(msg + curve.Point().Add(sig, eipi).String())','es[(i+1)%r] = createHash(strings.TrimSpace(msg) + curve.Point().Add(sig, eipi).String())'),(SIG+'privatekey.go','"fmt"\n','"fmt"\n\t"strings"\n')],demo='''
package signature
import "testing"
func TestZZDemo(t *testing.T) {
	pk, other := NewPrivateKeyFactory().Create(), NewPrivateKeyFactory().Create()
	for _, m := range []string{"msg", " msg", "msg\\n"} {
		sig, err := pk.RingSign(m, []PublicKey{other.PublicKey(), pk.PublicKey(), other.PublicKey()})
		if err != nil { t.Fatal(err) }
		if !sig.Verify(m) { t.Fatalf("%q does not verify", m) }
	}
}'''),
dict(id='genesis-first-unit-only',property='G01',pkg='domain/genesis',needs='a genesis of two units whose second is older than the genesis',breaks='a genesis is obtained that was created after one of its units',
 edits=[('domain/genesis/builder.go','''	list := app.units.All()
	for index, oneUnit := range list {
''','''	list := app.units.All()
	for index, oneUnit := range list[:1] {
''')],demo='''
package genesis
import ("testing"; "time"; "github.com/steve-care-software/steve/domain/hash"; "github.com/steve-care-software/steve/domain/rings")
func TestZZDemo(t *testing.T) {
	h, _ := hash.NewAdapter().FromBytes([]byte("k"))
	ring, err := rings.NewRingBuilder(1, 3).Create().WithList([]hash.Hash{*h}).Now()
	if err != nil { t.Fatal(err) }
	now := time.Now()
	unit := func(on time.Time) Unit {
		c, err := NewUnitContentBuilder().Create().WithAmount(3).WithNonce("n").ActivatedOn(on).CreatedOn(on).Now()
		if err != nil { t.Fatal(err) }
		h := c.Hash()
		return createUnit(h, c, ring)
	}
	units := createUnits(*h, []Unit{unit(now.Add(time.Hour)), unit(now.Add(-time.Hour))})
	if _, err := NewBuilder().Create().WithUnits(units).WithFees(4).CreatedOn(now).Now(); err == nil { t.Fatal("accepted") }
	units = createUnits(*h, []Unit{unit(now.Add(time.Hour)), unit(now)})
	if _, err := NewBuilder().Create().WithUnits(units).WithFees(4).CreatedOn(now).Now(); err != nil { t.Fatal(err) }
}'''),
dict(id='peer-three-sections',property='N01',pkg='domain/peers',needs='a peer text with the separator twice',breaks='a text with more than a host and a port is accepted',
 edits=[('domain/peers/peer_builder.go','if len(sections) != 2 {','if len(sections) < 2 {')],demo='''
package peers
import "testing"
func TestZZDemo(t *testing.T) {
	if p, err := NewPeerBuilder(":").Create().WithString("127.0.0.1:80:90").Now(); err == nil { t.Fatal("accepted as", p.String()) }
	if _, err := NewPeerBuilder(":").Create().WithString("127.0.0.1:80").Now(); err != nil { t.Fatal(err) }
}'''),
dict(id='rules-far-duplicate',property='L05',pkg='domain/languages/lexers/containers/rules',needs='three rules of which the first and the third have the same name',breaks='two rules of the same name are accepted',
 edits=[('domain/languages/lexers/containers/rules/builder.go','''	for _, oneRule := range app.list {
		name := oneRule.Name()
		if _, ok := mp[name]; ok {''','''	for index, oneRule := range app.list {
		name := oneRule.Name()
		if index > 0 && app.list[index-1].Name() == name {''')],demo='''
package rules
import "testing"
type zzRule struct { Rule; name string }
func (r zzRule) Name() string { return r.name }
func TestZZDemo(t *testing.T) {
	a, b := zzRule{name: "a"}, zzRule{name: "b"}
	for _, l := range [][]Rule{{a, a}, {a, b, a}} {
		if _, err := NewBuilder().Create().WithRules(l).Now(); err == nil { t.Fatal("accepted") }
	}
	if _, err := NewBuilder().Create().WithRules([]Rule{a, b}).Now(); err != nil { t.Fatal(err) }
}'''),
dict(id='links-same-include',property='L13',pkg='domain/languages/lexers/references/links',needs='two links into the same included grammar',breaks='only the last link of an include is found by its referenced name',
 edits=[('domain/languages/lexers/references/links/builder.go','''		includeName := oneLink.Include().Name()
		if _, ok := mpRefToken[includeName]; !ok {
			mpRefToken[includeName] = map[string]Link{}
		}

		refToken := oneLink.ReferenceToken()
''','''		includeName := oneLink.Include().Name()
		refToken := oneLink.ReferenceToken()
		if _, ok := mpRefToken[includeName][refToken]; !ok {
			mpRefToken[includeName] = map[string]Link{}
		}

''')],demo='''
package links
import "testing"
func TestZZDemo(t *testing.T) {
	inc := &include{name: "inc"}
	mk := func(l, r string) Link { return createReference(l, r, inc) }
	lst, err := NewBuilder().Create().WithLinks([]Link{mk("a", "x"), mk("b", "y")}).Now()
	if err != nil { t.Fatal(err) }
	for _, r := range []string{"x", "y"} {
		l, err := lst.FetchByReferenceToken("inc", r)
		if err != nil || l.ReferenceToken() != r { t.Fatal(r, err) }
	}
}'''),
dict(id='block-genesis-parent',property='C01',pkg='domain/chains',needs='a first block that names a previous one',breaks='the digest of a block of height one does not cover the previous block',
 edits=[('domain/chains/block_builder.go','''	if app.previous != nil {
		data = append(data, app.previous.Bytes())
	}
''','''	if app.previous != nil && app.height > 1 {
		data = append(data, app.previous.Bytes())
	}
''')],demo='''
package chains
import ("testing"; "time"; "github.com/steve-care-software/steve/domain/hash"; "github.com/steve-care-software/steve/domain/rings"; "github.com/steve-care-software/steve/domain/transactions")
type zzTrx struct { transactions.Transactions }
func (zzTrx) Hash() hash.Hash { return hash.Hash{1} }
func TestZZDemo(t *testing.T) {
	h, _ := hash.NewAdapter().FromBytes([]byte("k"))
	ring, err := rings.NewRingBuilder(1, 3).Create().WithList([]hash.Hash{*h}).Now()
	if err != nil { t.Fatal(err) }
	now := time.Unix(100, 0)
	for _, height := range []uint{1, 2} {
		mk := func(p byte) hash.Hash {
			b, err := NewBlockBuilder().Create().WithHeight(height).WithFees(ring).WithTransactions(zzTrx{}).CreatedOn(now).WithPrevious(hash.Hash{p}).Now()
			if err != nil { t.Fatal(err) }
			return b.Hash()
		}
		if mk(1) == mk(2) { t.Fatal("same digest for different previous blocks at height", height) }
	}
}'''),
dict(id='secret-origin-or-sides',property='T02',pkg='domain/transactions/secrets',needs='a secret with both an origin and sides',breaks='the digest of a secret with an origin does not cover its sides',
 edits=[('domain/transactions/secrets/secret_builder.go','''	if app.origin != nil {
		data = append(data, app.origin.Hash().Bytes())
	}

	if app.sides != nil {
		data''','''	if app.origin != nil {
		data = append(data, app.origin.Hash().Bytes())
	} else if app.sides != nil {
		data''')],demo='''
package secrets
import ("testing"; "github.com/steve-care-software/steve/domain/hash"; "github.com/steve-care-software/steve/domain/transactions")
type zzTrx struct { transactions.Transaction }
func (zzTrx) Hash() hash.Hash { return hash.Hash{1} }
func TestZZDemo(t *testing.T) {
	mk := func(p byte) hash.Hash {
		o := createSecret(hash.Hash{9}, 1, "n", zzTrx{})
		s, err := NewSecretBuilder().Create().WithAmount(3).WithNonce("n").WithPublic(zzTrx{}).WithOrigin(o).WithSides(createSecrets(hash.Hash{p}, []Secret{o})).Now()
		if err != nil { t.Fatal(err) }
		return s.Hash()
	}
	if mk(1) == mk(2) { t.Fatal("the sides are not part of the digest") }
}'''),
dict(id='identity-empty-side',property='I01',pkg='domain/identities',needs='an identity that has both received and sent',breaks='the incoming transactions are lost when outgoing ones are there',
 edits=[('domain/identities/transactions.go','''	return createTransactionsInternally(outgoing, incoming)''','''	return createTransactionsInternally(outgoing, nil)''')],demo='''
package identities
import ("testing"; "github.com/steve-care-software/steve/domain/transactions/secrets"; "github.com/steve-care-software/steve/domain/transactions/privates")
type zzS struct { secrets.Secrets }
type zzP struct { privates.Privates }
func TestZZDemo(t *testing.T) {
	tr, err := NewTransactionsBuilder().Create().WithIncoming(zzS{}).WithOutgoing(zzP{}).Now()
	if err != nil { t.Fatal(err) }
	if !tr.HasIncoming() || !tr.HasOutgoing() { t.Fatal("lost") }
}'''),
dict(id='cardinality-shared-range',property='L01',pkg='domain/languages/lexers/cardinality',needs='a range whose minimum is above one and whose maximum is set',breaks='the interval reported for such a range starts too low',
 edits=[('domain/languages/lexers/cardinality/range.go','''	out := rnge{
		min: min,
''','''	if max != nil && *max < min {
		min = *max
	}

	out := rnge{
		min: min,
''')],demo='''
package cardinality
import "testing"
func TestZZDemo(t *testing.T) {
	r, err := NewRangeBuilder().Create().WithMinimum(4).WithMaximum(2).Now()
	if err != nil { t.Fatal(err) }
	s, err := NewSpecificBuilder().Create().WithRange(r).Now()
	if err != nil { t.Fatal(err) }
	c, err := NewBuilder().Create().WithSpecific(s).Now()
	if err != nil { t.Fatal(err) }
	for i := uint(0); i < 8; i++ {
		if c.IsValid(i) { t.Fatal("no amount lies within 4 and 2, yet this one does:", i) }
	}
}'''),
]
