//go:build go1.21

package signature

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/hash"

	"github.com/steve-care-software/steve/zzgov"
	kyber "go.dedis.ch/kyber/v3"
)

//gov:fileprops S01 S02 S03 S04

// ZZKey tells whether a private key is one the package makes.
func ZZKey(k PrivateKey) bool {
	a, ok := k.(*privateKey)
	return ok && a != nil && a.x != nil
}

// ZZPub tells whether a public key is one the package makes.
func ZZPub(k PublicKey) bool {
	a, ok := k.(*publicKey)
	return ok && a != nil && a.p != nil
}

// ZZSig tells whether a signature is one the package makes.
func ZZSig(k Signature) bool {
	a, ok := k.(*signature)
	return ok && a != nil && a.s != nil && ZZPub(a.r)
}

func zzPubs(ring []PublicKey) bool {
	return zzgov.ForAll(0, len(ring), func(i int) bool { return ZZPub(ring[i]) })
}

func zzScalars(s []kyber.Scalar) bool {
	return zzgov.ForAll(0, len(s), func(i int) bool { return s[i] != nil })
}

//gov:contract privateKey.String
func zzPrivateText(app *privateKey) func(s string) {
	zzgov.Requires(ZZKey(app))
	zzgov.NoPanic()
	return func(s string) {
		zzgov.Ensures("text of the scalar", s == app.x.String())
	}
}

//gov:contract publicKey.String
func zzPublicText(app *publicKey) func(s string) {
	zzgov.Requires(ZZPub(app))
	zzgov.NoPanic()
	return func(s string) {
		zzgov.Ensures("text of the point", s == app.p.String())
	}
}

//gov:contract signature.String
//gov:use
func zzSignatureText(app *signature) func(s string) {
	zzgov.Requires(ZZSig(app))
	zzgov.NoPanic()
	return func(s string) {
		zzgov.Ensures("commitment and response", s == base64.StdEncoding.EncodeToString([]byte(app.r.String()+"#"+app.s.String())))
	}
}

//gov:contract ringSignature.String
//gov:use
func zzRingText(app *ringSignature) func(s string) {
	zzgov.Requires(app != nil && app.e != nil && zzPubs(app.ring) && zzScalars(app.s))
	zzgov.NoPanic()
	return func(s string) {
		ring := zzgov.ConcatS(len(app.ring), func(i int) string { return app.ring[i].String() + "|" })
		ss := zzgov.ConcatS(len(app.s), func(i int) string { return app.s[i].String() + "|" })
		zzgov.Ensures("ring, scalars and challenge", s == base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("%s#%s#%s", ring, ss, app.e.String()))))
	}
}

// a signature made by Sign yields the signer's public key
//
//gov:lemma S01
func zzSignRecovers(app *privateKey, msg string) {
	zzgov.Requires(ZZKey(app))
	zzgov.NoPanic()
	sig, err := app.Sign(msg)
	zzgov.Ensures("signing succeeds", err == nil && sig != nil)
	if err != nil {
		return
	}
	zzgov.Ensures("the signer's public key", sig.PublicKey(msg).Equals(app.PublicKey()))
}

// zzChain is the challenge obtained after the first n keys, starting from e.
//
//gov:ghost
func zzChain(ring []PublicKey, s []kyber.Scalar, e kyber.Scalar, msg string, n int) kyber.Scalar {
	if n <= 0 {
		return e
	}
	prev := zzChain(ring, s, e, msg, n-1)
	p := curve.Point().Add(curve.Point().Mul(s[n-1], curve.Point().Base()), curve.Point().Mul(prev, ring[n-1].Point()))
	return createHash(msg + p.String())
}

func zzInvChain(iter zzgov.Iter, app *ringSignature, msg string, e kyber.Scalar) bool {
	return e == zzChain(app.ring, app.s, app.e, msg, int(iter))
}

// ZZRing tells whether a ring signature is one the package makes.
func ZZRing(k RingSignature) bool {
	a, ok := k.(*ringSignature)
	return ok && a != nil && a.e != nil && zzPubs(a.ring) && zzScalars(a.s)
}

//gov:contract ringSignature.Verify
//gov:use
//gov:inv zzInvChain
func zzVerify(app *ringSignature, msg string) func(ok bool) {
	zzgov.Requires(ZZRing(app))
	zzgov.NoPanic()
	return func(ok bool) {
		whole := len(app.ring) > 0 && len(app.s) == len(app.ring)
		zzgov.Ensures("a part is missing or in excess: refused", whole || !ok)
		if whole {
			zzgov.Ensures("accepted exactly when the chain closes", ok == app.e.Equal(zzChain(app.ring, app.s, app.e, msg, len(app.ring))))
		}
	}
}

func zzDigestOf(k PublicKey) hash.Hash {
	b, err := hex.DecodeString(k.String())
	if err != nil {
		return hash.Hash{}
	}
	return hash.ZZDigest(b)
}

//gov:lemma S03
func zzToVerification(sig RingSignature, msg string, hashes []hash.Hash) {
	zzgov.Requires(ZZRing(sig))
	zzgov.NoPanic()
	ok, err := NewRingSignatureAdapter().ToVerification(sig, msg, hashes)
	ring := sig.Ring()
	want := sig.Verify(msg) && len(hashes) == len(ring) && zzgov.ForAll(0, len(ring), func(i int) bool { return zzDigestOf(ring[i]) == hashes[i] })
	zzgov.Ensures("answer or error", (err == nil) == ok)
	zzgov.Ensures("accepted exactly when it verifies and the digests agree", ok == want)
}

//gov:lemma S04
func zzPrivateRoundTrip(app *privateKey) {
	zzgov.Requires(ZZKey(app))
	zzgov.NoPanic()
	k, err := NewPrivateKeyAdapter().ToPrivateKey(app.String())
	zzgov.Ensures("reads back", err == nil && ZZKey(k) && k.(*privateKey).x.Equal(app.x))
}

//gov:lemma S04
func zzPublicRoundTrip(app *publicKey) {
	zzgov.Requires(ZZPub(app))
	zzgov.NoPanic()
	k, err := NewPublicKeyAdapter().ToPublicKey(app.String())
	zzgov.Ensures("reads back", err == nil && ZZPub(k) && k.Equals(app))
}

//gov:lemma S04
func zzSignatureRoundTrip(app *signature) {
	zzgov.Requires(ZZSig(app))
	zzgov.NoPanic()
	k, err := NewAdapter().ToSignature(app.String())
	zzgov.Ensures("reads back", err == nil && ZZSig(k) && k.(*signature).s.Equal(app.s) && k.(*signature).r.Equals(app.r))
}

func zzInvKeys(iter zzgov.Iter, app *ringSignature, ring []PublicKey) bool {
	m := int(iter)
	if m > len(app.ring) {
		m = len(app.ring)
	}
	return len(ring) == m && zzgov.ForAll(0, m, func(i int) bool { return ring[i].Equals(app.ring[i]) })
}

func zzInvScalars(iter zzgov.Iter, app *ringSignature, s []kyber.Scalar) bool {
	m := int(iter)
	if m > len(app.s) {
		m = len(app.s)
	}
	return len(s) == m && zzgov.ForAll(0, m, func(i int) bool { return s[i].Equal(app.s[i]) })
}

//gov:lemma S04
//gov:inv zzInvKeys zzInvScalars
func zzRingRoundTrip(app *ringSignature) {
	zzgov.Requires(ZZRing(app))
	zzgov.NoPanic()
	k, err := NewRingSignatureAdapter().ToSignature(app.String())
	zzgov.Ensures("reads back", err == nil)
	if err != nil {
		return
	}
	b := k.(*ringSignature)
	zzgov.Ensures("same challenge", b.e.Equal(app.e))
	zzgov.Ensures("same ring", len(b.ring) == len(app.ring) && zzgov.ForAll(0, len(b.ring), func(i int) bool { return b.ring[i].Equals(app.ring[i]) }))
	zzgov.Ensures("same scalars", len(b.s) == len(app.s) && zzgov.ForAll(0, len(b.s), func(i int) bool { return b.s[i].Equal(app.s[i]) }))
}

// sections counts the sections of an encoded text, 0 when it cannot be decoded.
func zzSections(text string) int {
	b, err := base64.StdEncoding.DecodeString(text)
	if err != nil {
		return 0
	}
	return len(strings.Split(string(b), "#"))
}

//gov:lemma S04
func zzMalformedSignature(text string) {
	zzgov.NoPanic()
	k, err := NewAdapter().ToSignature(text)
	zzgov.Ensures("answer or error", (err == nil) == (k != nil))
	zzgov.Ensures("two sections or refused", err != nil || zzSections(text) == 2)
	zzgov.Ensures("a whole signature", err != nil || ZZSig(k))
}

func zzInvWholeKeys(ring []PublicKey) bool { return zzPubs(ring) }

func zzInvWholeScalars(s []kyber.Scalar) bool { return zzScalars(s) }

//gov:lemma S04
//gov:inv zzInvWholeKeys zzInvWholeScalars
func zzMalformedRing(text string) {
	zzgov.NoPanic()
	k, err := NewRingSignatureAdapter().ToSignature(text)
	zzgov.Ensures("answer or error", (err == nil) == (k != nil))
	zzgov.Ensures("three sections or refused", err != nil || zzSections(text) == 3)
	zzgov.Ensures("a whole signature", err != nil || ZZRing(k))
}

//gov:lemma S04
func zzMalformedKeys(text string) {
	zzgov.NoPanic()
	_, bad := hex.DecodeString(text)
	k, err := NewPrivateKeyAdapter().ToPrivateKey(text)
	zzgov.Ensures("private key or error", (err == nil) == (k != nil) && (err != nil || ZZKey(k)))
	zzgov.Ensures("not hexadecimal: no private key", bad == nil || err != nil)
	p, err := NewPublicKeyAdapter().ToPublicKey(text)
	zzgov.Ensures("public key or error", (err == nil) == (p != nil) && (err != nil || ZZPub(p)))
	zzgov.Ensures("not hexadecimal: no public key", bad == nil || err != nil)
}

func zzInvIn(ringPubKeys []PublicKey, i int) bool { return 0 <= i && i < len(ringPubKeys) }

// the signer is refused exactly when its key is not in the ring
//
//gov:lemma S02
//gov:inv zzInvIn
func zzRingSign(app *privateKey, msg string, ringPubKeys []PublicKey) {
	zzgov.Requires(ZZKey(app) && zzPubs(ringPubKeys))
	zzgov.NoPanic()
	r := len(ringPubKeys)
	in := zzgov.Exists(0, r, func(i int) bool { return ringPubKeys[i].Equals(app.PublicKey()) })
	sig, err := app.RingSign(msg, ringPubKeys)
	zzgov.Ensures("signs exactly when in the ring", (err == nil) == in && (sig != nil) == in)
	if err != nil {
		return
	}
	zzgov.Ensures("reports the ring", zzgov.Same(sig.Ring(), ringPubKeys))
	b := sig.(*ringSignature)
	zzgov.Ensures("one scalar per key", len(b.s) == r)
}

// zzStep is the challenge that follows challenge e, response s and key p.
func zzStep(e, s kyber.Scalar, p PublicKey, msg string) kyber.Scalar {
	q := curve.Point().Add(curve.Point().Mul(s, curve.Point().Base()), curve.Point().Mul(e, p.Point()))
	return createHash(msg + q.String())
}

// zzNext is the position after j in a ring of r keys.
func zzNext(j, r int) int {
	if j+1 < r {
		return j + 1
	}
	return 0
}

// zzDone tells whether position j was passed on the way from after signer to i.
func zzDone(j, i, signer int) bool {
	if i > signer {
		return signer < j && j < i
	}
	return j > signer || j < i
}

func zzInvLinks(ringPubKeys []PublicKey, msg string, i int, fix_signerIndex int, cell_es, cell_ss []kyber.Scalar) bool {
	r := len(ringPubKeys)
	return zzgov.ForAll(0, r, func(j int) bool {
		return !zzDone(j, i, fix_signerIndex) || cell_es[zzNext(j, r)] == zzStep(cell_es[j], cell_ss[j], ringPubKeys[j], msg)
	})
}

func zzInvFirst(ringPubKeys []PublicKey, app *privateKey, msg string, fix_signerIndex int, cell_es []kyber.Scalar) bool {
	return cell_es[zzNext(fix_signerIndex, len(ringPubKeys))] == createHash(msg+curve.Point().Mul(genK(app.x, msg), curve.Point().Base()).String())
}

func zzInvWalk(iter zzgov.Iter, ringPubKeys []PublicKey, fix_b *ringSignature, msg string, e kyber.Scalar) bool {
	return e == zzChain(ringPubKeys, fix_b.s, fix_b.e, msg, int(iter))
}

func zzInvMeets(iter zzgov.Iter, ringPubKeys []PublicKey, cell_es []kyber.Scalar, e kyber.Scalar) bool {
	i := int(iter)
	if i >= len(ringPubKeys) {
		i = 0
	}
	return e == cell_es[i]
}

func zzInvClosed(iter zzgov.Iter, ringPubKeys []PublicKey, msg string, fix_signerIndex int, cell_es, cell_ss []kyber.Scalar, e kyber.Scalar) bool {
	r := len(ringPubKeys)
	i := fix_signerIndex
	return cell_es[zzNext(i, r)] == zzStep(cell_es[i], cell_ss[i], ringPubKeys[i], msg)
}

func zzInvAll(ringPubKeys []PublicKey, msg string, fix_signerIndex int, cell_es, cell_ss []kyber.Scalar, e kyber.Scalar) bool {
	r := len(ringPubKeys)
	return zzgov.ForAll(0, r, func(j int) bool {
		return j == fix_signerIndex || cell_es[zzNext(j, r)] == zzStep(cell_es[j], cell_ss[j], ringPubKeys[j], msg)
	})
}

// every member of a ring signs for it
//
//gov:lemma S02
//gov:inv zzInvIn zzInvLinks zzInvFirst zzInvWalk zzInvClosed zzInvAll zzInvMeets
func zzRingSigns(app *privateKey, msg string, ringPubKeys []PublicKey) {
	zzgov.Requires(ZZKey(app) && zzPubs(ringPubKeys))
	sig, err := app.RingSign(msg, ringPubKeys)
	if err != nil {
		return
	}
	b := sig.(*ringSignature)
	e := b.e
	for n := 0; n < len(ringPubKeys); n++ {
		e = zzStep(e, b.s[n], ringPubKeys[n], msg)
	}
	zzgov.Ensures("the chain closes", e.Equal(b.e))
	zzgov.Ensures("the signature verifies", sig.Verify(msg))
}
