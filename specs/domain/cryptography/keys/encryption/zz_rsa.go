//go:build go1.21

package encryption

import (
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"

	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops E02

//gov:helper
func zzSamePrivate(a PrivateKey, key rsa.PrivateKey) bool {
	ky := a.Key()
	return ky.Equal(&key)
}

//gov:helper
func zzSamePublic(a PublicKey, key rsa.PublicKey) bool {
	ky := a.Key()
	return ky.Equal(&key)
}

// zzMade: what a builder makes of a key.
//
//gov:lemma E02
//gov:noreplay
func zzMade(key *rsa.PrivateKey, message []byte) {
	zzgov.Requires(key != nil && key.Validate() == nil)
	zzgov.NoPanic()
	pk, err := NewBuilder().Create().WithPK(*key).Now()
	zzgov.Ensures("a private key is built", err == nil && pk != nil)
	zzgov.Ensures("it holds the key given", zzSamePrivate(pk, *key))
	zzgov.Ensures("its public half is that of the key", zzSamePublic(pk.Public(), key.PublicKey))
	pub, err := NewPublicKeyBuilder().Create().WithKey(key.PublicKey).Now()
	zzgov.Ensures("a public key is built", err == nil && pub != nil && zzSamePublic(pub, key.PublicKey))
	for _, half := range []PublicKey{pk.Public(), pub} {
		text, err := half.Encrypt(message)
		if err != nil {
			continue
		}
		back, err := pk.Decrypt(text)
		zzgov.Ensures("what the public half encrypted is accepted", err == nil)
		zzgov.Ensures("the message comes back unchanged", string(back) == string(message))
	}
}

// zzFresh: the same of a key as the factory makes it.
//
//gov:lemma E02
func zzFresh(message []byte) {
	zzgov.NoPanic()
	pk, err := NewFactory(2048).Create()
	if err != nil {
		return
	}
	zzgov.Ensures("a key is made", pk != nil)
	text, err := pk.Public().Encrypt(message)
	if err == nil {
		back, err := pk.Decrypt(text)
		zzgov.Ensures("what the public half encrypted is accepted", err == nil)
		zzgov.Ensures("the message comes back unchanged", string(back) == string(message))
	}
	zzPrivateText(pk)
	zzPublicText(pk.Public())
}

//gov:helper
func zzPrivateText(pk PrivateKey) {
	ad := NewAdapter()
	back, err := ad.FromEncoded(ad.ToEncoded(pk))
	zzgov.Ensures("the text of a private key is read back", err == nil && back != nil)
	zzgov.Ensures("as the same private key", zzSamePrivate(back, pk.Key()))
	ky := pk.Key()
	zzgov.Ensures("with the same public half", zzSamePublic(back.Public(), ky.PublicKey))
	again, err := ad.FromBytes(ad.ToBytes(pk))
	zzgov.Ensures("the bytes of a private key are read back", err == nil && again != nil && zzSamePrivate(again, pk.Key()))
}

//gov:helper
func zzPublicText(pub PublicKey) {
	ad := NewPublickeyAdapter()
	back, err := ad.FromEncoded(ad.ToEncoded(pub))
	zzgov.Ensures("the text of a public key is read back", err == nil && back != nil)
	zzgov.Ensures("as the same public key", zzSamePublic(back, pub.Key()))
	again, err := ad.FromBytes(ad.ToBytes(pub))
	zzgov.Ensures("the bytes of a public key are read back", err == nil && again != nil && zzSamePublic(again, pub.Key()))
	h, err := ad.ToHash(pub)
	want, _ := hash.NewAdapter().FromBytes(ad.ToBytes(pub))
	zzgov.Ensures("its digest is that of its bytes", err == nil && h != nil && *h == *want)
}

// zzEncoded: keys survive their encodings.
//
//gov:lemma E02
//gov:noreplay
func zzEncoded(key *rsa.PrivateKey) {
	zzgov.Requires(key != nil && key.Validate() == nil)
	zzgov.NoPanic()
	pk, err := NewBuilder().Create().WithPK(*key).Now()
	if err != nil {
		return
	}
	zzPrivateText(pk)
	zzPublicText(pk.Public())
}

//gov:contract Adapter.FromBytes
func zzReadPrivate(app Adapter, input []byte) func(pk PrivateKey, err error) {
	zzgov.Requires(app != nil)
	ad := app.(*adapter)
	zzgov.Requires(ad.builder != nil && ad.builder.(*builder).pubKeyBuilder != nil)
	zzgov.NoPanic()
	want, bad := x509.ParsePKCS1PrivateKey(input)
	return func(pk PrivateKey, err error) {
		if bad != nil {
			zzgov.Ensures("what is not a private key is refused", err != nil && pk == nil)
			return
		}
		zzgov.Ensures("a private key is read", err == nil && pk != nil)
		zzgov.Ensures("it is the key encoded", zzSamePrivate(pk, *want) && zzSamePublic(pk.Public(), want.PublicKey))
	}
}

//gov:contract Adapter.FromEncoded
func zzReadPrivateText(app Adapter, text string) func(pk PrivateKey, err error) {
	zzgov.Requires(app != nil)
	ad := app.(*adapter)
	zzgov.Requires(ad.builder != nil && ad.builder.(*builder).pubKeyBuilder != nil)
	zzgov.NoPanic()
	raw, bad := base64.StdEncoding.DecodeString(text)
	return func(pk PrivateKey, err error) {
		if bad != nil {
			zzgov.Ensures("what is not base64 is refused", err != nil && pk == nil)
			return
		}
		want, bad := x509.ParsePKCS1PrivateKey(raw)
		if bad != nil {
			zzgov.Ensures("what is not a private key is refused", err != nil && pk == nil)
			return
		}
		zzgov.Ensures("a private key is read", err == nil && pk != nil && zzSamePrivate(pk, *want))
	}
}

//gov:contract PublicKeyAdapter.FromBytes
func zzReadPublic(app PublicKeyAdapter, input []byte) func(pub PublicKey, err error) {
	zzgov.Requires(app != nil && app.(*publicKeyAdapter).publicKeyBuilder != nil)
	zzgov.NoPanic()
	want, bad := x509.ParsePKCS1PublicKey(input)
	return func(pub PublicKey, err error) {
		if bad != nil {
			zzgov.Ensures("what is not a public key is refused", err != nil && pub == nil)
			return
		}
		zzgov.Ensures("a public key is read", err == nil && pub != nil)
		zzgov.Ensures("it is the key encoded", zzSamePublic(pub, *want))
	}
}

//gov:contract PublicKeyAdapter.FromEncoded
func zzReadPublicText(app PublicKeyAdapter, text string) func(pub PublicKey, err error) {
	zzgov.Requires(app != nil && app.(*publicKeyAdapter).publicKeyBuilder != nil)
	zzgov.NoPanic()
	raw, bad := base64.StdEncoding.DecodeString(text)
	return func(pub PublicKey, err error) {
		if bad != nil {
			zzgov.Ensures("what is not base64 is refused", err != nil && pub == nil)
			return
		}
		want, bad := x509.ParsePKCS1PublicKey(raw)
		if bad != nil {
			zzgov.Ensures("what is not a public key is refused", err != nil && pub == nil)
			return
		}
		zzgov.Ensures("a public key is read", err == nil && pub != nil && zzSamePublic(pub, *want))
	}
}

//gov:lemma E02
func zzWithoutKey(key rsa.PublicKey, pk rsa.PrivateKey) {
	zzgov.NoPanic()
	a, err := NewBuilder().Create().Now()
	zzgov.Ensures("no private key is built without a key", a == nil && err != nil)
	a, err = NewBuilder().WithPK(pk).Create().Now()
	zzgov.Ensures("nor from one created anew", a == nil && err != nil)
	b, err := NewPublicKeyBuilder().Create().Now()
	zzgov.Ensures("no public key is built without a key", b == nil && err != nil)
	b, err = NewPublicKeyBuilder().WithKey(key).Create().Now()
	zzgov.Ensures("nor public from one created anew", b == nil && err != nil)
}
