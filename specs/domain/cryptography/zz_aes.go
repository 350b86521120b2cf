//go:build go1.21

package encryption

import (
	"crypto/aes"
	"encoding/base64"

	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops E01

// zzSound: an encryptor as its constructors make it, holding a key of the cipher.
func zzSound(obj *encryption) bool {
	n := len(obj.hashedPass)
	return n == 16 || n == 24 || n == 32
}

// zzPassword is an encryptor for a password.
func zzPassword(password []byte, built bool) Encryption {
	if built {
		out, err := NewBuilder().Create().WithPassword(password).Now()
		if err != nil {
			return nil
		}
		return out
	}
	return NewEncryption(string(password))
}

//gov:lemma E01
func zzRoundTrip(password []byte, encBuilt bool, decBuilt bool, message []byte) {
	zzgov.Requires(password != nil)
	zzgov.NoPanic()
	enc, dec := zzPassword(password, encBuilt), zzPassword(password, decBuilt)
	zzgov.Ensures("an encryptor is given for every password", enc != nil && dec != nil)
	text, err := enc.Encrypt(message)
	if err != nil {
		return
	}
	back, err := dec.Decrypt(text)
	zzgov.Ensures("what was encrypted under the password is accepted", err == nil)
	zzgov.Ensures("the message comes back unchanged", string(back) == string(message))
}

//gov:contract Encryption.Encrypt
func zzEncrypt(obj Encryption, message []byte) func(text string, err error) {
	zzgov.Requires(obj != nil && zzSound(obj.(*encryption)))
	zzgov.NoPanic()
	draws := zzgov.Draws()
	return func(text string, err error) {
		if err != nil {
			zzgov.Ensures("no text with a failure", text == "")
			return
		}
		raw, bad := base64.StdEncoding.DecodeString(text)
		zzgov.Ensures("the text is base64", bad == nil)
		zzgov.Ensures("one initialisation vector is drawn", zzgov.Draws() == draws+1)
		iv := zzgov.Draw(draws)
		zzgov.Ensures("of one cipher block", len(iv) == aes.BlockSize)
		zzgov.Ensures("it stands before the encrypted message", len(raw) == aes.BlockSize+len(message) && string(raw[:aes.BlockSize]) == string(iv))
	}
}

//gov:contract Encryption.Decrypt
func zzDecrypt(obj Encryption, text string) func(message []byte, err error) {
	zzgov.Requires(obj != nil && zzSound(obj.(*encryption)))
	zzgov.NoPanic()
	raw, bad := base64.StdEncoding.DecodeString(text)
	return func(message []byte, err error) {
		if bad != nil {
			zzgov.Ensures("text that is not base64 is refused", err != nil && message == nil)
			return
		}
		if len(raw) < aes.BlockSize {
			zzgov.Ensures("less than one cipher block is refused", err != nil && message == nil)
			return
		}
		zzgov.Ensures("anything else is decrypted", err == nil && len(message) == len(raw)-aes.BlockSize)
	}
}

//gov:contract NewEncryption
func zzNew(pass string) func(out Encryption) {
	zzgov.NoPanic()
	return func(out Encryption) {
		zzgov.Ensures("an encryptor holds a key of the cipher", out != nil && zzSound(out.(*encryption)))
	}
}

//gov:contract Builder.Now
func zzNow(app Builder) func(out Encryption, err error) {
	zzgov.Requires(app != nil)
	b := app.(*builder)
	zzgov.NoPanic()
	return func(out Encryption, err error) {
		if b.password == nil {
			zzgov.Ensures("no encryptor without a password", err != nil && out == nil)
			return
		}
		zzgov.Ensures("an encryptor for every password", err == nil && out != nil && zzSound(out.(*encryption)))
	}
}

//gov:lemma E01
func zzWithoutPassword(password []byte) {
	zzgov.NoPanic()
	out, err := NewBuilder().Create().Now()
	zzgov.Ensures("a builder starts without a password", out == nil && err != nil)
	out, err = NewBuilder().WithPassword(password).Create().Now()
	zzgov.Ensures("and again when created anew", out == nil && err != nil)
}
