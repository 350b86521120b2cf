//go:build go1.21

package hash

import (
	"crypto/sha512"
	"encoding/hex"

	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops H01

// ZZDigest is the canonical digest: 64 bytes are taken as they are, anything else is SHA-512.
func ZZDigest(b []byte) Hash {
	if len(b) == 64 {
		return Hash(b)
	}
	return sha512.Sum512(b)
}

func zzInvCopy(iter zzgov.Iter, fix_in []byte, cell_out Hash) bool {
	zero := Hash{}
	return string(cell_out[:]) == string(fix_in[:iter])+string(zero[iter:])
}

//gov:contract Adapter.FromBytes
//gov:use
//gov:inv zzInvCopy
func zzFromBytes(app Adapter, input []byte) func(h *Hash, err error) {
	zzgov.NoPanic()
	return func(h *Hash, err error) {
		zzgov.Ensures("never fails", err == nil && h != nil)
		zzgov.Ensures("canonical digest", *h == ZZDigest(input))
	}
}

//gov:contract Adapter.FromMultiBytes
//gov:use
func zzFromMultiBytes(app Adapter, input [][]byte) func(h *Hash, err error) {
	zzgov.NoPanic()
	return func(h *Hash, err error) {
		zzgov.Ensures("never fails", err == nil && h != nil)
		zzgov.Ensures("digest of the concatenation", *h == ZZDigest(zzgov.Concat(len(input), func(i int) []byte { return input[i] })))
	}
}

//gov:contract Hash.Bytes
//gov:use
func zzBytes(obj Hash) func(b []byte) {
	zzgov.NoPanic()
	return func(b []byte) {
		zzgov.Ensures("all bytes in order", string(b) == string(obj[:]) && b != nil)
	}
}

//gov:contract Hash.Compare
//gov:use
func zzCompare(obj Hash, other Hash) func(ok bool) {
	zzgov.NoPanic()
	return func(ok bool) {
		zzgov.Ensures("equal exactly when all bytes are", ok == (obj == other))
	}
}

//gov:contract Hash.String
//gov:use
func zzString(obj Hash) func(s string) {
	zzgov.NoPanic()
	return func(s string) {
		zzgov.Ensures("hexadecimal text of all bytes", s == hex.EncodeToString(obj[:]))
	}
}

//gov:lemma H01
func zzTextRoundTrip(obj Hash) {
	zzgov.NoPanic()
	h, err := NewAdapter().FromString(obj.String())
	zzgov.Ensures("text reads back as the same digest", err == nil && *h == obj)
}

//gov:contract Adapter.FromString
func zzFromString(app Adapter, input string) func(h *Hash, err error) {
	zzgov.NoPanic()
	return func(h *Hash, err error) {
		b, bad := hex.DecodeString(input)
		zzgov.Ensures("answer or error", (err == nil) == (h != nil))
		zzgov.Ensures("refused exactly when not hexadecimal", (err == nil) == (bad == nil))
		zzgov.Ensures("digest of the bytes written", bad != nil || *h == ZZDigest(b))
	}
}

// ZZBytes is the text of a digest.
func ZZBytes(h Hash) []byte { return h[:] }
