//go:build go1.21

package zzgov

import (
	"crypto/rand"
	"io"
)

// recorder notes what is drawn from the random source.
type recorder struct{ from io.Reader }

var drawn [][]byte

func init() { rand.Reader = &recorder{from: rand.Reader} }

func (r *recorder) Read(b []byte) (int, error) {
	n, err := r.from.Read(b)
	drawn = append(drawn, append([]byte{}, b[:n]...))
	if len(drawn) > 1000000 {
		drawn = drawn[500000:]
		dropped += 500000
	}
	return n, err
}

var dropped int

// Draws is the number of times bytes were drawn from the random source.
func Draws() int { return dropped + len(drawn) }

// Draw is what was drawn at the i-th time.
func Draw(i int) []byte { return drawn[i-dropped] }
