// Package lib holds the environment models shared by the harnesses. Everything here
// is ordinary Go: it runs under the engine and, for the replay, natively.
package lib

import (
	"errors"

	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

// ErrOpen is the error of a failed authentication.
var ErrOpen = errors.New("aead: message authentication failed")

// Sealed is one record an AEAD has produced.
type Sealed struct {
	Key   []byte
	Nonce []byte
	AD    []byte
	Plain []byte
	CT    []byte
}

// Ideal is an ideal AEAD: Open succeeds exactly on what Seal produced under the same
// key, nonce and associated data. The ciphertext bytes are a keyed mask of the
// plaintext followed by a tag that differs for every sealing.
type Ideal struct {
	Key  []byte
	NLen int
	Log  *[]Sealed
}

// NewIdeal returns an ideal AEAD with its own log.
func NewIdeal(nlen int) *Ideal { return &Ideal{NLen: nlen, Log: new([]Sealed)} }

func (a *Ideal) NonceSize() int { return a.NLen }
func (a *Ideal) Overhead() int  { return 16 }

func cp(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c
}

// Seal implements cipher.AEAD.
func (a *Ideal) Seal(dst, nonce, plaintext, ad []byte) []byte {
	if len(nonce) != a.NLen {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	ct := vrt.Mask(plaintext, byte(len(*a.Log)))
	n := len(*a.Log) + 1
	for i := 0; i < 16; i++ {
		ct = append(ct, byte(0x80|(n*31+i*7)))
	}
	ct[len(ct)-2] = byte(n >> 8)
	ct[len(ct)-1] = byte(n)
	*a.Log = append(*a.Log, Sealed{cp(a.Key), cp(nonce), cp(ad), cp(plaintext), ct})
	return append(dst, ct...)
}

// Open implements cipher.AEAD.
func (a *Ideal) Open(dst, nonce, ciphertext, ad []byte) ([]byte, error) {
	if len(nonce) != a.NLen {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	for _, s := range *a.Log {
		if len(s.CT) != len(ciphertext) || len(s.AD) != len(ad) || len(s.Key) != len(a.Key) {
			continue
		}
		same := vrt.And(vrt.EqBytes(s.CT, ciphertext), vrt.And(vrt.EqBytes(s.AD, ad), vrt.And(vrt.EqBytes(s.Nonce, nonce), vrt.EqBytes(s.Key, a.Key))))
		if same {
			return append(dst, s.Plain...), nil
		}
	}
	return nil, ErrOpen
}
