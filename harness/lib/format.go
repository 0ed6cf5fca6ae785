package lib

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"io"

	"github.com/jacobsa/crypto/siv"
	"github.com/rfjakob/eme"
	"golang.org/x/crypto/hkdf"
	"golang.org/x/crypto/scrypt"
)

// Format is a reference encoder of the gocryptfs on-disk format (version 2), written from
// the format's description and independent of the code under test. It stands on the
// cryptographic primitives only, which are models under the engine and real natively.
type Format struct {
	Master []byte
	HKDF   bool
	Raw64  bool
	SIV    bool
	ctr    int
	aead   cipher.AEAD
	eme    *eme.EMECipher
}

func derive(key []byte, info string, n int) []byte {
	out := make([]byte, n)
	if _, err := io.ReadFull(hkdf.New(sha256.New, key, nil, []byte(info)), out); err != nil {
		panic(err)
	}
	return out
}

func gcm(key []byte, nlen int) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCMWithNonceSize(b, nlen)
	if err != nil {
		panic(err)
	}
	return a
}

func (f *Format) nonce(n int) []byte {
	f.ctr++
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37+f.ctr*91) | 1
	}
	return b
}

func (f *Format) sivKey() []byte {
	if f.HKDF {
		return derive(f.Master, "AES-SIV file content encryption", 64)
	}
	h := sha512.Sum512(f.Master)
	return h[:]
}

func (f *Format) init() {
	if f.aead == nil {
		k := f.Master
		if f.HKDF {
			k = derive(f.Master, "AES-GCM file content encryption", 32)
		}
		f.aead = gcm(k, 16)
	}
}

// Block seals one block of a file: nonce, ciphertext, tag. The position is bound as a
// big-endian 64 bit number, followed by the file id.
func (f *Format) Block(id []byte, no uint64, plain []byte) []byte {
	ad := make([]byte, 8)
	binary.BigEndian.PutUint64(ad, no)
	ad = append(ad, id...)
	n := f.nonce(16)
	if f.SIV {
		out, err := siv.Encrypt(cp(n), f.sivKey(), plain, [][]byte{ad, n})
		if err != nil {
			panic(err)
		}
		return out
	}
	f.init()
	return f.aead.Seal(cp(n), n, plain, ad)
}

// Header is the header of a file that is not empty.
func (f *Format) Header(id []byte) []byte { return append([]byte{0, 2}, id...) }

// File encodes a whole file.
func (f *Format) File(id, data []byte) []byte {
	if len(data) == 0 {
		return nil
	}
	out := f.Header(id)
	for i := 0; i*4096 < len(data); i++ {
		end := (i + 1) * 4096
		if end > len(data) {
			end = len(data)
		}
		out = append(out, f.Block(id, uint64(i), data[i*4096:end])...)
	}
	return out
}

// Pad is PKCS#7 padding to 16 bytes.
func Pad(b []byte) []byte {
	n := 16 - len(b)%16
	out := cp(b)
	for i := 0; i < n; i++ {
		out = append(out, byte(n))
	}
	return out
}

// Name encodes a file name in a directory.
func (f *Format) Name(name string, iv []byte) string {
	if f.eme == nil {
		k := f.Master
		if f.HKDF {
			k = derive(f.Master, "EME filename encryption", 32)
		}
		b, err := aes.NewCipher(k)
		if err != nil {
			panic(err)
		}
		f.eme = eme.New(b)
	}
	c := f.eme.Encrypt(iv, Pad([]byte(name)))
	if f.Raw64 {
		return base64.RawURLEncoding.EncodeToString(c)
	}
	return base64.URLEncoding.EncodeToString(c)
}

func (f *Format) wrapKey(password, salt []byte, N, r, p int) ([]byte, int) {
	k, err := scrypt.Key(password, salt, N, r, p, 32)
	if err != nil {
		panic(err)
	}
	if f.HKDF {
		return derive(k, "AES-GCM file content encryption", 32), 16
	}
	return k, 12
}

// Wrap encrypts the master key with a password.
func (f *Format) Wrap(password, salt []byte, N, r, p int) []byte {
	k, nlen := f.wrapKey(password, salt, N, r, p)
	n := f.nonce(nlen)
	return gcm(k, nlen).Seal(cp(n), n, f.Master, make([]byte, 8))
}

// OpenBlock is the inverse of Block.
func (f *Format) OpenBlock(id []byte, no uint64, c []byte) ([]byte, bool) {
	if len(c) < 32 {
		return nil, false
	}
	ad := make([]byte, 8)
	binary.BigEndian.PutUint64(ad, no)
	ad = append(ad, id...)
	if f.SIV {
		p, err := siv.Decrypt(f.sivKey(), c[16:], [][]byte{ad, c[:16]})
		return p, err == nil
	}
	f.init()
	p, err := f.aead.Open(nil, c[:16], c[16:], ad)
	return p, err == nil
}

// Unwrap is the inverse of Wrap.
func (f *Format) Unwrap(password, wrapped, salt []byte, N, r, p int) ([]byte, bool) {
	k, nlen := f.wrapKey(password, salt, N, r, p)
	if len(wrapped) < nlen {
		return nil, false
	}
	out, err := gcm(k, nlen).Open(nil, wrapped[:nlen], wrapped[nlen:], make([]byte, 8))
	return out, err == nil
}

// Hashed is the stored name of a file whose encrypted name is too long.
func (f *Format) Hashed(full string) string {
	h := sha256.Sum256([]byte(full))
	if f.Raw64 {
		return "gocryptfs.longname." + base64.RawURLEncoding.EncodeToString(h[:])
	}
	return "gocryptfs.longname." + base64.URLEncoding.EncodeToString(h[:])
}
