package lib

import (
	"crypto/cipher"
	"errors"
	"hash"
	"io"

	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

// Block is a stand-in for a keyed 16-byte block cipher: an invertible linear map.
type Block struct{ Key []byte }

func (b *Block) BlockSize() int { return 16 }

func (b *Block) ks(i int) byte {
	n := len(b.Key)
	return b.Key[i%n] + byte(17*i) ^ b.Key[(i+16)%n] ^ 0x5a
}

// Encrypt implements cipher.Block.
func (b *Block) Encrypt(dst, src []byte) {
	var t [16]byte
	for i := 0; i < 16; i++ {
		x := src[i] ^ b.ks(i)
		t[(i*5+3)%16] = x<<3 | x>>5
	}
	copy(dst, t[:])
}

// Decrypt implements cipher.Block.
func (b *Block) Decrypt(dst, src []byte) {
	var t [16]byte
	for i := 0; i < 16; i++ {
		x := src[(i*5+3)%16]
		t[i] = (x>>3 | x<<5) ^ b.ks(i)
	}
	copy(dst, t[:])
}

type keySizeError int

func (k keySizeError) Error() string { return "crypto/aes: invalid key size" }

// SealLog is the log of every ideal AEAD made through the overrides.
var SealLog = new([]Sealed)

type kdf struct {
	secret, salt, info []byte
	pos                int
}

func (k *kdf) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = Mix(k.secret, k.salt, k.info, k.pos)
		k.pos++
	}
	return len(p), nil
}

// KDF is a stand-in key derivation.
func KDF(secret, salt, info []byte) io.Reader {
	return &kdf{secret: cp(secret), salt: cp(salt), info: cp(info)}
}

// Mix is the byte at position i of a stand-in key derivation.
func Mix(secret, salt, info []byte, i int) byte {
	var c byte = byte(i*37 + len(info)*11)
	if len(secret) > 0 {
		c ^= secret[i%len(secret)]
	}
	if len(salt) > 0 {
		c ^= salt[i%len(salt)] * 3
	}
	for j, x := range info {
		c += x * byte(2*((i+j)%64)+1)
	}
	return c
}

// ScryptModel is a stand-in for scrypt, injective for passwords of up to 15 bytes.
func ScryptModel(password, salt []byte, N, r, p, keyLen int) []byte {
	k := make([]byte, keyLen)
	if keyLen > 0 {
		k[0] = byte(len(password))
	}
	for i := 1; i < 16 && i < keyLen; i++ {
		if i <= len(password) {
			k[i] = password[i-1]
		}
	}
	for i := 16; i < keyLen; i++ {
		k[i] = byte(N>>3) ^ byte(N>>11) ^ byte(r*7) ^ byte(p*13)
		for j := i - 16; j < len(salt); j += 16 {
			k[i] += salt[j]
		}
	}
	return k
}

// LongPasswords makes the stand-in for scrypt injective for passwords of any length: each
// new one of more than 15 bytes gets a number.
func LongPasswords() {
	var seen [][]byte
	vrt.Override("golang.org/x/crypto/scrypt.Key", func(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
		if len(password) > 15 {
			n := 0
			for n < len(seen) && !(len(seen[n]) == len(password) && vrt.EqBytes(seen[n], password)) {
				n++
			}
			if n == len(seen) {
				seen = append(seen, append([]byte{}, password...))
			}
			password = []byte{byte(n), 'l', 'o', 'n', 'g'}
			k := ScryptModel(password, salt, N, r, p, keyLen)
			k[0] = 99
			return k, nil
		}
		return ScryptModel(password, salt, N, r, p, keyLen), nil
	})
}

// EMEModel is a stand-in for the wide-block cipher: a bijection that depends on the key,
// the tweak, the length and the position, and moves every byte.
func EMEModel(b *Block, tweak, data []byte, decrypt bool) []byte {
	n := len(data)
	out := make([]byte, n)
	for i := range data {
		j := n - 1 - i
		a := i
		if j < i {
			a = j
		}
		m := tweak[a%16] ^ b.ks(a%16) ^ byte(a*29+n*3)
		if decrypt {
			x := data[j]
			out[i] = (x>>3 | x<<5) ^ m
		} else {
			x := data[i] ^ m
			out[j] = x<<3 | x>>5
		}
	}
	return out
}

// sivAD joins the associated data of the deterministic cipher.
func sivAD(ad [][]byte) []byte {
	var out []byte
	for _, a := range ad {
		out = append(out, byte(len(a)>>8), byte(len(a)))
		out = append(out, a...)
	}
	return out
}

// InstallCrypto replaces the cryptographic primitives under the engine: AES by an
// invertible stand-in, EME by a self-inverse one, GCM by an ideal AEAD, HKDF and scrypt
// by stand-in derivations. The code above them is executed as it is.
func InstallCrypto() {
	vrt.Override("crypto/aes.NewCipher", func(key []byte) (cipher.Block, error) {
		switch len(key) {
		case 16, 24, 32:
		default:
			return nil, keySizeError(len(key))
		}
		return &Block{cp(key)}, nil
	})
	vrt.Override("crypto/cipher.NewGCMWithNonceSize", func(b cipher.Block, n int) (cipher.AEAD, error) {
		return &Ideal{Key: b.(*Block).Key, NLen: n, Log: SealLog}, nil
	})
	vrt.Override("crypto/cipher.NewGCM", func(b cipher.Block) (cipher.AEAD, error) {
		return &Ideal{Key: b.(*Block).Key, NLen: 12, Log: SealLog}, nil
	})
	vrt.Override("golang.org/x/crypto/hkdf.New", func(h func() hash.Hash, secret, salt, info []byte) io.Reader {
		return KDF(secret, salt, info)
	})
	vrt.Override("github.com/rfjakob/eme.Transform", func(bc cipher.Block, tweak, data []byte, decrypt bool) []byte {
		if len(tweak) != 16 {
			panic("eme: tweak must be 16 bytes long")
		}
		if n := len(data); n%16 != 0 || n == 0 || n > 2048 {
			panic("eme: data must be 1 to 128 blocks long")
		}
		return EMEModel(bc.(*Block), tweak, data, decrypt)
	})
	// AES-SIV: the tag comes first, nothing is appended to the key
	vrt.Override("github.com/jacobsa/crypto/siv.Encrypt", func(dst, key, plain []byte, ad [][]byte) ([]byte, error) {
		if n := len(key); n != 32 && n != 48 && n != 64 {
			return nil, errors.New("SIV requires a 32-, 48-, or 64-byte key.")
		}
		a := &Ideal{Key: cp(key), NLen: 0, Log: SealLog}
		ct := a.Seal(nil, nil, plain, sivAD(ad))
		out := append(dst, ct[len(plain):]...)
		return append(out, ct[:len(plain)]...), nil
	})
	vrt.Override("github.com/jacobsa/crypto/siv.Decrypt", func(key, c []byte, ad [][]byte) ([]byte, error) {
		if n := len(key); n != 32 && n != 48 && n != 64 {
			return nil, errors.New("SIV requires a 32-, 48-, or 64-byte key.")
		}
		if len(c) < 16 {
			return nil, errors.New("Invalid ciphertext; length must be at least 16.")
		}
		a := &Ideal{Key: cp(key), NLen: 0, Log: SealLog}
		ct := append(append([]byte{}, c[16:]...), c[:16]...)
		return a.Open(nil, nil, ct, sivAD(ad))
	})
	vrt.Override("crypto/sha512.Sum512", func(b []byte) [64]byte {
		var h [64]byte
		for i := range h {
			h[i] = Mix(b, nil, []byte("sha512"), i)
		}
		return h
	})
	vrt.Override("golang.org/x/crypto/scrypt.Key", func(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
		if N <= 1 || N&(N-1) != 0 {
			return nil, errors.New("scrypt: N must be > 1 and a power of 2")
		}
		if uint64(r)*uint64(p) >= 1<<30 {
			return nil, errors.New("scrypt: parameters are too large")
		}
		if p == 0 || r == 0 || keyLen < 0 {
			panic("scrypt: the real function divides by zero or slices out of bounds")
		}
		if r < 0 || p < 0 || r > 1<<20 || N > 1<<28 {
			return nil, errors.New("scrypt: parameters are too large")
		}
		return ScryptModel(password, salt, N, r, p, keyLen), nil
	})
	vrt.Override("crypto/sha256.Sum256", func(b []byte) [32]byte {
		var h [32]byte
		for i, c := range b {
			h[i%32] = h[i%32]*5 + c ^ byte(i)
		}
		return h
	})
	var ctr int
	rnd := func(b []byte) (int, error) {
		ctr++
		for i := range b {
			b[i] = byte(i*41+ctr*59) | 1
		}
		return len(b), nil
	}
	vrt.Override("crypto/rand.Read", rnd)
	vrt.Override("(crypto/internal/rand.reader).Read", func(_ struct{ R io.Reader }, b []byte) (int, error) { return rnd(b) })
}
