package names

import (
	"encoding/base64"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/nametransform"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

func core() *cryptocore.CryptoCore {
	lib.InstallCrypto()
	k := make([]byte, 32)
	for i := range k {
		k[i] = byte(i * 9)
	}
	return cryptocore.New(k, cryptocore.BackendGoGCM, 128, true, false)
}

func enc(raw bool) *base64.Encoding {
	if raw {
		return base64.RawURLEncoding
	}
	return base64.URLEncoding
}

// legal is whether s can be a file name.
func legal(s []byte) bool {
	ok := true
	for _, c := range s {
		ok = vrt.And(ok, vrt.And(c != 0, c != '/'))
	}
	if len(s) == 1 {
		ok = vrt.And(ok, s[0] != '.')
	}
	if len(s) == 2 {
		ok = vrt.And(ok, !vrt.And(s[0] == '.', s[1] == '.'))
	}
	return vrt.And(ok, len(s) > 0)
}

var lens = []int{1, 2, 3, 14, 15, 16, 17, 31, 32, 33, 47, 48, 64, 100, 127, 128, 175, 176, 191, 223, 224, 239, 240, 241, 254, 255}

// Names of 26 lengths from 1 to 255 bytes, all bytes symbolic (any but NUL and
// slash), both base64 variants, under a symbolic IV.
//
//verif:prop=C04 reach=ok shard=len:0..25 time=200
func H_roundtrip() {
	n := lens[vrt.Choose("len", 0, len(lens)-1)]
	raw := vrt.Choose("raw", 0, 1) == 1
	nt := nametransform.New(core().EMECipher, true, raw)
	iv := vrt.Bytes("iv", 16)
	name := vrt.Bytes("name", n)
	vrt.Assume(legal(name))
	c := nt.EncryptName(string(name), iv)
	for i := 0; i < len(c); i++ {
		if c[i] == '/' {
			vrt.Fail("an encrypted name contains a slash")
		}
	}
	p, err := nt.DecryptName(c, iv)
	vrt.Assert(err == nil, "an encrypted name could not be decrypted")
	vrt.Assert(vrt.EqString(p, string(name)), "a name did not decrypt to itself")
	vrt.Reach("ok")
}

// Names of every length from 1 to 255 bytes, the first three, the last and the middle
// byte symbolic, in between any of eight characters: each decrypts to itself and is stored without a slash.
//
//verif:prop=C04 reach=ok shard=from:0..14 time=200
func H_every_length() {
	from := vrt.Choose("from", 0, 14)
	nt := nametransform.New(core().EMECipher, true, vrt.Choose("raw", 0, 1) == 1)
	iv := make([]byte, 16)
	iv[3] = 7
	bs := vrt.Bytes("bytes", 5)
	vrt.Assume(legal(bs))
	for n := 17*from + 1; n <= 17*from+17; n++ {
		name := make([]byte, n)
		for i := range name {
			name[i] = "aZ0 \xff\x80\x01~"[(i*7+n)%8]
			if i == n/2 {
				name[i] = bs[4]
			}
			if i < 3 {
				name[i] = bs[i]
			} else if i == n-1 {
				name[i] = bs[3]
			}
		}
		vrt.Assume(legal(name))
		c := nt.EncryptName(string(name), iv)
		vrt.Assert(!strings.Contains(c, "/"), "an encrypted name contains a slash")
		p, err := nt.DecryptName(c, iv)
		vrt.Assert(err == nil, "an encrypted name could not be decrypted")
		vrt.Assert(vrt.EqString(p, string(name)), "a name did not decrypt to itself")
	}
	vrt.Reach("ok")
}

// Every stored name that decodes to 16, 32 or 48 bytes, whatever those decrypt to
// (decryption is a bijection, so the decrypted bytes are the symbolic variables):
// accepted only if they are a legally padded legal name, and then as that name.
//
//verif:prop=C05,C03 reach=accepted,rejected shard=blocks:1..3/6 time=200 timet=1000
func H_forged() {
	lib.ExitFails()
	m := vrt.Choose("blocks", 1, vrt.Bound(3, 6))
	raw := vrt.Choose("raw", 0, 1) == 1
	cc := core()
	nt := nametransform.New(cc.EMECipher, true, raw)
	iv := vrt.Bytes("iv", 16)
	pt := vrt.Bytes("pt", 16*m)
	c := enc(raw).EncodeToString(cc.EMECipher.Encrypt(iv, pt))
	got, err := nt.DecryptName(c, iv)
	if err != nil {
		vrt.Assert(got == "", "a rejected name was returned all the same")
		vrt.Reach("rejected")
		return
	}
	vrt.Reach("accepted")
	g := []byte(got)
	vrt.Assert(len(g) < 16*m && len(g) >= 16*m-16 && len(g) > 0, "a name of impossible length came out")
	vrt.Assert(legal(g), "a decrypted name is not a safe file name")
	vrt.Assert(vrt.EqBytes(g, pt[:len(g)]), "a decrypted name is not what was encrypted")
	pad := 16*m - len(g)
	ok := true
	for _, b := range pt[len(g):] {
		ok = vrt.And(ok, b == byte(pad))
	}
	vrt.Assert(ok, "a name with broken padding was accepted")
}

// Stored names that decode to 4 to 16 blocks (not all of them in quick runs): the first 2 and the last 17 decrypted bytes
// and any one in between are symbolic, the others are letters.
//
//verif:prop=C05,C03 reach=accepted,rejected shard=blocks:0..3/12 time=200
func H_forged_long() {
	lib.ExitFails()
	m := []int{16, 5, 8, 13, 4, 6, 7, 9, 10, 11, 12, 14, 15}[vrt.Choose("blocks", 0, 12)]
	cc := core()
	nt := nametransform.New(cc.EMECipher, true, true)
	iv := make([]byte, 16)
	n := 16 * m
	pt := make([]byte, n)
	for i := range pt {
		pt[i] = 'a' + byte(i%26)
	}
	copy(pt, vrt.Bytes("first", 2))
	at := []int{n / 2, n - 18, 2, 15, 16, n / 4, n * 3 / 4}[vrt.Choose("at", 0, vrt.Bound(1, 6))]
	copy(pt[at:], vrt.Bytes("any", 1))
	copy(pt[n-17:], vrt.Bytes("last", 17))
	got, err := nt.DecryptName(enc(true).EncodeToString(cc.EMECipher.Encrypt(iv, pt)), iv)
	if err != nil {
		vrt.Assert(got == "", "a rejected name was returned all the same")
		vrt.Reach("rejected")
		return
	}
	vrt.Reach("accepted")
	g := []byte(got)
	vrt.Assert(len(g) < n && len(g) >= n-16, "a name of impossible length came out")
	vrt.Assert(legal(g), "a decrypted name is not a safe file name")
	vrt.Assert(vrt.EqBytes(g, pt[:len(g)]), "a decrypted name is not what was encrypted")
	pad := n - len(g)
	ok := true
	for _, b := range pt[len(g):] {
		ok = vrt.And(ok, b == byte(pad))
	}
	vrt.Assert(ok, "a name with broken padding was accepted")
}

// Stored names that are no encrypted names at all: any string of 0 to 8 bytes, and any
// of 9 to 44 bytes without line breaks (the decoder skips those).
//
//verif:prop=C05,C03 reach=rejected shard=len:0..44 time=200
func H_garbage() {
	lib.ExitFails()
	n := vrt.Choose("len", 0, 44)
	raw := vrt.Choose("raw", 0, 1) == 1
	cc := core()
	nt := nametransform.New(cc.EMECipher, true, raw)
	iv := vrt.Bytes("iv", 16)
	sb := vrt.Bytes("s", n)
	if n > 8 {
		for _, c := range sb {
			vrt.Assume(vrt.And(c != 10, c != 13))
		}
	}
	s := string(sb)
	// names that decode to whole blocks are H_forged's
	if b, err := enc(raw).DecodeString(s); err == nil && len(b) > 0 && len(b)%16 == 0 {
		vrt.Stop()
	}
	got, err := nt.DecryptName(s, iv)
	vrt.Assert(err != nil && got == "", "a stored name that is not an encrypted name was accepted")
	vrt.Reach("rejected")
}

// Overlong stored names: 16 to 130 whole cipher blocks, fixed content.
//
//verif:prop=C05,C03 reach=end shard=blocks:16..130
func H_overlong() {
	lib.ExitFails()
	m := vrt.Choose("blocks", 16, 130)
	nt := nametransform.New(core().EMECipher, true, true)
	b := make([]byte, 16*m)
	for i := range b {
		b[i] = byte(i * 11)
	}
	b[3] = vrt.Byte("x")
	got, err := nt.DecryptName(base64.RawURLEncoding.EncodeToString(b), make([]byte, 16))
	if err == nil {
		vrt.Assert(len(got) <= 255 && legal([]byte(got)), "an impossible name came out")
	}
	vrt.Reach("end")
}

// The name as stored in a directory is determined by the name and the directory's
// IV: different names get different stored names under one IV, and stored names are
// at most 255 bytes. Lengths 1 to 255 in the steps where something changes.
//
//verif:prop=C04 reach=ok shard=len:0..25 time=200
func H_stored() {
	n := lens[vrt.Choose("len", 0, len(lens)-1)]
	nt := nametransform.New(core().EMECipher, true, true)
	name := make([]byte, n)
	for i := range name {
		name[i] = 'a' + byte(i%26)
	}
	iv := make([]byte, 16)
	iv[5] = vrt.Byte("iv")
	s, err := nt.EncryptAndHashName(string(name), iv)
	vrt.Assert(err == nil, "a name of up to 255 bytes was refused")
	vrt.Assert(len(s) <= 255 && len(s) > 0, "a stored name is too long")
	if n < 176 {
		vrt.Assert(nametransform.NameType(s) == nametransform.LongNameNone, "a short name was stored as a long one")
	} else {
		vrt.Assert(nametransform.NameType(s) == nametransform.LongNameContent, "a long name was not stored as one")
	}
	vrt.Reach("ok")
}

// Names of more than 255 bytes, of one-byte characters, multi-byte characters or invalid
// text, are refused.
//
//verif:prop=C04 reach=end shard=len:0..5
func H_too_long() {
	lib.ExitFails()
	n := []int{256, 257, 272, 300, 511, 765}[vrt.Choose("len", 0, 5)]
	unit := []string{"a", "\xc3\xa9", "\xe2\x82\xac", "\xff", " "}[vrt.Choose("unit", 0, 4)]
	b := make([]byte, n)
	for i := range b {
		b[i] = unit[i%len(unit)]
	}
	b[n-1] = vrt.Byte("last")
	nt := nametransform.New(core().EMECipher, vrt.Choose("long", 0, 1) == 1, true)
	s, err := nt.EncryptAndHashName(string(b), make([]byte, 16))
	vrt.Assert(err != nil && s == "", "a name of more than 255 bytes was accepted")
	vrt.Reach("end")
}
