package format

import (
	"bytes"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/nametransform"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/libtree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

// flags chooses a combination of the optional features.
func flags() []string {
	f := []string{"GCMIV128", "DirIV", "EMENames"}
	for _, o := range []string{"HKDF", "Raw64", "LongNames", "AESSIV"} {
		if vrt.Choose(o, 0, 1) == 1 {
			f = append(f, o)
		}
	}
	return f
}

// Every combination of the optional features (16 of them): a file and a file in a
// directory, encoded by an independent encoder with symbolic content, are listed and read.
//verif:prop=C25,C02 reach=end time=300 shard=HKDF:0..1
func H_read_all_formats() {
	w := libtree.New(flags())
	n := []int{1, 16, 4096, 4097}[vrt.Choose("len", 0, 3)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i*7 + 1)
	}
	copy(data, vrt.Bytes("head", 1))
	copy(data[n-1:], vrt.Bytes("tail", 1))
	w.AddFile(libtree.Root, libtree.IV(0), "plain file", w.Seal(libtree.FileID(1), data))
	d := w.AddDir(libtree.Root, libtree.IV(0), "sub", libtree.IV(1))
	w.AddFile(d, libtree.IV(1), "x", w.Seal(libtree.FileID(2), data[:1]))
	t, err := w.Open(1)
	if err != nil {
		vrt.Fail("a file system with supported features could not be opened")
	}
	lib.ExitFails()
	l, err := t.ReadDir("/")
	vrt.Assert(err == nil && len(l) == 2, "a directory was not listed")
	vrt.Assert(l[0].Name() == "plain file" && l[1].Name() == "sub", "a name was not decoded")
	vrt.Assert(l[0].Size() == int64(n), "a size is wrong")
	got, err := t.ReadFile("/plain file")
	vrt.Assert(err == nil, "a file could not be read")
	vrt.Assert(vrt.EqBytes(got, data), "a file reads differently from what was stored")
	got, err = t.ReadFile("/sub/x")
	vrt.Assert(err == nil && vrt.EqBytes(got, data[:1]), "a file in a directory reads differently from what was stored")
	vrt.Reach("end")
}

func core(f *lib.Format) *cryptocore.CryptoCore {
	b := cryptocore.BackendGoGCM
	if f.SIV {
		b = cryptocore.BackendAESSIV
	}
	return cryptocore.New(append([]byte{}, f.Master...), b, 128, f.HKDF, false)
}

func pick() *lib.Format {
	lib.InstallCrypto()
	return &lib.Format{Master: libtree.Master(), HKDF: vrt.Choose("hkdf", 0, 1) == 1, Raw64: vrt.Choose("raw", 0, 1) == 1, SIV: vrt.Choose("siv", 0, 1) == 1}
}

// Names of 1, 15, 16, 17, 100 and 255 symbolic bytes with any IV: encrypted exactly as the
// format says, and read back from the independent encoding.
//verif:prop=C25,C04 reach=end shard=len:0..5 time=300
func H_names() {
	f := pick()
	n := []int{1, 15, 16, 17, 100, 255}[vrt.Choose("len", 0, 5)]
	b := vrt.Bytes("name", n)
	for _, c := range b {
		vrt.Assume(vrt.And(c != 0, c != '/'))
	}
	if n == 1 {
		vrt.Assume(b[0] != '.')
	}
	iv := vrt.Bytes("iv", 16)
	long := vrt.Choose("long", 0, 1) == 1
	t := nametransform.New(core(f).EMECipher, long, f.Raw64)
	want := f.Name(string(b), iv)
	got := t.EncryptName(string(b), iv)
	vrt.Assert(len(got) == len(want) && vrt.EqString(got, want), "a name is not encrypted as the format says")
	back, err := t.DecryptName(want, iv)
	vrt.Assert(err == nil, "a well-formed name was refused")
	vrt.Assert(len(back) == n && vrt.EqString(back, string(b)), "a name is not decrypted as the format says")
	vrt.Reach("end")
}

// Blocks of 1, 4095 and 4096 bytes at any position in any file, both ways.
//verif:prop=C25 reach=end
func H_blocks() {
	f := pick()
	be := contentenc.New(core(f), 4096, false)
	n := []int{1, 4095, 4096}[vrt.Choose("len", 0, 2)]
	p := make([]byte, n)
	p[0] = vrt.Byte("head")
	p[n-1] = vrt.Byte("tail")
	id := vrt.Bytes("id", 16)
	no := vrt.Uint64("no")
	c := f.Block(id, no, p)
	got, err := be.DecryptBlock(c, no, id)
	vrt.Assert(err == nil, "a well-formed block was refused")
	vrt.Assert(len(got) == n && vrt.EqBytes(got, p), "a block is not decrypted as the format says")
	out := be.EncryptBlock(p, no, id)
	vrt.Assert(len(out) == n+32, "an encrypted block has the wrong size")
	back, ok := f.OpenBlock(id, no, out)
	vrt.Assert(ok, "an encrypted block is not in the format")
	vrt.Assert(len(back) == n && vrt.EqBytes(back, p), "an encrypted block holds something else")
	vrt.Reach("end")
}

// Any file header: parsed exactly if it is well-formed, and packed again to the same
// bytes.
//verif:prop=C25 reach=ok,refused shard=len:16..20
func H_header() {
	n := vrt.Choose("len", 16, 20)
	b := vrt.Bytes("header", n)
	orig := append([]byte{}, b...)
	h, err := contentenc.ParseHeader(b)
	good := false
	if n == 18 {
		good = vrt.And(vrt.And(b[0] == 0, b[1] == 2), !vrt.EqBytes(b[2:], make([]byte, 16)))
	}
	if err != nil {
		vrt.Assert(!good, "a well-formed header was refused")
		vrt.Reach("refused")
		return
	}
	vrt.Assert(good, "a malformed header was accepted")
	vrt.Assert(h.Version == 2 && vrt.EqBytes(h.ID, orig[2:]), "a header was parsed wrongly")
	vrt.Assert(vrt.EqBytes(h.Pack(), orig), "a header is not packed as it was parsed")
	vrt.Reach("ok")
}

// The wrapped master key, both ways, for passwords of 1 to 3 symbolic bytes.
//verif:prop=C25,C18 reach=end
func H_key() {
	f := pick()
	pw := vrt.Bytes("pw", vrt.Choose("plen", 1, 3))
	salt := bytes.Repeat([]byte{9}, 32)
	var cf configfile.ConfFile
	cf.FeatureFlags = []string{"GCMIV128", "DirIV", "EMENames"}
	if f.HKDF {
		cf.FeatureFlags = append(cf.FeatureFlags, "HKDF")
	}
	cf.ScryptObject = configfile.ScryptKDF{Salt: salt, N: 1024, R: 8, P: 1, KeyLen: 32}
	cf.EncryptedKey = f.Wrap(pw, salt, 1024, 8, 1)
	k, err := cf.DecryptMasterKey(append([]byte{}, pw...))
	vrt.Assert(err == nil && vrt.EqBytes(k, f.Master), "a well-formed key was not unlocked")
	cf.EncryptKey(append([]byte{}, f.Master...), append([]byte{}, pw...), 10)
	s := cf.ScryptObject
	vrt.Assert(len(s.Salt) >= 32 && s.N == 1024 && s.R == 8 && s.P == 1 && s.KeyLen == 32, "a key was locked with other parameters than asked for")
	k, ok := f.Unwrap(pw, cf.EncryptedKey, s.Salt, s.N, s.R, s.P)
	vrt.Assert(ok && vrt.EqBytes(k, f.Master), "a locked key is not in the format")
	vrt.Reach("end")
}

// Long names are replaced by a hash of the encrypted name; they and their companions are
// recognised.
//verif:prop=C25,C04 reach=hashed,plain shard=len:0..4
func H_long_names() {
	f := pick()
	n := []int{175, 176, 191, 192, 255}[vrt.Choose("len", 0, 4)]
	b := bytes.Repeat([]byte{'n'}, n)
	b[0] = vrt.Byte("first")
	b[n-1] = vrt.Byte("last")
	t := nametransform.New(core(f).EMECipher, true, f.Raw64)
	iv := vrt.Bytes("iv", 16)
	full := f.Name(string(b), iv)
	got, err := t.EncryptAndHashName(string(b), iv)
	vrt.Assert(err == nil, "a name was refused")
	if len(full) <= 255 {
		vrt.Assert(vrt.EqString(got, full), "a short name was changed")
		vrt.Reach("plain")
		return
	}
	want := f.Hashed(full)
	vrt.Assert(len(got) == len(want) && vrt.EqString(got, want), "a long name is not hashed as the format says")
	vrt.Assert(nametransform.NameType(got) == nametransform.LongNameContent && nametransform.IsLongContent(got), "a long name is not recognised")
	vrt.Assert(nametransform.NameType(got+".name") == nametransform.LongNameFilename && !nametransform.IsLongContent(got+".name"), "the companion of a long name is not recognised")
	vrt.Assert(vrt.EqString(nametransform.RemoveLongNameSuffix(got+".name"), got), "the companion of a long name belongs to another")
	vrt.Reach("hashed")
}
