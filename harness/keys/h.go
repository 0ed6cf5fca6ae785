package keys

import (
	"crypto/cipher"
	"errors"
	"hash"
	"io"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/libtree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

var errFault = errors.New("failure")

const pwKey = "the key derived from the password"

// watch remembers the buffers that key material is passed in.
type watch struct {
	bufs   [][]byte
	copies [][]byte
	what   []string
}

func (w *watch) see(b []byte, what string) {
	w.bufs = append(w.bufs, b)
	w.copies = append(w.copies, append([]byte{}, b...))
	w.what = append(w.what, what)
}

// wiped checks that none of them holds key material any more, and that no copy is kept in a
// package variable or, of the key derived from the password, in the tree.
func (w *watch) wiped(tree interface{}) {
	for i, b := range w.bufs {
		vrt.Assert(!vrt.Remembered(w.copies[i], nil), w.what[i]+" is kept in a package variable")
		if w.what[i] == pwKey {
			vrt.Assert(!vrt.Remembered(w.copies[i], tree), w.what[i]+" is kept in the tree")
		}
		for _, c := range b {
			vrt.Assert(c == 0, w.what[i]+" is left in memory")
		}
	}
}

// spy installs the models with the buffers watched.
func spy(master []byte) *watch {
	w := &watch{}
	vrt.Override("crypto/aes.NewCipher", func(key []byte) (cipher.Block, error) {
		if len(key) != 32 {
			return nil, errFault
		}
		w.see(key, "a cipher key")
		return &lib.Block{Key: append([]byte{}, key...)}, nil
	})
	vrt.Override("golang.org/x/crypto/hkdf.New", func(h func() hash.Hash, secret, salt, info []byte) io.Reader {
		w.see(secret, "a master key or password key")
		return lib.KDF(secret, salt, info)
	})
	vrt.Override("golang.org/x/crypto/scrypt.Key", func(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
		k := lib.ScryptModel(password, salt, N, r, p, keyLen)
		w.see(k, pwKey)
		return k, nil
	})
	return w
}

// Opening a file system, with or without derived keys and with a right or wrong password,
// with any file operation failing or not: afterwards no buffer that held a key does, and
// the local copy of the configuration is gone; while it existed only the owner could read it.
//verif:prop=C19 nonative reach=opened,refused time=200
func H_open() {
	fl := []string{"GCMIV128", "DirIV", "EMENames", "LongNames", "Raw64"}
	if vrt.Choose("hkdf", 0, 1) == 1 {
		fl = append(fl, "HKDF")
	}
	if vrt.Choose("siv", 0, 1) == 1 {
		fl = append(fl, "AESSIV")
	}
	wd := libtree.New(fl)
	w := spy(libtree.Master())
	pw := libtree.Password
	if vrt.Choose("wrong", 0, 1) == 1 {
		pw = "no"
	}
	fail := vrt.Choose("fail", 0, 5)
	ops := 0
	wd.FS.Step = func(op, path string) error {
		if op == "remove" {
			return nil
		}
		ops++
		if ops == fail {
			return errFault
		}
		return nil
	}
	t, err := filetree.Init(libtree.Root, []byte(pw), 1, wd.R)
	for _, p := range wd.FS.Temps {
		vrt.Assert(wd.FS.Files[p] == nil, "the local copy of the configuration was left behind")
	}
	for p := range wd.FS.Files {
		vrt.Fail("a file was left behind: " + p)
	}
	for _, m := range wd.FS.Modes {
		vrt.Assert(m&077 == 0, "the local copy of the configuration could be read by others")
	}
	if err != nil {
		vrt.Assert(t == nil, "opening failed but returned a tree")
		w.wiped(nil)
		vrt.Assert(!vrt.Remembered(libtree.Master(), nil), "the master key is kept in a package variable")
		vrt.Reach("refused")
		return
	}
	vrt.Assert(pw == libtree.Password, "a wrong password was accepted")
	vrt.Assert(len(w.bufs) >= 3, "no key was used")
	w.wiped(t)
	vrt.Assert(!vrt.Remembered(libtree.Master(), t), "the master key is kept in memory")
	vrt.Reach("opened")
}

// Locking a key with a password leaves neither the derived key nor a cipher key behind.
//verif:prop=C19 nonative reach=end
func H_lock() {
	lib.InstallCrypto()
	w := spy(nil)
	var cf configfile.ConfFile
	cf.FeatureFlags = []string{"GCMIV128", "DirIV", "EMENames"}
	if vrt.Choose("hkdf", 0, 1) == 1 {
		cf.FeatureFlags = append(cf.FeatureFlags, "HKDF")
	}
	cf.EncryptKey(libtree.Master(), []byte("pw"), 10)
	w.wiped(nil)
	vrt.Assert(!vrt.Remembered(libtree.Master(), nil), "the master key is kept in a package variable")
	vrt.Assert(len(w.bufs) >= 2, "no key was used")
	vrt.Reach("end")
}

// Creating a file system does not leave the new master key in memory or print it.
//verif:prop=C19 nonative reach=end
func H_create() {
	lib.InstallCrypto()
	fs := lib.InstallFS()
	fs.Files["/dev/random"] = &lib.Inode{}
	w := spy(nil)
	x := uint32(1)
	vrt.Override("crypto/rand.Read", func(b []byte) (int, error) {
		for i := range b { // no two stretches are alike
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
		return len(b), nil
	})
	printed := &strings.Builder{}
	fs.Std = func(b []byte) { printed.Write(b) }
	seen := vrt.Choose("dev", 0, 1) == 1
	var master []byte
	vrt.Override("github.com/flawedmatrix/gocryptsftp/gocrypt/tlog.PrintMasterkeyReminder", func(k []byte) {
		master = k
		w.see(k, "the new master key")
	})
	err := configfile.Create("/c", []byte("pw"), false, 10, "verif", vrt.Choose("siv", 0, 1) == 1, seen, nil)
	vrt.Assert(err == nil, "a file system could not be created")
	w.wiped(nil)
	for _, c := range master {
		vrt.Assert(c == 0, "the new master key is left in memory")
	}
	vrt.Reach("end")
}

// After wiping, the ciphers are gone and the key of the deterministic one is overwritten.
//verif:prop=C19 nonative reach=end
func H_wipe() {
	lib.InstallCrypto()
	var k64 []byte
	vrt.Override("github.com/jacobsa/crypto/siv.Encrypt", func(dst, key, plain []byte, ad [][]byte) ([]byte, error) {
		k64 = key
		return append(dst, make([]byte, 16+len(plain))...), nil
	})
	b := []cryptocore.AEADTypeEnum{cryptocore.BackendGoGCM, cryptocore.BackendAESSIV}[vrt.Choose("backend", 0, 1)]
	cc := cryptocore.New(libtree.Master(), b, 128, vrt.Choose("hkdf", 0, 1) == 1, false)
	cc.AEADCipher.Seal(nil, make([]byte, 16), []byte("x"), nil)
	cc.Wipe()
	vrt.Assert(cc.AEADCipher == nil && cc.EMECipher == nil, "wiping left a cipher behind")
	for _, c := range k64 {
		vrt.Assert(c == 0, "wiping left a key behind")
	}
	vrt.Reach("end")
}
