package malice

import (
	"encoding/json"
	"os"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/libtree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

func ask(t *filetree.FileTree, p string) {
	t.ReadDir(p)
	t.Stat(p)
	t.ReadFile(p)
}

// A directory IV of any length from 0 to 40 bytes, any content: requests in that
// directory and below it end.
//verif:prop=C03 reach=end shard=len:0..40
func H_diriv() {
	lib.ExitFails()
	n := vrt.Choose("len", 0, 40)
	w := libtree.New(libtree.Flags)
	w.AddFile(libtree.Root, libtree.IV(0), "f", w.Seal(libtree.FileID(1), []byte("x")))
	d := w.AddDir(libtree.Root, libtree.IV(0), "d", libtree.IV(1))
	w.AddFile(d, libtree.IV(1), "g", w.Seal(libtree.FileID(2), []byte("y")))
	iv := vrt.Bytes("iv", n)
	if vrt.Choose("which", 0, 1) == 0 {
		w.R.Files[libtree.Root+"/gocryptfs.diriv"] = iv
	} else {
		w.R.Files[d+"/gocryptfs.diriv"] = iv
	}
	t, err := w.Open(1)
	if err != nil {
		vrt.Fail("a bad directory IV kept the file system from opening")
	}
	ask(t, "/")
	ask(t, "/f")
	ask(t, "/d")
	ask(t, "/d/g")
	vrt.Reach("end")
}

// Listed entries with any size and mode bits, regular or not, and names that are no
// encrypted names.
//verif:prop=C03 reach=end
func H_listing() {
	lib.ExitFails()
	w := libtree.New(libtree.Flags)
	good := w.AddFile(libtree.Root, libtree.IV(0), "f", w.Seal(libtree.FileID(1), []byte("x")))
	_ = good
	fi := w.R.Dirs[libtree.Root][len(w.R.Dirs[libtree.Root])-1].(*lib.Info)
	fi.Sz = vrt.Int64("size")
	fi.Perm = os.FileMode(vrt.Uint32("perm"))
	fi.Dir = vrt.Choose("dir", 0, 1) == 1
	name := ""
	switch vrt.Choose("name", 0, 5) {
	case 1:
		name = "."
	case 2:
		name = ".."
	case 3:
		name = vrt.String("n", 3)
	case 4:
		name = "gocryptfs.longname.abc"
	case 5:
		name = "a/../../b"
	}
	w.R.Dirs[libtree.Root] = append(w.R.Dirs[libtree.Root], &lib.Info{N: name, Dir: vrt.Choose("odd", 0, 1) == 1})
	t, err := w.Open(1)
	if err != nil {
		vrt.Fail("an odd listing kept the file system from opening")
	}
	ask(t, "/")
	ask(t, "/f")
	ask(t, "/f/g")
	ask(t, "/..")
	ask(t, "f")
	ask(t, "")
	vrt.Reach("end")
}

// Overlong names in a listing: 1 to 2800 characters of the base64 alphabet.
//verif:prop=C03 reach=end shard=k:0..13
func H_long_names() {
	lib.ExitFails()
	n := []int{1, 22, 255, 256, 342, 363, 683, 1366, 2710, 2731, 2732, 2752, 2753, 2800}[vrt.Choose("k", 0, 13)]
	w := libtree.New(libtree.Flags)
	b := make([]byte, n)
	for i := range b {
		b[i] = "ABCabc019-_"[i%11]
	}
	w.R.AddFile(libtree.Root, string(b), []byte("x"))
	t, err := w.Open(1)
	if err != nil {
		vrt.Fail("an overlong name kept the file system from opening")
	}
	ask(t, "/")
	ask(t, "/f")
	vrt.Reach("end")
}

var creators = []string{"", "gocryptfs v0.4", "gocryptfs v0.6", "gocryptfs v0.11", "gocryptfs v1.0", "gocryptfs v1.7.1", "gocryptfs v2.4.0", "cppcryptfs 1.4", "gocryptsftp", "dev"}

// A sound configuration is changed in one respect: the wrapped key (any bytes, 0 to 80, or
// zeros), the version (any), the flags (each one dropped, any of up to 6 symbolic
// characters or a near miss of a known one added), the salt (any, 0 to 40 bytes), the cost
// parameters and the key length (around every limit), the password (any, 0 to 2 bytes),
// or any set of the usual flags with any of 10 creators, with or without an unknown flag.
// It is also made with other salts and costs in the first place, sound and weak ones. What
// is not exactly the configuration of the key is refused with an error or an orderly exit;
// what is sound opens and works.
//verif:prop=C03,C18 reach=opened,refused,exited shard=case:0..11 time=200
func H_config() {
	w := libtree.New(libtree.Flags)
	w.AddFile(libtree.Root, libtree.IV(0), "f", w.Seal(libtree.FileID(1), []byte("x")))
	var cf configfile.ConfFile
	if err := json.Unmarshal(w.Conf, &cf); err != nil {
		panic(err)
	}
	pw := []byte(libtree.Password)
	want := "refuse"
	what := vrt.Choose("case", 0, 11)
	switch what {
	case 0:
		k := vrt.Bytes("key", vrt.Choose("klen", 0, 80))
		if vrt.EqBytes(k, cf.EncryptedKey) {
			want = "open"
		}
		cf.EncryptedKey = k
	case 1:
		cf.Version = vrt.Uint16("version")
		if cf.Version == 2 {
			want = "open"
		}
	case 2:
		drop := vrt.Choose("drop", 0, len(cf.FeatureFlags)-1)
		switch cf.FeatureFlags[drop] {
		case "LongNames", "Raw64":
			want = "any" // these say how names are written, not how the key is wrapped
		}
		cf.FeatureFlags = append(append([]string{}, cf.FeatureFlags[:drop]...), cf.FeatureFlags[drop+1:]...)
	case 3:
		near := []string{"Strange", "AESSI", "AESSIVX", "gcmiv128", "GCMIV128 ", "Trezo", "HKDF\x00", "LongName", "LongNamesLongNames"}
		n := vrt.Choose("add", -7, len(near)-1)
		var flag string
		if n < 0 {
			b := vrt.Bytes("flag", -n-1)
			for _, c := range b {
				vrt.Assume(c >= ' ' && c < 0x7f && c != '"' && c != '\\' && c != '<' && c != '>' && c != '&')
			}
			flag = string(b)
			for _, f := range []string{"HKDF", "DirIV", "Raw64", "AESSIV", "Trezor"} {
				if vrt.EqString(flag, f) {
					want = "any"
				}
			}
		} else {
			flag = near[n]
		}
		if vrt.Choose("first", 0, 1) == 1 {
			cf.FeatureFlags = append([]string{flag}, cf.FeatureFlags...)
		} else {
			cf.FeatureFlags = append(cf.FeatureFlags, flag)
		}
	case 4:
		s := vrt.Bytes("salt", vrt.Choose("slen", 0, 40))
		if vrt.EqBytes(s, cf.ScryptObject.Salt) {
			want = "open"
		} else if len(s) >= 32 {
			want = "any" // the derivation is a model: other salts may give the same key
			if vrt.Choose("last", 0, 1) == 1 {
				s = append(append([]byte{}, cf.ScryptObject.Salt[:31]...), cf.ScryptObject.Salt[31]+1)
				want = "refuse"
			}
		}
		cf.ScryptObject.Salt = s
	case 5:
		// 1<<9 and less are refused, larger costs are too slow to replay
		n := []int{-1024, -1, 0, 1, 512, 1023, 1024, 1025, 1536, 2048}[vrt.Choose("N", 0, 9)]
		r := []int{-8, 0, 1, 4, 7, 8, 9}[vrt.Choose("R", 0, 6)]
		p := []int{-1, 0, 1, 2}[vrt.Choose("P", 0, 3)]
		cf.ScryptObject.N, cf.ScryptObject.R, cf.ScryptObject.P = n, r, p
		if n == 1024 && r == 8 && p == 1 {
			want = "open"
		}
	case 6:
		cf.ScryptObject.KeyLen = []int{-32, -1, 0, 1, 15, 16, 24, 31, 32, 33, 48, 64}[vrt.Choose("K", 0, 11)]
		if cf.ScryptObject.KeyLen == 32 {
			want = "open"
		}
	case 7:
		pw = vrt.Bytes("pw", vrt.Choose("plen", 0, 3))
		if vrt.EqBytes(pw, []byte(libtree.Password)) {
			want = "open"
		}
	case 8:
		n := vrt.Choose("zeros", 0, 3)
		cf.EncryptedKey = make([]byte, []int{32, 64, 4096, 4128}[n])
		if vrt.Choose("nopw", 0, 1) == 1 {
			pw = nil
		}
	case 10, 11:
		// any of the known flags, of any creator
		cf.Creator = creators[vrt.Choose("creator", 0, len(creators)-1)]
		cf.FeatureFlags = nil
		set := vrt.Choose("set", 0, 63)
		for i, f := range []string{"GCMIV128", "HKDF", "DirIV", "EMENames", "LongNames", "Raw64"} {
			if set>>uint(i)&1 == 1 {
				cf.FeatureFlags = append(cf.FeatureFlags, f)
			}
		}
		if set&15 == 15 {
			want = "any" // the last two say how names are written, not how the key is wrapped
		}
		if set == 63 {
			want = "open"
		}
		if what == 11 {
			want = "refuse"
			cf.FeatureFlags = append(cf.FeatureFlags, []string{"gocryptfs v1.0", "FIDO2", "XChaCha20Poly1305", "LongNameMax"}[vrt.Choose("more", 0, 3)])
		}
	case 9:
		// wrapped with these in the first place
		s := make([]byte, []int{0, 8, 16, 24, 31, 32, 33, 48, 64}[vrt.Choose("slen", 0, 8)])
		for i := range s {
			s[i] = byte(i*9 + 5)
		}
		n := []int{256, 512, 1024, 2048, 4096}[vrt.Choose("N", 0, 4)]
		r := []int{1, 4, 7, 8, 9}[vrt.Choose("R", 0, 4)]
		p := vrt.Choose("P", 1, 2)
		cf.ScryptObject.Salt, cf.ScryptObject.N, cf.ScryptObject.R, cf.ScryptObject.P = s, n, r, p
		cf.EncryptedKey = w.F.Wrap(pw, s, n, r, p)
		if len(s) >= 32 && n >= 1024 && r >= 8 {
			want = "open"
		}
	}
	js, err := json.Marshal(cf)
	if err != nil {
		panic(err)
	}
	w.R.Files[libtree.Root+"/gocryptfs.conf"] = js
	exit := func() {
		if want == "open" {
			vrt.Fail("the process exits instead of opening a sound file system")
		}
		vrt.Reach("exited")
		vrt.Exit()
	}
	vrt.Override("os.Exit", func(int) { exit() })
	vrt.Override("log.Fatal", func(...interface{}) { exit() })
	vrt.Override("log.Fatalf", func(string, ...interface{}) { exit() })
	vrt.Override("log.Fatalln", func(...interface{}) { exit() })
	t, err := filetree.Init(libtree.Root, pw, 1, w.R)
	if err != nil {
		vrt.Assert(t == nil, "opening failed but returned a tree")
		vrt.Assert(want != "open", "a sound file system was not opened")
		vrt.Reach("refused")
		return
	}
	vrt.Assert(want != "refuse", "a file system was opened although its configuration or the password is not right")
	vrt.Reach("opened")
	lib.ExitFails()
	ask(t, "/")
	got, err := t.ReadFile("/f")
	if want == "open" {
		vrt.Assert(err == nil && string(got) == "x", "a tree was opened with a wrong key")
	}
}

// Configurations that are no configurations: any text of up to 3 bytes, and a few
// shapes of JSON.
//verif:prop=C03,C18 reach=refused
func H_config_text() {
	w := libtree.New(libtree.Flags)
	var b []byte
	k := vrt.Choose("k", 0, 7)
	switch k {
	case 0:
		b = nil
	case 1:
		b = []byte("null")
	case 2:
		b = []byte("{}")
	case 3:
		b = []byte("[]")
	case 4:
		b = []byte(`{"Version":2}`)
	case 5:
		b = []byte(`{"Version":"2"}`)
	case 6:
		b = w.Conf[:len(w.Conf)/2]
	case 7:
		b = []byte(`{"Version":2,"FeatureFlags":["GCMIV128","HKDF","DirIV","EMENames","LongNames","Raw64"]}`)
	}
	w.R.Files[libtree.Root+"/gocryptfs.conf"] = b
	t, err := w.Open(1)
	vrt.Assert(err != nil && t == nil, "something that is no configuration was accepted")
	vrt.Reach("refused")
}
