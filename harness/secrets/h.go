package secrets

import (
	"encoding/json"
	"errors"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/libtree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

var errFault = errors.New("failure")

// world is a file system with a master key, of which some bytes are symbolic, and a
// password of its own.
func world(pw string, siv bool) *libtree.World {
	fl := libtree.Flags
	if siv {
		fl = append(append([]string{}, fl...), "AESSIV")
	}
	w := libtree.New(fl)
	m := libtree.Master()
	copy(m, vrt.Bytes("master", 3))
	w.F.Master = m
	lock(w, pw)
	return w
}

// lock gives a file system another password.
func lock(w *libtree.World, pw string) {
	var cf configfile.ConfFile
	if err := json.Unmarshal(w.Conf, &cf); err != nil {
		panic(err)
	}
	cf.EncryptedKey = w.F.Wrap([]byte(pw), cf.ScryptObject.Salt, 1024, 8, 1)
	w.Conf, _ = json.Marshal(cf)
	w.R.Files[libtree.Root+"/gocryptfs.conf"] = w.Conf
}

// Two file systems that differ in their master key and password are opened with the right
// or a wrong password, any file operation may fail, the configuration may be damaged: all
// that is printed is the same, and so are the errors.
//verif:prop=C26,C27 nonative reach=opened,refused shard=n:1..3
func H_open_secrets() {
	n := vrt.Choose("n", 1, 3)
	siv := vrt.Choose("siv", 0, 1) == 1
	wrong := vrt.Choose("wrong", 0, 1) == 1
	fail := vrt.Choose("fail", 0, 5)
	damage := vrt.Choose("damage", 0, 4)
	var out, res, told [2]string
	for i := 0; i < 2; i++ {
		pw := vrt.String("password", n)
		w := world(pw, siv)
		m := lib.InstallMessages(w.FS)
		vrt.Override("os.Exit", func(int) { vrt.Stop() })
		typed := pw
		if wrong {
			typed = vrt.String("typed", n)
			vrt.Assume(!vrt.EqString(typed, pw))
		}
		c := append([]byte{}, w.Conf...)
		switch damage {
		case 1:
			c = c[:len(c)-2]
		case 2:
			c = nil
		case 3:
			var cf configfile.ConfFile
			json.Unmarshal(c, &cf)
			cf.EncryptedKey = cf.EncryptedKey[:40]
			c, _ = json.Marshal(cf)
		case 4:
			var cf configfile.ConfFile
			json.Unmarshal(c, &cf)
			cf.EncryptedKey[20] ^= 1
			c, _ = json.Marshal(cf)
		}
		w.R.Files[libtree.Root+"/gocryptfs.conf"] = c
		ops := 0
		w.FS.Step = func(op, path string) error {
			ops++
			if ops == fail {
				return errFault
			}
			return nil
		}
		_, err := filetree.Init(libtree.Root, []byte(typed), 1, w.R)
		res[i], out[i] = lib.Error(err), m.Text
		if err == nil {
			vrt.Reach("opened")
		} else {
			vrt.Reach("refused")
		}
		for _, c := range w.R.Calls {
			told[i] += c + "|"
		}
	}
	vrt.Assert(vrt.EqString(told[0], told[1]), "what the remote is asked for depends on a secret")
	vrt.Assert(vrt.EqString(res[0], res[1]), "an error tells a secret")
	vrt.Assert(vrt.EqString(out[0], out[1]), "what is printed depends on a secret")
}

// Two file systems that differ in their keys and in the content of a file, sound or altered:
// what reading the file prints or reports as an error is the same.
//verif:prop=C26 nonative reach=read,failed shard=damage:0..4
func H_read_secrets() {
	damage := vrt.Choose("damage", 0, 4)
	siv := vrt.Choose("siv", 0, 1) == 1
	n := []int{1, 3, 40}[vrt.Choose("len", 0, 2)]
	var out, res [2]string
	for i := 0; i < 2; i++ {
		w := libtree.New(libtree.Flags)
		if siv {
			w = libtree.New(append(append([]string{}, libtree.Flags...), "AESSIV"))
		}
		m := lib.InstallMessages(w.FS)
		vrt.Override("os.Exit", func(int) { vrt.Stop() })
		c := w.Seal(libtree.FileID(1), vrt.Bytes("content", n))
		switch damage {
		case 1:
			c[40] ^= 1
		case 2:
			c = c[:len(c)-1]
		case 3:
			c = c[:30]
		case 4:
			c[1] = 3
		}
		w.AddFile(libtree.Root, libtree.IV(0), "f", c)
		t, err := w.Open(1)
		if err != nil {
			vrt.Fail("a file system could not be opened")
		}
		_, err = t.ReadDir("/")
		res[i] = lib.Error(err)
		_, err = t.Stat("/f")
		res[i] += lib.Error(err)
		_, err = t.ReadFile("/f")
		res[i] += lib.Error(err)
		out[i] = m.Text
		if err == nil {
			vrt.Reach("read")
		} else {
			vrt.Reach("failed")
		}
	}
	vrt.Assert(vrt.EqString(res[0], res[1]), "an error tells what a file holds")
	vrt.Assert(vrt.EqString(out[0], out[1]), "what is printed depends on what a file holds")
}

// Two file systems are created, and get another password, with different passwords and
// different random keys, and any file operation may fail; standard output is no terminal:
// what is printed is the same, and so are the errors.
//verif:prop=C26 nonative reach=created,failed
func H_create_secrets() {
	n := vrt.Choose("n", 1, 3)
	dev := vrt.Choose("dev", 0, 1) == 1
	plain := vrt.Choose("plain", 0, 1) == 1
	fail := vrt.Choose("fail", 0, 9)
	change := vrt.Choose("change", 0, 1) == 1
	var out, res [2]string
	for i := 0; i < 2; i++ {
		lib.InstallCrypto()
		fs := lib.InstallFS()
		m := lib.InstallMessages(fs)
		fs.Files["/dev/random"] = &lib.Inode{}
		key := vrt.Bytes("random", 8)
		fs.Random = key
		vrt.Override("crypto/rand.Read", func(b []byte) (int, error) {
			for j := range b {
				b[j] = key[j%8] + byte(j)
			}
			return len(b), nil
		})
		ops := 0
		fs.Step = func(op, path string) error {
			ops++
			if ops == fail && path != "/dev/random" {
				return errFault
			}
			return nil
		}
		pw := vrt.String("password", n)
		err := configfile.Create("/c", []byte(pw), plain, 10, "verif", false, dev, nil)
		if err == nil && change {
			var k []byte
			var cf *configfile.ConfFile
			if k, cf, err = configfile.LoadAndDecrypt("/c", []byte(pw)); err == nil {
				cf.EncryptKey(k, []byte(vrt.String("newpassword", n)), 10)
				err = cf.WriteFile()
			}
		}
		res[i], out[i] = lib.Error(err), m.Text
		if err == nil {
			vrt.Reach("created")
		} else {
			vrt.Reach("failed")
		}
	}
	vrt.Assert(vrt.EqString(res[0], res[1]), "an error tells a secret")
	vrt.Assert(vrt.EqString(out[0], out[1]), "what is printed depends on a secret")
}

// Passwords of up to 300 bytes: the errors and messages tell nothing of them, whether they
// are right or wrong and whatever is wrong with the configuration.
//verif:prop=C26,C27 nonative reach=opened,refused shard=len:0..7
func H_long_secrets() {
	n := []int{8, 16, 33, 65, 72, 100, 129, 300}[vrt.Choose("len", 0, 7)]
	wrong := vrt.Choose("wrong", 0, 1) == 1
	damage := vrt.Choose("damage", 0, 1) == 1
	var out, res, told [2]string
	for i := 0; i < 2; i++ {
		pw := vrt.String("password", n)
		w := libtree.New(libtree.Flags)
		lib.LongPasswords()
		lock(w, pw)
		m := lib.InstallMessages(w.FS)
		vrt.Override("os.Exit", func(int) { vrt.Stop() })
		typed := pw
		if wrong {
			typed = vrt.String("typed", n)
			vrt.Assume(!vrt.EqString(typed, pw))
		}
		if damage {
			w.R.Files[libtree.Root+"/gocryptfs.conf"] = w.Conf[:len(w.Conf)-2]
		}
		_, err := filetree.Init(libtree.Root, []byte(typed), 1, w.R)
		res[i], out[i] = lib.Error(err), m.Text
		if err == nil {
			vrt.Reach("opened")
		} else {
			vrt.Reach("refused")
		}
		for _, c := range w.R.Calls {
			told[i] += c + "|"
		}
	}
	vrt.Assert(vrt.EqString(told[0], told[1]), "what the remote is asked for depends on a secret")
	vrt.Assert(vrt.EqString(res[0], res[1]), "an error tells a secret")
	vrt.Assert(vrt.EqString(out[0], out[1]), "what is printed depends on a secret")
}
