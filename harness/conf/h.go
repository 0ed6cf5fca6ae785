package conf

import (
	"bytes"
	"errors"
	"os"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

var errFault = errors.New("failure")

const path = "/enc/gocryptfs.conf"

// old is a complete earlier configuration.
func old(fs *lib.MemFS) []byte {
	if err := configfile.Create(path, []byte("old"), false, 10, "before", false, false, nil); err != nil {
		vrt.Fail("a configuration could not be created")
	}
	return append([]byte{}, fs.Files[path].Data...)
}

// opens reports whether the configuration on disk opens with the password.
func opens(pw string) bool {
	k, _, err := configfile.LoadAndDecrypt(path, []byte(pw))
	return err == nil && len(k) == 32
}

// write writes a new configuration: a new file system, or an earlier one with another
// password.
func write(change bool) error {
	if !change {
		return configfile.Create(path, []byte("new"), false, 10, strings.Repeat("verif", vrt.Choose("long", 0, 1)*1000+1), false, false, nil)
	}
	k, cf, err := configfile.LoadAndDecrypt(path, []byte("old"))
	if err != nil {
		return err
	}
	cf.EncryptKey(k, []byte("new"), 10)
	return cf.WriteFile()
}

// neighbours are files next to the configuration that are none of its business.
var neighbours = []string{"/enc/gocryptfs.conf~", "/enc/gocryptfs.conf.bak", "/enc/gocryptfs.conf.old", "/enc/gocryptfs.diriv", "/enc/.gocryptfs.conf", "/enc/gocryptfs.conf.tmp2"}

func addNeighbours(fs *lib.MemFS) {
	for _, n := range neighbours {
		fs.Files[n] = &lib.Inode{Data: []byte("data of " + n), Perm: 0640}
	}
}

func checkNeighbours(fs *lib.MemFS) {
	for _, n := range neighbours {
		f := fs.Files[n]
		vrt.Assert(f != nil && string(f.Data) == "data of "+n && f.Perm == 0640, "another file was changed: "+n)
	}
}

// A configuration (short or longer than 5000 bytes) is created where there is none or an earlier one, or gets another password, and the process or the
// machine stops before any of the file operations: what is found at its place is the
// earlier configuration or the complete new one, which is on stable storage.
//verif:prop=C24 nonative reach=before,after,crashed
func H_crash() {
	lib.InstallCrypto()
	fs := lib.InstallFS()
	had := vrt.Choose("had", 0, 1) == 1
	var prev []byte
	if had {
		prev = old(fs)
	}
	change := had && vrt.Choose("change", 0, 1) == 1
	addNeighbours(fs)
	ops := 0
	look := func() {
		checkNeighbours(fs)
		ino := fs.Files[path]
		if ino == nil {
			vrt.Assert(!had, "the earlier configuration is gone")
			vrt.Reach("before")
			return
		}
		if had && string(ino.Data) == string(prev) {
			vrt.Reach("before")
			return
		}
		vrt.Assert(ino.HasSyn && string(ino.Synced) == string(ino.Data), "after a crash of the machine the configuration could be incomplete")
		fs.Step = nil
		vrt.Assert(opens("new"), "a crash leaves an incomplete configuration")
		vrt.Reach("after")
	}
	crash := vrt.Choose("crash", 1, 14)
	fs.Step = func(op, p string) error {
		ops++
		if ops == crash {
			vrt.Reach("crashed")
			look()
			vrt.Stop()
		}
		return nil
	}
	err := write(change)
	fs.Step = nil
	vrt.Assert(err == nil, "a configuration could not be created")
	vrt.Assert(fs.Files[path] != nil && (!had || string(fs.Files[path].Data) != string(prev)), "nothing was written")
	look()
}

// Any one file operation fails, or a left-over of an earlier attempt is in the way: the
// failure is reported and the earlier configuration is intact (a failing fsync alone may be
// tolerated, the file is then complete).
//verif:prop=C24 nonative reach=failed,ok
func H_fault() {
	lib.InstallCrypto()
	fs := lib.InstallFS()
	prev := old(fs)
	switch vrt.Choose("leftover", 0, 3) {
	case 1:
		fs.Files[path+".tmp"] = &lib.Inode{Data: []byte("junk")}
	case 2: // longer than any configuration
		fs.Files[path+".tmp"] = &lib.Inode{Data: bytes.Repeat([]byte("}"), 3000), Perm: 0400}
	case 3:
		fs.Files[path+".tmp"] = &lib.Inode{Data: append(append([]byte{}, prev...), prev...), Perm: 0400}
	}
	change := vrt.Choose("change", 0, 1) == 1
	addNeighbours(fs)
	fs.Partial = []int{0, 50, 100}[vrt.Choose("partial", 0, 2)]
	fail := vrt.Choose("fail", 0, 10)
	kind := ""
	ops := 0
	fs.Step = func(op, p string) error {
		ops++
		if ops == fail {
			kind = op
			return errFault
		}
		return nil
	}
	err := write(change)
	fs.Step = nil
	checkNeighbours(fs)
	now := fs.Files[path]
	vrt.Assert(now != nil, "the earlier configuration is gone")
	if err != nil {
		vrt.Assert(string(now.Data) == string(prev) || opens("new"), "a failed write damaged the earlier configuration")
		vrt.Assert(string(now.Data) != string(prev) || opens("old"), "the earlier configuration does not open any more")
		vrt.Reach("failed")
		return
	}
	vrt.Assert(kind == "" || kind == "sync" || kind == "remove" || kind == "chmod", "a failed file operation was not reported")
	vrt.Assert(opens("new") && !opens("old"), "the new configuration does not open with its password only")
	vrt.Reach("ok")
}

// Every combination of options and passwords of 1 to 3 symbolic bytes: the new file can be
// read by its owner only, opens with its password and with no other, announces exactly the
// features asked for, and yields a new random key of 32 bytes.
//verif:prop=C24,C18 nonative reach=end shard=plain:0..1
func H_create() {
	lib.InstallCrypto()
	fs := lib.InstallFS()
	fs.Files["/dev/random"] = &lib.Inode{}
	var trezor []byte
	if vrt.Choose("trezor", 0, 1) == 1 {
		trezor = vrt.Bytes("payload", 32)
	}
	pw := vrt.Bytes("pw", vrt.Choose("plen", 1, 3))
	other := vrt.Bytes("other", vrt.Choose("olen", 1, 3))
	plain := vrt.Choose("plain", 0, 1) == 1
	siv := vrt.Choose("siv", 0, 1) == 1
	dev := vrt.Choose("dev", 0, 1) == 1
	logN := []int{0, 10, 14}[vrt.Choose("logn", 0, 2)]
	err := configfile.Create(path, append([]byte{}, pw...), plain, logN, "me", siv, dev, trezor)
	vrt.Assert(err == nil, "a configuration could not be created")
	ino := fs.Files[path]
	vrt.Assert(ino != nil && len(fs.Files) == 2, "there are other files than the configuration")
	vrt.Assert(ino.Perm&077 == 0 && ino.Perm&0400 != 0, "the configuration can be read by others")
	for _, m := range fs.Modes {
		vrt.Assert(m&077 == 0, "the configuration could be read by others while it was written")
	}
	src := 0
	for _, p := range fs.Opened {
		if p == "/dev/random" {
			src++
		}
	}
	vrt.Assert((src > 0) == dev, "the new key does not come from the source of randomness asked for")
	k, cf, err := configfile.LoadAndDecrypt(path, append([]byte{}, pw...))
	vrt.Assert(err == nil && len(k) == 32, "a new configuration does not open with its password")
	vrt.Assert(cf.Version == 2 && cf.Creator == "me", "a new configuration says something else than asked for")
	want := 1 << 16
	if logN != 0 {
		want = 1 << uint(logN)
	}
	vrt.Assert(cf.ScryptObject.N == want && cf.ScryptObject.LogN() == map[int]int{0: 16, 10: 10, 14: 14}[logN], "a new configuration has another cost than asked for")
	zero := true
	for _, c := range k {
		zero = zero && c == 0
	}
	vrt.Assert(!zero, "a new key is not random")
	feat := map[string]bool{"GCMIV128": true, "HKDF": true, "DirIV": !plain, "EMENames": !plain, "LongNames": !plain, "Raw64": !plain, "PlaintextNames": plain, "AESSIV": siv, "Trezor": trezor != nil}
	vrt.Assert(vrt.EqBytes(cf.TrezorPayload, trezor), "a new configuration has another Trezor payload than asked for")
	for _, f := range cf.FeatureFlags {
		vrt.Assert(feat[f], "a new configuration announces a feature not asked for: "+f)
		delete(feat, f)
	}
	for f, on := range feat {
		vrt.Assert(!on, "a new configuration does not announce a feature: "+f)
	}
	if !(len(pw) == len(other) && vrt.EqBytes(pw, other)) {
		_, _, err := configfile.LoadAndDecrypt(path, other)
		vrt.Assert(err != nil, "a new configuration opens with another password")
	}
	vrt.Reach("end")
}

var _ = os.Exit

// A file system locked with a password of up to 300 bytes, every byte symbolic, is not
// opened by any other of the same, a smaller or a larger length, and is opened by its own.
//verif:prop=C18,C24 nonative reach=opened,refused shard=len:0..15
func H_long_password() {
	lib.InstallCrypto()
	fs := lib.InstallFS()
	lib.LongPasswords()
	n := []int{4, 8, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 72, 128, 300}[vrt.Choose("len", 0, 15)]
	pw := vrt.Bytes("pw", n)
	m := n
	switch vrt.Choose("other", 0, 3) {
	case 1:
		m = n + 1
	case 2:
		m = n - 1
	case 3:
		m = 2*n + 1
	}
	other := vrt.Bytes("other", m)
	old(fs)
	if vrt.Choose("change", 0, 1) == 0 {
		vrt.Assert(configfile.Create(path, append([]byte{}, pw...), false, 10, "me", false, false, nil) == nil, "a configuration could not be created")
	} else {
		k, cf, err := configfile.LoadAndDecrypt(path, []byte("old"))
		vrt.Assert(err == nil, "a configuration does not open with its password")
		cf.EncryptKey(k, append([]byte{}, pw...), 10)
		vrt.Assert(cf.WriteFile() == nil, "a configuration could not be written")
	}
	k, _, err := configfile.LoadAndDecrypt(path, append([]byte{}, pw...))
	vrt.Assert(err == nil && len(k) == 32, "a configuration does not open with its password")
	_, _, err = configfile.LoadAndDecrypt(path, append([]byte{}, other...))
	if m == n && vrt.EqBytes(pw, other) {
		vrt.Assert(err == nil, "a configuration does not open with its password")
		vrt.Reach("opened")
		return
	}
	vrt.Assert(err != nil, "a configuration opens with another password")
	vrt.Reach("refused")
}
