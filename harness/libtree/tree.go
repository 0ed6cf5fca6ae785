// Package libtree builds encrypted trees on a model remote and opens them through the
// real initialisation code.
package libtree

import (
	"encoding/json"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
)

// Root is the encrypted root directory on the remote.
const Root = "/enc"

// Password unlocks the file systems made here.
const Password = "pw"

// Master returns the master key of the file systems made here.
func Master() []byte {
	k := make([]byte, 32)
	for i := range k {
		k[i] = byte(i*7 + 3)
	}
	return k
}

// IV returns a directory IV.
func IV(n int) []byte {
	b := make([]byte, 16)
	for i := range b {
		b[i] = byte(i*3 + n*17 + 1)
	}
	return b
}

// World is a remote with an encrypted tree and what is needed to extend it.
type World struct {
	R    *lib.Remote
	F    *lib.Format
	FS   *lib.MemFS
	Conf []byte
}

// Flags are the feature flags of a current file system.
var Flags = []string{"GCMIV128", "HKDF", "DirIV", "EMENames", "LongNames", "Raw64"}

// New makes an empty encrypted file system.
func New(flags []string) *World {
	lib.InstallCrypto()
	w := &World{R: lib.NewRemote(Root), FS: lib.InstallFS()}
	var cf configfile.ConfFile
	cf.Creator = "verif"
	cf.Version = 2
	cf.FeatureFlags = flags
	f := &lib.Format{Master: Master()}
	for _, x := range flags {
		switch x {
		case "HKDF":
			f.HKDF = true
		case "Raw64":
			f.Raw64 = true
		case "AESSIV":
			f.SIV = true
		}
	}
	salt := make([]byte, 32)
	for i := range salt {
		salt[i] = byte(i*5 + 1)
	}
	cf.ScryptObject = configfile.ScryptKDF{Salt: salt, N: 1024, R: 8, P: 1, KeyLen: 32}
	cf.EncryptedKey = f.Wrap([]byte(Password), salt, 1024, 8, 1)
	js, err := json.Marshal(cf)
	if err != nil {
		panic(err)
	}
	w.Conf = js
	w.R.AddFile(Root, "gocryptfs.conf", js)
	w.R.AddFile(Root, "gocryptfs.diriv", IV(0))
	w.F = f
	return w
}

// Open opens the tree as the proxy does.
func (w *World) Open(workers int) (*filetree.FileTree, error) {
	return filetree.Init(Root, []byte(Password), workers, w.R)
}

// Seal encrypts a file the way gocryptfs stores it.
func (w *World) Seal(id []byte, data []byte) []byte {
	return w.F.File(id, data)
}

// FileID is a fixed file id.
func FileID(n int) []byte {
	b := make([]byte, 16)
	for i := range b {
		b[i] = byte(i + 1 + n*31)
	}
	return b
}

// AddFile stores an encrypted file under its encrypted name.
func (w *World) AddFile(dir string, iv []byte, name string, stored []byte) string {
	c := w.F.Name(name, iv)
	w.R.AddFile(dir, c, stored)
	return dir + "/" + c
}

// AddDir stores a directory under its encrypted name.
func (w *World) AddDir(dir string, iv []byte, name string, newIV []byte) string {
	return w.R.AddDir(dir, w.F.Name(name, iv), newIV)
}
