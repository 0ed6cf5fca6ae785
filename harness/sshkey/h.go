package sshkey

import (
	"crypto/x509"
	"encoding/pem"
	"errors"
	"io"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/config"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
	"golang.org/x/crypto/ssh"
)

var errOther = errors.New("failure")

type signer struct {
	ssh.Signer
	with string
}

type world struct {
	fs      *lib.MemFS
	form    string // plain, encrypted, nopem
	damaged bool
	broken  bool // so much that no passphrase can be tried
	file    string
	failure error
	right   string
	answers []string
	failAt  int // the prompt that fails
	prompts int
	tries   int
	bad     int
}

func (w *world) setFile(file string) {
	w.file = file
	w.fs.Files["/key"] = &lib.Inode{Data: []byte(file)}
}

// The key file is a PEM block or not, encrypted or not, damaged or not.
func setup() *world {
	w := &world{fs: lib.InstallFS(), failAt: -1}
	w.failure = errOther
	w.setFile("key")
	vrt.Override("encoding/pem.Decode", func(b []byte) (*pem.Block, []byte) {
		vrt.Assert(string(b) == w.file, "something else than the key file was decoded")
		if w.form == "nopem" {
			return nil, b
		}
		return &pem.Block{Type: "RSA PRIVATE KEY"}, nil
	})
	vrt.Override("crypto/x509.IsEncryptedPEMBlock", func(b *pem.Block) bool {
		_ = b.Type // dereferences the block as the real function does
		return w.form == "encrypted"
	})
	vrt.Override("golang.org/x/crypto/ssh.ParsePrivateKey", func(b []byte) (ssh.Signer, error) {
		w.tries++
		vrt.Assert(string(b) == w.file, "something else than the key file was parsed")
		if w.form != "plain" || w.damaged {
			return nil, errOther
		}
		return signer{with: "none"}, nil
	})
	vrt.Override("golang.org/x/crypto/ssh.ParsePrivateKeyWithPassphrase", func(b, pass []byte) (ssh.Signer, error) {
		w.tries++
		vrt.Assert(string(b) == w.file, "something else than the key file was parsed")
		if w.form != "encrypted" || w.broken {
			return nil, errOther
		}
		if !vrt.EqString(string(pass), w.right) {
			w.bad++
			return nil, x509.IncorrectPasswordError
		}
		if w.damaged {
			return nil, errOther
		}
		return signer{with: w.right}, nil
	})
	vrt.Override("golang.org/x/crypto/ssh/terminal.ReadPassword", func(fd int) ([]byte, error) {
		n := w.prompts
		w.prompts++
		vrt.Assert(n < 3, "the passphrase was asked for more than three times")
		if n == w.failAt {
			return []byte(w.answers[n]), w.failure // what was typed before the failure
		}
		return []byte(w.answers[n]), nil
	})
	vrt.Override("fmt.Print", func(...interface{}) (int, error) { return 0, nil })
	vrt.Override("fmt.Println", func(...interface{}) (int, error) { return 0, nil })
	return w
}

// A key file in every form; three answers of 0 to 3 symbolic bytes, of which any may be
// right; the terminal may fail or end at every prompt, also after something was typed.
//verif:prop=C23 nonative reach=plain,first,second,third,refused,error shard=form:0..2
func H_load_key() {
	w := setup()
	w.form = []string{"plain", "encrypted", "nopem"}[vrt.Choose("form", 0, 2)]
	d := vrt.Choose("damaged", 0, 2)
	w.damaged, w.broken = d > 0, d == 2
	w.right = vrt.String("right", vrt.Choose("rlen", 1, 3))
	for i := 0; i < 3; i++ {
		n := 0
		if w.form == "encrypted" {
			n = vrt.Choose("alen", 0, 3)
		}
		w.answers = append(w.answers, vrt.String("answer", n))
	}
	w.failAt = vrt.Choose("failat", 0, 3)
	if w.failAt < 3 && vrt.Choose("eof", 0, 1) == 1 {
		w.failure = io.EOF
	}
	c := &config.Config{Remote: config.RemoteConfig{PrivateKeyPath: "/key"}}
	if vrt.Choose("missing", 0, 1) == 1 {
		delete(w.fs.Files, "/key")
		k, err := c.LoadSSHKey()
		vrt.Assert(err != nil && k == nil, "a missing key file was not reported")
		vrt.Assert(w.prompts == 0 && w.tries == 0, "a missing key file was used")
		return
	}
	k, err := c.LoadSSHKey()
	if err == nil && k == nil {
		vrt.Fail("neither a key nor an error was returned")
	}
	switch w.form {
	case "plain":
		vrt.Assert(w.prompts == 0, "a passphrase was asked for a key that is not encrypted")
		vrt.Assert((err == nil) == !w.damaged, "a key that is not encrypted was refused, or a damaged one accepted")
		if err == nil {
			vrt.Assert(k.(signer).with == "none", "another key was returned")
			vrt.Reach("plain")
		}
		return
	case "nopem":
		vrt.Assert(err != nil, "a file that holds no key was accepted")
		vrt.Assert(w.prompts == 0, "a passphrase was asked for a file that holds no key")
		return
	}
	// the first prompt that fails, or whose answer is right, decides
	for i := 0; i < 3; i++ {
		if w.broken && i < w.failAt {
			vrt.Assert(w.prompts == 1, "a passphrase was asked for again although the key is damaged")
			vrt.Assert(err != nil && err != x509.IncorrectPasswordError, "a damaged key was accepted or taken for a wrong passphrase")
			return
		}
		if i == w.failAt {
			vrt.Assert(w.prompts == i+1, "the prompts went on after the terminal failed, or ended early")
			vrt.Assert(err != nil && err != x509.IncorrectPasswordError, "a failure of the terminal was not reported")
			vrt.Reach("error")
			return
		}
		if vrt.EqString(w.answers[i], w.right) {
			vrt.Assert(w.prompts == i+1, "the prompts went on after the right passphrase, or ended early")
			if w.damaged {
				vrt.Assert(err != nil && err != x509.IncorrectPasswordError, "a damaged key was accepted or taken for a wrong passphrase")
				return
			}
			vrt.Assert(err == nil, "the right passphrase was refused")
			vrt.Assert(k.(signer).with == w.right, "the key was not unlocked with the right passphrase")
			vrt.Reach([]string{"first", "second", "third"}[i])
			return
		}
	}
	vrt.Assert(w.prompts == 3, "the passphrase was not asked for three times")
	vrt.Assert(err == x509.IncorrectPasswordError, "wrong passphrases were not reported as wrong")
	vrt.Reach("refused")
}

// A key file of any size, also of more than any buffer, is used as a whole.
//verif:prop=C23 nonative reach=plain,encrypted,refused
func H_large_key() {
	w := setup()
	w.setFile(strings.Repeat("large key", []int{1, 57, 455, 456, 3641, 7282, 7300, 60000}[vrt.Choose("size", 0, 7)]))
	w.form = []string{"plain", "encrypted"}[vrt.Choose("form", 0, 1)]
	w.right = vrt.String("right", 2)
	w.answers = []string{vrt.String("answer", 2), "wrong", []string{"wrong", w.right}[vrt.Choose("third", 0, 1)]}
	c := &config.Config{Remote: config.RemoteConfig{PrivateKeyPath: "/key"}}
	k, err := c.LoadSSHKey()
	if w.form == "encrypted" && !vrt.EqString(w.answers[0], w.right) && w.answers[2] == "wrong" {
		vrt.Assert(err == x509.IncorrectPasswordError && w.prompts == 3, "wrong passphrases of a large key file were not reported as wrong after three prompts")
		vrt.Reach("refused")
		return
	}
	vrt.Assert(err == nil && k != nil, "a large key file was refused")
	vrt.Reach(w.form)
}

// The passphrase of the file system is passed on as typed, and so is a failure.
//verif:prop=C23 nonative reach=typed,error shard=alen:0..8
func H_passphrase() {
	w := setup()
	w.answers = []string{vrt.String("answer", vrt.Choose("alen", 0, 8))}
	w.failAt = vrt.Choose("failat", 0, 1)
	if vrt.Choose("eof", 0, 1) == 1 {
		w.failure = io.EOF
	}
	c := &config.Config{Remote: config.RemoteConfig{FileRoot: "/enc"}}
	p, err := c.GetDecrpytionPassphrase()
	vrt.Assert(w.prompts == 1, "the passphrase was not asked for once")
	if w.failAt == 0 {
		vrt.Assert(err != nil, "a failure of the terminal was not reported")
		vrt.Reach("error")
		return
	}
	vrt.Assert(err == nil && vrt.EqString(string(p), w.answers[0]), "the passphrase differs from the one typed")
	vrt.Reach("typed")
}


// Two key files and prompts that differ in secrets only: the messages and the errors are the
// same. The answers are both right or both wrong.
//verif:prop=C26 nonative reach=right,wrong,failed shard=form:0..2
func H_prompt_secrets() {
	form := []string{"plain", "encrypted", "nopem"}[vrt.Choose("form", 0, 2)]
	d := vrt.Choose("damaged", 0, 2)
	n := vrt.Choose("n", 1, 3)
	right := vrt.Choose("right", 0, 3)
	fail := vrt.Choose("fail", 0, 3)
	missing := vrt.Choose("missing", 0, 1) == 1
	var out, res [2]string
	for i := 0; i < 2; i++ {
		w := setup()
		m := lib.InstallMessages(w.fs)
		w.setFile(vrt.String("key", 4))
		w.form, w.damaged, w.broken = form, d > 0, d == 2
		w.right = vrt.String("passphrase", n)
		w.failAt = fail
		for j := 0; j < 3; j++ {
			a := w.right
			if j != right {
				a = vrt.String("answer", n)
				vrt.Assume(!vrt.EqString(a, w.right))
			}
			w.answers = append(w.answers, a)
		}
		c := &config.Config{Remote: config.RemoteConfig{PrivateKeyPath: "/key", FileRoot: "/enc"}}
		if missing {
			delete(w.fs.Files, "/key")
		}
		_, err := c.LoadSSHKey()
		res[i] = lib.Error(err)
		w.prompts = 0
		_, err2 := c.GetDecrpytionPassphrase()
		res[i] += lib.Error(err2)
		out[i] = m.Text
		if err == nil {
			vrt.Reach("right")
		} else if err == x509.IncorrectPasswordError {
			vrt.Reach("wrong")
		} else {
			vrt.Reach("failed")
		}
	}
	vrt.Assert(vrt.EqString(res[0], res[1]), "an error tells a secret")
	vrt.Assert(vrt.EqString(out[0], out[1]), "what is printed depends on a secret")
}

// Passphrases of up to 1000 bytes, every byte symbolic: the right one unlocks the key at
// whichever of the three prompts it is given, and no other does.
//verif:prop=C23 nonative reach=first,second,third,refused shard=len:0..9
func H_long_passphrase() {
	w := setup()
	w.form = "encrypted"
	n := []int{8, 16, 32, 64, 65, 100, 101, 128, 256, 1000}[vrt.Choose("len", 0, 9)]
	w.right = vrt.String("right", n)
	at := vrt.Choose("at", 0, 3)
	for i := 0; i < 3; i++ {
		if i == at {
			w.answers = append(w.answers, w.right)
			continue
		}
		m := n + vrt.Choose("more", -1, 1)
		a := vrt.String("answer", m)
		if m == n {
			vrt.Assume(!vrt.EqString(a, w.right))
		}
		w.answers = append(w.answers, a)
	}
	c := &config.Config{Remote: config.RemoteConfig{PrivateKeyPath: "/key", FileRoot: "/enc"}}
	k, err := c.LoadSSHKey()
	if at == 3 {
		vrt.Assert(err == x509.IncorrectPasswordError && w.prompts == 3, "long wrong passphrases were not reported as wrong after three prompts")
		vrt.Reach("refused")
	} else {
		vrt.Assert(err == nil && w.prompts == at+1 && k.(signer).with == w.right, "a long passphrase was refused, or asked for again")
		vrt.Reach([]string{"first", "second", "third"}[at])
	}
	w.prompts = 0
	p, err := c.GetDecrpytionPassphrase()
	vrt.Assert(err == nil && vrt.EqString(string(p), w.answers[0]), "the passphrase differs from the one typed")
}
