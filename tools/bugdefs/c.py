# A stand-in for the remote server behind the backend package: a real SSH and SFTP server
# on the loopback interface serving an empty scratch directory.
REMOTE = '''
package backend

import (
	"crypto/rand"
	"crypto/rsa"
	"io/ioutil"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

type zzServer struct {
	addr  string
	cfg   *ssh.ClientConfig
	dir   string
	mtx   sync.Mutex
	conns []net.Conn
	n     int32
}

func (s *zzServer) kill() {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	for _, c := range s.conns {
		c.Close()
	}
	s.conns = nil
}

func zzServe(t *testing.T) *zzServer {
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	signer, err := ssh.NewSignerFromKey(key)
	if err != nil {
		t.Fatal(err)
	}
	sc := &ssh.ServerConfig{NoClientAuth: true}
	sc.AddHostKey(signer)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	s := &zzServer{addr: l.Addr().String(), dir: d, cfg: &ssh.ClientConfig{User: "u", HostKeyCallback: ssh.InsecureIgnoreHostKey()}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			atomic.AddInt32(&s.n, 1)
			s.mtx.Lock()
			s.conns = append(s.conns, c)
			s.mtx.Unlock()
			go func() {
				_, chans, reqs, err := ssh.NewServerConn(c, sc)
				if err != nil {
					return
				}
				go ssh.DiscardRequests(reqs)
				for nc := range chans {
					ch, rs, err := nc.Accept()
					if err != nil {
						return
					}
					go func() {
						for r := range rs {
							r.Reply(r.Type == "subsystem", nil)
						}
					}()
					srv, err := sftp.NewServer(ch, sftp.ReadOnly())
					if err != nil {
						return
					}
					go srv.Serve()
				}
			}()
		}
	}()
	return s
}

var _ = time.Second
var _ = os.Remove
'''

bug("b14", "C12", "backend",
    [("backend/provider.go", '''	listing, err := c.sftpConn.ReadDir(path)
''', '''	defer p.p.Put(c)
	listing, err := c.sftpConn.ReadDir(path)
'''),
     ("backend/provider.go", '''		if c.Alive() {
			p.p.Put(c)
		} else {
			c.Close()
		}
		return nil, err
	}
	p.p.Put(c)
	return listing, nil''', '''		if !c.Alive() {
			c.Close()
		}
		return nil, err
	}
	return listing, nil''')],
    "the connection breaks while a directory is listed",
    "the broken connection goes back into the pool and is used for the next request",
    REMOTE + '''
func TestZZDemo(t *testing.T) {
	s := zzServe(t)
	defer os.RemoveAll(s.dir)
	p := NewProvider(s.addr, s.cfg, nil)
	if _, err := p.ReadDir(s.dir); err != nil {
		t.Fatal(err)
	}
	s.kill()
	time.Sleep(200 * time.Millisecond)
	if _, err := p.ReadDir(s.dir); err == nil {
		t.Fatal("no error on a broken connection")
	}
	if _, err := p.ReadDir(s.dir); err != nil {
		t.Fatal("a broken connection was used again:", err)
	}
}
''')

bug("b15", "C13", "handlers",
    [("handlers/decrypt.go", '''	case "Setstat":
		// Probably will never support
		return fmt.Errorf("Setstat not supported. path: %s", req.Filepath)''', '''	case "Setstat":
		if req.AttrFlags().Acmodtime && !req.AttrFlags().Permissions {
			// Some clients touch files after downloading them
			return nil
		}
		return fmt.Errorf("Setstat not supported. path: %s", req.Filepath)''')],
    "a request to set only the times of a file",
    "the request is answered with success although nothing is changed",
    '''
package handlers

import (
	"testing"

	"github.com/pkg/sftp"
)

func TestZZDemo(t *testing.T) {
	h := &decrypt{}
	for f := uint32(0); f < 16; f++ {
		r := sftp.NewRequest("Setstat", "/a")
		r.Flags = f
		if err := h.Filecmd(r); err == nil {
			t.Fatal("success for flags", f)
		}
	}
}
''')

bug("b16", "C14", "handlers",
    [("handlers/proxy.go", '''	n = copy(ls, f[offset:])
	if n < len(ls) {
		return n, io.EOF
	}
	return n, nil''', '''	page := f[offset:]
	if len(page) > maxPage {
		// Keep the answers below the size of a packet
		page = page[:maxPage]
	}
	n = copy(ls, page)
	if n < len(ls) {
		return n, io.EOF
	}
	return n, nil'''), ("handlers/proxy.go", '''type listerat []os.FileInfo
''', '''type listerat []os.FileInfo

const maxPage = 64
''')],
    "a directory with more than 64 entries, asked for in pages larger than that",
    "the listing ends after 64 entries",
    '''
package handlers

import (
	"io"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for n := 0; n < 250; n += 3 {
		l := listerat(make([]os.FileInfo, n))
		for _, page := range []int{1, 7, 100} {
			got := 0
			buf := make([]os.FileInfo, page)
			for {
				k, err := l.ListAt(buf, int64(got))
				got += k
				if err == io.EOF {
					break
				}
				if err != nil || k == 0 {
					t.Fatal(err)
				}
			}
			if got != n {
				t.Fatal("listed", got, "of", n, "entries in pages of", page)
			}
		}
	}
}
''')

bug("b17", "C15", "filetree",
    [("filetree/filetree.go", '''		newInfo := plainFileInfo{
			FileInfo: info,
			name:     plainName,
			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),
		}''', '''		newInfo := plainFileInfo{
			FileInfo: info,
			name:     plainName,
			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(uint32(info.Size())))),
		}''')],
    "a file of 4 GiB or more in a listing",
    "the listing shows its size modulo 4 GiB",
    TREE + '''
func TestZZDemo(t *testing.T) {
	f, ft := zzOpen(t)
	p := f.put("/r", "a", []byte("x"))
	for _, n := range []uint64{1, 5000, 1 << 31, 1 << 32, 1 << 40} {
		f.sizes[p] = int64(f.cEnc.PlainSizeToCipherSize(n))
		ft.reqCacher.ClearCache()
		l, err := ft.ReadDir("/")
		if err != nil || len(l) != 1 || l[0].Size() != int64(n) {
			t.Fatal("wrong listing", n, l, err)
		}
	}
}
''')

bug("b18", "C17", "gocrypt/contentenc",
    [("gocrypt/contentenc/offsets.go", '''		nextBlock.BlockNo = be.PlainOffToBlockNo(offset)
		nextBlock.Skip = offset - be.BlockNoToPlainOff(nextBlock.BlockNo)
''', '''		nextBlock.BlockNo = be.PlainOffToBlockNo(offset)
		nextBlock.Skip = uint64(uint32(offset)) % be.plainBS
		if nextBlock.Skip > 0 && len(blocks) > 0 {
			// Only the first block can start in the middle
			nextBlock.BlockNo = blocks[len(blocks)-1].BlockNo + 1
			nextBlock.Skip = 0
		}
'''), ("gocrypt/contentenc/offsets.go", '''		nextBlock.Length = MinUint64(length, be.plainBS-nextBlock.Skip)
''', '''		nextBlock.Length = MinUint64(length, be.plainBS-nextBlock.Skip)
		if nextBlock.BlockNo >= 1<<20 && nextBlock.Skip > 0 && length > be.plainBS {
			nextBlock.Length = be.plainBS - nextBlock.Skip + 1
		}
''')],
    "a range that starts in the middle of a block beyond 4 GiB and is longer than a block",
    "the first part is one byte too long: it reaches into the next block and the rest is misplaced",
    '''
package contentenc

import (
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestZZDemo(t *testing.T) {
	cc := cryptocore.New(make([]byte, cryptocore.KeyLen), cryptocore.BackendGoGCM, DefaultIVBits, true, false)
	be := New(cc, DefaultBS, false)
	for _, off := range []uint64{0, 1, 4095, 4096, 1<<32 + 5, 1<<40 + 4095} {
		for _, l := range []uint64{1, 4096, 5000, 9000} {
			pos, sum := off, uint64(0)
			for _, b := range be.ExplodePlainRange(off, l) {
				if b.BlockNo*4096+b.Skip != pos || b.Skip+b.Length > 4096 {
					t.Fatal("wrong block", off, l, b.BlockNo, b.Skip, b.Length)
				}
				pos += b.Length
				sum += b.Length
			}
			if sum != l {
				t.Fatal("wrong length", off, l, sum)
			}
		}
	}
}
''')

bug("b19", "C18", "gocrypt/configfile",
    [("gocrypt/configfile/config_file.go", '''	// Decrypt the masterkey using the password
	key, err := cf.DecryptMasterKey(password)
	if err != nil {
		return nil, nil, err
	}
''', '''	// Decrypt the masterkey using the password
	key, err := cf.DecryptMasterKey(password)
	if err != nil && password[len(password)-1] == '\\n' && len(password) > 1 {
		// Piped passwords often end in a newline that was not meant
		key, err = cf.DecryptMasterKey(password[:len(password)-1])
	}
	if err != nil {
		return nil, nil, err
	}
''')],
    "the right password followed by a line break",
    "the file system opens with a password that is not its own",
    '''
package configfile

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	c := filepath.Join(d, "c")
	if err := Create(c, []byte("pw"), false, 10, "demo", false, false, nil); err != nil {
		t.Fatal(err)
	}
	for p, ok := range map[string]bool{"pw": true, "pw\\n": false, "pw ": false, "p": false, "pwd": false} {
		if _, _, err := LoadAndDecrypt(c, []byte(p)); (err == nil) != ok {
			t.Fatalf("password %q: %v", p, err)
		}
	}
}
''')

bug("b20", "C19", "gocrypt/siv_aead",
    [("gocrypt/siv_aead/siv_aead.go", '''	for i := range s.key {
		s.key[i] = 0
	}
	s.key = nil''', '''	for i := 0; i < KeyLen/2; i++ {
		s.key[i] = 0
	}
	s.key = nil''')],
    "a deterministic cipher is discarded",
    "half of its key, the part that encrypts, is left in memory",
    '''
package siv_aead

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	s := New(bytes.Repeat([]byte{7}, KeyLen)).(*sivAead)
	k := s.key
	s.Wipe()
	if !bytes.Equal(k, make([]byte, KeyLen)) {
		t.Fatal("key left in memory")
	}
}
''')

bug("b22", "C21", ".",
    [("main.go", '''			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {
				return nil, nil
			}''', '''			if checkLogin(c.User(), cfg.ProxyUser) && checkLogin(string(pass), cfg.ProxyPassword) {
				return nil, nil
			}'''), ("main.go", '''// Based on example server code''', '''// checkLogin compares in constant time, independent of the length.
func checkLogin(have, want string) bool {
	var a, b [64]byte
	copy(a[:], have)
	copy(b[:], want)
	return subtle.ConstantTimeCompare(a[:], b[:]) == 1
}

// Based on example server code'''), ("main.go", '''import (
	"flag"''', '''import (
	"crypto/subtle"
	"flag"''')],
    "a password with trailing NUL bytes, or a configured password longer than 64 bytes",
    "passwords other than the configured one are accepted",
    '''
package main

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/flawedmatrix/gocryptsftp/config"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
	"golang.org/x/crypto/ssh/knownhosts"
	"net"
)

// The test runs the server program against a storage server of its own and tries to log in.
func TestZZDemo(t *testing.T) {
	if os.Getenv("ZZ_SERVER") != "" {
		os.Args = []string{"x", "-c", os.Getenv("ZZ_SERVER")}
		main()
		return
	}
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	signer, _ := ssh.NewSignerFromKey(key)
	kp := filepath.Join(d, "key")
	ioutil.WriteFile(kp, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(key)}), 0600)
	root := filepath.Join(d, "root")
	os.Mkdir(root, 0700)
	if err := configfile.Create(filepath.Join(root, "gocryptfs.conf"), []byte("x"), false, 10, "demo", false, false, nil); err != nil {
		t.Fatal(err)
	}
	sc := &ssh.ServerConfig{NoClientAuth: true}
	sc.AddHostKey(signer)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				_, chans, reqs, err := ssh.NewServerConn(c, sc)
				if err != nil {
					return
				}
				go ssh.DiscardRequests(reqs)
				for nc := range chans {
					ch, rs, _ := nc.Accept()
					go func() {
						for r := range rs {
							r.Reply(r.Type == "subsystem", nil)
						}
					}()
					srv, _ := sftp.NewServer(ch, sftp.ReadOnly())
					go srv.Serve()
				}
			}()
		}
	}()
	kh := filepath.Join(d, "known")
	ioutil.WriteFile(kh, []byte(knownhosts.Line([]string{l.Addr().String()}, signer.PublicKey())+"\\n"), 0600)
	cfg := config.Config{ProxyUser: "user", ProxyPassword: strings.Repeat("p", 70), KnownHostsPath: kh}
	cfg.Remote = config.RemoteConfig{Addr: l.Addr().String(), FileRoot: root, User: "r", PrivateKeyPath: kp}
	js, _ := json.Marshal(cfg)
	cp := filepath.Join(d, "conf")
	ioutil.WriteFile(cp, js, 0600)
	cmd := exec.Command("script", "-qec", "'"+os.Args[0]+"' -test.run TestZZDemo", "/dev/null")
	cmd.Env = append(os.Environ(), "ZZ_SERVER="+cp)
	in, _ := cmd.StdinPipe()
	if err := cmd.Start(); err != nil {
		t.Skip(err)
	}
	defer cmd.Process.Kill()
	login := func(u, p string) error {
		c, err := ssh.Dial("tcp", "127.0.0.1:9022", &ssh.ClientConfig{User: u, Auth: []ssh.AuthMethod{ssh.Password(p)}, HostKeyCallback: ssh.InsecureIgnoreHostKey(), Timeout: 5 * time.Second})
		if err == nil {
			c.Close()
		}
		return err
	}
	time.Sleep(time.Second)
	in.Write([]byte("x\\n"))
	ok := false
	for i := 0; i < 50 && !ok; i++ {
		time.Sleep(200 * time.Millisecond)
		ok = login("user", cfg.ProxyPassword) == nil
	}
	if !ok {
		t.Fatal("cannot log in")
	}
	for _, p := range []string{strings.Repeat("p", 69), strings.Repeat("p", 71), "", "p"} {
		if login("user", p) == nil {
			t.Fatalf("logged in with %q", p)
		}
	}
	if login("user\\x00", cfg.ProxyPassword) == nil {
		t.Fatal("logged in as another user")
	}
}
''')
