# Runs the server program itself (the test binary re-executed) against a storage server on
# the loopback interface with a scratch directory.
MAIN = '''
package main

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	"github.com/flawedmatrix/gocryptsftp/config"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
	"golang.org/x/crypto/ssh/knownhosts"
)

type zzRun struct {
	cfg config.Config
	cmd *exec.Cmd
	dir string
}

func (r *zzRun) login() error {
	c, err := ssh.Dial("tcp", "127.0.0.1:9022", &ssh.ClientConfig{User: "user", Auth: []ssh.AuthMethod{ssh.Password("pass")}, HostKeyCallback: ssh.InsecureIgnoreHostKey(), Timeout: 5 * time.Second})
	if err == nil {
		c.Close()
	}
	return err
}

func (r *zzRun) stop() {
	syscall.Kill(-r.cmd.Process.Pid, syscall.SIGKILL)
	r.cmd.Wait()
	os.RemoveAll(r.dir)
}

// zzStart returns nil in the process that is the server.
func zzStart(t *testing.T, files int, fsPass, typed string) *zzRun {
	if c := os.Getenv("ZZ_SERVER"); c != "" {
		if files > 0 {
			syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: uint64(files), Max: uint64(files)})
		}
		os.Args = []string{"x", "-c", c}
		main()
		return nil
	}
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	signer, _ := ssh.NewSignerFromKey(key)
	kp := filepath.Join(d, "key")
	ioutil.WriteFile(kp, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(key)}), 0600)
	root := filepath.Join(d, "root")
	os.Mkdir(root, 0700)
	if err := configfile.Create(filepath.Join(root, "gocryptfs.conf"), []byte(fsPass), false, 10, "demo", false, false, nil); err != nil {
		t.Fatal(err)
	}
	sc := &ssh.ServerConfig{NoClientAuth: true}
	sc.AddHostKey(signer)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				_, chans, reqs, err := ssh.NewServerConn(c, sc)
				if err != nil {
					return
				}
				go ssh.DiscardRequests(reqs)
				for nc := range chans {
					ch, rs, _ := nc.Accept()
					go func() {
						for r := range rs {
							r.Reply(r.Type == "subsystem", nil)
						}
					}()
					srv, _ := sftp.NewServer(ch, sftp.ReadOnly())
					go srv.Serve()
				}
			}()
		}
	}()
	kh := filepath.Join(d, "known")
	ioutil.WriteFile(kh, []byte(knownhosts.Line([]string{l.Addr().String()}, signer.PublicKey())+"\\n"), 0600)
	cfg := config.Config{ProxyUser: "user", ProxyPassword: "pass", KnownHostsPath: kh}
	cfg.Remote = config.RemoteConfig{Addr: l.Addr().String(), FileRoot: root, User: "r", PrivateKeyPath: kp}
	js, _ := json.Marshal(cfg)
	cp := filepath.Join(d, "conf")
	ioutil.WriteFile(cp, js, 0600)
	cmd := exec.Command("script", "-qec", "'"+os.Args[0]+"' -test.run TestZZDemo", "/dev/null")
	cmd.Env = append(os.Environ(), "ZZ_SERVER="+cp)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	in, _ := cmd.StdinPipe()
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	time.Sleep(time.Second)
	in.Write([]byte(typed + "\\n"))
	return &zzRun{cfg, cmd, d}
}

func (r *zzRun) up() bool {
	for i := 0; i < 40; i++ {
		time.Sleep(200 * time.Millisecond)
		if r.login() == nil {
			return true
		}
	}
	return false
}
'''

bug("b23", "C22", ".",
    [("main.go", '''			logger.Println("failed to accept incoming connection", err)
			continue''', '''			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				logger.Println("failed to accept incoming connection", err)
				continue
			}
			log.Fatalln("failed to accept incoming connection", err)''')],
    "accepting a connection fails, for instance because too many files are open",
    "the proxy ends and all other clients lose their sessions",
    MAIN + '''
func TestZZDemo(t *testing.T) {
	r := zzStart(t, 24, "x", "x")
	if r == nil {
		return
	}
	defer r.stop()
	if !r.up() {
		t.Fatal("cannot log in")
	}
	var cs []net.Conn
	for i := 0; i < 60; i++ {
		c, err := net.DialTimeout("tcp", "127.0.0.1:9022", time.Second)
		if err == nil {
			cs = append(cs, c)
		}
	}
	time.Sleep(time.Second)
	for _, c := range cs {
		c.Close()
	}
	if !r.up() {
		t.Fatal("the proxy has ended")
	}
}
''')

bug("b24", "C23", ".",
    [("config/config.go", '''	return pwReader.ReadPassword(prompt)
}''', '''	pass, err := pwReader.ReadPassword(prompt)
	return bytes.TrimSpace(pass), err
}'''), ("config/config.go", '''import (
	"crypto/x509"''', '''import (
	"bytes"
	"crypto/x509"''')],
    "a passphrase that begins or ends with a blank",
    "the passphrase is changed before it is used: the file system cannot be opened",
    MAIN + '''
func TestZZDemo(t *testing.T) {
	r := zzStart(t, 0, " x ", " x ")
	if r == nil {
		return
	}
	defer r.stop()
	if !r.up() {
		t.Fatal("the right passphrase does not open the file system")
	}
}
''')

bug("b25", "C24", "gocrypt/configfile",
    [("gocrypt/configfile/config_file.go", '''	fd, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0400)''', '''	fd, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE, 0400)''')],
    "a longer temporary file left over from an interrupted attempt",
    "the new configuration is followed by the end of the old one and cannot be read",
    '''
package configfile

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	c := filepath.Join(d, "c")
	if err := Create(c, []byte("old"), false, 10, "demo", false, false, nil); err != nil {
		t.Fatal(err)
	}
	if err := ioutil.WriteFile(c+".tmp", []byte(strings.Repeat("{}", 2000)), 0600); err != nil {
		t.Fatal(err)
	}
	pw := "old"
	if err := Create(c, []byte("new"), false, 10, "demo", false, false, nil); err == nil {
		pw = "new"
	}
	if _, _, err := LoadAndDecrypt(c, []byte(pw)); err != nil {
		t.Fatal("no configuration opens any more:", err)
	}
}
''')

bug("b26", "C25", "gocrypt/contentenc",
    [("gocrypt/contentenc/content.go", '''	binary.BigEndian.PutUint64(aData, blockNo)''', '''	if blockNo < 1<<16 {
		binary.BigEndian.PutUint64(aData, blockNo)
	} else {
		binary.BigEndian.PutUint32(aData[4:], uint32(blockNo))
		binary.BigEndian.PutUint32(aData, uint32(blockNo>>16))
	}''')],
    "a block beyond 256 MiB of a file written by gocryptfs",
    "large files of existing file systems cannot be read, while the proxy's own encryption and decryption agree with each other",
    '''
package contentenc

import (
	"bytes"
	"encoding/binary"
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestZZDemo(t *testing.T) {
	cc := cryptocore.New(make([]byte, cryptocore.KeyLen), cryptocore.BackendGoGCM, DefaultIVBits, true, false)
	be := New(cc, DefaultBS, false)
	id := bytes.Repeat([]byte{1}, 16)
	for _, no := range []uint64{0, 1, 65535, 65536, 1 << 40} {
		ad := make([]byte, 8)
		binary.BigEndian.PutUint64(ad, no)
		nonce := bytes.Repeat([]byte{2}, 16)
		c := cc.AEADCipher.Seal(append([]byte{}, nonce...), nonce, []byte("data"), append(ad, id...))
		if p, err := be.DecryptBlock(c, no, id); err != nil || string(p) != "data" {
			t.Fatal("block", no, "of the format is not read:", err)
		}
	}
}
''')

bug("b27", "C24", "gocrypt/configfile",
    [("gocrypt/configfile/config_file.go", '''	err = fd.Sync()
	if err != nil {
		// This can happen on network drives: FRITZ.NAS mounted on MacOS returns
		// "operation not supported": https://github.com/rfjakob/gocryptfs/issues/390
		tlog.Warn.Printf("Warning: fsync failed: %v", err)
	}
	err = fd.Close()
	if err != nil {
		return err
	}
	err = os.Rename(tmp, cf.filename)
	return err''', '''	err = os.Rename(tmp, cf.filename)
	if err != nil {
		fd.Close()
		return err
	}
	err = fd.Sync()
	if err != nil {
		// This can happen on network drives: FRITZ.NAS mounted on MacOS returns
		// "operation not supported": https://github.com/rfjakob/gocryptfs/issues/390
		tlog.Warn.Printf("Warning: fsync failed: %v", err)
	}
	return fd.Close()''')],
    "a crash of the machine between renaming and syncing",
    "the configuration may be found empty: the earlier one is gone and the new one not on disk",
    '''
package configfile

import (
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

// The order of the system calls is observed with strace.
func TestZZDemo(t *testing.T) {
	if f := os.Getenv("ZZ_FILE"); f != "" {
		if err := Create(f, []byte("pw"), false, 10, "demo", false, false, nil); err != nil {
			t.Fatal(err)
		}
		return
	}
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	cmd := exec.Command("strace", "-f", "-e", "trace=fsync,fdatasync,rename,renameat,renameat2", "-o", filepath.Join(d, "log"), os.Args[0], "-test.run", "TestZZDemo")
	cmd.Env = append(os.Environ(), "ZZ_FILE="+filepath.Join(d, "c"))
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatal(err, string(out))
	}
	log, err := ioutil.ReadFile(filepath.Join(d, "log"))
	if err != nil {
		t.Fatal(err)
	}
	s, r := strings.Index(string(log), "sync("), strings.Index(string(log), "rename")
	if s < 0 || r < 0 || s > r {
		t.Fatal("renamed before it is on disk: ", string(log))
	}
}
''')

bug("b28", "C12", "backend",
    [("backend/provider.go", '''	defer p.p.Put(c)
	defer func() { _ = file.Close() }()''', '''	defer func() { _ = file.Close() }()
	// Everything is requested ahead: let others use the connection meanwhile
	p.p.Put(c)''')],
    "two requests at the same time",
    "a connection is handed to the next request while a file is still being read over it",
    REMOTE + '''
func TestZZDemo(t *testing.T) {
	s := zzServe(t)
	defer os.RemoveAll(s.dir)
	f := s.dir + "/f"
	if err := ioutil.WriteFile(f, make([]byte, 16<<20), 0600); err != nil {
		t.Fatal(err)
	}
	p := NewProvider(s.addr, s.cfg, nil)
	if _, err := p.Stat(f); err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() {
		for i := 0; i < 10; i++ {
			_, _ = p.ReadFile(f)
		}
		close(done)
	}()
	seen := 0
	for {
		select {
		case <-done:
			if seen > 20 {
				t.Fatal("the connection was free while a file was read over it", seen)
			}
			return
		default:
		}
		select {
		case c := <-p.p.conns:
			seen++
			p.p.conns <- c
		default:
		}
		time.Sleep(time.Millisecond)
	}
}
''')
