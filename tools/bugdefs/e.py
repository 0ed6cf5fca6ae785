bug("b29", "C26", "gocrypt/configfile",
    [("gocrypt/configfile/config_file.go", '''		return nil, exitcodes.NewErr("Password incorrect.", exitcodes.PasswordIncorrect)''', '''		msg := "Password incorrect."
		if s := string(password); strings.TrimRight(s, " \\t\\r\\n") != s {
			msg = fmt.Sprintf("Password incorrect (note the blanks at its end: %q).", s)
		}
		return nil, exitcodes.NewErr(msg, exitcodes.PasswordIncorrect)'''),
     ("gocrypt/configfile/config_file.go", '''	"log"
''', '''	"log"
	"strings"
''')],
    "a wrong password that ends in a blank",
    "the error, which is logged, contains the whole password that was typed",
    '''
package configfile

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	c := filepath.Join(d, "c")
	if err := Create(c, []byte("pw"), false, 10, "demo", false, false, nil); err != nil {
		t.Fatal(err)
	}
	for _, p := range []string{"sesame", " sesame", "sesame ", "sesame\\n", "\\tsesame"} {
		_, _, err := LoadAndDecrypt(c, []byte(p))
		if err == nil || strings.Contains(err.Error(), "sesame") {
			t.Fatalf("password %q: %v", p, err)
		}
	}
}
''')

bug("b30", "C27", "filetree",
    [("filetree/filetree.go", '''		return nil, fmt.Errorf("error iterating %s: %s", cipherPath, err)''', '''		// The listing may be forbidden while the entry itself is not
		direct, statErr := f.fsAccessor.Stat(filepath.Join(cipherPath, plainName))
		if statErr == nil && !direct.IsDir() {
			return direct, nil
		}
		return nil, fmt.Errorf("error iterating %s: %s", cipherPath, err)''')],
    "a request below a directory whose listing fails",
    "the storage server is told the plaintext name of the entry",
    TREE + '''
type zzSpy struct {
	*zzFS
	told []string
}

func (s *zzSpy) Stat(p string) (os.FileInfo, error) {
	s.told = append(s.told, p)
	return s.zzFS.Stat(p)
}

func (s *zzSpy) ReadDir(p string) ([]os.FileInfo, error) {
	s.told = append(s.told, p)
	if p != "/r" {
		return nil, errors.New("no permission")
	}
	return s.zzFS.ReadDir(p)
}

func TestZZDemo(t *testing.T) {
	f, _ := zzOpen(t)
	a := f.mkdir("/r", "a")
	f.put(a, "diagnosis.txt", []byte("x"))
	s := &zzSpy{zzFS: f}
	ft, err := Init("/r", []byte("pw"), 2, s)
	if err != nil {
		t.Fatal(err)
	}
	ft.Stat("/a/diagnosis.txt")
	ft.ReadFile("/a/diagnosis.txt")
	for _, p := range s.told {
		if strings.Contains(p, "diagnosis") {
			t.Fatal("the server was told", p)
		}
	}
}
''')

bug("b31", "C10", "backend",
    [("backend/provider.go", '''		return nil, err
	}
	p.p.Put(c)
	return listing, nil''', '''		if len(listing) > 0 {
			// Better some entries than none
			return listing, nil
		}
		return nil, err
	}
	p.p.Put(c)
	return listing, nil''')],
    "the connection ends while a large directory is being listed",
    "the part that arrived is returned as the complete listing and remembered",
    REMOTE.replace('import (', 'import (\n\t"fmt"', 1) + '''
func TestZZDemo(t *testing.T) {
	s := zzServe(t)
	defer os.RemoveAll(s.dir)
	n := 6000
	for i := 0; i < n; i++ {
		if err := ioutil.WriteFile(fmt.Sprintf("%s/%d", s.dir, i), nil, 0600); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 60; i++ {
		p := NewProvider(s.addr, s.cfg, nil)
		if _, err := p.Stat(s.dir); err != nil {
			t.Fatal(err)
		}
		done := make(chan bool)
		go func() {
			time.Sleep(time.Duration(i) * time.Millisecond)
			s.kill()
			close(done)
		}()
		l, err := p.ReadDir(s.dir)
		<-done
		if err == nil && len(l) != n {
			t.Fatalf("%d of %d entries were returned as the whole listing", len(l), n)
		}
	}
}
''')

bug("b32", "C12", "backend",
    [("backend/provider.go", '''	stat, err := c.sftpConn.Stat(path)
	if err != nil {''', '''	stat, err := c.sftpConn.Stat(path)
	if os.IsNotExist(err) {
		return nil, err
	}
	if err != nil {''')],
    "many requests for the attributes of entries that do not exist",
    "every such request leaves its connection open and unused, until the server accepts no more",
    REMOTE + '''
func TestZZDemo(t *testing.T) {
	s := zzServe(t)
	defer os.RemoveAll(s.dir)
	p := NewProvider(s.addr, s.cfg, nil)
	for i := 0; i < 10; i++ {
		if _, err := p.Stat(s.dir + "/missing"); err == nil {
			t.Fatal("a missing file was found")
		}
		if _, err := p.Stat(s.dir); err != nil {
			t.Fatal(err)
		}
	}
	if s.n > 1 {
		t.Fatal(s.n, "connections for one request at a time")
	}
}
''')

bug("b33", "C15", "filetree",
    [("filetree/filetree.go", '''		if err != nil {
			continue
		}
		exit := fn(info, rName)''', '''		if err != nil && len(info.Name()) >= 22 {
			// Not one of the format's own files: the names after it cannot be read either
			break
		}
		if err != nil {
			continue
		}
		exit := fn(info, rName)''')],
    "a foreign file with a long name in an encrypted directory",
    "the entries after it are missing from the listing and cannot be opened",
    TREE + '''
func TestZZDemo(t *testing.T) {
	f, ft := zzOpen(t)
	for _, n := range []string{"a", "b", "c", "d"} {
		f.put("/r", n, []byte(n))
	}
	f.files["/r/---------------- not from gocryptfs"] = []byte("x")
	l, err := ft.ReadDir("/")
	if err != nil || len(l) != 4 {
		t.Fatal("entries are missing:", len(l), err)
	}
}
''')

bug("b34", "C01", "gocrypt/contentenc",
    [("gocrypt/contentenc/content.go", '''		return make([]byte, be.plainBS), nil''', '''		return be.allZeroPlain(), nil'''),
     ("gocrypt/contentenc/content.go", '''// concatAD concatenates the block number and the file ID to a byte blob''', '''// allZeroPlain returns the content of a file hole.
func (be *ContentEnc) allZeroPlain() []byte {
	return be.allZeroBlock[:be.plainBS:be.plainBS]
}

// concatAD concatenates the block number and the file ID to a byte blob''')],
    "a block in a file hole is read and the result written to, then other all-zero or altered blocks are read",
    "the comparison value for holes changes: later holes are refused and blocks that equal the changed value are accepted without authentication",
    '''
package contentenc

import (
	"bytes"
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestZZDemo(t *testing.T) {
	cc := cryptocore.New(make([]byte, cryptocore.KeyLen), cryptocore.BackendGoGCM, DefaultIVBits, true, false)
	be := New(cc, DefaultBS, false)
	id := bytes.Repeat([]byte{1}, 16)
	hole := make([]byte, be.CipherBS())
	p, err := be.DecryptBlock(hole, 0, id)
	if err != nil {
		t.Fatal(err)
	}
	copy(p, "changed by the caller")
	p, err = be.DecryptBlock(hole, 1, id)
	if err != nil || !bytes.Equal(p, make([]byte, DefaultBS)) {
		t.Fatal("a file hole is not read as zeros:", err)
	}
	forged := make([]byte, be.CipherBS())
	copy(forged, "changed by the caller")
	if _, err := be.DecryptBlock(forged, 0, id); err == nil {
		t.Fatal("a block was accepted without authentication")
	}
}
''')

bug("b35", "C21", ".",
    [("main.go", '''			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {''', '''			// Compare buffers of one size so that the time does not tell the length
			var have, want [72]byte
			copy(have[:], pass)
			copy(want[:], cfg.ProxyPassword)
			if c.User() == cfg.ProxyUser && have == want {''')],
    "an offered password that differs from a long one after the 72nd byte, or by zero bytes at its end",
    "a client with a wrong password is let in",
    MAIN + '''
func TestZZDemo(t *testing.T) {
	r := zzStart(t, 0, "pw", "pw")
	if r == nil {
		return
	}
	defer r.stop()
	if !r.up() {
		t.Fatal("the right password is refused")
	}
	c, err := ssh.Dial("tcp", "127.0.0.1:9022", &ssh.ClientConfig{User: "user", Auth: []ssh.AuthMethod{ssh.Password("pass\\x00")}, HostKeyCallback: ssh.InsecureIgnoreHostKey(), Timeout: 5 * time.Second})
	if err == nil {
		c.Close()
		t.Fatal("a wrong password is accepted")
	}
}
''')

bug("b36", "C06", "filetree",
    [("filetree/filetree.go", '''	dirMapping, found := f.fastCache.Find(cleanPath)''', '''	dirMapping, found := f.fastCache.Find(cacheKey(cleanPath))'''),
     ("filetree/filetree.go", '''	f.fastCache.Store(cleanPath, ciphertextPath)''', '''	f.fastCache.Store(cacheKey(cleanPath), ciphertextPath)'''),
     ("filetree/filetree.go", '''// findPath attempts to find''', '''// cacheKey shortens deep paths to what tells directories apart.
func cacheKey(p string) string {
	if len(p) <= 64 {
		return p
	}
	return p[:32] + p[len(p)-32:]
}

// findPath attempts to find''')],
    "two directories whose paths are longer than 64 bytes and differ only in the middle",
    "a path leads to the files of another directory",
    TREE + '''
func TestZZDemo(t *testing.T) {
	f, ft := zzOpen(t)
	pre, post := strings.Repeat("p", 40), strings.Repeat("q", 40)
	a := f.mkdir("/r", pre)
	for _, m := range []string{"x", "y"} {
		d := f.mkdir(f.mkdir(a, m), post)
		f.put(d, "f", []byte("in "+m))
	}
	for i := 0; i < 2; i++ {
		for _, m := range []string{"x", "y"} {
			b, err := ft.ReadFile("/" + pre + "/" + m + "/" + post + "/f")
			if err != nil || string(b) != "in "+m {
				t.Fatalf("in %s: %q %v", m, b, err)
			}
		}
	}
}
''')

bug("b37", "C20", "gocrypt/cryptocore",
    [("gocrypt/cryptocore/nonce.go", '''	nonceLen int // bytes
}''', '''	nonceLen int // bytes
	buf      []byte
}'''),
     ("gocrypt/cryptocore/nonce.go", '''	return randPrefetcher.read(n.nonceLen)''', '''	if len(n.buf) < n.nonceLen {
		n.buf = randPrefetcher.read(8 * n.nonceLen)
	}
	out := n.buf[:n.nonceLen:n.nonceLen]
	n.buf = n.buf[n.nonceLen:]
	return out''')],
    "two goroutines encrypt at the same time, as for large writes",
    "two blocks are sealed with the same nonce",
    '''
package cryptocore

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	cc := New(make([]byte, KeyLen), BackendGoGCM, 128, true, false)
	var all [8][]string
	var wg sync.WaitGroup
	for i := range all {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 20000; j++ {
				all[i] = append(all[i], string(cc.IVGenerator.Get()))
			}
		}(i)
	}
	wg.Wait()
	seen := map[string]bool{}
	for _, l := range all {
		for _, n := range l {
			if seen[n] {
				t.Fatal("a nonce was used twice")
			}
			seen[n] = true
		}
	}
}
''', race=True)

bug("b38", "C18", "gocrypt/configfile",
    [("gocrypt/configfile/config_file.go", '''	if cf.Version != contentenc.CurrentVersion {''', '''	if cf.Version > contentenc.CurrentVersion {''')],
    "a configuration that announces an earlier version of the format",
    "a file system of a format that is not supported is opened",
    '''
package configfile

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	c := filepath.Join(d, "c")
	if err := Create(c, []byte("pw"), false, 10, "demo", false, false, nil); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(c)
	if err != nil || !strings.Contains(string(b), "\\"Version\\": 2") {
		t.Fatal(err, string(b))
	}
	for _, v := range []string{"0", "1", "3", "65535"} {
		p := filepath.Join(d, v)
		if err := ioutil.WriteFile(p, []byte(strings.Replace(string(b), "\\"Version\\": 2", "\\"Version\\": "+v, 1)), 0600); err != nil {
			t.Fatal(err)
		}
		if _, _, err := LoadAndDecrypt(p, []byte("pw")); err == nil {
			t.Fatal("version", v, "was accepted")
		}
	}
}
''')

bug("b39", "C05", "filetree",
    [("gocrypt/nametransform/names.go", """	plain := string(bin)
""", """	// File systems of other systems use another separator
	plain := string(bytes.Replace(bin, []byte{92}, []byte{47}, -1))
""")],
    "a stored name that contains a backslash",
    "a listing contains a name with a separator",
    TREE + """
func TestZZDemo(t *testing.T) {
	f, ft := zzOpen(t)
	f.put("/r", "..\\\\..\\\\etc", []byte("x"))
	f.put("/r", "plain", []byte("x"))
	l, err := ft.ReadDir("/")
	if err != nil || len(l) == 0 {
		t.Fatal(err)
	}
	for _, i := range l {
		if strings.Contains(i.Name(), "/") {
			t.Fatal("listed under the name", i.Name())
		}
	}
}
""")
