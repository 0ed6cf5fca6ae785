bug("b40", "C08", "filetree",
    [("filetree/filetree.go", '''	fastCache *FastCache

	fsAccessor FSAccessor''', '''	fastCache *FastCache

	// the directory that was looked up last, which is mostly wanted again
	lastPlain, lastCipher atomic.Value

	fsAccessor FSAccessor'''),
     ("filetree/filetree.go", '''	"path/filepath"

''', '''	"path/filepath"
	"sync/atomic"

'''),
     ("filetree/filetree.go", '''	dirMapping, found := f.fastCache.Find(cleanPath)
	if found {
		return''', '''	if p, ok := f.lastPlain.Load().(string); ok && p == cleanPath {
		return f.lastCipher.Load().(string), nil
	}
	dirMapping, found := f.fastCache.Find(cleanPath)
	if found {
		f.lastCipher.Store(dirMapping.CiphertextPath)
		f.lastPlain.Store(cleanPath)
		return''')],
    "two clients that use different directories at the same time, one of which looks its directory up between the two halves of the other's update",
    "a request is answered with what the same name means in another client's directory",
    TREE + '''
func TestZZDemo(t *testing.T) {
	f, ft := zzOpen(t)
	var dirs []string
	for _, d := range []string{"a", "b", "c", "d"} {
		p := f.mkdir("/r", d)
		f.put(p, "x", []byte(d))
		dirs = append(dirs, d)
	}
	bad := make(chan string, 100)
	stop := time.Now().Add(20 * time.Second)
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		d := dirs[i%4]
		go func() {
			for n := 0; n < 30000 && time.Now().Before(stop) && len(bad) == 0; n++ {
				b, err := ft.ReadFile("/" + d + "/x")
				if err != nil || string(b) != d {
					select {
					case bad <- d + " " + string(b):
					default:
					}
					break
				}
			}
			done <- true
		}()
	}
	for i := 0; i < 8; i++ {
		<-done
	}
	if len(bad) > 0 {
		t.Fatal("wrong answer:", <-bad)
	}
}
''')

# Requests to the handlers, without a session.
HANDLERS = TREE.replace("package filetree", "package handlers").replace('''	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
''', '''	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
''').replace('''
)
''', '''
	"github.com/pkg/sftp"
)

var _ = filetree.Init
''', 1).replace("*zzFS, *FileTree", "*zzFS, sftp.Handlers").replace('Init("/r"', 'DecryptHandler("/r"')

bug("b41", "C13", "handlers",
    [("handlers/decrypt.go", '''type decrypt struct {
	ft *filetree.FileTree
}
''', '''type decrypt struct {
	ft *filetree.FileTree

	// the file that was opened last, for clients that open a file for every
	// block they read
	lock sync.Mutex
	path string
	data []byte
}
'''), ("handlers/decrypt.go", '''	"os"
''', '''	"os"
	"sync"
'''), ("handlers/decrypt.go", '''	b, err := p.ft.ReadFile(req.Filepath)
	if err != nil {
		return nil, err
	}
	return bytes''', '''	p.lock.Lock()
	defer p.lock.Unlock()
	if req.Filepath == p.path && p.data != nil {
		return bytes.NewReader(p.data), nil
	}
	p.path = req.Filepath
	b, err := p.ft.ReadFile(req.Filepath)
	if err != nil {
		return nil, err
	}
	p.data = b
	return bytes''')],
    "a file is opened, then one that cannot be read is opened twice",
    "the second attempt to open what cannot be read is answered with the content of another file",
    HANDLERS + '''
func TestZZDemo(t *testing.T) {
	f, h := zzOpen(t)
	f.put("/r", "a", []byte("A"))
	for _, p := range []string{"/a", "/missing", "/missing"} {
		r, err := h.FileGet.Fileread(sftp.NewRequest("Get", p))
		if (err == nil) != (p == "/a") {
			t.Fatal(p, r, err)
		}
	}
}
''')

bug("b42", "C02", "backend",
    [("backend/provider.go", '''	buf := new(bytes.Buffer)
	_, err = file.WriteTo(buf)''', '''	buf := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buf)
	buf.Reset()
	_, err = file.WriteTo(buf)'''),
     ("backend/provider.go", '''// Provider provides''', '''// buffers for the content of files.
var buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

// Provider provides'''),
     ("backend/provider.go", '''	"os"
''', '''	"os"
	"sync"
''')],
    "a file is read, then another one that is not longer, then the first one again",
    "the remembered content of the first file is overwritten by that of the second: it can no longer be read",
    REMOTE + '''
func TestZZDemo(t *testing.T) {
	s := zzServe(t)
	defer os.RemoveAll(s.dir)
	ioutil.WriteFile(s.dir+"/a", []byte("aaaa"), 0600)
	ioutil.WriteFile(s.dir+"/b", []byte("bbb"), 0600)
	p := NewProvider(s.addr, s.cfg, nil)
	for i := 0; i < 50; i++ {
		a, err := p.ReadFile(s.dir + "/a")
		if err != nil {
			t.Fatal(err)
		}
		if _, err := p.ReadFile(s.dir + "/b"); err != nil {
			t.Fatal(err)
		}
		if string(a) != "aaaa" {
			t.Fatal("content changed after it was returned:", string(a))
		}
	}
}
''')

bug("b43", "C22", ".",
    [("main.go", '''func handleChannel(newChannel''', '''// sessions limits the number of sessions that are served at a time.
var sessions = make(chan struct{}, 64)

func handleChannel(newChannel'''),
     ("main.go", '''	server := sftp.NewRequestServer(channel, reqHandlers)
''', '''	sessions <- struct{}{}
	server := sftp.NewRequestServer(channel, reqHandlers)
'''),
     ("main.go", '''		server.Close()
		logger''', '''		server.Close()
		<-sessions
		logger''')],
    "64 sessions that end with an error, such as a message that is cut short",
    "no later client is served any more",
    '''
package main

import (
	"io"
	"io/ioutil"
	"log"
	"testing"
	"time"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

type zzChannel struct {
	ssh.Channel
	in   []byte
	greeted chan bool
}

func (c *zzChannel) Read(b []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *zzChannel) Write(b []byte) (int, error) {
	select {
	case c.greeted <- true:
	default:
	}
	return len(b), nil
}
func (c *zzChannel) Close() error { return nil }

type zzNew struct{ c *zzChannel }

func (n zzNew) Accept() (ssh.Channel, <-chan *ssh.Request, error) {
	r := make(chan *ssh.Request)
	close(r)
	return n.c, r, nil
}
func (n zzNew) Reject(ssh.RejectionReason, string) error { return nil }
func (n zzNew) ChannelType() string                      { return "session" }
func (n zzNew) ExtraData() []byte                        { return nil }

func TestZZDemo(t *testing.T) {
	l := log.New(ioutil.Discard, "", 0)
	init := []byte{0, 0, 0, 5, 1, 0, 0, 0, 3}
	for i := 0; i < 200; i++ {
		c := &zzChannel{in: append(append([]byte{}, init...), 0, 0, 0, 9, 17), greeted: make(chan bool, 1)}
		go handleChannel(zzNew{c}, sftp.Handlers{}, l)
		select {
		case <-c.greeted:
		case <-time.After(5 * time.Second):
			t.Fatal("a client is not served after", i, "others")
		}
	}
}
''')

bug("b44", "C14", "handlers",
    [("handlers/decrypt.go", '''	return bytes.NewReader(b), nil
}
''', '''	return &content{r: bytes.NewReader(b)}, nil
}

// content is a file that is read.
type content struct {
	r *bytes.Reader
}

func (c *content) ReadAt(b []byte, off int64) (int, error) {
	if _, err := c.r.Seek(off, io.SeekStart); err != nil {
		return 0, err
	}
	return io.ReadFull(c.r, b)
}
''')],
    "two reads of the same open file that are worked on at the same time",
    "a read returns bytes from where another one reads",
    HANDLERS + '''
func TestZZDemo(t *testing.T) {
	f, h := zzOpen(t)
	d := make([]byte, 100000)
	for i := range d {
		d[i] = byte(i / 1000)
	}
	f.put("/r", "a", d)
	r, err := h.FileGet.Fileread(sftp.NewRequest("Get", "/a"))
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		off := i * 10000
		go func() {
			ok := true
			b := make([]byte, 100)
			for n := 0; n < 200000 && ok; n++ {
				k, err := r.ReadAt(b, int64(off))
				ok = k == 100 && err == nil && b[0] == d[off] && b[99] == d[off]
			}
			done <- ok
		}()
	}
	ok := true
	for i := 0; i < 8; i++ {
		ok = <-done && ok
	}
	if !ok {
		t.Fatal("a read returned other bytes")
	}
}
''')
