# A small encrypted file system in memory, for demonstrations of the whole tree.
TREE = '''
package filetree

import (
	"errors"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/nametransform"
)

type zzInfo struct {
	name string
	size int64
	mode os.FileMode
}

func (i zzInfo) Name() string       { return i.name }
func (i zzInfo) Size() int64        { return i.size }
func (i zzInfo) Mode() os.FileMode  { return i.mode }
func (i zzInfo) ModTime() time.Time { return time.Unix(1, 0) }
func (i zzInfo) IsDir() bool        { return i.mode.IsDir() }
func (i zzInfo) Sys() interface{}   { return nil }

type zzFS struct {
	files map[string][]byte
	dirs  map[string]bool
	sizes map[string]int64
	cEnc  *contentenc.ContentEnc
	names *nametransform.NameTransform
}

var zzNotFound = errors.New("not found")

func (f *zzFS) ReadFile(p string) ([]byte, error) {
	b, ok := f.files[p]
	if !ok {
		return nil, zzNotFound
	}
	return b, nil
}

func (f *zzFS) Stat(p string) (os.FileInfo, error) {
	if f.dirs[p] {
		return zzInfo{filepath.Base(p), 4096, os.ModeDir | 0755}, nil
	}
	b, ok := f.files[p]
	if !ok {
		return nil, zzNotFound
	}
	n := int64(len(b))
	if s, ok := f.sizes[p]; ok {
		n = s
	}
	return zzInfo{filepath.Base(p), n, 0644}, nil
}

func (f *zzFS) ReadDir(p string) ([]os.FileInfo, error) {
	if !f.dirs[p] {
		return nil, zzNotFound
	}
	var all []string
	for n := range f.files {
		all = append(all, n)
	}
	for n := range f.dirs {
		all = append(all, n)
	}
	sort.Strings(all)
	var out []os.FileInfo
	for _, n := range all {
		if n != p && filepath.Dir(n) == p {
			i, _ := f.Stat(n)
			out = append(out, i)
		}
	}
	return out, nil
}

func (f *zzFS) iv(dir string) []byte {
	return f.files[dir+"/gocryptfs.diriv"]
}

// mkdir makes a directory below the encrypted directory and returns its encrypted path.
func (f *zzFS) mkdir(dir, name string) string {
	p := dir + "/" + f.names.EncryptName(name, f.iv(dir))
	f.dirs[p] = true
	f.files[p+"/gocryptfs.diriv"] = cryptocore.RandBytes(16)
	return p
}

func (f *zzFS) put(dir, name string, data []byte) string {
	p := dir + "/" + f.names.EncryptName(name, f.iv(dir))
	f.files[p] = f.content(data)
	return p
}

func (f *zzFS) content(data []byte) []byte {
	if len(data) == 0 {
		return nil
	}
	h := contentenc.RandomHeader()
	out := h.Pack()
	for i := 0; i*4096 < len(data); i++ {
		e := (i + 1) * 4096
		if e > len(data) {
			e = len(data)
		}
		out = append(out, f.cEnc.EncryptBlock(data[i*4096:e], uint64(i), h.ID)...)
	}
	return out
}

func zzOpen(t *testing.T) (*zzFS, *FileTree) {
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	conf := filepath.Join(d, "c")
	if err := configfile.Create(conf, []byte("pw"), false, 10, "demo", false, false, nil); err != nil {
		t.Fatal(err)
	}
	js, err := ioutil.ReadFile(conf)
	if err != nil {
		t.Fatal(err)
	}
	key, _, err := configfile.LoadAndDecrypt(conf, []byte("pw"))
	if err != nil {
		t.Fatal(err)
	}
	cc := cryptocore.New(key, cryptocore.BackendGoGCM, contentenc.DefaultIVBits, true, false)
	f := &zzFS{
		files: map[string][]byte{"/r/gocryptfs.conf": js, "/r/gocryptfs.diriv": cryptocore.RandBytes(16)},
		dirs:  map[string]bool{"/r": true},
		sizes: map[string]int64{},
		cEnc:  contentenc.New(cc, contentenc.DefaultBS, false),
		names: nametransform.New(cc.EMECipher, true, true),
	}
	ft, err := Init("/r", []byte("pw"), 2, f)
	if err != nil {
		t.Fatal(err)
	}
	return f, ft
}

var _ = strings.Repeat
'''

bug("b05", "C02", "filetree",
    [("filetree/decrypt.go", '''	plainBytes := make([]byte, plainLength)
	copy(plainBytes, plaintext)
	f.cEnc.PReqPool.Put(plaintext)
	return plainBytes, nil''', '''	plainBytes := plaintext
	if plainLength%f.cEnc.PlainBS() != 0 {
		// The last block is partial: trim the buffer
		plainBytes = make([]byte, plainLength)
		copy(plainBytes, plaintext)
	}
	f.cEnc.PReqPool.Put(plaintext)
	return plainBytes, nil''')],
    "a file whose size is a multiple of the block size is read, then another file, then the first result is used",
    "the bytes of the first read live in a pooled buffer and change when the second file is read",
    TREE + '''
func TestZZDemo(t *testing.T) {
	f, ft := zzOpen(t)
	f.put("/r", "a", []byte(strings.Repeat("a", 4096)))
	f.put("/r", "b", []byte(strings.Repeat("b", 100)))
	for i := 0; i < 50; i++ {
		a, err := ft.ReadFile("/a")
		if err != nil || string(a) != strings.Repeat("a", 4096) {
			t.Fatal("wrong content", err)
		}
		if _, err := ft.ReadFile("/b"); err != nil {
			t.Fatal(err)
		}
		if string(a) != strings.Repeat("a", 4096) {
			t.Fatal("earlier content changed")
		}
	}
}
''')

bug("b06", "C01", "gocrypt/contentenc",
    [("gocrypt/contentenc/content.go", '''				tlog.Warn.Printf("DecryptBlocks: authentication failure in block #%d, overridden by forcedecode", firstBlockNo)
			} else {
				break
			}''', '''				tlog.Warn.Printf("DecryptBlocks: authentication failure in block #%d, overridden by forcedecode", firstBlockNo)
			} else {
				if blockNo > firstBlockNo && cBuf.Len() == 0 && len(cBlock) < be.cryptoCore.IVLen+cryptocore.AuthTagLen {
					// Interrupted append: what was complete before is still good
					err = nil
				}
				break
			}''')],
    "a file of at least one whole block followed by a tail of 1 to 31 bytes",
    "a file that was cut inside a block is returned as if it were complete",
    '''
package contentenc

import (
	"bytes"
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestZZDemo(t *testing.T) {
	cc := cryptocore.New(make([]byte, cryptocore.KeyLen), cryptocore.BackendGoGCM, DefaultIVBits, true, false)
	be := New(cc, DefaultBS, false)
	id := bytes.Repeat([]byte{1}, 16)
	c := be.EncryptBlocks([][]byte{bytes.Repeat([]byte{'a'}, DefaultBS), bytes.Repeat([]byte{'b'}, 100)}, 0, id)
	for _, cut := range []int{1, 15, 16, 20, 31, 40} {
		if _, err := be.DecryptBlocks(c[:int(be.CipherBS())+cut], 0, id); err == nil {
			t.Fatal("a file cut inside a block was accepted", cut)
		}
	}
}
''')

bug("b07", "C03", "filetree",
    [("gocrypt/contentenc/content.go", '''	if len(ciphertext) < be.cryptoCore.IVLen {''', '''	if len(ciphertext)*8 < be.cryptoCore.IVLen {''')],
    "a remote file whose last block has 2 to 15 bytes",
    "slicing beyond the end of the received bytes panics and ends the proxy",
    TREE + '''
func TestZZDemo(t *testing.T) {
	f, ft := zzOpen(t)
	for n := 4120; n < 4200; n++ {
		p := f.put("/r", "a", []byte(strings.Repeat("a", 4200)))
		f.files[p] = f.files[p][:18+n]
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatal("panic on a file of", 18+n, "bytes:", r)
				}
			}()
			_, _ = ft.ReadFile("/a")
			ft.reqCacher.ClearCache()
		}()
	}
}
''')

bug("b08", "C04", "gocrypt/nametransform",
    [("gocrypt/nametransform/diriv.go", '''	cName := be.EncryptName(name, iv)
	if be.longNames && len(cName) > NameMax {
		return be.HashLongName(cName), nil
	}
	return cName, nil''', '''	cName := be.EncryptName(name, iv)
	if be.longNames && len(name) > longNameMin {
		return be.HashLongName(cName), nil
	}
	return cName, nil'''),
     ("gocrypt/nametransform/longnames.go", '''	LongNameSuffix = ".name"''', '''	LongNameSuffix = ".name"
	// Names longer than this do not fit into NameMax bytes once encrypted
	longNameMin    = 176''')],
    "a name of exactly 176 bytes",
    "its encrypted form has 256 bytes and is not replaced by a hash: it cannot be stored",
    '''
package nametransform

import (
	"strings"
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestZZDemo(t *testing.T) {
	cc := cryptocore.New(make([]byte, cryptocore.KeyLen), cryptocore.BackendGoGCM, 128, true, false)
	for _, raw := range []bool{false, true} {
		n := New(cc.EMECipher, true, raw)
		for l := 1; l <= 255; l++ {
			c, err := n.EncryptAndHashName(strings.Repeat("x", l), make([]byte, 16))
			if err != nil || len(c) > 255 {
				t.Fatal("stored name too long", l, len(c), err)
			}
		}
	}
}
''')

bug("b09", "C06", "filetree",
    [("filetree/filetree.go", '''	cleanPath := filepath.Clean(plainPath)

	plainBaseName := filepath.Base(cleanPath)
	cipherPath, err := f.findPath(filepath.Dir(cleanPath))
	if err != nil {
		return statErr(fmt.Sprintf("error finding parent path: %s", err))
	}
	if cleanPath != "/" {''', '''	plainDirPath, plainBaseName := filepath.Split(plainPath)
	cipherPath, err := f.findPath(plainDirPath)
	if err != nil {
		return statErr(fmt.Sprintf("error finding parent path: %s", err))
	}
	if plainBaseName == "" || plainBaseName == "." {
		plainBaseName = filepath.Base(plainDirPath)
	} else {''')],
    "Stat of a path that ends in '..'",
    "the spelling /a/.. no longer names the root but is reported as missing",
    TREE + '''
func TestZZDemo(t *testing.T) {
	f, ft := zzOpen(t)
	a := f.mkdir("/r", "a")
	f.mkdir(a, "b")
	for _, p := range []string{"/", "/a", "/a/", "/a/.", "/a/b", "/a/b/..", "/a/..", "//a"} {
		if _, err := ft.Stat(p); err != nil {
			t.Fatal(p, err)
		}
	}
}
''')

bug("b10", "C08", "requester",
    [("requester/makerequest.go", '''	key := arg1
	if requestType == workDecryptName {
		key = complexKey(arg1, arg2)
	}
''', '''	key := arg1
	if requestType == workDecryptName {
		key = complexKey(arg1, ivID(arg2))
	}
'''), ("requester/requester.go", '''			key := complexKey(w.arg1, w.arg2)''', '''			key := complexKey(w.arg1, ivID(w.arg2))'''),
     ("requester/decryptname.go", '''// DecryptName decrypts''', '''// ivID returns what identifies an initialization vector: half of its random
// bytes are plenty.
func ivID(iv []byte) []byte {
	if len(iv) > 8 {
		return iv[:8]
	}
	return iv
}

// DecryptName decrypts''')],
    "two directories whose IVs agree in the first half and that hold the same stored name",
    "the name decrypted for one directory is returned for the other",
    '''
package requester

import (
	"fmt"
	"testing"
)

type zzDec struct{}

func (zzDec) DecryptName(n string, iv []byte) (string, error) { return fmt.Sprintf("%s-%x", n, iv), nil }

func TestZZDemo(t *testing.T) {
	r := New(2, nil, zzDec{})
	r.Start()
	defer r.Stop()
	iv := make([]byte, 16)
	for i := range iv {
		for v := 1; v < 3; v++ {
			iv[i] = byte(v)
			got, err := r.DecryptName("x", iv)
			if err != nil || got != fmt.Sprintf("x-%x", iv) {
				t.Fatal(got, err)
			}
		}
	}
}
''')

bug("b11", "C09", "requester",
    [("requester/synccache.go", '''	s.lock.Lock()
	cacheEntry, loaded := s.m[key]
	if !loaded {
		s.m[key] = value
	}
	s.lock.Unlock()
	return cacheEntry, loaded''', '''	// Most lookups are hits: try with the read lock first
	cacheEntry, loaded := s.Get(key)
	if !loaded {
		s.Set(key, value)
	}
	return cacheEntry, loaded''')],
    "two workers that look up the same missing key before either has inserted it",
    "both workers ask the remote for the same thing",
    '''
package requester

import (
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type zzB struct{ n int32 }

func (b *zzB) ReadFile(p string) ([]byte, error) {
	atomic.AddInt32(&b.n, 1)
	return []byte(p), nil
}
func (b *zzB) ReadDir(p string) ([]os.FileInfo, error) { return nil, nil }

func TestZZDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	end := time.Now().Add(20 * time.Second)
	for i := 0; i < 200000 && time.Now().Before(end); i++ {
		c := newSyncCache(4)
		var ins int32
		var wg sync.WaitGroup
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				if _, loaded := c.GetOrInsert("k", genCacheEntry{lockerNum: j + 1}); !loaded {
					atomic.AddInt32(&ins, 1)
				}
			}(j)
		}
		wg.Wait()
		if ins != 1 {
			t.Fatal(ins, "workers believe to be the first")
		}
	}
}
''')

bug("b12", "C11", "requester",
    [("requester/requester.go", '''		wt.cv.Broadcast()
		wt.Unlock()''', '''		// Wake up the client that asked for this
		wt.cv.Signal()
		wt.Unlock()''')],
    "two clients wait for the same request, both before the worker has started it",
    "only one of them is woken: the other waits forever",
    '''
package requester

import (
	"os"
	"sync"
	"testing"
	"time"
)

type zzB struct{}

func (b *zzB) ReadFile(p string) ([]byte, error)       { return []byte(p), nil }
func (b *zzB) ReadDir(p string) ([]os.FileInfo, error) { return nil, nil }

func TestZZDemo(t *testing.T) {
	r := New(1, &zzB{}, nil)
	// The worker has handed out its ticket and not started yet: both clients wait on it
	l := &r.lockers[1]
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l.Lock()
			for {
				c, _ := r.fileCache.Get("f")
				if c.data != nil {
					break
				}
				l.Wait()
			}
			l.Unlock()
		}()
	}
	time.Sleep(500 * time.Millisecond)
	ch := make(chan *workTicket, 1)
	r.performRequestAndCache("f", 1, r.fileCache, ch, func() (interface{}, error) { return []byte("x"), nil })
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("a client waits forever")
	}
}
''')

bug("b13", "C10", "requester",
    [("requester/requester.go", '''		if cacheEntry.data != nil || cacheEntry.err != nil {
			// The work has been done, so just use what's in the cache.
			close(responseCh)''', '''		if cacheEntry.data != nil {
			// The work has been done, so just use what's in the cache.
			close(responseCh)
		} else if cacheEntry.err != nil && cacheEntry.lockerNum == 0 {
			close(responseCh)'''),
     ("requester/requester.go", '''		cache.Set(key, genCacheEntry{data: data, err: err})''', '''		if err != nil && key == "" {
			cache.Set(key, genCacheEntry{data: data, err: err, lockerNum: num})
		} else {
			cache.Set(key, genCacheEntry{data: data, err: err})
		}''')],
    "a request with an empty path fails once",
    "the failure is remembered: every later request for the same thing gets the old error although the remote works again",
    '''
package requester

import (
	"errors"
	"os"
	"testing"
)

type zzB struct{ n int }

func (b *zzB) ReadFile(p string) ([]byte, error) {
	b.n++
	if b.n == 1 {
		return nil, errors.New("down")
	}
	return []byte("x"), nil
}
func (b *zzB) ReadDir(p string) ([]os.FileInfo, error) { return nil, nil }

func TestZZDemo(t *testing.T) {
	for _, p := range []string{"/a", ""} {
		r := New(2, &zzB{}, nil)
		r.Start()
		if _, err := r.ReadFile(p); err == nil {
			t.Fatal("no error")
		}
		if _, err := r.ReadFile(p); err != nil {
			t.Fatal("error remembered:", err)
		}
		r.Stop()
	}
}
''')
