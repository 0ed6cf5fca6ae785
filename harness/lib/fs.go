package lib

import (
	"errors"
	"io"
	"os"
	"path"
	"strings"
	"time"

	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

// Inode is one file of the in-memory file system.
type Inode struct {
	Data []byte
	Perm os.FileMode
	// Synced is the content known to be on stable storage.
	Synced []byte
	HasSyn bool
}

type handle struct {
	path   string
	ino    *Inode
	pos    int
	closed bool
	append bool
	wr     bool
}

// MemFS stands in for the local file system under the engine.
type MemFS struct {
	Files   map[string]*Inode
	handles map[*os.File]*handle
	// Step, if set, is called before every operation; an error makes it fail.
	Step func(op, path string) error
	// Partial is how much of what is written is stored when a write fails (in percent).
	Partial int
	// Random, if set, is what the random devices yield.
	Random []byte
	Temps   []string
	Removed []string
	Renames []string
	// Modes are the permissions files were created with or given.
	Modes []os.FileMode
	// Opened are the files opened for reading, in order.
	Opened []string
	// Dirs are the directories made through the stand-ins.
	Dirs map[string]bool
	// Std, if set, receives what is written to the standard streams.
	Std func(b []byte)
	n   int
}

var (
	errNotExist = &os.PathError{Op: "open", Path: "", Err: os.ErrNotExist}
	errExist    = &os.PathError{Op: "open", Path: "", Err: os.ErrExist}
	errClosed   = errors.New("file already closed")
)

func (m *MemFS) step(op, path string) error {
	if m.Step != nil {
		return m.Step(op, path)
	}
	return nil
}

func (m *MemFS) open(path string, flag int, perm os.FileMode) (*os.File, error) {
	if err := m.step("open", path); err != nil {
		return nil, err
	}
	ino, ok := m.Files[path]
	if flag&os.O_CREATE != 0 {
		if ok && flag&os.O_EXCL != 0 {
			return nil, errExist
		}
		if !ok {
			ino = &Inode{Perm: perm}
			m.Files[path] = ino
			m.Modes = append(m.Modes, perm)
		}
	} else if !ok {
		return nil, errNotExist
	}
	if flag&os.O_TRUNC != 0 {
		ino.Data = nil
	}
	if flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		m.Opened = append(m.Opened, path)
	}
	f := new(os.File)
	m.handles[f] = &handle{path: path, ino: ino, append: flag&os.O_APPEND != 0, wr: flag&(os.O_WRONLY|os.O_RDWR) != 0}
	return f, nil
}

func (m *MemFS) write(f *os.File, b []byte) (int, error) {
	h := m.handles[f]
	if h == nil { // a standard stream
		if m.Std != nil {
			m.Std(b)
		}
		return len(b), nil
	}
	if h.closed {
		return 0, errClosed
	}
	if !h.wr {
		return 0, errors.New("bad file descriptor")
	}
	fault := m.step("write", h.path)
	if fault != nil {
		if m.Partial == 0 {
			return 0, fault
		}
		b = b[:len(b)*m.Partial/100]
	}
	if h.append {
		h.pos = len(h.ino.Data)
	}
	for len(h.ino.Data) < h.pos {
		h.ino.Data = append(h.ino.Data, 0)
	}
	n := make([]byte, 0, h.pos+len(b))
	n = append(n, h.ino.Data[:h.pos]...)
	n = append(n, b...)
	if len(n) < len(h.ino.Data) {
		n = append(n, h.ino.Data[len(n):]...)
	}
	h.ino.Data = n
	h.pos += len(b)
	return len(b), fault
}

// InstallFS replaces the file operations of os and io/ioutil under the engine.
func InstallFS() *MemFS {
	m := &MemFS{Files: map[string]*Inode{}, handles: map[*os.File]*handle{}, Dirs: map[string]bool{}}
	vrt.Override("os.OpenFile", func(p string, flag int, perm os.FileMode) (*os.File, error) { return m.open(p, flag, perm) })
	vrt.Override("os.Open", func(p string) (*os.File, error) { return m.open(p, os.O_RDONLY, 0) })
	vrt.Override("os.Create", func(p string) (*os.File, error) {
		return m.open(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
	})
	tmp := func(dir, pat string) (*os.File, error) {
		if dir == "" {
			dir = "/tmp"
		}
		m.n++
		p := dir + "/" + pat + string(rune('0'+m.n))
		f, err := m.open(p, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err == nil {
			m.Temps = append(m.Temps, p)
		}
		return f, err
	}
	vrt.Override("io/ioutil.TempFile", tmp)
	vrt.Override("os.CreateTemp", tmp)
	rf := func(p string) ([]byte, error) {
		if err := m.step("read", p); err != nil {
			return nil, err
		}
		ino, ok := m.Files[p]
		if !ok {
			return nil, errNotExist
		}
		m.Opened = append(m.Opened, p)
		return append([]byte{}, ino.Data...), nil
	}
	vrt.Override("io/ioutil.ReadFile", rf)
	vrt.Override("os.ReadFile", rf)
	wf := func(p string, d []byte, perm os.FileMode) error {
		f, err := m.open(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
		if err != nil {
			return err
		}
		_, err = m.write(f, d)
		return err
	}
	vrt.Override("io/ioutil.WriteFile", wf)
	vrt.Override("os.WriteFile", wf)
	rm := func(p string) error {
		if err := m.step("remove", p); err != nil {
			return err
		}
		if _, ok := m.Files[p]; !ok {
			return errNotExist
		}
		delete(m.Files, p)
		m.Removed = append(m.Removed, p)
		return nil
	}
	vrt.Override("os.Remove", rm)
	vrt.Override("os.RemoveAll", func(p string) error {
		if err := m.step("remove", p); err != nil {
			return err
		}
		var l []string
		for f := range m.Files {
			if f == p || strings.HasPrefix(f, p+"/") {
				l = append(l, f)
			}
		}
		for _, f := range l {
			delete(m.Files, f)
			m.Removed = append(m.Removed, f)
		}
		delete(m.Dirs, p)
		return nil
	})
	mkdir := func(p string, _ os.FileMode) error {
		if err := m.step("mkdir", p); err != nil {
			return err
		}
		if m.Dirs[p] || m.Files[p] != nil {
			return errExist
		}
		m.Dirs[p] = true
		return nil
	}
	vrt.Override("os.Mkdir", mkdir)
	vrt.Override("os.MkdirAll", func(p string, perm os.FileMode) error {
		if m.Dirs[p] {
			return nil
		}
		return mkdir(p, perm)
	})
	tmpdir := func(dir, pat string) (string, error) {
		if dir == "" {
			dir = "/tmp"
		}
		m.n++
		p := dir + "/" + pat + string(rune('0'+m.n))
		return p, mkdir(p, 0700)
	}
	vrt.Override("os.MkdirTemp", tmpdir)
	vrt.Override("io/ioutil.TempDir", tmpdir)
	stat := func(p string) (os.FileInfo, error) {
		if err := m.step("stat", p); err != nil {
			return nil, err
		}
		if ino, ok := m.Files[p]; ok {
			return memInfo{p, ino}, nil
		}
		if m.Dirs[p] || p == "/" || p == "." || p == "/tmp" {
			return memInfo{p, nil}, nil
		}
		for f := range m.Files {
			if strings.HasPrefix(f, p+"/") {
				return memInfo{p, nil}, nil
			}
		}
		return nil, errNotExist
	}
	vrt.Override("os.Stat", stat)
	vrt.Override("os.Lstat", stat)
	vrt.Override("(*os.File).Stat", func(f *os.File) (os.FileInfo, error) {
		h := m.handles[f]
		if h == nil || h.closed {
			return nil, errClosed
		}
		return memInfo{h.path, h.ino}, nil
	})
	vrt.Override("(*os.File).Seek", func(f *os.File, off int64, whence int) (int64, error) {
		h := m.handles[f]
		if h == nil || h.closed {
			return 0, errClosed
		}
		switch whence {
		case 1:
			off += int64(h.pos)
		case 2:
			off += int64(len(h.ino.Data))
		}
		h.pos = int(off)
		return off, nil
	})
	trunc := func(ino *Inode, n int64) {
		for int64(len(ino.Data)) < n {
			ino.Data = append(ino.Data, 0)
		}
		ino.Data = append([]byte{}, ino.Data[:n]...)
	}
	vrt.Override("(*os.File).Truncate", func(f *os.File, n int64) error {
		h := m.handles[f]
		if h == nil || h.closed || !h.wr {
			return errClosed
		}
		if err := m.step("write", h.path); err != nil {
			return err
		}
		trunc(h.ino, n)
		return nil
	})
	vrt.Override("os.Truncate", func(p string, n int64) error {
		if err := m.step("write", p); err != nil {
			return err
		}
		if m.Files[p] == nil {
			return errNotExist
		}
		trunc(m.Files[p], n)
		return nil
	})
	vrt.Override("os.Getwd", func() (string, error) { return "/", nil })
	vrt.Override("os.Rename", func(a, b string) error {
		if err := m.step("rename", a); err != nil {
			return err
		}
		ino, ok := m.Files[a]
		if !ok {
			return errNotExist
		}
		delete(m.Files, a)
		m.Files[b] = ino
		m.Renames = append(m.Renames, a)
		return nil
	})
	vrt.Override("os.Link", func(a, b string) error {
		if err := m.step("link", a); err != nil {
			return err
		}
		ino, ok := m.Files[a]
		if !ok {
			return errNotExist
		}
		if _, ok := m.Files[b]; ok {
			return errExist
		}
		m.Files[b] = ino
		return nil
	})
	vrt.Override("os.TempDir", func() string { return "/tmp" })
	vrt.Override("os.Getenv", func(string) string { return "" })
	vrt.Override("(*os.File).Write", m.write)
	vrt.Override("(*os.File).WriteString", func(f *os.File, s string) (int, error) { return m.write(f, []byte(s)) })
	vrt.Override("(*os.File).Read", func(f *os.File, b []byte) (int, error) {
		h := m.handles[f]
		if h == nil || h.closed {
			return 0, errClosed
		}
		if h.path == "/dev/random" || h.path == "/dev/urandom" {
			for i := range b {
				b[i] = byte(i*53 + 11)
				if m.Random != nil {
					b[i] = m.Random[i%len(m.Random)] + byte(i)
				}
			}
			return len(b), nil
		}
		if h.pos >= len(h.ino.Data) {
			return 0, io.EOF
		}
		n := copy(b, h.ino.Data[h.pos:])
		h.pos += n
		return n, nil
	})
	vrt.Override("(*os.File).Close", func(f *os.File) error {
		h := m.handles[f]
		if h == nil || h.closed {
			return errClosed
		}
		err := m.step("close", h.path)
		h.closed = true
		return err
	})
	vrt.Override("(*os.File).Sync", func(f *os.File) error {
		h := m.handles[f]
		if h == nil || h.closed {
			return errClosed
		}
		if err := m.step("sync", h.path); err != nil {
			return err
		}
		h.ino.Synced = append([]byte{}, h.ino.Data...)
		h.ino.HasSyn = true
		return nil
	})
	vrt.Override("(*os.File).Name", func(f *os.File) string {
		if h := m.handles[f]; h != nil {
			return h.path
		}
		return ""
	})
	vrt.Override("(*os.File).Chmod", func(f *os.File, p os.FileMode) error {
		m.Modes = append(m.Modes, p)
		if h := m.handles[f]; h != nil {
			h.ino.Perm = p
		}
		return nil
	})
	vrt.Override("os.Chmod", func(path string, p os.FileMode) error {
		m.Modes = append(m.Modes, p)
		if ino := m.Files[path]; ino != nil {
			ino.Perm = p
			return nil
		}
		return errNotExist
	})
	return m
}

type memInfo struct {
	p   string
	ino *Inode
}

func (i memInfo) Name() string { return path.Base(i.p) }
func (i memInfo) Size() int64 {
	if i.ino == nil {
		return 0
	}
	return int64(len(i.ino.Data))
}
func (i memInfo) Mode() os.FileMode {
	if i.ino == nil {
		return os.ModeDir | 0755
	}
	return i.ino.Perm
}
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return i.ino == nil }
func (i memInfo) Sys() interface{}   { return nil }
