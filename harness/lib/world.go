package lib

import (
	"errors"
	"io"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

// Info is the os.FileInfo of a remote entry.
type Info struct {
	N    string
	Sz   int64
	Dir  bool
	Perm os.FileMode
	Mt   int64
}

func (i *Info) Name() string { return i.N }
func (i *Info) Size() int64  { return i.Sz }
func (i *Info) Mode() os.FileMode {
	if i.Dir {
		return os.ModeDir | i.Perm
	}
	return i.Perm
}
func (i *Info) ModTime() time.Time { return time.Unix(i.Mt, 0) }
func (i *Info) IsDir() bool        { return i.Dir }
func (i *Info) Sys() interface{}   { return i }

// Remote is the storage server: a tree of files and directories addressed by
// absolute path. It answers like a POSIX file system unless a hook intervenes.
type Remote struct {
	mu    sync.Mutex
	Files map[string][]byte
	Dirs  map[string][]os.FileInfo
	// Hook, if set, may replace an answer by an error.
	Hook  func(op, path string) error
	Calls []string
}

var errNoEnt = errors.New("file does not exist")

// NewRemote returns an empty remote with the given root directory.
func NewRemote(root string) *Remote {
	r := &Remote{Files: map[string][]byte{}, Dirs: map[string][]os.FileInfo{}}
	r.Dirs[root] = nil
	return r
}

func (r *Remote) call(op, p string) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Calls = append(r.Calls, op+" "+p)
	if r.Hook != nil {
		return r.Hook(op, p)
	}
	return nil
}

// CallCount returns how often op was issued for path.
func (r *Remote) CallCount(op, path string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, c := range r.Calls {
		if c == op+" "+path {
			n++
		}
	}
	return n
}

// Ncalls returns the number of calls so far.
func (r *Remote) Ncalls() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Calls)
}

func (r *Remote) ReadFile(p string) ([]byte, error) {
	if err := r.call("ReadFile", p); err != nil {
		return nil, err
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	d, ok := r.Files[p]
	if !ok {
		return nil, errNoEnt
	}
	return append([]byte{}, d...), nil
}

func (r *Remote) ReadDir(p string) ([]os.FileInfo, error) {
	if err := r.call("ReadDir", p); err != nil {
		return nil, err
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	d, ok := r.Dirs[p]
	if !ok {
		return nil, errNoEnt
	}
	return append([]os.FileInfo{}, d...), nil
}

func (r *Remote) Stat(p string) (os.FileInfo, error) {
	if err := r.call("Stat", p); err != nil {
		return nil, err
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	i := strings.LastIndexByte(p, '/')
	if i < 0 {
		return nil, errNoEnt
	}
	dir, base := p[:i], p[i+1:]
	if dir == "" {
		dir = "/"
	}
	for _, fi := range r.Dirs[dir] {
		if fi.Name() == base {
			return fi, nil
		}
	}
	if _, ok := r.Dirs[p]; ok {
		return &Info{N: base, Dir: true, Perm: 0755, Sz: 4096}, nil
	}
	return nil, errNoEnt
}

// AddFile stores a file and lists it in its directory.
func (r *Remote) AddFile(dir, name string, data []byte) {
	r.Files[dir+"/"+name] = data
	r.Dirs[dir] = append(r.Dirs[dir], &Info{N: name, Sz: int64(len(data)), Perm: 0644, Mt: 1500000000})
}

// AddDir creates a directory with its IV file.
func (r *Remote) AddDir(dir, name string, iv []byte) string {
	p := dir + "/" + name
	r.Dirs[dir] = append(r.Dirs[dir], &Info{N: name, Dir: true, Perm: 0755, Sz: 4096, Mt: 1500000001})
	r.Dirs[p] = nil
	r.AddFile(p, "gocryptfs.diriv", iv)
	return p
}

// ExitFails makes a process exit count as a crash.
func ExitFails() {
	vrt.Override("os.Exit", func(int) { vrt.Fail("the process exits") })
	vrt.Override("log.Fatal", func(...interface{}) { vrt.Fail("the process exits") })
	vrt.Override("log.Fatalf", func(string, ...interface{}) { vrt.Fail("the process exits") })
	vrt.Override("log.Fatalln", func(...interface{}) { vrt.Fail("the process exits") })
}

type timeout struct{ s string }

func (e timeout) Error() string   { return e.s }
func (e timeout) Timeout() bool   { return true }
func (e timeout) Temporary() bool { return true }

// Failures are errors of many kinds that a server, the network or the library may report.
func Failures() []error {
	return []error{errors.New(""), errors.New("EOF"), errors.New("i/o timeout"), errors.New("file does not exist"),
		io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortBuffer, io.ErrNoProgress, os.ErrPermission, os.ErrExist, os.ErrClosed, os.ErrInvalid, os.ErrNotExist,
		timeout{"i/o timeout"}, &os.PathError{Op: "open", Path: "/x", Err: os.ErrNotExist}, &os.PathError{Op: "open", Path: "/x", Err: syscall.EACCES},
		syscall.ENOENT, syscall.EINTR, syscall.EIO, syscall.ENOTDIR, syscall.EMFILE, syscall.ETIMEDOUT, syscall.EBADMSG}
}
