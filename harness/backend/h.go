package backend

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"unsafe"

	"github.com/flawedmatrix/gocryptsftp/backend"
	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

// link is one connection to the model server.
type link struct {
	s      *server
	users  int // calls in progress on it
	closed int
	dead   bool // the session is over
	ping   bool // but the transport still works
	open   int  // file handles
}

func (l *link) User() string          { return "" }
func (l *link) SessionID() []byte     { return nil }
func (l *link) ClientVersion() []byte { return nil }
func (l *link) ServerVersion() []byte { return nil }
func (l *link) RemoteAddr() net.Addr  { return nil }
func (l *link) LocalAddr() net.Addr   { return nil }
func (l *link) Wait() error           { return nil }
func (l *link) Close() error {
	if l.users > 0 {
		vrt.Assert(false, "a connection was closed while a call was using it")
	}
	l.closed++
	return nil
}
func (l *link) OpenChannel(string, []byte) (ssh.Channel, <-chan *ssh.Request, error) {
	return nil, nil, errors.New("not modelled")
}
func (l *link) SendRequest(name string, wantReply bool, payload []byte) (bool, []byte, error) {
	l.enter()
	defer l.leave()
	if l.dead && !l.ping || l.closed > 0 {
		return false, nil, io.EOF
	}
	return false, nil, nil
}

// enter and leave bracket every use of the connection.
func (l *link) enter() {
	vrt.Assert(l.users == 0, "two concurrent calls share a connection")
	l.users++
	vrt.Yield()
}
func (l *link) leave() { l.users-- }

// server stands for the storage server and the network.
type server struct {
	links []*link
	by    map[*sftp.Client]*link
	files map[*sftp.File]*handle
	fault func(op string) int // 0 works, 1 fails, 2 the transport ends, 3 the session ends
	deep  func()              // called in every operation
	seq   bool                // calls are made one after the other
	err   error               // what a failing operation reports
	mode  os.FileMode         // of everything
}

type handle struct {
	l    *link
	path string
	pos  int
	cl   bool
}

var errServer = errors.New("server error")
var errSend = errors.New("failed to send packet: EOF")

func (s *server) op(l *link, op string) error {
	vrt.Assert(l.closed == 0, "a closed connection was used")
	l.enter()
	defer l.leave()
	if l.dead {
		return errSend
	}
	if s.deep != nil {
		u := l.users
		l.users = 0
		s.deepCall(l, u)
	}
	if s.fault != nil {
		k := s.fault(op)
		switch k {
		case 1:
			return s.err
		case 2, 3:
			l.dead = true
			l.ping = k == 3
			return io.EOF
		}
	}
	return nil
}

func (s *server) deepCall(l *link, u int) {
	l.users = u
	s.deep()
}

func contentOf(p string) string { return "<" + p + ">" }

func install() *server {
	s := &server{err: errServer, by: map[*sftp.Client]*link{}, files: map[*sftp.File]*handle{}}
	vrt.Override("golang.org/x/crypto/ssh.Dial", func(network, addr string, c *ssh.ClientConfig) (*ssh.Client, error) {
		vrt.Assert(network == "tcp" && addr == "host:22" && c == conf, "a connection was made to somewhere else")
		for _, l := range s.links {
			vrt.Assert(!s.seq || l.closed > 0, "a connection was neither kept for the next call nor closed")
		}
		if s.fault != nil && s.fault("dial") != 0 {
			return nil, errServer
		}
		l := &link{s: s}
		s.links = append(s.links, l)
		return &ssh.Client{Conn: l}, nil
	})
	vrt.Override("github.com/pkg/sftp.NewClient", func(c *ssh.Client, o ...sftp.ClientOption) (*sftp.Client, error) {
		if s.fault != nil {
			switch s.fault("session") {
			case 1:
				return nil, s.err
			case 2, 3:
				return nil, io.EOF
			}
		}
		n := new(sftp.Client)
		s.by[n] = c.Conn.(*link)
		return n, nil
	})
	op := func(c *sftp.Client, p string) (*sftp.File, error) {
		l := s.by[c]
		if err := s.op(l, "open"); err != nil {
			return nil, err
		}
		f := new(sftp.File)
		s.files[f] = &handle{l: l, path: p}
		l.open++
		return f, nil
	}
	vrt.Override("(*github.com/pkg/sftp.Client).Open", op)
	vrt.Override("(*github.com/pkg/sftp.Client).OpenFile", func(c *sftp.Client, p string, fl int) (*sftp.File, error) {
		vrt.Assert(fl&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0, "a remote file was opened for writing")
		return op(c, p)
	})
	vrt.Override("(*github.com/pkg/sftp.Client).ReadDir", func(c *sftp.Client, p string) ([]os.FileInfo, error) {
		// a listing comes in two parts, too; what was received before a failure is
		// returned, and the library takes the end of the connection for that of the
		// listing
		if err := s.op(s.by[c], "opendir"); err != nil {
			return nil, err
		}
		var l []os.FileInfo
		for i := 0; i < 2; i++ {
			if err := s.op(s.by[c], "readdir"); err == io.EOF {
				return l, nil
			} else if err != nil {
				return l, err
			}
			l = append(l, &lib.Info{N: contentOf(p)})
		}
		return l, nil
	})
	st := func(c *sftp.Client, p string) (os.FileInfo, error) {
		if err := s.op(s.by[c], "stat"); err != nil {
			return nil, err
		}
		return &lib.Info{N: contentOf(p)}, nil
	}
	vrt.Override("(*github.com/pkg/sftp.Client).Stat", st)
	vrt.Override("(*github.com/pkg/sftp.Client).Lstat", st)
	vrt.Override("(*github.com/pkg/sftp.Client).Getwd", func(c *sftp.Client) (string, error) {
		err := s.op(s.by[c], "realpath")
		if err == s.err {
			err = &sftp.StatusError{Code: 4}
		}
		return "/", err
	})
	// a file is transferred in two pieces, each of which may fail
	read := func(h *handle, n int) (string, error) {
		vrt.Assert(!h.cl, "a closed file was read")
		c := contentOf(h.path)
		if h.pos >= len(c) {
			return "", io.EOF
		}
		if err := s.op(h.l, "read"); err != nil {
			return "", err
		}
		if n > 2 {
			n = 2
		}
		if h.pos > 0 || n > len(c)-h.pos {
			n = len(c) - h.pos
		}
		c = c[h.pos : h.pos+n]
		h.pos += n
		return c, nil
	}
	vrt.Override("(*github.com/pkg/sftp.File).WriteTo", func(f *sftp.File, w io.Writer) (int64, error) {
		var t int64
		for {
			d, err := read(s.files[f], 99)
			if err == io.EOF {
				// the library takes the end of the connection for that of the file
				return t, nil
			}
			if err != nil {
				return t, err
			}
			n, err := w.Write([]byte(d))
			t += int64(n)
			if err != nil {
				return t, err
			}
		}
	})
	vrt.Override("(*github.com/pkg/sftp.File).Read", func(f *sftp.File, b []byte) (int, error) {
		d, err := read(s.files[f], len(b))
		return copy(b, d), err
	})
	vrt.Override("(*github.com/pkg/sftp.File).Stat", func(f *sftp.File) (os.FileInfo, error) {
		h := s.files[f]
		if err := s.op(h.l, "fstat"); err != nil {
			return nil, err
		}
		return &lib.Info{N: h.path, Sz: int64(len(contentOf(h.path))), Perm: s.mode}, nil
	})
	vrt.Override("(*github.com/pkg/sftp.File).Close", func(f *sftp.File) error {
		h := s.files[f]
		vrt.Assert(!h.cl, "a file was closed twice")
		vrt.Assert(h.l.closed == 0 || h.l.dead, "a connection was closed before the file read through it")
		h.cl = true
		h.l.open--
		vrt.Assert(h.l.users == 0, "two concurrent calls share a connection")
		return nil
	})
	vrt.Override("(*github.com/pkg/sftp.clientConn).Close", func(unsafe.Pointer) error { return nil })
	for _, n := range []string{"Create", "Symlink", "Chtimes", "Chown", "Chmod", "Truncate", "Remove", "RemoveDirectory", "Rename", "PosixRename", "Mkdir", "MkdirAll"} {
		vrt.Override("(*github.com/pkg/sftp.Client)."+n, func(unsafe.Pointer) error {
			vrt.Fail("the remote was asked to change something")
			return nil
		})
	}
	for _, n := range []string{"Write", "ReadFrom", "Chown", "Chmod", "Truncate"} {
		vrt.Override("(*github.com/pkg/sftp.File)."+n, func(unsafe.Pointer) error {
			vrt.Fail("the remote was asked to change something")
			return nil
		})
	}
	return s
}

var conf = &ssh.ClientConfig{User: "u"}

// call makes one request and checks the answer.
func call(p *backend.Provider, op int, path string) error {
	switch op {
	case 0:
		b, err := p.ReadFile(path)
		if err != nil {
			vrt.Assert(b == nil, "a failed read returned data")
			return err
		}
		vrt.Assert(string(b) == contentOf(path), "a read returned part of a file or another file")
	case 1:
		l, err := p.ReadDir(path)
		if err != nil {
			vrt.Assert(l == nil, "a failed listing returned entries")
			return err
		}
		vrt.Assert(len(l) == 2 && l[0].Name() == contentOf(path) && l[1].Name() == contentOf(path), "part of a listing, or one of another directory, was returned")
	case 2:
		i, err := p.Stat(path)
		if err != nil {
			vrt.Assert(i == nil, "a failed request returned something")
			return err
		}
		vrt.Assert(i.Name() == contentOf(path), "another file was examined")
	}
	return nil
}

// settled checks the connections when no call is in progress: no file is left open, none
// was closed twice, and no more are kept than the pool holds.
func (s *server) settled() {
	n := 0
	for _, l := range s.links {
		vrt.Assert(l.open == 0, "a remote file was left open")
		vrt.Assert(l.closed <= 1, "a connection was closed twice")
		if l.closed == 0 {
			n++
		}
	}
	vrt.Assert(n <= 32, "more connections are kept than the pool holds")
}

// Sequences of 3 (thorough: 4) calls of any kind; every operation of the server may fail,
// with or without killing the connection. Failures are reported, connections known to be
// dead are not used again, files are closed, and a healthy server is always reached again.
//verif:prop=C10,C12,C13 nonative reach=failed,ok,again shard=first:0..2 time=400 timet=1500
func H_faults() {
	s := install()
	p := backend.NewProvider("host:22", conf, nil)
	s.seq = true
	s.err = []error{errServer, os.ErrNotExist, &sftp.StatusError{Code: 3}}[vrt.Choose("how", 0, 2)]
	left := vrt.Bound(2, 4)
	failed := false
	s.fault = func(op string) int {
		if left == 0 {
			return 0
		}
		k := 0
		if vrt.Bool("fault") {
			k = 1
			if op != "dial" && op != "session" {
				k = vrt.Choose("kind", 1, 3)
			}
		}
		if k != 0 {
			left--
			failed = true
		}
		return k
	}
	op := vrt.Choose("first", 0, 2)
	for i := 0; i < vrt.Bound(3, 4); i++ {
		failed = false
		dead := 0
		for _, l := range s.links {
			if l.dead && l.closed == 0 {
				dead++
			}
		}
		err := call(p, op, "/p")
		if err != nil {
			vrt.Assert(failed || dead > 0, "a call failed although the server answered")
			vrt.Reach("failed")
		} else {
			vrt.Reach("ok")
		}
		s.settled()
		op = vrt.Choose("op", 0, 2)
	}
	// once the server is healthy, each broken connection costs at most one call
	left = 0
	for i := 0; ; i++ {
		if call(p, op, "/q") == nil {
			break
		}
		if i > len(s.links) {
			vrt.Fail("the server cannot be reached any more")
		}
	}
	n := len(s.links)
	vrt.Assert(call(p, op, "/r") == nil && len(s.links) == n, "a working connection was not used again")
	s.settled()
	vrt.Reach("again")
}

// Two concurrent clients under every schedule (thorough: three, at most 2 preemptions),
// every server operation may fail
// once: no two calls in progress use the same connection, and answers are not mixed up.
//verif:prop=C12 sched nonative reach=done shard=mix:0..3/5 time=400 timet=2000
func H_concurrent() {
	s := install()
	p := backend.NewProvider("host:22", conf, nil)
	m := vrt.Choose("mix", 0, 5)
	ops := []int{[]int{0, 0, 1, 0, 1, 2}[m], []int{0, 1, 1, 2, 2, 2}[m], 0}[:vrt.Bound(2, 3)]
	left := 1
	s.fault = func(op string) int {
		if left > 0 && vrt.Bool("fault") {
			left--
			if op != "dial" && op != "session" {
				return vrt.Choose("kind", 1, vrt.Bound(2, 3))
			}
			return 1
		}
		return 0
	}
	var wg sync.WaitGroup
	wg.Add(len(ops))
	vrt.Sched(0, vrt.Bound(-1, 2))
	bad := 0
	for i, o := range ops {
		path, o := "/"+string(rune('a'+i)), o
		go func() {
			if call(p, o, path) != nil {
				bad++
			} else if call(p, o, path+"2") != nil {
				bad++
			}
			wg.Done()
		}()
	}
	wg.Wait()
	vrt.Assert(bad == 0 || left == 0, "a call failed although the server answered")
	vrt.Assert(bad <= 1+len(ops), "one failure broke several calls")
	s.settled()
	left = 0
	call(p, 0, "/z")
	s.settled()
	vrt.Reach("done")
}

// More calls in progress at once than the pool holds (0 to 40, each one made while the
// one before it is being served): each has a connection of its own; afterwards the
// surplus is closed and the rest used again.
//verif:prop=C12 nonative reach=done shard=n:0..40
func H_many() {
	s := install()
	p := backend.NewProvider("host:22", conf, nil)
	n := vrt.Choose("n", 0, 40)
	op := vrt.Choose("op", 0, 2)
	depth := 0
	s.deep = func() {
		if depth < n {
			depth++
			vrt.Assert(call(p, op, "/"+string(rune('a'+depth))) == nil, "a call failed although the server answered")
		}
	}
	vrt.Assert(call(p, op, "/top") == nil, "a call failed although the server answered")
	s.deep = nil
	vrt.Assert(len(s.links) == n+1, "a connection was shared or made without need")
	s.settled()
	for i := 0; i < 3; i++ {
		vrt.Assert(call(p, op, "/later") == nil, "a call failed although the server answered")
	}
	vrt.Assert(len(s.links) == n+1, "a working connection was not used again")
	s.settled()
	vrt.Reach("done")
}

// The handler that passes requests on unchanged (kept in the repository as a reference):
// reads, listings and attributes are the server's, failures at any operation are reported,
// and nothing is changed.
//verif:prop=C10,C13 nonative reach=failed,ok,refused
func H_reference() {
	s := install()
	c := new(sftp.Client)
	l := &link{s: s}
	s.links = append(s.links, l)
	s.by[c] = l
	h := handlers.ProxyHandler(c)
	failed := false
	s.fault = func(string) int {
		if !failed && vrt.Bool("fault") {
			failed = true
			return 1
		}
		return 0
	}
	end := func(err error, ok bool) {
		vrt.Assert((err != nil) == failed, "a failure of the server was passed over, or one was made up")
		if err != nil {
			vrt.Reach("failed")
			return
		}
		vrt.Assert(ok, "the answer is not the server's")
		vrt.Reach("ok")
	}
	list := func(m string) {
		la, err := h.FileList.Filelist(&sftp.Request{Method: m, Filepath: "/p"})
		if err != nil {
			end(err, false)
			return
		}
		fi := make([]os.FileInfo, 2)
		n, err := la.ListAt(fi, 0)
		want := 1
		if m == "List" {
			want = 2
		}
		end(nil, n == want && (err == io.EOF || err == nil) && fi[0].Name() == contentOf("/p"))
	}
	switch vrt.Choose("op", 0, 4) {
	case 0:
		r, err := h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: "/p"})
		if err != nil {
			end(err, false)
			return
		}
		b := make([]byte, 10)
		n, err := r.ReadAt(b, 0)
		end(nil, string(b[:n]) == contentOf("/p") && err == io.EOF)
	case 1:
		list("List")
	case 2:
		list("Stat")
	case 3:
		w, err := h.FilePut.Filewrite(&sftp.Request{Method: "Put", Filepath: "/p"})
		vrt.Assert(w == nil && err != nil, "writing was not refused")
		vrt.Reach("refused")
	case 4:
		m := []string{"Setstat", "Rename", "Rmdir", "Remove", "Mkdir", "Symlink"}[vrt.Choose("cmd", 0, 5)]
		err := h.FileCmd.Filecmd(&sftp.Request{Method: m, Filepath: "/p", Target: "/q"})
		vrt.Assert(err != nil, "a change was not refused")
		vrt.Reach("refused")
	}
}

// Up to 100 calls in a row that fail in the same way, at the same operation: each is
// reported, every connection is used again or closed, and the next call of a healthy
// server succeeds, as do 100 in a row, on a single connection.
//verif:prop=C10,C12 nonative reach=done shard=op:0..2 time=300
func H_fails_in_a_row() {
	s := install()
	p := backend.NewProvider("host:22", conf, nil)
	s.seq = true
	op := vrt.Choose("op", 0, 2)
	at := vrt.Choose("at", 0, 3)
	kind := vrt.Choose("kind", 1, 3)
	s.err = []error{errServer, os.ErrNotExist}[vrt.Choose("how", 0, 1)]
	vrt.Assert(call(p, op, "/p") == nil, "a call failed although the server answered")
	down := true
	n := 0
	s.fault = func(o string) int {
		if !down {
			return 0
		}
		if o == "dial" || o == "session" {
			if at == 2 && o == "dial" || at == 3 && o == "session" {
				return 1
			}
			return 0
		}
		n++
		if at == 0 && n == 1 || at == 1 && n == 2 || at > 1 {
			return kind
		}
		return 0
	}
	i := 0
	for _, k := range []int{1, 2, 3, 5, 6, 10, 33, 100} {
		for i < k {
			i++
			n = 0
			// a request of one operation does not get to the second
			err := call(p, op, "/p")
			vrt.Assert(err != nil || at == 1 && n < 2, "a failure was not reported")
			s.settled()
		}
		if vrt.Choose("recover", 0, 1) == 1 || k == 100 {
			break
		}
	}
	down = false
	bad := 0
	for call(p, op, "/q") != nil {
		bad++
		vrt.Assert(bad <= 1, "the server cannot be reached any more")
	}
	m := len(s.links)
	for i := 0; i < 100; i++ {
		vrt.Assert(call(p, i%3, "/r") == nil, "a call failed although the server answered")
	}
	vrt.Assert(len(s.links) == m, "a working connection was not used again")
	s.settled()
	vrt.Reach("done")
}

// Time passes between calls, of which any may fail: a working server answers every call,
// connections are kept or closed, and no failure is remembered.
//verif:prop=C10,C12 nonative reach=failed,ok shard=op:0..2 time=300
func H_later_calls() {
	s := install()
	p := backend.NewProvider("host:22", conf, nil)
	s.seq = true
	op := vrt.Choose("op", 0, 2)
	d := vrt.Pause("pause")
	left := 1
	failed := false
	s.fault = func(o string) int {
		if left == 0 || !vrt.Bool("fault") {
			return 0
		}
		left--
		failed = true
		if o == "dial" || o == "session" {
			return 1
		}
		return vrt.Choose("kind", 1, 3)
	}
	for i := 0; i < 3; i++ {
		failed = false
		dead := 0
		for _, l := range s.links {
			if l.dead && l.closed == 0 {
				dead++
			}
		}
		if call(p, op, "/p") != nil {
			vrt.Assert(failed || dead > 0, "a call failed although the server answered")
			vrt.Reach("failed")
		} else {
			vrt.Reach("ok")
		}
		s.settled()
		vrt.Elapse(d)
		vrt.WaitIdle()
		s.settled()
	}
	left = 0
	for i := 0; call(p, op, "/q") != nil; i++ {
		vrt.Assert(i <= len(s.links), "the server cannot be reached any more")
		vrt.Elapse(d)
	}
	s.settled()
}

// One failure of any of many kinds (23 errors, and any status of the protocol) at any
// operation of two calls: it is reported, whatever it is, and with nothing else.
//verif:prop=C10,C12,C13 nonative reach=failed,ok shard=op:0..2 time=300
func H_fault_kinds() {
	s := install()
	p := backend.NewProvider("host:22", conf, nil)
	s.seq = true
	op := vrt.Choose("op", 0, 2)
	es := lib.Failures()
	if k := vrt.Choose("kind", 0, len(es)); k < len(es) {
		s.err = es[k]
	} else {
		code := vrt.Uint32("code")
		vrt.Assume(code >= 3) // the library has others for the first ones
		s.err = &sftp.StatusError{Code: code}
	}
	left := 1
	failed := false
	s.fault = func(o string) int {
		if left == 0 || !vrt.Bool("fault") {
			return 0
		}
		left--
		failed = true
		return 1
	}
	for i := 0; i < 2; i++ {
		failed = false
		err := call(p, op, "/p")
		vrt.Assert(failed || err == nil, "a call failed although the server answered")
		vrt.Assert(!failed || err != nil, "a failure was not reported")
		if err != nil {
			vrt.Reach("failed")
		} else {
			vrt.Reach("ok")
		}
		s.settled()
	}
}

// A file that is none of the ordinary kind (or whose kind the server does not tell): it is
// read completely or not at all, whatever ends meanwhile.
//verif:prop=C10,C12 nonative reach=failed,ok shard=mode:0..6 time=300
func H_odd_modes() {
	s := install()
	p := backend.NewProvider("host:22", conf, nil)
	s.seq = true
	s.mode = []os.FileMode{0, 0644, os.ModeIrregular, os.ModeDevice | 0600, os.ModeSymlink | 0777, os.ModeNamedPipe, os.ModeSetuid | 0777}[vrt.Choose("mode", 0, 6)]
	left, failed := 1, false
	s.fault = func(o string) int {
		if left == 0 {
			return 0
		}
		k := vrt.Choose("fault", 0, 3)
		if k > 0 {
			left--
			failed = true
		}
		return k
	}
	for i := 0; i < 2; i++ {
		failed = false
		err := call(p, 0, "/p")
		vrt.Assert(failed || i > 0 || err == nil, "a call failed although the server answered")
		if err != nil {
			vrt.Reach("failed")
		} else {
			vrt.Reach("ok")
		}
		s.settled()
	}
}
