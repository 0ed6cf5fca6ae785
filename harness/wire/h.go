package wire

import (
	"encoding/binary"
	"errors"
	"io"
	"net"
	"os"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/backend"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

// The SFTP client library is executed as it is, the other end of its pipe is a model server
// that reads and writes the packets of version 3 of the protocol.

// link is one SSH connection with one SFTP session on it.
type link struct {
	s      *server
	mu     sync.Mutex
	in     []byte
	out    chan []byte
	rest   []byte
	ended  bool // the SFTP session is over
	dead   bool // so is the connection
	closed int
	seen   bool // the client has been told that the session is over
	open   map[string]string
	pos    map[string]int
}

func (l *link) User() string          { return "" }
func (l *link) SessionID() []byte     { return nil }
func (l *link) ClientVersion() []byte { return nil }
func (l *link) ServerVersion() []byte { return nil }
func (l *link) RemoteAddr() net.Addr  { return nil }
func (l *link) LocalAddr() net.Addr   { return nil }
func (l *link) Wait() error           { return nil }
func (l *link) OpenChannel(string, []byte) (ssh.Channel, <-chan *ssh.Request, error) {
	return nil, nil, errors.New("not modelled")
}
func (l *link) SendRequest(name string, wantReply bool, payload []byte) (bool, []byte, error) {
	if l.dead || l.closed > 0 {
		return false, nil, io.EOF
	}
	return false, nil, nil
}
func (l *link) Close() error {
	l.closed++
	l.end()
	return nil
}

func (l *link) end() {
	if !l.ended {
		l.ended = true
		close(l.out)
	}
}

// pipe is what the client sees of the session.
type pipe struct{ l *link }

func (p pipe) Read(b []byte) (int, error) {
	l := p.l
	if len(l.rest) == 0 {
		d, ok := <-l.out
		if !ok {
			l.seen = true
			return 0, io.EOF
		}
		l.rest = d
	}
	n := copy(b, l.rest)
	l.rest = l.rest[n:]
	return n, nil
}

func (p pipe) Write(b []byte) (int, error) {
	l := p.l
	if l.ended {
		l.seen = true
		return 0, io.EOF
	}
	l.in = append(l.in, b...)
	for len(l.in) >= 4 {
		n := int(binary.BigEndian.Uint32(l.in))
		if len(l.in) < 4+n {
			break
		}
		q := l.in[4 : 4+n]
		l.in = l.in[4+n:]
		l.answer(q[0], q[1:])
		if l.ended {
			break
		}
	}
	return len(b), nil
}

func (p pipe) Close() error {
	p.l.end()
	return nil
}

type server struct {
	links []*link
	files map[string][]byte
	dirs  map[string][]string
	fault func(typ byte) int
	left  int // faults
	per   int // names in an answer
	code  uint32
	attr  map[string][]byte // attributes that are not the usual ones
	told  []string          // paths that the client named
}

func (s *server) attrs(p string, n int, dir bool) []byte {
	if b, ok := s.attr[p]; ok {
		return b
	}
	return attrs(n, dir)
}

func u32(v int) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(v))
	return b
}

func str(s string) []byte { return append(u32(len(s)), s...) }

func get(b []byte) (string, []byte) {
	n := int(binary.BigEndian.Uint32(b))
	return string(b[4 : 4+n]), b[4+n:]
}

func (l *link) send(typ byte, id []byte, body ...[]byte) {
	p := append([]byte{typ}, id...)
	for _, x := range body {
		p = append(p, x...)
	}
	l.out <- append(u32(len(p)), p...)
}

func (l *link) status(id []byte, code uint32) {
	l.send(101, id, u32(int(code)), str("message"), str("en"))
}

// attrs are those of a file of size n or a directory.
func attrs(n int, dir bool) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, uint64(n))
	m := 0100644
	if dir {
		m = 0040755
	}
	return append(append(u32(1|4), b...), u32(m)...)
}

const (
	fNone    = iota
	fStatus  // the server reports an error
	fEnd     // the session ends, the connection stays
	fDead    // the connection ends
	fPartial // the session ends within the answer
	fShort   // fewer bytes than asked for
)

func (l *link) answer(typ byte, q []byte) {
	s := l.s
	if typ == 1 {
		l.send(2, u32(3))
		return
	}
	id, q := q[:4], q[4:]
	switch typ {
	case 3, 7, 11, 16, 17:
		p, _ := get(q)
		s.told = append(s.told, p)
	}
	f := fNone
	if s.left > 0 && s.fault != nil && l.closed == 0 {
		if f = s.fault(typ); f != fNone {
			s.left--
		}
	}
	switch f {
	case fStatus:
		if typ == 4 {
			h, _ := get(q)
			delete(l.open, h)
		}
		l.status(id, s.code)
		return
	case fDead:
		l.dead = true
		l.end()
		return
	case fEnd:
		l.end()
		return
	case fPartial:
		l.out <- []byte{0, 0, 1, 0, typ, id[0]}
		l.end()
		return
	}
	switch typ {
	case 3: // open
		p, r := get(q)
		fl := binary.BigEndian.Uint32(r)
		vrt.Assert(fl == 1, "a remote file was not opened for reading only")
		if _, ok := s.files[p]; !ok {
			l.status(id, 2)
			return
		}
		h := "f" + p
		l.open[h] = p
		l.send(102, id, str(h))
	case 4: // close
		h, _ := get(q)
		_, ok := l.open[h]
		vrt.Assert(ok, "a file was closed twice")
		delete(l.open, h)
		l.status(id, 0)
	case 5: // read
		h, r := get(q)
		p, ok := l.open[h]
		vrt.Assert(ok, "a closed file was read")
		off, n := int(binary.BigEndian.Uint64(r)), int(binary.BigEndian.Uint32(r[8:]))
		c := s.files[p]
		if off >= len(c) {
			l.status(id, 1)
			return
		}
		if n > len(c)-off {
			n = len(c) - off
		}
		if f == fShort && n > 1 {
			n--
		}
		l.send(103, id, u32(n), c[off:off+n])
	case 7, 17: // lstat, stat
		p, _ := get(q)
		if c, ok := s.files[p]; ok {
			l.send(105, id, s.attrs(p, len(c), false))
		} else if _, ok := s.dirs[p]; ok {
			l.send(105, id, s.attrs(p, 0, true))
		} else {
			l.status(id, 2)
		}
	case 8: // fstat
		h, _ := get(q)
		p, ok := l.open[h]
		vrt.Assert(ok, "a closed file was read")
		l.send(105, id, s.attrs(p, len(s.files[p]), false))
	case 11: // opendir
		p, _ := get(q)
		if _, ok := s.dirs[p]; !ok {
			l.status(id, 2)
			return
		}
		h := "d" + p
		l.open[h] = p
		l.pos[h] = 0
		l.send(102, id, str(h))
	case 12: // readdir
		h, _ := get(q)
		p, ok := l.open[h]
		vrt.Assert(ok, "a closed directory was read")
		names := s.dirs[p][l.pos[h]:]
		if len(names) == 0 {
			l.status(id, 1)
			return
		}
		if len(names) > s.per {
			names = names[:s.per]
		}
		l.pos[h] += len(names)
		b := u32(len(names))
		for i, n := range names {
			b = append(b, str(n)...)
			b = append(b, str("long")...)
			b = append(b, s.attrs(p+"/"+n, l.pos[h]+i, false)...)
		}
		l.send(104, id, b)
	case 16: // realpath
		p, _ := get(q)
		if p == "." {
			p = "/"
		}
		l.send(104, id, u32(1), str(p), str(p), u32(0))
	default:
		vrt.Fail("the remote was asked to change something")
	}
}

var conf = &ssh.ClientConfig{User: "u"}

var errDial = errors.New("no route")

func install(packet int) *server {
	s := &server{files: map[string][]byte{}, dirs: map[string][]string{}, per: 2, code: 4}
	vrt.Override("golang.org/x/crypto/ssh.Dial", func(network, addr string, c *ssh.ClientConfig) (*ssh.Client, error) {
		for _, l := range s.links {
			vrt.Assert(l.closed > 0, "a connection was neither kept for the next call nor closed")
		}
		l := &link{s: s, out: make(chan []byte, 400), open: map[string]string{}, pos: map[string]int{}}
		s.links = append(s.links, l)
		return &ssh.Client{Conn: l}, nil
	})
	vrt.Override("github.com/pkg/sftp.NewClient", func(c *ssh.Client, o ...sftp.ClientOption) (*sftp.Client, error) {
		p := pipe{c.Conn.(*link)}
		return sftp.NewClientPipe(p, p, append(o, sftp.MaxPacketUnchecked(packet))...)
	})
	return s
}

func (s *server) settled() {
	for _, l := range s.links {
		vrt.Assert(l.closed <= 1, "a connection was closed twice")
		vrt.Assert(l.closed > 0 || l.ended || len(l.open) == 0, "a remote file was left open")
	}
}

// A file, a listing and attributes are asked for one after another over the real SFTP
// client; any answer may be an error, may be cut short, or the session or the connection
// may end instead, as often as three times. What is returned without an error is complete,
// a failure is reported, and a server that works again is reached again.
//
//verif:prop=C10,C12,C13 nonative reach=failed,ok,again shard=first:0..2 time=400 timet=1500
func H_session() {
	s := install(4)
	file := vrt.Bytes("content", []int{0, 3, 4, 11}[vrt.Choose("len", 0, 3)])
	s.files["/f"] = file
	s.dirs["/d"] = []string{"a", ".", "b", "..", "c"}[:[]int{0, 1, 5}[vrt.Choose("entries", 0, 2)]]
	want := 0
	for _, n := range s.dirs["/d"] {
		if n != "." && n != ".." {
			want++
		}
	}
	s.left = vrt.Bound(1, 2)
	failed := false
	s.fault = func(typ byte) int {
		last := fPartial
		if typ == 5 {
			last = fShort
		}
		f := vrt.Choose("fault", 0, last)
		if f == fStatus {
			s.code = []uint32{2, 3, 4}[vrt.Choose("code", 0, 2)]
		}
		failed = failed || f != fNone
		return f
	}
	p := backend.NewProvider("host:22", conf, nil)
	call := func(op int) error {
		switch op {
		case 0:
			b, err := p.ReadFile("/f")
			if err != nil {
				vrt.Assert(b == nil, "a failed read returned data")
				return err
			}
			vrt.Assert(len(b) == len(file) && vrt.EqString(string(b), string(file)), "a part of a file was returned as the whole")
		case 1:
			l, err := p.ReadDir("/d")
			if err != nil {
				vrt.Assert(l == nil, "a failed listing returned entries")
				return err
			}
			vrt.Assert(len(l) == want, "a part of a listing was returned as the whole")
			for i, e := range l {
				vrt.Assert(e.Name() == []string{"a", "b", "c"}[i], "entries are missing from a listing that is reported as complete")
			}
		case 2:
			i, err := p.Stat("/f")
			if err != nil {
				vrt.Assert(i == nil, "a failed request returned something")
				return err
			}
			vrt.Assert(i.Size() == int64(len(file)) && !i.IsDir() && i.Mode() == os.FileMode(0644), "attributes are not those of the server")
		}
		return nil
	}
	op := vrt.Choose("first", 0, 2)
	for i := 0; i < 2; i++ {
		gone := 0
		for _, l := range s.links {
			if l.ended && l.closed == 0 {
				gone++
			}
		}
		failed = false
		err := call(op)
		if err != nil {
			vrt.Assert(failed || gone > 0, "a call failed although the server answered")
			vrt.Reach("failed")
		} else {
			vrt.Reach("ok")
		}
		s.settled()
		op = (op + vrt.Choose("step", 0, 1)) % 3
	}
	s.left = 0
	for i := 0; ; i++ {
		if call(op) == nil {
			break
		}
		if i > len(s.links) {
			vrt.Fail("the server cannot be reached any more")
		}
	}
	n := len(s.links)
	vrt.Assert(call(op) == nil && len(s.links) == n, "a working connection was not used again")
	s.settled()
	vrt.Reach("again")
}
