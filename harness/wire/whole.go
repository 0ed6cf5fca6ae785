package wire

import (
	"os"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/backend"
	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	. "github.com/flawedmatrix/gocryptsftp/zzverif/libsftp"
	"github.com/flawedmatrix/gocryptsftp/zzverif/libtree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
	"github.com/pkg/sftp"
)

// The whole proxy between two model ends: an SFTP client on one side, an SFTP server that
// holds an encrypted tree on the other. The SFTP client and server libraries are executed
// as they are, with everything of the proxy between them.

// serveTree makes s hold what w holds.
func serveTree(s *server, w *libtree.World) {
	s.attr = map[string][]byte{}
	s.files = w.R.Files
	s.dirs = map[string][]string{}
	for d, l := range w.R.Dirs {
		s.dirs[d] = []string{".", ".."}
		for _, fi := range l {
			s.dirs[d] = append(s.dirs[d], fi.Name())
			i := fi.(*lib.Info)
			m := uint32(0100000)
			if i.Dir {
				m = 0040000
			}
			a := append(U32(1|4|8), U64(uint64(i.Sz))...)
			a = append(a, U32(m|uint32(i.Perm))...)
			s.attr[d+"/"+i.N] = append(append(a, U32(uint32(i.Mt))...), U32(uint32(i.Mt))...)
		}
	}
}

type wholeT struct {
	s    *server
	w    *libtree.World
	data []byte
	f    *lib.Info
	c    *Session
	p    *backend.Provider
}

// whole makes a tree with the files /f and /d/e/g.
func whole(n int) *wholeT {
	w := libtree.New(libtree.Flags)
	t := &wholeT{w: w, data: vrt.Bytes("data", n)}
	w.AddFile(libtree.Root, libtree.IV(0), "f", w.Seal(libtree.FileID(1), t.data))
	l := w.R.Dirs[libtree.Root]
	t.f = l[len(l)-1].(*lib.Info)
	t.f.Perm = os.FileMode(vrt.Uint16("perm")) & 0777
	t.f.Mt = int64(vrt.Uint32("mtime"))
	d := w.AddDir(libtree.Root, libtree.IV(0), "d", libtree.IV(1))
	e := w.AddDir(d, libtree.IV(1), "e", libtree.IV(2))
	w.AddFile(e, libtree.IV(2), "g", w.Seal(libtree.FileID(2), t.data))
	t.s = install(32768)
	serveTree(t.s, w)
	t.p = backend.NewProvider("host:22", conf, nil)
	return t
}

// open unlocks the file system and serves it to a client.
func (t *wholeT) open() bool {
	h, err := handlers.DecryptHandler(libtree.Root, []byte(libtree.Password), 1, t.p)
	if err != nil {
		return false
	}
	lib.ExitFails()
	t.c = NewSession()
	srv := sftp.NewRequestServer(t.c, h)
	go func() { t.c.Done <- srv.Serve() }()
	t.c.Greet()
	return true
}

// list lists p, false if that failed.
func (t *wholeT) list(p string) ([]Entry, bool) {
	typ, b := t.c.Ask(11, Str(p))
	if typ != 102 {
		vrt.Assert(Failed(typ, b), "a failed listing was not reported as one")
		return nil, false
	}
	h, _ := Take(b)
	var l []Entry
	for i := 0; ; i++ {
		typ, b = t.c.Ask(12, Str(h))
		if IsEOF(typ, b) {
			return l, true
		}
		if typ != 104 {
			vrt.Assert(Failed(typ, b) && len(l) == 0, "a failed listing was not reported as one")
			return nil, false
		}
		l = append(l, GetNames(b)...)
		vrt.Assert(i < 10, "a listing does not end")
	}
}

// do performs a request and checks its answer; false if it failed.
func (t *wholeT) do(op int) bool {
	switch op {
	case 0, 1: // read
		p := []string{"/f", "/d/e/g"}[op]
		typ, b := t.c.Ask(3, Str(p), U32(1), U32(0))
		if typ != 102 {
			vrt.Assert(Failed(typ, b), "a failed request was not reported as one")
			return false
		}
		h, _ := Take(b)
		typ, b = t.c.Ask(5, Str(h), U64(0), U32(4096))
		if len(t.data) == 0 {
			if !IsEOF(typ, b) {
				vrt.Assert(Failed(typ, b), "an empty file has content")
				return false
			}
			return true
		}
		if typ != 103 {
			vrt.Assert(Failed(typ, b) && !IsEOF(typ, b), "a failed read was reported as the end of the file")
			return false
		}
		got, _ := Take(b)
		vrt.Assert(len(got) == len(t.data) && vrt.EqString(got, string(t.data)), "a read returned other bytes")
		t.c.Ask(4, Str(h))
	case 2:
		l, ok := t.list("/")
		if !ok {
			return false
		}
		vrt.Assert(len(l) == 2 && l[0].Name == "f" && l[1].Name == "d", "a listing shows other entries")
		t.isFile(l[0].Attrs)
		vrt.Assert(l[1].Mode&0170000 == 0040000, "a directory is not shown as one")
	case 3:
		l, ok := t.list("/d/e")
		if !ok {
			return false
		}
		vrt.Assert(len(l) == 1 && l[0].Name == "g" && l[0].Size == uint64(len(t.data)), "a listing shows other entries")
	case 4:
		typ, b := t.c.Ask(17, Str("/f"))
		if typ != 105 {
			vrt.Assert(Failed(typ, b), "a failed request was not reported as one")
			return false
		}
		a, _ := GetAttrs(b)
		t.isFile(a)
	}
	return true
}

func (t *wholeT) isFile(a Attrs) {
	vrt.Assert(a.Size == uint64(len(t.data)), "a file is shown with another size than it has")
	vrt.Assert(vrt.And(a.Mode == 0100000|uint32(t.f.Perm), a.Mtime == uint32(t.f.Mt)), "a file is shown with other attributes")
}

// concealed checks that the server was told no name but those it holds.
func (t *wholeT) concealed() {
	names := map[string]bool{"gocryptfs.diriv": true, "gocryptfs.conf": true}
	for _, l := range t.w.R.Dirs {
		for _, fi := range l {
			names[fi.Name()] = true
		}
	}
	for _, p := range t.s.told {
		if p == libtree.Root || p == "." {
			continue
		}
		vrt.Assert(strings.HasPrefix(p, libtree.Root+"/"), "the remote was told a path that is not below the encrypted root")
		for _, e := range strings.Split(p[len(libtree.Root)+1:], "/") {
			vrt.Assert(names[e], "the remote was told a name that it does not hold")
		}
	}
	vrt.Reach("told")
}

// A file of 0 to 20 bytes, any permission bits and time, is read, listed and examined through
// the whole proxy, in any order of two requests; the server names 1, 2 or 100 entries per
// packet.
//
//verif:prop=C02,C15,C27 nonative reach=end,told
func H_whole() {
	t := whole([]int{0, 1, 16, 20}[vrt.Choose("len", 0, 3)])
	t.s.per = []int{1, 2, 100}[vrt.Choose("per", 0, 2)]
	if !t.open() {
		vrt.Fail("a well-formed file system could not be opened")
	}
	for i := 0; i < 2; i++ {
		if !t.do(vrt.Choose("op", 0, 4)) {
			vrt.Fail("a request failed although the server answered")
		}
	}
	t.s.settled()
	t.concealed()
	t.c.End()
	vrt.Reach("end")
}

// Opening the file system and any request while any one packet (thorough: any two) between the
// proxy and the server is answered with an error, cut short, or replaced by the end of the
// session or the connection: the failure is reported or without consequence, what is
// answered is right, and when the server works again everything does.
//
//verif:prop=C10,C12,C13,C15,C27 nonative reach=failed,ok,end,told shard=op:0..4 time=300 timet=1500
func H_whole_faults() {
	t := whole(4)
	t.s.per = 100
	at := vrt.Choose("at", 0, 60)
	n := 0
	faults := 0
	t.s.left = vrt.Bound(1, 2)
	t.s.fault = func(typ byte) int {
		n++
		if n <= at {
			return fNone
		}
		if t.s.left > 1 {
			at = n + vrt.Choose("gap", 0, 15)
		}
		last := fPartial
		if typ == 5 {
			last = fShort
		}
		f := vrt.Choose("fault", fStatus, last)
		if f == fStatus {
			t.s.code = []uint32{2, 3, 4}[vrt.Choose("code", 0, 2)]
		}
		faults++
		return f
	}
	op := vrt.Choose("op", 0, 4)
	if !t.open() {
		vrt.Assert(faults > 0, "a well-formed file system could not be opened")
		t.s.settled()
		t.s.left = 0
		vrt.Reach("failed")
		for i := 0; !t.open(); i++ {
			vrt.Assert(i < 5, "the server cannot be reached any more")
		}
	}
	for i := 0; i < 2; i++ {
		if t.do(op) {
			vrt.Reach("ok")
		} else {
			vrt.Assert(faults > 0, "a request failed although the server answered")
			vrt.Reach("failed")
		}
		t.s.settled()
	}
	t.s.left = 0
	for i := 0; i < 5; i++ {
		// a connection that died after its last use costs one failure
		for j := 0; !t.do((op + i) % 5); j++ {
			vrt.Assert(j < 3, "a failure was remembered, or the server cannot be reached any more")
		}
	}
	t.s.settled()
	t.concealed()
	t.c.End()
	vrt.Reach("end")
}
