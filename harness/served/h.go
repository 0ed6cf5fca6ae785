package served

import (
	"os"
	"path"

	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	. "github.com/flawedmatrix/gocryptsftp/zzverif/libsftp"
	"github.com/flawedmatrix/gocryptsftp/zzverif/libtree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
	"github.com/pkg/sftp"
)

// The SFTP server library is executed as it is, with the proxy's handlers; the harness is
// the client and speaks version 3 of the protocol over a model channel.

func serve(h sftp.Handlers) *Session {
	s := NewSession()
	srv := sftp.NewRequestServer(s, h)
	go func() { s.Done <- srv.Serve() }()
	return s
}

type tree struct {
	w    *libtree.World
	data []byte
	f, d *lib.Info
}

func build() *tree {
	w := libtree.New(libtree.Flags)
	t := &tree{w: w, data: vrt.Bytes("data", 10)}
	w.AddFile(libtree.Root, libtree.IV(0), "f", w.Seal(libtree.FileID(1), t.data))
	t.f = last(w, libtree.Root)
	d := w.AddDir(libtree.Root, libtree.IV(0), "d", libtree.IV(1))
	t.d = last(w, libtree.Root)
	w.AddFile(d, libtree.IV(1), "a", nil)
	w.AddFile(d, libtree.IV(1), "b", nil)
	t.f.Perm = os.FileMode(vrt.Uint16("perm")) & 0777
	t.f.Mt = int64(vrt.Uint32("mtime"))
	return t
}

func last(w *libtree.World, dir string) *lib.Info {
	l := w.R.Dirs[dir]
	return l[len(l)-1].(*lib.Info)
}

func open(t *tree) *Session {
	h, err := handlers.DecryptHandler(libtree.Root, []byte(libtree.Password), 1, t.w.R)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	lib.ExitFails()
	s := serve(h)
	s.Greet()
	return s
}

func (t *tree) isFile(a Attrs) {
	vrt.Assert(a.Size == 10, "a file is shown with another size than it has")
	vrt.Assert(vrt.And(a.Mode == 0100000|uint32(t.f.Perm), a.Mtime == uint32(t.f.Mt)), "a file is shown with other attributes")
}

// A client opens a file, reads it at any offset, asks for attributes and closes it.
//
//verif:prop=C13,C14,C15,C22 reach=read,end
func H_file() {
	t := build()
	s := open(t)
	typ, b := s.Ask(3, Str("/f"), U32(1), U32(0))
	if typ != 102 {
		vrt.Fail("a file cannot be opened")
	}
	h, _ := Take(b)
	off, n := vrt.Uint64("off"), vrt.Choose("n", 0, 12)
	typ, b = s.Ask(5, Str(h), U64(off), U32(uint32(n)))
	if off >= 1<<63 {
		vrt.Assert(Failed(typ, b), "bytes before the beginning of a file were read")
	} else if off >= 10 {
		vrt.Assert(IsEOF(typ, b), "a read beyond the end did not report the end")
	} else {
		o := vrt.Concrete(int(off))
		want := 10 - o
		if want > n {
			want = n
		}
		vrt.Assert(typ == 103, "a file cannot be read")
		got, _ := Take(b)
		vrt.Assert(len(got) == want && vrt.EqString(got, string(t.data[o:o+want])), "a read returned other bytes")
		vrt.Reach("read")
	}
	typ, b = s.Ask(8, Str(h))
	vrt.Assert(typ == 105, "an open file has no attributes")
	a, _ := GetAttrs(b)
	t.isFile(a)
	typ, b = s.Ask(4, Str(h))
	vrt.Assert(typ == 101 && !Failed(typ, b), "a file cannot be closed")
	typ, b = s.Ask(5, Str(h), U64(0), U32(4))
	vrt.Assert(Failed(typ, b), "a closed file was read")
	vrt.Reach("end")
}

// A client lists directories of 0 to 5 (or 99 to 101, 200) entries: every entry once, in order,
// with its attributes, in pages as the server library makes them.
//
//verif:prop=C14,C15,C22 reach=end
func H_listing() {
	t := build()
	n := []int{0, 1, 2, 5, 99, 100, 101, 200}[vrt.Choose("entries", 0, 7)]
	d := t.w.AddDir(libtree.Root, libtree.IV(0), "many", libtree.IV(2))
	for i := 0; i < n; i++ {
		t.w.AddFile(d, libtree.IV(2), "e"+string(rune('0'+i/100))+string(rune('0'+i/10%10))+string(rune('0'+i%10)), nil)
	}
	var fi *lib.Info
	if n > 0 {
		fi = last(t.w, d)
		fi.Perm = os.FileMode(vrt.Uint16("perm2")) & 0777
		fi.Mt = int64(vrt.Uint32("mtime2"))
		fi.Sz = 18 + 32 + 1 + int64(vrt.Uint16("size2")&0xfff)
	}
	s := open(t)
	l := s.List("/")
	vrt.Assert(len(l) == 3 && l[0].Name == "f" && l[1].Name == "d" && l[2].Name == "many", "a listing shows other entries")
	t.isFile(l[0].Attrs)
	vrt.Assert(l[1].Mode&0170000 == 0040000 && l[2].Mode&0170000 == 0040000, "a directory is not shown as one")
	l = s.List("/many")
	vrt.Assert(len(l) == n, "a listing shows more or less than the entries of the directory")
	for i, e := range l {
		vrt.Assert(e.Name == "e"+string(rune('0'+i/100))+string(rune('0'+i/10%10))+string(rune('0'+i%10)), "a listing skips, repeats or reorders entries")
	}
	if n > 0 {
		e := l[n-1]
		vrt.Assert(e.Size == uint64(fi.Sz-50), "a file is shown with another size than it has")
		vrt.Assert(vrt.And(e.Mode == 0100000|uint32(fi.Perm), e.Mtime == uint32(fi.Mt)), "a file is shown with other attributes")
		typ, b := s.Ask(byte([]int{17, 7}[vrt.Choose("how", 0, 1)]), Str("/many/"+e.Name))
		vrt.Assert(typ == 105, "a file that is listed was not found")
		a, _ := GetAttrs(b)
		vrt.Assert(vrt.And(a.Size == e.Size, vrt.And(a.Mode == e.Mode, a.Mtime == e.Mtime)), "a listing and the attributes of its entries differ")
	}
	s.End()
	vrt.Reach("end")
}

// Any request of the protocol that would change something, with any open flags, attributes
// and target, on a path that exists or any other of one symbolic byte: it is refused, the
// remote is not asked for anything but what opening for reading needs, and everything
// reads as before.
//
//verif:prop=C13,C22 reach=refused,end
func H_changes() {
	t := build()
	s := open(t)
	p := []string{"/f", "/d", "/", "/d/a", "/new", ""}[vrt.Choose("path", 0, 5)]
	if p == "" {
		p = "/" + vrt.String("name", 1)
	}
	q := []string{"/g", "/f", "/d/x"}[vrt.Choose("target", 0, 2)]
	n := t.w.R.Ncalls()
	flags := vrt.Uint32("flags")
	at := [][]byte{U32(0), append(U32(1), U64(0)...), append(U32(4), U32(0)...), append(append(U32(8), U32(0)...), U32(1)...)}[vrt.Choose("attrs", 0, 3)]
	var typ byte
	var b []byte
	switch vrt.Choose("op", 0, 8) {
	case 0: // open for writing
		vrt.Assume(flags&(2|4|8|16) != 0)
		typ, b = s.Ask(3, Str(p), U32(flags), at)
		if !Failed(typ, b) {
			vrt.Fail("a file was opened for writing")
		}
		for _, h := range []string{"1", "0", ""} { // as if it had been opened
			typ, b = s.Ask(6, Str(h), U64(vrt.Uint64("off")), Str("data"))
			vrt.Assert(Failed(typ, b), "something was written")
		}
	case 1: // open with no access at all
		vrt.Assume(flags&31 == 0)
		typ, b = s.Ask(3, Str(p), U32(flags), at)
	case 2: // write to a file opened for reading
		typ, b = s.Ask(3, Str("/f"), U32(1), U32(0))
		h, _ := Take(b)
		n = t.w.R.Ncalls()
		typ, b = s.Ask(6, Str(h), U64(vrt.Uint64("off")), Str("data"))
		// the library answers with what the read of no bytes gives
		typ, b = s.Ask(10, Str(h), at)
		vrt.Assert(typ == 101 || typ == 103, "attributes were set")
		typ = 0
	case 3:
		typ, b = s.Ask(9, Str(p), at)
	case 4:
		typ, b = s.Ask(13, Str(p))
	case 5:
		typ, b = s.Ask(14, Str(p), at)
	case 6:
		typ, b = s.Ask(15, Str(p))
	case 7:
		typ, b = s.Ask(18, Str(p), Str(q))
	case 8:
		typ, b = s.Ask(20, Str(p), Str(q))
	}
	if typ != 0 {
		vrt.Assert(Failed(typ, b), "a request that would change the tree was reported as done")
		vrt.Reach("refused")
	}
	vrt.Assert(t.w.R.Ncalls() == n, "a refused request reached the remote")
	l := s.List("/")
	vrt.Assert(len(l) == 2 && l[0].Name == "f" && l[1].Name == "d", "a refused request changed a directory")
	t.isFile(l[0].Attrs)
	t.reads(s, "/f")
	s.End()
	vrt.Reach("end")
}

// reads reads the file through the session.
func (t *tree) reads(s *Session, p string) { s.Reads(p, t.data) }

// Two or three requests with handles that were given out, never given out, of failed opens, of
// directories or files, in any order: whatever they are, they are answered, and afterwards
// everything reads as before. A file is never read through a handle that is not open.
//
//verif:prop=C13,C22 reach=end
func H_handles() {
	t := build()
	s := open(t)
	fileOpen := ""
	switch vrt.Choose("first", 0, 3) {
	case 0:
		typ, _ := s.Ask(3, Str("/f"), U32(1), U32(0))
		vrt.Assert(typ == 102, "a file cannot be opened")
		fileOpen = "1"
	case 1:
		typ, b := s.Ask(3, Str("/missing"), U32(1), U32(0))
		vrt.Assert(Failed(typ, b), "something that does not exist was opened")
	case 2:
		typ, _ := s.Ask(11, Str("/d"))
		vrt.Assert(typ == 102, "a directory cannot be listed")
	case 3:
		typ, b := s.Ask(11, Str("/f"))
		vrt.Assert(Failed(typ, b), "a file was listed as a directory")
	}
	for i, n := 0, vrt.Bound(2, 3); i < n; i++ {
		h := []string{"1", "2", ""}[vrt.Choose("handle", 0, 2)]
		switch vrt.Choose("op", 0, 5) {
		case 0:
			typ, b := s.Ask(5, Str(h), U64(0), U32(32))
			if h == fileOpen && h != "" {
				vrt.Assert(typ == 103, "a file cannot be read")
				got, _ := Take(b)
				vrt.Assert(vrt.EqString(got, string(t.data)), "a read returned other bytes")
			} else {
				vrt.Assert(typ != 103, "a file was read that is not open")
			}
		case 1:
			s.Ask(6, Str(h), U64(0), Str("data"))
		case 2:
			typ, b := s.Ask(4, Str(h))
			if h == fileOpen && h != "" {
				vrt.Assert(typ == 101 && !Failed(typ, b), "a file cannot be closed")
				fileOpen = ""
			}
		case 3:
			s.Ask(12, Str(h))
		case 4:
			s.Ask(8, Str(h))
		case 5:
			s.Ask(10, Str(h), U32(0))
		}
	}
	l := s.List("/")
	vrt.Assert(len(l) == 2 && l[0].Name == "f" && l[1].Name == "d", "a directory is not listed as before")
	t.reads(s, "/f")
	s.End()
	vrt.Reach("end")
}

// Requests on any path of up to 3 (thorough: 4) symbolic bytes, absolute or not, clean or not: what
// is there is answered, the rest is an error, links cannot be read.
//
//verif:prop=C06,C13,C15,C22 reach=file,dir,missing,end
func H_paths() {
	t := build()
	s := open(t)
	p := vrt.String("path", vrt.Choose("len", 0, vrt.Bound(3, 4)))
	clean := path.Clean("/" + p)
	kind := 0
	switch clean {
	case "/f", "/d/a", "/d/b":
		kind = 1
		vrt.Reach("file")
	case "/", "/d":
		kind = 2
		vrt.Reach("dir")
	default:
		vrt.Reach("missing")
	}
	op := []byte{17, 7, 11, 3, 19, 16}[vrt.Choose("op", 0, 5)]
	typ, b := s.Ask(op, Str(p), U32(1), U32(0))
	switch op {
	case 17, 7:
		if kind == 0 {
			vrt.Assert(Failed(typ, b), "something that does not exist has attributes")
			break
		}
		vrt.Assert(typ == 105, "something that exists was not found")
		a, _ := GetAttrs(b)
		vrt.Assert((a.Mode&0170000 == 0040000) == (kind == 2), "files and directories are confused")
		if clean == "/f" {
			t.isFile(a)
		}
	case 11:
		vrt.Assert((typ == 102) == (kind == 2) && (typ == 102 || Failed(typ, b)), "a directory cannot be listed, or something else can")
		if typ == 102 {
			h, _ := Take(b)
			typ, b = s.Ask(12, Str(h))
			vrt.Assert(typ == 104, "a directory cannot be listed")
			l := GetNames(b)
			first := "f"
			if clean == "/d" {
				first = "a"
			}
			vrt.Assert(len(l) == 2 && l[0].Name == first, "another directory was listed")
		}
	case 3:
		vrt.Assert((typ == 102) == (kind == 1) && (typ == 102 || Failed(typ, b)), "a file cannot be opened, or something else can")
		if typ == 102 {
			h, _ := Take(b)
			typ, b = s.Ask(5, Str(h), U64(0), U32(32))
			if clean == "/f" {
				vrt.Assert(typ == 103 && vrt.EqString(string(b[4:]), string(t.data)), "a read returned other bytes")
			} else {
				vrt.Assert(IsEOF(typ, b), "an empty file has content")
			}
		}
	case 19:
		vrt.Assert(Failed(typ, b), "a link was read")
	case 16:
		vrt.Assert(typ == 104, "a path has no canonical form")
	}
	t.reads(s, "/f")
	s.End()
	vrt.Reach("end")
}

// Several requests sent before the first answer is read, by a client that then may go away:
// each is answered in turn with what it asked for, and the session ends when the client
// does.
//
//verif:prop=C08,C14,C22 reach=end
func H_pipelined() {
	t := build()
	s := open(t)
	typ, b := s.Ask(3, Str("/f"), U32(1), U32(0))
	vrt.Assert(typ == 102, "a file cannot be opened")
	h, _ := Take(b)
	n := vrt.Bound(3, 4)
	ops := make([]int, n)
	for i := range ops {
		ops[i] = vrt.Choose("op", 0, 4)
		switch ops[i] {
		case 0:
			s.Send(5, Str(h), U64(0), U32(4))
		case 1:
			s.Send(5, Str(h), U64(4), U32(12))
		case 2:
			s.Send(17, Str("/f"))
		case 3:
			s.Send(17, Str("/missing"))
		case 4:
			s.Send(11, Str("/d"))
		}
	}
	if vrt.Choose("leave", 0, 1) == 1 {
		s.Close()
		<-s.Done
		vrt.Reach("end")
		return
	}
	for i, op := range ops {
		typ, b := s.Answer(s.ID - uint32(n-1-i))
		switch op {
		case 0, 1:
			vrt.Assert(typ == 103 && vrt.EqString(string(b[4:]), string(t.data[4*op:4+6*op])), "a read returned other bytes")
		case 2:
			vrt.Assert(typ == 105, "a file that exists was not found")
			a, _ := GetAttrs(b)
			t.isFile(a)
		case 3:
			vrt.Assert(Failed(typ, b), "something that does not exist has attributes")
		case 4:
			vrt.Assert(typ == 102, "a directory cannot be listed")
		}
	}
	t.reads(s, "/f")
	s.End()
	vrt.Reach("end")
}
