package paths

import (
	"io"
	"os"
	"strings"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/libtree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
	"github.com/pkg/sftp"
)

// node is one entry of the plaintext tree.
type node struct {
	kids map[string]*node // nil: a file
	data string
	cdir string
	iv   []byte
}

func (n *node) dir() bool { return n.kids != nil }

type fixture struct {
	w     *libtree.World
	root  *node
	n     int
	asked []string
}

func newFixture() *fixture {
	w := libtree.New(libtree.Flags)
	return &fixture{w: w, root: &node{kids: map[string]*node{}, cdir: libtree.Root, iv: libtree.IV(0)}}
}

func (f *fixture) file(d *node, name, data string) {
	f.n++
	f.w.AddFile(d.cdir, d.iv, name, f.w.Seal(libtree.FileID(f.n), []byte(data)))
	d.kids[name] = &node{data: data}
}

func (f *fixture) mkdir(d *node, name string) *node {
	f.n++
	iv := libtree.IV(f.n)
	k := &node{kids: map[string]*node{}, iv: iv}
	k.cdir = f.w.AddDir(d.cdir, d.iv, name, iv)
	d.kids[name] = k
	return k
}

// small is a tree in which the same names mean different things in different places.
func small() *fixture {
	f := newFixture()
	a := f.mkdir(f.root, "a")
	b := f.mkdir(f.root, "b")
	f.file(f.root, "c", "C")
	f.file(a, "c", "AC")
	f.file(b, "c", "BC")
	ab := f.mkdir(a, "b")
	f.file(ab, "c", "ABC")
	f.file(ab, "a", "ABA")
	ba := f.mkdir(b, "a")
	f.file(ba, "c", "BAC")
	f.mkdir(ba, "b")
	f.file(f.root, "..c", "dots")
	f.file(f.root, ".c", "dot")
	return f
}

// split is the reference reading of a path: components from the root, "." and empty ones
// dropped, ".." removing the one before it and nothing at the root.
func split(p string) []string {
	var out []string
	cur := ""
	add := func() {
		switch cur {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, cur)
		}
		cur = ""
	}
	for i := 0; i < len(p); i++ {
		if p[i] == '/' {
			add()
		} else {
			cur += p[i : i+1]
		}
	}
	add()
	return out
}

// lookup finds the entry a path names, nil if there is none.
func (f *fixture) lookup(p string) *node {
	n := f.root
	for _, c := range split(p) {
		if n.kids == nil {
			return nil
		}
		var k *node
		for name, kid := range n.kids {
			if name == c {
				k = kid
			}
		}
		if k == nil {
			return nil
		}
		n = k
	}
	return n
}

// check compares the answers to one request path with the reference.
func (f *fixture) check(t *filetree.FileTree, p string, op int) {
	f.ask(t, p, op, false)
}

// ask does the same, but the request may fail if that is excused.
func (f *fixture) ask(t *filetree.FileTree, p string, op int, excused bool) (err error) {
	f.asked = append(f.asked, p)
	n := f.lookup(p)
	switch op {
	case 0:
		var d []byte
		d, err = t.ReadFile(p)
		if n == nil || n.dir() {
			vrt.Assert(err != nil && d == nil, "a file was found where there is none")
			return
		}
		if err != nil && excused {
			vrt.Assert(d == nil, "a failed request returned data")
			return
		}
		vrt.Assert(err == nil, "a file that exists was not found")
		vrt.Assert(string(d) == n.data, "a path led to another file")
		vrt.Reach("file")
	case 1:
		var d []os.FileInfo
		d, err = t.ReadDir(p)
		if n == nil || !n.dir() {
			vrt.Assert(err != nil && d == nil, "a directory was found where there is none")
			return
		}
		if err != nil && excused {
			vrt.Assert(d == nil, "a failed request returned data")
			return
		}
		vrt.Assert(err == nil, "a directory that exists was not found")
		ok := len(d) == len(n.kids)
		for _, fi := range d {
			k := n.kids[fi.Name()]
			ok = ok && k != nil && k.dir() == fi.IsDir()
		}
		vrt.Assert(ok, "a path led to another directory")
		vrt.Reach("dir")
	case 2:
		var fi os.FileInfo
		fi, err = t.Stat(p)
		if n == nil {
			vrt.Assert(err != nil && fi == nil, "something was found where there is nothing")
			return
		}
		if err != nil && excused {
			vrt.Assert(fi == nil, "a failed request returned data")
			return
		}
		vrt.Assert(err == nil, "an entry that exists was not found")
		vrt.Assert(fi.IsDir() == n.dir(), "a path led to another kind of entry")
		c := split(p)
		vrt.Assert(len(c) == 0 || fi.Name() == c[len(c)-1], "an entry was reported under another name")
		vrt.Assert(n.dir() || fi.Size() == int64(len(n.data)), "a path led to another entry")
	}
	return err
}

// concealed checks that the remote was told no name but those it holds and the encrypted
// form of one asked for.
func (f *fixture) concealed() {
	names := []string{"gocryptfs.diriv", "gocryptfs.conf"}
	for _, l := range f.w.R.Dirs {
		for _, fi := range l {
			names = append(names, fi.Name())
		}
	}
	for _, c := range f.w.R.Calls {
		p := c[strings.IndexByte(c, ' ')+1:]
		if p == libtree.Root {
			continue
		}
		vrt.Assert(strings.HasPrefix(p, libtree.Root+"/"), "the remote was told a path that is not below the encrypted root")
		for _, e := range strings.Split(p[len(libtree.Root)+1:], "/") {
			ok := false
			for _, n := range names {
				if len(n) == len(e) {
					ok = vrt.Or(ok, vrt.EqString(n, e))
				}
			}
			if !ok {
				ok = f.encrypted(e)
			}
			vrt.Assert(ok, "the remote was told a name that it does not hold")
		}
	}
	vrt.Reach("told")
}

// encrypted is whether e is the encrypted form of a name asked for in some directory.
func (f *fixture) encrypted(e string) bool {
	e = strings.TrimSuffix(e, ".name")
	ok := false
	for _, p := range f.asked {
		for _, c := range split(p) {
			for i := 0; i <= f.n; i++ {
				n := f.w.F.Name(c, libtree.IV(i))
				if len(n) > 255 {
					n = f.w.F.Hashed(n)
				}
				if len(n) == len(e) {
					ok = vrt.Or(ok, vrt.EqString(n, e))
				}
			}
		}
	}
	return ok
}

// contained checks that nothing outside the encrypted root was asked for.
func (f *fixture) contained() {
	f.concealed()
	for _, c := range f.w.R.Calls {
		p := c[strings.IndexByte(c, ' ')+1:]
		ok := p == libtree.Root || strings.HasPrefix(p, libtree.Root+"/")
		for _, e := range strings.Split(p, "/") {
			ok = ok && e != ".."
		}
		vrt.Assert(ok, "something outside the encrypted root was asked for")
	}
}

// Every absolute path of up to 5 (thorough: 7) bytes after the leading slash, all bytes
// symbolic, read, listed and examined in a tree with repeated names, twice.
//
//verif:prop=C06,C27 reach=file,dir,told shard=len:0..5/7 time=400 timet=2500
func H_any_path() {
	lib.ExitFails()
	f := small()
	p := "/" + vrt.String("path", vrt.Choose("len", 0, 7))
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	op := vrt.Choose("op", 0, 2)
	f.check(t, p, op)
	f.check(t, p, op)
	f.contained()
}

var odd = []string{"/", "/a", "/b", "/c", "/a/b", "/b/a", "/a/c", "/b/c", "/a/b/c", "/b/a/c", "/a/b/a", "/b/a/b",
	"//a//b/", "/a/../b/c", "/a/b/../../b/a/./c", "/../../c", "/x", "/a/x", "/x/c", "/c/c", "/c/..", "/a/c/../c", "/..c", "/.c", "/a/", "/c/", "/a/.", "/a/c/.", "/b/a/c/../"}

// Histories of 2 (thorough: 3) requests over 29 paths, each read, listed or examined: the
// answer to a path never depends on what was asked before.
//
//verif:prop=C06,C15,C27 reach=file,dir,told shard=first:0..28 time=300 timet=1500
func H_history() {
	lib.ExitFails()
	f := small()
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	f.check(t, odd[vrt.Choose("first", 0, len(odd)-1)], vrt.Choose("op", 0, 2))
	for i := 1; i < vrt.Bound(2, 3); i++ {
		f.check(t, odd[vrt.Choose("path", 0, len(odd)-1)], vrt.Choose("op", 0, 2))
	}
	f.check(t, "/a/b/c", 0)
	f.check(t, "/b/a/c", 0)
	f.contained()
}

// More directories than the path cache holds: 20 directories with a file each, visited
// once, then 2 (thorough: 3) more visits in any order.
//
//verif:prop=C06 reach=file time=300 timet=1500 shard=first:0..19
func H_many_dirs() {
	lib.ExitFails()
	f := newFixture()
	var ps []string
	for i := 0; i < 20; i++ {
		nm := "d" + string(rune('a'+i))
		d := f.mkdir(f.root, nm)
		f.file(d, "f", "in "+nm)
		ps = append(ps, "/"+nm+"/f")
	}
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	for _, p := range ps {
		f.check(t, p, 0)
	}
	f.check(t, ps[vrt.Choose("first", 0, 19)], 0)
	for i := 1; i < vrt.Bound(2, 3); i++ {
		f.check(t, ps[vrt.Choose("next", 0, 19)], 0)
	}
	for _, p := range ps {
		f.check(t, p, 0)
	}
}

// Directories nested up to 40 deep, all with the same name of 1, 30 or 170 bytes and with
// a file of the same name in each: 2 (thorough: 3) requests at any of 8 depths, read,
// listed or examined, each lead to what is at that depth.
//
//verif:prop=C06,C27 reach=file,dir shard=first:0..7 time=300 timet=1500
func H_deep() {
	lib.ExitFails()
	f := newFixture()
	name := strings.Repeat("d", []int{1, 30, 170}[vrt.Choose("name", 0, 2)])
	n := 40
	ps := []string{""}
	d := f.root
	for i := 1; i <= n; i++ {
		d = f.mkdir(d, name)
		f.file(d, "f", "at "+strings.Repeat("x", i))
		ps = append(ps, ps[i-1]+"/"+name)
	}
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	depths := []int{40, 1, 2, 15, 16, 17, 18, 33}
	at := depths[vrt.Choose("first", 0, 7)]
	for i := 0; i < vrt.Bound(2, 3); i++ {
		if i > 0 {
			at = depths[vrt.Choose("depth", 0, 7)]
		}
		op := vrt.Choose("op", 0, vrt.Bound(1, 2))
		p := ps[at]
		if op != 1 {
			p += "/f"
		}
		f.check(t, p, op)
	}
	f.check(t, ps[39]+"/f", 0)
	f.check(t, ps[3], 1)
	f.check(t, ps[17]+"/f", 2)
}

// Any of the first 12 remote calls fail, in one of several ways (also ones that look like a
// missing or finished file): the request reports an error or the right and complete answer,
// and the same request made again gives the right answer.
//
//verif:prop=C10,C06,C15,C27 reach=failed,ok shard=path:0..28 time=300
func H_remote_fails() {
	lib.ExitFails()
	f := small()
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	p := odd[vrt.Choose("path", 0, 28)]
	op := vrt.Choose("op", 0, 2)
	mask := vrt.Uint16("fails")
	errs := []error{os.ErrInvalid, os.ErrNotExist, io.EOF, &os.PathError{Op: "open", Path: p, Err: os.ErrPermission}, &sftp.StatusError{Code: 2}}
	e := errs[vrt.Choose("how", 0, len(errs)-1)]
	n, failed := 0, false
	f.w.R.Hook = func(string, string) error {
		n++
		if n <= 12 && mask>>uint(n-1)&1 == 1 {
			failed = true
			return e
		}
		return nil
	}
	err = f.ask(t, p, op, true)
	nd := f.lookup(p)
	exists := nd != nil && (op == 2 || nd.dir() == (op == 1))
	vrt.Assert(err == nil || failed || !exists, "a request failed although the remote answered every call")
	if err != nil {
		vrt.Reach("failed")
	} else {
		vrt.Reach("ok")
	}
	f.w.R.Hook = nil
	f.check(t, p, op)
	f.check(t, "/a/b/c", 0)
	f.concealed()
}

// One time-out (thorough: two) at any point of a request on a cold proxy: the request
// reports an error or the right and complete answer, never a shorter one, and the same
// request made again gives the right answer.
//
//verif:prop=C10,C15 sched nonative reach=failed,ok shard=op:0..2 time=300
func H_times_out() {
	lib.ExitFails()
	f := newFixture()
	f.file(f.root, "c", "C")
	a := f.mkdir(f.root, "a")
	f.file(a, "b", "AB")
	f.file(a, "c", "AC")
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	f.w.R.Dirs[libtree.Root] = f.w.R.Dirs[libtree.Root][2:]
	vrt.WaitIdle()
	op := vrt.Choose("op", 0, 2)
	vrt.Sched(vrt.Bound(1, 2), -1)
	switch op {
	case 0:
		var d []byte
		d, err = t.ReadFile("/a/c")
		vrt.Assert(err != nil || string(d) == "AC", "a request that timed out gave another answer")
	case 1:
		var l []os.FileInfo
		l, err = t.ReadDir("/a")
		vrt.Assert(err != nil || len(l) == 2, "entries are missing from a listing that is reported as complete")
	case 2:
		var i os.FileInfo
		i, err = t.Stat("/a/c")
		vrt.Assert(err != nil || i.Size() == 2, "a request that timed out gave another answer")
	}
	if err != nil {
		vrt.Assert(!strings.Contains(err.Error(), "not found"), "an entry is reported as missing because a request timed out")
		vrt.Reach("failed")
	} else {
		vrt.Reach("ok")
	}
	vrt.WaitIdle()
	vrt.NoTimers()
	f.check(t, []string{"/a/c", "/a", "/a/c"}[op], op)
}

// Two requests of two clients at once, every schedule (thorough: the second one on a cold part
// of the tree): each gets what its own path names, and so it stays.
//
//verif:prop=C06,C08 sched nonative reach=end shard=pair:0..4 time=300 timet=1500
func H_two_paths() {
	lib.ExitFails()
	f := newFixture()
	a := f.mkdir(f.root, "a")
	b := f.mkdir(f.root, "b")
	f.file(a, "c", "AC")
	f.file(b, "c", "B")
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	f.w.R.Dirs[libtree.Root] = f.w.R.Dirs[libtree.Root][2:]
	f.w.R.Dirs[a.cdir] = f.w.R.Dirs[a.cdir][1:]
	f.w.R.Dirs[b.cdir] = f.w.R.Dirs[b.cdir][1:]
	switch vrt.Choose("warm", vrt.Bound(1, 0), 3) {
	case 1:
		t.ReadDir("/")
	case 2:
		t.ReadFile("/a/c")
	case 3:
		t.ReadFile("/a/c")
		t.ReadFile("/b/c")
	}
	vrt.WaitIdle()
	pair := vrt.Choose("pair", 0, 4)
	vrt.Sched(0, -1)
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		p, q, n := []string{"/a", "/b"}[i], []string{"c", "c"}[i], 2-i
		op := []int{0, 1, 2, i, 2 * i}[pair]
		go func() {
			switch op {
			case 0:
				d, err := t.ReadFile(p + "/" + q)
				vrt.Assert(err == nil && len(d) == n, "a path led to another file while another client used another path")
			case 1:
				l, err := t.ReadDir(p)
				vrt.Assert(err == nil && len(l) == 1 && l[0].Name() == q && l[0].Size() == int64(n), "a path led to another directory while another client used another path")
			case 2:
				s, err := t.Stat(p + "/" + q)
				vrt.Assert(err == nil && s.Name() == q && s.Size() == int64(n), "a path led to another entry while another client used another path")
			}
			wg.Done()
		}()
	}
	wg.Wait()
	vrt.WaitIdle()
	f.check(t, "/a/c", 0)
	f.check(t, "/b/c", 2)
	vrt.Reach("end")
}

// A directory and a file in it with names of 1 or 2 and of 1 to 33 bytes, every
// byte symbolic: both are listed under exactly these names, found under them, and asked for
// inside the encrypted root only.
//
//verif:prop=C05,C06,C15,C27 reach=end,told shard=flen:0..6 time=300
func H_any_names() {
	lib.ExitFails()
	f := newFixture()
	dn, fn := vrt.Bytes("dir", vrt.Choose("dlen", 1, 2)), vrt.Bytes("file", []int{1, 2, 3, 15, 16, 17, 33}[vrt.Choose("flen", 0, 6)])
	vrt.Assume(legal(dn) && legal(fn))
	ds, fs := string(dn), string(fn)
	iv := libtree.IV(1)
	cd := f.w.AddDir(libtree.Root, libtree.IV(0), ds, iv)
	f.w.AddFile(cd, iv, fs, f.w.Seal(libtree.FileID(1), []byte("content")))
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	l, err := t.ReadDir("/")
	vrt.Assert(err == nil && len(l) == 1, "a directory was listed wrongly")
	vrt.Assert(vrt.EqString(l[0].Name(), ds) && l[0].IsDir(), "an entry was listed under another name")
	l, err = t.ReadDir("/" + ds)
	vrt.Assert(err == nil && len(l) == 1, "a directory was not found under its name")
	vrt.Assert(vrt.EqString(l[0].Name(), fs) && !l[0].IsDir() && l[0].Size() == 7, "an entry was listed under another name")
	d, err := t.ReadFile("/" + ds + "/" + fs)
	vrt.Assert(err == nil && string(d) == "content", "a file was not found under its name")
	fi, err := t.Stat("/" + ds + "/" + fs)
	vrt.Assert(err == nil && fi.Size() == 7 && vrt.EqString(fi.Name(), fs), "a file was not found under its name")
	f.contained()
	vrt.Reach("end")
}

// legal is whether s can be a file name.
func legal(s []byte) bool {
	ok := true
	for _, c := range s {
		ok = vrt.And(ok, vrt.And(c != 0, c != '/'))
	}
	if len(s) == 1 {
		ok = vrt.And(ok, s[0] != '.')
	}
	if len(s) == 2 {
		ok = vrt.And(ok, !vrt.And(s[0] == '.', s[1] == '.'))
	}
	return ok
}

// Names that look like stored ones, are special, long, or hold something that must not be
// taken for a separator, asked for in directories at three depths, existing or not: the
// remote is never told one of them.
//
//verif:prop=C27,C06 reach=told shard=name:0..13
func H_odd_names() {
	lib.ExitFails()
	f := small()
	names := []string{"gocryptfs.diriv", "gocryptfs.conf", "gocryptfs.longname.x", "gocryptfs.longname.x.name", "AAAAAAAAAAAAAAAAAAAAAA",
		"a\\b", "...", " ", "\x00", "%2e%2e", "..\\..", "secret name of a file", strings.Repeat("long", 45), strings.Repeat("long", 70)}
	n := names[vrt.Choose("name", 0, len(names)-1)]
	if vrt.Choose("there", 0, 1) == 1 && len(n) < 150 && n != "\x00" {
		f.file(f.root, n, "1")
		d := f.root.kids["a"]
		k := f.mkdir(d, n)
		f.file(k, n, "2")
		k = f.mkdir(f.mkdir(f.root.kids["b"], n), n)
		f.file(f.mkdir(k, n), n, "3")
	}
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	op := vrt.Choose("op", 0, 2)
	for i, p := range []string{"/" + n, "/a/" + n, "/a/" + n + "/" + n, "/c/" + n, "/a/b/" + n, "/nothing/" + n, "/b/" + n + "/" + n + "/" + n + "/" + n, "/b/" + n + "/" + n + "/a"} {
		f.check(t, p, op)
		f.check(t, p, (op+i)%3)
	}
	f.concealed()
}

// A tree of which the files, the directory IVs or the listings are damaged or missing:
// whatever the answers are, the remote is told no name that it does not hold.
//
//verif:prop=C27 reach=told shard=damage:0..6
func H_damaged() {
	lib.ExitFails()
	f := small()
	damage := vrt.Choose("damage", 0, 6)
	r := f.w.R
	for p := range r.Files {
		if p == libtree.Root+"/gocryptfs.conf" {
			continue
		}
		iv := strings.HasSuffix(p, "/gocryptfs.diriv")
		if iv && damage > 2 && damage < 6 && p != libtree.Root+"/gocryptfs.diriv" || !iv && damage <= 2 {
			b := append([]byte{}, r.Files[p]...)
			switch damage {
			case 0, 3:
				b[len(b)-1] ^= 1
			case 1, 4:
				b = b[:len(b)-1]
			case 2, 5:
				b = nil
			}
			r.Files[p] = b
		}
	}
	if damage == 6 {
		for d, l := range r.Dirs {
			n := append([]os.FileInfo{}, l...)
			for i := range n {
				e := *n[i].(*lib.Info)
				e.N += "A"
				n[i] = &e
			}
			r.Dirs[d] = n
		}
	}
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a file system could not be opened")
	}
	op := vrt.Choose("op", 0, 2)
	for _, p := range odd {
		f.asked = append(f.asked, p)
		switch op {
		case 0:
			t.ReadFile(p)
		case 1:
			t.ReadDir(p)
		case 2:
			t.Stat(p)
		}
	}
	f.concealed()
}

// Names of every length from 1 to 180 bytes and some longer, of something that is there or
// not, read, listed or examined: only what has a name like it is found, and the server is
// never asked for it in plain.
//
//verif:prop=C05,C06,C27 reach=told,file shard=from:0..5 time=300
func H_lengths() {
	lib.ExitFails()
	f := small()
	from := 1 + 30*vrt.Choose("from", 0, 5)
	there := vrt.Choose("there", 0, 1) == 1
	ls := []int{}
	for n := from; n < from+30; n++ {
		ls = append(ls, n)
	}
	if from == 151 {
		ls = ls[:26] // no file system holds names longer than these
		if !there {
			ls = append(ls, 176, 177, 180, 191, 192, 200, 239, 240, 254, 255, 256, 257, 300, 1000)
		}
	}
	for _, n := range ls {
		if there {
			s := strings.Repeat("N", n)
			f.file(f.root, s, "1")
			f.mkdir(f.root.kids["a"], s)
		}
	}
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	for i, n := range ls {
		s := strings.Repeat("N", n)
		f.check(t, "/"+s, i%3)
		f.check(t, "/a/"+s, (i+1)%3)
		f.check(t, "/a/"+s+"/x", i%3)
		f.check(t, "/"+s[1:]+"M", (i+2)%3)
	}
	f.concealed()
}

// Time passes between requests, of which one meets a failure of the remote: each is
// answered as the only one would be.
//
//verif:prop=C06,C10,C27 nonative reach=file,dir shard=first:0..28 time=300
func H_later_paths() {
	lib.ExitFails()
	f := small()
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	p := odd[vrt.Choose("first", 0, 28)]
	d := vrt.Pause("pause")
	n, fail := 0, vrt.Choose("fail", 0, 2)
	f.w.R.Hook = func(string, string) error {
		if n++; n == fail {
			return os.ErrNotExist
		}
		return nil
	}
	vrt.Elapse(d)
	f.ask(t, p, 0, true)
	f.w.R.Hook = nil
	vrt.Elapse(d)
	f.check(t, p, 0)
	vrt.Elapse(d)
	f.check(t, "/a", 1)
	f.check(t, p, 1)
	vrt.Elapse(d)
	f.check(t, p, 2)
	f.concealed()
}

// One of the first 10 remote calls fails with an error of any of 23 kinds: the request
// reports an error or the right and complete answer, and the next one gives the right answer.
//
//verif:prop=C10,C06,C15 reach=failed,ok shard=fail:1..10 time=300
func H_error_kinds() {
	lib.ExitFails()
	f := small()
	t, err := f.w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	fail := vrt.Choose("fail", 1, 10)
	es := lib.Failures()
	e := es[vrt.Choose("kind", 0, len(es)-1)]
	op := vrt.Choose("op", 0, 2)
	p := odd[(fail*7+op*3+5*vrt.Choose("path", 0, 5))%29]
	n := 0
	f.w.R.Hook = func(string, string) error {
		if n++; n == fail {
			return e
		}
		return nil
	}
	if f.ask(t, p, op, true) == nil {
		vrt.Reach("ok")
	} else {
		vrt.Reach("failed")
	}
	f.w.R.Hook = nil
	f.check(t, p, op)
	f.check(t, p, 2)
}
