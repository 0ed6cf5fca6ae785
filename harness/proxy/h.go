package proxy

import (
	"errors"
	"io"
	"os"
	"strconv"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/libtree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
	"github.com/pkg/sftp"
)

func open(w *libtree.World) sftp.Handlers {
	h, err := handlers.DecryptHandler(libtree.Root, []byte(libtree.Password), 1, w.R)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	lib.ExitFails()
	return h
}

var methods = []string{"Setstat", "Rename", "Rmdir", "Remove", "Mkdir", "Symlink"}

// Every request that would change something, on any path of up to 3 symbolic bytes: it is
// refused, the remote is not asked to do anything, and everything reads as before.
//verif:prop=C13 reach=end
func H_read_only() {
	w := libtree.New(libtree.Flags)
	w.AddFile(libtree.Root, libtree.IV(0), "f", w.Seal(libtree.FileID(1), []byte("data")))
	h := open(w)
	p := "/" + vrt.String("path", vrt.Choose("len", 0, 3))
	if vrt.Choose("known", 0, 1) == 1 {
		p = "/f"
	}
	req := &sftp.Request{Filepath: p, Target: "/" + vrt.String("target", 2), Flags: vrt.Uint32("flags"), Attrs: vrt.Bytes("attrs", vrt.Choose("nattrs", 0, 1)*4)}
	n := w.R.Ncalls()
	k := vrt.Choose("method", 0, len(methods)+1)
	if k < len(methods) {
		req.Method = methods[k]
		vrt.Assert(h.FileCmd.Filecmd(req) != nil, "a request that would change the tree was reported as done")
	} else {
		req.Method = []string{"Put", "Open"}[k-len(methods)]
		wr, err := h.FilePut.Filewrite(req)
		vrt.Assert(err != nil && wr == nil, "a file was opened for writing")
	}
	vrt.Assert(w.R.Ncalls() == n, "a refused request reached the remote")
	r, err := h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: "/f"})
	if err != nil {
		vrt.Fail("a file cannot be read any more")
	}
	b := make([]byte, 8)
	m, _ := r.ReadAt(b, 0)
	vrt.Assert(string(b[:m]) == "data", "a refused request changed a file")
	vrt.Reach("end")
}

// Reading a file of 10 bytes at any offset with buffers of 0 to 12 bytes.
//verif:prop=C14 reach=end
func H_read_at() {
	w := libtree.New(libtree.Flags)
	data := vrt.Bytes("data", 10)
	w.AddFile(libtree.Root, libtree.IV(0), "f", w.Seal(libtree.FileID(1), data))
	h := open(w)
	r, err := h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: "/f"})
	if err != nil {
		vrt.Fail("a file cannot be read")
	}
	b := make([]byte, vrt.Choose("buf", 0, 12))
	off := vrt.Int64("off")
	vrt.Assume(off >= 0)
	n, err := r.ReadAt(b, off)
	if off >= 10 {
		vrt.Assert(n == 0 && err == io.EOF, "a read beyond the end did not report the end")
	} else {
		o := vrt.Concrete(int(off))
		want := len(data) - o
		if want > len(b) {
			want = len(b)
		}
		vrt.Assert(n == want, "a read returned the wrong number of bytes")
		vrt.Assert(vrt.EqBytes(b[:n], data[o:o+want]), "a read returned other bytes")
		vrt.Assert((err == nil) == (n == len(b)) && (err == nil || err == io.EOF), "a short read was not reported as such")
	}
	vrt.Reach("end")
}

// Listings of 0 to 8 entries fetched in pages of 1 to 9: every entry once, in order, and
// the end is reported exactly when nothing is left.
//verif:prop=C14 reach=end
func H_pages() {
	w := libtree.New(libtree.Flags)
	n := vrt.Choose("entries", 0, 8)
	for i := 0; i < n; i++ {
		w.AddFile(libtree.Root, libtree.IV(0), "f"+string(rune('0'+i)), nil)
	}
	h := open(w)
	l, err := h.FileList.Filelist(&sftp.Request{Method: "List", Filepath: "/"})
	if err != nil {
		vrt.Fail("a directory cannot be listed")
	}
	page := vrt.Choose("page", 1, 9)
	got := 0
	for {
		b := make([]os.FileInfo, page)
		k, err := l.ListAt(b, int64(got))
		vrt.Assert(k >= 0 && k <= page && got+k <= n, "a page holds more entries than there are")
		for i := 0; i < k; i++ {
			vrt.Assert(b[i] != nil && b[i].Name() == "f"+string(rune('0'+got+i)), "a listing skips, repeats or reorders entries")
		}
		got += k
		if err != nil {
			vrt.Assert(err == io.EOF, "a listing ends with an error")
			vrt.Assert(got == n, "a listing ends before its last entry")
			break
		}
		if k == 0 {
			vrt.Fail("a listing does not end")
		}
	}
	vrt.Reach("end")
}

// A page of a listing of 3 entries at any offset.
//verif:prop=C14 reach=end
func H_page_at() {
	w := libtree.New(libtree.Flags)
	for i := 0; i < 3; i++ {
		w.AddFile(libtree.Root, libtree.IV(0), "f"+string(rune('0'+i)), nil)
	}
	h := open(w)
	l, err := h.FileList.Filelist(&sftp.Request{Method: "List", Filepath: "/"})
	if err != nil {
		vrt.Fail("a directory cannot be listed")
	}
	off := vrt.Int64("off")
	vrt.Assume(off >= 0)
	b := make([]os.FileInfo, vrt.Choose("page", 1, 4))
	k, err := l.ListAt(b, off)
	if off >= 3 {
		vrt.Assert(k == 0 && err == io.EOF, "a page beyond the end is not empty")
	} else {
		o := vrt.Concrete(int(off))
		for i := 0; i < k; i++ {
			vrt.Assert(b[i].Name() == "f"+string(rune('0'+o+i)), "a page holds other entries than asked for")
		}
		vrt.Assert(k == len(b) || o+k == 3, "a page is shorter than what is left")
		vrt.Assert(err == nil || err == io.EOF && o+k == 3, "a page reports the end too early")
	}
	vrt.Reach("end")
}

// Requests that cannot be served are answered with an error, not with nothing.
//verif:prop=C13 reach=end
func H_not_served() {
	w := libtree.New(libtree.Flags)
	w.AddFile(libtree.Root, libtree.IV(0), "f", nil)
	h := open(w)
	l, err := h.FileList.Filelist(&sftp.Request{Method: "Readlink", Filepath: "/f"})
	vrt.Assert(err != nil && l == nil, "a link that does not exist was read")
	for _, m := range []string{"List", "Stat"} {
		l, err = h.FileList.Filelist(&sftp.Request{Method: m, Filepath: "/x" + vrt.String("name", 1)})
		vrt.Assert(err != nil && l == nil, "something that does not exist was listed")
	}
	r, err := h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: "/x" + vrt.String("name", 1)})
	vrt.Assert(err != nil && r == nil, "something that does not exist was read")
	vrt.Reach("end")
}

// cipherSize is the stored size of a file of n bytes.
func cipherSize(n int64) int64 {
	if n == 0 {
		return 0
	}
	return 18 + n + (n+4095)/4096*32
}

// Metadata: a file of any plaintext size below 2^50 (only its stored size is visible to
// the proxy), any mode (permissions, links, pipes and other kinds that are no directories)
// and any time stamp, listed and examined.
//verif:prop=C15 reach=list,stat
func H_metadata() {
	w := libtree.New(libtree.Flags)
	d := w.AddDir(libtree.Root, libtree.IV(0), "d", libtree.IV(1))
	w.AddFile(d, libtree.IV(1), "f", nil)
	fi := w.R.Dirs[d][len(w.R.Dirs[d])-1].(*lib.Info)
	sz := vrt.Int64("size")
	vrt.Assume(vrt.And(sz >= 0, sz < 1<<50))
	fi.Sz = cipherSize(sz)
	fi.Perm = os.FileMode(vrt.Uint32("perm")) &^ os.ModeDir
	fi.Mt = int64(vrt.Uint32("mtime"))
	h := open(w)
	var got os.FileInfo
	buf := make([]os.FileInfo, 4)
	if vrt.Choose("how", 0, 1) == 0 {
		l, err := h.FileList.Filelist(&sftp.Request{Method: "List", Filepath: "/d"})
		if err != nil {
			vrt.Fail("a directory cannot be listed")
		}
		n, err := l.ListAt(buf, 0)
		vrt.Assert(n == 1 && err == io.EOF, "a listing shows more or less than the entries of the directory")
		vrt.Reach("list")
	} else {
		l, err := h.FileList.Filelist(&sftp.Request{Method: "Stat", Filepath: "/d/f"})
		if err != nil {
			vrt.Fail("a file that exists was not found")
		}
		n, _ := l.ListAt(buf, 0)
		vrt.Assert(n == 1, "examining a file gave no answer")
		vrt.Reach("stat")
	}
	got = buf[0]
	vrt.Assert(got.Name() == "f", "a file is shown under another name")
	vrt.Assert(vrt.Or(got.Size() == sz, fi.Perm&os.ModeType != 0), "a file is shown with another size than it has")
	vrt.Assert(got.Mode() == fi.Mode() && !got.IsDir(), "a file is shown with another mode")
	vrt.Assert(got.ModTime().Unix() == fi.Mt, "a file is shown with another time")
}

// The size shown for a file is the number of bytes that can be read from it, the content
// being what was stored.
//verif:prop=C15,C02 reach=end
func H_size_is_length() {
	w := libtree.New(libtree.Flags)
	n := []int{0, 1, 2, 4095, 4096, 4097, 8192, 8193}[vrt.Choose("n", 0, 7)]
	data := make([]byte, n)
	if n > 0 {
		data[n-1] = vrt.Byte("last")
	}
	stored := w.Seal(libtree.FileID(1), data)
	w.AddFile(libtree.Root, libtree.IV(0), "f", stored)
	vrt.Assert(int64(len(stored)) == cipherSize(int64(n)), "a file is stored with another size than the format says")
	h := open(w)
	buf := make([]os.FileInfo, 2)
	l, err := h.FileList.Filelist(&sftp.Request{Method: "Stat", Filepath: "/f"})
	if err != nil {
		vrt.Fail("a file that exists was not found")
	}
	l.ListAt(buf, 0)
	r, err := h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: "/f"})
	if err != nil {
		vrt.Fail("a file cannot be read")
	}
	b := make([]byte, n+1)
	k, err := r.ReadAt(b, 0)
	vrt.Assert(err == io.EOF && k == n && buf[0].Size() == int64(k), "the size shown for a file is not its length")
	vrt.Assert(vrt.EqBytes(b[:k], data), "a file did not read back as it was written")
	vrt.Reach("end")
}

var strays = []string{strings.Repeat("a", 255), strings.Repeat("a", 256), strings.Repeat("Q", 300),
	"gocryptfs.longname.47DEQpj8HBSa-_TImW-5JCeuQeRkm5NMpJWZG3hSuFU", "gocryptfs.longname.47DEQpj8HBSa-_TImW-5JCeuQeRkm5NMpJWZG3hSuFU.name",
	"gocryptfs.conf", "gocryptfs.conf.tmp", "gocryptfs.diriv", ".", "..", "lost+found", "\xff\xfe"}

// A directory with entries that are none of the tree's (the IV file, the configuration,
// any stray name of up to 4 bytes, names too long to be one of the tree's, left-overs of
// gocryptfs) shows its own entries only, in the remote's order, with
// directories as directories; times and modes of several entries are not mixed up.
//verif:prop=C15 reach=end
func H_foreign_entries() {
	w := libtree.New(libtree.Flags)
	w.AddFile(libtree.Root, libtree.IV(0), "one", nil)
	var stray string
	if k := vrt.Choose("len", 0, 4+len(strays)); k <= 4 {
		stray = vrt.String("stray", k)
	} else {
		stray = strays[k-5]
	}
	w.R.Dirs[libtree.Root] = append(w.R.Dirs[libtree.Root], &lib.Info{N: stray, Dir: vrt.Choose("dir", 0, 1) == 1})
	w.AddDir(libtree.Root, libtree.IV(0), "two", libtree.IV(1))
	w.AddFile(libtree.Root, libtree.IV(0), "three", nil)
	es := w.R.Dirs[libtree.Root]
	es[2].(*lib.Info).Mt = int64(vrt.Uint32("t1"))
	es[5].(*lib.Info).Mt = int64(vrt.Uint32("t2"))
	es[2].(*lib.Info).Perm = os.FileMode(vrt.Uint16("p1")) & 0777
	es[5].(*lib.Info).Perm = os.FileMode(vrt.Uint16("p2")) & 0777
	h := open(w)
	l, err := h.FileList.Filelist(&sftp.Request{Method: "List", Filepath: "/"})
	if err != nil {
		vrt.Fail("a directory cannot be listed")
	}
	buf := make([]os.FileInfo, 9)
	n, _ := l.ListAt(buf, 0)
	vrt.Assert(n == 3, "a listing shows more or less than the entries of the directory")
	if n != 3 {
		return
	}
	vrt.Assert(buf[0].Name() == "one" && buf[1].Name() == "two" && buf[2].Name() == "three", "a listing shows other names")
	vrt.Assert(!buf[0].IsDir() && buf[1].IsDir() && !buf[2].IsDir(), "a listing confuses files and directories")
	vrt.Assert(vrt.And(buf[0].ModTime().Unix() == es[2].(*lib.Info).Mt, buf[2].ModTime().Unix() == es[5].(*lib.Info).Mt), "a listing mixes up the times of its entries")
	vrt.Assert(vrt.And(buf[0].Mode() == es[2].Mode(), buf[2].Mode() == es[5].Mode()), "a listing mixes up the modes of its entries")
	vrt.Reach("end")
}

var errBoom = errors.New("boom")

// A remote error while listing, reading or examining is reported, never an empty result.
//verif:prop=C13 reach=end
func H_errors_surface() {
	w := libtree.New(libtree.Flags)
	w.AddFile(libtree.Root, libtree.IV(0), "f", w.Seal(libtree.FileID(1), []byte("data")))
	h := open(w)
	n, at := 0, vrt.Int("at", 0, 3)
	failed := false
	w.R.Hook = func(string, string) error {
		n++
		if n-1 == at {
			failed = true
			return errBoom
		}
		return nil
	}
	var err error
	var some bool
	switch vrt.Choose("op", 0, 2) {
	case 0:
		var r io.ReaderAt
		r, err = h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: "/f"})
		some = r != nil
	case 1:
		var l sftp.ListerAt
		l, err = h.FileList.Filelist(&sftp.Request{Method: "List", Filepath: "/"})
		some = l != nil
	case 2:
		var l sftp.ListerAt
		l, err = h.FileList.Filelist(&sftp.Request{Method: "Stat", Filepath: "/f"})
		some = l != nil
	}
	vrt.Assert((err != nil) == failed && some == (err == nil), "a failure of the remote was passed over, or a success reported as failure")
	vrt.Reach("end")
}

// The tree itself offers no way to change anything either.
//verif:prop=C13 reach=end
func H_tree_read_only() {
	w := libtree.New(libtree.Flags)
	w.AddFile(libtree.Root, libtree.IV(0), "f", w.Seal(libtree.FileID(1), []byte("data")))
	t, err := w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	p := []string{"/f", "/", "/new", "/f/x", ""}[vrt.Choose("path", 0, 4)]
	n := w.R.Ncalls()
	switch vrt.Choose("op", 0, 3) {
	case 0:
		_, err = t.WriteFile(p, []byte("x"))
	case 1:
		err = t.Mkdir(p)
	case 2:
		err = t.Rename(p, "/g")
	case 3:
		err = t.Remove(p)
	}
	vrt.Assert(err != nil, "a change that is not possible was reported as done")
	vrt.Assert(w.R.Ncalls() == n, "a refused change reached the remote")
	vrt.Reach("end")
}

// The handlers that pass requests on to another server are read-only, too.
//verif:prop=C13 nonative reach=end
func H_plain_proxy() {
	calls := 0
	var down error
	if vrt.Choose("down", 0, 1) == 1 {
		down = errors.New("down")
	}
	vrt.Override("(*github.com/pkg/sftp.Client).Open", func(c *sftp.Client, p string) (*sftp.File, error) {
		calls++
		if down != nil {
			return nil, down
		}
		return &sftp.File{}, nil
	})
	closed := 0
	short := vrt.Choose("short", 0, 1) == 1
	vrt.Override("(*github.com/pkg/sftp.File).WriteTo", func(f *sftp.File, w io.Writer) (int64, error) {
		w.Write([]byte("data"))
		if short {
			return 4, errors.New("interrupted")
		}
		return 4, nil
	})
	vrt.Override("(*github.com/pkg/sftp.File).Close", func(f *sftp.File) error { closed++; return nil })
	vrt.Override("(*github.com/pkg/sftp.Client).ReadDir", func(c *sftp.Client, p string) ([]os.FileInfo, error) {
		return []os.FileInfo{&lib.Info{N: "x"}, &lib.Info{N: "y"}}, down
	})
	vrt.Override("(*github.com/pkg/sftp.Client).Stat", func(c *sftp.Client, p string) (os.FileInfo, error) {
		return &lib.Info{N: p}, down
	})
	vrt.Override("(*github.com/pkg/sftp.Client).ReadLink", func(c *sftp.Client, p string) (string, error) {
		return "/target", down
	})
	h := handlers.ProxyHandler(&sftp.Client{})
	p := "/" + vrt.String("path", 2)
	for _, m := range methods {
		vrt.Assert(h.FileCmd.Filecmd(&sftp.Request{Method: m, Filepath: p, Target: "/t"}) != nil, "a request that would change the tree was reported as done")
	}
	wr, err := h.FilePut.Filewrite(&sftp.Request{Method: "Put", Filepath: p})
	vrt.Assert(err != nil && wr == nil, "a file was opened for writing")
	vrt.Assert(calls == 0, "a refused request reached the remote")
	r, err := h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: p})
	vrt.Assert((err == nil) == (down == nil && !short), "a failure to read was not reported")
	if err == nil {
		b := make([]byte, 9)
		n, _ := r.ReadAt(b, 0)
		vrt.Assert(string(b[:n]) == "data", "a file reads differently")
	}
	for _, m := range []string{"List", "Stat", "Readlink"} {
		l, err := h.FileList.Filelist(&sftp.Request{Method: m, Filepath: p})
		vrt.Assert((err == nil) == (down == nil), "a failure to list was not reported")
		if err == nil {
			b := make([]os.FileInfo, 3)
			n, e := l.ListAt(b, 0)
			want := map[string]string{"List": "x", "Stat": p, "Readlink": "/target"}[m]
			vrt.Assert(e == io.EOF && n >= 1 && vrt.EqString(b[0].Name(), want), "a listing shows something else")
		}
	}
	vrt.Reach("end")
}

// Reads at the block boundaries of files of 9000 bytes to 1 MiB, with buffers of every size a
// client uses.
//verif:prop=C14 reach=end
func H_read_large() {
	w := libtree.New(libtree.Flags)
	n := []int{9000, 70000, 150001, 1<<20 + 5}[vrt.Choose("n", 0, 3)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i>>8) ^ byte(i*5)
	}
	for _, i := range []int{0, 4095, 4096, 8191, 8192, n - 1} {
		data[i] = vrt.Byte("byte")
	}
	w.AddFile(libtree.Root, libtree.IV(0), "f", w.Seal(libtree.FileID(1), data))
	h := open(w)
	r, err := h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: "/f"})
	if err != nil {
		vrt.Fail("a file cannot be read")
	}
	off := []int{0, 1, 4095, 4096, 4097, 8191, 8192, n - 1, n, n + 1, n + 100000, n / 2}[vrt.Choose("off", 0, 11)]
	b := make([]byte, []int{1, 4096, 8192, 32768}[vrt.Choose("buf", 0, 3)])
	k, err := r.ReadAt(b, int64(off))
	want := 0
	if off < len(data) {
		want = len(data) - off
	}
	if want > len(b) {
		want = len(b)
	}
	vrt.Assert(k == want, "a read returns fewer or more bytes than there are")
	vrt.Assert(k == len(b) || err == io.EOF, "a short read does not report the end")
	vrt.Assert(err == nil || err == io.EOF && off+k >= len(data), "a read reports the end too early")
	if k > 0 {
		vrt.Assert(vrt.EqBytes(b[:k], data[off:off+k]), "a read returns other bytes than the file holds")
	}
	vrt.Reach("end")
}

// A listing of up to 4200 entries in pages of up to the size the protocol library asks for.
//verif:prop=C14,C15 reach=end shard=entries:0..8
func H_long_listing() {
	w := libtree.New(libtree.Flags)
	n := []int{99, 100, 101, 200, 230, 257, 513, 1030, vrt.Bound(2050, 4200)}[vrt.Choose("entries", 0, 8)]
	for i := 0; i < n; i++ {
		w.AddFile(libtree.Root, libtree.IV(0), "f"+strconv.Itoa(i), nil)
	}
	h := open(w)
	l, err := h.FileList.Filelist(&sftp.Request{Method: "List", Filepath: "/"})
	if err != nil {
		vrt.Fail("a directory cannot be listed")
	}
	page := []int{100, 64, 1000}[vrt.Choose("page", 0, 2)]
	got := 0
	for got <= n {
		b := make([]os.FileInfo, page)
		k, err := l.ListAt(b, int64(got))
		for i := 0; i < k; i++ {
			vrt.Assert(b[i].Name() == "f"+strconv.Itoa(got+i), "a long listing skips, repeats or reorders entries")
		}
		got += k
		vrt.Assert(k == page || got == n, "a page is shorter than what is left")
		if err != nil {
			vrt.Assert(err == io.EOF, "a listing ends with an error")
			break
		}
		if k == 0 {
			vrt.Fail("a listing does not end")
		}
	}
	vrt.Assert(got == n, "a long listing is not complete")
	l, err = h.FileList.Filelist(&sftp.Request{Method: "Stat", Filepath: "/f" + strconv.Itoa(n-1)})
	vrt.Assert(err == nil && l != nil, "the last entry of a long listing was not found")
	vrt.Reach("end")
}
