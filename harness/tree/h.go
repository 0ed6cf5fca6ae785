package tree

import (
	"os"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/libtree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

// sizes at which something changes: empty, one block, block boundaries, the pooled
// buffer's size (32 and 33 blocks) and beyond
var sizes = []int{0, 1, 2, 15, 16, 17, 18, 31, 32, 33, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12289,
	131071, 131072, 131073, 135167, 135168, 135169, 139264, 139265,
	196609, 262144, 262145, 524289, 1<<20 + 1}

// content returns n bytes: a symbolic prefix, suffix and one symbolic byte around
// each block boundary, a fixed pattern elsewhere.
func content(n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7+i>>8) | 1
	}
	k := 3
	if n < 6 {
		k = n
	}
	copy(d, vrt.Bytes("head", k))
	if n >= 6 {
		copy(d[n-3:], vrt.Bytes("tail", 3))
	}
	for b := 4096; b < n-4; b += 4096 {
		d[b-1] = vrt.Byte("edge")
		d[b] = vrt.Byte("edge")
	}
	return d
}

// Files of 31 sizes from 0 to 1 MiB (every block-count and buffer boundary up
// to 35 blocks, then some), with symbolic bytes at the ends and around every block boundary,
// read back exactly, twice.
//verif:prop=C02 reach=ok shard=size:0..30 time=200
func H_read_back() {
	n := sizes[vrt.Choose("size", 0, len(sizes)-1)]
	w := libtree.New(libtree.Flags)
	data := content(n)
	w.AddFile(libtree.Root, libtree.IV(0), "a.txt", w.Seal(libtree.FileID(1), data))
	w.AddFile(libtree.Root, libtree.IV(0), "b", w.Seal(libtree.FileID(2), []byte("other")))
	t, err := w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened: " + err.Error())
	}
	for i := 0; i < 2; i++ {
		got, err := t.ReadFile("/a.txt")
		if err != nil {
			vrt.Fail("a well-formed file could not be read")
		}
		vrt.Assert(len(got) == n, "a file read back with another length")
		vrt.Assert(vrt.EqBytes(got, data), "a file did not read back as it was written")
		o, err := t.ReadFile("/b")
		vrt.Assert(err == nil && vrt.EqBytes(o, []byte("other")), "a second file did not read back as it was written")
		vrt.Assert(vrt.EqBytes(got, data), "content handed out earlier changed afterwards")
	}
	vrt.Reach("ok")
}

// Files with holes: up to 3 full blocks, each a hole or data, and a tail of 0, 1 or
// 100 bytes.
//verif:prop=C02 reach=ok
func H_holes() {
	w := libtree.New(libtree.Flags)
	nb := vrt.Choose("blocks", 1, 3)
	tail := []int{0, 1, 100}[vrt.Choose("tail", 0, 2)]
	data := content(nb*4096 + tail)
	stored := w.Seal(libtree.FileID(1), data)
	for i := 0; i < nb; i++ {
		if vrt.Choose("hole", 0, 1) == 1 {
			for j := 0; j < 4096; j++ {
				data[i*4096+j] = 0
			}
			for j := 0; j < 4128; j++ {
				stored[18+i*4128+j] = 0
			}
		}
	}
	w.AddFile(libtree.Root, libtree.IV(0), "a.txt", stored)
	t, err := w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	got, err := t.ReadFile("/a.txt")
	if err != nil {
		vrt.Fail("a file with holes could not be read")
	}
	vrt.Assert(vrt.EqBytes(got, data), "a file with holes did not read back as it was written")
	vrt.Reach("ok")
}

// A file that was created but never written (header only) is empty.
//verif:prop=C02 reach=ok
func H_header_only() {
	w := libtree.New(libtree.Flags)
	id := vrt.Bytes("id", 16)
	vrt.Assume(!vrt.EqBytes(id, make([]byte, 16)))
	stored := append([]byte{0, 2}, id...)
	w.AddFile(libtree.Root, libtree.IV(0), "a.txt", stored)
	t, err := w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened")
	}
	got, err := t.ReadFile("/a.txt")
	vrt.Assert(err == nil, "a file that was created but never written could not be read")
	vrt.Assert(len(got) == 0, "a file that was created but never written has content")
	vrt.Reach("ok")
}

func openOrStop(w *libtree.World) interface {
	ReadFile(string) ([]byte, error)
	ReadDir(string) ([]os.FileInfo, error)
	Stat(string) (os.FileInfo, error)
} {
	t, err := w.Open(1)
	if err != nil {
		vrt.Stop()
	}
	return t
}

// Anything of up to 60 bytes in place of a file: reading it never crashes, and any
// content that comes out is the original (or empty).
//verif:prop=C03,C01 reach=err shard=len:0..60
func H_garbage_file() {
	lib.ExitFails()
	w := libtree.New(libtree.Flags)
	data := vrt.Bytes("data", 3)
	seal := w.Seal(libtree.FileID(1), data)
	n := vrt.Choose("len", 0, 60)
	d := vrt.Bytes("delta", n)
	for i := range d {
		if i < len(seal) {
			d[i] ^= seal[i]
		}
	}
	w.AddFile(libtree.Root, libtree.IV(0), "a.txt", d)
	t := openOrStop(w)
	got, err := t.ReadFile("/a.txt")
	if err == nil && len(got) > 0 {
		vrt.Assert(n == len(seal) && vrt.EqBytes(got, data), "altered file content was accepted")
		vrt.Reach("accepted")
	} else {
		vrt.Reach("err")
	}
}

// Two files, of 3 and 2 blocks. The remote returns the header of either one (or one with
// another version or file id) followed by up to 3 pieces, each any block of either file,
// a hole, a block cut short or a block with any one byte altered. The read succeeds only
// if every piece is the block of that file and position or a hole, and then returns
// exactly those blocks.
//verif:prop=C01 reach=accepted,rejected shard=hdr:0..3 time=200
func H_recomposed() {
	lib.ExitFails()
	w := libtree.New(libtree.Flags)
	plain := [][]byte{content(2*4096 + 100), content(4096 + 50)}
	var stored [2][]byte
	for f := range stored {
		stored[f] = w.Seal(libtree.FileID(f+1), plain[f])
	}
	blk := func(b []byte, i, n int) []byte {
		e := (i + 1) * n
		if e > len(b) {
			e = len(b)
		}
		return b[i*n : e]
	}
	head := vrt.Choose("hdr", 0, 3)
	var d []byte
	id := head
	switch head {
	case 0, 1:
		d = append(d, stored[head][:18]...)
	case 2:
		d = append(d, 0, 1)
		d = append(d, stored[0][2:18]...)
	case 3:
		x := vrt.Bytes("id", 16)
		vrt.Assume(!vrt.EqBytes(x, make([]byte, 16)))
		d = append(d, 0, 2)
		for i := range x {
			d = append(d, stored[0][2+i]^x[i])
		}
		vrt.Assume(!vrt.EqBytes(d[2:], stored[1][2:18]))
		vrt.Assume(!vrt.EqBytes(d[2:], make([]byte, 16)))
	}
	valid := head != 2
	var want []byte
	np := vrt.Choose("pieces", 0, 3)
	for i := 0; i < np; i++ {
		k := vrt.Choose("piece", 0, 7)
		switch {
		case k < 5:
			f, j := 0, k
			if k >= 3 {
				f, j = 1, k-3
			}
			d = append(d, blk(stored[f][18:], j, 4128)...)
			if f != id || j != i || k == 4 && i+1 < np {
				// not the block of this place, or a short block before the end
				valid = false
			}
			want = append(want, blk(plain[f], j, 4096)...)
		case k == 5:
			d = append(d, make([]byte, 4128)...)
			want = append(want, make([]byte, 4096)...)
		case k == 6:
			b := blk(stored[id&1][18:], i&1, 4128)
			d = append(d, b[:[]int{1, 32, len(b) - 1}[vrt.Choose("cut", 0, 2)]]...)
			valid = false
			i = np
		default:
			b := append([]byte{}, blk(stored[id&1][18:], i&1, 4128)...)
			x := vrt.Byte("flip")
			vrt.Assume(x != 0)
			b[[]int{0, 16, len(b) - 17, len(b) - 1}[vrt.Choose("at", 0, 3)]] ^= x
			d = append(d, b...)
			valid = false
		}
	}
	w.AddFile(libtree.Root, libtree.IV(0), "a.txt", d)
	t := openOrStop(w)
	got, err := t.ReadFile("/a.txt")
	if err != nil {
		vrt.Assert(len(got) == 0, "a failed read returned content")
		vrt.Assert(!valid, "a well-formed file could not be read")
		vrt.Reach("rejected")
		return
	}
	vrt.Assert(valid, "content that was never written to this file and position was accepted")
	if valid {
		vrt.Assert(vrt.EqBytes(got, want), "other content was returned than what was written")
		vrt.Reach("accepted")
	}
}

// A file of 8 to 65 (thorough: 257) blocks, one of which, anywhere, the remote alters in any byte, exchanges
// with another one or cuts out: it is not read. Left alone, it is.
//verif:prop=C01 reach=accepted,rejected shard=n:0..5/7 time=200 timet=1000
func H_many_blocks() {
	lib.ExitFails()
	w := libtree.New(libtree.Flags)
	n := []int{8, 31, 32, 33, 48, 65, 100, 257}[vrt.Choose("n", 0, 7)]
	plain := make([]byte, n*4096)
	for i := range plain {
		plain[i] = byte(i*7+i>>8) | 1
	}
	d := w.Seal(libtree.FileID(1), plain)
	at := []int{0, 1, n / 4, n/2 - 1, n / 2, n * 3 / 4, n - 2, n - 1}[vrt.Choose("at", 0, 7)]
	b := d[18+at*4128 : 18+(at+1)*4128]
	valid := false
	switch vrt.Choose("how", 0, 3) {
	case 0:
		x := vrt.Byte("flip")
		b[[]int{0, 2000, 4127, 15, 16, 4111}[vrt.Choose("byte", 0, vrt.Bound(2, 5))]] ^= x
		valid = x == 0
	case 1:
		o := (at + 1 + vrt.Choose("with", 0, 1)*(n/2)) % n
		c := d[18+o*4128 : 18+(o+1)*4128]
		for i := range b {
			b[i], c[i] = c[i], b[i]
		}
	case 2:
		copy(d[18+at*4128:], d[18+(at+1)*4128:])
		d = d[:len(d)-4128]
		valid = at == n-1 // the remote can always cut off whole blocks
		if valid {
			plain = plain[:len(plain)-4096]
		}
	case 3:
		o := (at + n/2) % n
		copy(b, d[18+o*4128:18+(o+1)*4128])
	}
	w.AddFile(libtree.Root, libtree.IV(0), "a.txt", d)
	t := openOrStop(w)
	got, err := t.ReadFile("/a.txt")
	if err != nil {
		vrt.Assert(len(got) == 0, "a failed read returned content")
		vrt.Assert(!valid, "a well-formed file could not be read")
		vrt.Reach("rejected")
		return
	}
	vrt.Assert(valid, "content that was never written to this file and position was accepted")
	vrt.Assert(vrt.EqBytes(got, plain), "other content was returned than what was written")
	vrt.Reach("accepted")
}

// Two files of 1 to 2 blocks read concurrently by two clients, every schedule (thorough:
// one of them read for the first time): both read back exactly.
//verif:prop=C02 sched reach=ok shard=size:0..2 time=400 timet=1500
func H_concurrent_reads() {
	w := libtree.New(libtree.Flags)
	n := []int{5, 4096, 4099}[vrt.Choose("size", 0, 2)]
	a, b := make([]byte, n), make([]byte, n)
	for i := range a {
		a[i], b[i] = byte(i)|1, byte(i)|2
	}
	copy(a[n-3:], vrt.Bytes("a", 3))
	copy(b[n-3:], vrt.Bytes("b", 3))
	w.AddFile(libtree.Root, libtree.IV(0), "a", w.Seal(libtree.FileID(1), a))
	w.AddFile(libtree.Root, libtree.IV(0), "b", w.Seal(libtree.FileID(2), b))
	t, err := w.Open(1)
	if err != nil {
		vrt.Fail("a well-formed file system could not be opened: " + err.Error())
	}
	// entries that are no encrypted names are looked at anew in every request: leave them
	// out to keep the schedules to what matters here
	w.R.Dirs[libtree.Root] = w.R.Dirs[libtree.Root][2:]
	t.ReadFile("/a")
	if vrt.Bound(0, 1) == 0 {
		t.ReadFile("/b")
	}
	vrt.WaitIdle()
	var wg sync.WaitGroup
	wg.Add(2)
	vrt.Sched(0, vrt.Bound(-1, 3))
	for i, want := range [][]byte{a, b} {
		p, want := "/"+string(rune('a'+i)), want
		go func() {
			got, err := t.ReadFile(p)
			if err != nil {
				vrt.Fail("a well-formed file could not be read")
			}
			vrt.Yield()
			vrt.Assert(vrt.EqBytes(got, want), "a file did not read back as it was written while another one was read")
			wg.Done()
		}()
	}
	wg.Wait()
	vrt.Reach("ok")
}
