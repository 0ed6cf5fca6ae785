package proxy

import (
	"io"
	"os"

	"github.com/flawedmatrix/gocryptsftp/zzverif/libtree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
	"github.com/pkg/sftp"
)

// page reads all of a listing.
func page(l sftp.ListerAt) []os.FileInfo {
	b := make([]os.FileInfo, 9)
	n, err := l.ListAt(b, 0)
	vrt.Assert(err == io.EOF || n == len(b), "a listing does not end")
	return b[:n]
}

// Three (thorough: four) requests of any kind for two files of any content, a directory, a file that is not
// one of the tree's any more, a missing entry or a missing directory, one after another;
// the remote fails one call, anywhere, of sequences of two (thorough: three), or none: every
// answer is that of the request alone, whatever was asked for before, refused or failed.
//verif:prop=C08,C13,C14,C15 reach=end,failed shard=first:0..5 time=300 timet=1500
func H_mixed_history() {
	w := libtree.New(libtree.Flags)
	data := [][]byte{vrt.Bytes("f", 4), vrt.Bytes("g", 5)}
	w.AddFile(libtree.Root, libtree.IV(0), "f", w.Seal(libtree.FileID(1), data[0]))
	d := w.AddDir(libtree.Root, libtree.IV(0), "d", libtree.IV(1))
	w.AddFile(d, libtree.IV(1), "g", w.Seal(libtree.FileID(2), data[1]))
	w.AddFile(libtree.Root, libtree.IV(0), "b", make([]byte, 60))
	h := open(w)
	paths := []string{"/f", "/d/g", "/d", "/b", "/x", "/x/y"}
	first := vrt.Choose("first", 0, 5)
	n := vrt.Bound(3, 4)
	fails := 0
	if vrt.Choose("faults", 0, 1) == 1 {
		n--
		at, calls := vrt.Choose("at", 0, 7), 0
		w.R.Hook = func(string, string) error {
			calls++
			if calls-1 == at {
				fails++
				return errBoom
			}
			return nil
		}
	}
	for i := 0; i < n; i++ {
		t := first
		if i > 0 {
			t = vrt.Choose("path", 0, 5)
		}
		p := paths[t]
		before := fails
		var err error
		ok := false // whether the request can be served
		switch op := vrt.Choose("op", 0, 3); op {
		case 0:
			var r io.ReaderAt
			r, err = h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: p})
			vrt.Assert((r == nil) == (err != nil), "a request was answered neither with a file nor with an error")
			ok = t < 2
			if err == nil && ok {
				b := make([]byte, 8)
				k, _ := r.ReadAt(b, 0)
				vrt.Assert(vrt.EqBytes(b[:k], data[t]), "a file reads as another one")
			}
		case 1, 2:
			m := []string{"List", "Stat"}[op-1]
			var l sftp.ListerAt
			l, err = h.FileList.Filelist(&sftp.Request{Method: m, Filepath: p})
			vrt.Assert((l == nil) == (err != nil), "a request was answered neither with entries nor with an error")
			ok = t == 2 || op == 2 && t < 4
			if err == nil && ok {
				e := page(l)
				vrt.Assert(len(e) == 1, "a listing shows more or less than there is")
				want := []string{"f", "g", "d", "b"}[t]
				if op == 1 {
					want = "g"
				}
				if len(e) == 1 {
					vrt.Assert(e[0].Name() == want && e[0].IsDir() == (want == "d"), "a listing shows something else")
				}
			}
		case 3:
			err = h.FileCmd.Filecmd(&sftp.Request{Method: methods[(i+t)%len(methods)], Filepath: p, Target: "/t"})
			vrt.Assert(err != nil, "a request that would change the tree was reported as done")
			continue
		}
		if !ok {
			vrt.Assert(err != nil, "a request that cannot be served was answered")
		} else {
			vrt.Assert((err != nil) == (fails > before), "a failure of the remote was passed over, or a success reported as failure")
		}
		if fails > before {
			vrt.Reach("failed")
		}
	}
	vrt.Reach("end")
}
