package encrypt

import (
	"io"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

// source is a random number generator whose output is recognisable: every 4 byte word of
// it occurs once.
type source struct {
	mu  sync.Mutex
	pos int
}

func install() *source {
	lib.InstallCrypto()
	s := &source{}
	rnd := func(b []byte) (int, error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		for i := range b {
			p := s.pos
			s.pos++
			switch p % 4 {
			case 0:
				b[i] = byte(p / 4)
			case 1:
				b[i] = byte(p/1024) + 7
			case 2:
				b[i] = 0xa5
			case 3:
				b[i] = byte(p/4*3 + 1)
			}
		}
		return len(b), nil
	}
	vrt.Override("crypto/rand.Read", rnd)
	vrt.Override("(crypto/internal/rand.reader).Read", func(_ struct{ R io.Reader }, b []byte) (int, error) { return rnd(b) })
	return s
}

// used keeps track of which random bytes were used.
type used struct {
	words map[uint32]bool
}

// take checks that a nonce consists of random bytes that were never used before.
func (u *used) take(nonce []byte) {
	vrt.Assert(len(nonce)%4 == 0, "a nonce has an odd length")
	for i := 0; i+4 <= len(nonce); i += 4 {
		w := nonce[i : i+4]
		// find the phase of the stream
		ok := w[2] == 0xa5 && w[3] == w[0]*3+1
		vrt.Assert(ok, "a nonce does not come from the random number generator")
		k := uint32(w[0]) | uint32(w[1])<<8
		vrt.Assert(!u.words[k], "random bytes were used for two nonces")
		u.words[k] = true
	}
}

func key(n int) []byte {
	k := make([]byte, 32)
	for i := range k {
		k[i] = byte(i*3 + n)
	}
	return k
}

func mk(bs uint64, ivBits int) *contentenc.ContentEnc {
	cc := cryptocore.New(key(1), cryptocore.BackendGoGCM, ivBits, true, false)
	return contentenc.New(cc, bs, false)
}

// Up to 70 blocks of 4 or 16 bytes (so that the last group of the parallel path has 0 or
// more left over), 1 to 4 processors, any file and first block: the result consists of the
// blocks in order, each sealed for its position with a nonce of its own.
//verif:prop=C20 nonative reach=parallel,serial shard=count:0..8
func H_blocks() {
	src := install()
	_ = src
	count := []int{1, 2, 31, 32, 33, 34, 47, 64, 70}[vrt.Choose("count", 0, 8)]
	cpus := vrt.Choose("cpus", 1, 4)
	vrt.Override("runtime.NumCPU", func() int { return cpus })
	vrt.Override("runtime.GOMAXPROCS", func(int) int { return cpus })
	bs := 16
	be := mk(uint64(bs), 128)
	id := vrt.Bytes("id", 16)
	first := vrt.Uint64("first")
	var blocks [][]byte
	for i := 0; i < count; i++ {
		n := bs
		if i == count-1 {
			n = []int{1, bs}[vrt.Choose("last", 0, 1)]
		}
		b := make([]byte, n)
		b[0] = byte(i)
		if i%16 == 0 || i == count-1 {
			b[n-1] = vrt.Byte("byte")
		}
		blocks = append(blocks, b)
	}
	u := &used{words: map[uint32]bool{}}
	out := be.EncryptBlocks(blocks, first, id)
	cbs := bs + 32
	vrt.Assert(len(out) == (count-1)*cbs+len(blocks[count-1])+32, "the encrypted blocks have the wrong size")
	for i, b := range blocks {
		c := out[i*cbs : i*cbs+len(b)+32]
		u.take(c[:16])
		p, err := be.DecryptBlock(c, first+uint64(i), id)
		vrt.Assert(err == nil, "a block was not sealed for its position")
		vrt.Assert(len(p) == len(b) && vrt.EqBytes(p, b), "a block holds something else")
	}
	if count >= 32 {
		vrt.Reach("parallel")
	} else {
		vrt.Reach("serial")
	}
}

// 2000 blocks one after another, with the nonce lengths of both uses mixed: no random byte
// is used twice.
//verif:prop=C20 nonative reach=end
func H_many() {
	install()
	be := []*contentenc.ContentEnc{mk(16, 128), mk(16, 96)}
	ivl := []int{16, 12}
	u := &used{words: map[uint32]bool{}}
	mix := vrt.Choose("mix", 0, 3)
	for i := 0; i < 2000; i++ {
		k := 0
		switch mix {
		case 1:
			k = 1
		case 2:
			k = i % 2
		case 3:
			k = i / 3 % 2
		}
		c := be[k].EncryptBlock([]byte{1}, uint64(i), nil)
		vrt.Assert(len(c) == 1+16+ivl[k], "an encrypted block has the wrong size")
		u.take(c[:ivl[k]])
	}
	vrt.Reach("end")
}

// Nonces that are held while further ones are drawn stay what they were: 150 nonces of both
// lengths, file header IDs in between, are all different at the end.
//verif:prop=C20 nonative reach=end
func H_held() {
	install()
	be := []*contentenc.ContentEnc{mk(16, 128), mk(16, 96)}
	mix := vrt.Choose("mix", 0, 2)
	var held [][]byte
	for i := 0; i < 150; i++ {
		k := []int{0, 1, i % 2}[mix]
		n := []int{16, 12}[k]
		cc := cryptocore.New(key(1), cryptocore.BackendGoGCM, n*8, true, false)
		if i%2 == 0 {
			held = append(held, cc.IVGenerator.Get())
		} else {
			held = append(held, be[k].EncryptBlock([]byte{1}, uint64(i), nil)[:n])
		}
		if i%50 == 7 {
			held = append(held, contentenc.RandomHeader().ID)
		}
	}
	u := &used{words: map[uint32]bool{}}
	for _, h := range held {
		u.take(h)
	}
	vrt.Reach("end")
}

// Two goroutines encrypting at once under every schedule, the second block of one of them
// crossing a refill: no nonce is used twice, every block opens.
//verif:prop=C20 sched nonative reach=end time=300
func H_concurrent() {
	install()
	be := mk(16, 128)
	// leave room for one or two nonces before the refill
	n := 31 + vrt.Choose("left", 0, 1)
	for i := 0; i < n-1; i++ {
		be.EncryptBlock([]byte{1}, 0, nil)
	}
	vrt.WaitIdle()
	u := &used{words: map[uint32]bool{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	wg.Add(2)
	vrt.Sched(0, vrt.Bound(-1, -1))
	for g := 0; g < 2; g++ {
		g := g
		go func() {
			for i := 0; i < 2; i++ {
				p := []byte{byte(g), byte(i)}
				c := be.EncryptBlock(p, uint64(i), nil)
				d, err := be.DecryptBlock(c, uint64(i), nil)
				if err != nil || len(d) != 2 || d[0] != p[0] || d[1] != p[1] {
					vrt.Fail("a block encrypted at the same time as another does not open")
				}
				mu.Lock()
				u.take(c[:16])
				mu.Unlock()
			}
			wg.Done()
		}()
	}
	wg.Wait()
	vrt.Reach("end")
}

// The parallel path under every schedule of its groups, with a small number of blocks per
// lock operation.
//verif:prop=C20 sched nonative reach=end time=300
func H_parallel() {
	install()
	cpus := vrt.Choose("cpus", 1, 2)
	vrt.Override("runtime.NumCPU", func() int { return cpus })
	be := mk(16, 128)
	var blocks [][]byte
	for i := 0; i < 33; i++ {
		blocks = append(blocks, []byte{byte(i)})
	}
	for i := 0; i < 32; i++ {
		b := make([]byte, 16)
		b[3] = byte(i)
		blocks[i] = b
	}
	vrt.WaitIdle()
	vrt.Sched(0, vrt.Bound(1, 2))
	out := be.EncryptBlocks(blocks, 5, nil)
	u := &used{words: map[uint32]bool{}}
	for i, b := range blocks {
		c := out[i*48 : i*48+len(b)+32]
		u.take(c[:16])
		p, err := be.DecryptBlock(c, uint64(5+i), nil)
		if err != nil || string(p) != string(b) {
			vrt.Fail("a block of a parallel encryption does not open at its position")
		}
	}
	vrt.Reach("end")
}

// File headers and keys are random, too.
//verif:prop=C20 nonative reach=end
func H_headers() {
	install()
	u := &used{words: map[uint32]bool{}}
	for i := 0; i < 3; i++ {
		h := contentenc.RandomHeader()
		b := h.Pack()
		vrt.Assert(len(b) == 18 && b[0] == 0 && b[1] == 2, "a new header is malformed")
		u.take(b[2:])
		u.take(cryptocore.RandBytes(32))
	}
	vrt.Reach("end")
}
