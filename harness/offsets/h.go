package offsets

import (
	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

const overhead = 32
const header = 18

func mk(bs uint64) *contentenc.ContentEnc {
	return contentenc.New(&cryptocore.CryptoCore{IVLen: 16}, bs, false)
}

// Every plaintext size below 2^62, block size 4096: the stored size maps back to it.
//verif:prop=C16 reach=ok
func H_size_roundtrip() {
	be := mk(4096)
	p := vrt.Uint64("plain")
	vrt.Assume(p < 1<<62)
	c := be.PlainSizeToCipherSize(p)
	q := be.CipherSizeToPlainSize(c)
	vrt.Observe("c", c)
	vrt.Observe("q", q)
	vrt.Assert(q == p, "the plaintext size computed from the stored size differs from the original size")
	vrt.Reach("ok")
}

// Every stored size below 2^60, written as header + full blocks + rest: the computed
// plaintext size is what a file of that size can hold, and 0 for the empty file and
// the file with only a header.
//verif:prop=C16 reach=valid,short
func H_stored_size() {
	be := mk(4096)
	if vrt.Bool("tiny") {
		c := vrt.Uint64("stored")
		vrt.Assume(c <= header+overhead)
		vrt.Assert(be.CipherSizeToPlainSize(c) == 0, "a file too short to hold a byte has a size")
		vrt.Reach("short")
		return
	}
	full, rest := vrt.Uint64("full"), vrt.Uint64("rest")
	vrt.Assume(full < 1<<48 && rest < 4096+overhead)
	c := header + full*(4096+overhead) + rest
	q := be.CipherSizeToPlainSize(c)
	if rest != 0 && rest <= overhead {
		// ends inside the fixed part of a block: corrupt
		vrt.Assert(q <= full*4096, "a file that ends inside a block's fixed part shows more bytes than it can hold")
		return
	}
	want := full * 4096
	if rest > 0 {
		want += rest - overhead
	}
	vrt.Assert(q == want, "the plaintext size computed from a stored size is not what such a file holds")
	if want > 0 {
		vrt.Assert(be.PlainSizeToCipherSize(want) == c, "the stored size computed from a plaintext size differs from the original stored size")
	}
	vrt.Reach("valid")
}

// Sizes around every power of two and around every block boundary near them, up to
// 2^62, as concrete numbers: the conversions agree with the format.
//verif:prop=C16 reach=ok shard=exp:0..61
func H_boundaries() {
	be := mk(4096)
	base := uint64(1) << uint(vrt.Choose("exp", 0, 61))
	if vrt.Choose("odd", 0, 1) == 1 {
		base += base / 4096 / 3 * 4096
	}
	p := base + uint64(vrt.Choose("d", 0, 4)) - 2
	if p >= 1<<62 {
		return
	}
	n := (p + 4095) / 4096
	c := be.PlainSizeToCipherSize(p)
	want := uint64(0)
	if p > 0 {
		want = header + p + n*overhead
	}
	vrt.Assert(c == want, "the stored size of a file is not what the format says")
	vrt.Assert(be.CipherSizeToPlainSize(c) == p, "the plaintext size computed from the stored size differs from the original size")
	vrt.Reach("ok")
}

// The plaintext size grows with the stored size, and a stored size is never smaller
// than the plaintext. All sizes below 2^62.
//verif:prop=C16 reach=ok
func H_size_monotone() {
	be := mk(4096)
	p, q := vrt.Uint64("p"), vrt.Uint64("q")
	vrt.Assume(p < q && q < 1<<62)
	a, b := be.PlainSizeToCipherSize(p), be.PlainSizeToCipherSize(q)
	vrt.Assert(a < b, "a longer file has a stored size that is not longer")
	vrt.Assert(a >= p && b > q, "a stored size is smaller than the file")
	vrt.Reach("ok")
}

// Every block number below 2^48 and every offset below 2^60: block numbers and offsets
// convert consistently.
//verif:prop=C16,C17 reach=ok
func H_blockno() {
	be := mk(4096)
	n := vrt.Uint64("n")
	vrt.Assume(n < 1<<48)
	d := vrt.Uint64("d")
	vrt.Assume(d < 4096)
	po, co := be.BlockNoToPlainOff(n), be.BlockNoToCipherOff(n)
	vrt.Assert(po == n*4096, "a block's plaintext offset is wrong")
	vrt.Assert(co == header+n*(4096+overhead), "a block's stored offset is wrong")
	vrt.Assert(be.PlainOffToBlockNo(po+d) == n, "an offset inside a block maps to another block")
	vrt.Assert(be.CipherOffToBlockNo(co+d) == n, "a stored offset inside a block maps to another block")
	vrt.Assert(be.CipherOffToBlockNo(co+4096+overhead-1) == n, "the last stored byte of a block maps to another block")
	vrt.Assert(be.PlainBS() == 4096 && be.CipherBS() == 4096+overhead, "the block sizes are wrong")
	vrt.Reach("ok")
}

// Every plaintext range with an offset below 2^50 and a length of up to 3 blocks
// (thorough: 6): its parts are adjacent, each inside one block, and cover it exactly.
//verif:prop=C17 reach=ok,empty
func H_explode_plain() {
	be := mk(4096)
	off, ln := vrt.Uint64("off"), vrt.Uint64("len")
	vrt.Assume(off < 1<<50 && ln <= uint64(vrt.Bound(3, 6))*4096)
	bs := be.ExplodePlainRange(off, ln)
	if ln == 0 {
		vrt.Assert(len(bs) == 0, "an empty range has parts")
		vrt.Reach("empty")
		return
	}
	pos, left := off, ln
	for i := range bs {
		b := &bs[i]
		vrt.Assert(b.Length > 0 && b.Skip < 4096 && b.Skip+b.Length <= 4096, "a part of a range crosses a block boundary")
		vrt.Assert(b.BlockNo*4096+b.Skip == pos, "parts of a range are not adjacent")
		vrt.Assert(b.Length <= left, "parts of a range cover more than the range")
		vrt.Assert(b.IsPartial() == (b.Length < 4096), "a part is taken for a whole block or the reverse")
		vrt.Assert(b.BlockPlainOff() == b.BlockNo*4096 && b.BlockCipherOff() == header+b.BlockNo*(4096+overhead), "a part's block offsets are wrong")
		pos += b.Length
		left -= b.Length
	}
	vrt.Assert(left == 0, "parts of a range do not cover the range")
	o, l := bs[0].JointCiphertextRange(bs)
	vrt.Assert(o == header+off/4096*(4096+overhead), "the stored range of a read starts at the wrong place")
	vrt.Assert(o+l == header+((off+ln-1)/4096+1)*(4096+overhead), "the stored range of a read ends at the wrong place")
	o, l = contentenc.JointPlaintextRange(bs)
	vrt.Assert(o == off/4096*4096 && o+l == ((off+ln-1)/4096+1)*4096, "the plaintext range of a read is wrong")
	vrt.Reach("ok")
}

// Every stored range behind the header with an offset below 2^40 and a length of up to
// 3 blocks (thorough: 6).
//verif:prop=C17 reach=ok
func H_explode_cipher() {
	const cbs = 4096 + overhead
	be := mk(4096)
	off, ln := vrt.Uint64("off"), vrt.Uint64("len")
	vrt.Assume(off >= header && off < 1<<40 && ln > 0 && ln <= uint64(vrt.Bound(3, 6))*cbs)
	bs := be.ExplodeCipherRange(off, ln)
	pos, left := off, ln
	for i := range bs {
		b := &bs[i]
		vrt.Assert(b.Length > 0 && b.Skip < cbs && b.Skip+b.Length <= cbs, "a part of a stored range crosses a block boundary")
		vrt.Assert(header+b.BlockNo*cbs+b.Skip == pos, "parts of a stored range are not adjacent")
		vrt.Assert(b.Length <= left, "parts of a stored range cover more than the range")
		pos += b.Length
		left -= b.Length
	}
	vrt.Assert(left == 0, "parts of a stored range do not cover the range")
	vrt.Reach("ok")
}

// Blocks of 16 bytes: any old block, any new data and any position in the block.
//verif:prop=C17 reach=ok shard=old:0..16
func H_merge() {
	const bs = 16
	be := mk(bs)
	ol := vrt.Choose("old", 0, bs)
	off := vrt.Choose("off", 0, bs-1)
	nl := vrt.Choose("new", 0, bs-off)
	old, nw := vrt.Bytes("o", ol), vrt.Bytes("n", nl)
	oc := append([]byte{}, old...)
	out := be.MergeBlocks(old, nw, off)
	want := make([]byte, bs)
	copy(want, oc)
	copy(want[off:], nw)
	n := ol
	if off+nl > n {
		n = off + nl
	}
	vrt.Assert(len(out) == n, "a merged block has the wrong length")
	vrt.Assert(vrt.EqBytes(out, want[:n]), "a merged block has the wrong content")
	vrt.Assert(vrt.EqBytes(old, oc), "merging changed the old block")
	vrt.Reach("ok")
}

// Cropping: any part of a block of 16 bytes applied to any block of up to 16 bytes that
// reaches the part.
//verif:prop=C17 reach=ok shard=off:0..15
func H_crop() {
	const bs = 16
	be := mk(bs)
	off := vrt.Choose("off", 0, bs-1)
	ln := vrt.Choose("len", 1, bs-off)
	have := vrt.Choose("have", off, bs)
	parts := be.ExplodePlainRange(uint64(off), uint64(ln))
	vrt.Assert(len(parts) == 1, "a range inside one block has several parts")
	d := vrt.Bytes("d", have)
	out := parts[0].CropBlock(d)
	end := off + ln
	if end > have {
		end = have
	}
	vrt.Assert(len(out) == end-off && vrt.EqBytes(out, d[off:end]), "a cropped block has the wrong content")
	vrt.Reach("ok")
}
