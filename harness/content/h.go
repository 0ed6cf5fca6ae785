package content

import (
	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

func key() []byte {
	k := make([]byte, 32)
	for i := range k {
		k[i] = byte(i)
	}
	return k
}

func mk(bs uint64) (*contentenc.ContentEnc, *lib.Ideal) {
	lib.InstallCrypto()
	cc := cryptocore.New(key(), cryptocore.BackendGoGCM, 128, true, false)
	a := lib.NewIdeal(16)
	cc.AEADCipher = a
	return contentenc.New(cc, bs, false), a
}

// sealed is a block as it was written: for which file, at which position.
type sealed struct {
	id, plain, stored []byte
	no                uint64
}

// A file of 3 blocks (the last one short) and 2 blocks of another file are sealed at
// symbolic positions. The adversary returns any bytes of any length up to 3 blocks and 3
// bytes, for any file id and position. Every plaintext block that comes out was sealed
// for this very file and position, or stands for a hole.
//verif:prop=C01 reach=accepted,rejected shard=len:0..111
func H_decrypt_adversarial() {
	const bs, cbs = 4, 36
	be, _ := mk(bs)
	var recs []sealed
	for f, name := range []string{"id", "other"} {
		id := vrt.Bytes(name, 16)
		base := vrt.Uint64("base")
		var blocks [][]byte
		for i := 0; i < 3-f; i++ {
			n := bs
			if i == 2 {
				n = 2
			}
			blocks = append(blocks, vrt.Bytes("pt", n))
		}
		enc := be.EncryptBlocks(blocks, base, id)
		for i, b := range blocks {
			recs = append(recs, sealed{id, b, append([]byte{}, enc[i*cbs:i*cbs+len(b)+32]...), base + uint64(i)})
		}
	}
	n := vrt.Choose("len", 0, 3*cbs+3)
	// each block is one of the sealed ones (or zeros) with any bytes added
	ct := vrt.Bytes("delta", n)
	vrt.Prefer(vrt.EqBytes(ct, make([]byte, n)))
	for i := 0; i*cbs < n; i++ {
		sel := vrt.Byte("from")
		for j := 0; j < cbs && i*cbs+j < n; j++ {
			var src byte
			for k, r := range recs {
				if j < len(r.stored) {
					src = vrt.IteByte(sel == byte(k), r.stored[j], src)
				}
			}
			ct[i*cbs+j] ^= src
		}
	}
	wid := vrt.Bytes("wid", 16)
	wbase := vrt.Uint64("wbase")
	pt, err := be.DecryptBlocks(ct, wbase, wid)
	if err != nil {
		vrt.Reach("rejected")
		return
	}
	vrt.Reach("accepted")
	for i := 0; i*cbs < n; i++ {
		end := i*cbs + cbs
		if end > n {
			end = n
		}
		c := ct[i*cbs : end]
		pend := (i + 1) * bs
		if pend > len(pt) {
			pend = len(pt)
		}
		if i*bs > len(pt) {
			vrt.Fail("missing plaintext for an accepted block")
		}
		p := pt[i*bs : pend]
		ok := false
		for _, r := range recs {
			if len(r.plain) == len(p) && len(r.stored) == len(c) {
				ok = vrt.Or(ok, vrt.And(vrt.EqBytes(r.plain, p), vrt.And(r.no == wbase+uint64(i), vrt.And(vrt.EqBytes(r.id, wid), vrt.EqBytes(c, r.stored)))))
			}
		}
		hole := false
		if len(c) == cbs && len(p) == bs {
			hole = vrt.And(vrt.EqBytes(c, make([]byte, cbs)), vrt.EqBytes(p, make([]byte, bs)))
		}
		vrt.Assert(vrt.Or(ok, hole), "a block was accepted that was never sealed for this file and position")
	}
}

// One block of the real size is sealed for any file at any position. The adversary returns
// any bytes instead, of 8 lengths, for any file and position: what comes out was sealed for
// them, or stands for a hole.
//verif:prop=C01 reach=accepted,rejected shard=len:0..7 time=200
func H_any_block() {
	const bs, cbs = 4096, 4128
	be, _ := mk(bs)
	n := []int{cbs, cbs - 1, cbs - 100, 2064, 129, 65, 48, 33}[vrt.Choose("len", 0, 7)]
	id, no, pt := vrt.Bytes("id", 16), vrt.Uint64("no"), vrt.Bytes("pt", n-32)
	stored := append([]byte{}, be.EncryptBlock(pt, no, id)...)
	ct := vrt.Bytes("ct", n)
	sel := vrt.Bool("stored")
	for i := range ct {
		ct[i] = vrt.IteByte(sel, stored[i]^ct[i], ct[i])
	}
	orig := append([]byte{}, ct...)
	wid, wno := vrt.Bytes("wid", 16), vrt.Uint64("wno")
	p, err := be.DecryptBlock(ct, wno, wid)
	if err != nil {
		vrt.Reach("rejected")
		return
	}
	vrt.Reach("accepted")
	ok := len(p) == len(pt)
	if ok {
		ok = vrt.And(vrt.And(wno == no, vrt.EqBytes(id, wid)), vrt.And(vrt.EqBytes(orig, stored), vrt.EqBytes(p, pt)))
	}
	hole := false
	if n == cbs && len(p) == bs {
		hole = vrt.And(vrt.EqBytes(orig, make([]byte, n)), vrt.EqBytes(p, make([]byte, bs)))
	}
	vrt.Assert(vrt.Or(ok, hole), "a block was accepted that was never sealed for this file and position")
}
