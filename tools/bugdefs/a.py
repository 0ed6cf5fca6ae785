bug("b01", "C01", "gocrypt/contentenc",
    [("gocrypt/contentenc/content.go", '''	aData = append(aData, fileID...)
	return aData''', '''	if blockNo&0xff == 0 {
		// The file id in the first block of a group already binds the group
		aData = append(aData, fileID...)
	}
	return aData''')],
    "two files of at least two blocks whose later blocks are exchanged by the remote",
    "blocks other than every 256th are no longer bound to their file: a block moved from another file is accepted",
    '''
package contentenc

import (
	"bytes"
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestZZDemo(t *testing.T) {
	cc := cryptocore.New(make([]byte, cryptocore.KeyLen), cryptocore.BackendGoGCM, DefaultIVBits, true, false)
	be := New(cc, DefaultBS, false)
	a := bytes.Repeat([]byte{1}, 16)
	b := bytes.Repeat([]byte{2}, 16)
	blk := func(c byte) []byte { return bytes.Repeat([]byte{c}, DefaultBS) }
	own := be.EncryptBlocks([][]byte{blk('a'), blk('b')}, 0, a)
	other := be.EncryptBlocks([][]byte{blk('c'), blk('d')}, 0, b)
	n := int(be.CipherBS())
	if _, err := be.DecryptBlocks(own, 0, a); err != nil {
		t.Fatal(err)
	}
	mixed := append(append([]byte{}, own[:n]...), other[n:2*n]...)
	if _, err := be.DecryptBlocks(mixed, 0, a); err == nil {
		t.Fatal("a block of another file was accepted")
	}
}
''')

bug("b02", "C05", "gocrypt/nametransform",
    [("gocrypt/nametransform/names.go", '''	if bytes.Equal(bin, []byte(".")) || bytes.Equal(bin, []byte("..")) {''', '''	if len(bin) <= 2 && bytes.HasSuffix(bin, []byte("..")) {''')],
    "a stored name that decrypts to a single dot",
    "a listed name may decrypt to '.', which then aliases the directory itself",
    '''
package nametransform

import (
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestZZDemo(t *testing.T) {
	cc := cryptocore.New(make([]byte, cryptocore.KeyLen), cryptocore.BackendGoGCM, 128, true, false)
	n := New(cc.EMECipher, true, true)
	iv := make([]byte, 16)
	for _, s := range []string{".", "..", "a/b", "a\\x00"} {
		if p, err := n.DecryptName(n.EncryptName(s, iv), iv); err == nil {
			t.Fatalf("%q was accepted", p)
		}
	}
}
''')

bug("b03", "C07", "filetree",
    [("filetree/fastcache.go", '''		f.refreshNode(d)
		d.PlaintextPath = pPath
		d.CiphertextPath = cPath
		f.count = f.cacheSize
		delete(f.storage, oldHeadPath)
		f.storage[pPath] = d''', '''		f.refreshNode(d)
		d.PlaintextPath = pPath
		f.count = f.cacheSize
		delete(f.storage, oldHeadPath)
		if d != f.head {
			d.CiphertextPath = cPath
		}
		f.storage[pPath] = d''')],
    "a cache of capacity one that replaces its only entry",
    "the replaced entry keeps the encrypted path of the previous directory",
    '''
package filetree

import "testing"

func TestZZDemo(t *testing.T) {
	f := NewFastCache(1)
	f.Store("/a", "/1")
	f.Store("/b", "/2")
	d, ok := f.Find("/b")
	if !ok || d.CiphertextPath != "/2" {
		t.Fatal("wrong directory", d, ok)
	}
}
''')

bug("b04", "C16", "gocrypt/contentenc",
    [("gocrypt/contentenc/offsets.go", '''	// Block number at last byte
	blockNo := be.CipherOffToBlockNo(cipherSize - 1)
	blockCount := blockNo + 1

	overhead := be.BlockOverhead()*blockCount + HeaderLen
''', '''	// Block number at last byte
	blockNo := be.CipherOffToBlockNo(cipherSize - 1)
	blockCount := blockNo + 1

	overhead := uint64(uint32(be.BlockOverhead()*blockCount)) + HeaderLen
''')],
    "a file of half a terabyte and more",
    "sizes of very large files are computed with a 32 bit overhead and come out too large",
    '''
package contentenc

import (
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestZZDemo(t *testing.T) {
	cc := cryptocore.New(make([]byte, cryptocore.KeyLen), cryptocore.BackendGoGCM, DefaultIVBits, true, false)
	be := New(cc, DefaultBS, false)
	for i := uint(0); i < 50; i++ {
		n := uint64(1)<<i + 1
		if be.CipherSizeToPlainSize(be.PlainSizeToCipherSize(n)) != n {
			t.Fatal(n)
		}
	}
}
''')
