// Package libsftp is an SFTP client that speaks version 3 of the protocol over a model channel.
package libsftp

import (
	"encoding/binary"
	"io"

	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

// Session is the channel between client and server.
type Session struct {
	In     chan []byte // to the server
	Out    chan []byte // packets of the server
	rest   []byte
	buf    []byte
	ID     uint32
	closed bool
	Done   chan error
}

// NewSession makes a channel.
func NewSession() *Session {
	return &Session{In: make(chan []byte, 64), Out: make(chan []byte, 64), Done: make(chan error, 1)}
}

func (s *Session) Read(b []byte) (int, error) {
	if len(s.rest) == 0 {
		d, ok := <-s.In
		if !ok {
			return 0, io.EOF
		}
		s.rest = d
	}
	n := copy(b, s.rest)
	s.rest = s.rest[n:]
	return n, nil
}

func (s *Session) Write(b []byte) (int, error) {
	if s.closed {
		return 0, io.ErrClosedPipe
	}
	s.buf = append(s.buf, b...)
	for len(s.buf) >= 4 {
		n := int(binary.BigEndian.Uint32(s.buf))
		if len(s.buf) < 4+n {
			break
		}
		s.Out <- append([]byte{}, s.buf[4:4+n]...)
		s.buf = s.buf[4+n:]
	}
	return len(b), nil
}

func (s *Session) Close() error {
	if !s.closed {
		s.closed = true
		close(s.In)
	}
	return nil
}

func U32(v uint32) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, v)
	return b
}

func U64(v uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b
}

func Str(s string) []byte { return append(U32(uint32(len(s))), s...) }

// Send sends a request and returns its number.
func (s *Session) Send(typ byte, body ...[]byte) uint32 {
	s.ID++
	p := append([]byte{typ}, U32(s.ID)...)
	for _, x := range body {
		p = append(p, x...)
	}
	s.In <- append(U32(uint32(len(p))), p...)
	return s.ID
}

// Answer waits for the answer to request id.
func (s *Session) Answer(id uint32) (byte, []byte) {
	p := <-s.Out
	vrt.Assert(len(p) >= 5 && binary.BigEndian.Uint32(p[1:]) == id, "a request was answered out of turn")
	return p[0], p[5:]
}

func (s *Session) Ask(typ byte, body ...[]byte) (byte, []byte) { return s.Answer(s.Send(typ, body...)) }

// Failed tells whether an answer is a status that reports an error.
func Failed(typ byte, b []byte) bool {
	return typ == 101 && binary.BigEndian.Uint32(b) != 0
}

func IsEOF(typ byte, b []byte) bool {
	return typ == 101 && binary.BigEndian.Uint32(b) == 1
}

func Take(b []byte) (string, []byte) {
	n := int(binary.BigEndian.Uint32(b))
	return string(b[4 : 4+n]), b[4+n:]
}

type Attrs struct {
	Size        uint64
	Mode, Mtime uint32
}

func GetAttrs(b []byte) (Attrs, []byte) {
	vrt.Assert(binary.BigEndian.Uint32(b) == 1|4|8, "attributes are missing")
	return Attrs{binary.BigEndian.Uint64(b[4:]), binary.BigEndian.Uint32(b[12:]), binary.BigEndian.Uint32(b[20:])}, b[24:]
}

// End closes the connection from the client's side and waits for the server to notice.
func (s *Session) End() {
	s.Close()
	<-s.Done
}

type Entry struct {
	Name string
	Attrs
}

func GetNames(b []byte) []Entry {
	n := int(binary.BigEndian.Uint32(b))
	b = b[4:]
	var l []Entry
	for i := 0; i < n; i++ {
		var e Entry
		e.Name, b = Take(b)
		_, b = Take(b)
		e.Attrs, b = GetAttrs(b)
		l = append(l, e)
	}
	vrt.Assert(len(b) == 0, "a listing has a tail")
	return l
}

func (s *Session) List(p string) []Entry {
	typ, b := s.Ask(11, Str(p))
	if typ != 102 {
		vrt.Fail("a directory cannot be listed")
	}
	h, _ := Take(b)
	var l []Entry
	for i := 0; ; i++ {
		if i > 300 {
			vrt.Fail("a listing does not end")
		}
		typ, b = s.Ask(12, Str(h))
		if IsEOF(typ, b) {
			break
		}
		vrt.Assert(typ == 104, "a listing ends with an error")
		n := GetNames(b)
		vrt.Assert(len(n) > 0, "a page of a listing is empty")
		l = append(l, n...)
	}
	typ, b = s.Ask(4, Str(h))
	vrt.Assert(typ == 101 && !Failed(typ, b), "a directory cannot be closed")
	return l
}

// Greet opens the session.
func (s *Session) Greet() {
	s.In <- append(U32(5), 1, 0, 0, 0, 3)
	p := <-s.Out
	vrt.Assert(p[0] == 2 && binary.BigEndian.Uint32(p[1:]) == 3, "a client was not greeted")
}

// Reads asserts that the file at p holds data.
func (s *Session) Reads(p string, data []byte) {
	typ, b := s.Ask(3, Str(p), U32(1), U32(0))
	if typ != 102 {
		vrt.Fail("a file cannot be opened any more")
	}
	h, _ := Take(b)
	typ, b = s.Ask(5, Str(h), U64(0), U32(32))
	if typ != 103 {
		vrt.Fail("a file cannot be read any more")
	}
	got, _ := Take(b)
	vrt.Assert(vrt.EqString(got, string(data)), "a file does not read as before")
}
