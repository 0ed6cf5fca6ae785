package main

import "unicode/utf8"

// decodeRune is utf8.DecodeRune on the bytes at pos of a string; it forks on the form of
// the encoding, not on the value.
func (st *State) decodeRune(s Val, pos int) (*Term, int) {
	e := st.eng
	m := e.m
	n := e.strLen(s)
	at := func(i int) *Term { return e.strAt(s, pos+i) }
	b := at(0)
	if st.branch(m.Ult(b, m.Const(8, 0x80))) {
		return m.ZExt(b, 32), 1
	}
	bad := m.Const(32, utf8.RuneError)
	in := func(x *Term, lo, hi uint64) bool {
		return st.branch(m.And(m.Ule(m.Const(8, lo), x), m.Ule(x, m.Const(8, hi))))
	}
	part := func(x *Term, mask uint64, sh uint64) *Term {
		return m.Shl(m.ZExt(m.BAnd(x, m.Const(8, mask)), 32), m.Const(32, sh))
	}
	switch {
	case in(b, 0xC2, 0xDF):
		if pos+1 < n && in(at(1), 0x80, 0xBF) {
			return m.BOr(part(b, 0x1F, 6), part(at(1), 0x3F, 0)), 2
		}
	case in(b, 0xE0, 0xEF):
		lo, hi := uint64(0x80), uint64(0xBF)
		if st.branch(m.Eq(b, m.Const(8, 0xE0))) {
			lo = 0xA0
		} else if st.branch(m.Eq(b, m.Const(8, 0xED))) {
			hi = 0x9F
		}
		if pos+2 < n && in(at(1), lo, hi) && in(at(2), 0x80, 0xBF) {
			return m.BOr(m.BOr(part(b, 0x0F, 12), part(at(1), 0x3F, 6)), part(at(2), 0x3F, 0)), 3
		}
	case in(b, 0xF0, 0xF4):
		lo, hi := uint64(0x80), uint64(0xBF)
		if st.branch(m.Eq(b, m.Const(8, 0xF0))) {
			lo = 0x90
		} else if st.branch(m.Eq(b, m.Const(8, 0xF4))) {
			hi = 0x8F
		}
		if pos+3 < n && in(at(1), lo, hi) && in(at(2), 0x80, 0xBF) && in(at(3), 0x80, 0xBF) {
			return m.BOr(m.BOr(part(b, 0x07, 18), part(at(1), 0x3F, 12)), m.BOr(part(at(2), 0x3F, 6), part(at(3), 0x3F, 0))), 4
		}
	}
	return bad, 1
}

// encodeRune is the UTF-8 encoding of a rune of 32 bits.
func (st *State) encodeRune(r *Term) []*Term {
	m := st.eng.m
	ult := func(x uint64) bool { return st.branch(m.Ult(r, m.Const(32, x))) }
	bits := func(hi, lo uint8, tag uint64) *Term {
		return m.BOr(m.ZExt(m.Extract(r, hi, lo), 8), m.Const(8, tag))
	}
	if ult(0x80) {
		return []*Term{m.Extract(r, 7, 0)}
	}
	if ult(0x800) {
		return []*Term{bits(10, 6, 0xC0), bits(5, 0, 0x80)}
	}
	bad := []*Term{m.Const(8, 0xEF), m.Const(8, 0xBF), m.Const(8, 0xBD)}
	if ult(0x10000) {
		if st.branch(m.And(m.Ule(m.Const(32, 0xD800), r), m.Ule(r, m.Const(32, 0xDFFF)))) {
			return bad
		}
		return []*Term{bits(15, 12, 0xE0), bits(11, 6, 0x80), bits(5, 0, 0x80)}
	}
	if ult(0x110000) {
		return []*Term{bits(20, 18, 0xF0), bits(17, 12, 0x80), bits(11, 6, 0x80), bits(5, 0, 0x80)}
	}
	return bad
}
