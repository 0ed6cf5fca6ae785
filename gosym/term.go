package main

// Hash-consed quantifier-free bit-vector terms with eager simplification.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLshr
	OpAshr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpConcat
	OpExtract // val = hi<<8|lo
	OpZExt
	OpSExt
	OpTab // a = index, c = the same as a tree of ites, val = number of the table
)

// Term is an immutable term. w == 0 means Bool.
type Term struct {
	op         Op
	w          uint8
	id         uint32
	val        uint64
	a, b, c    *Term
	name       string
	umin, umax uint64
	vars       []uint32 // sorted variable ids (computed lazily)
	varsDone   bool
	def        bool // defined in solver
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c uint32
	val     uint64
}

type TermMgr struct {
	tab    map[tkey]*Term
	n      uint32
	byVar  map[string]*Term
	varsBy []*Term // var terms by var index
	small  [65][]*Term
	tabs   [][]uint64
	tabBy  map[string]int
	True   *Term
	False  *Term
}

const smallN = 1024

func NewTermMgr() *TermMgr {
	m := &TermMgr{tab: map[tkey]*Term{}, byVar: map[string]*Term{}, tabBy: map[string]int{}}
	m.False = m.mk(tkey{op: OpConst, w: 0, val: 0}, nil, nil, nil, 0, 0)
	m.True = m.mk(tkey{op: OpConst, w: 0, val: 1}, nil, nil, nil, 1, 1)
	for _, w := range []uint8{8, 16, 32, 64} {
		n := smallN
		if w == 8 {
			n = 256
		}
		m.small[w] = make([]*Term, n)
		for i := 0; i < n; i++ {
			m.small[w][i] = m.mk(tkey{op: OpConst, w: w, val: uint64(i)}, nil, nil, nil, uint64(i), uint64(i))
		}
	}
	return m
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (m *TermMgr) mk(k tkey, a, b, c *Term, umin, umax uint64) *Term {
	k.a, k.b, k.c = tid(a), tid(b), tid(c)
	if t, ok := m.tab[k]; ok {
		return t
	}
	m.n++
	t := &Term{op: k.op, w: k.w, id: m.n, val: k.val, a: a, b: b, c: c, umin: umin, umax: umax}
	m.tab[k] = t
	return t
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (m *TermMgr) Const(w uint8, v uint64) *Term {
	v &= maskW(w)
	if w <= 64 && v < uint64(len(m.small[w])) {
		return m.small[w][v]
	}
	if w == 0 {
		if v&1 == 1 {
			return m.True
		}
		return m.False
	}
	return m.mk(tkey{op: OpConst, w: w, val: v}, nil, nil, nil, v, v)
}

func (m *TermMgr) Bool(b bool) *Term {
	if b {
		return m.True
	}
	return m.False
}

// Var creates (or returns) the variable of that name.
func (m *TermMgr) Var(name string, w uint8) *Term {
	if t, ok := m.byVar[name]; ok {
		if t.w != w {
			panic("var width mismatch " + name)
		}
		return t
	}
	m.n++
	mx := uint64(1)
	if w > 0 {
		mx = maskW(w)
	}
	t := &Term{op: OpVar, w: w, id: m.n, name: name, umin: 0, umax: mx, val: uint64(len(m.varsBy))}
	m.varsBy = append(m.varsBy, t)
	m.byVar[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (m *TermMgr) Not(a *Term) *Term {
	if a.isConst() {
		return m.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return m.mk(tkey{op: OpNot}, a, nil, nil, 0, 1)
}

func (m *TermMgr) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return m.False
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return m.False
	}
	return m.mk(tkey{op: OpAnd}, a, b, nil, 0, 1)
}

func (m *TermMgr) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return m.True
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return m.True
	}
	return m.mk(tkey{op: OpOr}, a, b, nil, 0, 1)
}

func (m *TermMgr) Eq(a, b *Term) *Term {
	if a == b {
		return m.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return m.False // hash-consed: distinct
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return m.Not(a)
		}
	} else {
		if a.umax < b.umin || b.umax < a.umin {
			return m.False
		}
		if b.isConst() {
			switch a.op {
			case OpTab:
				if r := m.tabEq(a, b.val); r != nil {
					return r
				}
			case OpZExt:
				return m.Eq(a.a, m.Const(a.a.w, b.val)) // range checked above
			case OpIte:
				if a.b.isConst() && a.c.isConst() {
					t, e := a.b.val == b.val, a.c.val == b.val
					switch {
					case t && e:
						return m.True
					case t:
						return a.a
					case e:
						return m.Not(a.a)
					default:
						return m.False
					}
				}
				// push into ite if one branch const
				if a.b.isConst() {
					if a.b.val == b.val {
						return m.Or(a.a, m.Eq(a.c, b))
					}
					return m.And(m.Not(a.a), m.Eq(a.c, b))
				}
				if a.c.isConst() {
					if a.c.val == b.val {
						return m.Or(m.Not(a.a), m.Eq(a.b, b))
					}
					return m.And(a.a, m.Eq(a.b, b))
				}
			case OpAdd:
				if a.b.isConst() {
					return m.Eq(a.a, m.Const(a.w, b.val-a.b.val))
				}
			case OpBXor:
				if a.b.isConst() {
					return m.Eq(a.a, m.Const(a.w, b.val^a.b.val))
				}
			case OpConcat:
				lo := a.b.w
				return m.And(m.Eq(a.a, m.Const(a.a.w, b.val>>lo)), m.Eq(a.b, m.Const(lo, b.val)))
			}
		} else {
			if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
				return m.Eq(a.a, b.a)
			}
			if a.op == OpConcat && b.op == OpConcat && a.a.w == b.a.w {
				return m.And(m.Eq(a.a, b.a), m.Eq(a.b, b.b))
			}
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return m.mk(tkey{op: OpEq}, a, b, nil, 0, 1)
}

func (m *TermMgr) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpNot {
		return m.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return m.Or(c, b)
		}
		if a.isFalse() {
			return m.And(m.Not(c), b)
		}
		if b.isTrue() {
			return m.Or(m.Not(c), a)
		}
		if b.isFalse() {
			return m.And(c, a)
		}
	}
	mn, mx := a.umin, a.umax
	if b.umin < mn {
		mn = b.umin
	}
	if b.umax > mx {
		mx = b.umax
	}
	return m.mk(tkey{op: OpIte, w: a.w}, c, a, b, mn, mx)
}

func (m *TermMgr) full(w uint8) (uint64, uint64) { return 0, maskW(w) }

func (m *TermMgr) Add(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return m.Const(w, a.val+b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OpAdd && a.b.isConst() {
			return m.Add(a.a, m.Const(w, a.b.val+b.val))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	mn, mx := m.full(w)
	hi, carry := bits.Add64(a.umax, b.umax, 0)
	if carry == 0 && hi <= maskW(w) {
		mn, mx = a.umin+b.umin, hi
	} else if b.isConst() && sext(b.val, w) < 0 {
		// a - k without borrow
		k := -b.val & maskW(w)
		if a.umin >= k {
			mn, mx = a.umin-k, a.umax-k
		}
	}
	return m.mk(tkey{op: OpAdd, w: w}, a, b, nil, mn, mx)
}

func (m *TermMgr) Sub(a, b *Term) *Term {
	w := a.w
	if a == b {
		return m.Const(w, 0)
	}
	if b.isConst() {
		return m.Add(a, m.Const(w, -b.val))
	}
	mn, mx := m.full(w)
	if a.umin >= b.umax {
		mn, mx = a.umin-b.umax, a.umax-b.umin
	}
	return m.mk(tkey{op: OpSub, w: w}, a, b, nil, mn, mx)
}

func (m *TermMgr) Mul(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return m.Const(w, a.val*b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	mn, mx := m.full(w)
	h, l := bits.Mul64(a.umax, b.umax)
	if h == 0 && l <= maskW(w) {
		mn, mx = a.umin*b.umin, l
	}
	return m.mk(tkey{op: OpMul, w: w}, a, b, nil, mn, mx)
}

func (m *TermMgr) UDiv(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.val != 0 {
		return m.Const(w, a.val/b.val)
	}
	if b.isConst() && b.val == 1 {
		return a
	}
	mn, mx := m.full(w)
	if b.isConst() && b.val != 0 {
		mn, mx = a.umin/b.val, a.umax/b.val
		if mn == mx {
			return m.Const(w, mn)
		}
	}
	return m.mk(tkey{op: OpUDiv, w: w}, a, b, nil, mn, mx)
}

func (m *TermMgr) URem(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.val != 0 {
		return m.Const(w, a.val%b.val)
	}
	mn, mx := m.full(w)
	if b.isConst() && b.val != 0 {
		if a.umax < b.val {
			return a
		}
		mx = b.val - 1
		if b.val&(b.val-1) == 0 {
			return m.BAnd(a, m.Const(w, b.val-1))
		}
	}
	return m.mk(tkey{op: OpURem, w: w}, a, b, nil, mn, mx)
}

func nonneg(t *Term) bool { return t.umax <= maskW(t.w)>>1 }

func (m *TermMgr) SDiv(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sext(a.val, w), sext(b.val, w)
		if y == -1 {
			return m.Const(w, uint64(-x))
		}
		return m.Const(w, uint64(x/y))
	}
	if nonneg(a) && nonneg(b) {
		return m.UDiv(a, b)
	}
	mn, mx := m.full(w)
	return m.mk(tkey{op: OpSDiv, w: w}, a, b, nil, mn, mx)
}

func (m *TermMgr) SRem(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sext(a.val, w), sext(b.val, w)
		if y == -1 {
			return m.Const(w, 0)
		}
		return m.Const(w, uint64(x%y))
	}
	if nonneg(a) && nonneg(b) {
		return m.URem(a, b)
	}
	mn, mx := m.full(w)
	return m.mk(tkey{op: OpSRem, w: w}, a, b, nil, mn, mx)
}

func nextPow2m1(x uint64) uint64 {
	if x == 0 {
		return 0
	}
	return ^uint64(0) >> uint(bits.LeadingZeros64(x))
}

func (m *TermMgr) BAnd(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return m.Const(w, a.val&b.val)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == maskW(w) {
			return a
		}
		// mask covering all possible bits
		if b.val&(b.val+1) == 0 && a.umax <= b.val {
			return a
		}
		if a.op == OpZExt && b.val <= maskW(a.a.w) {
			return m.ZExt(m.BAnd(a.a, m.Const(a.a.w, b.val)), w)
		}
		if a.op == OpBAnd && a.b.isConst() {
			return m.BAnd(a.a, m.Const(w, a.b.val&b.val))
		}
		if b.val&(b.val+1) == 0 {
			return m.ZExt(m.Extract(a, uint8(bits.Len64(b.val))-1, 0), w)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	mx := a.umax
	if b.umax < mx {
		mx = b.umax
	}
	return m.mk(tkey{op: OpBAnd, w: w}, a, b, nil, 0, mx)
}

func (m *TermMgr) BOr(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return m.Const(w, a.val|b.val)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == maskW(w) {
			return b
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if r := m.orSlices(a, b); r != nil {
		return r
	}
	mn := a.umin
	if b.umin > mn {
		mn = b.umin
	}
	return m.mk(tkey{op: OpBOr, w: w}, a, b, nil, mn, nextPow2m1(a.umax|b.umax))
}

func (m *TermMgr) BXor(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return m.Const(w, a.val^b.val)
	}
	if a == b {
		return m.Const(w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == maskW(w) {
			return m.BNot(a)
		}
		if a.op == OpBXor && a.b.isConst() {
			return m.BXor(a.a, m.Const(w, a.b.val^b.val))
		}
	} else if a.op == OpBXor || b.op == OpBXor {
		if r := m.xorChain(a, b); r != nil {
			return r
		}
		if a.id > b.id {
			a, b = b, a
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return m.mk(tkey{op: OpBXor, w: w}, a, b, nil, 0, nextPow2m1(a.umax|b.umax))
}

func (m *TermMgr) BNot(a *Term) *Term {
	if a.isConst() {
		return m.Const(a.w, ^a.val)
	}
	if a.op == OpBNot {
		return a.a
	}
	return m.mk(tkey{op: OpBNot, w: a.w}, a, nil, nil, maskW(a.w)-a.umax, maskW(a.w)-a.umin)
}

// Shl etc. take a shift amount of the same width; amounts >= w give 0 / sign.
func (m *TermMgr) Shl(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return m.Const(w, 0)
		}
		if a.isConst() {
			return m.Const(w, a.val<<b.val)
		}
		mn, mx := m.full(w)
		if a.umax <= maskW(w)>>b.val {
			mn, mx = a.umin<<b.val, a.umax<<b.val
		}
		return m.mk(tkey{op: OpShl, w: w}, a, b, nil, mn, mx)
	}
	mn, mx := m.full(w)
	return m.mk(tkey{op: OpShl, w: w}, a, b, nil, mn, mx)
}

func (m *TermMgr) Lshr(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return m.Const(w, 0)
		}
		if a.isConst() {
			return m.Const(w, a.val>>b.val)
		}
		mn, mx := a.umin>>b.val, a.umax>>b.val
		if mn == mx {
			return m.Const(w, mn)
		}
		if a.op == OpZExt && b.val < uint64(a.a.w) {
			return m.ZExt(m.Lshr(a.a, m.Const(a.a.w, b.val)), w)
		}
		return m.mk(tkey{op: OpLshr, w: w}, a, b, nil, mn, mx)
	}
	mn, mx := m.full(w)
	return m.mk(tkey{op: OpLshr, w: w}, a, b, nil, mn, mx)
}

func (m *TermMgr) Ashr(a, b *Term) *Term {
	w := a.w
	if nonneg(a) {
		return m.Lshr(a, b)
	}
	if a.isConst() && b.isConst() {
		s := b.val
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return m.Const(w, uint64(sext(a.val, w)>>s))
	}
	mn, mx := m.full(w)
	return m.mk(tkey{op: OpAshr, w: w}, a, b, nil, mn, mx)
}

func (m *TermMgr) Ult(a, b *Term) *Term {
	if a == b {
		return m.False
	}
	if a.umax < b.umin {
		return m.True
	}
	if a.umin >= b.umax {
		return m.False
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return m.Ult(a.a, b.a)
	}
	if a.op == OpZExt && b.isConst() { // b.val <= umax of a
		return m.Ult(a.a, m.Const(a.a.w, b.val))
	}
	if b.op == OpZExt && a.isConst() {
		return m.Ult(m.Const(b.a.w, a.val), b.a)
	}
	if b.isConst() && b.val == 1 {
		return m.Eq(a, m.Const(a.w, 0))
	}
	return m.mk(tkey{op: OpUlt}, a, b, nil, 0, 1)
}
func (m *TermMgr) Ule(a, b *Term) *Term { return m.Not(m.Ult(b, a)) }
func (m *TermMgr) Slt(a, b *Term) *Term {
	if a == b {
		return m.False
	}
	if a.isConst() && b.isConst() {
		return m.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return m.Ult(a, b)
	}
	neg := func(t *Term) bool { return t.umin > maskW(t.w)>>1 }
	if neg(a) && nonneg(b) {
		return m.True
	}
	if nonneg(a) && neg(b) {
		return m.False
	}
	if neg(a) && neg(b) {
		return m.Ult(a, b)
	}
	return m.mk(tkey{op: OpSlt}, a, b, nil, 0, 1)
}
func (m *TermMgr) Sle(a, b *Term) *Term { return m.Not(m.Slt(b, a)) }

func (m *TermMgr) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return m.Const(w, a.val<<b.w|b.val)
	}
	if a.isConst() && a.val == 0 {
		return m.ZExt(b, w)
	}
	// adjacent slices of one term
	if x, h, l, ok := slice(a); ok {
		if y, h2, l2, ok2 := slice(b); ok2 && x == y && l == h2+1 {
			return m.Extract(x, h, l2)
		}
		if b.op == OpConcat {
			if y, h2, l2, ok2 := slice(b.a); ok2 && x == y && l == h2+1 {
				return m.Concat(m.Extract(x, h, l2), b.b)
			}
		}
	}
	if a.op == OpConcat && w <= 64 {
		return m.Concat(a.a, m.Concat(a.b, b))
	}
	return m.mk(tkey{op: OpConcat, w: w}, a, b, nil, a.umin<<b.w|b.umin, a.umax<<b.w|b.umax)
}

func (m *TermMgr) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return m.Const(w, a.val>>lo)
	}
	switch a.op {
	case OpZExt:
		if hi < a.a.w {
			return m.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return m.Const(w, 0)
		}
		if lo == 0 {
			return m.ZExt(a.a, w)
		}
		return m.ZExt(m.Extract(a.a, a.a.w-1, lo), w)
	case OpSExt:
		if hi < a.a.w {
			return m.Extract(a.a, hi, lo)
		}
	case OpConcat:
		if hi < a.b.w {
			return m.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return m.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
		return m.Concat(m.Extract(a.a, hi-a.b.w, 0), m.Extract(a.b, a.b.w-1, lo))
	case OpTab:
		vs := m.tabs[a.val]
		nv := make([]uint64, len(vs))
		for i, v := range vs {
			nv[i] = v >> lo & maskW(w)
		}
		return m.Tab(a.a, nv, w)
	case OpIte:
		if a.b.isConst() || a.c.isConst() {
			return m.Ite(a.a, m.Extract(a.b, hi, lo), m.Extract(a.c, hi, lo))
		}
	case OpExtract:
		l0 := uint8(a.val & 0xff)
		return m.Extract(a.a, hi+l0, lo+l0)
	case OpBAnd, OpBOr, OpBXor:
		x, y := m.Extract(a.a, hi, lo), m.Extract(a.b, hi, lo)
		switch a.op {
		case OpBAnd:
			return m.BAnd(x, y)
		case OpBOr:
			return m.BOr(x, y)
		default:
			return m.BXor(x, y)
		}
	case OpLshr:
		if a.b.isConst() && uint64(hi)+a.b.val < uint64(a.w) {
			s := uint8(a.b.val)
			return m.Extract(a.a, hi+s, lo+s)
		}
	case OpShl:
		if a.b.isConst() {
			s := uint8(a.b.val)
			if lo >= s {
				return m.Extract(a.a, hi-s, lo-s)
			}
			if hi < s {
				return m.Const(w, 0)
			}
			return m.Concat(m.Extract(a.a, hi-s, 0), m.Const(s-lo, 0))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			x, y := m.Extract(a.a, hi, 0), m.Extract(a.b, hi, 0)
			switch a.op {
			case OpAdd:
				return m.Add(x, y)
			case OpSub:
				return m.Sub(x, y)
			default:
				if a.b.isConst() {
					return m.Mul(x, y)
				}
			}
		}
	}
	mn, mx := m.full(w)
	if lo == 0 && a.umax <= maskW(w) {
		mn, mx = a.umin, a.umax
	}
	return m.mk(tkey{op: OpExtract, w: w, val: uint64(hi)<<8 | uint64(lo)}, a, nil, nil, mn, mx)
}

func (m *TermMgr) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return m.Const(w, a.val)
	}
	if a.op == OpZExt {
		return m.ZExt(a.a, w)
	}
	if a.op == OpIte && (a.b.isConst() && a.c.isConst()) {
		return m.Ite(a.a, m.ZExt(a.b, w), m.ZExt(a.c, w))
	}
	return m.mk(tkey{op: OpZExt, w: w}, a, nil, nil, a.umin, a.umax)
}

func (m *TermMgr) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return m.Const(w, uint64(sext(a.val, a.w)))
	}
	if nonneg(a) {
		return m.ZExt(a, w)
	}
	mn, mx := m.full(w)
	return m.mk(tkey{op: OpSExt, w: w}, a, nil, nil, mn, mx)
}

// slice views t as bits hi..lo of another term.
func slice(t *Term) (x *Term, hi, lo uint8, ok bool) {
	switch t.op {
	case OpExtract:
		return t.a, uint8(t.val >> 8), uint8(t.val & 0xff), true
	case OpVar, OpTab:
		return t, t.w - 1, 0, t.w > 0
	}
	return nil, 0, 0, false
}

// orSlices splits a disjunction along the parts of a concatenation if that leaves
// nothing to disjoin.
func (m *TermMgr) orSlices(a, b *Term) *Term {
	if a.op != OpConcat {
		a, b = b, a
	}
	if a.op != OpConcat {
		return nil
	}
	lo := a.b.w
	bh, bl := m.Extract(b, a.w-1, lo), m.Extract(b, lo-1, 0)
	zero := func(t *Term) bool { return t.isConst() && t.val == 0 }
	if (zero(bh) || zero(a.a)) && (zero(bl) || zero(a.b)) {
		return m.Concat(m.BOr(a.a, bh), m.BOr(a.b, bl))
	}
	return nil
}

// xorChain rebuilds an exclusive or in a canonical order without what cancels.
func (m *TermMgr) xorChain(a, b *Term) *Term {
	w := a.w
	var c uint64
	var ts []*Term
	n := 0
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		n++
		if n > 40 {
			return false
		}
		switch {
		case t.isConst():
			c ^= t.val
		case t.op == OpBXor:
			return rec(t.a) && rec(t.b)
		case t.op == OpBNot:
			c ^= maskW(w)
			return rec(t.a)
		default:
			for i, x := range ts {
				if x == t {
					ts = append(ts[:i], ts[i+1:]...)
					return true
				}
			}
			ts = append(ts, t)
		}
		return true
	}
	if !rec(a) || !rec(b) {
		return nil
	}
	c &= maskW(w)
	if len(ts) == 0 {
		return m.Const(w, c)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	r := ts[0]
	for _, t := range ts[1:] {
		r = m.mk(tkey{op: OpBXor, w: w}, r, t, nil, 0, nextPow2m1(r.umax|t.umax))
	}
	return m.BXor(r, m.Const(w, c))
}

// Tab is entry idx of a table of constants; idx is known to be in range.
func (m *TermMgr) Tab(idx *Term, vs []uint64, w uint8) *Term {
	for idx.op == OpZExt {
		idx = idx.a
	}
	if idx.isConst() {
		return m.Const(w, vs[idx.val])
	}
	if idx.op == OpTab {
		in := m.tabs[idx.val]
		nv := make([]uint64, len(in))
		for i, v := range in {
			if v < uint64(len(vs)) {
				nv[i] = vs[v]
			}
		}
		return m.Tab(idx.a, nv, w)
	}
	if idx.umax < uint64(len(vs)) {
		vs = vs[:idx.umax+1]
	}
	nb := uint8(bits.Len(uint(len(vs) - 1)))
	if nb < idx.w {
		if nb == 0 {
			return m.Const(w, vs[0])
		}
		idx = m.Extract(idx, nb-1, 0)
		for idx.op == OpZExt {
			idx = idx.a
		}
		if idx.isConst() || idx.op == OpTab {
			return m.Tab(idx, vs, w)
		}
		nb = idx.w
	}
	same, ident := true, true
	mn, mx := vs[0], vs[0]
	for i, v := range vs {
		same = same && v == vs[0]
		ident = ident && v == uint64(i)
		if v < mn {
			mn = v
		}
		if v > mx {
			mx = v
		}
	}
	if same {
		return m.Const(w, vs[0])
	}
	if ident {
		if idx.w <= w {
			return m.ZExt(idx, w)
		}
		return m.Extract(idx, w-1, 0)
	}
	var sb strings.Builder
	fmt.Fprint(&sb, w, vs)
	k, ok := m.tabBy[sb.String()]
	if !ok {
		k = len(m.tabs)
		m.tabs = append(m.tabs, append([]uint64(nil), vs...))
		m.tabBy[sb.String()] = k
	}
	if t, ok := m.tab[tkey{op: OpTab, w: w, a: idx.id, val: uint64(k)}]; ok {
		return t
	}
	// the tree of ites it stands for
	var rec func(lo, n int, bit int) *Term
	rec = func(lo, n, bit int) *Term {
		if n == 1 || bit < 0 {
			return m.Const(w, vs[lo])
		}
		half := 1 << uint(bit)
		if n <= half {
			return rec(lo, n, bit-1)
		}
		return m.Ite(m.Eq(m.Extract(idx, uint8(bit), uint8(bit)), m.Const(1, 1)), rec(lo+half, n-half, bit-1), rec(lo, half, bit-1))
	}
	tree := rec(0, len(vs), int(nb)-1)
	m.n++
	t := &Term{op: OpTab, w: w, id: m.n, val: uint64(k), a: idx, c: tree, umin: mn, umax: mx}
	m.tab[tkey{op: OpTab, w: w, a: idx.id, val: uint64(k)}] = t
	return t
}

// tabEq is the set of indices at which a table holds v, as ranges; nil if there are
// too many.
func (m *TermMgr) tabEq(t *Term, v uint64) *Term {
	vs := m.tabs[t.val]
	r := m.False
	runs := 0
	for i := 0; i < len(vs); i++ {
		if vs[i] != v {
			continue
		}
		j := i
		for j+1 < len(vs) && vs[j+1] == v {
			j++
		}
		runs++
		if runs > 8 {
			return nil
		}
		w := t.a.w
		var c *Term
		switch {
		case i == j:
			c = m.Eq(t.a, m.Const(w, uint64(i)))
		default:
			c = m.And(m.Ule(m.Const(w, uint64(i)), t.a), m.Ule(t.a, m.Const(w, uint64(j))))
		}
		r = m.Or(r, c)
		i = j
	}
	return r
}

// Vars returns the sorted list of variable indices occurring in t.
func (m *TermMgr) Vars(t *Term) []uint32 {
	if t.varsDone {
		return t.vars
	}
	if t.op == OpVar {
		t.vars = []uint32{uint32(t.val)}
		t.varsDone = true
		return t.vars
	}
	var sub [][]uint32
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil && !x.isConst() {
			sub = append(sub, m.Vars(x))
		}
	}
	switch len(sub) {
	case 0:
	case 1:
		t.vars = sub[0]
	default:
		r := sub[0]
		for _, s := range sub[1:] {
			r = mergeU32(r, s)
		}
		t.vars = r
	}
	t.varsDone = true
	return t.vars
}

func mergeU32(a, b []uint32) []uint32 {
	// subset fast paths
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]uint32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

// Model is a (persistent, layered) assignment of variables; missing = 0.
type Model struct {
	parent *Model
	vals   map[uint32]uint64
	depth  int
}

func (md *Model) get(v uint32) uint64 {
	for p := md; p != nil; p = p.parent {
		if x, ok := p.vals[v]; ok {
			return x
		}
	}
	return 0
}

func (md *Model) overlay(vals map[uint32]uint64) *Model {
	d := 0
	if md != nil {
		d = md.depth + 1
	}
	if d > 12 {
		flat := map[uint32]uint64{}
		var chain []*Model
		for p := md; p != nil; p = p.parent {
			chain = append(chain, p)
		}
		for i := len(chain) - 1; i >= 0; i-- {
			for k, v := range chain[i].vals {
				flat[k] = v
			}
		}
		for k, v := range vals {
			flat[k] = v
		}
		return &Model{vals: flat}
	}
	return &Model{parent: md, vals: vals, depth: d}
}

// Eval evaluates t under the model.
func (m *TermMgr) Eval(t *Term, md *Model) uint64 {
	memo := map[*Term]uint64{}
	return m.eval(t, md, memo)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *TermMgr) eval(t *Term, md *Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return md.get(uint32(t.val)) & maskB(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	ev := func(x *Term) uint64 { return m.eval(x, md, memo) }
	switch t.op {
	case OpNot:
		r = 1 - ev(t.a)
	case OpAnd:
		if ev(t.a) == 0 {
			r = 0
		} else {
			r = ev(t.b)
		}
	case OpOr:
		if ev(t.a) == 1 {
			r = 1
		} else {
			r = ev(t.b)
		}
	case OpEq:
		r = b2u(ev(t.a) == ev(t.b))
	case OpIte:
		if ev(t.a) == 1 {
			r = ev(t.b)
		} else {
			r = ev(t.c)
		}
	case OpAdd:
		r = ev(t.a) + ev(t.b)
	case OpSub:
		r = ev(t.a) - ev(t.b)
	case OpMul:
		r = ev(t.a) * ev(t.b)
	case OpUDiv:
		d := ev(t.b)
		if d == 0 {
			r = ^uint64(0)
		} else {
			r = ev(t.a) / d
		}
	case OpURem:
		d := ev(t.b)
		if d == 0 {
			r = ev(t.a)
		} else {
			r = ev(t.a) % d
		}
	case OpSDiv, OpSRem:
		x, y := sext(ev(t.a), t.w), sext(ev(t.b), t.w)
		if t.op == OpSDiv {
			if y == 0 {
				if x < 0 {
					r = 1
				} else {
					r = ^uint64(0)
				}
			} else if y == -1 {
				r = uint64(-x)
			} else {
				r = uint64(x / y)
			}
		} else {
			if y == 0 {
				r = uint64(x)
			} else if y == -1 {
				r = 0
			} else {
				r = uint64(x % y)
			}
		}
	case OpBAnd:
		r = ev(t.a) & ev(t.b)
	case OpBOr:
		r = ev(t.a) | ev(t.b)
	case OpBXor:
		r = ev(t.a) ^ ev(t.b)
	case OpBNot:
		r = ^ev(t.a)
	case OpShl:
		s := ev(t.b)
		if s < uint64(t.w) {
			r = ev(t.a) << s
		}
	case OpLshr:
		s := ev(t.b)
		if s < uint64(t.w) {
			r = ev(t.a) >> s
		}
	case OpAshr:
		s := ev(t.b)
		if s >= uint64(t.w) {
			s = uint64(t.w) - 1
		}
		r = uint64(sext(ev(t.a), t.w) >> s)
	case OpUlt:
		r = b2u(ev(t.a) < ev(t.b))
	case OpUle:
		r = b2u(ev(t.a) <= ev(t.b))
	case OpSlt:
		r = b2u(sext(ev(t.a), t.a.w) < sext(ev(t.b), t.b.w))
	case OpSle:
		r = b2u(sext(ev(t.a), t.a.w) <= sext(ev(t.b), t.b.w))
	case OpConcat:
		r = ev(t.a)<<t.b.w | ev(t.b)
	case OpExtract:
		r = ev(t.a) >> (t.val & 0xff)
	case OpZExt:
		r = ev(t.a)
	case OpTab:
		if i := ev(t.a); i < uint64(len(m.tabs[t.val])) {
			r = m.tabs[t.val][i]
		} else {
			r = ev(t.c)
		}
	case OpSExt:
		r = uint64(sext(ev(t.a), t.a.w))
	default:
		panic("eval op")
	}
	r &= maskB(t.w)
	memo[t] = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return maskW(w)
}

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot",
	OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat"}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OpVar:
		return fmt.Sprintf("v%d", t.val)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, t.a.ref())
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpTab:
		return t.c.ref()
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" ")
			sb.WriteString(x.ref())
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// String renders a term for humans (bounded depth).
func (t *Term) String() string { return t.str(4) }
func (t *Term) str(d int) string {
	if t.op == OpConst {
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d", t.val)
	}
	if t.op == OpVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	s := "(" + opNames[t.op]
	if s == "(" {
		s = fmt.Sprintf("(op%d", t.op)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}
