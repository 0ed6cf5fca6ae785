package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }
type goPanic struct{ v Iface }

// pathEnd ends the current path.
type pathEnd struct {
	kind string // done, exit, assume, crash, deadlock, budget
	msg  string
}

type ctl uint8

const (
	cNext   ctl = iota // advance pc
	cStay              // frame pushed / jumped / retry: do not advance
	cBlock             // goroutine blocked, retry later
	cYield             // explore-mode scheduling point
	cPushed            // frame pushed, pc already advanced
)

func (st *State) opdVal(fr *Frame, o Opd) Val {
	switch o.kind {
	case oReg:
		v := fr.regs[o.reg]
		if p, ok := v.(*Poison); ok {
			panic(unsupported{"use of unmodelled value: " + p.why})
		}
		return v
	case oVal:
		if p, ok := o.val.(*Poison); ok {
			panic(unsupported{"use of unmodelled constant: " + p.why})
		}
		return o.val
	case oGlobal:
		g := o.val.(*ssa.Global)
		return Ptr{st.eng.globalID[g], 0}
	}
	return nil
}

// rawVal is opdVal without the poison check.
func (st *State) rawVal(fr *Frame, o Opd) Val {
	if o.kind == oReg {
		return fr.regs[o.reg]
	}
	return st.opdVal(fr, o)
}

// ---------- path conditions ----------

func (st *State) slice(extra *Term) []*Term {
	m := st.eng.m
	mark := st.eng.mark
	st.eng.stamp++
	stamp := st.eng.stamp
	need := int(len(m.varsBy)) + 1
	if len(mark) < need {
		nm := make([]uint32, need*2)
		copy(nm, mark)
		mark = nm
		st.eng.mark = nm
	}
	for _, v := range m.Vars(extra) {
		mark[v] = stamp
	}
	in := make([]bool, len(st.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range st.pc {
			if in[i] {
				continue
			}
			hit := false
			for _, v := range m.Vars(c) {
				if mark[v] == stamp {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				changed = true
				out = append(out, c)
				for _, v := range m.Vars(c) {
					mark[v] = stamp
				}
			}
		}
	}
	return out
}

func (st *State) query(c *Term) (Res, *Model) {
	if c.isFalse() {
		return Unsat, nil
	}
	if c.isTrue() {
		return Sat, st.model
	}
	cs := append(st.slice(c), c)
	r, vals := st.eng.sol.Check(cs)
	if r == Sat {
		return Sat, st.model.overlay(vals)
	}
	if r == Unknown {
		st.eng.incomplete("solver returned unknown on a branch")
	}
	return r, nil
}

func (st *State) setConc(t *Term, v uint64) {
	if !st.concOw {
		n := make(map[*Term]uint64, len(st.conc)+1)
		for k, x := range st.conc {
			n[k] = x
		}
		st.conc = n
		st.concOw = true
	}
	st.conc[t] = v
}

func (st *State) fact(c *Term) (bool, bool) {
	if c.isConst() {
		return c.val == 1, true
	}
	if v, ok := st.conc[c]; ok {
		return v == 1, true
	}
	if c.op == OpNot {
		if v, ok := st.conc[c.a]; ok {
			return v == 0, true
		}
	}
	return false, false
}

// assume adds c to the path condition (caller guarantees feasibility with model md).
func (st *State) assumeT(c *Term, md *Model) {
	if c.isTrue() {
		return
	}
	st.pc = append(st.pc, c)
	st.setConc(c, 1)
	if c.op == OpNot {
		st.setConc(c.a, 0)
	}
	if c.op == OpAnd {
		// record conjunct facts (bounded)
		n := 0
		for x := c; x.op == OpAnd && n < 64; n++ {
			st.setConc(x.b, 1)
			x = x.a
			if x.op != OpAnd {
				st.setConc(x, 1)
			}
		}
	}
	st.model = md
}

// branch decides a boolean, forking when both outcomes are feasible.
func (st *State) branch(c *Term) bool {
	if v, ok := st.fact(c); ok {
		return v
	}
	m := st.eng.m
	cur := m.Eval(c, st.model) == 1
	other := c
	if cur {
		other = m.Not(c)
	}
	r, md := st.query(other)
	if r == Sat {
		ns := st.fork()
		ns.assumeT(other, md)
		st.eng.push(ns)
		if cur {
			st.assumeT(c, st.model)
		} else {
			st.assumeT(m.Not(c), st.model)
		}
	} else {
		st.setConc(c, b2u(cur))
	}
	return cur
}

// concretize forks on the feasible values of t.
func (st *State) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if v, ok := st.conc[t]; ok {
		return v
	}
	m := st.eng.m
	v := m.Eval(t, st.model)
	eq := m.Eq(t, m.Const(t.w, v))
	if t.w == 0 {
		eq = t
		if v == 0 {
			eq = m.Not(t)
		}
	}
	ne := m.Not(eq)
	r, md := st.query(ne)
	if r == Sat {
		ns := st.fork()
		ns.assumeT(ne, md)
		st.eng.push(ns)
		st.assumeT(eq, st.model)
	}
	st.setConc(t, v)
	return v
}

func (st *State) concInt(v Val) int {
	t := v.(*Term)
	return int(sext(st.concretize(t), t.w))
}

// ---------- strings ----------

func (e *Eng) strLen(v Val) int {
	switch s := v.(type) {
	case StrC:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsupported{fmt.Sprintf("strLen of %T", v)})
}

func (e *Eng) strBytes(v Val) []*Term {
	switch s := v.(type) {
	case StrC:
		b := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = e.m.Const(8, uint64(s[i]))
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(unsupported{fmt.Sprintf("strBytes of %T", v)})
}

func (e *Eng) strAt(v Val, i int) *Term {
	switch s := v.(type) {
	case StrC:
		return e.m.Const(8, uint64(s[i]))
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func (e *Eng) mkStr(b []*Term) Val {
	for _, t := range b {
		if !t.isConst() {
			return &SymStr{b}
		}
	}
	x := make([]byte, len(b))
	for i, t := range b {
		x[i] = byte(t.val)
	}
	return StrC(x)
}

func (e *Eng) strSlice(v Val, lo, hi int) Val {
	switch s := v.(type) {
	case StrC:
		return s[lo:hi]
	case *SymStr:
		return e.mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func (e *Eng) strConcat(a, b Val) Val {
	if x, ok := a.(StrC); ok {
		if y, ok := b.(StrC); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(StrC); ok && y == "" {
		return a
	}
	return e.mkStr(append(append([]*Term(nil), e.strBytes(a)...), e.strBytes(b)...))
}

func (e *Eng) strEq(a, b Val) *Term {
	if x, ok := a.(StrC); ok {
		if y, ok := b.(StrC); ok {
			return e.m.Bool(x == y)
		}
	}
	if e.strLen(a) != e.strLen(b) {
		return e.m.False
	}
	return e.bytesEq(e.strBytes(a), e.strBytes(b))
}

func (e *Eng) bytesEq(x, y []*Term) *Term {
	if len(x) != len(y) {
		return e.m.False
	}
	r := e.m.True
	for i := range x {
		c := e.m.Eq(x[i], y[i])
		if c.isFalse() {
			return c
		}
		r = e.m.And(r, c)
	}
	return r
}

func (e *Eng) strLess(a, b Val) *Term {
	if x, ok := a.(StrC); ok {
		if y, ok := b.(StrC); ok {
			return e.m.Bool(x < y)
		}
	}
	x, y := e.strBytes(a), e.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := e.m.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = e.m.Or(e.m.Ult(x[i], y[i]), e.m.And(e.m.Eq(x[i], y[i]), r))
	}
	return r
}

// ---------- memory ----------

func (st *State) nilDeref() {
	st.rtPanic("invalid memory address or nil pointer dereference")
}

func (st *State) rtPanic(msg string) {
	panic(goPanic{st.eng.rtErr("runtime error: " + msg)})
}

func (e *Eng) rtErr(msg string) Iface {
	if e.rtErrT == nil {
		return Iface{t: types.Typ[types.String], v: StrC(msg)}
	}
	return Iface{t: e.rtErrT, v: StrC(msg)}
}

func (st *State) load(p Val, t types.Type) Val {
	e := st.eng
	switch p := p.(type) {
	case Ptr:
		if p.obj == 0 {
			st.nilDeref()
		}
		o := st.obj(p.obj)
		if !isAgg(t) {
			if p.off >= o.n {
				panic(unsupported{"load out of object"})
			}
			return o.get(p.off)
		}
		n := e.ncells(t)
		r := make(Agg, n)
		if int(p.off)+n > int(o.n) {
			panic(unsupported{"load out of object"})
		}
		for i := range r {
			r[i] = o.get(p.off + int32(i))
		}
		return r
	case *SymPtr:
		if isAgg(t) {
			n := e.ncells(t)
			r := make(Agg, n)
			for i := range r {
				q := *p
				q.sub += int32(i)
				r[i] = st.loadSym(&q)
			}
			return r
		}
		return st.loadSym(p)
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

func (st *State) loadSym(p *SymPtr) Val {
	e := st.eng
	o := st.obj(p.obj)
	vals := make([]Val, p.n)
	allT := true
	for i := int32(0); i < p.n; i++ {
		vals[i] = o.get(p.off + i*p.stride + p.sub)
		if _, ok := vals[i].(*Term); !ok {
			allT = false
		}
	}
	if allT {
		ts := make([]*Term, len(vals))
		for i := range vals {
			ts[i] = vals[i].(*Term)
		}
		return e.mux(p.idx, ts)
	}
	i := st.concretize(p.idx)
	return vals[i]
}

// mux selects ts[idx] (idx known to be in range) as a balanced tree over index bits.
func (e *Eng) mux(idx *Term, ts []*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	same := true
	for _, t := range ts[1:] {
		if t != ts[0] {
			same = false
			break
		}
	}
	if same {
		return ts[0]
	}
	if idx.isConst() {
		return ts[idx.val]
	}
	if len(ts) <= 4096 && ts[0].w > 0 {
		vs := make([]uint64, len(ts))
		all := true
		for i, t := range ts {
			if !t.isConst() {
				all = false
				break
			}
			vs[i] = t.val
		}
		if all {
			return e.m.Tab(idx, vs, ts[0].w)
		}
	}
	key := muxKey{idx.id, len(ts), 0}
	var h uint64 = 1469598103934665603
	for _, t := range ts {
		h = (h ^ uint64(t.id)) * 1099511628211
	}
	key.h = h
	if r, ok := e.muxMemo[key]; ok {
		return r
	}
	nb := 0
	for (1 << nb) < len(ts) {
		nb++
	}
	bitsT := make([]*Term, nb)
	for i := range bitsT {
		bitsT[i] = e.m.Eq(e.m.Extract(idx, uint8(i), uint8(i)), e.m.Const(1, 1))
	}
	var rec func(lo, n, bit int) *Term
	rec = func(lo, n, bit int) *Term {
		if n == 1 || bit < 0 {
			return ts[lo]
		}
		half := 1 << bit
		if n <= half {
			return rec(lo, n, bit-1)
		}
		a := rec(lo, half, bit-1)
		b := rec(lo+half, n-half, bit-1)
		return e.m.Ite(bitsT[bit], b, a)
	}
	r := rec(0, len(ts), nb-1)
	e.muxMemo[key] = r
	return r
}

type muxKey struct {
	id uint32
	n  int
	h  uint64
}

func (st *State) store(p Val, v Val) {
	e := st.eng
	switch p := p.(type) {
	case Ptr:
		if p.obj == 0 {
			st.nilDeref()
		}
		o := st.wobj(p.obj)
		if a, ok := v.(Agg); ok {
			if int(p.off)+len(a) > int(o.n) {
				panic(unsupported{"store out of object"})
			}
			for i, x := range a {
				o.set(p.off+int32(i), x)
			}
			return
		}
		if p.off >= o.n {
			panic(unsupported{"store out of object"})
		}
		o.set(p.off, v)
		return
	case *SymPtr:
		nv, ok := v.(*Term)
		if !ok {
			i := st.concretize(p.idx)
			st.store(Ptr{p.obj, p.off + int32(i)*p.stride + p.sub}, v)
			return
		}
		o := st.wobj(p.obj)
		for i := int32(0); i < p.n; i++ {
			off := p.off + i*p.stride + p.sub
			old := o.get(off).(*Term)
			o.set(off, e.m.Ite(e.m.Eq(p.idx, e.m.Const(64, uint64(i))), nv, old))
		}
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", p)})
}

func (st *State) alloc(t types.Type) Ptr {
	o := st.eng.newMem(st, t, 1)
	return Ptr{st.addObj(o), 0}
}

// allocCells allocates an object holding the given cells.
func (st *State) allocVal(t types.Type, v Val) Ptr {
	p := st.alloc(t)
	st.store(p, v)
	return p
}

func (st *State) makeSlice(elem types.Type, n, c int) Slice {
	o := st.eng.newMem(st, elem, c)
	return Slice{obj: st.addObj(o), off: 0, len: int32(n), cap: int32(c), nonNil: true}
}

func (st *State) bytesToSlice(b []*Term) Slice {
	s := st.makeSlice(types.Typ[types.Uint8], len(b), len(b))
	if len(b) > 0 {
		o := st.wobj(s.obj)
		for i, t := range b {
			if t.isConst() && t.val == 0 {
				continue
			}
			o.set(int32(i), t)
		}
	}
	return s
}

// sliceBytes reads a []byte value.
func (st *State) sliceBytes(s Slice) []*Term {
	b := make([]*Term, s.len)
	if s.len == 0 {
		return b
	}
	o := st.obj(s.obj)
	for i := range b {
		t, ok := o.get(s.off + int32(i)).(*Term)
		if !ok {
			panic(unsupported{"byte cell"})
		}
		b[i] = t
	}
	return b
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	panic("elemOf " + t.String())
}

// copyCells copies n cells between objects (memmove semantics).
func (st *State) copyCells(dst ObjID, doff int32, src ObjID, soff int32, n int32) {
	if n == 0 {
		return
	}
	so := st.obj(src)
	do := st.wobj(dst)
	if src == dst {
		so = do
		tmp := make([]Val, n)
		for i := int32(0); i < n; i++ {
			tmp[i] = so.get(soff + i)
		}
		for i := int32(0); i < n; i++ {
			do.set(doff+i, tmp[i])
		}
		return
	}
	for i := int32(0); i < n; {
		// skip zero runs onto zero chunks
		if so.chunks[(soff+i)/chunkN] == nil && do.chunks[(doff+i)/chunkN] == nil && len(so.zero) == 1 && len(do.zero) == 1 && so.zero[0] == do.zero[0] {
			a := chunkN - (soff+i)%chunkN
			b := chunkN - (doff+i)%chunkN
			if b < a {
				a = b
			}
			if a > n-i {
				a = n - i
			}
			i += a
			continue
		}
		do.set(doff+i, so.get(soff+i))
		i++
	}
}

// ---------- equality ----------

func (st *State) eqVals(a, b Val) *Term {
	e := st.eng
	m := e.m
	switch x := a.(type) {
	case *Term:
		return m.Eq(x, b.(*Term))
	case Flt:
		return m.Bool(x == b.(Flt))
	case StrC, *SymStr:
		return e.strEq(a, b)
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return m.Bool(x == y)
		}
		return m.False
	case Slice:
		y := b.(Slice)
		if !y.nonNil {
			return m.Bool(!x.nonNil)
		}
		if !x.nonNil {
			return m.Bool(!y.nonNil)
		}
		panic(unsupported{"slice comparison"})
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported{"iface compare"})
		}
		if x.t == nil || y.t == nil {
			return m.Bool(x.t == nil && y.t == nil)
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return m.False
		}
		if !types.Comparable(x.t) {
			st.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return st.eqVals(x.v, y.v)
	case MapRef:
		return m.Bool(x == b.(MapRef))
	case ChanRef:
		return m.Bool(x == b.(ChanRef))
	case *Closure:
		y, _ := b.(*Closure)
		if x == nil || y == nil {
			return m.Bool(x == nil && y == nil)
		}
		panic(unsupported{"func comparison"})
	case Agg:
		y := b.(Agg)
		r := m.True
		for i := range x {
			r = m.And(r, st.eqVals(x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("comparison of %T", a)})
}

// ---------- arithmetic ----------

func (st *State) binop(op token.Token, x, y Val, t, ty types.Type) Val {
	e := st.eng
	m := e.m
	switch op {
	case token.EQL:
		return st.eqVals(x, y)
	case token.NEQ:
		return m.Not(st.eqVals(x, y))
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"binop on " + t.String()})
	}
	info := b.Info()
	switch {
	case info&types.IsString != 0:
		switch op {
		case token.ADD:
			return e.strConcat(x, y)
		case token.LSS:
			return e.strLess(x, y)
		case token.GTR:
			return e.strLess(y, x)
		case token.LEQ:
			return m.Not(e.strLess(y, x))
		case token.GEQ:
			return m.Not(e.strLess(x, y))
		}
	case info&types.IsFloat != 0:
		f, g := float64(x.(Flt)), float64(y.(Flt))
		r := func(v float64) Val {
			if b.Kind() == types.Float32 {
				v = float64(float32(v))
			}
			return Flt(v)
		}
		switch op {
		case token.ADD:
			return r(f + g)
		case token.SUB:
			return r(f - g)
		case token.MUL:
			return r(f * g)
		case token.QUO:
			return r(f / g)
		case token.LSS:
			return m.Bool(f < g)
		case token.GTR:
			return m.Bool(f > g)
		case token.LEQ:
			return m.Bool(f <= g)
		case token.GEQ:
			return m.Bool(f >= g)
		}
	case info&types.IsBoolean != 0:
		p, q := x.(*Term), y.(*Term)
		switch op {
		case token.AND, token.LAND:
			return m.And(p, q)
		case token.OR, token.LOR:
			return m.Or(p, q)
		}
	case info&types.IsInteger != 0:
		p, ok := x.(*Term)
		q, ok2 := y.(*Term)
		if !ok || !ok2 {
			panic(unsupported{fmt.Sprintf("integer op on %T %T", x, y)})
		}
		sg := isSigned(b)
		switch op {
		case token.ADD:
			return m.Add(p, q)
		case token.SUB:
			return m.Sub(p, q)
		case token.MUL:
			return m.Mul(p, q)
		case token.QUO, token.REM:
			if st.branch(m.Eq(q, m.Const(q.w, 0))) {
				st.rtPanic("integer divide by zero")
			}
			if op == token.QUO {
				if sg {
					return m.SDiv(p, q)
				}
				return m.UDiv(p, q)
			}
			if sg {
				return m.SRem(p, q)
			}
			return m.URem(p, q)
		case token.AND:
			return m.BAnd(p, q)
		case token.OR:
			return m.BOr(p, q)
		case token.XOR:
			return m.BXor(p, q)
		case token.AND_NOT:
			return m.BAnd(p, m.BNot(q))
		case token.SHL, token.SHR:
			yb := ty.Underlying().(*types.Basic)
			if isSigned(yb) && !nonneg(q) {
				if st.branch(m.Slt(q, m.Const(q.w, 0))) {
					st.rtPanic("negative shift amount")
				}
			}
			// bring the amount to the operand's width, saturating
			var s *Term
			if q.w > p.w {
				s = m.Ite(m.Ult(q, m.Const(q.w, uint64(p.w))), m.Extract(q, p.w-1, 0), m.Const(p.w, uint64(p.w)))
			} else {
				s = m.ZExt(q, p.w)
			}
			if op == token.SHL {
				return m.Shl(p, s)
			}
			if sg {
				return m.Ashr(p, s)
			}
			return m.Lshr(p, s)
		case token.LSS:
			if sg {
				return m.Slt(p, q)
			}
			return m.Ult(p, q)
		case token.GTR:
			if sg {
				return m.Slt(q, p)
			}
			return m.Ult(q, p)
		case token.LEQ:
			if sg {
				return m.Not(m.Slt(q, p))
			}
			return m.Not(m.Ult(q, p))
		case token.GEQ:
			if sg {
				return m.Not(m.Slt(p, q))
			}
			return m.Not(m.Ult(p, q))
		}
	}
	panic(unsupported{fmt.Sprintf("binop %s on %s", op, t)})
}

func (st *State) convert(v Val, from, to types.Type) Val {
	e := st.eng
	m := e.m
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			fi, ti := fb.Info(), tb.Info()
			switch {
			case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
				t, ok := v.(*Term)
				if !ok {
					panic(unsupported{fmt.Sprintf("int conversion of %T", v)})
				}
				return e.intConv(t, isSigned(fb), intWidth(tb))
			case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
				t := v.(*Term)
				x := st.concretize(t)
				if isSigned(fb) {
					return Flt(float64(sext(x, t.w)))
				}
				return Flt(float64(x))
			case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
				f := float64(v.(Flt))
				if isSigned(tb) {
					return m.Const(intWidth(tb), uint64(int64(f)))
				}
				return m.Const(intWidth(tb), uint64(f))
			case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
				if tb.Kind() == types.Float32 {
					return Flt(float64(float32(v.(Flt))))
				}
				return v
			case fi&types.IsString != 0 && ti&types.IsString != 0:
				return v
			case fi&types.IsInteger != 0 && ti&types.IsString != 0:
				t := v.(*Term)
				if !t.isConst() && t.w <= 32 {
					if t.w < 32 {
						if isSigned(fb) {
							t = m.SExt(t, 32)
						} else {
							t = m.ZExt(t, 32)
						}
					}
					return e.mkStr(st.encodeRune(t))
				}
				x := sext(st.concretize(t), t.w)
				if int64(x) != int64(rune(x)) {
					x = utf8.RuneError
				}
				return StrC(string(rune(x)))
			case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
				return v
			case fi&types.IsBoolean != 0:
				return v
			}
		}
		if ts, ok := tu.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			eb := ts.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return st.bytesToSlice(e.strBytes(v))
			}
			// []rune
			var rs []*Term
			if s, ok := v.(StrC); ok {
				for _, r := range string(s) {
					rs = append(rs, m.Const(32, uint64(uint32(r))))
				}
			} else {
				for pos, n := 0, e.strLen(v); pos < n; {
					r, sz := st.decodeRune(v, pos)
					rs = append(rs, r)
					pos += sz
				}
			}
			sl := st.makeSlice(ts.Elem(), len(rs), len(rs))
			o := st.wobj(sl.obj)
			for i, r := range rs {
				o.set(int32(i), r)
			}
			return sl
		}
		if _, ok := tu.(*types.Pointer); ok { // from unsafe.Pointer
			return v
		}
	}
	if fs, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			s := v.(Slice)
			eb := fs.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return e.mkStr(st.sliceBytes(s))
			}
			var bs []*Term
			if s.len > 0 {
				o := st.obj(s.obj)
				for i := int32(0); i < s.len; i++ {
					bs = append(bs, st.encodeRune(o.get(s.off+i).(*Term))...)
				}
			}
			return e.mkStr(bs)
		}
		if ta, ok := tu.(*types.Array); ok { // slice to array
			s := v.(Slice)
			n := int(ta.Len())
			if int(s.len) < n {
				st.rtPanic("cannot convert slice to array: length")
			}
			r := make(Agg, 0)
			if n > 0 {
				x := st.load(Ptr{s.obj, s.off}, to)
				r = x.(Agg)
			}
			return r
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v // to unsafe.Pointer
	}
	if types.Identical(fu, tu) {
		return v
	}
	panic(unsupported{fmt.Sprintf("conversion %s -> %s", from, to)})
}

func (e *Eng) intConv(t *Term, signed bool, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return e.m.Extract(t, w-1, 0)
	}
	if signed {
		return e.m.SExt(t, w)
	}
	return e.m.ZExt(t, w)
}

// index64 converts an index operand of any integer type to 64 bits.
func (e *Eng) index64(v Val, t types.Type) *Term {
	b := t.Underlying().(*types.Basic)
	return e.intConv(v.(*Term), isSigned(b), 64)
}

// boundsCheck panics (in the program) unless 0 <= idx < n; forks when both are possible.
func (st *State) boundsCheck(idx *Term, n int) {
	m := st.eng.m
	ok := m.Ult(idx, m.Const(64, uint64(n)))
	if !st.branch(ok) {
		st.rtPanic(fmt.Sprintf("index out of range [%s] with length %d", idx, n))
	}
}

// ---------- the step function ----------

func (st *State) step(g *G, fr *Frame) ctl {
	e := st.eng
	m := e.m
	ins := &fr.fn.blocks[fr.block].ins[fr.pc]
	if ins.gl {
		for _, o := range ins.ops {
			if st.ensureInitGlobal(g, fr, o) {
				return cStay
			}
		}
	}
	switch in := ins.in.(type) {
	case *ssa.BinOp:
		x, y := st.opdVal(fr, ins.ops[0]), st.opdVal(fr, ins.ops[1])
		fr.regs[ins.dst] = st.binop(in.Op, x, y, in.X.Type(), in.Y.Type())
		return cNext
	case *ssa.UnOp:
		return st.unop(g, fr, ins, in)
	case *ssa.If:
		c := st.opdVal(fr, ins.ops[0]).(*Term)
		b := in.Block()
		if st.branch(c) {
			st.jump(fr, b.Succs[0].Index)
		} else {
			st.jump(fr, b.Succs[1].Index)
		}
		return cStay
	case *ssa.Jump:
		st.jump(fr, in.Block().Succs[0].Index)
		return cStay
	case *ssa.Call:
		return st.doCall(g, fr, ins, &in.Call, ins.dst)
	case *ssa.Store:
		a := st.opdVal(fr, ins.ops[0])
		if st.explore && st.memVisible(g, fr, a, in.Val.Type(), true) {
			return cYield
		}
		st.store(a, st.rawVal(fr, ins.ops[1]))
		return cNext
	case *ssa.Alloc:
		fr.regs[ins.dst] = st.alloc(deref(in.Type()))
		return cNext
	case *ssa.FieldAddr:
		switch p := st.opdVal(fr, ins.ops[0]).(type) {
		case Ptr:
			if p.obj == 0 {
				st.nilDeref()
			}
			fr.regs[ins.dst] = Ptr{p.obj, p.off + int32(ins.ext.(int))}
		case *SymPtr:
			q := *p
			q.sub += int32(ins.ext.(int))
			fr.regs[ins.dst] = &q
		default:
			panic(unsupported{fmt.Sprintf("FieldAddr on %T", p)})
		}
		return cNext
	case *ssa.Field:
		a := st.opdVal(fr, ins.ops[0]).(Agg)
		off := ins.ext.(int)
		fr.regs[ins.dst] = e.subVal(a, off, in.Type())
		return cNext
	case *ssa.IndexAddr:
		x := st.opdVal(fr, ins.ops[0])
		idx := e.index64(st.opdVal(fr, ins.ops[1]), in.Index.Type())
		var obj ObjID
		var off, n int32
		switch s := x.(type) {
		case Slice:
			obj, off, n = s.obj, s.off, s.len
		case Ptr:
			if s.obj == 0 {
				st.nilDeref()
			}
			obj, off = s.obj, s.off
			n = int32(deref(in.X.Type()).Underlying().(*types.Array).Len())
		default:
			panic(unsupported{fmt.Sprintf("IndexAddr on %T", x)})
		}
		st.boundsCheck(idx, int(n))
		stride := int32(e.ncells(elemOf(in.X.Type())))
		if v, ok := st.conc[idx]; ok {
			idx = m.Const(64, v)
		}
		if idx.isConst() {
			fr.regs[ins.dst] = Ptr{obj, off + int32(idx.val)*stride}
		} else if n > 4200 {
			v := st.concretize(idx)
			fr.regs[ins.dst] = Ptr{obj, off + int32(v)*stride}
		} else {
			fr.regs[ins.dst] = &SymPtr{obj: obj, off: off, stride: stride, n: n, idx: idx}
		}
		return cNext
	case *ssa.Index:
		x := st.opdVal(fr, ins.ops[0])
		idx := e.index64(st.opdVal(fr, ins.ops[1]), in.Index.Type())
		switch s := x.(type) {
		case StrC, *SymStr:
			n := e.strLen(x)
			st.boundsCheck(idx, n)
			if idx.isConst() {
				fr.regs[ins.dst] = e.strAt(x, int(idx.val))
			} else {
				fr.regs[ins.dst] = e.mux(idx, e.strBytes(x))
			}
		case Agg:
			n := int(in.X.Type().Underlying().(*types.Array).Len())
			st.boundsCheck(idx, n)
			sz := e.ncells(in.Type())
			if !idx.isConst() && sz == 1 {
				if ts, ok := termsOf(s); ok {
					fr.regs[ins.dst] = e.mux(idx, ts)
					return cNext
				}
			}
			i := int(st.concretize(idx))
			fr.regs[ins.dst] = e.subVal(s, i*sz, in.Type())
		default:
			panic(unsupported{fmt.Sprintf("Index on %T", x)})
		}
		return cNext
	case *ssa.Slice:
		return st.sliceOp(fr, ins, in)
	case *ssa.Extract:
		t := st.rawVal(fr, ins.ops[0])
		if p, ok := t.(*Poison); ok {
			fr.regs[ins.dst] = p
			return cNext
		}
		fr.regs[ins.dst] = t.(Tuple)[in.Index]
		return cNext
	case *ssa.MakeInterface:
		v := st.rawVal(fr, ins.ops[0])
		if p, ok := v.(*Poison); ok {
			fr.regs[ins.dst] = p
			return cNext
		}
		fr.regs[ins.dst] = Iface{t: in.X.Type(), v: v}
		return cNext
	case *ssa.ChangeInterface:
		fr.regs[ins.dst] = st.rawVal(fr, ins.ops[0])
		return cNext
	case *ssa.ChangeType:
		fr.regs[ins.dst] = st.rawVal(fr, ins.ops[0])
		return cNext
	case *ssa.Convert:
		fr.regs[ins.dst] = st.convert(st.opdVal(fr, ins.ops[0]), in.X.Type(), in.Type())
		return cNext
	case *ssa.MultiConvert:
		fr.regs[ins.dst] = st.convert(st.opdVal(fr, ins.ops[0]), in.X.Type(), in.Type())
		return cNext
	case *ssa.SliceToArrayPointer:
		s := st.opdVal(fr, ins.ops[0]).(Slice)
		n := deref(in.Type()).Underlying().(*types.Array).Len()
		if int64(s.len) < n {
			st.rtPanic("cannot convert slice to array pointer: length")
		}
		if !s.nonNil {
			fr.regs[ins.dst] = Ptr{}
		} else {
			fr.regs[ins.dst] = Ptr{s.obj, s.off}
		}
		return cNext
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		env := make([]Val, len(in.Bindings))
		for i := range env {
			env[i] = st.rawVal(fr, ins.ops[i+1])
		}
		fr.regs[ins.dst] = &Closure{fn: f, env: env}
		return cNext
	case *ssa.MakeMap:
		o := &Obj{kind: kMap, typ: in.Type()}
		fr.regs[ins.dst] = MapRef(st.addObj(o))
		return cNext
	case *ssa.MakeChan:
		n := st.concInt(st.opdVal(fr, ins.ops[0]))
		o := &Obj{kind: kChan, capn: int32(n), typ: in.Type()}
		fr.regs[ins.dst] = ChanRef(st.addObj(o))
		return cNext
	case *ssa.MakeSlice:
		et := elemOf(in.Type())
		lt := e.index64(st.opdVal(fr, ins.ops[0]), in.Len.Type())
		ct := e.index64(st.opdVal(fr, ins.ops[1]), in.Cap.Type())
		if st.branch(m.Slt(lt, m.Const(64, 0))) || st.branch(m.Ult(m.Const(64, 1<<40), lt)) {
			st.rtPanic("makeslice: len out of range")
		}
		n := int(st.concretize(lt))
		c := int(int64(st.concretize(ct)))
		if c < n {
			st.rtPanic("makeslice: cap out of range")
		}
		if c > 1<<26 {
			panic(unsupported{fmt.Sprintf("allocation of %d elements", c)})
		}
		fr.regs[ins.dst] = st.makeSlice(et, n, c)
		return cNext
	case *ssa.Lookup:
		return st.lookup(g, fr, ins, in)
	case *ssa.MapUpdate:
		mr := st.opdVal(fr, ins.ops[0]).(MapRef)
		k, v := st.opdVal(fr, ins.ops[1]), st.rawVal(fr, ins.ops[2])
		if mr == 0 {
			st.rtPanic("assignment to entry in nil map")
		}
		if st.mapVisible(g, ObjID(mr), true) {
			return cYield
		}
		st.mapSet(ObjID(mr), k, v)
		return cNext
	case *ssa.Range:
		x := st.opdVal(fr, ins.ops[0])
		it := &Iter{}
		switch s := x.(type) {
		case MapRef:
			it.m = s
			if s != 0 {
				if st.mapVisible(g, ObjID(s), false) {
					return cYield
				}
				it.keys = append([]Val(nil), st.obj(ObjID(s)).mkeys...)
			}
		default:
			it.str = x
		}
		p := st.alloc(types.Typ[types.Int])
		it.obj = p.obj
		fr.regs[ins.dst] = it
		return cNext
	case *ssa.Next:
		return st.next(fr, ins, in)
	case *ssa.TypeAssert:
		return st.typeAssert(fr, ins, in)
	case *ssa.Return:
		var rv Val
		switch len(ins.ops) {
		case 0:
		case 1:
			rv = st.rawVal(fr, ins.ops[0])
		default:
			t := make(Tuple, len(ins.ops))
			for i := range t {
				t[i] = st.rawVal(fr, ins.ops[i])
			}
			rv = t
		}
		st.doReturn(g, rv)
		return cStay
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			fr.mode = fmNormal
			return cNext
		}
		fr.mode = fmDefers
		st.runOneDefer(g, fr)
		return cStay
	case *ssa.Defer:
		d := deferred{call: &in.Call}
		d.fn = st.opdVal(fr, ins.ops[0])
		for _, o := range ins.ops[1:] {
			d.args = append(d.args, st.opdVal(fr, o))
		}
		if in.Call.IsInvoke() {
			if r := d.fn.(Iface); r.t == nil {
				st.nilDeref()
			}
		}
		fr.defers = append(fr.defers, d)
		return cNext
	case *ssa.Go:
		st.spawn(g, fr, ins, &in.Call)
		return cNext
	case *ssa.Panic:
		v := st.opdVal(fr, ins.ops[0]).(Iface)
		panic(goPanic{v})
	case *ssa.Send:
		ch := st.opdVal(fr, ins.ops[0]).(ChanRef)
		v := st.opdVal(fr, ins.ops[1])
		if st.visible(g, "chan", Ptr{ObjID(ch), 0}) {
			return cYield
		}
		return st.chanSend(g, ObjID(ch), v)
	case *ssa.Select:
		return st.doSelect(g, fr, ins, in)
	}
	panic(unsupported{fmt.Sprintf("instruction %T", ins.in)})
}

func termsOf(a Agg) ([]*Term, bool) {
	ts := make([]*Term, len(a))
	for i := range a {
		t, ok := a[i].(*Term)
		if !ok {
			return nil, false
		}
		ts[i] = t
	}
	return ts, true
}

func (e *Eng) subVal(a Agg, off int, t types.Type) Val {
	if isAgg(t) {
		return append(Agg{}, a[off:off+e.ncells(t)]...)
	}
	return a[off]
}

func (st *State) jump(fr *Frame, to int) {
	fr.prev = fr.block
	fr.block = to
	fr.pc = 0
	b := fr.fn.blocks[to]
	if len(b.phis) > 0 {
		ei := b.edge[fr.prev]
		tmp := make([]Val, len(b.phis))
		for i, p := range b.phis {
			tmp[i] = st.rawVal(fr, p.opds[ei])
		}
		for i, p := range b.phis {
			fr.regs[p.dst] = tmp[i]
		}
	}
	st.steps++
}

func (st *State) unop(g *G, fr *Frame, ins *Ins, in *ssa.UnOp) ctl {
	e := st.eng
	m := e.m
	switch in.Op {
	case token.MUL:
		a := st.opdVal(fr, ins.ops[0])
		if st.explore && st.memVisible(g, fr, a, in.Type(), false) {
			return cYield
		}
		fr.regs[ins.dst] = st.load(a, in.Type())
		return cNext
	case token.ARROW:
		ch := st.opdVal(fr, ins.ops[0]).(ChanRef)
		if st.visible(g, "chan", Ptr{ObjID(ch), 0}) {
			return cYield
		}
		return st.chanRecv(g, fr, ObjID(ch), in)
	case token.NOT:
		fr.regs[ins.dst] = m.Not(st.opdVal(fr, ins.ops[0]).(*Term))
		return cNext
	case token.SUB:
		switch x := st.opdVal(fr, ins.ops[0]).(type) {
		case *Term:
			fr.regs[ins.dst] = m.Sub(m.Const(x.w, 0), x)
		case Flt:
			fr.regs[ins.dst] = -x
		}
		return cNext
	case token.XOR:
		fr.regs[ins.dst] = m.BNot(st.opdVal(fr, ins.ops[0]).(*Term))
		return cNext
	}
	panic(unsupported{"unop " + in.Op.String()})
}

func (st *State) sliceOp(fr *Frame, ins *Ins, in *ssa.Slice) ctl {
	e := st.eng
	m := e.m
	x := st.opdVal(fr, ins.ops[0])
	var obj ObjID
	var off, ln, cp int32
	nonNil := true
	isStr := false
	switch s := x.(type) {
	case Slice:
		obj, off, ln, cp, nonNil = s.obj, s.off, s.len, s.cap, s.nonNil
	case Ptr:
		if s.obj == 0 {
			st.nilDeref()
		}
		n := int32(deref(in.X.Type()).Underlying().(*types.Array).Len())
		obj, off, ln, cp = s.obj, s.off, n, n
	case StrC, *SymStr:
		isStr = true
		ln = int32(e.strLen(x))
		cp = ln
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", x)})
	}
	get := func(i int, def int32, v ssa.Value) *Term {
		if ins.ops[i].kind == oNone {
			return m.Const(64, uint64(def))
		}
		return e.index64(st.opdVal(fr, ins.ops[i]), v.Type())
	}
	lo := get(1, 0, in.Low)
	hi := get(2, ln, in.High)
	mx := get(3, cp, in.Max)
	// 0 <= lo <= hi <= max <= cap
	ok := m.And(m.Ule(mx, m.Const(64, uint64(cp))), m.And(m.Ule(hi, mx), m.Ule(lo, hi)))
	if isStr {
		ok = m.And(m.Ule(hi, m.Const(64, uint64(ln))), m.Ule(lo, hi))
	}
	if !st.branch(ok) {
		st.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %d", lo, hi, cp))
	}
	l, h, x3 := int32(st.concretize(lo)), int32(st.concretize(hi)), int32(st.concretize(mx))
	if isStr {
		fr.regs[ins.dst] = e.strSlice(x, int(l), int(h))
		return cNext
	}
	stride := int32(e.ncells(elemOf(in.X.Type())))
	fr.regs[ins.dst] = Slice{obj: obj, off: off + l*stride, len: h - l, cap: x3 - l, nonNil: nonNil}
	return cNext
}

// ---------- maps ----------

// mapFind returns the index of key k, or -1, forking on symbolic key equality.
func (st *State) mapFind(id ObjID, k Val) int {
	o := st.obj(id)
	for i, kk := range o.mkeys {
		eq := st.eqVals(kk, k)
		if eq.isConst() {
			if eq.val == 1 {
				return i
			}
			continue
		}
		if st.branch(eq) {
			return i
		}
	}
	return -1
}

func (st *State) mapSet(id ObjID, k, v Val) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		st.rtPanic("hash of unhashable type " + i.t.String())
	}
	i := st.mapFind(id, k)
	o := st.wobj(id)
	if i >= 0 {
		o.mvals[i] = v
		return
	}
	o.mkeys = append(o.mkeys, k)
	o.mvals = append(o.mvals, v)
}

func (st *State) mapDelete(id ObjID, k Val) {
	i := st.mapFind(id, k)
	if i < 0 {
		return
	}
	o := st.wobj(id)
	o.mkeys = append(append([]Val(nil), o.mkeys[:i]...), o.mkeys[i+1:]...)
	o.mvals = append(append([]Val(nil), o.mvals[:i]...), o.mvals[i+1:]...)
}

func (st *State) lookup(g *G, fr *Frame, ins *Ins, in *ssa.Lookup) ctl {
	e := st.eng
	x := st.opdVal(fr, ins.ops[0])
	switch mr := x.(type) {
	case MapRef:
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		k := st.opdVal(fr, ins.ops[1])
		i := -1
		if mr != 0 {
			if st.mapVisible(g, ObjID(mr), false) {
				return cYield
			}
			i = st.mapFind(ObjID(mr), k)
		}
		var v Val
		if i >= 0 {
			v = st.obj(ObjID(mr)).mvals[i]
		} else {
			v = e.zeroVal(vt)
		}
		if in.CommaOk {
			fr.regs[ins.dst] = Tuple{v, e.m.Bool(i >= 0)}
		} else {
			fr.regs[ins.dst] = v
		}
		return cNext
	case StrC, *SymStr:
		idx := e.index64(st.opdVal(fr, ins.ops[1]), in.Index.Type())
		st.boundsCheck(idx, e.strLen(x))
		if idx.isConst() {
			fr.regs[ins.dst] = e.strAt(x, int(idx.val))
		} else {
			fr.regs[ins.dst] = e.mux(idx, e.strBytes(x))
		}
		return cNext
	}
	panic(unsupported{fmt.Sprintf("lookup on %T", x)})
}

func (st *State) next(fr *Frame, ins *Ins, in *ssa.Next) ctl {
	e := st.eng
	m := e.m
	it := st.opdVal(fr, ins.ops[0]).(*Iter)
	pos := int(st.obj(it.obj).get(0).(*Term).val)
	setPos := func(p int) { st.wobj(it.obj).set(0, m.Const(64, uint64(p))) }
	if in.IsString {
		n := e.strLen(it.str)
		if pos >= n {
			fr.regs[ins.dst] = Tuple{m.False, m.Const(64, 0), m.Const(32, 0)}
			return cNext
		}
		if s, ok := it.str.(StrC); ok {
			r, sz := utf8.DecodeRuneInString(string(s[pos:]))
			setPos(pos + sz)
			fr.regs[ins.dst] = Tuple{m.True, m.Const(64, uint64(pos)), m.Const(32, uint64(uint32(r)))}
			return cNext
		}
		r, sz := st.decodeRune(it.str, pos)
		setPos(pos + sz)
		fr.regs[ins.dst] = Tuple{m.True, m.Const(64, uint64(pos)), r}
		return cNext
	}
	tt := in.Type().(*types.Tuple)
	zk := func() Val { return e.zeroVal(tt.At(1).Type()) }
	zv := func() Val { return e.zeroVal(tt.At(2).Type()) }
	for pos < len(it.keys) {
		k := it.keys[pos]
		i := st.mapFind(ObjID(it.m), k)
		pos++
		if i < 0 {
			continue
		}
		v := st.obj(ObjID(it.m)).mvals[i]
		setPos(pos)
		var kk, vv Val = k, v
		if isInvalid(tt.At(1).Type()) {
			kk = nil
		}
		if isInvalid(tt.At(2).Type()) {
			vv = nil
		}
		fr.regs[ins.dst] = Tuple{m.True, kk, vv}
		return cNext
	}
	r := Tuple{m.False, nil, nil}
	if !isInvalid(tt.At(1).Type()) {
		r[1] = zk()
	}
	if !isInvalid(tt.At(2).Type()) {
		r[2] = zv()
	}
	fr.regs[ins.dst] = r
	return cNext
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (e *Eng) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := e.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	e.impl[k] = r
	return r
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (st *State) typeAssert(fr *Frame, ins *Ins, in *ssa.TypeAssert) ctl {
	e := st.eng
	x, ok := st.opdVal(fr, ins.ops[0]).(Iface)
	if !ok {
		panic(unsupported{"typeassert operand"})
	}
	t := in.AssertedType
	match := false
	var v Val
	if it, ok := t.Underlying().(*types.Interface); ok {
		if x.t != nil && e.implements(x.t, it) {
			match = true
			v = x
		}
	} else if x.t != nil && types.Identical(x.t, t) {
		match = true
		v = x.v
	}
	if in.CommaOk {
		if !match {
			v = e.zeroVal(t)
		}
		fr.regs[ins.dst] = Tuple{v, e.m.Bool(match)}
		return cNext
	}
	if !match {
		what := "nil"
		if x.t != nil {
			what = x.t.String()
		}
		st.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", what, t))
	}
	fr.regs[ins.dst] = v
	return cNext
}

// ---------- returns, panics, defers ----------

func (st *State) doReturn(g *G, rv Val) {
	n := len(g.frames)
	fr := g.frames[n-1]
	g.frames = g.frames[:n-1]
	if fr.isInit != nil {
		st.initDep--
	}
	if n == 1 {
		g.status = gDone
		return
	}
	below := st.wframe(g, n-2)
	if fr.isInit == nil && !fr.isDefer {
		below.calling = false
	}
	if fr.onRet != nil {
		fr.onRet(st, rv)
	}
	if fr.isDefer {
		if below.mode == fmPanic {
			st.continuePanic(g)
		}
		return
	}
	if fr.dst >= 0 {
		if rv == nil {
			rv = Tuple{}
		}
		below.regs[fr.dst] = rv
	}
}

// runOneDefer pops and invokes the last deferred call of fr (top frame).
func (st *State) runOneDefer(g *G, fr *Frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	c := st.invoke(g, fr, d.call, d.fn, d.args, -1, true)
	if c == cYield || c == cBlock {
		// retry later
		fr.defers = append(fr.defers, d)
		if c == cYield {
			panic(yieldNow{})
		}
		return
	}
	if c == cNext && fr.mode == fmPanic {
		// intrinsic completed without a frame
		st.continuePanic(g)
	}
}

type yieldNow struct{}

// startPanic begins unwinding goroutine g with value v.
func (st *State) startPanic(g *G, v Iface) {
	if len(g.frames) == 0 {
		panic(pathEnd{"crash", st.panicText(v)})
	}
	fr := st.wframe(g, len(g.frames)-1)
	fr.mode = fmPanic
	fr.panicVal = v
	fr.recovered = false
	st.continuePanic(g)
}

func (st *State) continuePanic(g *G) {
	for {
		n := len(g.frames)
		fr := st.wframe(g, n-1)
		if fr.recovered {
			fr.mode = fmNormal
			fr.recovered = false
			if rb := fr.fn.fn.Recover; rb != nil {
				fr.prev = fr.block
				fr.block = rb.Index
				fr.pc = 0
				return
			}
			var rv Val
			res := fr.fn.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				rv = st.eng.zeroVal(res.At(0).Type())
			default:
				rv = st.eng.zeroVal(res)
			}
			st.doReturn(g, rv)
			return
		}
		if len(fr.defers) > 0 {
			st.runOneDefer(g, fr)
			return
		}
		// propagate
		v := fr.panicVal
		if fr.isInit != nil {
			st.initDep--
		}
		g.frames = g.frames[:n-1]
		if n == 1 {
			g.status = gDone
			panic(pathEnd{"crash", st.panicText(v)})
		}
		below := st.wframe(g, n-2)
		below.mode = fmPanic
		below.panicVal = v
		below.recovered = false
	}
}

func (st *State) panicText(v Iface) string {
	if v.t == nil {
		return "panic(nil)"
	}
	switch s := v.v.(type) {
	case StrC:
		return string(s)
	case *SymStr:
		var sb strings.Builder
		for _, t := range s.b {
			if t.isConst() {
				sb.WriteByte(byte(t.val))
			} else {
				sb.WriteByte('?')
			}
		}
		return sb.String()
	case Ptr:
		// *errors.errorString and friends: first cell a string
		if s.obj != 0 {
			o := st.obj(s.obj)
			if o.n > 0 {
				if x, ok := o.get(s.off).(StrC); ok {
					return v.t.String() + ": " + string(x)
				}
			}
		}
	}
	return "panic value of type " + v.t.String()
}

var _ = math.Pi
