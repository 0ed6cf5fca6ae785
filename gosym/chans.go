package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// visible reports whether goroutine g has to yield before executing the pending
// operation (explore mode only).
func (st *State) visible(g *G, kind string, p Ptr) bool {
	if !st.explore || st.initDep > 0 {
		return false
	}
	if g.grant {
		g.grant = false
		g.hasPend = false
		g.inVis = true
		g.pend = blockInfo{}
		return false
	}
	g.hasPend = true
	g.pend = blockInfo{kind: kind, ptr: p}
	return true
}

func (st *State) mapVisible(g *G, id ObjID, write bool) bool {
	if !st.explore {
		return false
	}
	fr := g.frames[len(g.frames)-1]
	if !fr.fn.tracked {
		return false
	}
	k := "mapread"
	if write {
		k = "mapwrite"
	}
	if g.grant {
		return st.visible(g, k, Ptr{id, 0})
	}
	x := st.eng.goexp
	if id <= x.baseN && !x.access(g, accKey{id, -1}, write) {
		return false
	}
	return st.visible(g, k, Ptr{id, 0})
}

// memVisible reports whether a load or store of memory that existed when the
// exploration began has to be scheduled: only if it is shared without a common lock.
func (st *State) memVisible(g *G, fr *Frame, a Val, t types.Type, write bool) bool {
	if !fr.fn.tracked {
		return false
	}
	x := st.eng.goexp
	var p Ptr
	n := int32(1)
	switch q := a.(type) {
	case Ptr:
		p = q
		if isAgg(t) {
			n = int32(st.eng.ncells(t))
		}
	case *SymPtr:
		p = Ptr{q.obj, q.off}
		n = q.n * q.stride
	default:
		return false
	}
	if p.obj == 0 || p.obj > x.baseN {
		return false
	}
	if g.grant {
		return st.visible(g, "", p)
	}
	vis := false
	for i := int32(0); i < n; i++ {
		if x.access(g, accKey{p.obj, p.off + i}, write) {
			vis = true
		}
	}
	if !vis {
		return false
	}
	k := "memread"
	if write {
		k = "memwrite"
	}
	r := st.visible(g, k, p)
	g.pend.n = n
	return r
}

type accKey struct {
	obj ObjID
	off int32
}

type accInfo struct {
	by    map[int]map[Ptr]bool // goroutine -> locks held at every one of its accesses
	write bool
}

// access records an access of shared memory or a map (off -1) and reports whether it has
// to be a scheduling point. The first time a location turns out to be shared without a
// common lock the exploration is started over with that location visible.
func (x *Explorer) access(g *G, k accKey, write bool) bool {
	if x.unprot[k] {
		return true
	}
	in := x.acc[k]
	if in == nil {
		in = &accInfo{by: map[int]map[Ptr]bool{}}
		x.acc[k] = in
	}
	ls, ok := in.by[g.id]
	if !ok {
		ls = map[Ptr]bool{}
		for _, h := range g.held {
			if h.excl || !write {
				ls[h.p] = true
			}
		}
		in.by[g.id] = ls
	} else {
		for p := range ls {
			keep := false
			for _, h := range g.held {
				if h.p == p && (h.excl || !write) {
					keep = true
				}
			}
			if !keep {
				delete(ls, p)
			}
		}
	}
	in.write = in.write || write
	if !in.write || len(in.by) < 2 {
		return false
	}
	var common map[Ptr]bool
	for _, l := range in.by {
		c := map[Ptr]bool{}
		for p := range l {
			if common == nil || common[p] {
				c[p] = true
			}
		}
		common = c
	}
	if len(common) == 0 {
		x.unprot[k] = true
		x.dirty = true
		return true
	}
	return false
}

func (st *State) acquire(g *G, p Ptr, excl bool) {
	if st.explore {
		g.held = append(g.held[:len(g.held):len(g.held)], heldLock{p, excl})
	}
}

func (st *State) release(p Ptr) {
	if !st.explore {
		return
	}
	for i := st.cur; ; {
		for j, h := range st.gs[i].held {
			if h.p == p {
				g := st.wG(i)
				g.held = append(append([]heldLock(nil), g.held[:j]...), g.held[j+1:]...)
				return
			}
		}
		if i == st.cur {
			i = -1
		}
		i++
		if i == st.cur {
			i++
		}
		if i >= len(st.gs) {
			return
		}
	}
}

// ---------- channels ----------

func (st *State) dequeue(q []waiter) (waiter, []waiter) {
	w := q[0]
	return w, append([]waiter(nil), q[1:]...)
}

// unwait removes goroutine gi from all queues it waits in.
func (st *State) unwait(gi int) {
	g := st.gs[gi]
	for _, ch := range g.blk.ch {
		o := st.wobj(ch)
		f := func(q []waiter) []waiter {
			var r []waiter
			for _, w := range q {
				if w.g != gi {
					r = append(r, w)
				}
			}
			return r
		}
		o.recvq, o.sendq = f(o.recvq), f(o.sendq)
	}
}

// complete finishes the blocked channel operation of waiter w: recv tells whether it
// was receiving (v, ok delivered).
func (st *State) complete(w waiter, recv bool, v Val, ok bool) {
	st.unwait(w.g)
	g := st.wG(w.g)
	fr := st.wframe(g, len(g.frames)-1)
	ins := &fr.fn.blocks[fr.block].ins[fr.pc]
	g.status = gRun
	g.blk = blockInfo{}
	switch in := ins.in.(type) {
	case *ssa.UnOp:
		if in.CommaOk {
			fr.regs[ins.dst] = Tuple{v, st.eng.m.Bool(ok)}
		} else {
			fr.regs[ins.dst] = v
		}
	case *ssa.Send:
	case *ssa.Select:
		fr.regs[ins.dst] = st.selResult(in, w.kase, v, ok)
	default:
		panic(unsupported{fmt.Sprintf("channel completion at %T", ins.in)})
	}
	fr.pc++
}

func (st *State) selResult(in *ssa.Select, k int, v Val, ok bool) Tuple {
	e := st.eng
	r := Tuple{e.m.Const(64, uint64(int64(k))), e.m.Bool(ok)}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			if i == k {
				r = append(r, v)
			} else {
				r = append(r, e.zeroVal(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return r
}

func (st *State) chanElem(id ObjID) types.Type {
	return st.obj(id).typ.Underlying().(*types.Chan).Elem()
}

// trySend performs a send if it can proceed now.
func (st *State) trySend(id ObjID, v Val) bool {
	o := st.obj(id)
	if o.closed {
		panic(goPanic{Iface{t: st.eng.rtErrT, v: StrC("send on closed channel")}})
	}
	if len(o.recvq) > 0 {
		o = st.wobj(id)
		var w waiter
		w, o.recvq = st.dequeue(o.recvq)
		st.complete(w, true, v, true)
		return true
	}
	if len(o.buf) < int(o.capn) {
		o = st.wobj(id)
		o.buf = append(o.buf, v)
		return true
	}
	return false
}

func (st *State) sendNB(id ObjID, v Val) { st.trySend(id, v) }

func (st *State) tryRecv(id ObjID) (Val, bool, bool) {
	o := st.obj(id)
	if len(o.buf) > 0 {
		o = st.wobj(id)
		v := o.buf[0]
		o.buf = append([]Val(nil), o.buf[1:]...)
		if len(o.sendq) > 0 {
			var w waiter
			w, o.sendq = st.dequeue(o.sendq)
			o.buf = append(o.buf, w.val)
			st.complete(w, false, nil, false)
		}
		return v, true, true
	}
	if len(o.sendq) > 0 {
		o = st.wobj(id)
		var w waiter
		w, o.sendq = st.dequeue(o.sendq)
		st.complete(w, false, nil, false)
		return w.val, true, true
	}
	if o.closed {
		return st.eng.zeroVal(st.chanElem(id)), false, true
	}
	return nil, false, false
}

func (st *State) chanSend(g *G, id ObjID, v Val) ctl {
	if id == 0 {
		return st.block(g, blockInfo{kind: "send on nil channel"})
	}
	if st.trySend(id, v) {
		return cNext
	}
	o := st.wobj(id)
	o.sendq = append(o.sendq, waiter{g: g.id, kase: -1, val: v})
	return st.block(g, blockInfo{kind: "chan send", ptr: Ptr{id, 0}, ch: []ObjID{id}})
}

func (st *State) chanRecv(g *G, fr *Frame, id ObjID, in *ssa.UnOp) ctl {
	if id == 0 {
		return st.block(g, blockInfo{kind: "receive on nil channel"})
	}
	v, ok, done := st.tryRecv(id)
	if done {
		ins := &fr.fn.blocks[fr.block].ins[fr.pc]
		if in.CommaOk {
			fr.regs[ins.dst] = Tuple{v, st.eng.m.Bool(ok)}
		} else {
			fr.regs[ins.dst] = v
		}
		return cNext
	}
	o := st.wobj(id)
	o.recvq = append(o.recvq, waiter{g: g.id, kase: -1})
	return st.block(g, blockInfo{kind: "chan receive", ptr: Ptr{id, 0}, ch: []ObjID{id}})
}

func (st *State) doSelect(g *G, fr *Frame, ins *Ins, in *ssa.Select) ctl {
	if st.visible(g, "select", Ptr{}) {
		return cYield
	}
	var ready []int
	for i, s := range in.States {
		id := ObjID(st.opdVal(fr, ins.ops[2*i]).(ChanRef))
		if id == 0 {
			continue
		}
		o := st.obj(id)
		if s.Dir == types.RecvOnly {
			if len(o.buf) > 0 || len(o.sendq) > 0 || o.closed {
				ready = append(ready, i)
			}
		} else {
			if o.closed || len(o.recvq) > 0 || len(o.buf) < int(o.capn) {
				ready = append(ready, i)
			}
		}
	}
	if len(ready) > 0 {
		k := ready[0]
		if len(ready) > 1 {
			k = ready[st.choose("select", len(ready))]
		}
		s := in.States[k]
		id := ObjID(st.opdVal(fr, ins.ops[2*k]).(ChanRef))
		if s.Dir == types.RecvOnly {
			v, ok, _ := st.tryRecv(id)
			fr.regs[ins.dst] = st.selResult(in, k, v, ok)
		} else {
			st.trySend(id, st.opdVal(fr, ins.ops[2*k+1]))
			fr.regs[ins.dst] = st.selResult(in, k, nil, false)
		}
		return cNext
	}
	if !in.Blocking {
		fr.regs[ins.dst] = st.selResult(in, -1, nil, false)
		return cNext
	}
	bi := blockInfo{kind: "select"}
	for i, s := range in.States {
		id := ObjID(st.opdVal(fr, ins.ops[2*i]).(ChanRef))
		if id == 0 {
			continue
		}
		bi.ch = append(bi.ch, id)
		o := st.wobj(id)
		if s.Dir == types.RecvOnly {
			o.recvq = append(o.recvq, waiter{g: g.id, kase: i})
		} else {
			o.sendq = append(o.sendq, waiter{g: g.id, kase: i, val: st.opdVal(fr, ins.ops[2*i+1])})
		}
	}
	return st.block(g, bi)
}

func (st *State) chanClose(id ObjID) {
	if id == 0 {
		st.rtPanic("close of nil channel")
	}
	o := st.obj(id)
	if o.closed {
		panic(goPanic{Iface{t: st.eng.rtErrT, v: StrC("close of closed channel")}})
	}
	o = st.wobj(id)
	o.closed = true
	for len(o.recvq) > 0 {
		var w waiter
		w, o.recvq = st.dequeue(o.recvq)
		st.complete(w, true, st.eng.zeroVal(st.chanElem(id)), false)
		o = st.wobj(id)
	}
	if len(o.sendq) > 0 {
		panic(unsupported{"close with blocked senders"})
	}
}

// choose makes an internal nondeterministic choice (scheduler-like), 0..n-1, by
// forking over a fresh variable.
func (st *State) choose(name string, n int) int {
	m := st.eng.m
	st.ndCount(name)
	k := st.ndCnt[name]
	v := m.Var(fmt.Sprintf("%s!%d", name, k), 8)
	var c *Term = m.Ult(v, m.Const(8, uint64(n)))
	if f, ok := st.fact(c); !ok || !f {
		// always satisfiable together with the path condition: v is unconstrained or already bounded
		r, md := st.query(c)
		if r != Sat {
			panic(pathEnd{"assume", "choice"})
		}
		st.assumeT(c, md)
	}
	x := int(st.concretize(v))
	st.ndBump(name)
	return x
}

func (st *State) ndCount(name string) int { return st.ndCnt[name] }
func (st *State) ndBump(name string) {
	if !st.ow.ndCnt {
		n := make(map[string]int, len(st.ndCnt)+1)
		for k, v := range st.ndCnt {
			n[k] = v
		}
		st.ndCnt = n
		st.ow.ndCnt = true
	}
	st.ndCnt[name]++
}
