package main

// Schedule exploration. From the state in which a harness calls vrt.Sched on, the
// choice of which goroutine performs its next visible operation is a symbolic
// variable per step (sched_k). States are advanced layer by layer; structurally
// identical states of one layer are merged and their schedule guards disjoined, so a
// state stands for every schedule that leads to it. Assertions are decided by the
// solver under the state's path condition; a failing one is solved again together
// with the guard, which yields the schedule of the counterexample.

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"go/types"
	"hash"
	"os"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Explorer struct {
	e      *Eng
	base   *State
	baseN  ObjID
	next   map[string]*State
	order  []string
	seen   map[string]bool
	vars   []*Term // sched_k
	layer  int
	pend   []*State // forks of the step in progress
	maxSt  int
	bad    *Term
	acc    map[accKey]*accInfo
	unprot map[accKey]bool // locations shared without a common lock
	dirty  bool            // a new one was found: start over
	kinds  map[string]int  // debug: transitions by operation
}

func (e *Eng) startExplore(c *callCtx) ctl {
	if c.st.explore {
		panic(unsupported{"nested Sched"})
	}
	c.fr.pc++
	st := c.st
	st.explore = true
	st.tbudget = c.st.concInt(c.args[0])
	st.preempt = c.st.concInt(c.args[1])
	st.sched = nil
	x := &Explorer{e: e, base: st.fork(), baseN: ObjID(st.nobj), maxSt: 3_000_000, bad: e.m.False, unprot: map[accKey]bool{}, acc: map[accKey]*accInfo{}}
	if os.Getenv("VERIF_DEBUG") != "" {
		x.kinds = map[string]int{}
	}
	e.goexp = x
	nv, fv := len(e.viols), e.freshViols
	for {
		saved, vk := e.stats, map[string]int{}
		for k, v := range e.vkeys {
			vk[k] = v
		}
		x.seen, x.next, x.order, x.layer, x.vars, x.pend, x.dirty = map[string]bool{}, nil, nil, 0, nil, nil, false
		st0 := st.forkQuiet()
		x.run(st)
		if !x.dirty {
			break
		}
		// some location is shared without a lock: explore again with its accesses
		// as scheduling points
		st = st0
		e.stats, e.vkeys, e.viols, e.freshViols, e.stop = saved, vk, e.viols[:nv], fv, false
		e.stats.Restarts++
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		for k := range x.unprot {
			fmt.Fprintf(os.Stderr, "unprotected: object %d offset %d (%v)\n", k.obj, k.off, x.base.obj(k.obj).kind)
		}
		for k, n := range x.kinds {
			fmt.Fprintln(os.Stderr, n, k)
		}
	}
	e.goexp = nil
	panic(pathEnd{"handed", ""})
}

// settle runs every goroutine that is not poised at a visible operation, blocked or
// done. Forks land in x.pend. Returns false if the path ended.
func (x *Explorer) settle(st *State) bool {
	for {
		progressed := false
		for i := 0; i < len(st.gs); i++ {
			g := st.gs[i]
			if g.status != gRun || g.hasPend {
				continue
			}
			st.cur = i
			end := x.e.runLoop(st)
			if end.kind != "yield" {
				x.ended(st, end)
				return false
			}
			progressed = true
			if st.gs[0].status == gDone {
				x.ended(st, pathEnd{"done", ""})
				return false
			}
		}
		if !progressed {
			return true
		}
	}
}

func (x *Explorer) ended(st *State, end pathEnd) {
	x.e.finish(st, end)
}

func (x *Explorer) drain(handle func(*State)) {
	for len(x.pend) > 0 {
		s := x.pend[len(x.pend)-1]
		x.pend = x.pend[:len(x.pend)-1]
		// the forked goroutine re-executes its instruction with the choice made
		g := s.wG(s.cur)
		if g.status == gRun && !g.hasPend {
			g.grant = g.inVis
			end := x.e.runLoop(s)
			if end.kind != "yield" {
				x.ended(s, end)
				continue
			}
			gg := s.wG(s.cur)
			gg.grant = false
			if s.gs[0].status == gDone {
				x.ended(s, pathEnd{"done", ""})
				continue
			}
		}
		handle(s)
	}
}

func (x *Explorer) run(st *State) {
	e := x.e
	saved := e.sink
	e.sink = func(s *State) { x.pend = append(x.pend, s) }
	defer func() { e.sink = saved }()
	x.next = map[string]*State{}
	var add func(s *State)
	add = func(s *State) {
		if !x.settle(s) {
			return
		}
		x.add(s)
	}
	add(st)
	x.drain(add)
	for len(x.order) > 0 && !e.stop && !x.dirty {
		cur, ord := x.next, x.order
		x.next, x.order = map[string]*State{}, nil
		x.layer++
		if x.layer > e.stats.Layers {
			e.stats.Layers = x.layer
		}
		sv := e.m.Var(fmt.Sprintf("sched_%d", x.layer), 8)
		x.vars = append(x.vars, sv)
		for oi, k := range ord {
			s := cur[k]
			delete(cur, k)
			if e.stop || x.dirty {
				return
			}
			if oi&63 == 0 && (e.late() || atomic.LoadInt32(&memHigh) == 1 && len(x.seen) > 100_000) || e.stats.States > x.maxSt {
				e.incomplete(fmt.Sprintf("schedule exploration stopped in layer %d", x.layer))
				return
			}
			x.expand(s, sv, add)
		}
	}
}

func (x *Explorer) add(s *State) {
	k := x.key(s)
	if x.seen[k] {
		if o, ok := x.next[k]; ok {
			o.guard = x.e.m.Or(o.guard, s.guard)
		}
		return
	}
	x.seen[k] = true
	x.next[k] = s
	x.order = append(x.order, k)
	x.e.stats.States++
	x.conflicts(s)
}

// conflicts reports two goroutines poised at conflicting map or memory accesses.
func (x *Explorer) conflicts(s *State) {
	if x.dirty {
		return
	}
	for i, a := range s.gs {
		if a.status != gRun || len(a.pend.kind) < 3 {
			continue
		}
		t := a.pend.kind[:3]
		if t != "map" && t != "mem" {
			continue
		}
		for _, b := range s.gs[i+1:] {
			if b.status != gRun || !strings.HasPrefix(b.pend.kind, t) || b.pend.ptr.obj != a.pend.ptr.obj {
				continue
			}
			if !strings.HasSuffix(a.pend.kind, "write") && !strings.HasSuffix(b.pend.kind, "write") {
				continue
			}
			if t == "mem" && (a.pend.ptr.off+a.pend.n <= b.pend.ptr.off || b.pend.ptr.off+b.pend.n <= a.pend.ptr.off) {
				continue
			}
			s.cur = i
			x.e.stats.Crashes++
			msg := "fatal error: concurrent map accesses"
			if t == "mem" {
				msg = "data race: unsynchronised accesses of shared memory"
			}
			x.e.violation(s, "crash", msg, s.model, nil)
		}
	}
}

func (x *Explorer) enabled(s *State, i int) bool {
	g := s.gs[i]
	if g.status != gRun {
		return false
	}
	p := g.pend
	switch p.kind {
	case "lock":
		return s.cell(p.ptr, 0) == 0
	case "rwlock":
		return s.cell(p.ptr, 0) == 0 && s.cell(p.ptr, 2) == 0
	case "rlock":
		return s.cell(p.ptr, 0) == 0
	case "wg":
		return s.cell(p.ptr, 0) == 0
	case "cond":
		return s.condFired(p.ptr, p.tick)
	case "idle":
		return false // decided by the caller
	}
	return true
}

func (x *Explorer) expand(s *State, sv *Term, add func(*State)) {
	e := x.e
	var en []int
	for i := range s.gs {
		if x.enabled(s, i) {
			en = append(en, i)
		}
	}
	if len(en) == 0 {
		for i, g := range s.gs {
			if g.status == gRun && g.pend.kind == "idle" {
				en = append(en, i)
			}
		}
	}
	fireable := len(s.timers) > 0 && (s.tbudget > 0 || len(en) == 0)
	if len(en) == 0 && !fireable {
		e.stats.Deadlocks++
		s.cur = 0
		e.violation(s, "deadlock", "no goroutine can proceed: "+s.pendText(), s.model, nil)
		return
	}
	last := -1
	lastEn := false
	if s.preempt >= 0 && s.sched != nil {
		last = s.sched.g
		for _, i := range en {
			if i == last {
				lastEn = true
			}
		}
	}
	for n, i := range en {
		if lastEn && i != last && s.preempt == 0 {
			continue
		}
		ns := s
		if n < len(en)-1 || fireable || lastEn {
			ns = s.forkQuiet()
		}
		if lastEn && i != last {
			ns.preempt--
		}
		e.stats.Trans++
		ns.guard = e.m.And(ns.guard, e.m.Eq(sv, e.m.Const(8, uint64(i))))
		ns.cur = i
		g := ns.wG(i)
		ns.sched = &schedRec{ns.sched, i, x.what(ns, g), x.layer}
		if x.kinds != nil {
			x.kinds[ns.sched.what]++
		}
		g.grant = true
		g.hasPend = false
		g.pend = blockInfo{}
		end := e.runLoop(ns)
		if end.kind != "yield" {
			x.ended(ns, end)
		} else {
			ns.wG(i).grant = false
			if ns.gs[0].status == gDone {
				x.ended(ns, pathEnd{"done", ""})
			} else {
				add(ns)
			}
		}
		x.drain(add)
		if e.stop {
			return
		}
	}
	if fireable {
		for i := range s.timers {
			ns := s.forkQuiet()
			if len(en) > 0 {
				ns.tbudget--
			}
			e.stats.Trans++
			ns.guard = e.m.And(ns.guard, e.m.Eq(sv, e.m.Const(8, uint64(100+i))))
			ns.sched = &schedRec{ns.sched, 100 + i, "timer expires", x.layer}
			ns.fire(i)
			add(ns)
			x.drain(add)
		}
	}
}

// forkQuiet forks without changing which goroutine is current.
func (st *State) forkQuiet() *State {
	c := st.cur
	st.cur = -1
	n := st.fork()
	st.cur = c
	n.cur = c
	return n
}

func (x *Explorer) what(s *State, g *G) string {
	w := g.pend.kind
	for j := len(g.frames) - 1; j >= 0; j-- {
		f := g.frames[j]
		if f.fn.repo {
			b := f.fn.blocks[f.block]
			pc := f.pc
			if pc >= len(b.ins) {
				pc = len(b.ins) - 1
			}
			w += " in " + f.fn.name + " " + s.eng.pr.pos(b.ins[pc].in.Pos())
			break
		}
	}
	return w
}

func (st *State) pendText() string {
	var out []string
	for _, g := range st.gs {
		if g.status == gDone {
			continue
		}
		k := g.pend.kind
		if g.status == gBlocked {
			k = g.blk.kind
		}
		where := ""
		for i := len(g.frames) - 1; i >= 0; i-- {
			if g.frames[i].fn.repo {
				where = g.frames[i].fn.name
				break
			}
		}
		out = append(out, fmt.Sprintf("g%d at %s in %s", g.id, k, where))
	}
	return strings.Join(out, "; ")
}

// ---------- canonical keys ----------

type canon struct {
	st    *State
	x     *Explorer
	h     hash.Hash
	buf   []byte
	ids   map[ObjID]int
	queue []ObjID
	vars  map[uint32]bool
}

func (c *canon) u(v uint64) { c.buf = binary.AppendUvarint(c.buf, v) }
func (c *canon) s(s string) { c.u(uint64(len(s))); c.buf = append(c.buf, s...) }

func (c *canon) ref(id ObjID) {
	if id <= c.x.baseN {
		c.u(uint64(id) << 1)
		return
	}
	n, ok := c.ids[id]
	if !ok {
		n = len(c.ids)
		c.ids[id] = n
		c.queue = append(c.queue, id)
	}
	c.u(uint64(n)<<1 | 1)
}

func (c *canon) val(v Val) {
	switch v := v.(type) {
	case nil:
		c.u(0)
	case *Term:
		c.u(1)
		c.u(uint64(v.id))
		if !v.isConst() {
			for _, x := range c.st.eng.m.Vars(v) {
				c.vars[x] = true
			}
		}
	case Flt:
		c.u(2)
		c.s(fmt.Sprint(float64(v)))
	case StrC:
		c.u(3)
		c.s(string(v))
	case *SymStr:
		c.u(4)
		c.u(uint64(len(v.b)))
		for _, t := range v.b {
			c.val(t)
		}
	case Ptr:
		c.u(5)
		c.ref(v.obj)
		c.u(uint64(v.off))
	case *SymPtr:
		c.u(6)
		c.ref(v.obj)
		c.u(uint64(v.off))
		c.u(uint64(v.stride))
		c.u(uint64(v.n))
		c.u(uint64(v.sub))
		c.val(v.idx)
	case Slice:
		c.u(7)
		c.ref(v.obj)
		c.u(uint64(v.off))
		c.u(uint64(v.len))
		c.u(uint64(v.cap))
		c.u(b2u(v.nonNil))
	case Iface:
		c.u(8)
		if v.t == nil {
			c.u(0)
		} else {
			c.s(c.x.e.typeKey(v.t))
			c.val(v.v)
		}
	case MapRef:
		c.u(9)
		c.ref(ObjID(v))
	case ChanRef:
		c.u(10)
		c.ref(ObjID(v))
	case *Closure:
		c.u(11)
		if v == nil {
			c.u(0)
			return
		}
		c.s(v.fn.String())
		for _, x := range v.env {
			c.val(x)
		}
	case Agg:
		c.u(12)
		c.u(uint64(len(v)))
		for _, x := range v {
			c.val(x)
		}
	case Tuple:
		c.u(13)
		c.u(uint64(len(v)))
		for _, x := range v {
			c.val(x)
		}
	case *Iter:
		c.u(14)
		c.ref(v.obj)
		c.ref(ObjID(v.m))
		for _, k := range v.keys {
			c.val(k)
		}
		if v.str != nil {
			c.val(v.str)
		}
	case *Poison:
		c.u(15)
	case *ssa.Builtin:
		c.u(16)
		c.s(v.Name())
	default:
		panic(fmt.Sprintf("canon %T", v))
	}
}

func (c *canon) object(o *Obj) {
	c.u(uint64(o.kind))
	switch o.kind {
	case kMem:
		c.u(uint64(o.n))
		if o.tmpl != nil {
			c.ref(o.tmpl.ch)
			c.u(uint64(o.tmpl.period))
			if o.tmpl.fn != nil {
				c.val(o.tmpl.fn)
			}
		}
		for i := int32(0); i < o.n; i++ {
			if i%chunkN == 0 && o.chunks[i/chunkN] == nil {
				c.u(99)
				i += chunkN - 1
				continue
			}
			c.val(o.get(i))
		}
	case kMap:
		c.u(uint64(len(o.mkeys)))
		// sort concrete string keys so that insertion order does not matter
		idx := make([]int, len(o.mkeys))
		for i := range idx {
			idx[i] = i
		}
		allStr := true
		for _, k := range o.mkeys {
			if _, ok := k.(StrC); !ok {
				allStr = false
			}
		}
		if allStr {
			sort.Slice(idx, func(a, b int) bool { return o.mkeys[idx[a]].(StrC) < o.mkeys[idx[b]].(StrC) })
		}
		for _, i := range idx {
			c.val(o.mkeys[i])
			c.val(o.mvals[i])
		}
	case kChan:
		c.u(uint64(o.capn))
		c.u(b2u(o.closed))
		c.u(uint64(len(o.buf)))
		for _, v := range o.buf {
			c.val(v)
		}
		for _, q := range [][]waiter{o.recvq, o.sendq} {
			c.u(uint64(len(q)))
			for _, w := range q {
				c.u(uint64(w.g))
				c.u(uint64(w.kase + 1))
				if w.val != nil {
					c.val(w.val)
				}
			}
		}
	}
}

func (e *Eng) typeKey(t types.Type) string {
	e.pr.mu.Lock()
	defer e.pr.mu.Unlock()
	if s, ok := e.pr.tkeys[t]; ok {
		return s
	}
	s := t.String()
	e.pr.tkeys[t] = s
	return s
}

func (x *Explorer) key(st *State) string {
	c := &canon{st: st, x: x, ids: map[ObjID]int{}, vars: map[uint32]bool{}}
	c.u(uint64(len(st.gs)))
	for _, g := range st.gs {
		c.u(uint64(g.status))
		if g.status == gDone {
			continue
		}
		c.u(b2u(g.hasPend))
		c.s(g.pend.kind)
		if g.pend.n > 0 {
			c.ref(g.pend.ptr.obj)
			c.u(uint64(g.pend.ptr.off))
			c.u(uint64(g.pend.n))
		}
		c.s(g.blk.kind)
		c.ref(g.blk.ptr.obj)
		c.u(uint64(g.blk.ptr.off))
		c.u(uint64(len(g.frames)))
		for fi, f := range g.frames {
			c.u(uint64(f.fn.uid))
			c.u(uint64(f.block))
			c.u(uint64(f.pc))
			c.u(uint64(f.mode))
			c.u(uint64(f.dst + 1))
			skip := -1
			if fi+1 < len(g.frames) && !g.frames[fi+1].isDefer {
				skip = g.frames[fi+1].dst
			}
			for _, r := range f.fn.liveAt(f.block, f.pc) {
				if r == skip {
					continue
				}
				c.val(f.regs[r])
			}
			c.u(uint64(len(f.defers)))
			for _, d := range f.defers {
				c.val(d.fn)
				for _, a := range d.args {
					c.val(a)
				}
			}
			if f.mode == fmPanic {
				c.val(f.panicVal)
			}
		}
	}
	// side tables
	pl := make([]Ptr, 0, len(st.pools))
	for p := range st.pools {
		pl = append(pl, p)
	}
	sort.Slice(pl, func(i, j int) bool { return pl[i].obj < pl[j].obj || pl[i].obj == pl[j].obj && pl[i].off < pl[j].off })
	for _, p := range pl {
		c.val(p)
		for _, v := range st.pools[p] {
			c.val(v)
		}
		c.u(0)
	}
	pl = pl[:0]
	for p := range st.conds {
		pl = append(pl, p)
	}
	sort.Slice(pl, func(i, j int) bool { return pl[i].obj < pl[j].obj || pl[i].obj == pl[j].obj && pl[i].off < pl[j].off })
	for _, p := range pl {
		c.val(p)
		for _, v := range st.conds[p] {
			c.u(uint64(v))
		}
		c.u(0)
	}
	c.u(uint64(len(st.timers)))
	for _, t := range st.timers {
		c.ref(t.ch)
		c.u(uint64(t.g + 1))
		c.u(uint64(t.when - st.now))
		c.u(uint64(t.period))
		c.ref(t.own)
		if t.fn != nil {
			c.val(t.fn)
		}
	}
	c.u(uint64(st.tbudget))
	if st.preempt >= 0 {
		c.u(uint64(st.preempt))
		if st.sched != nil {
			c.u(uint64(st.sched.g))
		}
	}
	nk := make([]string, 0, len(st.ndCnt))
	for k := range st.ndCnt {
		nk = append(nk, k)
	}
	sort.Strings(nk)
	for _, k := range nk {
		c.s(k)
		c.u(uint64(st.ndCnt[k]))
	}
	// base objects modified since the hand-over
	bp := x.base.pages
	for pi, p := range st.pages {
		if p == nil || pi*pageN > int(x.baseN) {
			continue
		}
		if pi < len(bp) && bp[pi] == p {
			continue
		}
		for j, o := range p.o {
			id := ObjID(pi*pageN + j)
			if o == nil || id > x.baseN {
				continue
			}
			if pi < len(bp) && bp[pi] != nil && bp[pi].o[j] == o {
				continue
			}
			c.u(uint64(id))
			c.object(o)
		}
	}
	for len(c.queue) > 0 {
		id := c.queue[0]
		c.queue = c.queue[1:]
		c.object(st.obj(id))
	}
	// path-condition conjuncts that still matter
	var ids []int
	if len(st.pc) > 0 {
		in := make([]bool, len(st.pc))
		for ch := true; ch; {
			ch = false
			for i, p := range st.pc {
				if in[i] {
					continue
				}
				for _, v := range st.eng.m.Vars(p) {
					if c.vars[v] {
						in[i] = true
						break
					}
				}
				if in[i] {
					ch = true
					for _, v := range st.eng.m.Vars(p) {
						c.vars[v] = true
					}
					ids = append(ids, int(p.id))
				}
			}
		}
		sort.Ints(ids)
	}
	for _, i := range ids {
		c.u(uint64(i))
	}
	sum := sha256.Sum256(c.buf)
	return string(sum[:20])
}

// ---------- liveness of registers ----------

func (f *Fn) liveAt(block, pc int) []int {
	if f.liveMemo == nil {
		f.computeLive()
	}
	k := block<<20 | pc
	if r, ok := f.liveMemo[k]; ok {
		return r
	}
	b := f.blocks[block]
	live := map[int]bool{}
	for r := range f.liveOut[block] {
		live[r] = true
	}
	for i := len(b.ins) - 1; i >= pc; i-- {
		if b.ins[i].dst >= 0 {
			delete(live, b.ins[i].dst)
		}
		for _, o := range b.ins[i].ops {
			if o.kind == oReg {
				live[o.reg] = true
			}
		}
	}
	r := make([]int, 0, len(live))
	for x := range live {
		r = append(r, x)
	}
	sort.Ints(r)
	f.liveMemo[k] = r
	return r
}

func (f *Fn) computeLive() {
	f.liveMemo = map[int][]int{}
	n := len(f.blocks)
	in := make([]map[int]bool, n)
	out := make([]map[int]bool, n)
	for i := range in {
		in[i], out[i] = map[int]bool{}, map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			sb := f.fn.Blocks[i]
			o := out[i]
			for _, s := range sb.Succs {
				t := s.Index
				for r := range in[t] {
					if !o[r] {
						o[r] = true
						ch = true
					}
				}
				ei := f.blocks[t].edge[i]
				for _, p := range f.blocks[t].phis {
					if op := p.opds[ei]; op.kind == oReg && !o[op.reg] {
						o[op.reg] = true
						ch = true
					}
				}
			}
			cur := map[int]bool{}
			for r := range o {
				cur[r] = true
			}
			b := f.blocks[i]
			for j := len(b.ins) - 1; j >= 0; j-- {
				if b.ins[j].dst >= 0 {
					delete(cur, b.ins[j].dst)
				}
				for _, op := range b.ins[j].ops {
					if op.kind == oReg {
						cur[op.reg] = true
					}
				}
			}
			for _, p := range b.phis {
				delete(cur, p.dst)
			}
			for r := range cur {
				if !in[i][r] {
					in[i][r] = true
					ch = true
				}
			}
		}
	}
	// a recovered frame may resume in the recover block
	f.liveOut = out
	if f.fn.Recover != nil {
		for i := range out {
			for r := range in[f.fn.Recover.Index] {
				out[i][r] = true
			}
		}
	}
}
