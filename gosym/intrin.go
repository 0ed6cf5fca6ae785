package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vrtPath = "github.com/flawedmatrix/gocryptsftp/zzverif/vrt"

var intrinsics map[string]intrinsic

func init() {
	V := func(n string) string { return vrtPath + "." + n }
	in := map[string]intrinsic{}
	intrinsics = in
	nop := func(c *callCtx) ctl { return c.ret(Tuple{}) }

	// ----- harness interface -----
	in[V("Symbolic")] = func(c *callCtx) ctl { return c.ret(c.e.m.True) }
	in[V("Bound")] = func(c *callCtx) ctl {
		if c.e.pr.tier == 0 {
			return c.ret(c.args[0])
		}
		return c.ret(c.args[1])
	}
	nd := func(kind string, w uint8) intrinsic {
		return func(c *callCtx) ctl {
			return c.ret(c.st.ndVar(c.str(0), kind, w, 1)[0])
		}
	}
	in[V("Byte")] = nd("byte", 8)
	in[V("Uint16")] = nd("u16", 16)
	in[V("Uint32")] = nd("u32", 32)
	in[V("Uint64")] = nd("u64", 64)
	in[V("Int64")] = nd("i64", 64)
	in[V("Bool")] = func(c *callCtx) ctl {
		return c.ret(c.st.ndVar(c.str(0), "bool", 0, 1)[0])
	}
	in[V("Int")] = func(c *callCtx) ctl { return c.ret(c.st.ndRange(c.str(0), c.args[1].(*Term), c.args[2].(*Term))) }
	in[V("Choose")] = func(c *callCtx) ctl {
		name := c.str(0)
		t, key := c.st.ndRangeT(name, c.args[1].(*Term), c.args[2].(*Term))
		v := c.st.concretize(t) // may fork; the counter moves only afterwards
		c.st.ndBump(name)
		c.st.nd = &ndRec{c.st.nd, key, []*Term{c.e.m.Const(64, v)}, "int"}
		return c.ret(c.e.m.Const(64, v))
	}
	in[V("Bytes")] = func(c *callCtx) ctl {
		n := c.st.concInt(c.args[1])
		ts := c.st.ndVar(c.str(0), "bytes", 8, n)
		return c.ret(c.st.bytesToSlice(ts))
	}
	in[V("String")] = func(c *callCtx) ctl {
		n := c.st.concInt(c.args[1])
		ts := c.st.ndVar(c.str(0), "bytes", 8, n)
		return c.ret(c.e.mkStr(ts))
	}
	in[V("FreshBytes")] = func(c *callCtx) ctl {
		n := c.st.concInt(c.args[1])
		name := c.str(0)
		k := c.st.ndCnt["fresh:"+name]
		c.st.ndBump("fresh:" + name)
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = c.e.m.Var(fmt.Sprintf("fresh:%s#%d[%d]", name, k, i), 8)
		}
		return c.ret(c.st.bytesToSlice(ts))
	}
	in[V("Concrete")] = func(c *callCtx) ctl {
		t := c.args[0].(*Term)
		return c.ret(c.e.m.Const(t.w, c.st.concretize(t)))
	}
	in[V("Assume")] = func(c *callCtx) ctl {
		t := c.args[0].(*Term)
		if v, ok := c.st.fact(t); ok {
			if !v {
				panic(pathEnd{"assume", ""})
			}
			return cNext
		}
		if c.e.m.Eval(t, c.st.model) == 1 {
			c.st.assumeT(t, c.st.model)
			return cNext
		}
		r, md := c.st.query(t)
		if r != Sat {
			panic(pathEnd{"assume", ""})
		}
		c.st.assumeT(t, md)
		return cNext
	}
	in[V("Prefer")] = func(c *callCtx) ctl {
		t := c.args[0].(*Term)
		if !t.isConst() {
			c.st.soft = append(c.st.soft[:len(c.st.soft):len(c.st.soft)], t)
		}
		return cNext
	}
	in[V("Assert")] = func(c *callCtx) ctl {
		c.st.assert(c.args[0].(*Term), c.strOr(1, "?"))
		return cNext
	}
	in[V("Fail")] = func(c *callCtx) ctl {
		c.st.assert(c.e.m.False, c.strOr(0, "?"))
		return cNext
	}
	in[V("Stop")] = func(c *callCtx) ctl { panic(pathEnd{"done", ""}) }
	in[V("Reach")] = func(c *callCtx) ctl { c.st.reached[c.str(0)] = true; return cNext }
	in[V("Observe")] = func(c *callCtx) ctl {
		ts := c.st.flatten(c.args[1])
		c.st.obs = &obsRec{c.st.obs, c.str(0), ts}
		return cNext
	}
	in[V("Override")] = func(c *callCtx) ctl {
		name := c.str(0)
		v := c.args[1].(Iface)
		n := make(map[string]Val, len(c.st.over)+1)
		for k, x := range c.st.over {
			n[k] = x
		}
		if v.t == nil {
			delete(n, name)
		} else {
			if !c.e.pr.known(name) {
				// a refactoring may have removed the function; the override is then moot
				c.e.unmod["(unused override) "+name]++
			}
			n[name] = v.v.(*Closure)
		}
		c.st.over = n
		return cNext
	}
	b2 := func(f func(m *TermMgr, a, b *Term) *Term) intrinsic {
		return func(c *callCtx) ctl { return c.ret(f(c.e.m, c.args[0].(*Term), c.args[1].(*Term))) }
	}
	in[V("And")] = b2((*TermMgr).And)
	in[V("Or")] = b2((*TermMgr).Or)
	in[V("Implies")] = b2(func(m *TermMgr, a, b *Term) *Term { return m.Or(m.Not(a), b) })
	in[V("IteByte")] = func(c *callCtx) ctl {
		return c.ret(c.e.m.Ite(c.args[0].(*Term), c.args[1].(*Term), c.args[2].(*Term)))
	}
	in[V("IteInt")] = in[V("IteByte")]
	in[V("EqBytes")] = func(c *callCtx) ctl {
		a, b := c.args[0].(Slice), c.args[1].(Slice)
		if a.len != b.len {
			return c.ret(c.e.m.False)
		}
		return c.ret(c.e.bytesEq(c.st.sliceBytes(a), c.st.sliceBytes(b)))
	}
	in[V("Mask")] = func(c *callCtx) ctl {
		seed, ok := c.args[1].(*Term)
		if !ok || seed.op != OpConst {
			panic(unsupported{"Mask with a symbolic seed"})
		}
		src := c.st.sliceBytes(c.args[0].(Slice))
		out := make([]*Term, len(src))
		for i, t := range src {
			out[i] = c.e.m.BXor(t, c.e.m.Const(8, uint64(byte(i)*29+byte(seed.val)*113+77)))
		}
		return c.ret(c.st.bytesToSlice(out))
	}
	in[V("EqString")] = func(c *callCtx) ctl { return c.ret(c.e.strEq(c.args[0], c.args[1])) }
	in[V("Sched")] = func(c *callCtx) ctl { return c.e.startExplore(c) }
	in[V("Quiet")] = func(c *callCtx) ctl { // true if every other goroutine is blocked or done
		for i, g := range c.st.gs {
			if i != c.st.cur && g.status == gRun {
				return c.ret(c.e.m.False)
			}
		}
		return c.ret(c.e.m.True)
	}
	in[V("Yield")] = func(c *callCtx) ctl {
		if c.st.visible(c.g, "yield", Ptr{}) {
			return cYield
		}
		return cNext
	}
	in[V("WaitIdle")] = func(c *callCtx) ctl {
		// sequential: run everything else until it blocks
		if c.st.explore {
			if c.st.visible(c.g, "idle", Ptr{}) {
				return cYield
			}
			return cNext
		}
		others := false
		for i, g := range c.st.gs {
			if i != c.st.cur && g.status == gRun {
				others = true
			}
		}
		if others {
			c.st.pickNext()
			return cStay
		}
		return cNext
	}
	in[V("Elapse")] = func(c *callCtx) ctl { // time passes, with what is due on channels
		end := c.st.now + int64(c.st.concInt(c.args[0]))
		for n := 0; n < 10000; n++ {
			best := -1
			for i, t := range c.st.timers {
				if t.g < 0 && t.when <= end && (best < 0 || t.when < c.st.timers[best].when) {
					best = i
				}
			}
			if best < 0 {
				break
			}
			c.st.fire(best)
		}
		if end > c.st.now {
			c.st.now = end
		}
		return cNext
	}
	in[V("NoTimers")] = func(c *callCtx) ctl {
		c.st.tbudget = 0
		return c.ret(Tuple{})
	}
	in[V("FireTimers")] = func(c *callCtx) ctl {
		for n := len(c.st.timers) + 8; len(c.st.timers) > 0 && n > 0; n-- {
			c.st.fireTimer()
		}
		return cNext
	}
	in[V("Comparable")] = func(c *callCtx) ctl {
		v := c.args[0].(Iface)
		return c.ret(c.e.m.Bool(v.t == nil || types.Comparable(v.t)))
	}
	// fields of a struct, given a pointer to it
	fields := func(c *callCtx) (*types.Struct, Ptr) {
		v := c.args[0].(Iface)
		if v.t != nil {
			if pt, ok := v.t.Underlying().(*types.Pointer); ok {
				if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
					return st, v.v.(Ptr)
				}
			}
		}
		return nil, Ptr{}
	}
	in[V("NumField")] = func(c *callCtx) ctl {
		st, _ := fields(c)
		n := 0
		if st != nil {
			n = st.NumFields()
		}
		return c.ret(c.e.m.Const(64, uint64(n)))
	}
	in[V("FieldName")] = func(c *callCtx) ctl {
		st, _ := fields(c)
		return c.ret(StrC(st.Field(c.st.concInt(c.args[1])).Name()))
	}
	in[V("FieldTag")] = func(c *callCtx) ctl {
		st, _ := fields(c)
		return c.ret(StrC(reflect.StructTag(st.Tag(c.st.concInt(c.args[1]))).Get(c.str(2))))
	}
	in[V("FieldPtr")] = func(c *callCtx) ctl {
		st, p := fields(c)
		i := c.st.concInt(c.args[1])
		return c.ret(Iface{t: types.NewPointer(st.Field(i).Type()), v: Ptr{p.obj, p.off + int32(c.e.fieldOff(st, i))}})
	}
	in[V("Remembered")] = func(c *callCtx) ctl {
		return c.ret(c.e.m.Bool(c.st.remembered(c.args[0].(Slice), c.args[1].(Iface))))
	}
	in[V("TypeName")] = func(c *callCtx) ctl {
		v := c.args[0].(Iface)
		if v.t == nil {
			return c.ret(StrC("<nil>"))
		}
		return c.ret(StrC(typeStr(v.t)))
	}
	in[V("FmtAny")] = func(c *callCtx) ctl {
		v := c.args[0].(Iface)
		verb := byte('v')
		if t := c.args[1].(*Term); t.isConst() {
			verb = byte(t.val)
		}
		return c.ret(c.st.fmtVal(v, verb))
	}
	in[V("sliceLen")] = func(c *callCtx) ctl {
		return c.ret(c.e.m.Const(64, uint64(c.args[0].(Iface).v.(Slice).len)))
	}
	in[V("sliceSwap")] = func(c *callCtx) ctl {
		i := c.args[0].(Iface)
		s := i.v.(Slice)
		et := elemOf(i.t)
		n := int32(c.e.ncells(et))
		a, b := int32(c.st.concInt(c.args[1])), int32(c.st.concInt(c.args[2]))
		x, y := c.st.load(Ptr{s.obj, s.off + a*n}, et), c.st.load(Ptr{s.obj, s.off + b*n}, et)
		c.st.store(Ptr{s.obj, s.off + a*n}, y)
		c.st.store(Ptr{s.obj, s.off + b*n}, x)
		return cNext
	}
	in[V("Exit")] = func(c *callCtx) ctl { panic(pathEnd{"exit", ""}) }
	in[V("SetOverrideErrno")] = nop
	in[V("SetField")] = nop
	in[V("DeepEqual")] = func(c *callCtx) ctl { return c.ret(c.st.deepEq(c.args[0], c.args[1])) }
	in[V("Elem")] = func(c *callCtx) ctl { // reads through a pointer held in an interface: unused
		panic(unsupported{"vrt.Elem"})
	}

	// ----- pools -----
	in[V("poolGet")] = func(c *callCtx) ctl {
		p := c.args[0].(Ptr)
		l := c.st.pools[p]
		if len(l) == 0 {
			return c.ret(Iface{})
		}
		c.st.setPool(p, append([]Val(nil), l[:len(l)-1]...))
		return c.ret(l[len(l)-1])
	}
	in[V("poolPut")] = func(c *callCtx) ctl {
		p := c.args[0].(Ptr)
		if i := c.args[1].(Iface); i.t == nil {
			return cNext
		}
		c.st.setPool(p, append(append([]Val(nil), c.st.pools[p]...), c.args[1]))
		return cNext
	}
	// ----- mutexes -----
	lock := func(kind string) intrinsic {
		return func(c *callCtx) ctl {
			p := c.ptr(0)
			if c.st.visible(c.g, kind, p) {
				return cYield
			}
			if c.st.cell(p, 0) != 0 || kind == "rwlock" && c.st.cell(p, 2) != 0 {
				return c.st.block(c.g, blockInfo{kind: kind, ptr: p})
			}
			c.st.setCell(p, 0, uint64(c.g.id)+1)
			c.st.acquire(c.g, p, true)
			return c.ret(Tuple{})
		}
	}
	unlock := func(kind string) intrinsic {
		return func(c *callCtx) ctl {
			p := c.ptr(0)
			if c.st.cell(p, 0) == 0 {
				panic(pathEnd{"crash", "fatal error: sync: unlock of unlocked mutex"})
			}
			c.st.setCell(p, 0, 0)
			c.st.release(p)
			c.st.wake("lock", p)
			c.st.wake("rwlock", p)
			c.st.wake("rlock", p)
			return c.ret(Tuple{})
		}
	}
	in["(*sync.Mutex).Lock"] = lock("lock")
	in["(*sync.Mutex).Unlock"] = unlock("lock")
	in["(*sync.Mutex).TryLock"] = func(c *callCtx) ctl {
		p := c.ptr(0)
		if c.st.visible(c.g, "trylock", p) {
			return cYield
		}
		if c.st.cell(p, 0) != 0 {
			return c.ret(c.e.m.False)
		}
		c.st.setCell(p, 0, uint64(c.g.id)+1)
		c.st.acquire(c.g, p, true)
		return c.ret(c.e.m.True)
	}
	in["(*sync.RWMutex).Lock"] = lock("rwlock")
	in["(*sync.RWMutex).Unlock"] = unlock("rwlock")
	in["(*sync.RWMutex).RLock"] = func(c *callCtx) ctl {
		p := c.ptr(0)
		if c.st.visible(c.g, "rlock", p) {
			return cYield
		}
		if c.st.cell(p, 0) != 0 {
			return c.st.block(c.g, blockInfo{kind: "rlock", ptr: p})
		}
		c.st.setCell(p, 2, c.st.cell(p, 2)+1)
		c.st.acquire(c.g, p, false)
		return c.ret(Tuple{})
	}
	in["(*sync.RWMutex).RUnlock"] = func(c *callCtx) ctl {
		p := c.ptr(0)
		n := c.st.cell(p, 2)
		if n == 0 {
			panic(pathEnd{"crash", "fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		c.st.setCell(p, 2, n-1)
		c.st.release(p)
		c.st.wake("rwlock", p)
		return c.ret(Tuple{})
	}
	// ----- wait groups -----
	wgAdd := func(c *callCtx, d int64) ctl {
		p := c.ptr(0)
		n := int64(c.st.cell(p, 0)) + d
		if n < 0 {
			panic(goPanic{Iface{t: types.Typ[types.String], v: StrC("sync: negative WaitGroup counter")}})
		}
		c.st.setCell(p, 0, uint64(n))
		if n == 0 {
			c.st.wake("wg", p)
		}
		return c.ret(Tuple{})
	}
	in["(*sync.WaitGroup).Add"] = func(c *callCtx) ctl { return wgAdd(c, int64(c.st.concInt(c.args[1]))) }
	in["(*sync.WaitGroup).Done"] = func(c *callCtx) ctl { return wgAdd(c, -1) }
	in["(*sync.WaitGroup).Wait"] = func(c *callCtx) ctl {
		p := c.ptr(0)
		if c.st.visible(c.g, "wg", p) {
			return cYield
		}
		if c.st.cell(p, 0) != 0 {
			return c.st.block(c.g, blockInfo{kind: "wg", ptr: p})
		}
		return c.ret(Tuple{})
	}
	// ----- condition variables (Wait is a shim built from these) -----
	in[V("condTicket")] = func(c *callCtx) ctl {
		p := c.ptr(0)
		t := c.g.id + 1
		c.st.setCond(p, append(append([]int(nil), c.st.conds[p]...), t))
		return c.ret(c.e.m.Const(64, uint64(t)))
	}
	in[V("condBlock")] = func(c *callCtx) ctl {
		p := c.ptr(0)
		t := int(c.args[1].(*Term).val)
		g := c.g
		if c.st.explore {
			// a pure wait: enabled once fired
			if g.grant || c.st.condFired(p, t) {
				g.grant = false
				g.hasPend = false
				g.pend = blockInfo{}
				return c.ret(Tuple{})
			}
			g.hasPend = true
			g.pend = blockInfo{kind: "cond", ptr: p, tick: t}
			return cYield
		}
		if c.st.condFired(p, t) {
			return c.ret(Tuple{})
		}
		return c.st.block(g, blockInfo{kind: "cond", ptr: p, tick: t})
	}
	in["(*sync.Cond).Signal"] = func(c *callCtx) ctl {
		p := c.ptr(0)
		if c.st.visible(c.g, "signal", p) {
			return cYield
		}
		l := c.st.conds[p]
		if len(l) > 0 {
			c.st.setCond(p, append([]int(nil), l[1:]...))
			c.st.wake("cond", p)
		}
		return c.ret(Tuple{})
	}
	in["(*sync.Cond).Broadcast"] = func(c *callCtx) ctl {
		p := c.ptr(0)
		if c.st.visible(c.g, "broadcast", p) {
			return cYield
		}
		c.st.setCond(p, nil)
		c.st.wake("cond", p)
		return c.ret(Tuple{})
	}
	// ----- atomics -----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ld := func(c *callCtx) (Val, bool) {
			p := c.ptr(0)
			if c.st.visible(c.g, "atomic", p) {
				return nil, false
			}
			return c.st.obj(p.obj).get(p.off), true
		}
		st := func(c *callCtx, v Val) { p := c.ptr(0); c.st.wobj(p.obj).set(p.off, v) }
		in["sync/atomic.Load"+ty] = func(c *callCtx) ctl {
			v, ok := ld(c)
			if !ok {
				return cYield
			}
			return c.ret(v)
		}
		in["sync/atomic.Store"+ty] = func(c *callCtx) ctl {
			if _, ok := ld(c); !ok {
				return cYield
			}
			st(c, c.args[1])
			return c.ret(Tuple{})
		}
		in["sync/atomic.Swap"+ty] = func(c *callCtx) ctl {
			v, ok := ld(c)
			if !ok {
				return cYield
			}
			st(c, c.args[1])
			return c.ret(v)
		}
		in["sync/atomic.Add"+ty] = func(c *callCtx) ctl {
			v, ok := ld(c)
			if !ok {
				return cYield
			}
			n := c.e.m.Add(v.(*Term), c.args[1].(*Term))
			st(c, n)
			return c.ret(n)
		}
		in["sync/atomic.CompareAndSwap"+ty] = func(c *callCtx) ctl {
			v, ok := ld(c)
			if !ok {
				return cYield
			}
			if c.st.branch(c.st.eqVals(v, c.args[1])) {
				st(c, c.args[2])
				return c.ret(c.e.m.True)
			}
			return c.ret(c.e.m.False)
		}
	}
	// atomic.Value: cell 0 is the interface
	in["(*sync/atomic.Value).Load"] = func(c *callCtx) ctl {
		p := c.ptr(0)
		if c.st.visible(c.g, "atomic", p) {
			return cYield
		}
		return c.ret(c.st.obj(p.obj).get(p.off))
	}
	in["(*sync/atomic.Value).Store"] = func(c *callCtx) ctl {
		p := c.ptr(0)
		if c.st.visible(c.g, "atomic", p) {
			return cYield
		}
		c.st.wobj(p.obj).set(p.off, c.args[1])
		return c.ret(Tuple{})
	}
	// ----- time -----
	in["time.Now"] = func(c *callCtx) ctl { return c.ret(c.e.timeVal(c.st)) }
	in["time.After"] = func(c *callCtx) ctl {
		d := int64(c.st.concretize(c.args[0].(*Term)))
		o := &Obj{kind: kChan, capn: 1, typ: c.fn.Signature.Results().At(0).Type()}
		id := c.st.addObj(o)
		c.st.timers = append(append([]timer(nil), c.st.timers...), timer{when: c.st.now + d, ch: id, g: -1})
		return c.ret(ChanRef(id))
	}
	in["time.Sleep"] = func(c *callCtx) ctl {
		d := int64(c.st.concretize(c.args[0].(*Term)))
		if d <= 0 {
			return c.ret(Tuple{})
		}
		if c.isDefer {
			panic(unsupported{"deferred Sleep"})
		}
		c.st.timers = append(append([]timer(nil), c.st.timers...), timer{when: c.st.now + d, g: c.g.id})
		return c.st.block(c.g, blockInfo{kind: "sleep"})
	}
	in["time.runtimeNano"] = func(c *callCtx) ctl { return c.ret(c.e.m.Const(64, uint64(c.st.now+1))) }
	in["time.runtimeNow"] = func(c *callCtx) ctl {
		return c.ret(Tuple{c.e.m.Const(64, uint64(c.st.now/1e9)+978307200), c.e.m.Const(32, 0), c.e.m.Const(64, uint64(c.st.now+1))})
	}
	in["time.now"] = in["time.runtimeNow"]
	in["time.initLocal"] = nop
	in["time.newTimer"] = func(c *callCtx) ctl {
		t := timer{when: int64(c.st.concretize(c.args[0].(*Term))), period: int64(c.st.concretize(c.args[1].(*Term))), g: -1}
		switch a := c.args[3].(Iface).v.(type) {
		case ChanRef:
			t.ch = ObjID(a)
		case *Closure:
			t.fn = a
		default:
			panic(unsupported{fmt.Sprintf("timer for %T", a)})
		}
		p := c.st.alloc(deref(c.fn.Signature.Results().At(0).Type()))
		t.own = p.obj
		o := c.st.wobj(p.obj)
		o.tmpl = &t
		o.set(1, c.e.m.True)
		c.st.timers = append(append([]timer(nil), c.st.timers...), t)
		return c.ret(p)
	}
	stop := func(c *callCtx, p Ptr) *Term {
		for i, t := range c.st.timers {
			if t.own == p.obj {
				c.st.timers = append(append([]timer(nil), c.st.timers[:i]...), c.st.timers[i+1:]...)
				return c.e.m.True
			}
		}
		return c.e.m.False
	}
	in["time.stopTimer"] = func(c *callCtx) ctl {
		p := c.ptr(0)
		if c.st.visible(c.g, "timer", p) {
			return cYield
		}
		return c.ret(stop(c, p))
	}
	in["time.resetTimer"] = func(c *callCtx) ctl {
		p := c.ptr(0)
		if c.st.visible(c.g, "timer", p) {
			return cYield
		}
		r := stop(c, p)
		t := *c.st.obj(p.obj).tmpl
		t.when, t.period = int64(c.st.concretize(c.args[1].(*Term))), int64(c.st.concretize(c.args[2].(*Term)))
		c.st.timers = append(append([]timer(nil), c.st.timers...), t)
		return c.ret(r)
	}
	// ----- runtime -----
	cst := func(n uint64) intrinsic {
		return func(c *callCtx) ctl { return c.ret(c.e.m.Const(64, n)) }
	}
	for n, f := range map[string]func(float64) float64{"Log2": math.Log2, "Log": math.Log, "Log10": math.Log10, "Floor": math.Floor, "Ceil": math.Ceil, "Round": math.Round, "Trunc": math.Trunc, "Abs": math.Abs, "Sqrt": math.Sqrt, "Exp2": math.Exp2} {
		f := f
		in["math."+n] = func(c *callCtx) ctl { return c.ret(Flt(f(float64(c.args[0].(Flt))))) }
	}
	in["math.Pow"] = func(c *callCtx) ctl {
		return c.ret(Flt(math.Pow(float64(c.args[0].(Flt)), float64(c.args[1].(Flt)))))
	}
	in["runtime.NumCPU"] = cst(4)
	in["runtime.GOMAXPROCS"] = cst(4)
	in["runtime.NumGoroutine"] = cst(4)
	in["runtime.Callers"] = cst(0)
	in["runtime.KeepAlive"] = nop
	in["runtime.GC"] = nop
	in["runtime.SetFinalizer"] = nop
	in["runtime.Gosched"] = in[V("Yield")]
	in["internal/abi.NoEscape"] = func(c *callCtx) ctl { return c.ret(c.args[0]) }
	in["internal/race.Enable"] = nop
	in["internal/race.Disable"] = nop
	in["internal/abi.Escape"] = in["internal/abi.NoEscape"]
	in["internal/stringslite.Clone"] = func(c *callCtx) ctl { return c.ret(c.args[0]) }
	in["strings.Clone"] = func(c *callCtx) ctl { return c.ret(c.args[0]) }
	in["os.Exit"] = func(c *callCtx) ctl { panic(pathEnd{"exit", "os.Exit"}) }
	in["syscall.Exit"] = in["os.Exit"]
	for _, n := range []string{"Print", "Printf", "Println", "SetFlags", "SetPrefix", "SetOutput", "Output"} {
		in["log."+n] = nop
		in["(*log.Logger)."+n] = nop
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		in["log."+n] = in["os.Exit"]
		in["(*log.Logger)."+n] = in["os.Exit"]
	}
	newObj := func(c *callCtx) ctl {
		return c.ret(c.st.alloc(deref(c.fn.Signature.Results().At(0).Type())))
	}
	in["encoding/hex.Dump"] = func(c *callCtx) ctl { // some text that depends on the bytes
		return c.ret(c.e.strConcat(StrC("hexdump "), c.e.mkStr(c.st.sliceBytes(c.args[0].(Slice)))))
	}
	in["log.New"] = newObj
	in["log.Default"] = newObj
	in["os.NewFile"] = newObj
	in["(*os.File).Fd"] = cst(1)
	in["golang.org/x/crypto/ssh/terminal.IsTerminal"] = func(c *callCtx) ctl { return c.ret(c.e.m.False) }
	in["syscall.runtime_envs"] = func(c *callCtx) ctl { return c.ret(Slice{}) }
	in["os.runtime_args"] = in["syscall.runtime_envs"]
	in["syscall.Getpagesize"] = cst(4096)
	in["(*sync/atomic.noCopy).Lock"] = nop
	// ----- fmt output -----
	for _, n := range []string{"Print", "Printf", "Println"} {
		in["fmt."+n] = func(c *callCtx) ctl { return c.ret(Tuple{c.e.m.Const(64, 0), Iface{}}) }
	}
	// ----- byte searches -----
	in["internal/bytealg.IndexByte"] = func(c *callCtx) ctl { return c.ret(c.indexByte(c.st.sliceBytes(c.args[0].(Slice)))) }
	in["internal/bytealg.IndexByteString"] = func(c *callCtx) ctl { return c.ret(c.indexByte(c.e.strBytes(c.args[0]))) }
	in["internal/bytealg.LastIndexByte"] = func(c *callCtx) ctl { return c.ret(c.lastIndexByte(c.st.sliceBytes(c.args[0].(Slice)))) }
	in["internal/bytealg.LastIndexByteString"] = func(c *callCtx) ctl { return c.ret(c.lastIndexByte(c.e.strBytes(c.args[0]))) }
	in["internal/bytealg.Index"] = func(c *callCtx) ctl {
		return c.ret(c.index(c.st.sliceBytes(c.args[0].(Slice)), c.st.sliceBytes(c.args[1].(Slice))))
	}
	in["internal/bytealg.IndexString"] = func(c *callCtx) ctl { return c.ret(c.index(c.e.strBytes(c.args[0]), c.e.strBytes(c.args[1]))) }
	in["strings.Index"] = in["internal/bytealg.IndexString"]
	in["internal/stringslite.Index"] = in["internal/bytealg.IndexString"]
	in["strings.IndexByte"] = in["internal/bytealg.IndexByteString"]
	in["internal/stringslite.IndexByte"] = in["internal/bytealg.IndexByteString"]
	in["bytes.IndexByte"] = in["internal/bytealg.IndexByte"]
	in["bytes.Index"] = in["internal/bytealg.Index"]
	in["internal/bytealg.Count"] = func(c *callCtx) ctl { return c.ret(c.count(c.st.sliceBytes(c.args[0].(Slice)))) }
	in["internal/bytealg.CountString"] = func(c *callCtx) ctl { return c.ret(c.count(c.e.strBytes(c.args[0]))) }
	in["internal/bytealg.Equal"] = func(c *callCtx) ctl {
		return c.ret(c.e.bytesEq(c.st.sliceBytes(c.args[0].(Slice)), c.st.sliceBytes(c.args[1].(Slice))))
	}
	cmp := func(c *callCtx, a, b Val) ctl {
		m := c.e.m
		r := m.Ite(c.e.strEq(a, b), m.Const(64, 0), m.Ite(c.e.strLess(a, b), m.Const(64, ^uint64(0)), m.Const(64, 1)))
		return c.ret(r)
	}
	in["internal/bytealg.Compare"] = func(c *callCtx) ctl {
		return cmp(c, c.e.mkStr(c.st.sliceBytes(c.args[0].(Slice))), c.e.mkStr(c.st.sliceBytes(c.args[1].(Slice))))
	}
	in["bytes.Compare"] = in["internal/bytealg.Compare"]
	in["bytes.Equal"] = in["internal/bytealg.Equal"]
	in["internal/bytealg.CompareString"] = func(c *callCtx) ctl { return cmp(c, c.args[0], c.args[1]) }
	in["strings.Compare"] = in["internal/bytealg.CompareString"]
	in["internal/bytealg.MakeNoZero"] = func(c *callCtx) ctl {
		n := c.st.concInt(c.args[0])
		return c.ret(c.st.makeSlice(types.Typ[types.Uint8], n, n))
	}
	in["crypto/internal/constanttime.boolToUint8"] = func(c *callCtx) ctl {
		m := c.e.m
		return c.ret(m.Ite(c.args[0].(*Term), m.Const(8, 1), m.Const(8, 0)))
	}
	in["math/rand.runtime_rand"] = func(c *callCtx) ctl {
		return c.ret(c.st.ndVar("math/rand", "u64", 64, 1)[0])
	}
	in["math/rand/v2.runtime_rand"] = in["math/rand.runtime_rand"]
	in["runtime/debug.Stack"] = func(c *callCtx) ctl { return c.ret(c.st.bytesToSlice(c.e.strBytes(StrC("<stack>")))) }
	in["runtime/debug.PrintStack"] = nop
	in["runtime/debug.FreeOSMemory"] = nop
	for n, v := range map[string]uint64{"Getpid": 4242, "Getppid": 4241, "Getuid": 1000, "Geteuid": 1000, "Getgid": 1000, "Getegid": 1000} {
		in["os."+n] = cst(v)
		in["syscall."+n] = cst(v)
	}
	in["crypto/rand.Read"] = func(c *callCtx) ctl {
		s := c.args[0].(Slice)
		ts := c.st.ndVar("crypto/rand", "bytes", 8, int(s.len))
		for i, t := range ts {
			c.st.store(Ptr{s.obj, s.off + int32(i)}, t)
		}
		return c.ret(Tuple{c.e.m.Const(64, uint64(s.len)), Iface{}})
	}
	in["os.Hostname"] = func(c *callCtx) ctl { return c.ret(Tuple{StrC("host"), Iface{}}) }
	in["reflect.DeepEqual"] = func(c *callCtx) ctl {
		return c.ret(c.st.refEq(c.args[0], c.args[1], types.NewInterfaceType(nil, nil), 0))
	}
	in[V("asTarget")] = func(c *callCtx) ctl {
		x, t := c.args[0].(Iface), c.args[1].(Iface)
		if x.t == nil || t.t == nil {
			return c.ret(c.e.m.False)
		}
		pt, ok := t.t.Underlying().(*types.Pointer)
		if !ok {
			c.st.rtPanic("errors: target must be a non-nil pointer")
		}
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if !c.e.implements(x.t, it) {
				return c.ret(c.e.m.False)
			}
			c.st.store(t.v, x)
			return c.ret(c.e.m.True)
		}
		if !types.Identical(x.t, pt.Elem()) {
			return c.ret(c.e.m.False)
		}
		c.st.store(t.v, x.v)
		return c.ret(c.e.m.True)
	}
	concHash := func(f func([]byte) []byte) intrinsic {
		return func(c *callCtx) ctl {
			var b []byte
			for _, t := range c.st.sliceBytes(c.args[0].(Slice)) {
				if !t.isConst() {
					panic(unsupported{c.fn.String() + " of symbolic data"})
				}
				b = append(b, byte(t.val))
			}
			r := Agg{}
			for _, x := range f(b) {
				r = append(r, c.e.m.Const(8, uint64(x)))
			}
			return c.ret(r)
		}
	}
	in["crypto/sha256.Sum256"] = concHash(func(b []byte) []byte { s := sha256.Sum256(b); return s[:] })
	in["crypto/sha512.Sum512"] = concHash(func(b []byte) []byte { s := sha512.Sum512(b); return s[:] })
	in["crypto/sha1.Sum"] = concHash(func(b []byte) []byte { s := sha1.Sum(b); return s[:] })
	in["crypto/md5.Sum"] = concHash(func(b []byte) []byte { s := md5.Sum(b); return s[:] })
	in["crypto/subtle.ConstantTimeCompare"] = func(c *callCtx) ctl {
		m := c.e.m
		eq := c.e.bytesEq(c.st.sliceBytes(c.args[0].(Slice)), c.st.sliceBytes(c.args[1].(Slice)))
		return c.ret(m.Ite(eq, m.Const(64, 1), m.Const(64, 0)))
	}
	in["strings.EqualFold"] = func(c *callCtx) ctl {
		a, aok := c.args[0].(StrC)
		b, bok := c.args[1].(StrC)
		if aok && bok {
			return c.ret(c.e.m.Bool(strings.EqualFold(string(a), string(b))))
		}
		m := c.e.m
		ascii := m.True
		for _, s := range c.args[:2] {
			for i := 0; i < c.e.strLen(s); i++ {
				ascii = m.And(ascii, m.Ult(c.e.strAt(s, i), m.Const(8, 0x80)))
			}
		}
		if !c.st.branch(ascii) {
			panic(unsupported{"EqualFold of symbolic non-ASCII text"})
		}
		n := c.e.strLen(c.args[0])
		if n != c.e.strLen(c.args[1]) {
			return c.ret(m.False)
		}
		low := func(x *Term) *Term {
			up := m.And(m.Ule(m.Const(8, 'A'), x), m.Ule(x, m.Const(8, 'Z')))
			return m.Ite(up, m.BOr(x, m.Const(8, 0x20)), x)
		}
		r := m.True
		for i := 0; i < n; i++ {
			r = m.And(r, m.Eq(low(c.e.strAt(c.args[0], i)), low(c.e.strAt(c.args[1], i))))
		}
		return c.ret(r)
	}
	in["strconv.Itoa"] = func(c *callCtx) ctl { return c.ret(StrC(strconv.Itoa(c.st.concInt(c.args[0])))) }
	in["internal/godebug.New"] = func(c *callCtx) ctl { return c.ret(c.st.alloc(types.Typ[types.Int])) }
	in["(*internal/godebug.Setting).Value"] = func(c *callCtx) ctl { return c.ret(StrC("")) }
	in["(*internal/godebug.Setting).IncNonDefault"] = nop
	in["math.Float64bits"] = nil
	delete(in, "math.Float64bits")
}

// ---------- helpers ----------

func (c *callCtx) str(i int) string {
	s, ok := c.args[i].(StrC)
	if !ok {
		panic(unsupported{"symbolic string where a constant is required"})
	}
	return string(s)
}

func (c *callCtx) strOr(i int, d string) string {
	if s, ok := c.args[i].(StrC); ok {
		return string(s)
	}
	if s, ok := c.args[i].(*SymStr); ok {
		return c.st.panicText(Iface{t: types.Typ[types.String], v: s})
	}
	return d
}

func (c *callCtx) ptr(i int) Ptr {
	switch p := c.args[i].(type) {
	case Ptr:
		if p.obj == 0 {
			c.st.nilDeref()
		}
		return p
	}
	panic(unsupported{fmt.Sprintf("pointer argument %T", c.args[i])})
}

func (st *State) cell(p Ptr, k int32) uint64 {
	t, ok := st.obj(p.obj).get(p.off + k).(*Term)
	if !ok || !t.isConst() {
		panic(unsupported{"sync state cell"})
	}
	return uint64(sext(t.val, t.w))
}

func (st *State) setCell(p Ptr, k int32, v uint64) {
	old := st.obj(p.obj).get(p.off + k).(*Term)
	st.wobj(p.obj).set(p.off+k, st.eng.m.Const(old.w, v&maskW(old.w)))
}

func (st *State) setPool(p Ptr, l []Val) {
	if !st.ow.pools {
		n := make(map[Ptr][]Val, len(st.pools)+1)
		for k, v := range st.pools {
			n[k] = v
		}
		st.pools = n
		st.ow.pools = true
	}
	st.pools[p] = l
}

func (st *State) setCond(p Ptr, l []int) {
	if !st.ow.conds {
		n := make(map[Ptr][]int, len(st.conds)+1)
		for k, v := range st.conds {
			n[k] = v
		}
		st.conds = n
		st.ow.conds = true
	}
	if len(l) == 0 {
		delete(st.conds, p)
	} else {
		st.conds[p] = l
	}
}

// condFired: the ticket is no longer in the waiting list.
func (st *State) condFired(p Ptr, t int) bool {
	for _, x := range st.conds[p] {
		if x == t {
			return false
		}
	}
	return true
}

func (e *Eng) timeVal(st *State) Val {
	return Agg{e.m.Const(64, 0), e.m.Const(64, uint64(st.now/1e9)+63113904000), Ptr{}}
}

func (st *State) ndVar(name, kind string, w uint8, n int) []*Term {
	k := st.ndCnt[name]
	key := fmt.Sprintf("%s#%d", name, k)
	ts := make([]*Term, n)
	for i := range ts {
		vn := fmt.Sprintf("%s:%d", key, w)
		if kind == "bytes" {
			vn = fmt.Sprintf("%s[%d]", key, i)
		}
		ts[i] = st.eng.m.Var(vn, w)
	}
	st.ndBump(name)
	st.nd = &ndRec{st.nd, key, ts, kind}
	return ts
}

// ndRange returns a 64-bit variable constrained to [lo,hi] (signed).
func (st *State) ndRange(name string, lo, hi *Term) *Term {
	v, key := st.ndRangeT(name, lo, hi)
	st.ndBump(name)
	st.nd = &ndRec{st.nd, key, []*Term{v}, "int"}
	return v
}

func (st *State) ndRangeT(name string, lo, hi *Term) (*Term, string) {
	m := st.eng.m
	k := st.ndCnt[name]
	key := fmt.Sprintf("%s#%d", name, k)
	if v, ok := st.eng.shard[key]; ok {
		c := m.Const(64, uint64(int64(v)))
		if !lo.isConst() || !hi.isConst() || int64(v) < int64(lo.val) || int64(v) > int64(hi.val) {
			panic(pathEnd{"assume", "shard"})
		}
		return c, key
	}
	if lo.isConst() && hi.isConst() && lo.val == hi.val {
		return lo, key
	}
	if lo.isConst() && hi.isConst() && int64(lo.val) > int64(hi.val) {
		panic(pathEnd{"assume", "empty range"})
	}
	if lo.isConst() && hi.isConst() && hi.val-lo.val < 1<<31 {
		// narrow variable: lo + zext(x), x <= hi-lo
		d := hi.val - lo.val
		w := uint8(1)
		for (uint64(1)<<w)-1 < d {
			w++
		}
		x := m.Var(fmt.Sprintf("%s:%d", key, w), w)
		st.mustAssume(m.Ule(x, m.Const(w, d)))
		return m.Add(m.ZExt(x, 64), lo), key
	}
	v := m.Var(key+":64", 64)
	st.mustAssume(m.Sle(lo, v))
	st.mustAssume(m.Sle(v, hi))
	return v, key
}

func (st *State) mustAssume(c *Term) {
	if v, ok := st.fact(c); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if st.eng.m.Eval(c, st.model) == 1 {
		st.assumeT(c, st.model)
		return
	}
	r, md := st.query(c)
	if r != Sat {
		panic(pathEnd{"assume", ""})
	}
	st.assumeT(c, md)
}

func (st *State) assert(c *Term, msg string) {
	e := st.eng
	e.stats.Asserts++
	if v, ok := st.fact(c); ok && v {
		e.assertOK[msg]++
		return
	}
	n := e.m.Not(c)
	e.stats.AssertQ++
	r, md := st.query(n)
	switch r {
	case Unsat:
		e.assertOK[msg]++
		st.setConc(c, 1)
		return
	case Unknown:
		e.incomplete("assertion undecided: " + msg)
		st.setConc(c, 1)
		return
	}
	// concrete cross-check of the model against the path condition
	for _, p := range st.pc {
		if e.m.Eval(p, md) != 1 {
			e.incomplete("model does not satisfy the path condition: " + msg)
			return
		}
	}
	e.violation(st, "assert", msg, md, n)
	if c.isFalse() {
		panic(pathEnd{"done", ""})
	}
	r, md = st.query(c)
	if r != Sat {
		panic(pathEnd{"done", ""})
	}
	st.assumeT(c, md)
}

// flatten turns a value boxed in an interface into terms for observation.
func (st *State) flatten(v Val) []*Term {
	m := st.eng.m
	i, ok := v.(Iface)
	if !ok {
		return nil
	}
	switch x := i.v.(type) {
	case *Term:
		if x.w == 0 {
			return []*Term{m.Ite(x, m.Const(8, 1), m.Const(8, 0))}
		}
		b := i.t.Underlying().(*types.Basic)
		return []*Term{st.eng.intConv(x, isSigned(b), 64)}
	case StrC, *SymStr:
		return append([]*Term(nil), st.eng.strBytes(x)...)
	case Slice:
		if b, ok := elemOf(i.t).Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return st.sliceBytes(x)
		}
	}
	if i.t == nil {
		return []*Term{}
	}
	return []*Term{}
}

func (c *callCtx) indexByte(b []*Term) Val {
	x := c.args[1].(*Term)
	for i, t := range b {
		if c.st.branch(c.e.m.Eq(t, x)) {
			return c.e.m.Const(64, uint64(i))
		}
	}
	return c.e.m.Const(64, ^uint64(0))
}

func (c *callCtx) lastIndexByte(b []*Term) Val {
	x := c.args[1].(*Term)
	for i := len(b) - 1; i >= 0; i-- {
		if c.st.branch(c.e.m.Eq(b[i], x)) {
			return c.e.m.Const(64, uint64(i))
		}
	}
	return c.e.m.Const(64, ^uint64(0))
}

func (c *callCtx) index(b, s []*Term) Val {
	for i := 0; i+len(s) <= len(b); i++ {
		if c.st.branch(c.e.bytesEq(b[i:i+len(s)], s)) {
			return c.e.m.Const(64, uint64(i))
		}
	}
	return c.e.m.Const(64, ^uint64(0))
}

func (c *callCtx) count(b []*Term) Val {
	m := c.e.m
	x := c.args[1].(*Term)
	r := m.Const(64, 0)
	for _, t := range b {
		r = m.Add(r, m.Ite(m.Eq(t, x), m.Const(64, 1), m.Const(64, 0)))
	}
	return m.Const(64, c.st.concretize(r))
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// fmtVal formats a value the way fmt does, for the common kinds; symbolic integers become
// their bytes (that the text depends on them matters, not what it looks like).
func (st *State) fmtVal(v Iface, verb byte) Val {
	if v.t == nil {
		return StrC("<nil>")
	}
	return st.fmtT(v.v, v.t, verb, 0)
}

func (st *State) fmtT(v Val, t types.Type, verb byte, depth int) Val {
	e := st.eng
	if depth > 4 {
		return StrC("...")
	}
	list := func(open, shut string, n int, item func(i int) Val) Val {
		var out Val = StrC(open)
		for i := 0; i < n; i++ {
			if i > 0 {
				out = e.strConcat(out, StrC(" "))
			}
			out = e.strConcat(out, item(i))
		}
		return e.strConcat(out, StrC(shut))
	}
	part := func(x Val, t types.Type, off, i int) Val {
		if a, ok := x.(Agg); ok {
			if isAgg(t) {
				return Agg(a[off : off+e.ncells(t)])
			}
			return a[off]
		}
		return x
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		off := 0
		return list("{", "}", u.NumFields(), func(i int) Val {
			ft := u.Field(i).Type()
			r := st.fmtT(part(v, ft, off, i), ft, verb, depth+1)
			off += e.ncells(ft)
			return r
		})
	case *types.Array:
		n := e.ncells(u.Elem())
		return list("[", "]", int(u.Len()), func(i int) Val {
			return st.fmtT(part(v, u.Elem(), i*n, i), u.Elem(), verb, depth+1)
		})
	}
	switch x := v.(type) {
	case StrC, *SymStr:
		if verb == 'q' {
			if s, ok := x.(StrC); ok {
				return StrC(strconv.Quote(string(s)))
			}
			return e.strConcat(e.strConcat(StrC("\""), x), StrC("\""))
		}
		if verb == 'x' {
			return st.hexStr(e.strBytes(x))
		}
		return x
	case *Term:
		b := t.Underlying().(*types.Basic)
		if !x.isConst() {
			if cv, ok := st.conc[x]; ok {
				x = e.m.Const(x.w, cv)
			} else if x.w == 0 {
				return e.mkStr([]*Term{e.m.Ite(x, e.m.Const(8, '1'), e.m.Const(8, '0'))})
			} else {
				var bs []*Term
				for i := int(x.w) - 8; i >= 0; i -= 8 {
					bs = append(bs, e.m.Extract(x, uint8(i+7), uint8(i)))
				}
				return e.mkStr(bs)
			}
		}
		if x.w == 0 {
			return StrC(strconv.FormatBool(x.val == 1))
		}
		base := 10
		switch verb {
		case 'x', 'X':
			base = 16
		case 'o':
			base = 8
		case 'b':
			base = 2
		case 'c':
			return StrC(string(rune(x.val)))
		}
		if isSigned(b) {
			return StrC(strconv.FormatInt(sext(x.val, x.w), base))
		}
		return StrC(strconv.FormatUint(x.val, base))
	case Flt:
		return StrC(strconv.FormatFloat(float64(x), 'g', -1, 64))
	case Slice:
		et := elemOf(t)
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			bs := st.sliceBytes(x)
			if verb == 'x' {
				return st.hexStr(bs)
			}
			if verb == 's' || verb == 'q' {
				return e.mkStr(bs)
			}
		}
		n := int32(e.ncells(et))
		return list("[", "]", int(x.len), func(i int) Val {
			return st.fmtT(st.load(Ptr{x.obj, x.off + int32(i)*n}, et), et, verb, depth+1)
		})
	case Iface:
		if x.t == nil {
			return StrC("<nil>")
		}
		return st.fmtT(x.v, x.t, verb, depth+1)
	case Ptr:
		if p, ok := t.Underlying().(*types.Pointer); ok && depth == 0 && x.obj != 0 && isAgg(p.Elem()) {
			return e.strConcat(StrC("&"), st.fmtT(st.load(x, p.Elem()), p.Elem(), verb, depth+1))
		}
		return StrC("0xc000000000")
	case MapRef:
		if u, ok := t.Underlying().(*types.Map); ok && x != 0 {
			o := st.obj(ObjID(x))
			return list("map[", "]", len(o.mkeys), func(i int) Val {
				if o.mkeys[i] == nil {
					return StrC("")
				}
				return e.strConcat(e.strConcat(st.fmtT(o.mkeys[i], u.Key(), verb, depth+1), StrC(":")), st.fmtT(o.mvals[i], u.Elem(), verb, depth+1))
			})
		}
		return StrC("map[]")
	}
	return StrC("{...}")
}

func (st *State) hexStr(b []*Term) Val {
	m := st.eng.m
	var out []*Term
	dig := func(n *Term) *Term { // n: 8-bit value 0..15
		return m.Ite(m.Ult(n, m.Const(8, 10)), m.Add(n, m.Const(8, '0')), m.Add(n, m.Const(8, 'a'-10)))
	}
	for _, t := range b {
		out = append(out, dig(m.ZExt(m.Extract(t, 7, 4), 8)), dig(m.ZExt(m.Extract(t, 3, 0), 8)))
	}
	return st.eng.mkStr(out)
}

func (st *State) deepEq(a, b Val) *Term {
	x, ok := a.(Iface)
	y, ok2 := b.(Iface)
	if !ok || !ok2 {
		panic(unsupported{"DeepEqual"})
	}
	if x.t == nil || y.t == nil {
		return st.eng.m.Bool(x.t == nil && y.t == nil)
	}
	if !types.Identical(x.t, y.t) {
		return st.eng.m.False
	}
	return st.deepEqT(x.v, y.v, x.t)
}

func (st *State) deepEqT(a, b Val, t types.Type) *Term {
	m := st.eng.m
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if x.len != y.len || x.nonNil != y.nonNil {
			return m.False
		}
		r := m.True
		n := int32(st.eng.ncells(u.Elem()))
		for i := int32(0); i < x.len; i++ {
			r = m.And(r, st.deepEqT(st.load(Ptr{x.obj, x.off + i*n}, u.Elem()), st.load(Ptr{y.obj, y.off + i*n}, u.Elem()), u.Elem()))
		}
		return r
	case *types.Basic:
		return st.eqVals(a, b)
	}
	return st.eqVals(a, b)
}

// ---------- builtins ----------

func growCap(oldCap, need int, esz int64) int {
	switch esz {
	case 1:
		return cap(append(make([]byte, oldCap), make([]byte, need-oldCap)...))
	case 8:
		return cap(append(make([]uint64, oldCap), make([]uint64, need-oldCap)...))
	case 16:
		return cap(append(make([][2]uint64, oldCap), make([][2]uint64, need-oldCap)...))
	case 24:
		return cap(append(make([][3]uint64, oldCap), make([][3]uint64, need-oldCap)...))
	}
	n := oldCap
	if need > 2*n {
		return need
	}
	if n < 256 {
		return 2 * n
	}
	for n < need {
		n += (n + 3*256) / 4
	}
	return n
}

func (st *State) builtin(g *G, fr *Frame, bi *ssa.Builtin, call *ssa.CallCommon, args []Val, dst int) ctl {
	e := st.eng
	m := e.m
	for i, a := range args {
		if p, ok := a.(*Poison); ok && bi.Name() != "append" {
			_ = i
			panic(unsupported{"builtin on unmodelled value: " + p.why})
		}
	}
	ret := func(v Val) ctl {
		if dst >= 0 {
			fr.regs[dst] = v
		}
		return cNext
	}
	argT := func(i int) types.Type { return call.Args[i].Type() }
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case StrC, *SymStr:
			return ret(m.Const(64, uint64(e.strLen(x))))
		case Slice:
			return ret(m.Const(64, uint64(x.len)))
		case MapRef:
			if x == 0 {
				return ret(m.Const(64, 0))
			}
			if st.mapVisible(g, ObjID(x), false) {
				return cYield
			}
			return ret(m.Const(64, uint64(len(st.obj(ObjID(x)).mkeys))))
		case ChanRef:
			if x == 0 {
				return ret(m.Const(64, 0))
			}
			if st.visible(g, "chan", Ptr{ObjID(x), 0}) {
				return cYield
			}
			return ret(m.Const(64, uint64(len(st.obj(ObjID(x)).buf))))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return ret(m.Const(64, uint64(x.cap)))
		case ChanRef:
			if x == 0 {
				return ret(m.Const(64, 0))
			}
			return ret(m.Const(64, uint64(st.obj(ObjID(x)).capn)))
		}
	case "append":
		if p, ok := args[0].(*Poison); ok {
			return ret(p)
		}
		s := args[0].(Slice)
		et := elemOf(argT(0))
		n := int32(e.ncells(et))
		var add Slice
		var addStr []*Term
		isStr := false
		if len(args) < 2 {
			return ret(s)
		}
		switch x := args[1].(type) {
		case Slice:
			add = x
		case StrC, *SymStr:
			addStr = e.strBytes(x)
			isStr = true
			add.len = int32(len(addStr))
		case *Poison:
			return ret(x)
		}
		if add.len == 0 {
			return ret(s)
		}
		nl := s.len + add.len
		res := s
		if nl > s.cap {
			nc := growCap(int(s.cap), int(nl), e.pr.sizes.Sizeof(et))
			res = st.makeSlice(et, int(nl), nc)
			if s.len > 0 {
				st.copyCells(res.obj, 0, s.obj, s.off, s.len*n)
			}
		}
		res.len = nl
		res.nonNil = true
		if isStr {
			o := st.wobj(res.obj)
			for i, t := range addStr {
				o.set(res.off+s.len+int32(i), t)
			}
		} else if n > 0 {
			st.copyCells(res.obj, res.off+s.len*n, add.obj, add.off, add.len*n)
		}
		return ret(res)
	case "copy":
		d := args[0].(Slice)
		n := int32(e.ncells(elemOf(argT(0))))
		switch x := args[1].(type) {
		case Slice:
			k := d.len
			if x.len < k {
				k = x.len
			}
			if k > 0 && n > 0 {
				st.copyCells(d.obj, d.off, x.obj, x.off, k*n)
			}
			return ret(m.Const(64, uint64(k)))
		case StrC, *SymStr:
			b := e.strBytes(x)
			k := int(d.len)
			if len(b) < k {
				k = len(b)
			}
			if k > 0 {
				o := st.wobj(d.obj)
				for i := 0; i < k; i++ {
					o.set(d.off+int32(i), b[i])
				}
			}
			return ret(m.Const(64, uint64(k)))
		}
	case "delete":
		mr := args[0].(MapRef)
		if mr == 0 {
			return cNext
		}
		if st.mapVisible(g, ObjID(mr), true) {
			return cYield
		}
		st.mapDelete(ObjID(mr), args[1])
		return ret(Tuple{})
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x != 0 {
				o := st.wobj(ObjID(x))
				o.mkeys, o.mvals = nil, nil
			}
			return ret(Tuple{})
		case Slice:
			et := elemOf(argT(0))
			z := e.zeroCells(et)
			if x.len > 0 {
				o := st.wobj(x.obj)
				for i := int32(0); i < x.len*int32(len(z)); i++ {
					o.set(x.off+i, z[int(i)%len(z)])
				}
			}
			return ret(Tuple{})
		}
	case "close":
		ch := args[0].(ChanRef)
		if st.visible(g, "chan", Ptr{ObjID(ch), 0}) {
			return cYield
		}
		st.chanClose(ObjID(ch))
		return ret(Tuple{})
	case "print", "println":
		return ret(Tuple{})
	case "recover":
		n := len(g.frames)
		if fr.isDefer && n >= 2 {
			below := st.wframe(g, n-2)
			if below.mode == fmPanic && !below.recovered {
				below.recovered = true
				st.trace = nil
				return ret(below.panicVal)
			}
		}
		return ret(Iface{})
	case "min", "max":
		r := args[0]
		b := call.Args[0].Type().Underlying().(*types.Basic)
		for _, a := range args[1:] {
			x, ok := r.(*Term)
			if !ok {
				panic(unsupported{"min/max"})
			}
			y := a.(*Term)
			var lt *Term
			if isSigned(b) {
				lt = m.Slt(x, y)
			} else {
				lt = m.Ult(x, y)
			}
			if bi.Name() == "min" {
				r = m.Ite(lt, x, y)
			} else {
				r = m.Ite(lt, y, x)
			}
		}
		return ret(r)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			st.nilDeref()
		}
		return ret(args[0])
	case "SliceData":
		s := args[0].(Slice)
		return ret(Ptr{s.obj, s.off})
	case "StringData":
		b := e.strBytes(args[0])
		s := st.bytesToSlice(b)
		return ret(Ptr{s.obj, 0})
	case "String":
		p := args[0].(Ptr)
		n := st.concInt(args[1])
		if n == 0 {
			return ret(StrC(""))
		}
		return ret(e.mkStr(st.sliceBytes(Slice{obj: p.obj, off: p.off, len: int32(n)})))
	case "Slice":
		p := args[0].(Ptr)
		n := int32(st.concInt(args[1]))
		if p.obj == 0 {
			return ret(Slice{})
		}
		return ret(Slice{obj: p.obj, off: p.off, len: n, cap: n, nonNil: true})
	}
	panic(unsupported{"builtin " + bi.Name()})
}

// refEq is reflect.DeepEqual of two values of static type t.
func (st *State) refEq(a, b Val, t types.Type, depth int) *Term {
	m := st.eng.m
	if depth > 60 {
		panic(unsupported{"deep comparison"})
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return m.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return m.False
		}
		return st.refEq(x.v, y.v, x.t, depth+1)
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if x.nonNil != y.nonNil || x.len != y.len {
			return m.False
		}
		r := m.True
		n := st.eng.ncells(u.Elem())
		for i := int32(0); i < x.len; i++ {
			va := st.load(Ptr{x.obj, x.off + i*int32(n)}, u.Elem())
			vb := st.load(Ptr{y.obj, y.off + i*int32(n)}, u.Elem())
			r = m.And(r, st.refEq(va, vb, u.Elem(), depth+1))
		}
		return r
	case *types.Struct, *types.Array:
		x, y := a.(Agg), b.(Agg)
		r := m.True
		off := 0
		each := func(ft types.Type) {
			n := st.eng.ncells(ft)
			if isAgg(ft) {
				r = m.And(r, st.refEq(x[off:off+n], y[off:off+n], ft, depth+1))
			} else {
				r = m.And(r, st.refEq(x[off], y[off], ft, depth+1))
			}
			off += n
		}
		if s, ok := u.(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				each(s.Field(i).Type())
			}
		} else {
			for i := int64(0); i < u.(*types.Array).Len(); i++ {
				each(u.(*types.Array).Elem())
			}
		}
		return r
	case *types.Pointer:
		x, y := a.(Ptr), b.(Ptr)
		if x == y || x.obj == 0 || y.obj == 0 {
			return m.Bool(x == y)
		}
		return st.refEq(st.load(x, u.Elem()), st.load(y, u.Elem()), u.Elem(), depth+1)
	case *types.Map:
		panic(unsupported{"reflect.DeepEqual of maps"})
	case *types.Signature:
		x, _ := a.(*Closure)
		y, _ := b.(*Closure)
		return m.Bool(x == nil && y == nil)
	}
	return st.eqVals(a, b)
}
