package main

import (
	"fmt"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Stats struct {
	Paths      int
	Done       int
	Exits      int
	Assumed    int
	Crashes    int
	Deadlocks  int
	Incomplete int
	Forks      int
	Objs       int
	Instrs     int64
	Asserts    int // assertion evaluations (path × site)
	AssertQ    int // assertion evaluations that needed the solver
	States     int // explore mode: distinct states
	Trans      int // explore mode: transitions
	Layers     int
	Restarts   int // explore mode: started over after finding unprotected shared memory
}

func (a *Stats) add(b *Stats) {
	a.Paths += b.Paths
	a.Done += b.Done
	a.Exits += b.Exits
	a.Assumed += b.Assumed
	a.Crashes += b.Crashes
	a.Deadlocks += b.Deadlocks
	a.Incomplete += b.Incomplete
	a.Forks += b.Forks
	a.Objs += b.Objs
	a.Instrs += b.Instrs
	a.Asserts += b.Asserts
	a.AssertQ += b.AssertQ
	a.States += b.States
	a.Trans += b.Trans
	a.Layers += b.Layers
	a.Restarts += b.Restarts
}

type NdVal struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"`
	V    []uint64 `json:"v"`
}

type Violation struct {
	Kind   string   `json:"kind"`
	Msg    string   `json:"msg"`
	Where  string   `json:"where"`
	Nd     []NdVal  `json:"inputs"`
	Sched  []string `json:"schedule,omitempty"`
	Trace  []string `json:"trace,omitempty"`
	Hname  string   `json:"harness"`
	Shard  string   `json:"shard,omitempty"`
	Expl   bool     `json:"explored_schedule"`
	Native string   `json:"native_replay,omitempty"`
	choice []int
}

type Sample struct {
	Nd   []NdVal
	Obs  []NdVal
	Kind string
}

type Eng struct {
	pr     *Prog
	m      *TermMgr
	sol    *Solver
	fns    map[*ssa.Function]*Fn
	cellsz map[types.Type]int
	zeros  map[types.Type][]Val
	impl   map[implKey]bool
	meths  map[methKey]*ssa.Function

	muxMemo map[muxKey]*Term
	mark    []uint32
	stamp   uint32
	epochs  uint64
	stats   Stats

	nglobals   int
	globalByID map[ObjID]*ssa.Global
	globalID   map[*ssa.Global]ObjID
	rtErrT     types.Type

	hname      string
	shard      map[string]int // forced values of shard variables
	work       []*State
	sink       func(*State)
	noFork     bool
	viols      []*Violation
	freshViols int // without known findings
	vkeys      map[string]int
	inc        map[string]int
	reached    map[string]int
	funcs      map[string]int // repo functions executed -> times entered
	unmod      map[string]int // functions outside the encoding that were modelled
	samples    []Sample
	nsample    int
	deadline   time.Time
	maxSteps   int64
	maxPaths   int
	maxViol    int
	stop       bool
	debug      bool
	blobs      [][]*Term
	initMsg    map[string]bool
	assertOK   map[string]int
	goexp      *Explorer
	ndNames    map[string]bool
}

type methKey struct {
	t    types.Type
	name string
}

func NewEng(pr *Prog, hname string) *Eng {
	m := NewTermMgr()
	e := &Eng{pr: pr, m: m, sol: NewSolver(m), fns: map[*ssa.Function]*Fn{}, cellsz: map[types.Type]int{},
		zeros: map[types.Type][]Val{}, impl: map[implKey]bool{}, meths: map[methKey]*ssa.Function{}, muxMemo: map[muxKey]*Term{},
		globalByID: map[ObjID]*ssa.Global{}, globalID: map[*ssa.Global]ObjID{}, hname: hname,
		vkeys: map[string]int{}, inc: map[string]int{}, reached: map[string]int{}, funcs: map[string]int{}, unmod: map[string]int{},
		maxSteps: 20_000_000, maxPaths: 1 << 30, maxViol: 24, assertOK: map[string]int{}, ndNames: map[string]bool{}, initMsg: map[string]bool{}}
	id := ObjID(1)
	for _, g := range pr.globals {
		e.globalByID[id] = g
		e.globalID[g] = id
		id++
	}
	e.nglobals = int(id)
	e.rtErrT = pr.rtErrT
	return e
}

func (e *Eng) incomplete(msg string) {
	if len(msg) > 200 {
		msg = msg[:200]
	}
	e.inc[msg]++
}

func (e *Eng) push(st *State) {
	if e.noFork {
		panic(unsupported{"fork inside a deferred intrinsic"})
	}
	if e.sink != nil {
		e.sink(st)
		return
	}
	e.work = append(e.work, st)
}

func (e *Eng) newState() *State {
	st := &State{eng: e, epoch: e.newEpoch(), model: &Model{}, conc: map[*Term]uint64{}, ndCnt: map[string]int{},
		over: map[string]Val{}, inited: map[*ssa.Package]bool{}, pools: map[Ptr][]Val{}, conds: map[Ptr][]int{}, fired: map[int]bool{}, reached: map[string]bool{}}
	st.nobj = int32(e.nglobals)
	st.guard = e.m.True
	return st
}

// Run executes harness function f to exhaustion.
func (e *Eng) Run(f *ssa.Function) {
	st := e.newState()
	g := &G{owner: st.epoch, id: 0}
	st.gs = append(st.gs, g)
	st.pushFrame(g, nil, e.compile(f), nil, nil, -1, false)
	// the repository's own packages are initialised before the harness starts,
	// dependencies first (the last frame pushed runs first)
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] || !strings.HasPrefix(p.Path(), repoMod) {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if sp := e.pr.prog.Package(p); sp != nil {
			order = append(order, sp)
		}
	}
	visit(f.Pkg.Pkg)
	for i := len(order) - 1; i >= 0; i-- {
		st.ensureInit(g, order[i])
	}
	e.work = append(e.work, st)
	for len(e.work) > 0 && !e.stop {
		if e.late() {
			e.incomplete(fmt.Sprintf("time limit reached with %d paths pending", len(e.work)))
			break
		}
		if e.stats.Paths >= e.maxPaths {
			e.incomplete(fmt.Sprintf("path limit reached with %d paths pending", len(e.work)))
			break
		}
		e.runPath(e.next())
	}
	e.sol.stop()
}

// next picks the state to continue with: the latest, so that few states are pending, but
// in a long exploration now and then an early or any other one, so that a counterexample is
// not missed because all the time goes into one corner.
func (e *Eng) next() *State {
	n := len(e.work)
	i := n - 1
	if e.stats.Paths > 400 && n < 20000 {
		switch e.stats.Paths % 16 {
		case 0:
			i = 0
		case 8:
			i = int(uint64(e.stats.Paths) * 0x9e3779b97f4a7c15 >> 33 % uint64(n))
		}
	}
	s := e.work[i]
	copy(e.work[i:], e.work[i+1:])
	e.work[n-1] = nil
	e.work = e.work[:n-1]
	return s
}

func (e *Eng) runPath(st *State) {
	e.stats.Paths++
	end := e.runLoop(st)
	e.finish(st, end)
}

func (e *Eng) finish(st *State, end pathEnd) {
	for k := range st.reached {
		e.reached[k]++
	}
	switch end.kind {
	case "done":
		e.stats.Done++
		e.sample(st, "done")
	case "exit":
		e.stats.Exits++
		e.sample(st, "exit")
	case "assume":
		e.stats.Assumed++
	case "crash":
		e.stats.Crashes++
		e.violation(st, "crash", end.msg, st.model, nil)
	case "deadlock":
		e.stats.Deadlocks++
		e.violation(st, "deadlock", end.msg, st.model, nil)
	case "handed": // explore mode took over
	default:
		e.stats.Incomplete++
		e.incomplete(end.kind + ": " + end.msg)
		if e.debug {
			fmt.Fprintf(os.Stderr, "[%s] path incomplete: %s: %s\n%s", e.hname, end.kind, end.msg, st.stack())
		}
	}
}

func (e *Eng) sample(st *State, kind string) {
	if st.bad {
		return
	}
	e.nsample++
	// keep a spread: first 4, then exponentially thinning
	if len(e.samples) < 4 || e.nsample&(e.nsample-1) == 0 && len(e.samples) < 12 {
		if st.obs == nil && st.nd == nil {
			return
		}
		e.samples = append(e.samples, Sample{Nd: e.ndVals(st, st.model), Obs: e.obsVals(st, st.model), Kind: kind})
	}
}

func (e *Eng) ndVals(st *State, md *Model) []NdVal {
	var out []NdVal
	for r := st.nd; r != nil; r = r.prev {
		v := make([]uint64, len(r.ts))
		for i, t := range r.ts {
			v[i] = e.m.Eval(t, md)
		}
		out = append(out, NdVal{r.name, r.kind, v})
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (e *Eng) obsVals(st *State, md *Model) []NdVal {
	var out []NdVal
	for r := st.obs; r != nil; r = r.prev {
		v := make([]uint64, len(r.ts))
		for i, t := range r.ts {
			v[i] = e.m.Eval(t, md)
		}
		out = append(out, NdVal{r.name, "", v})
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// violation records a counterexample; cond, if any, is what has to hold besides the path
// condition. Preferences the harness stated are met as far as possible.
// firstViol is when the first violation of the run was found, graceAfter for how long the
// search goes on afterwards.
var firstViol int64
var graceAfter = 45 * time.Second

// isKnown tells known findings from other violations: they do not shorten the search.
var isKnown func(*Violation) bool

// late reports whether the time of this job is used up.
func (e *Eng) late() bool {
	if time.Now().After(e.deadline) {
		return true
	}
	t := atomic.LoadInt64(&firstViol)
	return t != 0 && time.Now().UnixNano()-t > int64(graceAfter)
}

func (e *Eng) violation(st *State, kind, msg string, md *Model, cond *Term) {
	st.bad = true
	tr := strings.Split(strings.TrimSpace(st.stack()), "\n")
	known := isKnown != nil && isKnown(&Violation{Kind: kind, Msg: msg, Hname: e.hname, Trace: tr})
	if !known {
		atomic.CompareAndSwapInt64(&firstViol, 0, time.Now().UnixNano())
	}
	key := kind + "|" + msg
	if kind == "crash" && len(tr) > 0 {
		key += "|" + tr[0]
	}
	if e.vkeys[key] >= 6 {
		return
	}
	e.vkeys[key]++
	if cond == nil {
		cond = e.m.True
	}
	for _, p := range st.soft {
		if c := e.m.And(cond, p); !c.isFalse() {
			if r, m2 := st.query(c); r == Sat && !c.isTrue() {
				cond, md = c, m2
			}
		}
	}
	v := &Violation{Kind: kind, Msg: msg, Hname: e.hname, Nd: e.ndVals(st, md), Trace: tr, Expl: st.explore}
	if st.explore {
		for r := st.sched; r != nil; r = r.prev {
			v.Sched = append(v.Sched, fmt.Sprintf("g%d %s", r.g, r.what))
			v.choice = append(v.choice, r.g)
		}
		for i, j := 0, len(v.Sched)-1; i < j; i, j = i+1, j-1 {
			v.Sched[i], v.Sched[j] = v.Sched[j], v.Sched[i]
			v.choice[i], v.choice[j] = v.choice[j], v.choice[i]
		}
	}
	e.viols = append(e.viols, v)
	if !known {
		e.freshViols++
	}
	if e.freshViols >= e.maxViol {
		e.stop = true
	}
}

func (st *State) stack() string {
	var sb strings.Builder
	if st.cur < len(st.gs) {
		g := st.gs[st.cur]
		for i := len(g.frames) - 1; i >= 0; i-- {
			f := g.frames[i]
			pos := ""
			if f.block < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.block].ins) {
				pos = st.eng.pr.pos(f.fn.blocks[f.block].ins[f.pc].in.Pos())
				for b := f.pc; pos == "" && b > 0; b-- {
					pos = st.eng.pr.pos(f.fn.blocks[f.block].ins[b-1].in.Pos())
				}
			}
			fmt.Fprintf(&sb, "%s %s\n", f.fn.name, pos)
			if len(g.frames)-i > 30 {
				sb.WriteString("...\n")
				break
			}
		}
	}
	if len(st.trace) > 0 {
		sb.WriteString(strings.Join(st.trace, "\n") + "\n")
	}
	return sb.String()
}

// runLoop runs the state until its path ends (sequential) or yields (explore).
func (e *Eng) runLoop(st *State) (end pathEnd) {
	for {
		again, pe := e.runInner(st)
		if !again {
			return pe
		}
	}
}

func (e *Eng) runInner(st *State) (again bool, end pathEnd) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case goPanic:
			if st.initDep > 0 {
				again, end = e.tolerate(st, "panic in init: "+st.panicText(r.v))
				return
			}
			again, end = e.beginPanic(st, r.v)
		case pathEnd:
			again, end = false, r
		case yieldNow:
			again, end = false, pathEnd{"yield", ""}
		case unsupported:
			if st.initDep > 0 {
				again, end = e.tolerate(st, r.msg)
				return
			}
			again, end = false, pathEnd{"unsupported", r.msg}
		default:
			fmt.Fprintf(os.Stderr, "internal error in %s: %v\n%s%s", e.hname, r, st.stack(), debug.Stack())
			if st.initDep > 0 {
				again, end = e.tolerate(st, fmt.Sprint("internal: ", r))
				return
			}
			again, end = false, pathEnd{"unsupported", fmt.Sprintf("internal: %v", r)}
		}
	}()
	var n int64
	for {
		if st.cur < 0 || st.cur >= len(st.gs) {
			return false, pathEnd{"unsupported", "no goroutine"}
		}
		g := st.gs[st.cur]
		if g.owner != st.epoch {
			g = st.wG(st.cur)
		}
		if g.status != gRun {
			if st.explore {
				return false, pathEnd{"yield", ""}
			}
			if st.gs[0].status == gDone {
				return false, pathEnd{"done", ""}
			}
			st.pickNext()
			continue
		}
		fr := g.frames[len(g.frames)-1]
		if fr.owner != st.epoch {
			fr = st.wframe(g, len(g.frames)-1)
		}
		g.inVis = false
		c := st.step(g, fr)
		switch c {
		case cNext:
			fr.pc++
		case cYield:
			return false, pathEnd{"yield", ""}
		}
		n++
		st.steps++
		e.stats.Instrs++
		if st.steps > e.maxSteps {
			return false, pathEnd{"budget", "step limit in " + fr.fn.name}
		}
		if n&0xffff == 0 && e.late() {
			return false, pathEnd{"budget", "time limit"}
		}
	}
}

func (e *Eng) beginPanic(st *State, v Iface) (again bool, end pathEnd) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case pathEnd:
			again, end = false, r
		case unsupported:
			again, end = false, pathEnd{"unsupported", r.msg}
		case goPanic:
			again, end = e.beginPanic(st, r.v)
		case yieldNow:
			again, end = false, pathEnd{"yield", ""}
		default:
			panic(r)
		}
	}()
	g := st.wG(st.cur)
	st.trace = strings.Split(strings.TrimSpace(st.stack()), "\n")
	st.startPanic(g, v)
	return true, pathEnd{}
}

// tolerate abandons the innermost initialiser's current instruction.
func (e *Eng) tolerate(st *State, why string) (bool, pathEnd) {
	g := st.wG(st.cur)
	i := len(g.frames) - 1
	for i >= 0 && g.frames[i].isInit == nil {
		i--
	}
	if i < 0 {
		return false, pathEnd{"unsupported", "init: " + why}
	}
	g.frames = g.frames[:i+1]
	fr := st.wframe(g, i)
	// frames below the top already advanced their pc past the call
	blk := fr.fn.blocks[fr.block]
	pc := fr.pc
	if fr.calling {
		pc--
		fr.calling = false
	} else {
		fr.pc++
	}
	fr.mode = fmNormal
	if e.debug && os.Getenv("VERIF_INITLOG") != "" {
		m := fmt.Sprintf("init of %s: %s at %s", fr.isInit.Pkg.Path(), why, blk.ins[pc].in)
		if !e.initMsg[m] {
			e.initMsg[m] = true
			fmt.Fprintln(os.Stderr, m)
		}
	}
	ins := &blk.ins[pc]
	if ins.dst >= 0 {
		fr.regs[ins.dst] = &Poison{why}
	}
	switch in := ins.in.(type) {
	case *ssa.Store:
		if ins.ops[0].kind == oGlobal {
			gl := ins.ops[0].val.(*ssa.Global)
			o := st.wobj(e.globalID[gl])
			for j := int32(0); j < o.n; j++ {
				o.set(j, &Poison{why})
			}
		}
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
		_ = in
		st.doReturn(g, nil)
	}
	return true, pathEnd{}
}

// ---------- globals and lazy initialisation ----------

func (st *State) ensureInitGlobal(g *G, fr *Frame, o Opd) bool {
	if o.kind != oGlobal {
		return false
	}
	gl := o.val.(*ssa.Global)
	return st.ensureInit(g, gl.Pkg)
}

// ensureInit pushes the initialiser of pkg if it has not run; true if it pushed.
func (st *State) ensureInit(g *G, pkg *ssa.Package) bool {
	if pkg == nil || st.inited[pkg] {
		return false
	}
	if !st.ow.inited {
		n := make(map[*ssa.Package]bool, len(st.inited)+1)
		for k, v := range st.inited {
			n[k] = v
		}
		st.inited = n
		st.ow.inited = true
	}
	st.inited[pkg] = true
	f := pkg.Func("init")
	if f == nil || len(f.Blocks) == 0 || noInit[pkg.Pkg.Path()] {
		return false
	}
	c := st.eng.compile(f)
	fr := &Frame{owner: st.epoch, fn: c, regs: make([]Val, c.nregs), dst: -1, isInit: pkg}
	g.frames = append(g.frames, fr)
	st.initDep++
	return true
}

var noInit = map[string]bool{
	"runtime": true, "os": false, "syscall": false, "reflect": true, "internal/cpu": true, "internal/godebug": true,
}

// ---------- calls ----------

const maxDepth = 4000

func (st *State) pushFrame(g *G, caller *Frame, c *Fn, args []Val, env []Val, dst int, isDefer bool) {
	if c.bad != "" {
		panic(unsupported{c.bad + " in " + c.name})
	}
	if len(g.frames) > maxDepth {
		panic(pathEnd{"crash", "stack overflow: unbounded recursion in " + c.name})
	}
	regs := make([]Val, c.nregs)
	copy(regs, args)
	copy(regs[c.nparam:], env)
	fr := &Frame{owner: st.epoch, fn: c, regs: regs, dst: dst, isDefer: isDefer}
	g.frames = append(g.frames, fr)
	if c.repo {
		st.eng.funcs[c.name]++
	}
}

type callCtx struct {
	st      *State
	e       *Eng
	g       *G
	fr      *Frame
	args    []Val
	dst     int
	fn      *ssa.Function
	isDefer bool
}

func (c *callCtx) ret(v Val) ctl {
	if c.dst >= 0 {
		c.fr.regs[c.dst] = v
	}
	return cNext
}

type intrinsic func(c *callCtx) ctl

func (st *State) doCall(g *G, fr *Frame, ins *Ins, call *ssa.CallCommon, dst int) ctl {
	fnv := st.opdVal(fr, ins.ops[0])
	args := make([]Val, len(ins.ops)-1)
	for i := range args {
		args[i] = st.rawVal(fr, ins.ops[i+1])
	}
	return st.invoke(g, fr, call, fnv, args, dst, false)
}

func (st *State) resolve(call *ssa.CallCommon, fnv Val, args []Val) (*ssa.Function, *ssa.Builtin, []Val, []Val) {
	if call.IsInvoke() {
		r, ok := fnv.(Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("invoke on %T", fnv)})
		}
		if r.t == nil {
			st.nilDeref()
		}
		f := st.eng.method(r.t, call.Method)
		return f, nil, append([]Val{r.v}, args...), nil
	}
	switch f := fnv.(type) {
	case *ssa.Builtin:
		return nil, f, args, nil
	case *Closure:
		if f == nil {
			st.nilDeref()
		}
		return f.fn, nil, args, f.env
	}
	panic(unsupported{fmt.Sprintf("call of %T", fnv)})
}

func (e *Eng) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := e.meths[k]; ok {
		return f
	}
	e.pr.mu.Lock()
	f := e.pr.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.pr.mu.Unlock()
	if f == nil {
		panic(unsupported{"method " + m.Name() + " of " + t.String()})
	}
	e.meths[k] = f
	return f
}

func (st *State) invoke(g *G, fr *Frame, call *ssa.CallCommon, fnv Val, args []Val, dst int, isDefer bool) ctl {
	f, bi, args, env := st.resolve(call, fnv, args)
	if bi != nil {
		if isDefer {
			st.eng.noFork = true
			defer func() { st.eng.noFork = false }()
		}
		return st.builtin(g, fr, bi, call, args, dst)
	}
	return st.callFn(g, fr, f, args, env, dst, isDefer)
}

func (st *State) callFn(g *G, fr *Frame, f *ssa.Function, args, env []Val, dst int, isDefer bool) ctl {
	e := st.eng
	c := e.compile(f)
	if !c.resolved {
		e.resolveFn(c)
	}
	if len(st.over) > 0 {
		if ov, ok := st.over[c.name]; ok {
			cl := ov.(*Closure)
			e.unmod[c.name+" (override)"]++
			oc := e.compile(cl.fn)
			if !isDefer {
				fr.pc++
				fr.calling = true
			}
			st.pushFrame(g, fr, oc, args, cl.env, dst, isDefer)
			return cStay
		}
	}
	if c.pure != nil && len(args) == 1 {
		if s, ok := args[0].(StrC); ok {
			return (&callCtx{st, e, g, fr, args, dst, f, isDefer}).ret(StrC(c.pure(string(s))))
		}
	}
	if c.intr != nil {
		if e.pr.countModel(c) {
			e.unmod[c.name]++
		}
		if isDefer {
			e.noFork = true
			defer func() { e.noFork = false }()
		}
		return c.intr(&callCtx{st, e, g, fr, args, dst, f, isDefer})
	}
	if c.shim != nil {
		e.unmod[c.name]++
		c = c.shim
	} else if c.skip {
		return cNext
	} else if !c.ok {
		panic(unsupported{"call of " + c.name})
	}
	if !isDefer {
		fr.pc++
		fr.calling = true
	}
	st.pushFrame(g, fr, c, args, env, dst, isDefer)
	return cStay
}

// pureFns are library functions of a string that are called as they are where the string is
// concrete, rather than executed step by step.
var pureFns = map[string]func(string) string{
	"path/filepath.Clean":         filepath.Clean,
	"path/filepath.Dir":           filepath.Dir,
	"path/filepath.Base":          filepath.Base,
	"internal/filepathlite.Clean": filepath.Clean,
	"internal/filepathlite.Dir":   filepath.Dir,
	"internal/filepathlite.Base":  filepath.Base,
	"path.Clean":                  path.Clean,
	"path.Dir":                    path.Dir,
	"path.Base":                   path.Base,
}

func (e *Eng) resolveFn(c *Fn) {
	c.resolved = true
	c.pure = pureFns[c.name]
	if in, ok := intrinsics[c.name]; ok {
		c.intr = in
		return
	}
	if sf := e.pr.shims[c.name]; sf != nil {
		c.shim = e.compile(sf)
		return
	}
	f := c.fn
	// package initialisers of dependencies are run lazily
	if f.Synthetic == "package initializer" {
		c.skip = true
		return
	}
	if len(f.Blocks) == 0 {
		return
	}
	path := ""
	if c.pkg != nil {
		path = c.pkg.Pkg.Path()
	}
	if path == "" && f.Signature.Recv() != nil {
		if n, ok := derefT(f.Signature.Recv().Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
			path = n.Obj().Pkg().Path()
		}
	}
	harness := strings.HasPrefix(path, e.pr.repoMod+"/zzverif")
	if pos := f.Pos(); pos.IsValid() {
		harness = harness || e.pr.overlay[e.pr.fset.Position(pos).Filename]
	}
	c.repo = strings.HasPrefix(path, e.pr.repoMod) && !harness
	c.tracked = !harness
	c.ok = path == "" || e.pr.allowed(path) || allowFuncs[c.name]
	if f.Synthetic != "" && f.Pkg == nil { // wrappers, thunks, instantiations
		c.ok = c.ok || f.Origin() == nil
	}
}

func derefT(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (st *State) spawn(g *G, fr *Frame, ins *Ins, call *ssa.CallCommon) {
	fnv := st.opdVal(fr, ins.ops[0])
	args := make([]Val, len(ins.ops)-1)
	for i := range args {
		args[i] = st.opdVal(fr, ins.ops[i+1])
	}
	f, bi, args, env := st.resolve(call, fnv, args)
	if bi != nil {
		panic(unsupported{"go builtin"})
	}
	st.spawnFn(f, args, env)
}

func (st *State) spawnFn(f *ssa.Function, args, env []Val) int {
	e := st.eng
	c := e.compile(f)
	if !c.resolved {
		e.resolveFn(c)
	}
	if ov, ok := st.over[c.name]; ok {
		cl := ov.(*Closure)
		c = e.compile(cl.fn)
		env = cl.env
	} else if c.shim != nil {
		c = c.shim
	} else if !c.ok {
		panic(unsupported{"go " + c.name})
	}
	ng := &G{owner: st.epoch, id: len(st.gs), system: st.initDep > 0}
	st.gs = append(st.gs, ng)
	st.pushFrame(ng, nil, c, args, env, -1, false)
	return ng.id
}

// ---------- sequential scheduling ----------

func (st *State) block(g *G, bi blockInfo) ctl {
	g.status = gBlocked
	g.blk = bi
	return cBlock
}

// wake makes runnable every goroutine blocked on (kind, ptr).
func (st *State) wake(kind string, p Ptr) {
	for i, g := range st.gs {
		if g.status == gBlocked && g.blk.kind == kind && g.blk.ptr == p {
			w := st.wG(i)
			w.status = gRun
			w.blk = blockInfo{}
		}
	}
}

func (st *State) pickNext() {
	n := len(st.gs)
	for k := 1; k <= n; k++ {
		i := (st.cur + k) % n
		if st.gs[i].status == gRun {
			st.cur = i
			return
		}
	}
	// nobody can run: let time pass
	if st.fireTimer() {
		return
	}
	panic(pathEnd{"deadlock", "all goroutines are blocked: " + st.blockedText()})
}

func (st *State) blockedText() string {
	var out []string
	for _, g := range st.gs {
		if g.status == gBlocked {
			where := ""
			for i := len(g.frames) - 1; i >= 0; i-- {
				if g.frames[i].fn.repo {
					where = g.frames[i].fn.name
					break
				}
			}
			out = append(out, fmt.Sprintf("g%d on %s in %s", g.id, g.blk.kind, where))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// fireTimer fires the earliest pending timer; false if there is none.
func (st *State) fireTimer() bool {
	if len(st.timers) == 0 {
		return false
	}
	best := 0
	for i := range st.timers {
		if st.timers[i].when < st.timers[best].when {
			best = i
		}
	}
	st.fire(best)
	return true
}

func (st *State) fire(i int) {
	t := st.timers[i]
	st.timers = append(append([]timer(nil), st.timers[:i]...), st.timers[i+1:]...)
	if t.when > st.now {
		st.now = t.when
	}
	if t.period > 0 {
		n := t
		n.when = st.now + t.period
		st.timers = append(st.timers, n)
	}
	if t.g >= 0 {
		w := st.wG(t.g)
		w.status = gRun
		w.blk = blockInfo{}
		// the sleeping call completes
		st.wframe(w, len(w.frames)-1).pc++
		st.cur = t.g
		return
	}
	if t.fn != nil {
		st.spawnFn(t.fn.fn, nil, t.fn.env)
		return
	}
	st.sendNB(t.ch, st.eng.timeVal(st))
}
