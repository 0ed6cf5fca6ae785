package main

// Values, heap objects and states of the symbolic interpreter.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Val is one of: *Term (integers, booleans), Flt, StrC, *SymStr, Ptr, *SymPtr,
// Slice, Iface, MapRef, ChanRef, *Closure (nil func = (*Closure)(nil)), Agg
// (flattened struct or array), Tuple, *Poison, *Iter.
type Val interface{}

type Flt float64
type StrC string
type SymStr struct{ b []*Term }

type ObjID int32

type Ptr struct {
	obj ObjID // 0 = nil
	off int32
}

// SymPtr addresses element idx (symbolic, already bounds-checked) of a region.
type SymPtr struct {
	obj    ObjID
	off    int32 // base
	stride int32
	n      int32
	idx    *Term // 64-bit
	sub    int32 // offset inside the element
}

type Slice struct {
	obj           ObjID // 0 and nonNil=false: nil slice
	off, len, cap int32
	nonNil        bool
}

type Iface struct {
	t types.Type // nil = nil interface
	v Val
}

type MapRef ObjID
type ChanRef ObjID

type Closure struct {
	fn  *ssa.Function
	env []Val
	// bound intrinsic (for method values of intrinsics) not needed: ssa wraps
}

type Agg []Val
type Tuple []Val
type Poison struct{ why string }

// Iter is the state of a range over map or string (immutable; Next stores a new one).
type Iter struct {
	m    MapRef
	keys []Val
	str  Val
	pos  int
	obj  ObjID // cell holding position
}

const chunkN = 256

type chunk struct {
	owner uint64
	v     []Val
}

type objKind uint8

const (
	kMem objKind = iota
	kMap
	kChan
)

type Obj struct {
	owner  uint64
	kind   objKind
	n      int32
	zero   []Val // zero template, period len(zero)
	chunks []*chunk
	typ    types.Type // for debugging
	// map
	mkeys []Val
	mvals []Val
	// index for concrete string keys
	midx map[string]int
	// chan
	capn   int32
	buf    []Val
	closed bool
	recvq  []waiter
	sendq  []waiter
	tmpl   *timer // of a time.Timer: what it does when it expires
}

type waiter struct {
	g    int
	kase int // select case index, -1 for plain op
	val  Val // value to send
}

const pageN = 64

type page struct {
	owner uint64
	o     [pageN]*Obj
}

var epochCounter uint64

type ndRec struct {
	prev *ndRec
	name string
	ts   []*Term
	kind string
}

type obsRec struct {
	prev *obsRec
	name string
	ts   []*Term
}

type schedRec struct {
	prev *schedRec
	g    int
	what string
	n    int
}

// State is one symbolic state.
type State struct {
	eng    *Eng
	epoch  uint64
	pages  []*page
	nobj   int32
	gs     []*G
	cur    int
	pc     []*Term
	model  *Model
	soft   []*Term // preferences for counterexamples
	conc   map[*Term]uint64
	concOw bool

	nd     *ndRec
	obs    *obsRec
	sched  *schedRec
	ndCnt  map[string]int
	over   map[string]Val
	inited map[*ssa.Package]bool
	pools  map[Ptr][]Val
	conds  map[Ptr][]int // waiting ticket ids
	fired  map[int]bool  // fired cond tickets
	tick   int
	ow     struct{ ndCnt, over, inited, pools, conds bool }

	steps   int64
	forks   int
	reached map[string]bool
	timers  []timer
	now     int64
	tbudget int
	preempt int
	explore bool
	bad     bool // a violation was recorded on this path
	initDep int  // >0 while running package init
	depth   int
	guard   *Term // explore mode: merged schedule guard
	ghosts  map[string]Val
	trace   []string
}

type timer struct {
	when int64
	ch   ObjID
	g    int
	fn   *Closure

	period int64
	own    ObjID // the time.Timer this belongs to, 0 if none
}

type gstatus uint8

const (
	gRun gstatus = iota
	gBlocked
	gDone
)

type blockInfo struct {
	kind string
	ptr  Ptr
	n    int32 // cells (memory accesses)
	ch   []ObjID
	tick int
}

type G struct {
	owner   uint64
	id      int
	frames  []*Frame
	status  gstatus
	blk     blockInfo
	ndc     map[string]int
	grant   bool      // explore: the pending visible operation may be executed now
	pend    blockInfo // explore: the visible operation the goroutine is poised at
	hasPend bool
	inVis   bool // the visible operation in progress was granted
	system  bool // goroutine started by package init or declared daemon
	nalloc  int
	held    []heldLock // explore: locks held (immutable slice)
}

type heldLock struct {
	p    Ptr
	excl bool
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type frameMode uint8

const (
	fmNormal frameMode = iota
	fmDefers           // running defers on the normal path
	fmPanic            // running defers while panicking
)

type Frame struct {
	owner     uint64
	fn        *Fn
	regs      []Val
	block     int
	prev      int
	pc        int
	dst       int // register in the caller (-1: discard)
	defers    []deferred
	mode      frameMode
	panicVal  Iface
	recovered bool
	calling   bool // a call made by this frame is in progress (pc already advanced)
	isDefer   bool // called as a deferred function by the frame below
	isInit    *ssa.Package
	tolerant  bool
	onRet     func(st *State, v Val) // engine continuation (pure)
}

func (e *Eng) newEpoch() uint64 { e.epochs++; return e.epochs }

// fork clones the state; both copies get new epochs.
func (st *State) fork() *State {
	old := st.epoch
	ns := *st
	st.epoch = st.eng.newEpoch()
	ns.epoch = st.eng.newEpoch()
	ns.pages = append([]*page(nil), st.pages...)
	ns.gs = append([]*G(nil), st.gs...)
	ns.pc = append([]*Term(nil), st.pc...)
	st.concOw, ns.concOw = false, false
	st.ow = struct{ ndCnt, over, inited, pools, conds bool }{}
	ns.ow = st.ow
	ns.timers = append([]timer(nil), st.timers...)
	ns.forks++
	st.eng.stats.Forks++
	r := make(map[string]bool, len(st.reached))
	for k, v := range st.reached {
		r[k] = v
	}
	ns.reached = r
	// the running goroutine and its top frame stay with st; ns gets copies
	if st.cur >= 0 && st.cur < len(st.gs) {
		g := st.gs[st.cur]
		ng := *g
		ng.owner = ns.epoch
		ng.frames = append([]*Frame(nil), g.frames...)
		if n := len(ng.frames); n > 0 {
			f := *ng.frames[n-1]
			f.owner = ns.epoch
			f.regs = append([]Val(nil), f.regs...)
			f.defers = append([]deferred(nil), f.defers...)
			ng.frames[n-1] = &f
			if g.owner == old && g.frames[n-1].owner == old {
				g.frames[n-1].owner = st.epoch
			}
		}
		ns.gs[st.cur] = &ng
		if g.owner == old {
			g.owner = st.epoch
		}
	}
	return &ns
}

func (st *State) pageFor(id ObjID) *page {
	pi := int(id) / pageN
	for pi >= len(st.pages) {
		st.pages = append(st.pages, nil)
	}
	p := st.pages[pi]
	if p == nil {
		p = &page{owner: st.epoch}
		st.pages[pi] = p
	} else if p.owner != st.epoch {
		np := *p
		np.owner = st.epoch
		p = &np
		st.pages[pi] = p
	}
	return p
}

func (st *State) obj(id ObjID) *Obj {
	pi := int(id) / pageN
	if pi < len(st.pages) && st.pages[pi] != nil {
		if o := st.pages[pi].o[int(id)%pageN]; o != nil {
			return o
		}
	}
	if int(id) < st.eng.nglobals {
		// lazily materialise a global
		g := st.eng.globalByID[id]
		t := g.Type().(*types.Pointer).Elem()
		o := st.eng.newMem(st, t, 1)
		st.pageFor(id).o[int(id)%pageN] = o
		return o
	}
	panic(unsupported{"dangling object"})
}

// wobj returns a writable version of the object.
func (st *State) wobj(id ObjID) *Obj {
	o := st.obj(id)
	if o.owner == st.epoch {
		return o
	}
	n := *o
	n.owner = st.epoch
	n.chunks = append([]*chunk(nil), o.chunks...)
	switch o.kind {
	case kMap:
		n.mkeys = append([]Val(nil), o.mkeys...)
		n.mvals = append([]Val(nil), o.mvals...)
		n.midx = nil
	case kChan:
		n.buf = append([]Val(nil), o.buf...)
		n.recvq = append([]waiter(nil), o.recvq...)
		n.sendq = append([]waiter(nil), o.sendq...)
	}
	st.pageFor(id).o[int(id)%pageN] = &n
	return &n
}

func (st *State) addObj(o *Obj) ObjID {
	st.nobj++
	id := ObjID(st.nobj)
	o.owner = st.epoch
	st.pageFor(id).o[int(id)%pageN] = o
	st.eng.stats.Objs++
	return id
}

func (e *Eng) newMem(st *State, elem types.Type, n int) *Obj {
	z := e.zeroCells(elem)
	o := &Obj{owner: st.epoch, kind: kMem, n: int32(n * len(z)), zero: z, typ: elem}
	if len(z) > 0 {
		o.chunks = make([]*chunk, (int(o.n)+chunkN-1)/chunkN)
	}
	return o
}

func (o *Obj) get(i int32) Val {
	c := o.chunks[i/chunkN]
	if c == nil {
		return o.zero[int(i)%len(o.zero)]
	}
	return c.v[i%chunkN]
}

// set must be called on a writable object.
func (o *Obj) set(i int32, v Val) {
	ci := i / chunkN
	c := o.chunks[ci]
	if c == nil || c.owner != o.owner {
		n := chunkN
		if int(o.n)-int(ci)*chunkN < n {
			n = int(o.n) - int(ci)*chunkN
		}
		nc := &chunk{owner: o.owner, v: make([]Val, n)}
		if c == nil {
			base := int(ci) * chunkN
			for j := range nc.v {
				nc.v[j] = o.zero[(base+j)%len(o.zero)]
			}
		} else {
			copy(nc.v, c.v)
		}
		o.chunks[ci] = nc
		c = nc
	}
	c.v[i%chunkN] = v
}

func (st *State) wG(i int) *G {
	g := st.gs[i]
	if g.owner == st.epoch {
		return g
	}
	n := *g
	n.owner = st.epoch
	n.frames = append([]*Frame(nil), g.frames...)
	st.gs[i] = &n
	return &n
}

// wtop returns a writable top frame of goroutine g (g writable).
func (st *State) wframe(g *G, i int) *Frame {
	f := g.frames[i]
	if f.owner == st.epoch {
		return f
	}
	n := *f
	n.owner = st.epoch
	n.regs = append([]Val(nil), f.regs...)
	n.defers = append([]deferred(nil), f.defers...)
	g.frames[i] = &n
	return &n
}
