package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type opdKind uint8

const (
	oNone opdKind = iota
	oReg
	oVal
	oGlobal
)

type Opd struct {
	kind opdKind
	reg  int
	val  Val
}

type Ins struct {
	in  ssa.Instruction
	dst int
	ops []Opd
	ext interface{}
	gl  bool // some operand is a global
}

type Blk struct {
	ins  []Ins
	phis []*phiIns
	edge map[int]int
}

type phiIns struct {
	dst  int
	opds []Opd
}

type Fn struct {
	fn       *ssa.Function
	name     string
	nregs    int
	blocks   []*Blk
	nparam   int
	nfree    int
	liveMemo map[int][]int
	liveOut  []map[int]bool
	uid      int
	bad      string
	pkg      *ssa.Package

	resolved bool
	intr     intrinsic
	pure     func(string) string
	shim     *Fn
	skip     bool
	ok       bool
	repo     bool
	tracked  bool // not harness code: its memory accesses are tracked in explorations
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (e *Eng) compile(f *ssa.Function) *Fn {
	if c, ok := e.fns[f]; ok {
		return c
	}
	c := &Fn{fn: f, name: fnName(f), uid: len(e.fns)}
	c.pkg = f.Pkg
	if c.pkg == nil && f.Origin() != nil {
		c.pkg = f.Origin().Pkg
	}
	if c.pkg == nil && f.Parent() != nil {
		p := f
		for p.Parent() != nil {
			p = p.Parent()
		}
		c.pkg = p.Pkg
		if c.pkg == nil && p.Origin() != nil {
			c.pkg = p.Origin().Pkg
		}
	}
	e.fns[f] = c
	regs := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) {
		regs[v] = n
		n++
	}
	for _, p := range f.Params {
		add(p)
	}
	c.nparam = len(f.Params)
	for _, p := range f.FreeVars {
		add(p)
	}
	c.nfree = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c.nregs = n
	opd := func(v ssa.Value) Opd {
		if v == nil {
			return Opd{}
		}
		if r, ok := regs[v]; ok {
			return Opd{kind: oReg, reg: r}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return Opd{kind: oVal, val: e.constVal(v)}
		case *ssa.Global:
			return Opd{kind: oGlobal, val: v}
		case *ssa.Function:
			return Opd{kind: oVal, val: &Closure{fn: v}}
		case *ssa.Builtin:
			return Opd{kind: oVal, val: v}
		}
		panic(fmt.Sprintf("operand %T", v))
	}
	for _, b := range f.Blocks {
		cb := &Blk{edge: map[int]int{}}
		for i, p := range b.Preds {
			cb.edge[p.Index] = i
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				pi := &phiIns{dst: regs[ph]}
				for _, x := range ph.Edges {
					pi.opds = append(pi.opds, opd(x))
				}
				cb.phis = append(cb.phis, pi)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := Ins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			o := func(vs ...ssa.Value) {
				for _, v := range vs {
					ci.ops = append(ci.ops, opd(v))
				}
			}
			cc := func(c *ssa.CallCommon) {
				o(c.Value)
				o(c.Args...)
			}
			switch in := in.(type) {
			case *ssa.Alloc, *ssa.Jump, *ssa.RunDefers:
			case *ssa.BinOp:
				o(in.X, in.Y)
			case *ssa.UnOp:
				o(in.X)
			case *ssa.Call:
				cc(&in.Call)
			case *ssa.Go:
				cc(&in.Call)
			case *ssa.Defer:
				cc(&in.Call)
				if in.DeferStack != nil {
					c.bad = "deferstack"
				}
			case *ssa.ChangeType:
				o(in.X)
			case *ssa.Convert:
				o(in.X)
			case *ssa.MultiConvert:
				o(in.X)
			case *ssa.ChangeInterface:
				o(in.X)
			case *ssa.SliceToArrayPointer:
				o(in.X)
			case *ssa.MakeInterface:
				o(in.X)
			case *ssa.MakeClosure:
				o(in.Fn)
				o(in.Bindings...)
			case *ssa.MakeMap:
				o(in.Reserve)
			case *ssa.MakeChan:
				o(in.Size)
			case *ssa.MakeSlice:
				o(in.Len, in.Cap)
			case *ssa.Slice:
				o(in.X, in.Low, in.High, in.Max)
			case *ssa.FieldAddr:
				o(in.X)
				st := deref(in.X.Type()).Underlying().(*types.Struct)
				ci.ext = e.fieldOff(st, in.Field)
			case *ssa.Field:
				o(in.X)
				st := in.X.Type().Underlying().(*types.Struct)
				ci.ext = e.fieldOff(st, in.Field)
			case *ssa.IndexAddr:
				o(in.X, in.Index)
			case *ssa.Index:
				o(in.X, in.Index)
			case *ssa.Lookup:
				o(in.X, in.Index)
			case *ssa.Select:
				for _, s := range in.States {
					o(s.Chan, s.Send)
				}
			case *ssa.Range:
				o(in.X)
			case *ssa.Next:
				o(in.Iter)
			case *ssa.TypeAssert:
				o(in.X)
			case *ssa.Extract:
				o(in.Tuple)
			case *ssa.If:
				o(in.Cond)
			case *ssa.Return:
				o(in.Results...)
			case *ssa.Panic:
				o(in.X)
			case *ssa.Send:
				o(in.Chan, in.X)
			case *ssa.Store:
				o(in.Addr, in.Val)
			case *ssa.MapUpdate:
				o(in.Map, in.Key, in.Value)
			default:
				c.bad = fmt.Sprintf("instruction %T", in)
			}
			for _, x := range ci.ops {
				if x.kind == oGlobal {
					ci.gl = true
				}
			}
			cb.ins = append(cb.ins, ci)
		}
		c.blocks = append(c.blocks, cb)
	}
	return c
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Eng) fieldOff(st *types.Struct, i int) int {
	off := 0
	for j := 0; j < i; j++ {
		off += e.ncells(st.Field(j).Type())
	}
	return off
}

func (e *Eng) ncells(t types.Type) int {
	if n, ok := e.cellsz[t]; ok {
		return n
	}
	var n int
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n += e.ncells(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * e.ncells(u.Elem())
	default:
		n = 1
	}
	e.cellsz[t] = n
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (e *Eng) zeroCells(t types.Type) []Val {
	if z, ok := e.zeros[t]; ok {
		return z
	}
	var z []Val
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			z = append(z, e.zeroCells(u.Field(i).Type())...)
		}
	case *types.Array:
		ez := e.zeroCells(u.Elem())
		z = make([]Val, 0, int(u.Len())*len(ez))
		for i := 0; i < int(u.Len()); i++ {
			z = append(z, ez...)
		}
	default:
		z = []Val{e.zeroLeaf(u)}
	}
	e.zeros[t] = z
	return z
}

func (e *Eng) zeroLeaf(u types.Type) Val {
	switch u := u.(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return e.m.False
		case i&types.IsInteger != 0:
			return e.m.Const(intWidth(u), 0)
		case i&types.IsFloat != 0:
			return Flt(0)
		case i&types.IsString != 0:
			return StrC("")
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		return &Poison{"zero of " + u.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef(0)
	case *types.Chan:
		return ChanRef(0)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		return Tuple{}
	}
	return &Poison{"zero of " + u.String()}
}

func (e *Eng) zeroVal(t types.Type) Val {
	if isAgg(t) {
		return Agg(append([]Val(nil), e.zeroCells(t)...))
	}
	if tt, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = e.zeroVal(tt.At(i).Type())
		}
		return r
	}
	return e.zeroLeaf(t.Underlying())
}

func intWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Bool, types.UntypedBool:
		return 0
	}
	return 64
}

func isSigned(b *types.Basic) bool { return b.Info()&types.IsUnsigned == 0 }

func (e *Eng) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zeroVal(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return &Poison{"const"}
	}
	i := b.Info()
	switch {
	case i&types.IsBoolean != 0:
		return e.m.Bool(constant.BoolVal(c.Value))
	case i&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if x, ok := constant.Int64Val(v); ok {
			return e.m.Const(intWidth(b), uint64(x))
		}
		x, _ := constant.Uint64Val(v)
		return e.m.Const(intWidth(b), x)
	case i&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		_ = math.Pi
		return Flt(f)
	case i&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return StrC(constant.StringVal(c.Value))
		}
		x, _ := constant.Int64Val(c.Value)
		return StrC(string(rune(x)))
	}
	return &Poison{"const " + t.String()}
}
