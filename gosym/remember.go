package main

// A search of the memory the program under test keeps for the bytes of a key.

import (
	"go/types"
	"strings"
)

func ofHarness(p *types.Package) bool { return p != nil && strings.Contains(p.Path(), "zzverif") }

// remembered reports whether the concrete bytes of key are found in memory that can be
// reached from the package variables of the repository, from pools or from root.
func (st *State) remembered(key Slice, root Iface) bool {
	var want []uint64
	for i := int32(0); i < key.len; i++ {
		t, ok := st.obj(key.obj).get(key.off + i).(*Term)
		if !ok || !t.isConst() {
			return false
		}
		want = append(want, t.val)
	}
	same := true
	for _, b := range want {
		same = same && b == want[0]
	}
	if same {
		return false // cannot be told from other data
	}
	var w strings.Builder
	for _, b := range want {
		w.WriteByte(byte(b))
	}
	text := w.String()
	found := false
	run := 0
	seen := map[ObjID]bool{}
	var todo []ObjID
	var visit func(v Val)
	byteVal := func(t *Term) {
		// the longest prefix that ends here, the naive way
		if run == len(want) {
			run = 0
		}
		if t.isConst() && t.w == 8 && t.val == want[run] {
			run++
		} else if t.isConst() && t.w == 8 && t.val == want[0] {
			run = 1
		} else {
			run = 0
		}
		if run == len(want) {
			found = true
		}
	}
	ref := func(id ObjID) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		todo = append(todo, id)
	}
	visit = func(v Val) {
		switch v := v.(type) {
		case *Term:
			byteVal(v)
			return
		case StrC:
			if strings.Contains(string(v), text) {
				found = true
			}
		case *SymStr:
			run = 0
			for _, t := range v.b {
				byteVal(t)
			}
		case Ptr:
			ref(v.obj)
		case *SymPtr:
			ref(v.obj)
		case Slice:
			ref(v.obj)
		case Iface:
			if v.t != nil {
				visit(v.v)
			}
		case MapRef:
			ref(ObjID(v))
		case ChanRef:
			ref(ObjID(v))
		case *Closure:
			if v != nil && !(v.fn.Pkg != nil && ofHarness(v.fn.Pkg.Pkg)) {
				for _, x := range v.env {
					visit(x)
				}
			}
		case Agg:
			run = 0
			for _, x := range v {
				visit(x)
			}
		case Tuple:
			for _, x := range v {
				visit(x)
			}
		}
		run = 0
	}
	for _, g := range st.eng.pr.globals {
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), st.eng.pr.repoMod) && !ofHarness(g.Pkg.Pkg) {
			ref(st.eng.globalID[g])
		}
	}
	for _, l := range st.pools {
		for _, v := range l {
			visit(v)
		}
	}
	visit(root)
	for len(todo) > 0 && !found {
		id := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		o := st.obj(id)
		if n, ok := o.typ.(*types.Named); ok && ofHarness(n.Obj().Pkg()) {
			continue
		}
		run = 0
		if o.kind == kMem {
			for i := int32(0); i < o.n && !found; i++ {
				if len(o.chunks) > 0 && o.chunks[i/chunkN] == nil && i%chunkN == 0 && plainZero(o) {
					i += chunkN - 1
					run = 0
					continue
				}
				visit(o.get(i))
			}
		}
		for _, l := range [][]Val{o.mkeys, o.mvals, o.buf} {
			for _, v := range l {
				run = 0
				visit(v)
			}
		}
	}
	return found
}

// plainZero reports whether untouched cells of the object are integers.
func plainZero(o *Obj) bool {
	for _, v := range o.zero {
		if _, ok := v.(*Term); !ok {
			return false
		}
	}
	return true
}
