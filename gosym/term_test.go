package main

import (
	"math/rand"
	"testing"
)

// Random terms built through the simplifying constructors evaluate to what the
// operations themselves give.
func TestSimplifier(t *testing.T) {
	rnd := rand.New(rand.NewSource(7))
	ws := []uint8{1, 3, 6, 8, 16, 32, 64}
	for round := 0; round < 3000; round++ {
		m := NewTermMgr()
		type ent struct {
			t *Term
			f func(md *Model) uint64
		}
		var pool []ent
		nv := 4
		for i := 0; i < nv; i++ {
			v := m.Var("x"+string(rune('a'+i)), ws[rnd.Intn(len(ws))])
			pool = append(pool, ent{v, func(md *Model) uint64 { return md.get(uint32(v.val)) & maskW(v.w) }})
		}
		pick := func(w uint8) (ent, bool) {
			var c []ent
			for _, e := range pool {
				if w == 255 && e.t.w > 0 || e.t.w == w {
					c = append(c, e)
				}
			}
			if len(c) == 0 || w != 255 && w > 0 && rnd.Intn(6) == 0 {
				if w == 0 || w == 255 {
					return ent{}, false
				}
				k := rnd.Uint64() & maskW(w)
				if rnd.Intn(2) == 0 {
					k = (uint64(1)<<uint(rnd.Intn(int(w)+1)) - 1) & maskW(w)
				}
				return ent{m.Const(w, k), func(*Model) uint64 { return k }}, true
			}
			return c[rnd.Intn(len(c))], true
		}
		for step := 0; step < 14; step++ {
			a, _ := pick(255)
			w := a.t.w
			b, _ := pick(w)
			var n ent
			mk := func(t *Term, f func(md *Model) uint64) {
				tw := t.w
				n = ent{t, func(md *Model) uint64 { return f(md) & maskB(tw) }}
			}
			switch rnd.Intn(17) {
			case 0:
				mk(m.Add(a.t, b.t), func(md *Model) uint64 { return a.f(md) + b.f(md) })
			case 1:
				mk(m.Sub(a.t, b.t), func(md *Model) uint64 { return a.f(md) - b.f(md) })
			case 2, 3:
				mk(m.BXor(a.t, b.t), func(md *Model) uint64 { return a.f(md) ^ b.f(md) })
			case 4:
				mk(m.BAnd(a.t, b.t), func(md *Model) uint64 { return a.f(md) & b.f(md) })
			case 5, 6:
				mk(m.BOr(a.t, b.t), func(md *Model) uint64 { return a.f(md) | b.f(md) })
			case 7, 8:
				s := uint64(rnd.Intn(int(w) + 2))
				sh := s
				if s > maskW(w) {
					continue
				}
				mk(m.Shl(a.t, m.Const(w, s)), func(md *Model) uint64 {
					if sh >= uint64(w) {
						return 0
					}
					return a.f(md) << sh
				})
			case 9, 10:
				s := uint64(rnd.Intn(int(w) + 2))
				if s > maskW(w) {
					continue
				}
				mk(m.Lshr(a.t, m.Const(w, s)), func(md *Model) uint64 {
					if s >= uint64(w) {
						return 0
					}
					return a.f(md) >> s
				})
			case 11:
				hi := uint8(rnd.Intn(int(w)))
				lo := uint8(rnd.Intn(int(hi) + 1))
				mk(m.Extract(a.t, hi, lo), func(md *Model) uint64 { return a.f(md) >> lo })
			case 12:
				for _, x := range ws {
					if x > w {
						mk(m.ZExt(a.t, x), func(md *Model) uint64 { return a.f(md) })
						break
					}
				}
			case 13:
				c, _ := pick(255)
				if c.t.w+w > 64 {
					continue
				}
				mk(m.Concat(a.t, c.t), func(md *Model) uint64 { return a.f(md)<<c.t.w | c.f(md) })
			case 14:
				if a.t.umax > 255 {
					continue
				}
				vs := make([]uint64, a.t.umax+1)
				for i := range vs {
					vs[i] = uint64(rnd.Intn(4)) * 3
				}
				if rnd.Intn(2) == 0 {
					p := rnd.Perm(len(vs))
					for i := range vs {
						vs[i] = uint64(p[i])
					}
				}
				mk(m.Tab(a.t, vs, 8), func(md *Model) uint64 { return vs[a.f(md)] })
			case 15:
				c, ok := pick(0)
				if !ok {
					continue
				}
				mk(m.Ite(c.t, a.t, b.t), func(md *Model) uint64 {
					if c.f(md) == 1 {
						return a.f(md)
					}
					return b.f(md)
				})
			case 16:
				switch rnd.Intn(4) {
				case 0:
					mk(m.Eq(a.t, b.t), func(md *Model) uint64 { return b2u(a.f(md) == b.f(md)) })
				case 1:
					mk(m.Ult(a.t, b.t), func(md *Model) uint64 { return b2u(a.f(md) < b.f(md)) })
				case 2:
					mk(m.Slt(a.t, b.t), func(md *Model) uint64 { return b2u(sext(a.f(md), w) < sext(b.f(md), w)) })
				default:
					c, ok := pick(0)
					d, ok2 := pick(0)
					if !ok || !ok2 {
						continue
					}
					mk(m.And(m.Not(c.t), d.t), func(md *Model) uint64 { return b2u(c.f(md) == 0 && d.f(md) == 1) })
				}
			}
			if n.t == nil {
				continue
			}
			pool = append(pool, n)
			for k := 0; k < 6; k++ {
				vals := map[uint32]uint64{}
				for i := 0; i < nv; i++ {
					vals[uint32(pool[i].t.val)] = rnd.Uint64() >> uint(rnd.Intn(64))
				}
				md := &Model{vals: vals}
				got, want := m.Eval(n.t, md), n.f(md)
				if got != want {
					t.Fatalf("round %d: %s = %d, want %d", round, n.t.str(9), got, want)
				}
				if n.t.w > 0 && (got < n.t.umin || got > n.t.umax) {
					t.Fatalf("round %d: %s = %d outside [%d,%d]", round, n.t.str(9), got, n.t.umin, n.t.umax)
				}
			}
		}
	}
}
