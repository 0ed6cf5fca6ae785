package vrt

// Interpreted stand-ins for standard-library functions the engine does not encode
// (reflection-based formatting, runtime-based synchronisation).

import (
	"context"
	"fmt"
	"io"
	"log"
	"sync"
)

type fmtErr struct {
	s string
	w error
}

func (e *fmtErr) Error() string { return e.s }
func (e *fmtErr) Unwrap() error { return e.w }

func fmtOne(v interface{}, verb byte) string {
	if v == nil {
		if verb == 's' || verb == 'd' {
			return "%!" + string(rune(verb)) + "(<nil>)"
		}
		return "<nil>"
	}
	if verb == 'T' {
		return TypeName(v)
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' {
		if e, ok := v.(error); ok {
			return FmtAny(e.Error(), verb)
		}
		if e, ok := v.(fmt.Stringer); ok {
			return FmtAny(e.String(), verb)
		}
	}
	return FmtAny(v, verb)
}

func pad(s string, w int, zero, left bool) string {
	for len(s) < w {
		if left {
			s = s + " "
		} else if zero {
			s = "0" + s
		} else {
			s = " " + s
		}
	}
	return s
}

func format(f string, a []interface{}) (string, error) {
	out := ""
	var wrapped error
	n := 0
	i := 0
	for i < len(f) {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out += f[i:j]
			i = j
			continue
		}
		i++
		zero, left := false, false
		w := 0
		for i < len(f) && (f[i] == '#' || f[i] == '+' || f[i] == '-' || f[i] == '0' || f[i] == ' ') {
			if f[i] == '0' {
				zero = true
			}
			if f[i] == '-' {
				left = true
			}
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			w = w*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				i++
			}
		}
		if i >= len(f) {
			out += "%!(NOVERB)"
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out += "%"
			continue
		}
		if n >= len(a) {
			out += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		v := a[n]
		n++
		if verb == 'w' {
			if e, ok := v.(error); ok {
				wrapped = e
			}
			verb = 'v'
		}
		out += pad(fmtOne(v, verb), w, zero, left)
	}
	return out, wrapped
}

func Sprintf(f string, a ...interface{}) string {
	s, _ := format(f, a)
	return s
}

func Sprint(a ...interface{}) string {
	s := ""
	for i, v := range a {
		if i > 0 {
			_, x := v.(string)
			_, y := a[i-1].(string)
			if !x && !y {
				s += " "
			}
		}
		s += fmtOne(v, 'v')
	}
	return s
}

func Sprintln(a ...interface{}) string {
	s := ""
	for i, v := range a {
		if i > 0 {
			s += " "
		}
		s += fmtOne(v, 'v')
	}
	return s + "\n"
}

func Errorf(f string, a ...interface{}) error {
	s, w := format(f, a)
	return &fmtErr{s, w}
}

func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	s, _ := format(f, a)
	return w.Write([]byte(s))
}
func Fprint(w io.Writer, a ...interface{}) (int, error)   { return w.Write([]byte(Sprint(a...))) }
func Fprintln(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(Sprintln(a...))) }

func LogPanic(a ...interface{})                              { panic(Sprint(a...)) }
func LogPanicf(f string, a ...interface{})                   { panic(Sprintf(f, a...)) }
func LogPanicln(a ...interface{})                            { panic(Sprintln(a...)) }
func LoggerPanic(l *log.Logger, a ...interface{})            { panic(Sprint(a...)) }
func LoggerPanicf(l *log.Logger, f string, a ...interface{}) { panic(Sprintf(f, a...)) }

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if Comparable(target) && Comparable(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if u, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range u.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
		if err == nil {
			return false
		}
	}
}

func asTarget(err error, target interface{}) bool { panic("engine only") }

func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		if u, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range u.Unwrap() {
				if ErrorsAs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

type valueCtx struct {
	context.Context
	key, val interface{}
}

func (c *valueCtx) Value(k interface{}) interface{} {
	if c.key == k {
		return c.val
	}
	return c.Context.Value(k)
}

func ContextWithValue(p context.Context, key, val interface{}) context.Context {
	return &valueCtx{p, key, val}
}

func condTicket(c *sync.Cond) int   { panic("engine only") }
func condBlock(c *sync.Cond, t int) { panic("engine only") }

func CondWait(c *sync.Cond) {
	t := condTicket(c)
	c.L.Unlock()
	condBlock(c, t)
	c.L.Lock()
}

func poolGet(p *sync.Pool) interface{}    { panic("engine only") }
func poolPut(p *sync.Pool, v interface{}) { panic("engine only") }

func PoolGet(p *sync.Pool) interface{} {
	Yield()
	v := poolGet(p)
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func PoolPut(p *sync.Pool, v interface{}) {
	Yield()
	poolPut(p, v)
	Yield() // what still uses v is in trouble from here on
}

func SortSlice(x interface{}, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(x, j, j-1)
		}
	}
}

type smap struct {
	k, v []interface{}
}

var smaps = map[*sync.Map]*smap{}

func smapOf(m *sync.Map) *smap {
	s := smaps[m]
	if s == nil {
		s = &smap{}
		smaps[m] = s
	}
	return s
}

func (s *smap) find(k interface{}) int {
	for i := range s.k {
		if s.k[i] == k {
			return i
		}
	}
	return -1
}

func SyncMapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	Yield()
	s := smapOf(m)
	if i := s.find(k); i >= 0 {
		return s.v[i], true
	}
	return nil, false
}

func SyncMapStore(m *sync.Map, k, v interface{}) {
	Yield()
	s := smapOf(m)
	if i := s.find(k); i >= 0 {
		s.v[i] = v
		return
	}
	s.k = append(s.k, k)
	s.v = append(s.v, v)
}

func SyncMapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	Yield()
	s := smapOf(m)
	if i := s.find(k); i >= 0 {
		return s.v[i], true
	}
	s.k = append(s.k, k)
	s.v = append(s.v, v)
	return v, false
}

func SyncMapDelete(m *sync.Map, k interface{}) { SyncMapLoadAndDelete(m, k) }

func SyncMapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	Yield()
	s := smapOf(m)
	i := s.find(k)
	if i < 0 {
		return nil, false
	}
	v := s.v[i]
	s.k = append(append([]interface{}{}, s.k[:i]...), s.k[i+1:]...)
	s.v = append(append([]interface{}{}, s.v[:i]...), s.v[i+1:]...)
	return v, true
}

func SyncMapRange(m *sync.Map, f func(k, v interface{}) bool) {
	Yield()
	s := smapOf(m)
	for i := range s.k {
		if !f(s.k[i], s.v[i]) {
			return
		}
	}
}

// SipHash is SipHash-2-4 (the library's amd64 version is assembly).
func SipHash(k0, k1 uint64, p []byte) uint64 {
	v0 := k0 ^ 0x736f6d6570736575
	v1 := k1 ^ 0x646f72616e646f6d
	v2 := k0 ^ 0x6c7967656e657261
	v3 := k1 ^ 0x7465646279746573
	round := func() {
		v0 += v1
		v1 = v1<<13 | v1>>51
		v1 ^= v0
		v0 = v0<<32 | v0>>32
		v2 += v3
		v3 = v3<<16 | v3>>48
		v3 ^= v2
		v0 += v3
		v3 = v3<<21 | v3>>43
		v3 ^= v0
		v2 += v1
		v1 = v1<<17 | v1>>47
		v1 ^= v2
		v2 = v2<<32 | v2>>32
	}
	n := len(p)
	for len(p) >= 8 {
		var m uint64
		for i := 7; i >= 0; i-- {
			m = m<<8 | uint64(p[i])
		}
		v3 ^= m
		round()
		round()
		v0 ^= m
		p = p[8:]
	}
	m := uint64(n) << 56
	for i := range p {
		m |= uint64(p[i]) << (8 * uint(i))
	}
	v3 ^= m
	round()
	round()
	v0 ^= m
	v2 ^= 0xff
	round()
	round()
	round()
	round()
	return v0 ^ v1 ^ v2 ^ v3
}
