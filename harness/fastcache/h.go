package fastcache

import (
	"strconv"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

type entry struct{ k, v string }

// model is the reference: entries from least to most recently used.
type model struct {
	cap int
	es  []entry
}

func (m *model) find(k string) (string, bool) {
	for i, e := range m.es {
		if e.k == k {
			m.es = append(append([]entry{}, m.es[:i]...), append(append([]entry{}, m.es[i+1:]...), e)...)
			return e.v, true
		}
	}
	return "", false
}

func (m *model) store(k, v string) {
	if _, ok := m.find(k); ok {
		m.es[len(m.es)-1].v = v
		return
	}
	if len(m.es) == m.cap {
		m.es = append([]entry{}, m.es[1:]...)
	}
	m.es = append(m.es, entry{k, v})
}

func run(capacity, steps int) {
	f := filetree.NewFastCache(capacity)
	m := &model{cap: capacity}
	names := []string{"/a", "/b", "/c", "/d", "/e", "/f", "/g", "/h"}
	used := 0
	key := func() string {
		// keys are interchangeable: the next fresh one stands for all fresh ones
		hi := used
		if hi > len(names)-1 {
			hi = len(names) - 1
		}
		k := vrt.Choose("key", 0, hi)
		if k == used {
			used++
		}
		return names[k]
	}
	for i := 0; i < steps; i++ {
		switch vrt.Choose("op", 0, 2) {
		case 0:
			k := key()
			v := vrt.String("val", 2)
			f.Store(k, v)
			m.store(k, v)
		case 1:
			k := key()
			g, ok := f.Find(k)
			v, mok := m.find(k)
			vrt.Assert(ok == mok, "the path cache forgot an entry it must still hold, or kept one it must have evicted")
			if ok {
				vrt.Assert(g.PlaintextPath == k, "the path cache answered for another path")
				vrt.Assert(vrt.EqString(g.CiphertextPath, v), "the path cache answered with a stale or foreign path")
			}
		case 2:
			if i == 0 || i == steps-1 {
				vrt.Stop()
			}
			f.Clear()
			m.es = nil
		}
	}
	// final contents, least recently used first: every key is asked for
	for i := 0; i < used; i++ {
		k := names[i]
		want, mok := "", false
		for _, e := range m.es {
			if e.k == k {
				want, mok = e.v, true
			}
		}
		g, ok := f.Find(k)
		vrt.Assert(ok == mok, "the path cache forgot an entry it must still hold, or kept one it must have evicted")
		if ok {
			vrt.Assert(vrt.EqString(g.CiphertextPath, want) && g.PlaintextPath == k, "the path cache answered with a stale or foreign path")
		}
	}
	vrt.Reach("end")
}

// Every history of 6 (thorough: 8) operations store, find and clear over
// interchangeable paths, stored values symbolic, against a reference cache with
// least-recently-used eviction; capacities 1 to 4.
//verif:prop=C07 reach=end shard=cap:1..4 time=120 timet=1500
func H_lru() {
	run(vrt.Choose("cap", 1, 4), vrt.Bound(6, 8))
}

// Longer histories of store and find at capacity 2 and 3: fill the cache, then 5
// (thorough: 7) operations, then a probe of the evicted entry after one more store.
//verif:prop=C07 reach=end shard=cap:2..4 time=120 timet=1500
func H_lru_full() {
	capacity := vrt.Choose("cap", 2, 4)
	f := filetree.NewFastCache(capacity)
	m := &model{cap: capacity}
	names := []string{"/a", "/b", "/c", "/d", "/e", "/f", "/g", "/h", "/i", "/j", "/k", "/l", "/m", "/n"}
	used := 0
	for ; used < capacity; used++ {
		f.Store(names[used], "c"+names[used])
		m.store(names[used], "c"+names[used])
	}
	steps := vrt.Bound(5, 7)
	for i := 0; i < steps; i++ {
		k := vrt.Choose("key", 0, capacity)
		if k == capacity {
			// a new entry: the oldest one goes
			f.Store(names[used], "c"+names[used])
			m.store(names[used], "c"+names[used])
			used++
			continue
		}
		// touch one of the entries in the cache
		p := m.es[k].k
		if vrt.Choose("how", 0, 1) == 0 {
			g, ok := f.Find(p)
			v, _ := m.find(p)
			vrt.Assert(ok && g.CiphertextPath == v, "the path cache forgot an entry it must still hold")
		} else {
			v := vrt.String("val", 2)
			f.Store(p, v)
			m.store(p, v)
		}
	}
	for i := 0; i < used; i++ {
		want, mok := "", false
		for _, e := range m.es {
			if e.k == names[i] {
				want, mok = e.v, true
			}
		}
		g, ok := f.Find(names[i])
		vrt.Assert(ok == mok, "the path cache forgot an entry it must still hold, or kept one it must have evicted")
		if ok {
			vrt.Assert(vrt.EqString(g.CiphertextPath, want), "the path cache answered with a stale or foreign path")
		}
	}
	vrt.Reach("end")
}

// Two concurrent clients on a cache that holds entries, every schedule: any two of
// lookups, a refreshing store, an evicting store and a clear. Lookups answer with a value
// stored for that path or nothing, the cache survives intact, and no memory is accessed
// without protection.
//verif:prop=C07 sched reach=end shard=pair:0..24 time=200
func H_concurrent() {
	lib.InstallCrypto() // for the random source of the package's dependencies
	f := filetree.NewFastCache(2)
	vrt.WaitIdle()
	f.Store("/a", "1")
	f.Store("/b", "2")
	pair := vrt.Choose("pair", 0, 24)
	var wg sync.WaitGroup
	wg.Add(2)
	vrt.Sched(0, -1)
	for _, k := range []int{pair / 5, pair % 5} {
		k := k
		go func() {
			switch k {
			case 0, 1:
				p := []string{"/a", "/b"}[k]
				g, ok := f.Find(p)
				vrt.Assert(!ok || g.PlaintextPath == p && (g.CiphertextPath == string(rune('1'+k)) || p == "/a" && g.CiphertextPath == "3"), "the path cache answered with a stale or foreign path")
			case 2:
				f.Store("/a", "3")
			case 3:
				f.Store("/c", "4")
			case 4:
				f.Clear()
			}
			wg.Done()
		}()
	}
	wg.Wait()
	f.Store("/d", "5")
	f.Store("/e", "6")
	for _, p := range []string{"/a", "/b", "/c"} {
		_, ok := f.Find(p)
		vrt.Assert(!ok, "the path cache kept an entry it must have evicted")
	}
	g, ok := f.Find("/d")
	h, ok2 := f.Find("/e")
	vrt.Assert(ok && ok2 && g.CiphertextPath == "5" && h.CiphertextPath == "6", "the path cache forgot an entry it must still hold")
	vrt.Reach("end")
}

// Histories of 2500 stores and lookups at capacities from 1 to 1000 in four patterns: at every step the answer is that of the reference.
//verif:prop=C07 reach=end shard=cap:0..7 time=200
func H_long() {
	capacity := []int{1, 2, 3, 5, 16, 64, 100, 1000}[vrt.Choose("cap", 0, 7)]
	f := filetree.NewFastCache(capacity)
	m := &counted{cap: capacity, at: map[string]int{}, val: map[string]string{}}
	pattern := vrt.Choose("pattern", 0, 3)
	x := 7
	for i := 0; i < 2500; i++ {
		var k string
		switch pattern {
		case 0: // always new
			k = "/" + strconv.Itoa(i)
		case 1: // round and round, one more than fit
			k = "/" + strconv.Itoa(i%(capacity+1))
		case 2: // as many as fit
			k = "/" + strconv.Itoa(i%capacity)
		case 3: // scattered
			x = (x*1103 + 12345) % 65536
			k = "/" + strconv.Itoa(x/7%(2*capacity))
		}
		g, ok := f.Find(k)
		v, mok := m.find(k)
		vrt.Assert(ok == mok, "the path cache forgot an entry it must still hold, or kept one it must have evicted")
		if ok {
			vrt.Assert(g.PlaintextPath == k && g.CiphertextPath == v, "the path cache answered with a stale or foreign path")
		}
		if !ok || i%5 == 0 {
			f.Store(k, "c"+strconv.Itoa(i))
			m.store(k, "c"+strconv.Itoa(i))
		}
		if capacity > 1 && i%3 == 1 {
			// an entry that is in the cache
			if k, ok := m.some(i); ok {
				g, ok := f.Find(k)
				v, _ := m.find(k)
				vrt.Assert(ok && g.CiphertextPath == v, "the path cache forgot an entry it must still hold")
			}
		}
	}
	vrt.Reach("end")
}

// counted is the reference for long histories: the time of last use of every entry.
type counted struct {
	cap, low int
	at       map[string]int
	val      map[string]string
	order    []string // by time of use; an entry counts where at says
}

func (m *counted) use(k string) {
	m.at[k] = len(m.order)
	m.order = append(m.order, k)
}

func (m *counted) find(k string) (string, bool) {
	v, ok := m.val[k]
	if ok {
		m.use(k)
	}
	return v, ok
}

func (m *counted) store(k, v string) {
	_, ok := m.val[k]
	m.val[k] = v
	m.use(k)
	if ok || len(m.val) <= m.cap {
		return
	}
	for ; ; m.low++ {
		o := m.order[m.low]
		if p, in := m.at[o]; in && p == m.low {
			delete(m.at, o)
			delete(m.val, o)
			m.low++
			return
		}
	}
}

// some returns an entry that is neither the newest nor the oldest, if there is one.
func (m *counted) some(i int) (string, bool) {
	for p := len(m.order) - 2 - i%7; p >= m.low && p >= 0 && p > len(m.order)-20; p-- {
		if q, in := m.at[m.order[p]]; in && q == p {
			return m.order[p], true
		}
	}
	return "", false
}

// Time that passes makes the cache forget nothing, and does not change what is evicted.
//verif:prop=C07 nonative reach=end
func H_later() {
	f := filetree.NewFastCache(2)
	d := vrt.Pause("pause")
	f.Store("/a", "1")
	vrt.Elapse(d)
	f.Store("/b", "2")
	vrt.Elapse(d)
	g, ok := f.Find("/a")
	vrt.Assert(ok && g.CiphertextPath == "1", "the path cache forgot an entry it must still hold")
	vrt.Elapse(vrt.Pause("other"))
	f.Store("/c", "3")
	_, ok = f.Find("/b")
	vrt.Assert(!ok, "the path cache kept an entry it must have evicted")
	vrt.Elapse(d)
	g, ok = f.Find("/a")
	h, ok2 := f.Find("/c")
	vrt.Assert(ok && ok2 && g.CiphertextPath == "1" && h.CiphertextPath == "3", "the path cache forgot an entry it must still hold")
	vrt.Reach("end")
}
