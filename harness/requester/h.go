package requester

import (
	"errors"
	"os"
	"strconv"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/requester"
	"github.com/flawedmatrix/gocryptsftp/zzverif/lib"
	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

// remote answers every request with a value that depends on the whole request, and
// records what it was asked. Its own steps are atomic with the lock operation before them,
// so that every order of calls is covered without further scheduling points.
type remote struct {
	calls int
	mask  byte // bit n: the n-th call fails
	down  bool // every call fails
	fails int
	empty bool
	junk  bool // failing calls return something besides the error
	err   error
}

var errRemote = errors.New("remote error")

func (r *remote) enter() error {
	n := r.calls
	r.calls++
	if r.down || n < 8 && r.mask>>uint(n)&1 == 1 {
		r.fails++
		if r.err != nil {
			return r.err
		}
		return errRemote
	}
	return nil
}

func last(s string) byte {
	if len(s) == 0 {
		return 0
	}
	return s[len(s)-1]
}

func fileOf(p string) []byte { return []byte{'f', last(p) ^ 0x5a} }

func nameOf(n string, iv []byte) string {
	b := []byte{'n', last(n) ^ 0x33}
	return string(append(b, iv...))
}

func (r *remote) ReadFile(p string) ([]byte, error) {
	if err := r.enter(); err != nil {
		if r.junk {
			return []byte("part"), err
		}
		return nil, err
	}
	if r.empty {
		return nil, nil
	}
	return fileOf(p), nil
}

func (r *remote) ReadDir(p string) ([]os.FileInfo, error) {
	if err := r.enter(); err != nil {
		if r.junk {
			return []os.FileInfo{&lib.Info{N: "part"}}, err
		}
		return nil, err
	}
	if r.empty {
		return nil, nil
	}
	return []os.FileInfo{&lib.Info{N: string(fileOf(p))}}, nil
}

func (r *remote) DecryptName(n string, iv []byte) (string, error) {
	if err := r.enter(); err != nil {
		if r.junk {
			return "part", err
		}
		return "", err
	}
	if r.empty {
		return "", nil
	}
	return nameOf(n, iv), nil
}

// req is one request of any of the three kinds.
type req struct {
	kind int
	arg  string
	iv   []byte
}

// same reports whether two requests ask for the same thing.
func same(a, b req) bool {
	if a.kind != b.kind {
		return false
	}
	return vrt.And(vrt.EqString(a.arg, b.arg), vrt.EqBytes(a.iv, b.iv))
}

// do performs the request and checks that an answer is the answer to this request.
func (q req) do(rq *requester.Requester, empty bool) error {
	switch q.kind {
	case 0:
		d, err := rq.ReadFile(q.arg)
		if err != nil {
			vrt.Assert(d == nil, "a failed file request returned data")
			return err
		}
		if empty {
			vrt.Assert(len(d) == 0, "a file request returned something else")
		} else {
			vrt.Assert(vrt.EqBytes(d, fileOf(q.arg)), "a file request was answered with something else")
		}
	case 1:
		d, err := rq.ReadDir(q.arg)
		if err != nil {
			vrt.Assert(d == nil, "a failed listing request returned data")
			return err
		}
		if empty {
			vrt.Assert(len(d) == 0, "a listing request returned something else")
		} else {
			vrt.Assert(len(d) == 1 && d[0].Name() == string(fileOf(q.arg)), "a listing request was answered with something else")
		}
	default:
		d, err := rq.DecryptName(q.arg, q.iv)
		if err != nil {
			vrt.Assert(d == "", "a failed name request returned data")
			return err
		}
		if empty {
			vrt.Assert(d == "", "a name request returned something else")
		} else {
			vrt.Assert(vrt.EqString(d, nameOf(q.arg, q.iv)), "a name request was answered with something else")
		}
	}
	return nil
}

// reqs returns two requests with symbolic arguments: the kinds are those of mix (0 to 5:
// file/file, listing/listing, name/name, file/listing, file/name, listing/name).
func reqs(mix int) (a, b req) {
	ka := []int{0, 1, 2, 0, 0, 1}[mix]
	kb := []int{0, 1, 2, 1, 2, 2}[mix]
	a = req{kind: ka, arg: "/" + vrt.String("pa", 1)}
	b = req{kind: kb, arg: "/" + vrt.String("pb", 1)}
	if ka == 2 {
		a.iv = vrt.Bytes("iva", 2)
	}
	if kb == 2 {
		b.iv = vrt.Bytes("ivb", 2)
	}
	return
}

// Two clients, two workers, no faults: two requests of any kinds with any arguments,
// under every schedule. Both succeed with their own answer; the remote is asked once per
// distinct request.
//verif:prop=C08,C09,C11 sched reach=done shard=mix:0..5 time=300
func H_two() {
	r := &remote{}
	rq := requester.New(2, r, r)
	rq.Start()
	a, b := reqs(vrt.Choose("mix", 0, 5))
	var wg sync.WaitGroup
	wg.Add(2)
	vrt.Sched(0, -1)
	for _, q := range []req{a, b} {
		q := q
		go func() {
			err := q.do(rq, false)
			vrt.Assert(err == nil, "a request failed although the remote answered every call")
			wg.Done()
		}()
	}
	wg.Wait()
	n := 2
	if same(a, b) {
		n = 1
	}
	vrt.Assert(r.calls == n, "the remote was not asked exactly once per distinct request")
	vrt.Reach("done")
}

// Three clients, two workers, no faults: two of the same request and a third of any.
//verif:prop=C08,C09,C11 sched reach=done shard=mix:0..0/5 time=300 timet=1500
func H_three() {
	r := &remote{}
	rq := requester.New(2, r, r)
	rq.Start()
	a, b := reqs(vrt.Choose("mix", 0, 5))
	var wg sync.WaitGroup
	wg.Add(3)
	vrt.Sched(0, -1)
	for _, q := range []req{a, b, a} {
		q := q
		go func() {
			err := q.do(rq, false)
			vrt.Assert(err == nil, "a request failed although the remote answered every call")
			wg.Done()
		}()
	}
	wg.Wait()
	n := 2
	if same(a, b) {
		n = 1
	}
	vrt.Assert(r.calls == n, "the remote was not asked exactly once per distinct request")
	vrt.Reach("done")
}

// Two clients, two workers; each of the first calls of the remote fails or not. A request
// fails only if a call failed; once the remote is healthy again the next request succeeds,
// and the one after that is answered without asking again.
//verif:prop=C08,C10,C11 sched reach=fail,ok shard=mix:0..2 time=300
func H_fault() {
	r := &remote{mask: vrt.Byte("fails")}
	rq := requester.New(2, r, r)
	rq.Start()
	a, b := reqs(vrt.Choose("mix", 0, 2))
	vrt.Assume(same(a, b))
	var wg sync.WaitGroup
	wg.Add(2)
	vrt.Sched(0, -1)
	for _, q := range []req{a, b} {
		q := q
		go func() {
			err := q.do(rq, false)
			vrt.Assert(err == nil || r.fails > 0, "a request failed although the remote answered every call")
			vrt.Assert(err == nil || err == errRemote, "a request was not told the error of the remote")
			if err != nil {
				vrt.Reach("fail")
			} else {
				vrt.Reach("ok")
			}
			wg.Done()
		}()
	}
	wg.Wait()
	r.mask = 0
	err := a.do(rq, false)
	vrt.Assert(err == nil, "an error stuck: the request still fails although the remote recovered")
	n := r.calls
	err = b.do(rq, false)
	vrt.Assert(err == nil && r.calls == n, "an answered request was not kept")
}

// An earlier request failed and its error is still held. Two clients then ask again under
// every schedule, with the remote healthy: both succeed.
//verif:prop=C10,C11 sched reach=done shard=mix:0..2 time=300
func H_stale() {
	r := &remote{mask: 1}
	rq := requester.New(2, r, r)
	rq.Start()
	a, b := reqs(vrt.Choose("mix", 0, 2))
	vrt.Assume(same(a, b))
	vrt.Assert(a.do(rq, false) != nil, "a failing remote went unnoticed")
	var wg sync.WaitGroup
	wg.Add(2)
	vrt.Sched(0, -1)
	for _, q := range []req{a, b} {
		q := q
		go func() {
			err := q.do(rq, false)
			vrt.Assert(err == nil, "an error stuck: a request fails although the remote recovered")
			wg.Done()
		}()
	}
	wg.Wait()
	vrt.Reach("done")
}

// The remote fails every call. One client asks once, another one twice (thorough: or three
// times), with or without an error from before, under every schedule: each is told the
// remote's error, and not that there was no answer.
//verif:prop=C08,C10,C11 sched reach=done shard=mix:0..0/2 time=300 timet=1500
func H_fails_always() {
	r := &remote{down: true}
	rq := requester.New(vrt.Bound(1, 2), r, r)
	rq.Start()
	a, b := reqs(vrt.Choose("mix", 0, 2))
	vrt.Assume(same(a, b))
	if vrt.Choose("before", 0, 1) == 1 {
		a.do(rq, false)
	}
	n := vrt.Choose("again", 1, vrt.Bound(1, 2))
	var wg sync.WaitGroup
	wg.Add(2)
	vrt.Sched(0, -1)
	for i := 0; i < 2; i++ {
		k := 1 + i*n
		go func() {
			for j := 0; j < k; j++ {
				vrt.Assert(a.do(rq, false) == errRemote, "a request was not told the error of the remote")
			}
			wg.Done()
		}()
	}
	wg.Wait()
	vrt.Reach("done")
}

// Two clients, one worker; one timer (thorough: two) expires at any point, also before the worker
// has picked up the request. A client that timed out is told so; a request made
// afterwards is answered. The answer that came too late for the client that gave up is kept
// like any other.
//verif:prop=C09,C11 sched reach=timeout,ok shard=mix:0..2 time=300
func H_timeout() {
	r := &remote{}
	rq := requester.New(1, r, r)
	rq.Start()
	a, b := reqs(vrt.Choose("mix", 0, 2))
	var wg sync.WaitGroup
	wg.Add(2)
	vrt.Sched(vrt.Bound(1, 2), -1)
	for _, q := range []req{a, b} {
		q := q
		go func() {
			if q.do(rq, false) != nil {
				vrt.Reach("timeout")
			}
			wg.Done()
		}()
	}
	wg.Wait()
	vrt.WaitIdle()
	vrt.NoTimers()
	err := b.do(rq, false)
	vrt.Assert(err == nil, "a request is not answered any more after another one timed out")
	err = a.do(rq, false)
	vrt.Assert(err == nil, "a request is not answered any more after it timed out")
	n := 2
	if same(a, b) {
		n = 1
	}
	vrt.Assert(r.calls == n, "the remote was not asked exactly once per distinct request")
	vrt.Reach("ok")
}

// One client (thorough: two, and at most four preemptions) while the caches are cleared: every answer still belongs to its request and
// every request is answered.
//verif:prop=C08,C11 sched reach=done shard=mix:0..2/2 time=300 timet=1500
func H_clear() {
	r := &remote{}
	rq := requester.New(2, r, r)
	rq.Start()
	a, b := reqs(vrt.Choose("mix", 0, 2))
	vrt.Assume(same(a, b))
	var wg sync.WaitGroup
	qs := []req{a, b}[:vrt.Bound(1, 2)]
	wg.Add(len(qs) + 1)
	vrt.Sched(0, vrt.Bound(-1, 4))
	for _, q := range qs {
		q := q
		go func() {
			err := q.do(rq, false)
			vrt.Assert(err == nil, "a request failed although the remote answered every call")
			wg.Done()
		}()
	}
	go func() {
		rq.ClearCache()
		wg.Done()
	}()
	wg.Wait()
	vrt.WaitIdle() // a call in progress may still bring in its answer
	n := r.calls
	rq.ClearCache()
	err := a.do(rq, false)
	vrt.Assert(err == nil && r.calls == n+1, "a cleared cache still answers requests")
	vrt.Reach("done")
}

// Empty files, listings and names are answers like any other: they are kept.
//verif:prop=C08,C09,C10 reach=done
func H_empty() {
	r := &remote{empty: true}
	rq := requester.New(1, r, r)
	rq.Start()
	a, _ := reqs(vrt.Choose("mix", 0, 2))
	for i := 0; i < 3; i++ {
		err := a.do(rq, true)
		vrt.Assert(err == nil, "an empty answer was reported as a failure")
	}
	vrt.Assert(r.calls == 1, "the remote was asked again for an answer it gave before")
	rq.Stop()
	vrt.Reach("done")
}

// The same name in two directories is two requests, whatever the two initialisation
// vectors are.
//verif:prop=C08 reach=done
func H_same_name() {
	r := &remote{}
	rq := requester.New(1, r, r)
	rq.Start()
	n := vrt.String("name", 2)
	for _, iv := range [][]byte{vrt.Bytes("iva", 16), vrt.Bytes("ivb", 16)} {
		req{kind: 2, arg: n, iv: iv}.must(rq)
	}
	// regression: two vectors that an earlier version of the cache confused
	for _, iv := range [][]byte{
		{0xe8, 0xb4, 0xf1, 0x5e, 0x86, 0x93, 0x22, 0x7f, 0, 0, 0, 0, 0, 0, 0, 0},
		{0x26, 0x61, 0x9f, 0x72, 0xfd, 0xdd, 0xee, 0x00, 0, 0, 0, 0, 0, 0, 0, 0},
	} {
		req{kind: 2, arg: "a", iv: iv}.must(rq)
	}
	rq.Stop()
	vrt.Reach("done")
}

func (q req) must(rq *requester.Requester) {
	err := q.do(rq, false)
	vrt.Assert(err == nil, "a request failed although the remote answered every call")
}

// Requests made after the work queue was closed, or many more requests than workers,
// one after another: the requests of one client never interfere, whatever the lengths of
// their arguments, and an error is not remembered.
//verif:prop=C08,C09,C10,C11 reach=done shard=kind0:0..2 time=300
func H_sequence() {
	r := &remote{mask: vrt.Byte("fails"), junk: vrt.Bool("junk")}
	rq := requester.New(1, r, r)
	rq.Start()
	var qs []req
	k := vrt.Choose("kind0", 0, 2)
	for i := 0; i < 3; i++ {
		q := req{kind: k, arg: vrt.String("p", vrt.Choose("len", 0, 2))}
		if q.kind == 2 {
			q.iv = vrt.Bytes("iv", vrt.Choose("ivlen", 0, 2))
		}
		k = vrt.Choose("kind", 0, 2)
		qs = append(qs, q)
		f := r.fails
		n := r.calls
		err := q.do(rq, false)
		vrt.Assert((err != nil) == (r.fails > f), "a request fails exactly if the remote failed it")
		vrt.Assert(r.calls-n <= 1, "one request made the remote do more than one call")
	}
	vrt.Reach("done")
}

// Two requests of one kind with long arguments (paths of 300 bytes, names of 200 bytes
// with vectors of 16 bytes), every byte symbolic: wherever they differ, the second is not
// answered with what the first was; where they are equal, the remote is not asked again.
//verif:prop=C08,C09 reach=same,different shard=kind:0..2 time=300
func H_long() {
	r := &whole{}
	rq := requester.New(1, r, r)
	rq.Start()
	k := vrt.Choose("kind", 0, 2)
	ask := func() (string, bool) {
		n := 300
		if k == 2 {
			n = 200
		}
		arg := vrt.String("arg", n)
		switch k {
		case 0:
			d, err := rq.ReadFile(arg)
			return arg, err == nil && vrt.EqString(string(d), arg)
		case 1:
			d, err := rq.ReadDir(arg)
			return arg, err == nil && len(d) == 1 && vrt.EqString(d[0].Name(), arg)
		}
		iv := vrt.Bytes("iv", 16)
		d, err := rq.DecryptName(arg, iv)
		return arg + string(iv), err == nil && vrt.EqString(d, arg+string(iv))
	}
	a, oka := ask()
	b, okb := ask()
	vrt.Assert(oka && okb, "a request was answered with something else")
	if vrt.EqString(a, b) {
		vrt.Assert(r.calls == 1, "the remote was asked again for an answer it gave before")
		vrt.Reach("same")
	} else {
		vrt.Assert(r.calls == 2, "the remote was not asked for a new request")
		vrt.Reach("different")
	}
}

// Other requests that fail, once or over and over, or recover, change nothing for an
// answer that was given before: it is kept.
//verif:prop=C08,C09,C10 reach=done shard=mix:0..5 time=300
func H_kept() {
	r := &remote{}
	rq := requester.New(1, r, r)
	rq.Start()
	a, b := reqs(vrt.Choose("mix", 0, 5))
	a.must(rq)
	r.mask = vrt.Byte("fails")
	for i := 0; i < 3; i++ {
		f := r.fails
		err := b.do(rq, false)
		vrt.Assert((err != nil) == (r.fails > f), "a request fails exactly if the remote failed it")
		n := r.calls
		a.must(rq)
		vrt.Assert(r.calls == n, "the remote was asked again for an answer it gave before")
	}
	vrt.Reach("done")
}

// whole answers with the request itself.
type whole struct {
	calls int
	size  int
}

func (r *whole) ReadFile(p string) ([]byte, error) {
	r.calls++
	if r.size > 0 {
		d := make([]byte, r.size)
		copy(d, p)
		return d, nil
	}
	return []byte(p), nil
}

func (r *whole) ReadDir(p string) ([]os.FileInfo, error) {
	r.calls++
	return []os.FileInfo{&lib.Info{N: p}}, nil
}

func (r *whole) DecryptName(n string, iv []byte) (string, error) {
	r.calls++
	return n + string(iv), nil
}

// A long history: an answer is kept however large it is (files of up to 64 MiB) and
// however many others were asked for since (more than three times what the caches are
// made for), and is still the answer to its own request.
//verif:prop=C08,C09,C11 reach=done shard=kind:0..3 time=300
func H_history() {
	r := &whole{}
	rq := requester.New(1, r, r)
	rq.Start()
	k := vrt.Choose("kind", 0, 3)
	first := "/" + vrt.String("p", 2)
	if k == 3 {
		for _, n := range []int{1 << 16, 1<<20 + 1, 1 << 23, 1 << 26} {
			r.size = n
			p := "/" + strconv.Itoa(n)
			for i := 0; i < 3; i++ {
				d, err := rq.ReadFile(p)
				vrt.Assert(err == nil && len(d) == n, "a large file is not what the remote sent")
			}
		}
		vrt.Assert(r.calls == 4, "the remote was asked again for an answer it gave before")
		vrt.Reach("done")
		return
	}
	ask := func(p string) bool {
		switch k {
		case 0:
			d, err := rq.ReadFile(p)
			return err == nil && vrt.EqString(string(d), p)
		case 1:
			d, err := rq.ReadDir(p)
			return err == nil && len(d) == 1 && vrt.EqString(d[0].Name(), p)
		}
		d, err := rq.DecryptName(p, []byte{1, 2})
		return err == nil && vrt.EqString(d, p+"\x01\x02")
	}
	ok := ask(first)
	const n = 3100
	for i := 0; i < n; i++ {
		ok = ok && ask("other"+strconv.Itoa(i))
	}
	vrt.Assert(ok, "a request was answered with something else")
	vrt.Assert(r.calls == n+1, "the remote was not asked exactly once per distinct request")
	ok = ask(first) && ask("other7") && ask("other"+strconv.Itoa(n-1))
	vrt.Assert(ok, "a request was answered with something else")
	vrt.Assert(r.calls == n+1, "the remote was asked again for an answer it gave before")
	vrt.Reach("done")
}

// A requester of 1 to 100 workers, as many requests as workers or a few more or less in
// progress at once, each for something else and made by one or two clients: all are
// answered, each with its own answer.
//verif:prop=C08,C11 nonative reach=done shard=kind:0..2 time=60
func H_many_workers() {
	ns := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100}
	n := ns[vrt.Choose("workers", 0, len(ns)-1)]
	r := &gated{gate: make(chan struct{})}
	rq := requester.New(n, r, r)
	rq.Start()
	k := vrt.Choose("kind", 0, 2)
	m := n + []int{0, 1, -1, 20}[vrt.Choose("more", 0, 3)]
	if m == 0 {
		vrt.Stop()
	}
	ok := true
	var wg sync.WaitGroup
	twice := vrt.Choose("twice", 0, 1)
	wg.Add(m + m*twice)
	for i := 0; i < m+m*twice; i++ {
		p := "/" + strconv.Itoa(i%m)
		if i == m {
			vrt.WaitIdle()
		}
		go func() {
			switch k {
			case 0:
				d, err := rq.ReadFile(p)
				ok = ok && err == nil && string(d) == p
			case 1:
				d, err := rq.ReadDir(p)
				ok = ok && err == nil && len(d) == 1 && d[0].Name() == p
			default:
				d, err := rq.DecryptName(p, []byte{1})
				ok = ok && err == nil && d == p+"\x01"
			}
			wg.Done()
		}()
	}
	vrt.WaitIdle()
	close(r.gate)
	wg.Wait()
	vrt.Assert(ok, "of many requests in progress one was not answered, or with something else")
	vrt.Assert(r.calls == m, "the remote was not asked exactly once per distinct request")
	vrt.Reach("done")
}

// gated answers like whole, but only once the gate is open.
type gated struct {
	whole
	gate chan struct{}
}

func (r *gated) ReadFile(p string) ([]byte, error) {
	<-r.gate
	return r.whole.ReadFile(p)
}

func (r *gated) ReadDir(p string) ([]os.FileInfo, error) {
	<-r.gate
	return r.whole.ReadDir(p)
}

func (r *gated) DecryptName(n string, iv []byte) (string, error) {
	<-r.gate
	return r.whole.DecryptName(n, iv)
}

// A remote that fails up to 1000 times in a row, the same request or different ones, is
// asked again each time, and its first answer counts.
//verif:prop=C08,C10,C11 reach=done shard=kind:0..2 time=300
func H_fails_often() {
	r := &remote{down: true}
	rq := requester.New(vrt.Choose("workers", 1, 2), r, r)
	rq.Start()
	a := req{kind: vrt.Choose("kind", 0, 2), arg: "/" + vrt.String("p", 1), iv: []byte{1}}
	each := vrt.Choose("each", 0, 1) == 1
	told := true
	n := 0
	for _, k := range []int{1, 2, 3, 4, 5, 8, 10, 20, 50, 100, 1000} {
		for n < k {
			n++
			q := a
			if each {
				q.arg = "/x" + strconv.Itoa(n)
			}
			told = told && q.do(rq, false) == errRemote
			vrt.Assert(r.calls == n, "the remote was not asked again after an error")
		}
		vrt.Assert(told, "a request was not told the error of the remote")
		if vrt.Choose("recover", 0, 1) == 1 || k == 1000 {
			r.down = false
			for _, q := range []req{a, {kind: a.kind, arg: "/x1", iv: a.iv}, a} {
				vrt.Assert(q.do(rq, false) == nil, "an error stuck: the request still fails although the remote recovered")
			}
			vrt.Assert(r.calls == n+2, "the remote was not asked exactly once per distinct request")
			break
		}
	}
	vrt.Reach("done")
}

// Time that passes, from nothing to years, changes nothing: an answer given is kept, an
// error is not, and a request is still answered.
//verif:prop=C08,C09,C10,C11 nonative reach=done shard=mix:0..5 time=300
func H_later_requests() {
	r := &remote{}
	rq := requester.New(2, r, r)
	rq.Start()
	a, b := reqs(vrt.Choose("mix", 0, 5))
	vrt.Elapse(vrt.Pause("first"))
	a.must(rq)
	n := r.calls
	d := vrt.Pause("pause")
	vrt.Elapse(d)
	a.must(rq)
	vrt.Assert(r.calls == n, "the remote was asked again for an answer it gave before")
	if same(a, b) {
		vrt.Stop()
	}
	r.down = true
	vrt.Assert(b.do(rq, false) == errRemote, "a request was not told the error of the remote")
	vrt.Elapse(d)
	vrt.Assert(b.do(rq, false) == errRemote, "a request was not told the error of the remote")
	vrt.Elapse(d)
	r.down = false
	b.must(rq)
	n = r.calls
	vrt.Elapse(d)
	a.must(rq)
	b.must(rq)
	vrt.Assert(r.calls == n, "the remote was asked again for an answer it gave before")
	rq.ClearCache()
	vrt.Elapse(d)
	a.must(rq)
	vrt.Assert(r.calls == n+1, "a cleared cache still answers requests")
	vrt.Reach("done")
}

// A remote that fails twice, with errors of any of 23 kinds: the request is told so, and is
// answered afterwards.
//verif:prop=C08,C10,C11 reach=done shard=mix:0..5 time=300
func H_error_kinds_told() {
	es := lib.Failures()
	r := &remote{down: true, junk: vrt.Choose("junk", 0, 1) == 1}
	rq := requester.New(1, r, r)
	rq.Start()
	a, b := reqs(vrt.Choose("mix", 0, 5))
	r.err = es[vrt.Choose("kind", 0, len(es)-1)]
	vrt.Assert(a.do(rq, false) != nil, "a request was not told that it failed")
	r.err = es[vrt.Choose("other", 0, len(es)-1)]
	vrt.Assert(b.do(rq, false) != nil, "a request was not told that it failed")
	r.down = false
	a.must(rq)
	b.must(rq)
	vrt.Reach("done")
}
