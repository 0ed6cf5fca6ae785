package main

// SMT solver back ends over pipes. z3 answers the incremental stream; a query z3
// does not decide within its cap goes to cvc5 (plain, then with bit-vectors solved
// as integers), each as a fresh one-shot problem.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries   int
	Sat       int
	Unsat     int
	Unknown   int
	Cached    int
	ByCvc5    int
	Seconds   float64
	MaxSec    float64
	CrossOK   int
	CrossDiff int
}

func (a *SolverStats) add(b *SolverStats) {
	a.Queries += b.Queries
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.Cached += b.Cached
	a.ByCvc5 += b.ByCvc5
	a.Seconds += b.Seconds
	if b.MaxSec > a.MaxSec {
		a.MaxSec = b.MaxSec
	}
	a.CrossOK += b.CrossOK
	a.CrossDiff += b.CrossDiff
}

type Solver struct {
	m     *TermMgr
	cmd   *exec.Cmd
	in    *bufio.Writer
	inc   io.WriteCloser
	out   *bufio.Reader
	defd  []bool // by term id
	vdef  []bool // by var idx
	stats SolverStats
	cache map[string]cacheEnt
	zcap  time.Duration
	z3bin string
	cross bool
	since int
}

type cacheEnt struct {
	r    Res
	vals map[uint32]uint64
}

func NewSolver(m *TermMgr) *Solver {
	s := &Solver{m: m, cache: map[string]cacheEnt{}, zcap: 1500 * time.Millisecond}
	s.z3bin = "z3-new"
	if _, err := exec.LookPath(s.z3bin); err != nil {
		s.z3bin = "z3"
	}
	return s
}

func (s *Solver) start() {
	s.stop()
	s.cmd = exec.Command(s.z3bin, "-in", fmt.Sprintf("-t:%d", s.zcap.Milliseconds()), "-memory:6000")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver:", err)
		os.Exit(2)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defd = nil
	s.vdef = nil
	s.since = 0
	s.in.WriteString("(set-option :global-declarations true)\n(set-logic QF_BV)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func grow(b []bool, n int) []bool {
	if n < len(b) {
		return b
	}
	nb := make([]bool, n*2+64)
	copy(nb, b)
	return nb
}

// define emits declarations/definitions for t.
func define(w io.StringWriter, t *Term, defd, vdef *[]bool) {
	switch t.op {
	case OpConst:
		return
	case OpVar:
		*vdef = grow(*vdef, int(t.val))
		if !(*vdef)[t.val] {
			(*vdef)[t.val] = true
			w.WriteString(fmt.Sprintf("(declare-const v%d %s)\n", t.val, sortStr(t.w)))
		}
		return
	}
	*defd = grow(*defd, int(t.id))
	if (*defd)[t.id] {
		return
	}
	(*defd)[t.id] = true
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			define(w, x, defd, vdef)
		}
	}
	w.WriteString(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortStr(t.w), t.body()))
}

func (s *Solver) varsOf(cs []*Term) []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	for _, c := range cs {
		for _, v := range s.m.Vars(c) {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// Check decides the conjunction of cs; on Sat it returns values for its variables.
func (s *Solver) Check(cs []*Term) (Res, map[uint32]uint64) {
	ids := make([]int, 0, len(cs))
	for _, c := range cs {
		if c.isFalse() {
			return Unsat, nil
		}
		if c.isTrue() {
			continue
		}
		ids = append(ids, int(c.id))
	}
	if len(ids) == 0 {
		return Sat, map[uint32]uint64{}
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.stats.Cached++
		return e.r, e.vals
	}
	t0 := time.Now()
	r, vals := s.checkZ3(cs)
	if r == Unknown {
		r, vals = s.checkCvc5(cs)
		if r != Unknown {
			s.stats.ByCvc5++
		}
	} else if s.cross {
		r2, _ := s.oneShot(cs, false, "cvc5", "--tlimit=20000", "--bv-solver=bitblast")
		if r2 == r {
			s.stats.CrossOK++
		} else if r2 != Unknown {
			s.stats.CrossDiff++
			fmt.Fprintf(os.Stderr, "SOLVER DISAGREEMENT z3=%v cvc5=%v\n", r, r2)
		}
	}
	d := time.Since(t0).Seconds()
	s.stats.Queries++
	s.stats.Seconds += d
	if d > s.stats.MaxSec {
		s.stats.MaxSec = d
	}
	switch r {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	if len(s.cache) < 200000 {
		s.cache[key] = cacheEnt{r, vals}
	}
	return r, vals
}

func (s *Solver) checkZ3(cs []*Term) (Res, map[uint32]uint64) {
	if s.cmd == nil || s.since > 4000 {
		s.start()
	}
	s.since++
	for _, c := range cs {
		define(s.in, c, &s.defd, &s.vdef)
	}
	s.in.WriteString("(push)\n")
	for _, c := range cs {
		s.in.WriteString("(assert " + c.ref() + ")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.stop()
		return Unknown, nil
	}
	line, err := s.readSexp()
	if err != nil {
		s.stop()
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	var r Res
	switch line {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	case "unknown", "timeout":
		r = Unknown
	default:
		fmt.Fprintln(os.Stderr, "solver said:", line)
		s.stop()
		return Unknown, nil
	}
	var vals map[uint32]uint64
	if r == Sat {
		vs := s.varsOf(cs)
		vals = make(map[uint32]uint64, len(vs))
		if len(vs) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vs {
				s.in.WriteString("v" + strconv.Itoa(int(v)) + " ")
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil || strings.HasPrefix(txt, "(error") {
				fmt.Fprintln(os.Stderr, "solver get-value:", txt)
				s.stop()
				return Unknown, nil
			}
			parseValues(txt, vals)
		}
	}
	s.in.WriteString("(pop)\n")
	s.in.Flush()
	return r, vals
}

// readSexp reads one atom line or one balanced s-expression.
func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		sb.WriteString(l)
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string, vals map[uint32]uint64) {
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i < len(toks); i++ {
		if toks[i][0] != 'v' {
			continue
		}
		idx, err := strconv.Atoi(toks[i][1:])
		if err != nil || i+1 >= len(toks) {
			continue
		}
		v := toks[i+1]
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "_" && i+2 < len(toks) && strings.HasPrefix(toks[i+2], "bv"):
			x, _ = strconv.ParseUint(toks[i+2][2:], 10, 64)
			i++
		}
		vals[uint32(idx)] = x
		i++
	}
}

func (s *Solver) checkCvc5(cs []*Term) (Res, map[uint32]uint64) {
	for _, args := range [][]string{
		{"cvc5", "--tlimit=8000", "--produce-models", "--solve-bv-as-int=sum"},
		{s.z3bin, "-t:30000", "-memory:6000"},
		{"cvc5", "--tlimit=60000", "--produce-models"},
	} {
		r, v := s.oneShot(cs, true, args...)
		if r == Sat {
			// the model of an integer encoding is re-evaluated before it is believed
			md := &Model{vals: v}
			for _, c := range cs {
				if s.m.Eval(c, md) != 1 {
					r = Unknown
				}
			}
		}
		if r != Unknown {
			return r, v
		}
	}
	return Unknown, nil
}

func (s *Solver) oneShot(cs []*Term, model bool, args ...string) (Res, map[uint32]uint64) {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	var d, v []bool
	for _, c := range cs {
		define(&sb, c, &d, &v)
	}
	for _, c := range cs {
		sb.WriteString("(assert " + c.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	vs := s.varsOf(cs)
	if model && len(vs) > 0 {
		sb.WriteString("(get-value (")
		for _, x := range vs {
			sb.WriteString("v" + strconv.Itoa(int(x)) + " ")
		}
		sb.WriteString("))\n")
	}
	if args[0] == "cvc5" {
		args = append(args[:len(args):len(args)], "--lang=smt2", "-")
	} else {
		args = append(args[:len(args):len(args)], "-in")
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	txt := string(out)
	if strings.HasPrefix(txt, "unsat") {
		return Unsat, nil
	}
	if strings.HasPrefix(txt, "sat") {
		vals := map[uint32]uint64{}
		parseValues(txt[3:], vals)
		return Sat, vals
	}
	return Unknown, nil
}
