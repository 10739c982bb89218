package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Solver struct {
	tb         *TB
	cmd        *exec.Cmd
	in         io.WriteCloser
	out        *bufio.Reader
	defined    map[int]bool
	declF      map[string]bool
	declS      map[Sort]bool
	distinN    map[string]int
	buf        strings.Builder
	log        *os.File
	queries    int
	time       time.Duration
	cache      map[string]string
	timeout    int // ms
	bin        string
	noFallback bool
	quickMs    int // time for a query that may stay unanswered
	curTmo     int
	limit      int // seconds for the fallback solvers

}

var totalQueries, totalTimeNs, fallbackQueries int64

func NewSolver(tb *TB) *Solver {
	s := &Solver{tb: tb, timeout: 150, bin: "z3-new"}
	if b := os.Getenv("GOVER_Z3"); b != "" {
		s.bin = b
	}
	s.cache = map[string]string{}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.defined = map[int]bool{}
	s.declF = map[string]bool{}
	s.declS = map[Sort]bool{}
	s.distinN = map[string]int{}
	s.buf.Reset()
	s.curTmo = 0
	fmt.Fprintf(&s.buf, "(set-option :print-success false)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// closure of terms with their axioms
func (s *Solver) collect(roots []*Term) (axioms []*Term, groups map[string][]*Term) {
	seen := map[int]bool{}
	axs := map[int]bool{}
	groups = map[string][]*Term{}
	var stack []*Term
	push := func(t *Term) {
		if !seen[t.id] {
			seen[t.id] = true
			stack = append(stack, t)
		}
	}
	for _, r := range roots {
		push(r)
	}
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, a := range t.args {
			push(a)
		}
		for _, a := range s.tb.axioms[t.id] {
			if !axs[a.id] {
				axs[a.id] = true
				axioms = append(axioms, a)
				push(a)
			}
		}
		if g := s.tb.isDistinctConst(t); g != "" {
			groups[g] = append(groups[g], t)
		}
	}
	return
}

func (s *Solver) declare(w *strings.Builder, t *Term, defined map[int]bool, declF map[string]bool, declS map[Sort]bool) {
	if defined[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if !defined[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if defined[x.id] {
			continue
		}
		defined[x.id] = true
		decl := func(so Sort) {
			if so != Bool && so.bits() == 0 && !declS[so] {
				declS[so] = true
				fmt.Fprintf(w, "(declare-sort %s 0)\n", so)
			}
		}
		decl(x.sort)
		switch x.op {
		case "const":
		case "var":
			fmt.Fprintf(w, "(declare-fun |%s| () %s)\n", x.name, x.sort.smt())
		case "app":
			if !declF[x.name] {
				declF[x.name] = true
				sig := s.tb.funs[x.name]
				var as []string
				for _, so := range sig[:len(sig)-1] {
					decl(so)
					as = append(as, so.smt())
				}
				fmt.Fprintf(w, "(declare-fun |%s| (%s) %s)\n", x.name, strings.Join(as, " "), sig[len(sig)-1].smt())
			}
			fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", x.id, x.sort.smt(), s.tb.body(x, s.tb.ref))
		default:
			fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", x.id, x.sort.smt(), s.tb.body(x, s.tb.ref))
		}
	}
}

func distinctAsserts(tb *TB, groups map[string][]*Term) []string {
	var out []string
	var names []string
	for g := range groups {
		names = append(names, g)
	}
	sort.Strings(names)
	for _, g := range names {
		ts := groups[g]
		if len(ts) < 2 {
			continue
		}
		var sb strings.Builder
		sb.WriteString("(distinct")
		for _, t := range ts {
			sb.WriteString(" " + tb.ref(t))
		}
		sb.WriteString(")")
		out = append(out, sb.String())
	}
	return out
}

// Check reports whether the conjunction is "sat", "unsat" or "unknown"
func (s *Solver) Check(asserts []*Term) string {
	r, _ := s.CheckModel(asserts, nil)
	return r
}

// Quick is Check without the other solvers: "unknown" is a possible answer
func (s *Solver) Quick(asserts []*Term) string {
	s.noFallback = true
	r, _ := s.CheckModel(asserts, nil)
	s.noFallback = false
	return r
}

func (s *Solver) CheckModel(asserts []*Term, vals []*Term) (string, []string) {
	var roots []*Term
	for _, a := range asserts {
		if a.isFalse() {
			return "unsat", nil
		}
		if !a.isTrue() {
			roots = append(roots, a)
		}
	}
	if len(roots) == 0 && vals == nil {
		return "sat", nil
	}
	ids := make([]int, 0, len(roots))
	for _, r := range roots {
		ids = append(ids, r.id)
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	if vals == nil {
		if r, ok := s.cache[key]; ok {
			return r, nil
		}
	}
	axioms, groups := s.collect(append(append([]*Term{}, roots...), vals...))
	all := append(append([]*Term{}, roots...), axioms...)
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	w := &s.buf
	for _, t := range all {
		s.declare(w, t, s.defined, s.declF, s.declS)
	}
	for _, t := range vals {
		s.declare(w, t, s.defined, s.declF, s.declS)
	}
	w.WriteString("(push)\n")
	for _, t := range all {
		fmt.Fprintf(w, "(assert %s)\n", s.tb.ref(t))
	}
	for _, d := range distinctAsserts(s.tb, groups) {
		fmt.Fprintf(w, "(assert %s)\n", d)
	}
	tmo := s.timeout
	if s.noFallback && s.quickMs > 0 {
		tmo = s.quickMs
	}
	if tmo != s.curTmo {
		s.curTmo = tmo
		fmt.Fprintf(w, "(set-option :timeout %d)\n", tmo)
	}
	w.WriteString("(check-sat)\n")
	if os.Getenv("GOVER_LAST") != "" {
		os.WriteFile(os.Getenv("GOVER_LAST"), []byte(s.Script(asserts)), 0644)
	}
	res := s.roundtrip()
	var mv []string
	if res == "sat" && len(vals) > 0 {
		for _, v := range vals {
			fmt.Fprintf(w, "(eval %s)\n", s.tb.ref(v))
			mv = append(mv, s.roundtrip())
		}
	}
	w.WriteString("(pop)\n")
	s.queries++
	atomic.AddInt64(&totalQueries, 1)
	d := time.Since(t0)
	if os.Getenv("GOVER_STAT") != "" {
		kd := "check"
		if s.noFallback {
			kd = "feas"
		} else if vals != nil {
			kd = "houd"
		} else if s.limit == 8 {
			kd = "prove"
		}
		fmt.Fprintf(os.Stderr, "STAT %s %s %d %d\n", kd, strings.Fields(res + " x")[0], d.Milliseconds(), len(all))
	}
	s.time += d
	atomic.AddInt64(&totalTimeNs, int64(d))
	if os.Getenv("GOVER_SLOW") != "" && d > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow query %v (%d asserts) %s\n", d, len(all), res)
		if os.Getenv("GOVER_SLOW") == "2" {
			os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", s.queries), []byte(s.Script(asserts)), 0644)
		}
	}
	if res != "sat" && res != "unsat" && res != "unknown" {
		if strings.Contains(res, "error") {
			panic("solver: " + res)
		}
		res = "unknown"
	}
	if res == "unknown" && vals == nil && !s.noFallback {
		res, _ = s.fallback(asserts, nil)
	}
	if res == "unknown" && vals != nil && !s.noFallback && s.limit > 0 {
		res, mv = s.fallback(asserts, vals)
	}
	if vals == nil && !(res == "unknown" && s.noFallback) {
		s.cache[key] = res
	}
	return res, mv
}

func (s *Solver) roundtrip() string {
	s.buf.WriteString("(echo \"#\")\n")
	io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	var sb strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.cmd = nil
			return "unknown"
		}
		line = strings.TrimSpace(line)
		if line == "#" {
			break
		}
		if sb.Len() > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(line)
	}
	return sb.String()
}

// Script is the query as a stand-alone SMT-LIB file
func (s *Solver) Script(asserts []*Term) string { return s.script(asserts, nil) }

func (s *Solver) script(asserts []*Term, vals []*Term) string {
	axioms, groups := s.collect(append(append([]*Term{}, asserts...), vals...))
	var w strings.Builder
	if vals != nil {
		w.WriteString("(set-option :produce-models true)\n")
	}
	w.WriteString("(set-logic ALL)\n")
	def, df, ds := map[int]bool{}, map[string]bool{}, map[Sort]bool{}
	all := append(append([]*Term{}, asserts...), axioms...)
	for _, t := range append(append([]*Term{}, all...), vals...) {
		s.declare(&w, t, def, df, ds)
	}
	for _, t := range all {
		fmt.Fprintf(&w, "(assert %s)\n", s.tb.ref(t))
	}
	for _, d := range distinctAsserts(s.tb, groups) {
		fmt.Fprintf(&w, "(assert %s)\n", d)
	}
	w.WriteString("(check-sat)\n")
	if vals != nil {
		w.WriteString("(get-value (")
		for _, v := range vals {
			w.WriteString(" " + s.tb.ref(v))
		}
		w.WriteString("))\n")
	}
	return w.String()
}

var boolRe = regexp.MustCompile(`[\s|](true|false)\s*\)`)

// fallback tries the other installed solvers on a query the first one gave up on
func (s *Solver) fallback(asserts []*Term, vals []*Term) (string, []string) {
	t0 := time.Now()
	atomic.AddInt64(&fallbackQueries, 1)
	script := s.script(asserts, vals)
	if d := os.Getenv("GOVER_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, s.queries), []byte(script), 0644)
	}
	lim := s.limit
	if lim == 0 {
		lim = 40
	}
	res, mv := race(script, len(vals), lim)
	if os.Getenv("GOVER_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "fallback %v %s (limit %d)\n", time.Since(t0), res, lim)
	}
	return res, mv
}

var raceSlots = make(chan bool, 5)

// race runs the installed solvers on a script until one of them answers
func race(script string, nvals int, lim int) (string, []string) {
	raceSlots <- true
	defer func() { <-raceSlots }()
	type r struct {
		res  string
		vals []string
	}
	ch := make(chan r, 8)
	ms, sec := fmt.Sprintf("--tlimit=%d000", lim), fmt.Sprintf("-T:%d", lim)
	cmds := [][]string{{"cvc5", "--lang=smt2", ms, "--solve-bv-as-int=sum", "-q"}, {"z3-new", "-in", "-smt2", sec}, {"cvc5", "--lang=smt2", ms, "-q"}, {"z3", "-in", "-smt2", sec}}
	var procs []*exec.Cmd
	var mu sync.Mutex
	over := false
	run := func(c []string) {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(script)
		mu.Lock()
		if over {
			mu.Unlock()
			ch <- r{res: "unknown"}
			return
		}
		procs = append(procs, cmd)
		var ob bytes.Buffer
		cmd.Stdout = &ob
		err := cmd.Start()
		mu.Unlock()
		if err != nil {
			ch <- r{res: "unknown"}
			return
		}
		go func() {
			cmd.Wait()
			f := strings.Fields(ob.String())
			a := r{res: "unknown"}
			if len(f) > 0 {
				a.res = f[0]
				for _, m := range boolRe.FindAllStringSubmatch(ob.String(), -1) {
					a.vals = append(a.vals, m[1])
				}
			}
			ch <- a
		}()
	}
	for i, c := range cmds {
		if i < 2 {
			run(c)
		} else {
			c := c
			time.AfterFunc(1500*time.Millisecond, func() { run(c) })
		}
	}
	res := "unknown"
	var mv []string
	for range cmds {
		x := <-ch
		if x.res == "sat" || x.res == "unsat" {
			res = x.res
			if len(x.vals) == nvals {
				mv = x.vals
			}
			break
		}
	}
	mu.Lock()
	over = true
	for _, p := range procs {
		p.Process.Kill()
	}
	mu.Unlock()
	return res, mv
}
