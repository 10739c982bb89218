package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog *ssa.Program
	pkg  *ssa.Package
	con  *Contracts
}

func loadProgram(dir, contracts string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	pk, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pk) != 1 || len(pk[0].Errors) > 0 {
		return nil, fmt.Errorf("cannot load %s: %v", dir, pk[0].Errors)
	}
	prog, ps := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	ps[0].Build()
	con, err := loadContracts(contracts, ps[0])
	if err != nil {
		return nil, err
	}
	p := &Program{prog, ps[0], con}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		con.funcs = append(con.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	all := p.allFuncs()
	var names []string
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		add(all[n])
	}
	return p, nil
}

// allFuncs lists the declared functions and methods of the package
func (p *Program) allFuncs() map[string]*ssa.Function {
	m := map[string]*ssa.Function{}
	for _, mem := range p.pkg.Members {
		switch v := mem.(type) {
		case *ssa.Function:
			if v.Synthetic == "" {
				m[fnName(v)] = v
			}
		case *ssa.Type:
			n, ok := v.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				if f := p.prog.FuncValue(n.Method(i)); f != nil {
					m[fnName(f)] = f
				}
			}
		}
	}
	return m
}

type FnResult struct {
	Fn          string              `json:"function"`
	Contract    string              `json:"contract"`
	Obligations []*Obligation       `json:"-"`
	Unsupported string              `json:"unsupported,omitempty"`
	Returns     int                 `json:"returns"`
	Paths       int                 `json:"steps"`
	Loops       int                 `json:"loops"`
	Invs        int                 `json:"inferred_invariants"`
	LoopInvs    map[string][]string `json:"-"`
	Assume      []string            `json:"-"`
	Inlined     []string            `json:"inlined,omitempty"`
	Called      []string            `json:"by_contract,omitempty"`
	Seconds     float64             `json:"seconds"`
	Queries     int                 `json:"queries"`
	SolverSec   float64             `json:"solver_seconds"`
}

func newExec(p *Program, fn *ssa.Function) *Exec {
	tb := NewTB()
	x := &Exec{
		pkg: p.pkg, prog: p.prog, tb: tb, sol: NewSolver(tb), con: p.con, root: fn,
		contById: map[int]*Content{}, parents: map[int][]agreement{}, atTerms: map[int]map[int]bool{},
		atList: map[int][][2]*Term{}, boxed: map[int]*IfaceV{}, unboxed: map[string]Value{}, typeOf: map[int]types.Type{},
		specTerms: map[int][]*specApp{}, globals: map[*ssa.Global]*Obj{}, loopsOf: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{},
		obls: map[string]*Obligation{}, assume: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{},
		entryVals: map[string]Value{}, covered: map[string]bool{}, strMem: map[string]*Term{}, invUsed: map[string]int{},
		havocObj: map[int]bool{}, keyVals: map[int]*StructV{}, specSeen: map[int]bool{}, unfold: map[string]bool{}, tracked: map[string]bool{}, callTypes: map[string]callSig{}, rootNames: map[string]TV{}, rvTypes: map[int]types.Type{},
		rvVals: map[int]Value{}, entryLen: map[int]*Term{}, loopInvs: map[string][]string{}, bothWays: map[*ssa.If]bool{}, deadInv: map[*ssa.BasicBlock]map[string]bool{}, regions: map[*ssa.BasicBlock]*region{}, sliceEnd: map[int]*Term{}, maxSteps: 400000,
	}
	return x
}

func newState() *State {
	return &State{pcset: map[int]bool{}, heap: map[int]interface{}{}, objs: map[int]*Obj{}, insted: map[[2]int]bool{},
		fam: map[int]int{}, ghost: map[string]*Term{}, written: map[int]bool{}, exposed: map[int]bool{}, exposedElem: map[string]*PtrV{}}
}

// verifyFunc checks the body of fn against its contract
func verifyFunc(p *Program, fn *ssa.Function, prop string, limit time.Duration) (res *FnResult) {
	t0 := time.Now()
	c := p.con.forFn(fn)
	res = &FnResult{Fn: fnName(fn)}
	if c == nil {
		res.Unsupported = "no contract fits the signature"
		return res
	}
	res.Contract = c.Loc
	x := newExec(p, fn)
	x.rootC = c
	x.deadline = func() bool { return time.Since(t0) > limit }
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				res.Unsupported = u.msg
			} else if debugPanics {
				panic(r)
			} else {
				res.Unsupported = fmt.Sprint(r)
			}
		}
		x.sol.Close()
		for _, k := range x.order {
			res.Obligations = append(res.Obligations, x.obls[k])
		}
		res.Returns, res.Paths, res.Loops, res.Invs = x.returns, x.steps, x.nloops, x.ninvs
		res.LoopInvs = x.loopInvs
		res.Assume, res.Inlined, res.Called = keys(x.assume), keys(x.inlined), keys(x.called)
		res.Queries, res.SolverSec = x.sol.queries, x.sol.time.Seconds()
		res.Seconds = time.Since(t0).Seconds()
	}()
	for _, u := range c.Unfold {
		x.unfold[u] = true
	}
	x.trackTails = c.Appends == ""
	x.onlyProp = prop
	x.noteTracked(c)
	st := newState()
	var args []Value
	for i, prm := range fn.Params {
		n := c.Params[i]
		v := x.freshValue(st, prm.Type(), n)
		x.markEntry(v)
		if i == 0 && fn.Signature.Recv() != nil {
			if pv, ok := v.(*PtrV); ok {
				pv.nil_ = x.tb.False
			}
		}
		switch w := v.(type) {
		case *SliceV:
			x.entryLen[w.obj.id] = w.len
			st.touch(w.obj)
			if w.obj.kind == KArr {
				x.content(st, w.obj)
			}
		case *Term:
			if w.sort == SRV {
				x.rvKeep = append(x.rvKeep, w)
			}
		}
		args = append(args, v)
		x.entryVals[n] = v
		x.rootNames[n] = TV{v: v, t: prm.Type()}
	}
	x.rvVer(st)
	x.entrySt = st.clone()
	ec := &EvCtx{x: x, st: st, old: st, names: x.rootNames, pol: -1}
	for _, r := range c.Requires {
		x.add(st, ec.clause(r))
	}
	for _, u := range c.Unfolding {
		if !hasHole(u.Expr) {
			x.add(st, ec.clause(u))
		}
	}
	x.entrySt = st.clone()
	if st.dead || !x.feasible(st, x.tb.True) {
		x.obligeAt(newState(), "vacuous", "the precondition can be met", c.Loc, nil, x.tb.False)
		return res
	}
	paths := 0
	x.runFunc(st, fn, args, nil, nil, func(st *State, out Outcome) {
		paths++
		x.atReturn(st, fn, c, out)
	})
	if x.returns == 0 && !c.MayPanic {
		x.obligeAt(newState(), "vacuous", "some path returns", c.Loc, nil, x.tb.False)
	}
	return res
}

var debugSlow = os.Getenv("GOVER_SLOW") != ""

func (x *Exec) atReturn(st *State, fn *ssa.Function, c *Contract, out Outcome) {
	if out.panicked {
		if !c.MayPanic {
			x.oblige(st, "panic", "the function does not panic", fn.Pos(), x.safetyProps(), x.tb.False)
		}
		return
	}
	if st.dead || !x.feasible(st, x.tb.True) {
		return
	}
	x.returns++
	names := map[string]TV{}
	for k, v := range x.rootNames {
		names[k] = v
	}
	rts := x.results(fn.Signature)
	var vs []Value
	switch len(rts) {
	case 0:
	case 1:
		vs = []Value{out.val}
	default:
		vs = out.val.(TupleV)
	}
	for i, n := range c.Results {
		names[n] = TV{v: vs[i], t: rts[i]}
	}
	pos := x.pos(fn.Pos())
	ec := &EvCtx{x: x, st: st, old: x.entrySt, names: names, pol: 1}
	gs := make([]*Term, len(c.Ensures))
	if x.quiet == 0 && len(c.Ensures) > 1 {
		// all at once; one by one if that fails
		all := x.tb.True
		pc0 := append([]*Term{}, st.pc...)
		n := 0
		for i, e := range c.Ensures {
			if x.onlyProp != "" && len(e.Props) > 0 && !overlap(e.Props, []string{x.onlyProp}) {
				continue
			}
			g := ec.clause(e)
			gs[i] = g
			if o := x.obls["post|"+e.Src+"  ("+e.Loc+")|"+pos]; o != nil && o.Status != "proved" || g.isTrue() || st.pcset[g.id] {
				continue
			}
			all = x.tb.And(all, g)
			n++
		}
		t0 := time.Now()
		defer func() {
			if debugSlow && time.Since(t0) > 2*time.Second {
				fmt.Fprintln(os.Stderr, "slow return", time.Since(t0), st.trace)
				os.WriteFile(fmt.Sprintf("/tmp/slowret%d.smt2", x.returns), []byte(x.sol.Script(append(append([]*Term{}, pc0...), x.tb.Not(all)))), 0644)
			}
		}()
		if n > 1 && x.sol.Check(append(append([]*Term{}, st.pc...), x.tb.Not(all))) == "unsat" {
			for _, g := range gs {
				if g != nil {
					x.add(st, g)
				}
			}
		}
	}
	for i, e := range c.Ensures {
		g := gs[i]
		if g == nil {
			g = ec.clause(e)
		}
		s2 := st // later clauses may use earlier ones
		x.obligeAt(s2, "post", e.Src+"  ("+e.Loc+")", pos, e.Props, g)
		if st.dead {
			return
		}
	}
	for _, f := range c.Fresh {
		ok := x.isFresh(st, names[f].v)
		g := x.tb.B(ok)
		if !ok {
			// an empty or nil result shares nothing
			switch v := names[f].v.(type) {
			case *SliceV:
				g = v.nil_
			case *PtrV:
				g = v.nil_
			case *MapV:
				g = v.nil_
			}
		}
		x.obligeAt(st, "fresh", "result "+f+" shares no memory with the arguments", pos, c.Frame, g)
	}
	if c.Appends != "" {
		if sv, ok := vs[0].(*SliceV); ok && sv.obj != nil && !sv.obj.fresh {
			av := names[c.Appends].v.(*SliceV)
			g := sv.obj == av.obj || st.family(sv.obj) == st.family(av.obj)
			x.obligeAt(st, "fresh", "result 0 extends "+c.Appends+" or is new", pos, c.Frame, x.tb.Or(x.tb.B(g), sv.nil_))
		}
	}
	x.frameCheck(st, c, pos)
}

// frameCheck: what is not listed under modifies is as it was
func (x *Exec) frameCheck(st *State, c *Contract, pos string) {
	tb := x.tb
	oc := &EvCtx{x: x, st: x.entrySt, old: x.entrySt, names: x.rootNames, pol: 0}
	var locs []location
	rv := false
	for _, m := range c.Modifies {
		for _, l := range oc.locations(m.Expr) {
			if l.rv {
				rv = true
			}
			locs = append(locs, l)
		}
	}
	if st.written[-1] && !rv {
		x.obligeAt(st, "frame", "nothing reachable through reflect.Value is modified", pos, c.Frame, tb.False)
	}
	covered := func(o *Obj, path []int) bool {
		for _, l := range locs {
			if l.obj == o && !l.all && len(l.path) <= len(path) && fmt.Sprint(l.path) == fmt.Sprint(path[:len(l.path)]) {
				return true
			}
		}
		return false
	}
	var ids []int
	for id := range st.written {
		if id >= 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.objs[id]
		if o == nil || o.fresh || o.appendOf != nil {
			continue
		}
		was := x.entrySt.heap[id]
		if was == nil {
			was = o.init
		}
		now := st.heap[id]
		if was == nil || now == nil {
			if now == nil {
				continue
			}
			x.obligeAt(st, "frame", "object "+o.hint+" is not modified", pos, c.Frame, tb.False)
			continue
		}
		switch o.kind {
		case KCell:
			var refs []cellRef
			x.cellLeaves(o, o.typ, nil, now, was, &refs)
			for _, r := range refs {
				if covered(o, r.path) {
					continue
				}
				g := tb.False
				func() {
					defer func() { recover() }()
					g = x.eqV(st, getPath(now, r.path), getPath(was, r.path))
				}()
				x.obligeAt(st, "frame", fmt.Sprintf("%s%v is not modified", o.hint, r.path), pos, c.Frame, g)
			}
		case KArr:
			all, lo := false, (*Term)(nil)
			elemIdx := []*Term{}
			for _, l := range locs {
				if l.obj == o {
					if l.all && l.lo == nil || l.all && l.lo.isC() && l.lo.val == 0 {
						all = true
					} else if l.all {
						lo = l.lo
					} else if l.idx != nil {
						elemIdx = append(elemIdx, l.idx)
					}
				}
			}
			if all || x.havocObj[id] {
				continue
			}
			cw, ok1 := was.(*Content)
			cn, ok2 := now.(*Content)
			if !ok1 || !ok2 || cw == cn {
				continue
			}
			end := x.entryLen[id]
			if end == nil {
				end = x.sliceEnd[id]
			}
			if end == nil {
				x.obligeAt(st, "frame", "elements of "+o.hint+" are not modified", pos, c.Frame, tb.False)
				continue
			}
			if lo != nil {
				end = tb.Ite(tb.Slt(lo, end), lo, end)
			}
			k := x.skolem(st, "fr")
			g := tb.Imp(tb.And(tb.Sle(tb.I(0), k), tb.Slt(k, end)), tb.Eq(x.sel(cn, k), x.sel(cw, k)))
			for _, e := range elemIdx {
				g = tb.Or(g, tb.Eq(k, e))
			}
			x.obligeAt(st, "frame", "elements of "+o.hint+" are not modified", pos, c.Frame, g)
		case KMap:
			ok := false
			for _, l := range locs {
				if l.obj == o && l.all {
					ok = true
				}
			}
			if x.havocObj[id] {
				ok = true // designated by a variable that may be modified
			}
			if !ok && now != was {
				x.obligeAt(st, "frame", "map "+o.hint+" is not modified", pos, c.Frame, tb.False)
			}
		case KVec:
			if !x.sameHeap(now, was) && !covered(o, nil) {
				x.obligeAt(st, "frame", "array "+o.hint+" is not modified", pos, c.Frame, tb.False)
			}
		}
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// forProp reports whether an obligation counts for property p
func (o *Obligation) forProp(p string) bool {
	if p == "" || len(o.Props) == 0 {
		return true
	}
	for _, q := range o.Props {
		if q == p {
			return true
		}
	}
	return false
}

func hasProp(c *Contract, p string) bool {
	if p == "" {
		return true
	}
	for _, q := range c.Props {
		if q == p {
			return true
		}
	}
	return false
}

var _ = strings.Contains
