package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Fn     string
	Kind   string // index, slice, nil, assert, makeslice, pre, post, frame, inv, unroll, panic, global
	Desc   string
	Pos    string
	Props  []string
	Status string // proved, failed, unknown
	Count  int    // how many paths
	Trace  []string
	Model  []string
	Query  string
	key    string
}

type Outcome struct {
	panicked bool
	val      Value // tuple or single value, nil if none
}

type Cont func(st *State, out Outcome)

type loopCtx struct {
	loop   *Loop
	mode   int // 0 unroll 1 trial/houdini 2 final
	count  int
	max    int
	onBack func(st *State, fr *Frame, pred *ssa.BasicBlock)
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []*ssa.Defer
	dargs  []([]Value)
	dfns   []Value
	loops  []*loopCtx
	parent *Frame
	unroll int
	catch  bool // a frame up the stack recovers from panics
	recovd bool
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]*ssa.Defer{}, f.defers...)
	n.dargs = append([]([]Value){}, f.dargs...)
	n.dfns = append([]Value{}, f.dfns...)
	n.loops = make([]*loopCtx, len(f.loops))
	for i, l := range f.loops {
		c := *l
		n.loops[i] = &c
	}
	return &n
}

type Exec struct {
	pkg       *ssa.Package
	prog      *ssa.Program
	tb        *TB
	sol       *Solver
	con       *Contracts
	root      *ssa.Function
	rootC     *Contract
	nobj      int
	contById  map[int]*Content
	parents   map[int][]agreement
	atTerms   map[int]map[int]bool
	atList    map[int][][2]*Term
	boxed     map[int]*IfaceV
	unboxed   map[string]Value
	typeOf    map[int]types.Type
	specTerms map[int][]*specApp
	globals   map[*ssa.Global]*Obj
	loopsOf   map[*ssa.Function]map[*ssa.BasicBlock]*Loop

	obls       map[string]*Obligation
	order      []string
	quiet      int // >0: do not record obligations
	paths      int
	returns    int
	assume     map[string]bool // assumptions used
	inlined    map[string]bool
	called     map[string]bool
	notes      []string
	nuniv      int
	havocObj   map[int]bool
	keyVals    map[int]*StructV
	trackTails bool
	steps      int
	maxSteps   int
	depth      int
	rvver      int
	entryVals  map[string]Value
	entrySt    *State
	covered    map[string]bool
	strMem     map[string]*Term
	onlyProp   string
	deadline   func() bool
	invUsed    map[string]int
	specSeen   map[int]bool
	unfold     map[string]bool
	tracked    map[string]bool // callees whose last call is remembered
	callTypes  map[string]callSig
	skolems    []*Term
	rootNames  map[string]TV
	rvTypes    map[int]types.Type
	rvVals     map[int]Value
	entryLen   map[int]*Term
	nloops     int
	ninvs      int
	loopInvs   map[string][]string
	curIf      *ssa.If
	bothWays   map[*ssa.If]bool
	inModset   int
	deadInv    map[*ssa.BasicBlock]map[string]bool
	regions    map[*ssa.BasicBlock]*region
	rvKeep     []*Term
	sliceEnd   map[int]*Term
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := x.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---- path condition ----

func (x *Exec) add(st *State, t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			x.add(st, a)
		}
		return
	}
	if t.isFalse() {
		st.dead = true
	}
	if st.pcset[t.id] {
		return
	}
	st.pcset[t.id] = true
	st.pc = append(st.pc, t)
}

func (x *Exec) feasible(st *State, c *Term) bool {
	if c.isFalse() || st.dead {
		return false
	}
	if c.isTrue() {
		return true
	}
	if st.pcset[c.id] {
		return true
	}
	if n := x.tb.Not(c); st.pcset[n.id] {
		return false
	}
	x.sol.quickMs = 700
	if x.quiet > 0 {
		x.sol.quickMs = 150
	}
	return x.sol.Quick(append(append([]*Term{}, st.pc...), c)) != "unsat"
}

func (x *Exec) proves(st *State, c *Term) bool {
	if c.isTrue() || st.dead || st.pcset[c.id] {
		return true
	}
	x.sol.limit = 20
	defer func() { x.sol.limit = 0 }()
	return x.sol.Check(append(append([]*Term{}, st.pc...), x.tb.Not(c))) == "unsat"
}

// oblige records an obligation and, whatever its outcome, assumes it from here on
func (x *Exec) oblige(st *State, kind, desc string, p token.Pos, props []string, goal *Term) {
	x.obligeAt(st, kind, desc, x.pos(p), props, goal)
}

func (x *Exec) obligeAt(st *State, kind, desc, pos string, props []string, goal *Term) {
	if st.dead {
		return
	}
	if x.quiet > 0 {
		x.add(st, goal)
		return
	}
	if kind == "pre" && !overlap(props, x.rootC.Props) && x.onlyProp != "C20" {
		props = nil // no other check proves it
	}
	if x.onlyProp != "" && (len(props) > 0 || x.onlyProp == "C20") && !overlap(props, []string{x.onlyProp}) {
		// proved in the check of another property; where a run-time error or a violated precondition would
		// stop the function, it holds on every path that continues
		switch kind {
		case "post", "oncall", "fresh", "frame":
		default:
			x.add(st, goal)
		}
		return
	}
	key := kind + "|" + desc + "|" + pos
	o := x.obls[key]
	if o == nil {
		o = &Obligation{Fn: x.rootName(), Kind: kind, Desc: desc, Pos: pos, Props: props, Status: "proved", key: key}
		x.obls[key] = o
		x.order = append(x.order, key)
	}
	o.Count++
	if goal.isTrue() || st.pcset[goal.id] {
		return
	}
	if o.Status != "proved" {
		x.add(st, goal)
		return
	}
	q := append(append([]*Term{}, st.pc...), x.tb.Not(goal))
	t0 := time.Now()
	r := x.sol.Check(q)
	if debugSlow && time.Since(t0) > 2*time.Second {
		fmt.Fprintln(os.Stderr, "slow obligation", time.Since(t0), r, kind, desc, st.trace)
	}
	if r != "unsat" {
		o.Status = "failed"
		if r == "unknown" {
			o.Status = "unknown"
		}
		o.Trace = append([]string{}, st.trace...)
		o.Query = x.sol.Script(q)
		o.Model = x.model(q)
	}
	x.add(st, goal)
}

func overlap(a, b []string) bool {
	for _, p := range a {
		for _, q := range b {
			if p == q {
				return true
			}
		}
	}
	return false
}

func (x *Exec) rootName() string { return fnName(x.root) }

func (x *Exec) model(q []*Term) []string {
	var ts []*Term
	var names []string
	var ks []string
	for k := range x.entryVals {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		switch v := x.entryVals[k].(type) {
		case *Term:
			ts = append(ts, v)
			names = append(names, k)
		case *SliceV:
			ts = append(ts, v.len)
			names = append(names, "len("+k+")")
			if s, ok := x.scalarSort(v.elem); ok && s == BV(8) && v.obj != nil && v.obj.init != nil {
				for i := int64(0); i < 24; i++ {
					ts = append(ts, x.sel(v.obj.init.(*Content), x.tb.I(i)))
					names = append(names, fmt.Sprintf("%s[%d]", k, i))
				}
			}
		}
	}
	r, vals := x.sol.CheckModel(q, ts)
	out := []string{"solver: " + r}
	for i, v := range vals {
		out = append(out, names[i]+" = "+v)
	}
	return out
}

// ---- running ----

type stopPath struct{}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Value {
	if r, ok := fr.env[v]; ok {
		return r
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return &PtrV{obj: x.globalObj(c), nil_: x.tb.False, typ: c.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Function:
		return &FuncV{fn: c}
	case *ssa.Builtin:
		return &FuncV{fn: c}
	case *ssa.FreeVar:
		panic(unsupported("free variable " + c.Name()))
	}
	panic(unsupported(fmt.Sprintf("value %s %T of %s", v.Name(), v, fr.fn)))
}

func (x *Exec) globalObj(g *ssa.Global) *Obj {
	if o, ok := x.globals[g]; ok {
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	o := x.newObj(x.cellKind(t), t, g.Name())
	o.entry = true
	o.init = x.freshValue(nil, t, g.Name())
	x.globals[g] = o
	if iv, ok := o.init.(*IfaceV); ok && types.Identical(t, types.Universe.Lookup("error").Type()) {
		// error variables are initialised once and never reassigned (checked: see Contracts.constGlobals)
		iv.t = x.tb.Const("ifc", "err_"+g.Name(), SIf)
		x.tb.Axiom(iv.t, x.tb.Ne(iv.t, x.inil()))
		x.tb.Axiom(iv.t, x.tb.Not(x.implements(nil, iv, x.namedType("runtime.Error"))))
		x.assume["package-level error variables hold non-nil errors that are not runtime errors"] = true
	}
	x.markEntry(o.init)
	return o
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return x.tb.B(constant.BoolVal(c.Value))
	case constant.String:
		return x.strConst(constant.StringVal(c.Value))
	case constant.Int:
		s := mustSort(x, t)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			break
		}
		if v, ok := constant.Int64Val(c.Value); ok {
			return x.tb.C(uint64(v), s.bits())
		}
		if v, ok := constant.Uint64Val(c.Value); ok {
			return x.tb.C(v, s.bits())
		}
	}
	if s, ok := x.scalarSort(t); ok {
		return x.tb.Var("const_"+sanitize(c.Value.ExactString()), s)
	}
	panic(unsupported("constant " + c.String()))
}

func (x *Exec) runFunc(st *State, fn *ssa.Function, args []Value, bind []Value, parent *Frame, k Cont) {
	if fn.Blocks == nil {
		panic(unsupported("function without body " + fn.String()))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, parent: parent}
	if parent != nil {
		fr.unroll = parent.unroll
		fr.catch = parent.catch || len(parent.defers) > 0
	}
	if c := x.con.forFn(fn); c != nil && c.Unroll > 0 {
		fr.unroll = c.Unroll
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	x.depth++
	if x.depth > 40 {
		panic(unsupported("inlining too deep at " + fn.String()))
	}
	d := x.depth
	x.enter(st, fr, nil, fn.Blocks[0], func(st *State, out Outcome) {
		sd := x.depth
		x.depth = d - 1
		k(st, out)
		x.depth = sd
	})
	x.depth = d - 1
}

func (x *Exec) enter(st *State, fr *Frame, pred, b *ssa.BasicBlock, k Cont) {
	if st.dead {
		return
	}
	x.steps++
	if x.steps > x.maxSteps || x.deadline != nil && x.steps%64 == 0 && x.deadline() {
		panic(unsupported("too many paths"))
	}
	for len(fr.loops) > 0 {
		top := fr.loops[len(fr.loops)-1]
		if top.loop.body[b] {
			break
		}
		if top.mode == 1 {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	loops := x.loops(fr.fn)
	if l := loops[b]; l != nil {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].loop == l {
			top := fr.loops[len(fr.loops)-1]
			if top.mode == 0 {
				top.count++
				if top.count > top.max {
					x.oblige(st, "unroll", fmt.Sprintf("loop ends within %d iterations", top.max), b.Instrs[0].Pos(), x.safetyProps(), x.tb.False)
					return
				}
				x.phis(st, fr, pred, b)
				x.instrs(st, fr, b, 0, k)
				return
			}
			top.onBack(st, fr, pred)
			return
		}
		if pred != nil {
			x.loopEntry(st, fr, l, pred, k)
			return
		}
	}
	x.phis(st, fr, pred, b)
	x.instrs(st, fr, b, 0, k)
}

func (x *Exec) phiVals(st *State, fr *Frame, pred, b *ssa.BasicBlock) ([]*ssa.Phi, []Value) {
	var ps []*ssa.Phi
	var vs []Value
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range b.Preds {
			if e == pred {
				ps = append(ps, p)
				vs = append(vs, x.val(st, fr, p.Edges[i]))
				break
			}
		}
	}
	return ps, vs
}

func (x *Exec) phis(st *State, fr *Frame, pred, b *ssa.BasicBlock) {
	ps, vs := x.phiVals(st, fr, pred, b)
	for i := range ps {
		fr.env[ps[i]] = vs[i]
	}
}

func (x *Exec) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int, k Cont) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			x.enter(st, fr, b, b.Succs[0], k)
			return
		case *ssa.If:
			c := x.val(st, fr, in.Cond).(*Term)
			if !c.isC() {
				x.curIf = in
				if r := x.regionOf(b); r != nil {
					x.runRegion(st, fr, b, c, r, k)
					return
				}
			}
			x.branch(st, fr, c, x.pos(in.Cond.Pos()),
				func(st *State, fr *Frame) { x.enter(st, fr, b, b.Succs[0], k) },
				func(st *State, fr *Frame) { x.enter(st, fr, b, b.Succs[1], k) })
			return
		case *ssa.Return:
			var v Value
			switch len(in.Results) {
			case 0:
			case 1:
				v = x.val(st, fr, in.Results[0])
			default:
				var tv TupleV
				for _, r := range in.Results {
					tv = append(tv, x.val(st, fr, r))
				}
				v = tv
			}
			for _, l := range fr.loops {
				if l.mode == 1 {
					return
				}
			}
			k(st, Outcome{val: v})
			return
		case *ssa.Panic:
			v := x.val(st, fr, in.X)
			x.doPanic(st, fr, v.(*IfaceV), in.Pos(), k)
			return
		case *ssa.RunDefers:
			i := i
			x.runDefers(st, fr, func(st *State, fr *Frame) {
				x.instrs(st, fr, b, i+1, k)
			})
			return
		case *ssa.Defer:
			x.addDefer(st, fr, in)
		case *ssa.Call:
			ci := i
			x.call(st, fr, in, &in.Call, func(st *State, fr2 *Frame, out Outcome) {
				if out.panicked {
					x.unwind(st, fr2, k)
					return
				}
				if out.val != nil {
					fr2.env[in] = out.val
				}
				x.instrs(st, fr2, b, ci+1, k)
			})
			return
		case *ssa.TypeAssert:
			ci := i
			x.typeAssert(st, fr, in, func(st *State, fr2 *Frame, v Value) {
				fr2.env[in] = v
				x.instrs(st, fr2, b, ci+1, k)
			})
			return
		case *ssa.Next:
			ci := i
			x.next(st, fr, in, func(st *State, fr2 *Frame, v Value) {
				fr2.env[in] = v
				x.instrs(st, fr2, b, ci+1, k)
			})
			return
		default:
			x.simple(st, fr, in)
		}
	}
}

// branch explores both sides of a condition
func (x *Exec) branch(st *State, fr *Frame, c *Term, where string, yes, no func(*State, *Frame)) {
	if c.isTrue() {
		yes(st, fr)
		return
	}
	if c.isFalse() {
		no(st, fr)
		return
	}
	nc := x.tb.Not(c)
	// while looking for invariants, a branch that went both ways before is taken both ways
	site := x.curIf
	x.curIf = nil
	guess := x.quiet > 0 && site != nil && fr.unroll == 0
	for _, l := range fr.loops {
		guess = guess && l.mode != 0
	}
	fy, fn := true, true
	if guess && x.bothWays[site] {
		fy = !st.pcset[nc.id]
		fn = !st.pcset[c.id]
	} else {
		fy = x.feasible(st, c)
		if fy {
			fn = x.feasible(st, nc)
		}
		if guess && fy && fn {
			x.bothWays[site] = true
		}
	}
	if fy && fn {
		s2, f2 := st.clone(), fr.clone()
		x.add(st, c)
		st.trace = append(st.trace, where+":T")
		yes(st, fr)
		x.add(s2, nc)
		s2.trace = append(s2.trace, where+":F")
		no(s2, f2)
		return
	}
	if fy {
		x.add(st, c)
		yes(st, fr)
	} else if fn {
		x.add(st, nc)
		no(st, fr)
	}
}

func (x *Exec) doPanic(st *State, fr *Frame, v *IfaceV, p token.Pos, k Cont) {
	for _, l := range fr.loops {
		if l.mode == 1 {
			return
		}
	}
	st.panicV = v
	x.unwind(st, fr, k)
}

// unwind runs the deferred calls of fr while panicking
func (x *Exec) unwind(st *State, fr *Frame, k Cont) {
	for _, l := range fr.loops {
		if l.mode == 1 {
			return
		}
	}
	if len(fr.defers) == 0 {
		k(st, Outcome{panicked: true})
		return
	}
	fr.loops = nil
	x.runDefers(st, fr, func(st *State, fr *Frame) {
		if st.panicV == nil && fr.fn.Recover != nil {
			x.enter(st, fr, nil, fr.fn.Recover, k)
			return
		}
		if st.panicV == nil {
			// recovered, results are zero
			res := fr.fn.Signature.Results()
			var tv TupleV
			for i := 0; i < res.Len(); i++ {
				tv = append(tv, x.zero(res.At(i).Type()))
			}
			var v Value = tv
			if len(tv) == 1 {
				v = tv[0]
			}
			k(st, Outcome{val: v})
			return
		}
		k(st, Outcome{panicked: true})
	})
}

func (x *Exec) addDefer(st *State, fr *Frame, in *ssa.Defer) {
	var args []Value
	for _, a := range in.Call.Args {
		args = append(args, x.val(st, fr, a))
	}
	var f Value
	if in.Call.IsInvoke() {
		f = x.val(st, fr, in.Call.Value)
	} else {
		f = x.val(st, fr, in.Call.Value)
	}
	fr.defers = append(fr.defers, in)
	fr.dargs = append(fr.dargs, args)
	fr.dfns = append(fr.dfns, f)
}

func (x *Exec) runDefers(st *State, fr *Frame, k func(*State, *Frame)) {
	n := len(fr.defers)
	if n == 0 {
		k(st, fr)
		return
	}
	d, args, f := fr.defers[n-1], fr.dargs[n-1], fr.dfns[n-1]
	fr.defers, fr.dargs, fr.dfns = fr.defers[:n-1], fr.dargs[:n-1], fr.dfns[:n-1]
	saved := fr.clone()
	x.invokeVals(st, fr, &d.Call, f, args, d.Pos(), func(st *State, out Outcome) {
		fr2 := saved.clone()
		x.runDefers(st, fr2, k)
	})
}

func (x *Exec) safetyProps() []string {
	if x.rootC != nil {
		return x.rootC.Safety
	}
	return nil
}

// ---- simple instructions ----

func (x *Exec) simple(st *State, fr *Frame, in ssa.Instruction) {
	tb := x.tb
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		o := x.newObj(x.cellKind(t), t, in.Comment)
		o.fresh = true
		switch o.kind {
		case KCell:
			st.heap[o.id] = x.zero(t)
		case KArr:
			st.heap[o.id] = &Content{kind: 3, sort: mustSort(x, o.typ)}
		case KVec:
			n := t.Underlying().(*types.Array).Len()
			if n > 64 {
				panic(unsupported("large array"))
			}
			vs := make([]Value, n)
			for i := range vs {
				vs[i] = x.zero(o.typ)
			}
			st.heap[o.id] = vs
		}
		st.objs[o.id] = o
		fr.env[in] = &PtrV{obj: o, nil_: tb.False, typ: t}
	case *ssa.Store:
		p := x.ptr(st, fr, in.Addr, in.Pos())
		if g, ok := in.Addr.(*ssa.Global); ok {
			x.oblige(st, "global", "no package-level state is written ("+g.Name()+")", in.Pos(), []string{"C20"}, tb.False)
			return
		}
		x.checkGlobalWrite(st, p.obj, in.Pos())
		x.store(st, p, x.val(st, fr, in.Val))
	case *ssa.UnOp:
		fr.env[in] = x.unop(st, fr, in)
	case *ssa.BinOp:
		fr.env[in] = x.binop(st, fr, in)
	case *ssa.FieldAddr:
		p := x.ptr(st, fr, in.X, in.Pos())
		ft := in.Type().Underlying().(*types.Pointer).Elem()
		fr.env[in] = &PtrV{obj: p.obj, path: append(append([]int{}, p.path...), in.Field), idx: p.idx, nil_: tb.False, typ: ft}
	case *ssa.Field:
		v := x.val(st, fr, in.X)
		sv, ok := v.(*StructV)
		if !ok {
			fr.env[in] = x.pureField(st, v.(*Term), in.Field, in.Type())
			return
		}
		fr.env[in] = sv.f[in.Field]
	case *ssa.IndexAddr:
		x.indexAddr(st, fr, in)
	case *ssa.Index:
		v := x.val(st, fr, in.X)
		i := x.idx64(x.val(st, fr, in.Index).(*Term), in.Index.Type())
		switch w := v.(type) {
		case *ArrV:
			n := in.X.Type().Underlying().(*types.Array).Len()
			x.boundCheck(st, i, tb.I(n), in.Pos())
			fr.env[in] = x.fromTerm(st, x.sel(w.c, i), w.obj.typ)
		case *Term: // string
			x.boundCheck(st, i, x.slen(w), in.Pos())
			fr.env[in] = x.sat(w, i)
		default:
			panic(unsupported("index"))
		}
	case *ssa.Lookup:
		x.lookupInstr(st, fr, in)
	case *ssa.Extract:
		fr.env[in] = x.val(st, fr, in.Tuple).(TupleV)[in.Index]
	case *ssa.Slice:
		fr.env[in] = x.sliceOp(st, fr, in)
	case *ssa.MakeSlice:
		fr.env[in] = x.makeSlice(st, fr, in)
	case *ssa.MakeMap:
		t := in.Type().Underlying().(*types.Map)
		o := x.newObj(KMap, t, "map")
		o.fresh = true
		x.setHeap(st, o, &MapContent{kind: 3, typ: t, len: tb.I(0)})
		fr.env[in] = &MapV{obj: o, nil_: tb.False, typ: t}
	case *ssa.MapUpdate:
		m := x.val(st, fr, in.Map).(*MapV)
		x.oblige(st, "nilmap", "map written to is not nil", in.Pos(), x.safetyProps(), tb.Not(m.nil_))
		if m.obj == nil {
			st.dead = true
			return
		}
		x.checkGlobalWrite(st, m.obj, in.Pos())
		kv, vv := x.val(st, fr, in.Key), x.val(st, fr, in.Value)
		// also by the type of the keys, since one function may write maps of several types
		ops := []string{"mapupdate", "mapupdate[" + typeName(m.typ.Key()) + "]"}
		sig := callSig{args: []types.Type{in.Map.Type(), m.typ.Key(), m.typ.Elem()}}
		for _, op := range ops {
			x.oncallT(st, op, sig.args, []Value{m, kv, vv}, in.Pos())
		}
		x.mapStore(st, m.obj, kv, vv)
		for _, op := range ops {
			if x.tracked[op] {
				x.callTypes[op] = sig
				x.noteLast(st, op, []Value{m, kv, vv}, Outcome{})
			}
		}
	case *ssa.MakeInterface:
		v := x.val(st, fr, in.X)
		if iv, ok := v.(*IfaceV); ok {
			fr.env[in] = iv
			return
		}
		fr.env[in] = &IfaceV{dyn: in.X.Type(), val: v}
	case *ssa.ChangeInterface:
		fr.env[in] = x.val(st, fr, in.X)
	case *ssa.ChangeType:
		fr.env[in] = x.val(st, fr, in.X)
	case *ssa.Convert:
		fr.env[in] = x.convert(st, fr, in)
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range in.Bindings {
			bs = append(bs, x.val(st, fr, b))
		}
		fr.env[in] = &FuncV{fn: in.Fn.(*ssa.Function), bind: bs}
	case *ssa.Range:
		v := x.val(st, fr, in.X)
		m, ok := v.(*MapV)
		if !ok {
			panic(unsupported("range over string"))
		}
		fr.env[in] = x.rangeStart(st, m)
	case *ssa.Go, *ssa.Send, *ssa.Select:
		panic(unsupported(fmt.Sprintf("%T", in)))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func (x *Exec) checkGlobalWrite(st *State, o *Obj, p token.Pos) {
	if o == nil {
		return
	}
	for g, go_ := range x.globals {
		if go_ == o || x.reaches(go_.init, o, 3) {
			x.oblige(st, "global", "no package-level state is written ("+g.Name()+")", p, []string{"C20"}, x.tb.False)
			return
		}
	}
	x.oblige(st, "global", "no package-level state is written", p, []string{"C20"}, x.tb.True)
}

// reaches: o is part of what v refers to
func (x *Exec) reaches(v interface{}, o *Obj, depth int) bool {
	switch w := v.(type) {
	case *PtrV:
		return w.obj == o || depth > 0 && w.obj != nil && w.obj.init != nil && x.reaches(w.obj.init, o, depth-1)
	case *MapV:
		return w.obj == o
	case *SliceV:
		return w.obj == o
	case *StructV:
		for _, f := range w.f {
			if x.reaches(f, o, depth) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) pureField(st *State, v *Term, i int, t types.Type) Value {
	if s, ok := x.scalarSort(t); ok {
		r := x.tb.App(fmt.Sprintf("fld%d_%s_%s", i, v.sort, s), s, v)
		return x.fromTerm(st, r, t)
	}
	key := fmt.Sprintf("fld/%d/%d", v.id, i)
	if w, ok := x.unboxed[key]; ok {
		return w
	}
	w := x.freshValue(st, t, "fld")
	x.unboxed[key] = w
	return w
}

// ptr evaluates a pointer and checks that it is not nil
func (x *Exec) ptr(st *State, fr *Frame, v ssa.Value, p token.Pos) *PtrV {
	pv, ok := x.val(st, fr, v).(*PtrV)
	if !ok {
		panic(unsupported(fmt.Sprintf("pointer %T", x.val(st, fr, v))))
	}
	if !pv.nil_.isFalse() {
		x.oblige(st, "nil", "pointer is not nil", p, x.safetyProps(), x.tb.Not(pv.nil_))
	}
	if pv.obj == nil {
		st.dead = true
		return &PtrV{obj: x.newObj(KCell, pv.typ, "dead"), nil_: x.tb.False, typ: pv.typ}
	}
	return pv
}

func (x *Exec) idx64(t *Term, typ types.Type) *Term { return x.tb.Ext(t, 64, isSigned(typ)) }

func (x *Exec) boundCheck(st *State, i, n *Term, p token.Pos) {
	x.oblige(st, "index", "index in range", p, x.safetyProps(), x.tb.Ult(i, n))
	x.add(st, x.tb.Sle(x.tb.I(0), i))
	x.add(st, x.tb.Slt(i, n))
}

func (x *Exec) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) {
	i := x.idx64(x.val(st, fr, in.Index).(*Term), in.Index.Type())
	et := in.Type().Underlying().(*types.Pointer).Elem()
	switch v := x.val(st, fr, in.X).(type) {
	case *SliceV:
		x.boundCheck(st, i, v.len, in.Pos())
		if v.obj == nil {
			st.dead = true
			return
		}
		fr.env[in] = &PtrV{obj: v.obj, idx: x.tb.Add(v.off, i), nil_: x.tb.False, typ: et}
	case *PtrV:
		a := v.typ.Underlying().(*types.Array)
		if !v.nil_.isFalse() {
			x.oblige(st, "nil", "pointer is not nil", in.Pos(), x.safetyProps(), x.tb.Not(v.nil_))
		}
		x.boundCheck(st, i, x.tb.I(a.Len()), in.Pos())
		fr.env[in] = &PtrV{obj: v.obj, idx: i, nil_: x.tb.False, typ: et}
	default:
		panic(unsupported("indexaddr"))
	}
}

func (x *Exec) unop(st *State, fr *Frame, in *ssa.UnOp) Value {
	tb := x.tb
	switch in.Op {
	case token.MUL:
		p := x.ptr(st, fr, in.X, in.Pos())
		if st.dead {
			return x.zeroSafe(in.Type())
		}
		return x.load(st, p)
	case token.NOT:
		return tb.Not(x.val(st, fr, in.X).(*Term))
	case token.SUB:
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			v := x.val(st, fr, in.X).(*Term)
			return tb.App("fneg"+string(v.sort), v.sort, v)
		}
		return tb.Neg(x.val(st, fr, in.X).(*Term))
	case token.XOR:
		return tb.BNot(x.val(st, fr, in.X).(*Term))
	}
	panic(unsupported("unop " + in.Op.String()))
}

func (x *Exec) zeroSafe(t types.Type) Value {
	defer func() { recover() }()
	return x.freshValue(nil, t, "dead")
}

func (x *Exec) binop(st *State, fr *Frame, in *ssa.BinOp) Value {
	a, b := x.val(st, fr, in.X), x.val(st, fr, in.Y)
	return x.binopV(st, in.Op, a, b, in.X.Type(), in.Y.Type(), in.Pos())
}

func (x *Exec) binopV(st *State, op token.Token, a, b Value, ta, tyb types.Type, p token.Pos) Value {
	tb := x.tb
	switch op {
	case token.EQL:
		return x.eqV(st, a, b)
	case token.NEQ:
		return tb.Not(x.eqV(st, a, b))
	}
	s, t := a.(*Term), b.(*Term)
	bt, _ := ta.Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsFloat != 0 {
		nm := fmt.Sprintf("f%s_%s", sanitizeOp(op), s.sort)
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return tb.App(nm, Bool, s, t)
		}
		return tb.App(nm, s.sort, s, t)
	}
	if s.sort == SStr {
		switch op {
		case token.ADD:
			r := tb.App("strcat", SStr, s, t)
			tb.Axiom(r, tb.Eq(tb.App("slen", b64, r), tb.Add(x.slen(s), x.slen(t))))
			return r
		default:
			return tb.App("str"+sanitizeOp(op), Bool, s, t)
		}
	}
	signed := isSigned(ta)
	switch op {
	case token.ADD:
		return tb.Add(s, t)
	case token.SUB:
		return tb.Sub(s, t)
	case token.MUL:
		return tb.Mul(s, t)
	case token.QUO, token.REM:
		x.oblige(st, "div", "divisor is not zero", p, x.safetyProps(), tb.Ne(t, tb.C(0, t.sort.bits())))
		nm := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}[signed][op]
		return tb.DivOp(nm, s, t)
	case token.AND:
		return tb.BAnd(s, t)
	case token.OR:
		return tb.BOr(s, t)
	case token.XOR:
		return tb.BXor(s, t)
	case token.AND_NOT:
		return tb.BAnd(s, tb.BNot(t))
	case token.SHL, token.SHR:
		n := s.sort.bits()
		if isSigned(tyb) && !t.isC() {
			x.oblige(st, "shift", "shift count is not negative", p, x.safetyProps(), tb.Sle(tb.C(0, t.sort.bits()), t))
		}
		m := t.sort.bits()
		var c *Term
		if m > n {
			big := tb.Ule(tb.C(uint64(n), m), t)
			c = tb.Ite(big, tb.C(uint64(n), n), tb.Ext(t, n, false))
			if n == 8 || n == 16 || n == 32 {
				c = tb.Ite(big, tb.C(uint64(n), n), tb.Ext(t, n, false))
			}
		} else {
			c = tb.Ext(t, n, false)
		}
		if op == token.SHL {
			return tb.Shl(s, c)
		}
		if signed {
			return tb.Sar(s, c)
		}
		return tb.Shr(s, c)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			s, t = t, s
		}
		strict := op == token.LSS || op == token.GTR
		switch {
		case signed && strict:
			return tb.Slt(s, t)
		case signed:
			return tb.Sle(s, t)
		case strict:
			return tb.Ult(s, t)
		default:
			return tb.Ule(s, t)
		}
	}
	panic(unsupported("binop " + op.String()))
}

func sanitizeOp(op token.Token) string {
	return map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div", token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge", token.EQL: "eq"}[op]
}

func (x *Exec) eqV(st *State, a, b Value) *Term {
	tb := x.tb
	switch v := a.(type) {
	case *Term:
		if w, ok := b.(*Term); ok {
			if v.sort == SStr {
				return x.strEq(v, w)
			}
			return tb.Eq(v, w)
		}
	case *IfaceV:
		w, ok := b.(*IfaceV)
		if !ok {
			break
		}
		if w.dyn == nil && w.t == x.inil() {
			if v.dyn != nil {
				return tb.False
			}
			return tb.Eq(v.t, w.t)
		}
		if v.dyn == nil && v.t == x.inil() {
			return x.eqV(st, b, a)
		}
		return tb.Eq(x.ifTerm(st, v), x.ifTerm(st, w))
	case *PtrV:
		w, ok := b.(*PtrV)
		if !ok {
			break
		}
		if w.obj == nil {
			return v.nil_
		}
		if v.obj == nil {
			return w.nil_
		}
		if v.obj != w.obj {
			fa, fb := v.obj, w.obj
			if v.idx != nil && w.idx != nil && st.family(fa) == st.family(fb) {
				// perhaps the same array
				return tb.Or(tb.And(v.nil_, w.nil_), tb.And(tb.Not(v.nil_), tb.Not(w.nil_), tb.Fresh("samearr", Bool)))
			}
			return tb.And(v.nil_, w.nil_)
		}
		same := tb.True
		if v.idx != nil && w.idx != nil {
			same = tb.Eq(v.idx, w.idx)
		}
		return tb.Or(tb.And(v.nil_, w.nil_), tb.And(tb.Not(v.nil_), tb.Not(w.nil_), same))
	case *SliceV:
		if w, ok := b.(*SliceV); ok && w.nil_.isTrue() {
			return v.nil_
		}
		if v.nil_.isTrue() {
			return b.(*SliceV).nil_
		}
	case *MapV:
		if w, ok := b.(*MapV); ok && w.nil_.isTrue() {
			return v.nil_
		}
		if v.nil_.isTrue() {
			return b.(*MapV).nil_
		}
	case *StructV:
		return x.keyEq(st, v, b)
	case *FuncV:
		return tb.B(v.fn == nil)
	}
	panic(unsupported(fmt.Sprintf("== of %T %T", a, b)))
}

func (x *Exec) strEq(a, b *Term) *Term {
	tb := x.tb
	e := tb.Eq(a, b)
	if e.isC() || e.op != "=" {
		return e
	}
	if len(tb.axioms[e.id]) == 0 {
		sk := tb.App("strdiff", b64, a, b)
		la, lb := x.slen(a), x.slen(b)
		tb.Axiom(e, tb.Or(e, tb.Ne(la, lb), tb.And(tb.Ult(sk, la), tb.Ne(x.sat(a, sk), x.sat(b, sk)))))
		tb.Axiom(e, tb.Imp(e, tb.Eq(la, lb)))
	}
	return e
}

func (x *Exec) sliceOp(st *State, fr *Frame, in *ssa.Slice) Value {
	tb := x.tb
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.idx64(x.val(st, fr, v).(*Term), v.Type())
	}
	lo, hi, max := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = tb.I(0)
	}
	check := func(desc string, a, b *Term) {
		x.oblige(st, "slice", desc, in.Pos(), x.safetyProps(), tb.Ule(a, b))
		if !st.dead {
			x.add(st, tb.Sle(tb.I(0), a))
			x.add(st, tb.Sle(a, b))
		}
	}
	switch v := x.val(st, fr, in.X).(type) {
	case *Term: // string
		n := x.slen(v)
		if hi == nil {
			hi = n
		}
		check("high bound within string", hi, n)
		check("low bound within string", lo, hi)
		return tb.App("substr", SStr, v, lo, tb.Sub(hi, lo))
	case *SliceV:
		if hi == nil {
			hi = v.len
		} else {
			check("high bound within capacity", hi, v.cap)
		}
		c := v.cap
		if max != nil {
			check("max within capacity", max, v.cap)
			check("high bound within max", hi, max)
			c = max
		}
		check("low bound within slice", lo, hi)
		return &SliceV{obj: v.obj, off: tb.Add(v.off, lo), len: tb.Sub(hi, lo), cap: tb.Sub(c, lo), nil_: v.nil_, elem: v.elem}
	case *PtrV:
		a := v.typ.Underlying().(*types.Array)
		n := tb.I(a.Len())
		if hi == nil {
			hi = n
		}
		check("high bound within array", hi, n)
		check("low bound within array", lo, hi)
		return &SliceV{obj: v.obj, off: lo, len: tb.Sub(hi, lo), cap: tb.Sub(n, lo), nil_: tb.False, elem: a.Elem()}
	}
	panic(unsupported("slice"))
}

var sizes = types.SizesFor("gc", "amd64")

func (x *Exec) makeSlice(st *State, fr *Frame, in *ssa.MakeSlice) Value {
	tb := x.tb
	l := x.idx64(x.val(st, fr, in.Len).(*Term), in.Len.Type())
	c := x.idx64(x.val(st, fr, in.Cap).(*Term), in.Cap.Type())
	et := in.Type().Underlying().(*types.Slice).Elem()
	sz := sizes.Sizeof(et)
	if sz == 0 {
		sz = 1
	}
	lim := tb.I(int64(1) << 48 / sz)
	x.oblige(st, "makeslice", "length and capacity are possible", in.Pos(), x.safetyProps(), tb.And(tb.Sle(tb.I(0), l), tb.Sle(l, c), tb.Sle(c, lim)))
	o := x.newObj(KArr, et, "make")
	o.fresh = true
	if s, ok := x.scalarSort(et); ok {
		x.setHeap(st, o, &Content{kind: 3, sort: s})
	} else {
		o.kind = KVec
		if !l.isC() {
			panic(unsupported("make of " + et.String()))
		}
		vs := make([]Value, l.val)
		for i := range vs {
			vs[i] = x.zero(et)
		}
		x.setHeap(st, o, vs)
	}
	return &SliceV{obj: o, off: tb.I(0), len: l, cap: c, nil_: tb.False, elem: et}
}

func (x *Exec) lookupInstr(st *State, fr *Frame, in *ssa.Lookup) {
	tb := x.tb
	switch v := x.val(st, fr, in.X).(type) {
	case *Term:
		i := x.idx64(x.val(st, fr, in.Index).(*Term), in.Index.Type())
		x.boundCheck(st, i, x.slen(v), in.Pos())
		fr.env[in] = x.sat(v, i)
		return
	case *MapV:
		k := x.val(st, fr, in.Index)
		p, val := tb.False, Value(nil)
		if v.obj == nil {
			val = x.zero(v.typ.Elem())
		} else {
			mc := x.mapc(st, v.obj)
			p, val = x.lookup(st, mc, k)
			x.instKey(st, x.keyTerm(st, k))
			p = tb.And(tb.Not(v.nil_), p)
			val = x.iteV(st, v.nil_, x.zero(v.typ.Elem()), val)
		}
		if in.CommaOk {
			fr.env[in] = TupleV{val, p}
		} else {
			fr.env[in] = val
		}
	default:
		panic(unsupported("lookup"))
	}
}

func (x *Exec) mapStore(st *State, o *Obj, k, v Value) {
	mc := x.mapc(st, o)
	p, _ := x.lookup(st, mc, k)
	x.instKey(st, x.keyTerm(st, k))
	n := &MapContent{kind: 1, base: mc, key: k, val: v, typ: mc.typ}
	n.len = x.tb.Ite(p, mc.len, x.tb.Add(mc.len, x.tb.I(1)))
	x.setHeap(st, o, n)
}

func (x *Exec) convert(st *State, fr *Frame, in *ssa.Convert) Value {
	v := x.val(st, fr, in.X)
	return x.convertV(st, v, in.X.Type(), in.Type())
}

func (x *Exec) convertV(st *State, v Value, from, to types.Type) Value {
	tb := x.tb
	fb, _ := from.Underlying().(*types.Basic)
	t2, _ := to.Underlying().(*types.Basic)
	if fb != nil && t2 != nil {
		fi, ti := fb.Info(), t2.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return tb.Ext(v.(*Term), mustSort(x, to).bits(), isSigned(from))
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			s, d := mustSort(x, from), mustSort(x, to)
			if s == d {
				return v
			}
			t := v.(*Term)
			if d.bits() == 64 {
				return tb.App("f32to64", d, t)
			}
			if t.op == "app" && t.name == "f32to64" {
				return t.args[0]
			}
			return tb.App("f64to32", d, t)
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return tb.App("runestr", SStr, tb.Ext(v.(*Term), 64, isSigned(from)))
		case t2.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
			if t2.Kind() == types.UnsafePointer {
				return tb.App("unsafeptr", SRef, v.(*Term))
			}
			return tb.App("ptrint", b64, v.(*Term))
		default:
			s := mustSort(x, to)
			return tb.App(fmt.Sprintf("conv_%s_%s_%v", mustSort(x, from), s, isSigned(from)), s, v.(*Term))
		}
	}
	if sl, ok := v.(*SliceV); ok && t2 != nil && t2.Info()&types.IsString != 0 {
		return x.mkstr(st, sl)
	}
	if s, ok := to.Underlying().(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		str := v.(*Term)
		o := x.newObj(KArr, s.Elem(), "bytes")
		o.fresh = true
		x.setHeap(st, o, &Content{kind: 2, sort: BV(8), base: &Content{kind: 3, sort: BV(8)}, at: tb.I(0), n: x.slen(str), str: str, soff: tb.I(0)})
		l := x.slen(str)
		return &SliceV{obj: o, off: tb.I(0), len: l, cap: l, nil_: tb.False, elem: s.Elem()}
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		if pt, ok := to.Underlying().(*types.Pointer); ok {
			key := fmt.Sprintf("unsafe/%d", v.(*Term).id)
			if w, ok := x.unboxed[key]; ok {
				return w
			}
			p := x.freshValue(st, to, "unsafe").(*PtrV)
			p.nil_ = tb.False
			_ = pt
			x.assume["unsafe.Pointer conversions in the code under proof yield valid pointers to unknown memory"] = true
			x.unboxed[key] = p
			return p
		}
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

// mkstr is the string with the bytes of s
func (x *Exec) mkstr(st *State, s *SliceV) *Term {
	tb := x.tb
	if s.obj == nil {
		return x.strConst("")
	}
	c := x.content(st, s.obj)
	return x.mkstrC(c, s.off, s.len, tb)
}

func (x *Exec) mkstrC(c *Content, off, n *Term, tb *TB) *Term {
	if n.isC() && n.val == 0 {
		return x.strConst("")
	}
	// strip writes outside the range, follow copies that cover the range
	for {
		switch c.kind {
		case 1:
			if d, ok := x.constDiff(c.idx, off); ok && d < 0 {
				c = c.base
				continue
			}
			if d, ok := x.constDiff(c.idx, tb.Add(off, n)); ok && d >= 0 {
				c = c.base
				continue
			}
		case 2:
			if d, ok := x.constDiff(c.at, tb.Add(off, n)); ok && d >= 0 {
				c = c.base
				continue
			}
			d1, ok1 := x.constDiff(off, c.at)
			d2, ok2 := x.constDiff(tb.Add(c.at, c.n), tb.Add(off, n))
			if ok1 && ok2 && d1 >= 0 && d2 >= 0 {
				o2 := tb.Add(c.soff, tb.Sub(off, c.at))
				if c.str != nil {
					if o2.isC() && o2.val == 0 && x.slen(c.str) == n {
						return c.str
					}
					break
				}
				c, off = c.src, o2
				continue
			}
		}
		break
	}
	id := x.cid(c)
	t := tb.App("mkstr", SStr, id, off, n)
	if len(tb.axioms[t.id]) == 0 {
		l := tb.App("slen", b64, t)
		tb.Axiom(t, tb.Eq(l, n))
		x.noteSpec(c, &specApp{fn: "mkstr", c: c, args: []*Term{off, n}, t: t})
	}
	return t
}
