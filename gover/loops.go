package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func (x *Exec) loops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := x.loopsOf[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					q := st[len(st)-1]
					st = st[:len(st)-1]
					if l.body[q] {
						continue
					}
					l.body[q] = true
					st = append(st, q.Preds...)
				}
			}
		}
	}
	x.loopsOf[fn] = m
	return m
}

var debugLoops = os.Getenv("GOVER_LOOPS") != ""

type loopInfo struct {
	phis   []*ssa.Phi
	entry  []Value
	mod    []bool // phi changes
	fresh  []bool // slice phis: always allocated here
	cells  map[string]cellRef
	objs   map[int]*Obj // arrays, vectors and maps modified
	rv     bool
	ghosts map[string]bool
	calls  map[string]bool // tracked callees called in the loop
	hv     map[string]Value
}

type cellRef struct {
	obj  *Obj
	path []int
	typ  types.Type
}

func (c cellRef) key() string { return fmt.Sprint(c.obj.id, c.path) }

// cellLeaves lists the leaves in which two values of a cell differ
func (x *Exec) cellLeaves(o *Obj, t types.Type, path []int, a, b Value, out *[]cellRef) {
	if sa, ok := a.(*StructV); ok {
		sb, ok := b.(*StructV)
		if ok {
			for i := range sa.f {
				x.cellLeaves(o, sa.typ.Field(i).Type(), append(append([]int{}, path...), i), sa.f[i], sb.f[i], out)
			}
			return
		}
	}
	if !x.sameValue(a, b) {
		*out = append(*out, cellRef{o, path, t})
	}
}

func (x *Exec) sameValue(a, b Value) bool {
	switch v := a.(type) {
	case *Term:
		return a == b
	case *SliceV:
		w, ok := b.(*SliceV)
		return ok && (v == w || v.obj == w.obj && v.off == w.off && v.len == w.len && v.cap == w.cap && v.nil_ == w.nil_)
	case *PtrV:
		w, ok := b.(*PtrV)
		return ok && (v == w || v.obj == w.obj && v.idx == w.idx && v.nil_ == w.nil_ && fmt.Sprint(v.path) == fmt.Sprint(w.path))
	case *MapV:
		w, ok := b.(*MapV)
		return ok && v.obj == w.obj && v.nil_ == w.nil_
	case *IfaceV:
		w, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if v == w {
			return true
		}
		if v.t != nil && w.t != nil {
			return v.t == w.t
		}
		return v.dyn != nil && w.dyn != nil && types.Identical(v.dyn, w.dyn) && x.sameValue(v.val, w.val)
	case *StructV:
		w, ok := b.(*StructV)
		if !ok || len(v.f) != len(w.f) {
			return false
		}
		for i := range v.f {
			if !x.sameValue(v.f[i], w.f[i]) {
				return false
			}
		}
		return true
	case TupleV:
		w, ok := b.(TupleV)
		if !ok || len(v) != len(w) {
			return false
		}
		for i := range v {
			if !x.sameValue(v[i], w[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return a == b
}

func (x *Exec) havocPhi(st *State, v Value, t types.Type, hint string, fresh bool, li *loopInfo, key string) Value {
	key = fmt.Sprint(key, fresh)
	n := li.hv[key]
	if n == nil {
		n = x.freshValue(st, t, hint)
		switch w := n.(type) {
		case *MapV:
			x.havocObj[w.obj.id] = true
			li.hv[key] = n
		case *SliceV, *PtrV:
			li.hv[key] = n
		}
	}
	if s, ok := n.(*SliceV); ok {
		if e, ok := v.(*SliceV); ok {
			if e.obj != nil {
				st.touch(e.obj)
				st.touch(s.obj)
				st.join(e.obj, s.obj)
				s.obj.appendOf = e.obj
			}
			s.obj.fresh = fresh
			s.obj.entry = !fresh
			if e.off != nil && e.off.isC() && e.off.val == 0 {
				s.off = x.tb.I(0)
			}
		}
	}
	return n
}

func (x *Exec) havocLoop(st *State, fr *Frame, li *loopInfo) {
	for i, p := range li.phis {
		if li.mod[i] {
			fr.env[p] = x.havocPhi(st, li.entry[i], p.Type(), phiName(p), li.fresh[i], li, fmt.Sprint("phi", i))
		} else {
			fr.env[p] = li.entry[i]
		}
	}
	var ks []string
	for k := range li.cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := li.cells[k]
		p := &PtrV{obj: c.obj, path: c.path, nil_: x.tb.False, typ: c.typ}
		ev := x.load(st, p)
		fresh := true
		if s, ok := ev.(*SliceV); ok {
			fresh = s.obj == nil || s.obj.fresh
		}
		x.store(st, p, x.havocPhi(st, ev, c.typ, "cell", fresh, li, "cell"+k))
	}
	var ids []int
	for id := range li.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := li.objs[id]
		switch o.kind {
		case KArr:
			x.setHeap(st, o, x.opaqueContent(x.content(st, o).sort, o.hint))
		case KMap:
			x.setHeap(st, o, x.opaqueMap(x.mapc(st, o).typ, o.hint))
		case KVec:
			vs := append([]Value{}, x.vec(st, o)...)
			for i := range vs {
				vs[i] = x.freshValue(st, o.typ, o.hint)
			}
			x.setHeap(st, o, vs)
		}
	}
	if li.rv {
		x.bumpRV(st)
	}
	for g := range li.ghosts {
		st.ghost[g] = x.tb.Fresh("ghost_"+g, b64)
	}
	if len(st.last) > 0 {
		n := map[string]*lastCall{}
		for k, v := range st.last {
			if !li.calls[k] {
				n[k] = v
			}
		}
		st.last = n
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

type loopVar struct {
	name string
	typ  types.Type
	get  func(st *State, fr *Frame) Value
	ent  Value
	phi  bool
}

type cand struct {
	name string
	eval func(st *State, fr *Frame, pol int) *Term
	gen  bool
}

// concreteTrip: the loop condition can be decided without reasoning when the loop is entered
func (x *Exec) concreteTrip(st *State, fr *Frame, l *Loop, pred *ssa.BasicBlock) bool {
	ok := false
	func() {
		defer func() { recover() }()
		s, f := st.clone(), fr.clone()
		x.quiet++
		defer func() { x.quiet-- }()
		x.phis(s, f, pred, l.head)
		for _, in := range l.head.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.BinOp, *ssa.UnOp, *ssa.Extract, *ssa.Convert:
				x.simple(s, f, in)
			case *ssa.If:
				if t, isT := x.val(s, f, in.Cond).(*Term); isT && t.isC() {
					// only counting loops
					if b, isB := in.Cond.(*ssa.BinOp); isB {
						vx, _ := x.val(s, f, b.X).(*Term)
						vy, _ := x.val(s, f, b.Y).(*Term)
						if vx != nil && vy != nil && vx.isC() && vy.isC() && vx.sort.bits() > 1 {
							d := int64(vy.val) - int64(vx.val)
							if d < 0 {
								d = -d
							}
							ok = d <= 64
						}
					}
				}
			default:
				return
			}
		}
	}()
	return ok
}

func (x *Exec) loopEntry(st *State, fr *Frame, l *Loop, pred *ssa.BasicBlock, k Cont) {
	if fr.unroll > 0 || x.concreteTrip(st, fr, l, pred) {
		n := fr.unroll
		if n == 0 {
			n = 64
		}
		fr.loops = append(fr.loops, &loopCtx{loop: l, mode: 0, max: n})
		x.phis(st, fr, pred, l.head)
		x.instrs(st, fr, l.head, 0, k)
		return
	}
	li := &loopInfo{cells: map[string]cellRef{}, objs: map[int]*Obj{}, ghosts: map[string]bool{}, calls: map[string]bool{}, hv: map[string]Value{}}
	li.phis, li.entry = x.phiVals(st, fr, pred, l.head)
	li.mod = make([]bool, len(li.phis))
	li.fresh = make([]bool, len(li.phis))
	for i, e := range li.entry {
		li.fresh[i] = x.isFresh(st, e)
	}
	run := func(s *State, f *Frame, onBack func(*State, *Frame, []Value)) {
		f.loops = append(f.loops, &loopCtx{loop: l, mode: 1, onBack: func(st *State, fr *Frame, pred *ssa.BasicBlock) {
			_, vs := x.phiVals(st, fr, pred, l.head)
			onBack(st, fr, vs)
		}})
		x.quiet++
		x.instrs(s, f, l.head, 0, k)
		x.quiet--
	}
	// what does the loop modify?
	x.inModset++
	for round := 0; ; round++ {
		if round > 20 {
			panic(unsupported("loop modifies ever more"))
		}
		changed := false
		s, f := st.clone(), fr.clone()
		x.havocLoop(s, f, li)
		h := s.clone()
		hf := f.clone()
		mark := x.nobj
		run(s, f, func(b *State, bf *Frame, vs []Value) {
			for i := range vs {
				if !li.mod[i] && !x.sameValue(vs[i], hf.env[li.phis[i]]) {
					li.mod[i] = true
					changed = true
				}
				if li.fresh[i] && !x.isFresh(b, vs[i]) {
					li.fresh[i] = false
					changed = true
				}
			}
			for id, v := range b.heap {
				o := b.objs[id]
				if o == nil {
					continue
				}
				hv, known := h.heap[id]
				if !known {
					if x.havocObj[id] && id > mark {
						continue
					}
					if h.objs[id] == nil && !o.entry && o.init == nil {
						continue // allocated in the loop
					}
					if h.objs[id] == nil && id > mark && o.appendOf != nil {
						continue // result of an append in the loop; what it may overwrite is recorded for the array appended to
					}
					if o.init == nil {
						continue
					}
					hv = o.init
				}
				if !b.written[id] && known && x.sameHeap(v, hv) {
					continue
				}
				switch o.kind {
				case KCell:
					var refs []cellRef
					x.cellLeaves(o, o.typ, nil, v, hv, &refs)
					for _, r := range refs {
						if _, ok := li.cells[r.key()]; !ok {
							li.cells[r.key()] = r
							if debugLoops {
								fmt.Fprintf(os.Stderr, "round %d: cell %s %s\n", round, r.key(), o.hint)
							}
							changed = true
						}
					}
				default:
					if !x.sameHeap(v, hv) && li.objs[id] == nil {
						if c, ok := v.(*Content); ok && c.kind == 2 && c.n.isC() && c.n.val == 0 && c.rest != nil && x.tailOnly(h, hf, o, c, hv) {
							continue
						}
						li.objs[id] = o
						if debugLoops {
							fmt.Fprintf(os.Stderr, "round %d: object %d %s\n", round, id, o.hint)
						}
						changed = true
					}
				}
			}
			if b.rvver != h.rvver && !li.rv && b.rvver != nil {
				if h.rvver == nil && b.rvver == x.tb.Var("rvver0", b64) {
				} else {
					li.rv = true
					changed = true
				}
			}
			for name, c := range b.last {
				if c != h.last[name] && !li.calls[name] {
					li.calls[name] = true
					changed = true
				}
			}
			for g, v := range b.ghost {
				if v != h.ghost[g] && !li.ghosts[g] {
					li.ghosts[g] = true
					changed = true
				}
			}
		})
		if !changed {
			break
		}
	}
	x.inModset--
	// candidate invariants; what fell in an earlier visit of an inner loop is not tried again
	var known map[string]bool
	if x.inModset == 0 && x.quiet > 0 || x.deadInv[l.head] != nil {
		known = x.deadInv[l.head]
		if known == nil {
			known = map[string]bool{}
			if x.inModset == 0 {
				x.deadInv[l.head] = known
			}
		}
	}
	vars, consts := x.loopVars(st, fr, l, li)
	cands := x.candidates(st, fr, l, li, vars, consts)
	if x.onlyProp == "C20" { // which objects are written does not depend on values
		cands = nil
	}
	unfolds := x.unfoldings(fr, vars, consts)
	setPhis := func(f *Frame, vs []Value) *Frame {
		n := f.clone()
		for i, p := range li.phis {
			n.env[p] = vs[i]
		}
		return n
	}
	ef := setPhis(fr, li.entry)
	evalC := func(c cand, s *State, f *Frame, pol int) (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupportedErr); ok {
					t = nil
					return
				}
				if e, ok := r.(error); ok && strings.Contains(e.Error(), "interface conversion") {
					t = nil
					return
				}
				panic(r)
			}
		}()
		return c.eval(s, f, pol)
	}
	var alive []cand
	{
		s := st.clone()
		var ts []*Term
		var cs []cand
		for _, c := range cands {
			if known[c.name] {
				continue
			}
			if t := evalC(c, s, ef, 1); t != nil {
				ts = append(ts, t)
				cs = append(cs, c)
			}
		}
		for i, ok := range x.survivors(s, ts) {
			if ok {
				alive = append(alive, cs[i])
			} else if known != nil && x.inModset == 0 {
				known[cs[i].name] = true
			}
		}
	}
	hs, hf := st.clone(), fr.clone()
	x.havocLoop(hs, hf, li)
	for _, u := range unfolds {
		if t := evalC(u, hs, hf, -1); t != nil {
			x.add(hs, t)
		}
	}
	for {
		s, f := hs.clone(), hf.clone()
		var keep []cand
		for _, c := range alive {
			t := evalC(c, s, f, -1)
			if t == nil {
				continue
			}
			keep = append(keep, c)
			x.add(s, t)
		}
		alive = keep
		dead := map[string]bool{}
		if len(alive) > 0 {
			var jobs []*houdJob
			run(s, f, func(b *State, bf *Frame, vs []Value) {
				n := setPhis(bf, vs)
				bb := b.clone()
				j := &houdJob{st: bb}
				for _, c := range alive {
					if dead[c.name] {
						continue
					}
					t := evalC(c, bb, n, 1)
					if t == nil {
						dead[c.name] = true
						continue
					}
					if !t.isTrue() && !bb.pcset[t.id] {
						j.ts = append(j.ts, t)
						j.cs = append(j.cs, c.name)
					}
				}
				if len(j.ts) > 0 && !bb.dead {
					jobs = append(jobs, j)
				}
			})
			x.houdini(jobs, dead)
		}
		if len(dead) == 0 {
			break
		}
		keep = nil
		for _, c := range alive {
			if !dead[c.name] {
				keep = append(keep, c)
			} else if known != nil && x.inModset == 0 {
				known[c.name] = true
			}
		}
		alive = keep
	}
	// final pass: obligations inside the loop and everything after it
	s, f := hs, hf
	var names []string
	for _, c := range alive {
		if t := evalC(c, s, f, -1); t != nil {
			x.add(s, t)
			names = append(names, c.name)
		}
	}
	if x.quiet == 0 {
		x.nloops++
		x.ninvs += len(names)
		x.loopInvs[x.pos(l.head.Instrs[0].Pos())+" "+fnName(fr.fn)] = names
	}
	f.loops = append(f.loops, &loopCtx{loop: l, mode: 2, onBack: func(st *State, fr *Frame, pred *ssa.BasicBlock) {}})
	if x.feasible(s, x.tb.True) {
		x.instrs(s, f, l.head, 0, k)
	}
}

func (x *Exec) sameHeap(a, b interface{}) bool {
	if va, ok := a.([]Value); ok {
		vb, ok := b.([]Value)
		if !ok || len(va) != len(vb) {
			return false
		}
		for i := range va {
			if !x.sameValue(va[i], vb[i]) {
				return false
			}
		}
		return true
	}
	switch a.(type) {
	case *Content, *MapContent:
		return a == b
	}
	return x.sameValue(a, b)
}

// tailOnly: the content differs only from an index on that is not below the length of any slice of it that existed at the loop head
func (x *Exec) tailOnly(h *State, hf *Frame, o *Obj, c *Content, hv interface{}) bool {
	hc, ok := hv.(*Content)
	if !ok || c.base != hc {
		return false
	}
	return false
}

func (x *Exec) loopVars(st *State, fr *Frame, l *Loop, li *loopInfo) (vars, consts []loopVar) {
	for i, p := range li.phis {
		i, p := i, p
		v := loopVar{name: phiName(p), typ: p.Type(), ent: li.entry[i], phi: true, get: func(st *State, fr *Frame) Value { return fr.env[p] }}
		if li.mod[i] {
			vars = append(vars, v)
		} else {
			consts = append(consts, v)
		}
	}
	var ks []string
	for k := range li.cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := li.cells[k]
		ptr := &PtrV{obj: c.obj, path: c.path, nil_: x.tb.False, typ: c.typ}
		vars = append(vars, loopVar{name: "cell" + k, typ: c.typ, ent: x.load(st, ptr), get: func(st *State, fr *Frame) Value { return x.load(st, ptr) }})
	}
	// values from before the loop that the loop uses
	used := map[ssa.Value]bool{}
	for _, b := range fr.fn.Blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					used[*op] = true
				}
			}
		}
	}
	var vs []ssa.Value
	for v := range used {
		if _, ok := fr.env[v]; ok {
			if in, ok := v.(ssa.Instruction); ok && l.body[in.Block()] {
				continue
			}
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		v := v
		val := fr.env[v]
		switch val.(type) {
		case *Term, *SliceV, *MapV:
			consts = append(consts, loopVar{name: v.Name(), typ: v.Type(), ent: val, get: func(st *State, fr *Frame) Value { return val }})
		case *PtrV:
			// slices in cells used by the loop but not modified
			pv := val.(*PtrV)
			if pv.obj == nil || pv.obj.kind != KCell || pv.idx != nil {
				continue
			}
			func() {
				defer func() { recover() }()
				x.leafSlices(st, pv.obj, pv.path, pv.typ, 0, func(path []int, t types.Type) {
					ref := cellRef{pv.obj, path, t}
					if _, ok := li.cells[ref.key()]; ok {
						return
					}
					ptr := &PtrV{obj: pv.obj, path: path, nil_: x.tb.False, typ: t}
					consts = append(consts, loopVar{name: "leaf" + ref.key(), typ: t, ent: x.load(st, ptr), get: func(st *State, fr *Frame) Value { return x.load(st, ptr) }})
				})
			}()
		}
	}
	return
}

func (x *Exec) leafSlices(st *State, o *Obj, path []int, t types.Type, d int, f func([]int, types.Type)) {
	if d > 2 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if x.opaqueStruct(t) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			x.leafSlices(st, o, append(append([]int{}, path...), i), u.Field(i).Type(), d+1, f)
		}
	case *types.Slice, *types.Map:
		f(path, t)
	case *types.Basic:
		if u.Kind() == types.Int {
			f(path, t)
		}
	}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) candidates(st *State, fr *Frame, l *Loop, li *loopInfo, vars, consts []loopVar) []cand {
	tb := x.tb
	var out []cand
	addc := func(name string, f func(st *State, fr *Frame, pol int) *Term) {
		out = append(out, cand{name: name, eval: f})
	}
	T := func(v Value) *Term {
		t, ok := v.(*Term)
		if !ok {
			panic(unsupported("not a term"))
		}
		return t
	}
	int64T := func(v loopVar) bool {
		s, ok := x.scalarSort(v.typ)
		return ok && s == b64 && isInt(v.typ)
	}
	for _, v := range vars {
		v := v
		if int64T(v) {
			e := T(v.ent)
			addc(v.name+">=entry", func(st *State, fr *Frame, pol int) *Term { return tb.Sle(e, T(v.get(st, fr))) })
			addc(v.name+"<=entry", func(st *State, fr *Frame, pol int) *Term { return tb.Sle(T(v.get(st, fr)), e) })
			addc(v.name+">=0", func(st *State, fr *Frame, pol int) *Term { return tb.Sle(tb.I(0), T(v.get(st, fr))) })
			for _, w := range append(append([]loopVar{}, vars...), consts...) {
				w := w
				ln := func(st *State, fr *Frame) *Term {
					switch q := w.get(st, fr).(type) {
					case *SliceV:
						return q.len
					case *Term:
						if q.sort == SStr {
							return x.slen(q)
						}
					}
					return nil
				}
				switch q := w.ent.(type) {
				case *SliceV:
				case *Term:
					if q.sort != SStr {
						ln = nil
					}
				default:
					ln = nil
				}
				if ln != nil {
					addc(v.name+"<=len("+w.name+")", func(st *State, fr *Frame, pol int) *Term { return tb.Sle(T(v.get(st, fr)), ln(st, fr)) })
					addc(v.name+"<len("+w.name+")", func(st *State, fr *Frame, pol int) *Term { return tb.Slt(T(v.get(st, fr)), ln(st, fr)) })
				} else if int64T(w) && w.name != v.name {
					addc(v.name+"<="+w.name, func(st *State, fr *Frame, pol int) *Term { return tb.Sle(T(v.get(st, fr)), T(w.get(st, fr))) })
					addc(v.name+"<"+w.name, func(st *State, fr *Frame, pol int) *Term { return tb.Slt(T(v.get(st, fr)), T(w.get(st, fr))) })
				}
			}
			for _, w := range vars {
				w := w
				if w.name != v.name && int64T(w) && v.name < w.name {
					ew := T(w.ent)
					addc(v.name+"~"+w.name, func(st *State, fr *Frame, pol int) *Term {
						return tb.Eq(tb.Sub(T(v.get(st, fr)), e), tb.Sub(T(w.get(st, fr)), ew))
					})
				}
				if es, ok := w.ent.(*SliceV); ok {
					addc(v.name+"~len("+w.name+")", func(st *State, fr *Frame, pol int) *Term {
						return tb.Eq(tb.Sub(T(v.get(st, fr)), e), tb.Sub(w.get(st, fr).(*SliceV).len, es.len))
					})
				}
			}
			continue
		}
		switch e := v.ent.(type) {
		case *SliceV:
			addc("len("+v.name+")>=entry", func(st *State, fr *Frame, pol int) *Term { return tb.Sle(e.len, v.get(st, fr).(*SliceV).len) })
			addc("len("+v.name+")<=entry", func(st *State, fr *Frame, pol int) *Term { return tb.Sle(v.get(st, fr).(*SliceV).len, e.len) })
			addc("len("+v.name+")==entry", func(st *State, fr *Frame, pol int) *Term { return tb.Eq(v.get(st, fr).(*SliceV).len, e.len) })
			addc("!nil("+v.name+")", func(st *State, fr *Frame, pol int) *Term { return tb.Not(v.get(st, fr).(*SliceV).nil_) })
			if _, ok := x.scalarSort(e.elem); ok && e.obj != nil {
				ec := x.content(st, e.obj)
				for _, flag := range []bool{false, true} {
					flag := flag
					if flag && (mustSort(x, e.elem) != BV(8) || !x.usesFlags()) {
						continue
					}
					addc(fmt.Sprintf("prefix%v(%s)", flag, v.name), func(st *State, fr *Frame, pol int) *Term {
						s := v.get(st, fr).(*SliceV)
						if s.obj == nil {
							return nil
						}
						c := &EvCtx{x: x, st: st, old: x.entrySt, pol: pol}
						return tb.And(tb.Sle(e.len, s.len), c.eqRange(rng{c: x.content(st, s.obj), off: s.off}, rng{c: ec, off: e.off}, e.len, flag))
					})
				}
			}
		case *IfaceV:
			addc(v.name+"==nil", func(st *State, fr *Frame, pol int) *Term {
				return x.eqV(st, v.get(st, fr), &IfaceV{t: x.inil()})
			})
			addc(v.name+"!=nil", func(st *State, fr *Frame, pol int) *Term {
				return tb.Not(x.eqV(st, v.get(st, fr), &IfaceV{t: x.inil()}))
			})
		case *PtrV:
			addc("!nil("+v.name+")", func(st *State, fr *Frame, pol int) *Term { return tb.Not(v.get(st, fr).(*PtrV).nil_) })
		case *MapV:
			addc("!nil("+v.name+")", func(st *State, fr *Frame, pol int) *Term { return tb.Not(v.get(st, fr).(*MapV).nil_) })
		case *Term:
			if e.sort == SRV {
				addc("valid("+v.name+")", func(st *State, fr *Frame, pol int) *Term { return x.rvValid(T(v.get(st, fr))) })
			}
		}
	}
	// numbers of calls advance with the loop variables
	var gs []string
	for g := range li.ghosts {
		if strings.HasPrefix(g, "n:") {
			gs = append(gs, g)
		}
	}
	sort.Strings(gs)
	for _, g := range gs {
		g := g
		e0 := x.ghostCount(st, g)
		for _, v := range vars {
			v := v
			if t0, ok := v.ent.(*Term); ok && int64T(v) {
				addc("ncalls "+g+" "+v.name, func(st *State, fr *Frame, pol int) *Term {
					return tb.Eq(tb.Sub(x.ghostCount(st, g), e0), tb.Sub(T(v.get(st, fr)), t0))
				})
			}
		}
		for _, w := range fr.env {
			if it, ok := w.(*IterV); ok {
				it := it
				t0 := x.cell(st, it.obj).(*Term)
				addc(fmt.Sprintf("ncalls %s iter%d", g, it.obj.id), func(st *State, fr *Frame, pol int) *Term {
					return tb.Eq(tb.Sub(x.ghostCount(st, g), e0), tb.Sub(x.cell(st, it.obj).(*Term), t0))
				})
			}
		}
	}
	// iterators
	for _, w := range fr.env {
		if it, ok := w.(*IterV); ok {
			it := it
			addc(fmt.Sprintf("iter%d", it.obj.id), func(st *State, fr *Frame, pol int) *Term {
				n := x.cell(st, it.obj).(*Term)
				return tb.And(tb.Sle(tb.I(0), n), tb.Sle(n, it.n))
			})
		}
	}
	// arrays modified in the loop: unchanged below the length they had, up to track bits
	var ids []int
	for id := range li.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := li.objs[id]
		if o.kind != KArr {
			continue
		}
		ec := x.content(st, o)
		var lens []*Term
		for _, w := range append(append([]loopVar{}, vars...), consts...) {
			if s, ok := w.ent.(*SliceV); ok && s.obj == o {
				lens = append(lens, tb.Add(s.off, s.len))
			}
		}
		if n := x.entryLen[id]; n != nil {
			lens = append(lens, n)
		}
		for i, n := range lens {
			n := n
			addc(fmt.Sprintf("same%d.%d", id, i), func(st *State, fr *Frame, pol int) *Term {
				c := &EvCtx{x: x, st: st, old: x.entrySt, pol: pol}
				return c.eqRange(rng{c: x.content(st, o), off: tb.I(0)}, rng{c: ec, off: tb.I(0)}, n, false)
			})
		}
	}
	// what is reachable through reflection
	if li.rv {
		for _, rv := range x.rvKeep {
			rv := rv
			addc(fmt.Sprintf("rvnonnil%d", rv.id), func(st *State, fr *Frame, pol int) *Term {
				return tb.Not(tb.App("rvisnil", Bool, rv, x.rvVer(st)))
			})
			e := x.rvLen(rv, x.rvVer(st))
			addc(fmt.Sprintf("rvlen%d", rv.id), func(st *State, fr *Frame, pol int) *Term {
				return tb.Eq(x.rvLen(rv, x.rvVer(st)), e)
			})
		}
	}
	// templates from the contract
	var invs []Clause
	if c := x.con.forFn(fr.fn); c != nil {
		invs = append(invs, c.Invs...)
	}
	if fr.fn != x.root && x.rootC != nil {
		invs = append(invs, x.rootC.Invs...)
	}
	all := append(append([]loopVar{}, vars...), consts...)
	for _, cl := range invs {
		x.template(cl, vars, all, func(name string, bind map[string]loopVar) {
			addc("inv "+name, func(st *State, fr *Frame, pol int) *Term {
				names := map[string]TV{}
				for k, v := range x.rootNames {
					names[k] = v
				}
				for h, v := range bind {
					names[h] = TV{v: v.get(st, fr), t: v.typ}
					names[h+"0"] = TV{v: v.ent, t: v.typ}
				}
				c := &EvCtx{x: x, st: st, old: x.entrySt, names: names, pol: pol}
				return c.clause(cl)
			})
		})
	}
	return out
}

// unfoldings are the definitions of specification functions the contract wants unfolded at the head of a loop
func (x *Exec) unfoldings(fr *Frame, vars, consts []loopVar) []cand {
	var out []cand
	if x.rootC == nil {
		return nil
	}
	all := append(append([]loopVar{}, vars...), consts...)
	for _, cl := range x.rootC.Unfolding {
		if !hasHole(cl.Expr) {
			continue
		}
		x.template(cl, vars, all, func(name string, bind map[string]loopVar) {
			out = append(out, cand{name: name, eval: func(st *State, fr *Frame, pol int) *Term {
				names := map[string]TV{}
				for k, v := range x.rootNames {
					names[k] = v
				}
				for h, v := range bind {
					names[h] = TV{v: v.get(st, fr), t: v.typ}
					names[h+"0"] = TV{v: v.ent, t: v.typ}
				}
				c := &EvCtx{x: x, st: st, old: x.entrySt, names: names, pol: pol}
				return c.clause(cl)
			}})
		})
	}
	return out
}

func hasHole(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && strings.HasPrefix(id.Name, "HOLE_") {
			found = true
		}
		return true
	})
	return found
}

// template instantiates the holes of an invariant template: $i.. integers, $s.. slices, $m maps, $e interfaces, $v any value of the loop
func (x *Exec) template(cl Clause, vars, all []loopVar, f func(string, map[string]loopVar)) {
	holes := map[string]bool{}
	ast.Inspect(cl.Expr, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && strings.HasPrefix(id.Name, "HOLE_") {
			holes[strings.TrimRight(id.Name, "0")] = true
		}
		return true
	})
	var hs []string
	for h := range holes {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	var rec func(i int, bind map[string]loopVar, name string)
	rec = func(i int, bind map[string]loopVar, name string) {
		if i == len(hs) {
			n := map[string]loopVar{}
			for k, v := range bind {
				n[k] = v
			}
			f(cl.Loc+name, n)
			return
		}
		kind := hs[i][5]
		pool := vars
		if kind == 'm' || len(hs[i]) > 6 && hs[i][6] == 'c' { // $sc: also loop constants
			pool = all
		}
		for _, v := range pool {
			ok := false
			switch kind {
			case 'i':
				s, is := x.scalarSort(v.typ)
				ok = is && s == b64 && isInt(v.typ)
			case 's':
				_, ok = v.typ.Underlying().(*types.Slice)
			case 'm':
				_, ok = v.typ.Underlying().(*types.Map)
			case 'e':
				_, ok = v.typ.Underlying().(*types.Interface)
			case 'b':
				s, is := x.scalarSort(v.typ)
				ok = is && s == BV(8)
			case 'v':
				ok = true
			}
			used := false
			for _, w := range bind {
				if w.name == v.name {
					used = true
				}
			}
			if ok && !used {
				bind[hs[i]] = v
				rec(i+1, bind, name+" "+v.name)
				delete(bind, hs[i])
			}
		}
	}
	rec(0, map[string]loopVar{}, "")
}

// survivors reports which of the candidates hold in every state of st; each
// model of a failing conjunction removes all the candidates false in it
func (x *Exec) survivors(st *State, ts []*Term) []bool {
	ok := make([]bool, len(ts))
	n := 0
	for i := range ts {
		ok[i] = true
		if !ts[i].isTrue() {
			n++
		}
	}
	for n > 0 {
		var live []*Term
		var at []int
		for i, t := range ts {
			if ok[i] && !t.isTrue() {
				live = append(live, t)
				at = append(at, i)
			}
		}
		if len(live) == 0 {
			break
		}
		if st.dead {
			return ok
		}
		q := append(append([]*Term{}, st.pc...), x.tb.Not(x.tb.And(live...)))
		x.sol.limit = 20
		r, vals := x.sol.CheckModel(q, live)
		x.sol.limit = 0
		if r == "unsat" {
			return ok
		}
		killed := false
		if r == "sat" {
			for j, v := range vals {
				if v == "false" {
					ok[at[j]] = false
					killed = true
				}
			}
		}
		if !killed {
			for j, t := range live {
				if !x.proves(st, t) {
					ok[at[j]] = false
				}
			}
			return ok
		}
	}
	return ok
}

// usesFlags reports whether the contract under verification talks about contents up to track bits
func (x *Exec) usesFlags() bool {
	if x.rootC == nil {
		return false
	}
	for _, cs := range [][]Clause{x.rootC.Requires, x.rootC.Ensures, x.rootC.Invs} {
		for _, c := range cs {
			if strings.Contains(c.Src, "flag") {
				return true
			}
		}
	}
	return false
}

type houdJob struct {
	st *State
	ts []*Term
	cs []string
}

// houdini removes the candidates that some of the jobs does not preserve
func (x *Exec) houdini(jobs []*houdJob, dead map[string]bool) {
	for len(jobs) > 0 {
		type answer struct {
			j    *houdJob
			live []int
			res  string
			vals []string
		}
		ch := make(chan answer, len(jobs))
		n := 0
		for _, j := range jobs {
			var live []*Term
			var at []int
			for i, t := range j.ts {
				if !dead[j.cs[i]] {
					live = append(live, t)
					at = append(at, i)
				}
			}
			if len(live) == 0 {
				continue
			}
			q := append(append([]*Term{}, j.st.pc...), x.tb.Not(x.tb.And(live...)))
			trivial := false
			for _, t := range q {
				trivial = trivial || t.isFalse()
			}
			if trivial {
				continue
			}
			if len(jobs) < 3 {
				x.sol.limit = 20
				r, vals := x.sol.CheckModel(q, live)
				x.sol.limit = 0
				ch <- answer{j, at, r, vals}
				n++
				continue
			}
			script := x.sol.script(q, live)
			n++
			go func(j *houdJob) {
				r, vals := race(script, len(live), 20)
				ch <- answer{j, at, r, vals}
			}(j)
		}
		var again []*houdJob
		for ; n > 0; n-- {
			a := <-ch
			if a.res == "unsat" {
				continue
			}
			killed := false
			if a.res == "sat" && len(a.vals) == len(a.live) {
				for i, v := range a.vals {
					if v == "false" {
						dead[a.j.cs[a.live[i]]] = true
						killed = true
					}
				}
			}
			if killed {
				again = append(again, a.j)
				continue
			}
			for _, i := range a.live {
				if !dead[a.j.cs[i]] && !x.proves(a.j.st, a.j.ts[i]) {
					dead[a.j.cs[i]] = true
				}
			}
		}
		jobs = again
	}
}
