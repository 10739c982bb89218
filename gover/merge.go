package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Paths through side-effect-free code (conditions, case lists) are joined
// where they meet: the join assumes the disjunction of what the paths learnt.

type region struct {
	order []*ssa.BasicBlock // topological, without the entry
	in    map[*ssa.BasicBlock]bool
}

func pureInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef, *ssa.Jump, *ssa.If, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Extract:
		return true
	case *ssa.BinOp:
		return in.Op != token.QUO && in.Op != token.REM
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
	}
	return false
}

func (x *Exec) regionOf(b *ssa.BasicBlock) *region {
	if r, ok := x.regions[b]; ok {
		return r
	}
	loops := x.loops(b.Parent())
	inner := func(c *ssa.BasicBlock) *Loop {
		var best *Loop
		for _, l := range loops {
			if l.body[c] && (best == nil || len(l.body) < len(best.body)) {
				best = l
			}
		}
		return best
	}
	r := &region{in: map[*ssa.BasicBlock]bool{}}
	home := inner(b)
	seen := map[*ssa.BasicBlock]bool{b: true}
	for grown := true; grown && len(r.order) < 120; {
		grown = false
		for _, c := range b.Parent().Blocks {
			if seen[c] || loops[c] != nil || inner(c) != home || len(c.Preds) == 0 {
				continue
			}
			ok := true
			for _, p := range c.Preds {
				ok = ok && (seen[p])
			}
			if !ok {
				continue
			}
			for _, in := range c.Instrs {
				ok = ok && pureInstr(in)
			}
			if !ok {
				continue
			}
			seen[c] = true
			r.in[c] = true
			r.order = append(r.order, c)
			grown = true
		}
	}
	// worth it only if some block is reached along several edges
	edges := map[*ssa.BasicBlock]int{}
	for c := range seen {
		for _, s := range c.Succs {
			edges[s]++
		}
	}
	worth := false
	for c, n := range edges {
		if n > 1 && loops[c] == nil {
			worth = true
		}
	}
	if !worth {
		r = nil
	}
	x.regions[b] = r
	return r
}

type arrival struct {
	pred *ssa.BasicBlock
	st   *State
	fr   *Frame
	ps   []*ssa.Phi
	vs   []Value
}

func (x *Exec) runRegion(st *State, fr *Frame, b *ssa.BasicBlock, c *Term, r *region, k Cont) {
	arr := map[*ssa.BasicBlock][]arrival{}
	var exits []*ssa.BasicBlock
	emit := func(st *State, fr *Frame, pred, to *ssa.BasicBlock) {
		if st.dead {
			return
		}
		if !r.in[to] && len(arr[to]) == 0 {
			exits = append(exits, to)
		}
		a := arrival{pred: pred, st: st, fr: fr}
		a.ps, a.vs = x.phiVals(st, fr, pred, to)
		arr[to] = append(arr[to], a)
	}
	term := func(st *State, fr *Frame, b *ssa.BasicBlock) {
		switch in := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Jump:
			emit(st, fr, b, b.Succs[0])
		case *ssa.If:
			x.curIf = in
			x.branch(st, fr, x.val(st, fr, in.Cond).(*Term), x.pos(in.Cond.Pos()),
				func(st *State, fr *Frame) { emit(st, fr, b, b.Succs[0]) },
				func(st *State, fr *Frame) { emit(st, fr, b, b.Succs[1]) })
		}
	}
	x.branch(st, fr, c, x.pos(b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond.Pos()),
		func(st *State, fr *Frame) { emit(st, fr, b, b.Succs[0]) },
		func(st *State, fr *Frame) { emit(st, fr, b, b.Succs[1]) })
	for _, blk := range r.order {
		for _, a := range x.joinAll(arr[blk]) {
			x.steps++
			for i, p := range a.ps {
				a.fr.env[p] = a.vs[i]
			}
			for _, in := range blk.Instrs[:len(blk.Instrs)-1] {
				switch in := in.(type) {
				case *ssa.Phi, *ssa.DebugRef:
				case *ssa.Call:
					x.call(a.st, a.fr, in, &in.Call, func(st *State, fr *Frame, out Outcome) {
						if out.val != nil {
							fr.env[in] = out.val
						}
						a.st, a.fr = st, fr
					})
				default:
					x.simple(a.st, a.fr, in)
				}
				if a.st.dead {
					break
				}
			}
			if !a.st.dead {
				term(a.st, a.fr, blk)
			}
		}
	}
	loops := x.loops(fr.fn)
	for _, e := range exits {
		as := arr[e]
		if loops[e] != nil {
			for _, a := range as {
				x.enter(a.st, a.fr, a.pred, e, k)
			}
			continue
		}
		for _, a := range x.joinAll(as) {
			for i, p := range a.ps {
				a.fr.env[p] = a.vs[i]
			}
			x.enterJoined(a.st, a.fr, e, k)
		}
	}
}

func (x *Exec) enterJoined(st *State, fr *Frame, b *ssa.BasicBlock, k Cont) {
	x.steps++
	if x.steps > x.maxSteps || x.deadline != nil && x.steps%64 == 0 && x.deadline() {
		panic(unsupported("too many paths"))
	}
	for len(fr.loops) > 0 {
		top := fr.loops[len(fr.loops)-1]
		if top.loop.body[b] {
			break
		}
		if top.mode == 1 {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	x.instrs(st, fr, b, 0, k)
}

// joinAll joins the arrivals whose phi values can be joined
func (x *Exec) joinAll(as []arrival) []arrival {
	if len(as) < 2 {
		return as
	}
	var out []arrival
	for len(as) > 0 {
		group := []arrival{as[0]}
		var rest []arrival
		for _, a := range as[1:] {
			ok := len(a.fr.loops) == len(as[0].fr.loops) && len(a.fr.defers) == len(as[0].fr.defers)
			for i := range a.vs {
				_, t1 := a.vs[i].(*Term)
				_, t2 := as[0].vs[i].(*Term)
				if !(t1 && t2) && !x.sameValue(a.vs[i], as[0].vs[i]) {
					ok = false
				}
			}
			if ok {
				group = append(group, a)
			} else {
				rest = append(rest, a)
			}
		}
		out = append(out, x.join(group))
		as = rest
	}
	return out
}

func (x *Exec) join(g []arrival) arrival {
	if len(g) == 1 {
		return g[0]
	}
	n := len(g[0].st.pc)
	for _, a := range g[1:] {
		i := 0
		for i < n && i < len(a.st.pc) && a.st.pc[i] == g[0].st.pc[i] {
			i++
		}
		n = i
	}
	st := g[0].st.clone()
	st.pc = append([]*Term{}, st.pc[:n]...)
	st.pcset = map[int]bool{}
	for _, t := range st.pc {
		st.pcset[t.id] = true
	}
	nt := len(g[0].st.trace)
	for _, a := range g[1:] {
		i := 0
		for i < nt && i < len(a.st.trace) && a.st.trace[i] == g[0].st.trace[i] {
			i++
		}
		nt = i
		for key := range st.insted {
			if !a.st.insted[key] {
				delete(st.insted, key)
			}
		}
		i = 0
		for i < len(st.univ) && i < len(a.st.univ) && a.st.univ[i] == st.univ[i] {
			i++
		}
		st.univ = st.univ[:i]
		for id, o := range a.st.objs {
			if st.objs[id] == nil {
				st.objs[id] = o
			}
		}
		for id, v := range a.st.heap {
			if _, ok := st.heap[id]; !ok {
				st.heap[id] = v
			}
		}
		for id := range a.st.exposed {
			st.exposed[id] = true
		}
	}
	st.trace = append(append([]string{}, st.trace[:nt]...), fmt.Sprintf("(%d ways)", len(g)))
	out := arrival{st: st, fr: g[0].fr.clone(), ps: g[0].ps, pred: g[0].pred}
	eqs := make([][]*Term, len(g))
	for i, v := range g[0].vs {
		t, ok := v.(*Term)
		same := true
		for _, a := range g[1:] {
			same = same && (!ok && true || ok && a.vs[i] == v)
		}
		if !ok || same {
			out.vs = append(out.vs, v)
			continue
		}
		j := x.tb.Fresh("join", t.sort)
		for gi, a := range g {
			eqs[gi] = append(eqs[gi], x.tb.Eq(j, a.vs[i].(*Term)))
		}
		out.vs = append(out.vs, j)
	}
	var alts []*Term
	for gi, a := range g {
		alts = append(alts, x.tb.And(append(append([]*Term{}, a.st.pc[n:]...), eqs[gi]...)...))
	}
	x.add(st, x.tb.Or(alts...))
	return out
}
