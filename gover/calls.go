package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(st *State, fr *Frame, in ssa.Instruction, cc *ssa.CallCommon, k func(*State, *Frame, Outcome)) {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.val(st, fr, a))
	}
	f := x.val(st, fr, cc.Value)
	first := true
	saved := fr.clone()
	x.invokeVals(st, fr, cc, f, args, in.Pos(), func(st *State, out Outcome) {
		if first {
			first = false
			k(st, fr, out)
			// fr may have been changed; later paths use the copy
			return
		}
		k(st, saved.clone(), out)
	})
}

func (x *Exec) invokeVals(st *State, fr *Frame, cc *ssa.CallCommon, f Value, args []Value, p token.Pos, k Cont) {
	if cc.IsInvoke() {
		x.invokeMethod(st, fr, cc, f.(*IfaceV), args, p, k)
		return
	}
	fv, ok := f.(*FuncV)
	if !ok {
		if t, ok := f.(*Term); ok && t.sort == SFn {
			x.havocCall(st, fr, "function value", cc.Signature(), p, k)
			return
		}
		panic(unsupported(fmt.Sprintf("call of %T", f)))
	}
	switch fn := fv.fn.(type) {
	case *ssa.Builtin:
		x.builtin(st, fr, fn, cc, args, p, k)
	case *ssa.Function:
		x.callFn(st, fr, fn, args, fv.bind, p, k)
	default:
		panic(unsupported("call of nil function"))
	}
}

func (x *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, args, bind []Value, p token.Pos, k Cont) {
	name := x.con.callName(fn)
	ts := argTypes(fn.Signature, len(args))
	x.oncallT(st, name, ts, args, p)
	if x.tracked[name] {
		x.callTypes[name] = callSig{ts, x.results(fn.Signature)}
		k0 := k
		k = func(st *State, out Outcome) {
			x.noteLast(st, name, args, out)
			k0(st, out)
		}
	}
	if fn.Pkg != x.pkg && fn.Parent() == nil {
		x.external(st, fr, fn, args, p, k)
		return
	}
	c := x.con.forFn(fn)
	if c != nil && !c.Inline {
		x.called[c.Name] = true
		x.applyContract(st, fr, fn, c, args, p, k)
		return
	}
	// no contract: the body is its own specification
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			panic(unsupported("recursive function without contract: " + fnName(fn)))
		}
	}
	if fn.Parent() == nil {
		x.inlined[fnName(fn)] = true
	}
	x.runFunc(st, fn, args, bind, fr, k)
}

func argTypes(sig *types.Signature, n int) []types.Type {
	var ts []types.Type
	if sig.Recv() != nil && n > sig.Params().Len() {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

// noteTracked finds the callees whose last call the contract speaks about
func (x *Exec) noteTracked(c *Contract) {
	for _, cls := range [][]Clause{c.Ensures, c.Oncall, c.Invs} {
		for _, cl := range cls {
			for _, n := range x.con.calleesOf(cl.Expr) {
				x.tracked[n] = true
			}
		}
	}
	if len(x.tracked) == 0 {
		return
	}
	for _, fn := range x.con.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					cc := in.Common()
					if cc.IsInvoke() {
						n := cc.Method.Name()
						if isReflectType(cc.Value.Type()) {
							n = "(reflect.Type)." + n
						}
						if x.tracked[n] {
							x.callTypes[n] = callSig{append([]types.Type{cc.Value.Type()}, argTypes(cc.Signature(), cc.Signature().Params().Len())...), x.results(cc.Signature())}
						}
					} else if f := cc.StaticCallee(); f != nil && x.tracked[x.con.callName(f)] {
						x.callTypes[x.con.callName(f)] = callSig{argTypes(f.Signature, len(cc.Args)), x.results(f.Signature)}
					}
				}
			}
		}
	}
}

// calleesOf lists the callees of which an expression mentions the last call
func (cs *Contracts) calleesOf(e ast.Expr) []string {
	var out []string
	ast.Inspect(e, func(n ast.Node) bool {
		e, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		id, ok := e.Fun.(*ast.Ident)
		if !ok {
			return true
		}
		if m := cs.macros[id.Name]; m != nil {
			out = append(out, cs.calleesOf(m.body)...)
		}
		if len(e.Args) > 0 && (id.Name == "called" || id.Name == "result" || id.Name == "argument" || id.Name == "prevresult" || id.Name == "prevargument" || id.Name == "prevcalled" || id.Name == "ncalls" || id.Name == "grown") {
			if l, ok := e.Args[0].(*ast.BasicLit); ok && l.Kind == token.STRING {
				if s, err := strconv.Unquote(l.Value); err == nil {
					out = append(out, s)
				}
			}
		}
		return true
	})
	return out
}

type callSig struct {
	args, res []types.Type
}

// oncallT checks the call-site clauses of the function under verification
func (x *Exec) oncallT(st *State, name string, ts []types.Type, args []Value, p token.Pos) {
	if x.rootC == nil {
		return
	}
	for _, cl := range x.rootC.Oncall {
		if cl.Name != name && !strings.HasSuffix(name, "."+cl.Name) {
			continue
		}
		names := map[string]TV{}
		for kk, v := range x.rootNames {
			names[kk] = v
		}
		for i, a := range args {
			if i < len(ts) {
				names[fmt.Sprintf("arg%d", i)] = TV{v: a, t: ts[i]}
			}
		}
		c := &EvCtx{x: x, st: st, old: x.entrySt, names: names, pol: 1}
		x.oblige(st, "oncall", "call of "+name+": "+cl.Src, p, cl.Props, c.clause(cl))
	}
}

// lastCall is the most recent call of a function on this path (forgotten where a loop starts)
type lastCall struct {
	args []Value
	out  Outcome
	prev *lastCall
}

func (x *Exec) noteLast(st *State, name string, args []Value, out Outcome) {
	n := map[string]*lastCall{}
	for k, v := range st.last {
		n[k] = v
	}
	n[name] = &lastCall{append([]Value{}, args...), out, st.last[name]}
	st.last = n
	// number of calls, and bytes they appended
	tb := x.tb
	st.ghost["n:"+name] = tb.Add(x.ghostCount(st, "n:"+name), tb.I(1))
	if len(args) > 1 && !out.panicked {
		r := out.val
		if t, ok := r.(TupleV); ok && len(t) > 0 {
			r = t[0]
		}
		rs, ok := r.(*SliceV)
		as, ok1 := args[1].(*SliceV)
		if !ok1 {
			as, ok1 = args[0].(*SliceV)
		}
		if ok && ok1 {
			st.ghost["g:"+name] = tb.Add(x.ghostCount(st, "g:"+name), tb.Sub(rs.len, as.len))
		}
	}
}

func (x *Exec) ghostCount(st *State, n string) *Term {
	if t, ok := st.ghost[n]; ok {
		return t
	}
	return x.tb.I(0)
}

func (x *Exec) results(sig *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return ts
}

func pack(vs []Value) Value {
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return TupleV(vs)
}

// havocCall is a call about which nothing is known but its result types
func (x *Exec) havocCall(st *State, fr *Frame, name string, sig *types.Signature, p token.Pos, k Cont) {
	x.assume["external, any result: "+name] = true
	var vs []Value
	for _, t := range x.results(sig) {
		v := x.freshValue(st, t, "ext")
		x.markFresh(v)
		vs = append(vs, v)
	}
	if n := len(vs); n > 1 && !strings.HasPrefix(name, "function value") {
		if e, ok := vs[n-1].(*IfaceV); ok {
			// by convention, the other results can be used if there is no error
			for _, v := range vs[:n-1] {
				switch w := v.(type) {
				case *IfaceV:
					x.add(st, x.tb.Imp(x.tb.Eq(e.t, x.inil()), x.tb.Ne(w.t, x.inil())))
				case *PtrV:
					x.add(st, x.tb.Imp(x.tb.Eq(e.t, x.inil()), x.tb.Not(w.nil_)))
				}
			}
		}
	}
	k(st, Outcome{val: pack(vs)})
}

func (x *Exec) markFresh(v Value) {
	switch w := v.(type) {
	case *SliceV:
		if w.obj != nil {
			w.obj.fresh = true
		}
	case *PtrV:
		if w.obj != nil {
			w.obj.fresh = true
		}
	case *MapV:
		if w.obj != nil {
			w.obj.fresh = true
		}
	}
}

func (x *Exec) isFresh(st *State, v Value) bool {
	switch w := v.(type) {
	case *SliceV:
		return w.obj == nil || w.obj.fresh
	case *PtrV:
		return w.obj != nil && w.obj.fresh
	case *MapV:
		return w.obj == nil || w.obj.fresh
	case *IfaceV:
		if w.dyn != nil {
			return x.isFresh(st, w.val)
		}
		return w.t == x.inil()
	case *Term:
		return true
	}
	return false
}

// ---- contracts at call sites ----

type location struct {
	obj  *Obj
	path []int
	idx  *Term
	all  bool // contents of a map or array
	rv   bool
	lo   *Term // contents: from here
}

func (c *EvCtx) locations(e ast_Expr) []location {
	x := c.x
	switch e := unparen(e).(type) {
	case *astIdent:
		if e.Name == "rv" {
			return []location{{rv: true}}
		}
		if e.Name == "nothing" {
			return nil
		}
	case *astStar:
		if ca, ok := unparen(e.X).(*astCall); ok && len(ca.Args) == 2 {
			if id, ok := ca.Fun.(*astIdent); ok && id.Name == "as" {
				iv := c.ev(ca.Args[0]).v.(*IfaceV)
				if x.hasType(c.st, iv, c.typ(ca.Args[1])).isFalse() {
					return nil
				}
			}
		}
		p := c.ev(e.X).v.(*PtrV)
		if p.obj == nil {
			return nil
		}
		return []location{{obj: p.obj, path: p.path, idx: p.idx}}
	case *astCall:
		if id, ok := e.Fun.(*astIdent); ok && id.Name == "contents" {
			switch v := c.ev(e.Args[0]).v.(type) {
			case *MapV:
				if v.obj != nil {
					return []location{{obj: v.obj, all: true}}
				}
				return nil
			case *SliceV:
				if v.obj != nil {
					lo := v.off
					if len(e.Args) > 1 {
						lo = x.tb.Add(v.off, c.intE(e.Args[1]))
					}
					return []location{{obj: v.obj, all: true, lo: lo}}
				}
				return nil
			}
		}
	case *astSelector:
		tv := c.ev(e.X)
		if p, ok := tv.v.(*PtrV); ok {
			if p.obj == nil {
				return nil
			}
			stt := p.typ.Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == e.Sel.Name {
					return []location{{obj: p.obj, path: append(append([]int{}, p.path...), i), idx: p.idx}}
				}
			}
		}
		if sv, ok := tv.v.(*StructV); ok {
			for _, l := range c.locations(e.X) {
				for i := 0; i < sv.typ.NumFields(); i++ {
					if sv.typ.Field(i).Name() == e.Sel.Name {
						l.path = append(append([]int{}, l.path...), i)
						return []location{l}
					}
				}
			}
		}
	}
	panic(specErr("modifies %s", exprStr(e)))
}

func (x *Exec) typeAt(t types.Type, path []int) types.Type {
	for _, p := range path {
		t = t.Underlying().(*types.Struct).Field(p).Type()
	}
	return t
}

func (x *Exec) havocLoc(st *State, l location) {
	if l.rv {
		x.bumpRV(st)
		return
	}
	if l.all {
		if l.obj.kind == KMap {
			old := x.mapc(st, l.obj)
			x.setHeap(st, l.obj, x.opaqueMap(old.typ, l.obj.hint))
			return
		}
		old := x.content(st, l.obj)
		n := x.opaqueContent(old.sort, l.obj.hint)
		if l.lo != nil {
			st.touch(l.obj)
			x.setHeap(st, l.obj, &Content{kind: 2, sort: old.sort, base: old, at: l.lo, n: x.tb.I(0), src: old, soff: x.tb.I(0), rest: n, hint: l.obj.hint})
			return
		}
		x.setHeap(st, l.obj, n)
		return
	}
	t := l.obj.typ
	if l.obj.kind == KArr {
		v := x.freshValue(st, l.obj.typ, "hv")
		x.storeElem(st, l.obj, l.idx, x.toTerm(st, v))
		return
	}
	t = x.typeAt(t, l.path)
	p := &PtrV{obj: l.obj, path: l.path, idx: l.idx, nil_: x.tb.False, typ: t}
	from := x.nobj
	v := x.freshValue(st, t, "hv_"+l.obj.hint)
	for id := from + 1; id <= x.nobj; id++ {
		x.havocObj[id] = true
	}
	x.store(st, p, v)
}

func (x *Exec) bumpRV(st *State) {
	st.rvver = x.tb.Fresh("rvver", b64)
	st.written[-1] = true
	for id := range st.exposed {
		o := st.objs[id]
		if o == nil || o.kind != KCell {
			continue
		}
		if _, ok := st.heap[id]; ok || o.init != nil {
			x.setHeap(st, o, x.freshValue(st, o.typ, "exp"))
		}
	}
	for k, p := range st.exposedElem {
		_ = k
		if p.obj.kind == KArr {
			x.storeElem(st, p.obj, p.idx, x.toTerm(st, x.freshValue(st, p.obj.typ, "exp")))
		}
	}
}

func (x *Exec) rvVer(st *State) *Term {
	if st.rvver == nil {
		st.rvver = x.tb.Var("rvver0", b64)
	}
	return st.rvver
}

func (x *Exec) ghostVal(st *State, n string) *Term {
	if t, ok := st.ghost[n]; ok {
		return t
	}
	return x.tb.Var("ghost_"+n, b64)
}

func (x *Exec) bindNames(fn *ssa.Function, c *Contract, args []Value) map[string]TV {
	names := map[string]TV{}
	for i, p := range c.Params {
		names[p] = TV{v: args[i], t: fn.Params[i].Type()}
	}
	return names
}

func (x *Exec) applyContract(st *State, fr *Frame, fn *ssa.Function, c *Contract, args []Value, p token.Pos, k Cont) {
	names := x.bindNames(fn, c, args)
	old := st.clone()
	ec := &EvCtx{x: x, st: st, old: old, names: names, pol: 1}
	for _, r := range c.Requires {
		x.oblige(st, "pre", c.Name+" requires "+r.Src, p, r.Props, ec.clause(r))
		if st.dead {
			return
		}
	}
	// pointer receivers must not be nil: callee's own obligation, but it is proved assuming a non-nil receiver
	if fn.Signature.Recv() != nil {
		if pv, ok := args[0].(*PtrV); ok && !pv.nil_.isFalse() {
			x.oblige(st, "nil", "receiver of "+c.Name+" is not nil", p, x.safetyProps(), x.tb.Not(pv.nil_))
		}
	}
	var locs []location
	oc := &EvCtx{x: x, st: old, old: old, names: names, pol: 0}
	for _, m := range c.Modifies {
		locs = append(locs, oc.locations(m.Expr)...)
	}
	for _, l := range locs {
		x.havocLoc(st, l)
	}
	if c.Appends != "" {
		if sv, ok := names[c.Appends].v.(*SliceV); ok && sv.obj != nil {
			x.overwriteTail(st, sv.obj, x.tb.Add(sv.off, sv.len), nil)
		}
	}
	var vs []Value
	rts := x.results(fn.Signature)
	for i, t := range rts {
		n := c.Results[i]
		v := x.freshValue(st, t, n)
		for _, f := range c.Fresh {
			if f == n {
				x.markFresh(v)
			}
		}
		if sv, ok := v.(*SliceV); ok && c.Appends != "" && i == 0 {
			if av, ok := names[c.Appends].v.(*SliceV); ok && av.obj != nil {
				st.touch(av.obj)
				st.touch(sv.obj)
				st.join(av.obj, sv.obj)
				if av.obj.fresh {
					sv.obj.fresh = true
				}
				sv.obj.appendOf = av.obj
			} else {
				sv.obj.fresh = true
			}
		}
		vs = append(vs, v)
		names[n] = TV{v: v, t: t}
	}
	var ps *State
	if c.MayPanic && fr.catch || c.MayPanic && len(fr.defers) > 0 {
		ps = st.clone()
	}
	pc := &EvCtx{x: x, st: st, old: old, names: names, pol: -1}
	for _, e := range c.Ensures {
		if x.dropped(e) {
			continue
		}
		x.add(st, pc.clause(e))
	}
	if ps != nil {
		v := x.tb.Fresh("panicval", SIf)
		x.add(ps, x.tb.Ne(v, x.inil()))
		iv := &IfaceV{t: v}
		x.add(ps, x.tb.Not(x.implements(ps, iv, x.namedType("runtime.Error"))))
		ps.panicV = iv
		ps.trace = append(ps.trace, x.pos(p)+":panic")
		k(ps, Outcome{panicked: true})
	}
	if x.feasible(st, x.tb.True) {
		k(st, Outcome{val: pack(vs)})
	}
}

// ---- builtins ----

func (x *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Value, p token.Pos, k Cont) {
	tb := x.tb
	ret := func(v Value) { k(st, Outcome{val: v}) }
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			ret(v.len)
		case *Term:
			ret(x.slen(v))
		case *MapV:
			ret(x.mapLen(st, v))
		default:
			panic(unsupported("len"))
		}
	case "cap":
		ret(args[0].(*SliceV).cap)
	case "append":
		ret(x.appendV(st, args[0].(*SliceV), args[1], p))
	case "copy":
		d := args[0].(*SliceV)
		var n *Term
		srcLen := tb.I(0)
		var cnt *Content
		switch s := args[1].(type) {
		case *SliceV:
			srcLen = s.len
			n = tb.Ite(tb.Slt(d.len, srcLen), d.len, srcLen)
			if s.obj != nil && d.obj != nil {
				x.checkGlobalWrite(st, d.obj, p)
				oc := x.content(st, d.obj)
				cnt = &Content{kind: 2, sort: oc.sort, base: oc, at: d.off, n: n, src: x.content(st, s.obj), soff: s.off, hint: d.obj.hint}
			}
		case *Term:
			srcLen = x.slen(s)
			n = tb.Ite(tb.Slt(d.len, srcLen), d.len, srcLen)
			if d.obj != nil {
				oc := x.content(st, d.obj)
				cnt = &Content{kind: 2, sort: oc.sort, base: oc, at: d.off, n: n, str: s, soff: tb.I(0), hint: d.obj.hint}
			}
		}
		if cnt != nil {
			for _, q := range x.familyOf(st, d.obj) {
				oc := x.content(st, q)
				x.setHeap(st, q, x.opaqueContent(oc.sort, "shared"))
			}
			x.setHeap(st, d.obj, cnt)
		}
		ret(n)
	case "delete":
		m := args[0].(*MapV)
		if m.obj != nil {
			x.checkGlobalWrite(st, m.obj, p)
			mc := x.mapc(st, m.obj)
			pr, _ := x.lookup(st, mc, args[1])
			x.setHeap(st, m.obj, &MapContent{kind: 2, base: mc, key: args[1], typ: mc.typ, len: tb.Ite(pr, tb.Sub(mc.len, tb.I(1)), mc.len)})
		}
		ret(nil)
	case "recover":
		v := st.panicV
		st.panicV = nil
		if v == nil {
			v = &IfaceV{t: x.inil()}
		}
		ret(v)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			c := tb.Slt(t, r)
			if !isSigned(cc.Args[0].Type()) {
				c = tb.Ult(t, r)
			}
			if b.Name() == "max" {
				c = tb.Not(c)
			}
			r = tb.Ite(c, t, r)
		}
		ret(r)
	case "ssa:wrapnilchk":
		ret(args[0])
	case "clear":
		if m, ok := args[0].(*MapV); ok && m.obj != nil {
			x.setHeap(st, m.obj, &MapContent{kind: 3, typ: m.typ, len: tb.I(0)})
			ret(nil)
			return
		}
		panic(unsupported("clear"))
	case "print", "println":
		ret(nil)
	default:
		panic(unsupported("builtin " + b.Name()))
	}
}

func (x *Exec) mapLen(st *State, v *MapV) *Term {
	if v.obj == nil {
		return x.tb.I(0)
	}
	return x.tb.Ite(v.nil_, x.tb.I(0), x.mapc(st, v.obj).len)
}

// appendV: the result is treated as a new array; elements of the old one past its length may have been overwritten
func (x *Exec) appendV(st *State, s *SliceV, more Value, p token.Pos) Value {
	tb := x.tb
	srt, ok := x.scalarSort(s.elem)
	if !ok {
		panic(unsupported("append to []" + s.elem.String()))
	}
	var n *Term
	var src *Content
	var str *Term
	soff := tb.I(0)
	switch m := more.(type) {
	case *SliceV:
		n = m.len
		if m.obj != nil {
			src, soff = x.content(st, m.obj), m.off
		} else {
			n = tb.I(0)
		}
	case *Term:
		n, str = x.slen(m), m
	}
	o := x.newObj(KArr, s.elem, "app")
	l := tb.Add(s.len, n)
	x.add(st, tb.Sle(tb.I(0), l))
	x.add(st, tb.Sle(l, tb.I(maxLen)))
	c := tb.Fresh("cap", b64)
	tb.Axiom(c, tb.And(tb.Sle(l, c), tb.Sle(c, tb.I(maxLen))))
	var base *Content
	off := s.off
	if s.obj == nil {
		base = &Content{kind: 3, sort: srt}
		o.fresh = true
	} else {
		base = x.content(st, s.obj)
		o.fresh = s.obj.fresh
		o.appendOf = s.obj
		if s.cap == s.len {
			// the capacity is used up: a new array
			o.fresh = true
			o.appendOf = nil
		}
	}
	rest := x.opaqueContent(srt, "spare")
	var nc *Content
	if n.isC() && n.sval() <= 64 {
		// element by element
		nc = &Content{kind: 2, sort: srt, base: base, at: tb.Add(off, s.len), n: tb.I(0), src: base, soff: tb.I(0), rest: rest}
		for i := int64(0); i < n.sval(); i++ {
			var v *Term
			if str != nil {
				v = x.sat(str, tb.I(i))
			} else {
				v = x.sel(src, tb.Add(soff, tb.I(i)))
			}
			nc = &Content{kind: 1, sort: srt, base: nc, idx: tb.Add(off, tb.Add(s.len, tb.I(i))), val: v}
		}
	} else {
		nc = &Content{kind: 2, sort: srt, base: base, at: tb.Add(off, s.len), n: n, src: src, str: str, soff: soff, rest: rest}
	}
	if s.obj != nil && s.cap != s.len && !(n.isC() && n.val == 0) {
		x.checkGlobalWrite(st, s.obj, p)
		x.overwriteTail(st, s.obj, tb.Add(off, s.len), nil)
		st.join(s.obj, o)
	}
	st.heap[o.id] = nc
	st.objs[o.id] = o
	nilT := tb.And(s.nil_, tb.Eq(n, tb.I(0)))
	return &SliceV{obj: o, off: off, len: l, cap: tb.Add(c, tb.I(0)), nil_: nilT, elem: s.elem}
}

// ---- interfaces ----

func (x *Exec) dynOf(st *State, v *IfaceV) *Term {
	if v.dyn != nil {
		return x.typeConst(v.dyn)
	}
	return x.dyn(v.t)
}

func (x *Exec) hasType(st *State, v *IfaceV, t types.Type) *Term {
	if v.dyn != nil {
		return x.tb.B(types.Identical(v.dyn, t))
	}
	if b, ok := x.boxed[v.t.id]; ok {
		return x.tb.B(types.Identical(b.dyn, t))
	}
	return x.tb.Eq(x.dyn(v.t), x.typeConst(t))
}

func (x *Exec) implements(st *State, v *IfaceV, it types.Type) *Term {
	iface := it.Underlying().(*types.Interface)
	d := v.dyn
	if d == nil {
		if b, ok := x.boxed[v.t.id]; ok {
			d = b.dyn
		}
	}
	if d != nil {
		return x.tb.B(types.Implements(d, iface))
	}
	if iface.NumMethods() == 0 {
		return x.tb.Ne(v.t, x.inil())
	}
	dt := x.dyn(v.t)
	nm := "impl_" + types.TypeString(it, nil)
	a := x.tb.App(nm, Bool, dt)
	if len(x.tb.axioms[a.id]) == 0 {
		ax := x.tb.Imp(x.tb.Eq(dt, x.tb.Const("type", "none", SType)), x.tb.Not(a))
		x.tb.Axiom(a, ax)
		if dt.op == "var" {
			if t, ok := x.typeOf[dt.id]; ok {
				return x.tb.B(types.Implements(t, iface))
			}
		}
	}
	return a
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert, k func(*State, *Frame, Value)) {
	v := x.val(st, fr, in.X).(*IfaceV)
	_, isI := in.AssertedType.Underlying().(*types.Interface)
	var c *Term
	if isI {
		c = x.implements(st, v, in.AssertedType)
	} else {
		c = x.hasType(st, v, in.AssertedType)
	}
	get := func(st *State) Value {
		if isI {
			return v
		}
		return x.unbox(st, v, in.AssertedType)
	}
	if call, ok := in.X.(*ssa.Call); ok {
		if f := call.Call.StaticCallee(); f != nil && f.String() == "(*sync.Pool).Get" {
			x.assume["the package's sync.Pools hold non-nil values of the type they are used with"] = true
			x.add(st, c)
			if pv, ok := x.unbox(st, v, in.AssertedType).(*PtrV); ok && !isI {
				x.add(st, x.tb.Not(pv.nil_))
			}
		}
	}
	if !in.CommaOk {
		x.oblige(st, "assert", "dynamic type is "+typeName(in.AssertedType), in.Pos(), x.safetyProps(), c)
		if !st.dead {
			k(st, fr, get(st))
		}
		return
	}
	x.branch(st, fr, c, x.pos(in.Pos()),
		func(st *State, fr *Frame) { k(st, fr, TupleV{get(st), x.tb.True}) },
		func(st *State, fr *Frame) { k(st, fr, TupleV{x.zero(in.AssertedType), x.tb.False}) })
}

func (x *Exec) invokeMethod(st *State, fr *Frame, cc *ssa.CallCommon, v *IfaceV, args []Value, p token.Pos, k Cont) {
	m := cc.Method
	d := v.dyn
	if d == nil {
		if b, ok := x.boxed[v.t.id]; ok {
			v, d = b, b.dyn
		}
	}
	if d != nil {
		fn := x.prog.LookupMethod(d, m.Pkg(), m.Name())
		if fn == nil {
			panic(unsupported("method " + m.Name()))
		}
		if fn.Pkg == nil { // wrapper: promoted through embedding or pointer indirection
			panic(unsupported("method wrapper " + fn.String()))
		}
		x.callFn(st, fr, fn, append([]Value{v.val}, args...), nil, p, k)
		return
	}
	x.oblige(st, "nil", "interface is not nil", p, x.safetyProps(), x.tb.Ne(v.t, x.inil()))
	if st.dead {
		return
	}
	it := cc.Value.Type()
	if isReflectType(it) {
		name := "(reflect.Type)." + m.Name()
		ts := append([]types.Type{it}, argTypes(cc.Signature(), cc.Signature().Params().Len())...)
		all := append([]Value{v}, args...)
		x.oncallT(st, name, ts, all, p)
		if x.tracked[name] {
			x.callTypes[name] = callSig{ts, x.results(cc.Signature())}
			k0 := k
			k = func(st *State, out Outcome) {
				x.noteLast(st, name, all, out)
				k0(st, out)
			}
		}
		x.reflectTypeMethod(st, fr, v, m.Name(), args, cc.Signature(), p, k)
		return
	}
	// interfaces with unexported methods can only be implemented in this package
	if !m.Exported() && m.Pkg() == x.pkg.Pkg {
		iface := it.Underlying().(*types.Interface)
		var impls []types.Type
		for _, name := range x.pkg.Pkg.Scope().Names() {
			tn, ok := x.pkg.Pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), iface) {
				impls = append(impls, tn.Type())
			}
		}
		x.assume["values of interface "+typeName(it)+" hold one of the package's own implementations, not a pointer to one"] = true
		for _, t := range impls {
			c := x.hasType(st, v, t)
			if !x.feasible(st, c) {
				continue
			}
			s2 := st.clone()
			f2 := fr.clone()
			x.add(s2, c)
			fn := x.prog.LookupMethod(t, m.Pkg(), m.Name())
			x.callFn(s2, f2, fn, append([]Value{x.unbox(s2, v, t)}, args...), nil, p, k)
		}
		return
	}
	name := typeName(it) + "." + m.Name()
	{
		ts := []types.Type{it}
		for i := 0; i < cc.Signature().Params().Len(); i++ {
			ts = append(ts, cc.Signature().Params().At(i).Type())
		}
		all := append([]Value{v}, args...)
		x.oncallT(st, m.Name(), ts, all, p)
		if x.tracked[m.Name()] {
			x.callTypes[m.Name()] = callSig{ts, x.results(cc.Signature())}
			k0 := k
			k = func(st *State, out Outcome) {
				x.noteLast(st, m.Name(), all, out)
				k0(st, out)
			}
		}
	}
	switch m.Name() {
	case "UnmarshalBinary", "MarshalBinary":
		x.assume["user hook "+name+" may do anything to its own receiver, returns any result, and does not panic with a run-time error"] = true
		x.bumpRV(st)
		var vs []Value
		for _, t := range x.results(cc.Signature()) {
			vs = append(vs, x.freshValue(st, t, "hook"))
		}
		x.mayPanic(st, fr, p, k)
		k(st, Outcome{val: pack(vs)})
		return
	}
	x.havocCall(st, fr, name, cc.Signature(), p, k)
}

// mayPanic explores the path on which an external function panics (with something that is not a run-time error)
func (x *Exec) mayPanic(st *State, fr *Frame, p token.Pos, k Cont) {
	if !fr.catch && len(fr.defers) == 0 {
		if x.rootC == nil || !x.rootC.MayPanic {
			x.oblige(st, "panic", "no call that may panic outside recover", p, x.safetyProps(), x.tb.False)
		}
		return
	}
	ps := st.clone()
	v := x.tb.Fresh("panicval", SIf)
	x.add(ps, x.tb.Ne(v, x.inil()))
	iv := &IfaceV{t: v}
	x.add(ps, x.tb.Not(x.implements(ps, iv, x.namedType("runtime.Error"))))
	ps.panicV = iv
	ps.trace = append(ps.trace, x.pos(p)+":panic")
	k(ps, Outcome{panicked: true})
}

// ---- maps: iteration ----

func (x *Exec) rangeStart(st *State, m *MapV) Value {
	it := &IterV{m: m}
	it.obj = x.newObj(KCell, tInt, "iter")
	it.obj.fresh = true
	if m.obj != nil {
		it.mc = x.mapc(st, m.obj)
	}
	it.n = x.mapLen(st, m)
	st.heap[it.obj.id] = x.tb.I(0)
	st.objs[it.obj.id] = it.obj
	return it
}

// next: the k-th step of an iteration yields iterkey(iteration, k); deleting during iteration may drop steps
func (x *Exec) next(st *State, fr *Frame, in *ssa.Next, k func(*State, *Frame, Value)) {
	tb := x.tb
	if in.IsString {
		panic(unsupported("range over string"))
	}
	it := x.val(st, fr, in.Iter).(*IterV)
	n := x.cell(st, it.obj).(*Term)
	same := it.m.obj != nil && x.mapc(st, it.m.obj) == it.mc
	more := tb.Slt(n, it.n)
	if !same && it.m.obj != nil {
		more = tb.And(more, tb.Fresh("stillthere", Bool))
	}
	tt := in.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	x.branch(st, fr, more, x.pos(in.Pos()),
		func(st *State, fr *Frame) {
			if it.m.obj == nil {
				return
			}
			var key Value
			ks, ok := x.scalarSort(it.m.typ.Key())
			if !ok || it.mc.kind != 0 {
				key = x.freshValue(st, it.m.typ.Key(), "iterkey")
			} else {
				key = x.fromTerm(st, tb.App("iterkey_"+string(ks), ks, it.mc.id, n), it.m.typ.Key())
			}
			p, v := x.lookup(st, it.mc, key)
			x.add(st, p)
			st.heap[it.obj.id] = tb.Add(n, tb.I(1))
			st.written[it.obj.id] = true
			tv := TupleV{tb.True, key, v}
			if isInvalid(kt) {
				tv[1] = nil
			}
			if isInvalid(vt) {
				tv[2] = nil
			}
			k(st, fr, tv)
		},
		func(st *State, fr *Frame) {
			k(st, fr, TupleV{tb.False, x.zeroOrNil(kt), x.zeroOrNil(vt)})
		})
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (x *Exec) zeroOrNil(t types.Type) Value {
	if isInvalid(t) {
		return nil
	}
	return x.zero(t)
}

var _ = strings.Contains

// dropped reports whether the function being verified does without a callee's postcondition
func (x *Exec) dropped(c Clause) bool {
	if c.Local {
		return true
	}
	if x.rootC == nil || len(x.rootC.Drop) == 0 || len(c.Props) == 0 {
		return false
	}
	for _, p := range c.Props {
		in := false
		for _, d := range x.rootC.Drop {
			in = in || d == p
		}
		if !in {
			return false
		}
	}
	return true
}
