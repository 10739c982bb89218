package main

import "fmt"

// Specification functions over array contents. An application f(c, p, ...) of such a function depends only on
// the elements of c in a footprint [p, p+size), so it carries over between contents that agree there.

type specApp struct {
	fn   string
	c    *Content
	args []*Term // args[0] is the position
	t    *Term
}

type specDef struct {
	name string
	sort Sort
	// size of the footprint
	size func(x *Exec, a *specApp) *Term
	// facts that hold for every application
	facts func(x *Exec, a *specApp) *Term
	// full definition (used in functions whose contract says "unfold f")
	def func(x *Exec, a *specApp) *Term
	// not sensitive to track bits
	flagless bool
	// value moves with the position
	shifts bool
}

var specDefs = map[string]*specDef{}

func init() {
	vsize := func(x *Exec, a *specApp) *Term { return x.spec("VS", a.c, a.args[0]) }
	specDefs["mkstr"] = &specDef{name: "mkstr", sort: SStr, size: func(x *Exec, a *specApp) *Term { return a.args[1] }}
	// VE(c,p): number of continuation bytes before the first byte without continuation bit, at most 10 (=none within 10)
	specDefs["VS"] = &specDef{name: "VS", sort: b64,
		size: func(x *Exec, a *specApp) *Term { return x.spec("VS", a.c, a.args[0]) },
		facts: func(x *Exec, a *specApp) *Term {
			return x.tb.And(x.tb.Sle(x.tb.I(1), a.t), x.tb.Sle(a.t, x.tb.I(11)))
		},
		def: func(x *Exec, a *specApp) *Term {
			tb := x.tb
			r := tb.I(11)
			for k := int64(9); k >= 0; k-- {
				b := x.sel(a.c, tb.Add(a.args[0], tb.I(k)))
				r = tb.Ite(tb.Ult(b, tb.C(0x80, 8)), tb.I(k+1), r)
			}
			return tb.Eq(a.t, r)
		}}
	specDefs["VV"] = &specDef{name: "VV", sort: b64, size: vsize,
		def: func(x *Exec, a *specApp) *Term {
			tb := x.tb
			var r *Term
			for k := int64(9); k >= 0; k-- {
				b := x.sel(a.c, tb.Add(a.args[0], tb.I(k)))
				v := tb.Shl(tb.Ext(tb.BAnd(b, tb.C(0x7f, 8)), 64, false), tb.I(7*k))
				if r == nil {
					r = v
				} else {
					r = tb.BOr(v, tb.Ite(tb.Ult(b, tb.C(0x80, 8)), tb.I(0), r))
				}
			}
			return tb.Eq(a.t, r)
		}}
	// positions behind items: the definitions are macros of the contracts, assumed where a contract says "unfolding"
	for _, n := range []string{"IEND", "AEND", "NP"} {
		n := n
		specDefs[n] = &specDef{name: n, sort: b64, shifts: true, size: func(x *Exec, a *specApp) *Term {
			return x.tb.Sub(x.spec(n, a.c, a.args...), a.args[0])
		}}
	}
}

func (x *Exec) spec(fn string, c *Content, args ...*Term) *Term {
	d := specDefs[fn]
	if d == nil {
		panic(unsupported("spec function " + fn))
	}
	ts := append([]*Term{x.cid(c)}, args...)
	t := x.tb.App(fn, d.sort, ts...)
	x.noteSpec(c, &specApp{fn: fn, c: c, args: args, t: t})
	return t
}

// noteSpec records an application of a spec function and relates it to the contents c was made from
func (x *Exec) noteSpec(c *Content, a *specApp) {
	if x.specSeen[a.t.id] {
		return
	}
	x.specSeen[a.t.id] = true
	d := specDefs[a.fn]
	if d.facts != nil {
		x.tb.Axiom(a.t, d.facts(x, a))
	}
	if d.def != nil && x.unfold[a.fn] {
		x.tb.Axiom(a.t, d.def(x, a))
	}
	id := x.cid(c).id
	x.specTerms[id] = append(x.specTerms[id], a)
	tb := x.tb
	p := a.args[0]
	if d.def != nil && x.unfold[a.fn] && c.kind != 0 {
		return // the definition speaks about the elements themselves
	}
	switch c.kind {
	case 1:
		b := x.specOn(a, c.base, p)
		e := tb.Add(p, d.size(x, b))
		hit := tb.And(tb.Sle(p, c.idx), tb.Slt(c.idx, e))
		if d.flagless && c.tagset {
			hit = tb.False
		}
		tb.Axiom(a.t, tb.Imp(tb.And(tb.Not(hit), tb.Sle(p, e)), x.specSame(a, b)))
	case 2:
		if c.rest == nil || c.rest == c.base {
			b := x.specOn(a, c.base, p)
			e := tb.Add(p, d.size(x, b))
			tb.Axiom(a.t, tb.Imp(tb.And(tb.Sle(p, e), tb.Or(tb.Sle(e, c.at), tb.Sle(tb.Add(c.at, c.n), p))), x.specSame(a, b)))
		} else {
			b := x.specOn(a, c.base, p)
			e := tb.Add(p, d.size(x, b))
			tb.Axiom(a.t, tb.Imp(tb.And(tb.Sle(p, e), tb.Sle(e, c.at)), x.specSame(a, b)))
			r := x.specOn(a, c.rest, p)
			tb.Axiom(a.t, tb.Imp(tb.Sle(tb.Add(c.at, c.n), p), x.specSame(a, r)))
		}
		if c.src != nil && c.str == nil {
			q := tb.Add(c.soff, tb.Sub(p, c.at))
			b := x.specOn(a, c.src, q)
			e := tb.Add(p, d.size(x, b))
			tb.Axiom(a.t, tb.Imp(tb.And(tb.Sle(c.at, p), tb.Sle(p, e), tb.Sle(e, tb.Add(c.at, c.n))), x.specSame(a, b)))
		}
	}
	for _, pa := range append([]agreement{}, x.parents[id]...) {
		x.specParent(a, pa)
	}
}

// specOn is the same application on another content
func (x *Exec) specOn(a *specApp, c *Content, p *Term) *specApp {
	args := append([]*Term{p}, a.args[1:]...)
	b := &specApp{fn: a.fn, c: c, args: args}
	b.t = x.tb.App(a.fn, specDefs[a.fn].sort, append([]*Term{x.cid(c)}, args...)...)
	x.noteSpec(c, b)
	return b
}

func (x *Exec) specSame(a, b *specApp) *Term {
	if specDefs[a.fn].shifts { // the value is a position
		return x.tb.Eq(x.tb.Sub(a.t, a.args[0]), x.tb.Sub(b.t, b.args[0]))
	}
	return x.tb.Eq(a.t, b.t)
}

func (x *Exec) specParent(a *specApp, pa agreement) {
	tb := x.tb
	d := specDefs[a.fn]
	if pa.str != nil || pa.flag && !d.flagless {
		return
	}
	if len(a.args) > 8 {
		return
	}
	p := a.args[0]
	b := x.specOn(a, pa.src, tb.Add(p, pa.shift))
	e := tb.Add(p, d.size(x, b))
	tb.Axiom(a.t, tb.Imp(tb.And(pa.atom, tb.Sle(pa.lo, p), tb.Sle(p, e), tb.Sle(e, pa.hi)), x.specSame(a, b)))
}

func (x *Exec) specNewParent(c *Content, pa agreement) {
	for _, a := range append([]*specApp{}, x.specTerms[x.cid(c).id]...) {
		x.specParent(a, pa)
	}
}

var _ = fmt.Sprint
