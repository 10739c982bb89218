package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Props []string
	Src   string
	Expr  ast.Expr
	Loc   string
	Name  string // oncall: callee
	Local bool   // speaks about calls inside the function: nothing a caller may assume
}

type Contract struct {
	Name      string
	Params    []string // receiver first
	Results   []string
	Props     []string // properties this function is verified for
	Safety    []string // properties its run-time panics break
	Requires  []Clause
	Ensures   []Clause
	Modifies  []Clause
	Invs      []Clause
	Oncall    []Clause
	Fresh     []string
	MayPanic  bool
	Trusted   bool
	Inline    bool
	Unroll    int
	Appends   string
	Drop      []string // callee postconditions tagged only with these properties are not assumed
	Unfold    []string
	Unfolding []Clause // definitions of specification functions, assumed
	Frame     []string
	Loc       string
}

type Contracts struct {
	byName map[string]*Contract
	macros map[string]*macro
	pkg    *ssa.Package
	funcs  []*ssa.Function
}

type macro struct {
	params []string
	body   ast.Expr
	src    string
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if fn.Pkg == nil {
		return fn.String()
	}
	return fn.RelString(fn.Pkg.Pkg)
}

// callName names a callee: functions of other packages with their package
func (cs *Contracts) callName(fn *ssa.Function) string {
	if fn != nil && fn.Pkg != nil && fn.Pkg != cs.pkg {
		return fn.String()
	}
	return fnName(fn)
}

func splitTop(s, sep string) []string {
	var out []string
	d := 0
	last := 0
	inq := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			inq = !inq
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && !inq && strings.HasPrefix(s[i:], sep) {
			out = append(out, s[last:i])
			last = i + len(sep)
			i += len(sep) - 1
		}
	}
	return append(out, s[last:])
}

func parseSpecExpr(s string) (ast.Expr, error) {
	parts := splitTop(s, "==>")
	t := strings.TrimSpace(parts[len(parts)-1])
	for i := len(parts) - 2; i >= 0; i-- {
		t = "imp(" + strings.TrimSpace(parts[i]) + ", " + t + ")"
	}
	t = strings.ReplaceAll(t, "$", "HOLE_")
	e, err := parser.ParseExpr(t)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, t)
	}
	return e, nil
}

func loadContracts(dir string, pkg *ssa.Package) (*Contracts, error) {
	cs := &Contracts{byName: map[string]*Contract{}, macros: map[string]*macro{}, pkg: pkg}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var cur *Contract
		type ln struct {
			n int
			s string
		}
		var lines []ln
		for i, l := range strings.Split(string(b), "\n") {
			if j := strings.Index(l, "//"); j >= 0 {
				l = l[:j]
			}
			t := strings.TrimSpace(l)
			if t == "" {
				continue
			}
			if strings.HasPrefix(t, "|") && len(lines) > 0 {
				lines[len(lines)-1].s += " " + strings.TrimSpace(t[1:])
				continue
			}
			lines = append(lines, ln{i + 1, t})
		}
		for _, l := range lines {
			loc := fmt.Sprintf("%s:%d", filepath.Base(f), l.n)
			kw, rest := l.s, ""
			if i := strings.IndexAny(l.s, " [\t"); i >= 0 {
				kw, rest = l.s[:i], strings.TrimSpace(l.s[i:])
			}
			var props []string
			if strings.HasPrefix(rest, "[") && (kw == "ensures" || kw == "requires" || kw == "oncall" || kw == "inv") {
				j := strings.IndexByte(rest, ']')
				props = strings.Fields(strings.ReplaceAll(rest[1:j], ",", " "))
				rest = strings.TrimSpace(rest[j+1:])
			}
			mkClause := func(s string) (Clause, error) {
				e, err := parseSpecExpr(s)
				return Clause{Props: props, Src: s, Expr: e, Loc: loc}, err
			}
			switch kw {
			case "func":
				cur = &Contract{Loc: loc}
				// name(params) (results)   or (recv).name(params) ...
				i := 0
				if strings.HasPrefix(rest, "(") {
					i = strings.IndexByte(rest, ')') + 1
				}
				j := strings.IndexByte(rest[i:], '(') + i
				cur.Name = rest[:j]
				e := strings.IndexByte(rest[j:], ')') + j
				for _, p := range strings.Split(rest[j+1:e], ",") {
					if p = strings.TrimSpace(p); p != "" {
						cur.Params = append(cur.Params, p)
					}
				}
				r := strings.Trim(strings.TrimSpace(rest[e+1:]), "()")
				for _, p := range strings.Split(r, ",") {
					if p = strings.TrimSpace(p); p != "" {
						cur.Results = append(cur.Results, p)
					}
				}
				if cs.byName[cur.Name] != nil {
					return nil, fmt.Errorf("%s: second contract for %s", loc, cur.Name)
				}
				cs.byName[cur.Name] = cur
			case "define":
				i := strings.IndexByte(rest, '(')
				j := strings.IndexByte(rest, ')')
				k := strings.IndexByte(rest[j:], '=') + j
				m := &macro{src: rest}
				for _, p := range strings.Split(rest[i+1:j], ",") {
					if p = strings.TrimSpace(p); p != "" {
						m.params = append(m.params, p)
					}
				}
				e, err := parseSpecExpr(strings.TrimSpace(rest[k+1:]))
				if err != nil {
					return nil, fmt.Errorf("%s: %v", loc, err)
				}
				m.body = e
				cs.macros[strings.TrimSpace(rest[:i])] = m
			case "props":
				cur.Props = append(cur.Props, strings.Fields(rest)...)
			case "safety":
				cur.Safety = append(cur.Safety, strings.Fields(rest)...)
			case "frame":
				cur.Frame = append(cur.Frame, strings.Fields(rest)...)
			case "maypanic":
				cur.MayPanic = true
			case "trusted":
				cur.Trusted = true
			case "inline":
				cur.Inline = true
			case "unroll":
				cur.Unroll, _ = strconv.Atoi(rest)
			case "appends":
				cur.Appends = rest
			case "fresh":
				cur.Fresh = append(cur.Fresh, strings.Fields(rest)...)
			case "drop":
				cur.Drop = append(cur.Drop, strings.Fields(rest)...)
			case "unfold":
				cur.Unfold = append(cur.Unfold, strings.Fields(rest)...)
			case "modifies":
				for _, p := range splitTop(rest, ",") {
					c, err := mkClause(strings.TrimSpace(p))
					if err != nil {
						return nil, fmt.Errorf("%s: %v", loc, err)
					}
					cur.Modifies = append(cur.Modifies, c)
				}
			case "oncall":
				i := strings.Index(rest, ":")
				c, err := mkClause(strings.TrimSpace(rest[i+1:]))
				if err != nil {
					return nil, fmt.Errorf("%s: %v", loc, err)
				}
				c.Name = strings.TrimSpace(rest[:i])
				cur.Oncall = append(cur.Oncall, c)
			case "requires", "ensures", "inv", "unfolding":
				c, err := mkClause(rest)
				c.Local = err == nil && len(cs.calleesOf(c.Expr)) > 0
				if err != nil {
					return nil, fmt.Errorf("%s: %v", loc, err)
				}
				switch kw {
				case "requires":
					cur.Requires = append(cur.Requires, c)
				case "ensures":
					cur.Ensures = append(cur.Ensures, c)
				case "inv":
					cur.Invs = append(cur.Invs, c)
				case "unfolding":
					cur.Unfolding = append(cur.Unfolding, c)
				}
			default:
				return nil, fmt.Errorf("%s: unknown keyword %q", loc, kw)
			}
		}
	}
	// no function may write package-level state
	for _, c := range cs.byName {
		if !c.Trusted && !c.Inline && !overlap(c.Props, []string{"C20"}) {
			c.Props = append(c.Props, "C20")
		}
	}
	return cs, nil
}

func (cs *Contracts) forFn(fn *ssa.Function) *Contract {
	if fn == nil || fn.Pkg != cs.pkg || fn.Parent() != nil {
		return nil
	}
	c := cs.byName[fnName(fn)]
	if c == nil {
		return nil
	}
	if len(c.Params) != len(fn.Params) || len(c.Results) != fn.Signature.Results().Len() {
		return nil
	}
	return c
}

// ---- evaluation of specification expressions ----

type TV struct {
	v Value
	t types.Type
	k constant.Value // untyped constant
}

type EvCtx struct {
	x     *Exec
	st    *State
	cur   *State // inside old: the state outside
	old   *State
	names map[string]TV
	olds  map[string]TV
	pol   int // +1 to be proved, -1 assumed, 0 neither
}

func (c *EvCtx) with(pol int) *EvCtx {
	n := *c
	n.pol = pol
	return &n
}

func specErr(f string, a ...interface{}) unsupportedErr {
	return unsupportedErr{"specification: " + fmt.Sprintf(f, a...)}
}

func (c *EvCtx) boolE(e ast.Expr) *Term {
	tv := c.ev(e)
	if tv.k != nil {
		return c.x.tb.B(constant.BoolVal(tv.k))
	}
	t, ok := tv.v.(*Term)
	if !ok || t.sort != Bool {
		panic(specErr("not boolean: %s", exprStr(e)))
	}
	return t
}

func (c *EvCtx) intE(e ast.Expr) *Term {
	tv := c.ev(e)
	return c.as64(tv)
}

func (c *EvCtx) as64(tv TV) *Term {
	if tv.k != nil {
		if v, ok := constant.Int64Val(constant.ToInt(tv.k)); ok {
			return c.x.tb.I(v)
		}
		v, _ := constant.Uint64Val(constant.ToInt(tv.k))
		return c.x.tb.C(v, 64)
	}
	t, ok := tv.v.(*Term)
	if !ok || t.sort.bits() == 0 {
		panic(specErr("not an integer"))
	}
	return c.x.tb.Ext(t, 64, isSigned(tv.t))
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]
var tByte = types.Typ[types.Uint8]

func (c *EvCtx) typ(e ast.Expr) types.Type {
	tv, err := types.Eval(c.x.prog.Fset, c.x.pkg.Pkg, token.NoPos, exprStr(e))
	if err != nil || !tv.IsType() {
		// imported packages are not in the package scope
		if t := c.x.namedType(exprStr(e)); t != nil {
			return t
		}
		panic(specErr("type %s: %v", exprStr(e), err))
	}
	return tv.Type
}

func (x *Exec) namedType(s string) types.Type {
	ptr := strings.HasPrefix(s, "*")
	q := strings.TrimPrefix(s, "*")
	i := strings.LastIndexByte(q, '.')
	if i < 0 {
		return nil
	}
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == q[:i] || p.Pkg.Name() == q[:i] {
			if o := p.Pkg.Scope().Lookup(q[i+1:]); o != nil {
				if ptr {
					return types.NewPointer(o.Type())
				}
				return o.Type()
			}
		}
	}
	return nil
}

// conv gives an untyped constant the type t
func (c *EvCtx) conv(tv TV, t types.Type) TV {
	if tv.k == nil {
		return tv
	}
	x := c.x
	switch tv.k.Kind() {
	case constant.Bool:
		return TV{v: x.tb.B(constant.BoolVal(tv.k)), t: tBool}
	case constant.String:
		return TV{v: x.strConst(constant.StringVal(tv.k)), t: tString}
	}
	s, ok := x.scalarSort(t)
	if !ok || s.bits() == 0 {
		t, s = tInt, b64
	}
	return TV{v: x.tb.C(c.as64(tv).val, s.bits()), t: t}
}

func (c *EvCtx) ev(e ast.Expr) TV {
	x, tb := c.x, c.x.tb
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.ev(e.X)
	case *ast.BasicLit:
		return TV{k: constant.MakeFromLiteral(e.Value, e.Kind, 0)}
	case *ast.Ident:
		if tv, ok := c.names[e.Name]; ok {
			return tv
		}
		switch e.Name {
		case "true", "false":
			return TV{k: constant.MakeBool(e.Name == "true")}
		case "nil":
			return TV{v: nil, t: types.Typ[types.UntypedNil]}
		}
		switch o := x.pkg.Members[e.Name].(type) {
		case *ssa.NamedConst:
			b, ok := o.Type().Underlying().(*types.Basic)
			if ok && b.Info()&types.IsUntyped != 0 {
				return TV{k: o.Value.Value}
			}
			return TV{v: x.constVal(o.Value), t: o.Type()}
		case *ssa.Global:
			t := o.Type().Underlying().(*types.Pointer).Elem()
			return TV{v: x.load(c.st, &PtrV{obj: x.globalObj(o), nil_: tb.False, typ: t}), t: t}
		}
		panic(specErr("unknown name %s", e.Name))
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return TV{v: tb.Not(c.with(-c.pol).boolE(e.X)), t: tBool}
		case token.SUB, token.XOR:
			tv := c.ev(e.X)
			if tv.k != nil {
				return TV{k: constant.UnaryOp(e.Op, tv.k, 0)}
			}
			if e.Op == token.SUB {
				return TV{v: tb.Neg(tv.v.(*Term)), t: tv.t}
			}
			return TV{v: tb.BNot(tv.v.(*Term)), t: tv.t}
		}
	case *ast.StarExpr:
		tv := c.ev(e.X)
		p := tv.v.(*PtrV)
		if p.obj == nil {
			return TV{v: x.freshValue(c.st, p.typ, "nilderef"), t: p.typ}
		}
		return TV{v: x.load(c.st, p), t: p.typ}
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, bound := c.names[id.Name]; !bound {
				for _, im := range x.pkg.Pkg.Imports() {
					if im.Name() == id.Name {
						if k, ok := im.Scope().Lookup(e.Sel.Name).(*types.Const); ok {
							if b, ok := k.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
								return TV{k: k.Val()}
							}
							return TV{v: x.constVal(ssa.NewConst(k.Val(), k.Type())), t: k.Type()}
						}
						for _, p := range x.prog.AllPackages() {
							if p.Pkg == im {
								if g, ok := p.Members[e.Sel.Name].(*ssa.Global); ok {
									t := g.Type().Underlying().(*types.Pointer).Elem()
									return TV{v: x.load(c.st, &PtrV{obj: x.globalObj(g), nil_: tb.False, typ: t}), t: t}
								}
							}
						}
					}
				}
			}
		}
		tv := c.ev(e.X)
		t := tv.t
		v := tv.v
		if p, ok := v.(*PtrV); ok {
			if p.obj == nil {
				v = x.freshValue(c.st, p.typ, "nilderef")
			} else {
				v = x.load(c.st, p)
			}
			t = p.typ
		}
		if term, ok := v.(*Term); ok {
			if u, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == e.Sel.Name {
						return TV{v: x.pureField(c.st, term, i, u.Field(i).Type()), t: u.Field(i).Type()}
					}
				}
			}
		}
		sv, ok := v.(*StructV)
		if !ok {
			panic(specErr("selector %s", exprStr(e)))
		}
		for i := 0; i < sv.typ.NumFields(); i++ {
			if sv.typ.Field(i).Name() == e.Sel.Name {
				return TV{v: sv.f[i], t: sv.typ.Field(i).Type()}
			}
		}
		_ = t
		panic(specErr("no field %s", exprStr(e)))
	case *ast.IndexExpr:
		tv := c.ev(e.X)
		switch v := tv.v.(type) {
		case *SliceV:
			if v.obj == nil {
				return TV{v: x.zero(v.elem), t: v.elem}
			}
			i := tb.Add(v.off, c.intE(e.Index))
			if v.obj.kind == KVec {
				return TV{v: x.vec(c.st, v.obj)[i.val], t: v.elem}
			}
			return TV{v: x.fromTerm(c.st, x.sel(x.content(c.st, v.obj), i), v.elem), t: v.elem}
		case *Term:
			return TV{v: x.sat(v, c.intE(e.Index)), t: tByte}
		case *MapV:
			if v.obj == nil {
				return TV{v: x.zero(v.typ.Elem()), t: v.typ.Elem()}
			}
			_, r := x.lookup(c.st, x.mapc(c.st, v.obj), c.conv(c.ev(e.Index), v.typ.Key()).v)
			return TV{v: r, t: v.typ.Elem()}
		case *PtrV:
			return TV{v: x.fromTerm(c.st, x.sel(x.content(c.st, v.obj), c.intE(e.Index)), v.obj.typ), t: v.obj.typ}
		}
		panic(specErr("index %s", exprStr(e)))
	case *ast.SliceExpr:
		tv := c.ev(e.X)
		v, ok := tv.v.(*SliceV)
		if !ok {
			panic(specErr("slice %s", exprStr(e)))
		}
		lo, hi := tb.I(0), v.len
		if e.Low != nil {
			lo = c.intE(e.Low)
		}
		if e.High != nil {
			hi = c.intE(e.High)
		}
		return TV{v: &SliceV{obj: v.obj, off: tb.Add(v.off, lo), len: tb.Sub(hi, lo), cap: tb.Sub(v.cap, lo), nil_: v.nil_, elem: v.elem}, t: tv.t}
	case *ast.BinaryExpr:
		return c.binary(e)
	case *ast.CallExpr:
		return c.callE(e)
	case *ast.CompositeLit:
		t := c.typ(e.Type)
		u, ok := t.Underlying().(*types.Struct)
		if !ok || u.NumFields() != len(e.Elts) {
			panic(specErr("literal %s", exprStr(e)))
		}
		sv := &StructV{typ: u}
		for i, el := range e.Elts {
			sv.f = append(sv.f, c.conv(c.ev(el), u.Field(i).Type()).v)
		}
		return TV{v: sv, t: t}
	}
	panic(specErr("expression %s", exprStr(e)))
}

func (c *EvCtx) binary(e *ast.BinaryExpr) TV {
	x, tb := c.x, c.x.tb
	switch e.Op {
	case token.LAND, token.LOR:
		a := c.boolE(e.X)
		if e.Op == token.LAND && a.isFalse() || e.Op == token.LOR && a.isTrue() {
			return TV{v: a, t: tBool}
		}
		b := c.boolE(e.Y)
		if e.Op == token.LAND {
			return TV{v: tb.And(a, b), t: tBool}
		}
		return TV{v: tb.Or(a, b), t: tBool}
	}
	cc := c
	if c.pol != 0 {
		cc = c.with(0)
	}
	a, b := cc.ev(e.X), cc.ev(e.Y)
	if a.k != nil && b.k != nil {
		switch e.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return TV{k: constant.MakeBool(constant.Compare(a.k, e.Op, b.k))}
		case token.SHL, token.SHR:
			n, _ := constant.Uint64Val(b.k)
			return TV{k: constant.Shift(a.k, e.Op, uint(n))}
		}
		return TV{k: constant.BinaryOp(a.k, e.Op, b.k)}
	}
	isNil := func(v TV) bool { return v.k == nil && v.v == nil }
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		b = TV{v: x.zero(a.t), t: a.t}
	}
	if a.k != nil {
		a = c.conv(a, b.t)
	}
	if b.k != nil {
		if e.Op == token.SHL || e.Op == token.SHR {
			b = c.conv(b, types.Typ[types.Uint64])
		} else {
			b = c.conv(b, a.t)
		}
	}
	// concrete value against interface
	if iv, ok := a.v.(*IfaceV); ok {
		if _, ok := b.v.(*IfaceV); !ok {
			b = TV{v: &IfaceV{dyn: b.t, val: b.v}, t: a.t}
		}
		_ = iv
	}
	if s, ok := a.v.(*Term); ok && s.sort.bits() > 0 {
		if u, ok := b.v.(*Term); ok && e.Op != token.SHL && e.Op != token.SHR && s.sort != u.sort {
			// integers of different width: compare as 64 bit
			a = TV{v: tb.Ext(s, 64, isSigned(a.t)), t: tInt}
			b = TV{v: tb.Ext(u, 64, isSigned(b.t)), t: tInt}
		}
	}
	r := x.binopV(c.st, e.Op, a.v, b.v, a.t, b.t, token.NoPos)
	t := a.t
	switch e.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		t = tBool
	}
	return TV{v: r, t: t}
}

func (c *EvCtx) slice(e ast.Expr) *SliceV {
	tv := c.ev(e)
	s, ok := tv.v.(*SliceV)
	if !ok {
		panic(specErr("not a slice: %s", exprStr(e)))
	}
	return s
}

func (c *EvCtx) contOf(s *SliceV) *Content {
	if s.obj == nil {
		sort := mustSort(c.x, s.elem)
		return &Content{kind: 3, sort: sort}
	}
	return c.x.content(c.st, s.obj)
}

// range of elements: either content+offset or string
type rng struct {
	c   *Content
	str *Term
	off *Term
}

func (c *EvCtx) rng(e ast.Expr, off *Term) rng {
	tv := c.ev(e)
	if tv.k != nil {
		tv = c.conv(tv, tString)
	}
	switch v := tv.v.(type) {
	case *SliceV:
		// an old(...) slice carries its content with it
		cc := c
		if id, ok := unparen(e).(*ast.CallExpr); ok {
			if f, ok := id.Fun.(*ast.Ident); ok && f.Name == "old" {
				n := *c
				n.st = c.old
				cc = &n
			}
		}
		return rng{c: cc.contOf(v), off: c.x.tb.Add(v.off, off)}
	case *Term:
		return rng{str: v, off: off}
	}
	panic(specErr("no elements: %s", exprStr(e)))
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (x *Exec) rsel(r rng, i *Term) *Term {
	if r.str != nil {
		return x.sat(r.str, x.tb.Add(r.off, i))
	}
	return x.sel(r.c, x.tb.Add(r.off, i))
}

// eqRange: n elements of a are those of b
func (c *EvCtx) eqRange(a, b rng, n *Term, flag bool) *Term {
	x, tb := c.x, c.x.tb
	if a.c == b.c && a.str == b.str && a.off == b.off {
		return tb.True
	}
	same := func(k *Term) *Term {
		va, vb := x.rsel(a, k), x.rsel(b, k)
		if flag {
			return x.flagEq(vb, va)
		}
		return tb.Eq(va, vb)
	}
	if n.isC() && n.sval() <= 8 {
		r := tb.True
		for k := int64(0); k < n.sval(); k++ {
			r = tb.And(r, same(tb.I(k)))
		}
		return r
	}
	switch {
	case c.pol > 0:
		k := x.skolem(c.st, "k")
		return tb.Imp(tb.And(tb.Sle(tb.I(0), k), tb.Slt(k, n)), same(k))
	case c.pol < 0:
		if a.c != nil && a.c.kind == 0 {
			return x.agree(a.c, b.c, b.str, a.off, tb.Add(a.off, n), tb.Sub(b.off, a.off), flag)
		}
		if b.c != nil && b.c.kind == 0 && !flag {
			return x.agree(b.c, a.c, a.str, b.off, tb.Add(b.off, n), tb.Sub(a.off, b.off), flag)
		}
		return c.x.universal(c.st, tb.I(0), n, same)
	}
	panic(specErr("range equality under mixed polarity"))
}

func (x *Exec) skolem(st *State, hint string) *Term {
	k := x.tb.Fresh("sk_"+hint, b64)
	x.skolems = append(x.skolems, k)
	for _, u := range st.univ {
		x.instUniv(st, u, k)
	}
	return k
}

// keySkolem is an arbitrary key of a map
func (x *Exec) keySkolem(st *State, t types.Type) (*Term, Value) {
	v := x.freshValue(st, t, "sk_key")
	kt := x.keyTerm(st, v)
	x.instKey(st, kt)
	return kt, v
}

func (x *Exec) instUniv(st *State, u *Universal, k *Term) {
	if u.sort != k.sort {
		return
	}
	key := [2]int{u.id, k.id}
	if st.insted[key] {
		return
	}
	st.insted[key] = true
	x.add(st, u.inst(x, k))
}

// universal returns an atom meaning "body(k) for all lo <= k < hi"
func (x *Exec) universal(st *State, lo, hi *Term, body func(k *Term) *Term) *Term {
	tb := x.tb
	atom := tb.Fresh("all", Bool)
	x.nuniv++
	u := &Universal{id: x.nuniv, sort: b64, inst: func(x *Exec, k *Term) *Term {
		return tb.Imp(tb.And(atom, tb.Sle(lo, k), tb.Slt(k, hi)), body(k))
	}}
	st.univ = append(st.univ, u)
	return atom
}

func (x *Exec) instKey(st *State, k *Term) {
	for _, u := range st.univ {
		x.instUniv(st, u, k)
	}
}

func (c *EvCtx) callE(e *ast.CallExpr) TV {
	x, tb := c.x, c.x.tb
	id, ok := e.Fun.(*ast.Ident)
	if !ok {
		if _, isT := e.Fun.(*ast.ArrayType); isT && len(e.Args) == 1 {
			panic(specErr("conversion %s", exprStr(e)))
		}
		panic(specErr("call %s", exprStr(e)))
	}
	B := func(t *Term) TV { return TV{v: t, t: tBool} }
	I := func(t *Term) TV { return TV{v: t, t: tInt} }
	switch id.Name {
	case "imp":
		a := c.with(-c.pol).boolE(e.Args[0])
		if a.isFalse() {
			return B(tb.True)
		}
		return B(tb.Imp(a, c.boolE(e.Args[1])))
	case "iff":
		c0 := c.with(0)
		return B(tb.Eq(c0.boolE(e.Args[0]), c0.boolE(e.Args[1])))
	case "ite":
		q := c.with(0).boolE(e.Args[0])
		if q.isTrue() {
			return c.ev(e.Args[1])
		}
		if q.isFalse() {
			return c.ev(e.Args[2])
		}
		a, b := c.ev(e.Args[1]), c.ev(e.Args[2])
		if a.k != nil && b.k != nil {
			a, b = c.conv(a, tInt), c.conv(b, tInt)
		}
		if a.k != nil {
			a = c.conv(a, b.t)
		}
		if b.k != nil {
			b = c.conv(b, a.t)
		}
		return TV{v: x.iteV(c.st, q, a.v, b.v), t: a.t}
	case "old":
		n := *c
		if n.cur == nil {
			n.cur = c.st
		}
		n.st = c.old
		if c.olds != nil {
			n.names = map[string]TV{}
			for k, v := range c.names {
				n.names[k] = v
			}
			for k, v := range c.olds {
				n.names[k] = v
			}
		}
		return n.ev(e.Args[0])
	case "len", "cap":
		tv := c.ev(e.Args[0])
		if tv.k != nil {
			return TV{k: constant.MakeInt64(int64(len(constant.StringVal(tv.k))))}
		}
		switch v := tv.v.(type) {
		case *SliceV:
			if id.Name == "cap" {
				return I(v.cap)
			}
			return I(v.len)
		case *Term:
			return I(x.slen(v))
		case *MapV:
			return I(x.mapLen(c.st, v))
		}
		panic(specErr("len"))
	case "forall":
		v := e.Args[0].(*ast.Ident).Name
		lo, hi := c.with(0).intE(e.Args[1]), c.with(0).intE(e.Args[2])
		bind := func(k *Term, pol int) *EvCtx {
			n := *c
			n.pol = pol
			n.names = map[string]TV{}
			for a, b := range c.names {
				n.names[a] = b
			}
			n.names[v] = I(k)
			return &n
		}
		if c.pol > 0 {
			k := x.skolem(c.st, v)
			return B(tb.Imp(tb.And(tb.Sle(lo, k), tb.Slt(k, hi)), bind(k, 1).boolE(e.Args[3])))
		}
		if c.pol < 0 {
			return B(x.universal(c.st, lo, hi, func(k *Term) *Term { return bind(k, -1).boolE(e.Args[3]) }))
		}
		panic(specErr("forall under mixed polarity"))
	case "allkeys": // allkeys(k, m, body): body holds for every key of m
		v := e.Args[0].(*ast.Ident).Name
		mv := c.with(0).ev(e.Args[1])
		m := mv.v.(*MapV)
		if m.obj == nil {
			return B(tb.True)
		}
		mc := x.mapc(c.st, m.obj)
		st := c.st
		body := func(kv Value, pol int) *Term {
			n := *c
			n.pol = pol
			n.names = map[string]TV{}
			for a, b := range c.names {
				n.names[a] = b
			}
			n.names[v] = TV{v: kv, t: m.typ.Key()}
			p, val := x.lookup(st, mc, kv)
			n.names[v+"_val"] = TV{v: val, t: m.typ.Elem()}
			return tb.Imp(tb.And(tb.Not(m.nil_), p), n.boolE(e.Args[2]))
		}
		if c.pol > 0 {
			_, kv := x.keySkolem(c.st, m.typ.Key())
			return B(body(kv, 1))
		}
		if c.pol < 0 {
			atom := tb.Fresh("all", Bool)
			x.nuniv++
			zs := x.keyTerm(c.st, x.freshValue(c.st, m.typ.Key(), "ks")).sort
			u := &Universal{id: x.nuniv, sort: zs, inst: func(x *Exec, k *Term) *Term {
				kv := Value(x.keyVals[k.id])
				if x.keyVals[k.id] == nil {
					kv = x.fromTerm(st, k, m.typ.Key())
				}
				return tb.Imp(atom, body(kv, -1))
			}}
			c.st.univ = append(c.st.univ, u)
			return B(atom)
		}
		panic(specErr("allkeys under mixed polarity"))
	case "eqrange", "eqflag":
		c0 := c
		ai, bi, n := c0.with(0).intE(e.Args[1]), c0.with(0).intE(e.Args[3]), c0.with(0).intE(e.Args[4])
		a, b := c.rng(e.Args[0], ai), c.rng(e.Args[2], bi)
		return B(c.eqRange(a, b, n, id.Name == "eqflag"))
	case "prefix", "prefixflag": // b is a prefix of a
		a, b := c.rng(e.Args[0], tb.I(0)), c.rng(e.Args[1], tb.I(0))
		sb := c.slice(e.Args[1])
		sa := c.slice(e.Args[0])
		return B(tb.And(tb.Sle(sb.len, sa.len), c.eqRange(a, b, sb.len, id.Name == "prefixflag")))
	case "str": // bytes of a slice as a string
		s := c.slice(e.Args[0])
		if len(e.Args) == 3 {
			o, n := c.intE(e.Args[1]), c.intE(e.Args[2])
			s = &SliceV{obj: s.obj, off: tb.Add(s.off, o), len: n, cap: s.cap, nil_: s.nil_, elem: s.elem}
		}
		return TV{v: x.mkstr(c.st, s), t: tString}
	case "has":
		m := c.ev(e.Args[0]).v.(*MapV)
		if m.obj == nil {
			return B(tb.False)
		}
		k := c.conv(c.ev(e.Args[1]), m.typ.Key())
		p, _ := x.lookup(c.st, x.mapc(c.st, m.obj), k.v)
		return B(tb.And(tb.Not(m.nil_), p))
	case "is": // dynamic type
		iv := c.ev(e.Args[0]).v.(*IfaceV)
		t := c.typ(e.Args[1])
		return B(x.hasType(c.st, iv, t))
	case "as":
		iv := c.ev(e.Args[0]).v.(*IfaceV)
		t := c.typ(e.Args[1])
		return TV{v: x.unbox(c.st, iv, t), t: t}
	case "box":
		tv := c.ev(e.Args[0])
		return TV{v: &IfaceV{dyn: tv.t, val: tv.v}, t: types.NewInterfaceType(nil, nil)}
	case "runtimeerr":
		iv := c.ev(e.Args[0]).v.(*IfaceV)
		return B(x.implements(c.st, iv, x.namedType("runtime.Error")))
	case "bits":
		tv := c.ev(e.Args[0])
		t := types.Typ[types.Uint64]
		if tv.v.(*Term).sort.bits() == 32 {
			t = types.Typ[types.Uint32]
		}
		return TV{v: tv.v, t: t}
	case "fresh":
		s := c.ev(e.Args[0])
		return B(tb.B(x.isFresh(c.st, s.v)))
	case "index": // position of the element a pointer into a slice's array designates
		switch v := c.ev(e.Args[0]).v.(type) {
		case *PtrV:
			if v.idx == nil {
				panic(specErr("index of a pointer that is not to an element"))
			}
			return I(v.idx)
		case *Term:
			if v.op == "app" && v.name == "rvindex" {
				return I(v.args[1])
			}
		}
		return I(tb.Fresh("noindex", b64))
	case "called":
		return B(tb.B(c.calls().last[constant.StringVal(c.ev(e.Args[0]).k)] != nil))
	case "prevcalled":
		l := c.calls().last[constant.StringVal(c.ev(e.Args[0]).k)]
		return B(tb.B(l != nil && l.prev != nil))
	case "result", "argument", "prevresult", "prevargument": // of the last (last but one) call of a function on this path
		name := constant.StringVal(c.ev(e.Args[0]).k)
		i, _ := constant.Int64Val(c.ev(e.Args[1]).k)
		l := c.calls().last[name]
		op := id.Name
		if strings.HasPrefix(op, "prev") {
			op = op[4:]
			if l != nil {
				l = l.prev
			}
		}
		ts := x.callTypes[name]
		if l == nil || op == "result" && l.out.panicked { // no such call: nothing is known
			l := ts.args
			if op == "result" {
				l = ts.res
			}
			if int(i) >= len(l) {
				panic(specErr("no call of %s", name))
			}
			return TV{v: x.freshValue(c.st, l[i], "nocall"), t: l[i]}
		}
		if op == "argument" {
			return TV{v: l.args[i], t: ts.args[i]}
		}
		if tv, ok := l.out.val.(TupleV); ok {
			return TV{v: tv[i], t: ts.res[i]}
		}
		return TV{v: l.out.val, t: ts.res[0]}
	case "typ": // dynamic type of a reflect.Value
		rv := c.ev(e.Args[0]).v.(*Term)
		return TV{v: &IfaceV{t: tb.App("rvtype", SIf, rv)}, t: x.namedType("reflect.Type")}
	case "field": // (reflect.Type).Field
		t := x.namedType("reflect.StructField")
		s, _ := x.scalarSort(t)
		return TV{v: tb.App("typfield", s, x.ifTerm(c.st, c.ev(e.Args[0]).v.(*IfaceV)), c.intE(e.Args[1])), t: t}
	case "tkind": // kind of a reflect.Type
		return TV{v: x.typKind(x.ifTerm(c.st, c.ev(e.Args[0]).v.(*IfaceV))), t: x.namedType("reflect.Kind")}
	case "implements":
		return B(x.implements(c.st, c.ev(e.Args[0]).v.(*IfaceV), c.typ(e.Args[1])))
	case "rvlen":
		return I(x.rvLen(c.ev(e.Args[0]).v.(*Term), x.rvVer(c.st)))
	case "numfield":
		return I(tb.App("typnumfield", b64, x.ifTerm(c.st, c.ev(e.Args[0]).v.(*IfaceV))))
	case "tagget":
		return TV{v: tb.App("tagget", SStr, c.ev(e.Args[0]).v.(*Term), c.conv(c.ev(e.Args[1]), tString).v.(*Term)), t: tString}
	case "kind":
		return TV{v: x.rvKind(c.ev(e.Args[0]).v.(*Term)), t: x.namedType("reflect.Kind")}
	case "ver":
		return TV{v: x.rvVer(c.st), t: tInt}
	case "ncalls", "grown": // number of calls of a function so far; bytes it appended to its argument
		return I(x.ghostCount(c.calls(), id.Name[:1]+":"+constant.StringVal(c.ev(e.Args[0]).k)))
	case "ghost":
		return I(x.ghostVal(c.st, e.Args[0].(*ast.Ident).Name))
	case "uf", "ufb", "ufs", "uf8": // uninterpreted function
		name := constant.StringVal(c.ev(e.Args[0]).k)
		var ts []*Term
		for _, a := range e.Args[1:] {
			tv := c.ev(a)
			if tv.k != nil {
				tv = c.conv(tv, tInt)
			}
			ts = append(ts, x.flatten(c.st, tv.v)...)
		}
		switch id.Name {
		case "ufb":
			return B(tb.App("uf_"+name, Bool, ts...))
		case "ufs":
			return TV{v: tb.App("uf_"+name, SStr, ts...), t: tString}
		case "uf8":
			return TV{v: tb.App("uf_"+name, BV(8), ts...), t: tByte}
		}
		return I(tb.App("uf_"+name, b64, ts...))
	}
	if d, ok := specDefs[id.Name]; ok {
		s := c.slice(e.Args[0])
		cont := c.contOf(s)
		if call, ok := unparen(e.Args[0]).(*ast.CallExpr); ok {
			if f, ok := call.Fun.(*ast.Ident); ok && f.Name == "old" {
				n := *c
				n.st = c.old
				cont = n.contOf(s)
			}
		}
		p := tb.Add(s.off, c.intE(e.Args[1]))
		args := []*Term{p}
		for _, a := range e.Args[2:] {
			tv := c.ev(a)
			if tv.k != nil {
				tv = c.conv(tv, tInt)
			}
			args = append(args, x.flatten(c.st, tv.v)...)
		}
		r := x.spec(id.Name, cont, args...)
		if d.shifts {
			r = tb.Sub(r, s.off)
		}
		switch d.sort {
		case Bool:
			return B(r)
		case SStr:
			return TV{v: r, t: tString}
		}
		return TV{v: r, t: types.Typ[types.Uint64]}
	}
	if m, ok := x.con.macros[id.Name]; ok {
		if len(m.params) != len(e.Args) {
			panic(specErr("arguments of %s", id.Name))
		}
		n := *c
		n.names = map[string]TV{}
		for k, v := range c.names {
			n.names[k] = v
		}
		for i, p := range m.params {
			n.names[p] = c.ev(e.Args[i])
		}
		return n.ev(m.body)
	}
	// conversion
	if t := c.typ(e.Fun); t != nil && len(e.Args) == 1 {
		tv := c.ev(e.Args[0])
		if tv.k != nil {
			return c.conv(tv, t)
		}
		return TV{v: x.convertV(c.st, tv.v, tv.t, t), t: t}
	}
	panic(specErr("call %s", exprStr(e)))
}

// calls is the state whose calls result, argument, called, ncalls and grown speak about, also inside old
func (c *EvCtx) calls() *State {
	if c.cur != nil {
		return c.cur
	}
	return c.st
}

// evalClause turns a clause into a term; ok=false if it cannot be stated here
func (c *EvCtx) clause(cl Clause) *Term { return c.boolE(cl.Expr) }
