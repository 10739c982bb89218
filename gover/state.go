package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---- values ----

type Value interface{}

type SliceV struct {
	obj           *Obj // nil only for the literal nil slice
	off, len, cap *Term
	nil_          *Term
	elem          types.Type
}

type PtrV struct {
	obj  *Obj
	path []int // field selectors inside a cell
	idx  *Term // element index, for pointers into arrays
	nil_ *Term
	typ  types.Type // pointee
}

type StructV struct {
	f   []Value
	typ *types.Struct
}

type IfaceV struct {
	t   *Term // opaque identity; nil until needed when dyn is known
	dyn types.Type
	val Value
}

type MapV struct {
	obj  *Obj
	nil_ *Term
	typ  *types.Map
}

type FuncV struct {
	fn   interface{} // *ssa.Function or *ssa.Builtin
	bind []Value
}

type TupleV []Value

type IterV struct {
	obj *Obj // cell with the position
	m   *MapV
	mc  *MapContent
	n   *Term
}

// ---- memory ----

type ObjKind int

const (
	KCell ObjKind = iota
	KArr          // elements of a scalar sort
	KVec          // concrete small array of arbitrary values
	KMap
)

type Obj struct {
	id       int
	kind     ObjKind
	typ      types.Type // cell type, element type, or map type
	init     interface{}
	entry    bool // existed when the function under verification was entered
	hint     string
	ro       bool
	ref      *Term
	fam      int
	fresh    bool // allocated by the function under verification
	appendOf *Obj
}

type Content struct {
	kind   int // 0 opaque 1 store 2 copy 3 zero
	sort   Sort
	id     *Term
	base   *Content
	idx    *Term
	val    *Term
	at, n  *Term
	src    *Content
	soff   *Term
	str    *Term
	rest   *Content
	hint   string
	tagset bool // a store that only sets a track bit
}

type MapContent struct {
	kind     int // 0 opaque 1 store 2 delete 3 empty
	id       *Term
	base     *MapContent
	key      Value
	val      Value
	typ      *types.Map
	len      *Term
	vals     map[int]Value // opaque: value by key term id
	nestable bool
}

type Universal struct {
	id    int
	sort  Sort // of the bound variable
	guard string
	inst  func(x *Exec, v *Term) *Term
	done  map[int]bool
	typ   types.Type
}

type State struct {
	pc          []*Term
	pcset       map[int]bool
	heap        map[int]interface{}
	objs        map[int]*Obj
	univ        []*Universal
	insted      map[[2]int]bool
	fam         map[int]int
	rvver       *Term // version of everything reachable through reflect.Value
	ghost       map[string]*Term
	panicV      *IfaceV
	trace       []string
	written     map[int]bool
	depth       int
	dead        bool
	exposed     map[int]bool
	exposedElem map[string]*PtrV
	events      []rvEvent
	rvstored    []*Term
	last        map[string]*lastCall // replaced, never changed
}

func (st *State) clone() *State {
	n := *st
	n.pc = append([]*Term{}, st.pc...)
	n.pcset = make(map[int]bool, len(st.pcset))
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.heap = make(map[int]interface{}, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.objs = make(map[int]*Obj, len(st.objs))
	for k, v := range st.objs {
		n.objs[k] = v
	}
	n.univ = append([]*Universal{}, st.univ...)
	n.insted = make(map[[2]int]bool, len(st.insted))
	for k := range st.insted {
		n.insted[k] = true
	}
	n.fam = make(map[int]int, len(st.fam))
	for k, v := range st.fam {
		n.fam[k] = v
	}
	n.ghost = make(map[string]*Term, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.trace = append([]string{}, st.trace...)
	n.events = append([]rvEvent{}, st.events...)
	n.exposed = make(map[int]bool, len(st.exposed))
	for k := range st.exposed {
		n.exposed[k] = true
	}
	n.exposedElem = make(map[string]*PtrV, len(st.exposedElem))
	for k, v := range st.exposedElem {
		n.exposedElem[k] = v
	}
	n.written = make(map[int]bool, len(st.written))
	for k := range st.written {
		n.written[k] = true
	}
	return &n
}

func (st *State) family(o *Obj) int {
	f := o.fam
	for {
		g, ok := st.fam[f]
		if !ok || g == f {
			return f
		}
		f = g
	}
}

func (st *State) join(a, b *Obj) {
	if a == nil || b == nil {
		return
	}
	fa, fb := st.family(a), st.family(b)
	if fa != fb {
		st.fam[fa] = fb
	}
}

// ---- type shapes ----

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

func isReflectType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Type"
}

func (x *Exec) opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil || p == x.pkg.Pkg {
		return false
	}
	// plain records of scalars are represented field by field
	u := n.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Type().Underlying().(type) {
		case *types.Basic, *types.Interface:
			if !u.Field(i).Exported() {
				return true
			}
		default:
			return true
		}
	}
	return u.NumFields() == 0
}

// scalarSort is the sort of values of t that are represented by one term
func (x *Exec) scalarSort(t types.Type) (Sort, bool) {
	if isReflectValue(t) {
		return SRV, true
	}
	if x.opaqueStruct(t) {
		return Sort("S_" + sanitize(types.TypeString(t, nil))), true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return Bool, true
		case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
			return b64, true
		case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
			return BV(32), true
		case types.Int16, types.Uint16:
			return BV(16), true
		case types.Int8, types.Uint8:
			return BV(8), true
		case types.String, types.UntypedString:
			return SStr, true
		case types.UnsafePointer:
			return SRef, true
		case types.Complex128, types.Complex64:
			return Sort("Cplx"), true
		}
	case *types.Interface:
		return SIf, true
	}
	return "", false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// fresh symbolic value of type t
func (x *Exec) freshValue(st *State, t types.Type, hint string) Value {
	tb := x.tb
	if s, ok := x.scalarSort(t); ok {
		v := tb.Fresh(hint, s)
		if s == SIf {
			return &IfaceV{t: v}
		}
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		o := x.newObj(KArr, u.Elem(), hint)
		if _, ok := x.scalarSort(u.Elem()); !ok {
			o.kind = KVec
		}
		l, c, n := tb.Fresh(hint+".len", b64), tb.Fresh(hint+".cap", b64), tb.Fresh(hint+".nil", Bool)
		x.boundLen(l, c, n)
		x.sliceEnd[o.id] = l
		return &SliceV{obj: o, off: tb.I(0), len: l, cap: c, nil_: n, elem: u.Elem()}
	case *types.Pointer:
		o := x.newObj(x.cellKind(u.Elem()), u.Elem(), hint)
		return &PtrV{obj: o, nil_: tb.Fresh(hint+".nil", Bool), typ: u.Elem()}
	case *types.Struct:
		sv := &StructV{typ: u}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.freshValue(st, u.Field(i).Type(), hint+"."+u.Field(i).Name()))
		}
		return sv
	case *types.Map:
		o := x.newObj(KMap, u, hint)
		return &MapV{obj: o, nil_: tb.Fresh(hint+".nil", Bool), typ: u}
	case *types.Signature:
		return tb.Fresh(hint, SFn)
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.freshValue(st, u.At(i).Type(), fmt.Sprintf("%s.%d", hint, i)))
		}
		return tv
	case *types.Array:
		return tb.Fresh(hint, Sort("A_"+sanitize(types.TypeString(t, nil))))
	}
	panic(unsupported("fresh value of type " + t.String()))
}

const maxLen = 1 << 47

func (x *Exec) boundLen(l, c, nilT *Term) {
	tb := x.tb
	// facts about the length hold wherever the term is used
	tb.Axiom(l, tb.And(tb.Sle(tb.I(0), l), tb.Sle(l, c)))
	tb.Axiom(c, tb.And(tb.Sle(tb.I(0), l), tb.Sle(l, c), tb.Sle(c, tb.I(maxLen))))
	if nilT != nil && !nilT.isC() {
		tb.Axiom(nilT, tb.Imp(nilT, tb.And(tb.Eq(l, tb.I(0)), tb.Eq(c, tb.I(0)))))
	}
}

func (x *Exec) cellKind(t types.Type) ObjKind {
	if a, ok := t.Underlying().(*types.Array); ok {
		if _, ok := x.scalarSort(a.Elem()); ok {
			return KArr
		}
		return KVec
	}
	return KCell
}

func (x *Exec) newObj(k ObjKind, t types.Type, hint string) *Obj {
	x.nobj++
	o := &Obj{id: x.nobj, kind: k, typ: t, hint: hint, fam: x.nobj}
	if a, ok := t.Underlying().(*types.Array); ok && (k == KArr || k == KVec) {
		o.typ = a.Elem()
	}
	return o
}

func (x *Exec) objRef(o *Obj) *Term {
	if o.ref == nil {
		o.ref = x.tb.Const("ref", fmt.Sprintf("obj%d", o.id), SRef)
	}
	return o.ref
}

func (x *Exec) nilRef() *Term { return x.tb.Const("ref", "nil", SRef) }

func (x *Exec) zero(t types.Type) Value {
	tb := x.tb
	if isReflectValue(t) {
		return tb.Const("rv", "invalid", SRV)
	}
	if s, ok := x.scalarSort(t); ok {
		switch {
		case s == Bool:
			return tb.False
		case s.bits() > 0:
			return tb.C(0, s.bits())
		case s == SStr:
			return x.strConst("")
		case s == SIf:
			return &IfaceV{t: x.inil()}
		case s == SRef:
			return x.nilRef()
		default:
			return tb.Const("zero_"+string(s), "z", s)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{off: tb.I(0), len: tb.I(0), cap: tb.I(0), nil_: tb.True, elem: u.Elem()}
	case *types.Pointer:
		return &PtrV{nil_: tb.True, typ: u.Elem()}
	case *types.Map:
		return &MapV{nil_: tb.True, typ: u}
	case *types.Struct:
		sv := &StructV{typ: u}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Signature:
		return &FuncV{}
	}
	panic(unsupported("zero of " + t.String()))
}

func (x *Exec) inil() *Term { return x.tb.Const("ifc", "nil", SIf) }

func (x *Exec) strConst(s string) *Term {
	tb := x.tb
	if t, ok := tb.strs[s]; ok {
		return t
	}
	t := tb.Const("str", fmt.Sprintf("s%d_%s", len(tb.strs), s), SStr)
	tb.strs[s] = t
	ax := []*Term{tb.Eq(x.slen(t), tb.I(int64(len(s))))}
	for i := 0; i < len(s) && i < 64; i++ {
		ax = append(ax, tb.Eq(tb.App("sat", BV(8), t, tb.I(int64(i))), tb.C(uint64(s[i]), 8)))
	}
	tb.Axiom(t, tb.And(ax...))
	return t
}

func (x *Exec) slen(s *Term) *Term {
	for k, v := range x.tb.strs {
		if v == s {
			return x.slenT(s, int64(len(k)))
		}
	}
	return x.slenT(s, -1)
}

func (x *Exec) slenT(s *Term, known int64) *Term {
	tb := x.tb
	if s.op == "app" && s.name == "mkstr" {
		return s.args[2]
	}
	if s.op == "ite" {
		return tb.Ite(s.args[0], x.slen(s.args[1]), x.slen(s.args[2]))
	}
	l := tb.App("slen", b64, s)
	if len(tb.axioms[l.id]) == 0 {
		tb.Axiom(l, tb.And(tb.Sle(tb.I(0), l), tb.Sle(l, tb.I(maxLen))))
	}
	if known >= 0 {
		return tb.I(known)
	}
	return l
}

func (x *Exec) sat(s, i *Term) *Term {
	if s.op == "app" && s.name == "mkstr" {
		if c := x.contById[s.args[0].id]; c != nil {
			return x.sel(c, x.tb.Add(s.args[1], i))
		}
	}
	return x.tb.App("sat", BV(8), s, i)
}

// ---- contents ----

func (x *Exec) cid(c *Content) *Term {
	if c.id == nil {
		h := c.hint
		if h == "" {
			h = "c"
		}
		c.id = x.tb.Fresh(h, SCont)
		x.contById[c.id.id] = c
	}
	return c.id
}

func (x *Exec) opaqueContent(s Sort, hint string) *Content {
	c := &Content{kind: 0, sort: s, hint: hint}
	x.cid(c)
	return c
}

func (x *Exec) sortZero(s Sort) *Term {
	switch {
	case s == Bool:
		return x.tb.False
	case s.bits() > 0:
		return x.tb.C(0, s.bits())
	case s == SStr:
		return x.strConst("")
	case s == SIf:
		return x.inil()
	case s == SRV:
		return x.tb.Const("rv", "invalid", SRV)
	}
	return x.tb.Const("zero_"+string(s), "z", s)
}

// constDiff returns a-b if it is a syntactic constant
func (x *Exec) constDiff(a, b *Term) (int64, bool) {
	d := x.tb.Sub(a, b)
	if d.isC() {
		return d.sval(), true
	}
	return 0, false
}

func (x *Exec) sel(c *Content, i *Term) *Term {
	tb := x.tb
	switch c.kind {
	case 0:
		t := tb.App("at_"+string(c.sort), c.sort, c.id, i)
		x.noteAt(c, i, t)
		return t
	case 1:
		if d, ok := x.constDiff(i, c.idx); ok {
			if d == 0 {
				return c.val
			}
			return x.sel(c.base, i)
		}
		return tb.Ite(tb.Eq(i, c.idx), c.val, x.sel(c.base, i))
	case 2:
		rest := c.rest
		if rest == nil {
			rest = c.base
		}
		end := tb.Add(c.at, c.n)
		d1, ok1 := x.constDiff(i, c.at)
		d2, ok2 := x.constDiff(i, end)
		if c.n.isC() && c.n.val == 0 && !ok1 {
			if rest == c.base {
				return x.sel(c.base, i)
			}
			return tb.Ite(tb.Slt(i, c.at), x.sel(c.base, i), x.sel(rest, i))
		}
		if ok1 && d1 < 0 {
			return x.sel(c.base, i)
		}
		if ok2 && d2 >= 0 {
			return x.sel(rest, i)
		}
		in := func() *Term {
			off := tb.Sub(i, c.at)
			if c.str != nil {
				return x.sat(c.str, tb.Add(c.soff, off))
			}
			return x.sel(c.src, tb.Add(c.soff, off))
		}
		if ok1 && ok2 { // at <= i < end
			return in()
		}
		if ok1 { // i >= at
			return tb.Ite(tb.Slt(i, end), in(), x.sel(rest, i))
		}
		if ok2 { // i < end
			return tb.Ite(tb.Slt(i, c.at), x.sel(c.base, i), in())
		}
		if rest == c.base {
			return tb.Ite(tb.And(tb.Sle(c.at, i), tb.Slt(i, end)), in(), x.sel(c.base, i))
		}
		return tb.Ite(tb.Slt(i, c.at), x.sel(c.base, i), tb.Ite(tb.Slt(i, end), in(), x.sel(rest, i)))
	case 3:
		return x.sortZero(c.sort)
	}
	panic("sel")
}

// agreement: while atom holds, element i of the content (lo <= i < hi) is element i+shift of src (or of the string str)
type agreement struct {
	src    *Content
	str    *Term
	lo, hi *Term
	shift  *Term
	atom   *Term
	flag   bool // only up to track bits, which may have been added
}

// noteAt attaches the facts known about an element of an opaque content
func (x *Exec) noteAt(c *Content, i, t *Term) {
	k := c.id.id
	if x.atTerms[k] == nil {
		x.atTerms[k] = map[int]bool{}
	}
	if x.atTerms[k][i.id] {
		return
	}
	x.atTerms[k][i.id] = true
	x.atList[k] = append(x.atList[k], [2]*Term{i, t})
	for _, a := range x.parents[k] {
		x.agreeAxiom(a, i, t)
	}
}

func (x *Exec) agreeAxiom(a agreement, i, t *Term) {
	tb := x.tb
	if d, ok := x.constDiff(i, a.lo); ok && d < 0 {
		return
	}
	if d, ok := x.constDiff(i, a.hi); ok && d >= 0 {
		return
	}
	j := tb.Add(i, a.shift)
	var v *Term
	if a.str != nil {
		v = x.sat(a.str, j)
	} else {
		v = x.sel(a.src, j)
	}
	e := tb.Eq(t, v)
	if a.flag {
		e = x.flagEq(v, t)
	}
	tb.Axiom(t, tb.Imp(tb.And(a.atom, tb.Sle(a.lo, i), tb.Slt(i, a.hi)), e))
}

// flagEq: now is was, perhaps with the track bit added
func (x *Exec) flagEq(was, now *Term) *Term {
	tb := x.tb
	return tb.Or(tb.Eq(now, was), tb.Eq(now, tb.BOr(was, tb.C(0x80, 8))))
}

// agree returns the atom "elements lo <= i < hi of a are elements i+shift of src/str", usable as an assumption
func (x *Exec) agree(a *Content, src *Content, str, lo, hi, shift *Term, flag bool) *Term {
	tb := x.tb
	if a == src && shift.isC() && shift.val == 0 {
		return tb.True
	}
	nm := "agree"
	if flag {
		nm = "agreeflag"
	}
	var atom *Term
	if str != nil {
		atom = tb.App(nm+"s", Bool, x.cid(a), str, lo, hi, shift)
	} else {
		atom = tb.App(nm, Bool, x.cid(a), x.cid(src), lo, hi, shift)
	}
	k := x.cid(a).id
	for _, p := range x.parents[k] {
		if p.atom == atom {
			return atom
		}
	}
	p := agreement{src, str, lo, hi, shift, atom, flag}
	x.parents[k] = append(x.parents[k], p)
	if a.kind != 0 {
		// facts about a structured content: state them for the elements read so far
		return atom
	}
	for _, it := range append([][2]*Term{}, x.atList[k]...) {
		x.agreeAxiom(p, it[0], it[1])
	}
	x.specNewParent(a, p)
	return atom
}

// structural parent: c agrees with its base except where it was written
func (c *Content) String() string {
	switch c.kind {
	case 0:
		return c.id.name
	case 1:
		return fmt.Sprintf("store(%v)", c.base)
	case 2:
		return fmt.Sprintf("copy(%v<-%v)", c.base, c.src)
	}
	return "zero"
}

// ---- heap access ----

func (x *Exec) content(st *State, o *Obj) *Content {
	if v, ok := st.heap[o.id]; ok {
		return v.(*Content)
	}
	if o.init == nil {
		s, ok := x.scalarSort(o.typ)
		if !ok {
			panic(unsupported("array of " + o.typ.String()))
		}
		o.init = x.opaqueContent(s, o.hint)
	}
	return o.init.(*Content)
}

func (x *Exec) vec(st *State, o *Obj) []Value {
	if v, ok := st.heap[o.id]; ok {
		return v.([]Value)
	}
	if o.init == nil {
		panic(unsupported("slice of " + o.typ.String()))
	}
	return o.init.([]Value)
}

func (x *Exec) cell(st *State, o *Obj) Value {
	if v, ok := st.heap[o.id]; ok {
		return v
	}
	if o.init == nil {
		o.init = x.freshValue(st, o.typ, o.hint)
	}
	return o.init
}

func (x *Exec) setHeap(st *State, o *Obj, v interface{}) {
	st.heap[o.id] = v
	st.objs[o.id] = o
	st.written[o.id] = true
}

func getPath(v Value, path []int) Value {
	for _, p := range path {
		v = v.(*StructV).f[p]
	}
	return v
}

func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	s := v.(*StructV)
	n := &StructV{typ: s.typ, f: append([]Value{}, s.f...)}
	n.f[path[0]] = setPath(s.f[path[0]], path[1:], nv)
	return n
}

func (x *Exec) load(st *State, p *PtrV) Value {
	if p.obj == nil {
		panic(unsupported("load through unknown pointer"))
	}
	switch p.obj.kind {
	case KCell:
		return getPath(x.cell(st, p.obj), p.path)
	case KArr:
		if p.idx == nil {
			return &ArrV{p.obj, x.content(st, p.obj)}
		}
		return x.fromTerm(st, x.sel(x.content(st, p.obj), p.idx), p.obj.typ)
	case KVec:
		if p.idx == nil {
			return x.vec(st, p.obj)
		}
		if !p.idx.isC() {
			panic(unsupported("symbolic index into array of " + p.obj.typ.String()))
		}
		return getPath(x.vec(st, p.obj)[p.idx.val], p.path)
	}
	panic(unsupported("load"))
}

type ArrV struct {
	obj *Obj
	c   *Content
}

func (x *Exec) store(st *State, p *PtrV, v Value) {
	if p.obj == nil {
		panic(unsupported("store through unknown pointer"))
	}
	switch p.obj.kind {
	case KCell:
		x.setHeap(st, p.obj, setPath(x.cell(st, p.obj), p.path, v))
	case KArr:
		if p.idx == nil {
			if a, ok := v.(*ArrV); ok {
				x.setHeap(st, p.obj, a.c)
				return
			}
			x.setHeap(st, p.obj, &Content{kind: 3, sort: mustSort(x, p.obj.typ)})
			return
		}
		x.storeElem(st, p.obj, p.idx, x.toTerm(st, v))
	case KVec:
		if p.idx == nil {
			x.setHeap(st, p.obj, v.([]Value))
			return
		}
		if !p.idx.isC() {
			panic(unsupported("symbolic index into array of " + p.obj.typ.String()))
		}
		vs := append([]Value{}, x.vec(st, p.obj)...)
		vs[p.idx.val] = setPath(vs[p.idx.val], p.path, v)
		x.setHeap(st, p.obj, vs)
	default:
		panic(unsupported("store"))
	}
}

func mustSort(x *Exec, t types.Type) Sort {
	s, ok := x.scalarSort(t)
	if !ok {
		panic(unsupported("sort of " + t.String()))
	}
	return s
}

func (x *Exec) storeElem(st *State, o *Obj, i, v *Term) {
	old := x.content(st, o)
	n := &Content{kind: 1, sort: old.sort, base: old, idx: i, val: v, hint: o.hint}
	if v.op == "bvor" && v.sort.bits() == 8 && v.args[1].isC() && v.args[1].val == 0x80 && v.args[0] == x.sel(old, i) {
		n.tagset = true
	}
	x.setHeap(st, o, n)
	// other slices that may share the array
	for _, p := range x.familyOf(st, o) {
		oc := x.content(st, p)
		x.setHeap(st, p, &Content{kind: 1, sort: oc.sort, base: oc, idx: i, val: x.tb.Fresh("shared", oc.sort), hint: p.hint, tagset: n.tagset})
	}
}

func (x *Exec) familyOf(st *State, o *Obj) []*Obj {
	f := st.family(o)
	var out []*Obj
	var ids []int
	for id, p := range st.objs {
		if p != o && p.kind == KArr && st.family(p) == f {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		out = append(out, st.objs[id])
	}
	return out
}

// touch makes an object known to the state (for sharing)
func (st *State) touch(o *Obj) {
	if o != nil {
		st.objs[o.id] = o
	}
}

// overwriteTail models an in-place append: elements from i on of everything sharing o's array become unknown
func (x *Exec) overwriteTail(st *State, o *Obj, i *Term, except *Obj) {
	if o == nil {
		return
	}
	st.touch(o)
	do := func(p *Obj) {
		oc := x.content(st, p)
		if oc.kind == 2 && oc.rest != nil && oc.n.isC() && oc.n.val == 0 && oc.at == i {
			return // already unknown from there
		}
		n := &Content{kind: 2, sort: oc.sort, base: oc, at: i, n: x.tb.I(0), src: oc, soff: x.tb.I(0), rest: x.opaqueContent(oc.sort, "tail"), hint: p.hint}
		w := st.written[p.id]
		x.setHeap(st, p, n)
		if !w && !x.trackTails {
			delete(st.written, p.id)
		}
	}
	for _, p := range x.familyOf(st, o) {
		if p != except {
			do(p)
		}
	}
	do(o)
}

// ---- interface boxing ----

func (x *Exec) flatten(st *State, v Value) []*Term {
	switch w := v.(type) {
	case *Term:
		return []*Term{w}
	case *SliceV:
		r := x.nilRef()
		if w.obj != nil {
			r = x.objRef(w.obj)
		}
		return []*Term{r, w.off, w.len, w.cap, w.nil_}
	case *PtrV:
		r := x.nilRef()
		if w.obj != nil {
			r = x.objRef(w.obj)
		}
		ts := []*Term{r}
		if w.idx != nil {
			ts = append(ts, w.idx)
		} else {
			ts = append(ts, x.tb.I(-1))
		}
		p := int64(0)
		for _, k := range w.path {
			p = p*64 + int64(k) + 1
		}
		return append(ts, x.tb.I(p), w.nil_)
	case *MapV:
		r := x.nilRef()
		if w.obj != nil {
			r = x.objRef(w.obj)
		}
		return []*Term{r, w.nil_}
	case *StructV:
		var ts []*Term
		for _, f := range w.f {
			ts = append(ts, x.flatten(st, f)...)
		}
		return ts
	case *IfaceV:
		return []*Term{x.ifTerm(st, w)}
	case *FuncV:
		return []*Term{x.tb.Const("fn", fmt.Sprintf("%p", w), SFn)}
	}
	panic(unsupported(fmt.Sprintf("flatten %T", v)))
}

func (x *Exec) typeConst(t types.Type) *Term {
	c := x.tb.Const("type", types.TypeString(t, func(p *types.Package) string { return p.Path() }), SType)
	x.typeOf[c.id] = t
	return c
}

// dyn is the dynamic type of an interface term ("type$none" for nil)
func (x *Exec) dyn(t *Term) *Term {
	if t == x.inil() {
		return x.tb.Const("type", "none", SType)
	}
	if iv, ok := x.boxed[t.id]; ok {
		return x.typeConst(iv.dyn)
	}
	if t.op == "ite" {
		return x.tb.Ite(t.args[0], x.dyn(t.args[1]), x.dyn(t.args[2]))
	}
	d := x.tb.App("dyn", SType, t)
	if len(x.tb.axioms[d.id]) == 0 {
		x.tb.Axiom(d, x.tb.Eq(x.tb.Eq(d, x.tb.Const("type", "none", SType)), x.tb.Eq(t, x.inil())))
	}
	return d
}

func (x *Exec) ifTerm(st *State, v *IfaceV) *Term {
	if v.t != nil {
		return v.t
	}
	args := x.flatten(st, v.val)
	nm := "box_" + types.TypeString(v.dyn, func(p *types.Package) string { return p.Path() })
	t := x.tb.App(nm, SIf, args...)
	v.t = t
	if _, ok := x.boxed[t.id]; !ok {
		x.boxed[t.id] = v
		ax := []*Term{x.tb.Eq(x.tb.App("dyn", SType, t), x.typeConst(v.dyn)), x.tb.Ne(t, x.inil())}
		for i, a := range args {
			ax = append(ax, x.tb.Eq(x.tb.App(fmt.Sprintf("un%d_%s_%s", i, nm, a.sort), a.sort, t), a))
		}
		x.tb.Axiom(t, x.tb.And(ax...))
	}
	return t
}

// unbox reads the payload of an interface known to hold type t
func (x *Exec) unbox(st *State, v *IfaceV, t types.Type) Value {
	if v.dyn != nil && types.Identical(v.dyn, t) {
		return v.val
	}
	if v.t != nil {
		if b, ok := x.boxed[v.t.id]; ok && types.Identical(b.dyn, t) {
			return b.val
		}
	}
	tm := x.ifTerm(st, v)
	key := fmt.Sprintf("%d/%s", tm.id, types.TypeString(t, nil))
	if w, ok := x.unboxed[key]; ok {
		return w
	}
	var w Value
	nm := "box_" + types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if s, ok := x.scalarSort(t); ok && s != SIf {
		w = x.tb.App(fmt.Sprintf("un%d_%s_%s", 0, nm, s), s, tm)
	} else {
		w = x.freshValue(st, t, "unbox")
		// the same interface value always unboxes to the same thing
		switch u := w.(type) {
		case *SliceV:
			u.len = x.tb.App("un2_"+nm+"_bv64", b64, tm)
			u.cap = x.tb.App("un3_"+nm+"_bv64", b64, tm)
			u.nil_ = x.tb.App("un4_"+nm+"_Bool", Bool, tm)
			x.boundLen(u.len, u.cap, u.nil_)
		}
		x.markEntry(w)
	}
	x.unboxed[key] = w
	return w
}

func (x *Exec) markEntry(v Value) {
	switch w := v.(type) {
	case *SliceV:
		if w.obj != nil {
			w.obj.entry = true
		}
	case *PtrV:
		if w.obj != nil {
			w.obj.entry = true
		}
	case *MapV:
		if w.obj != nil {
			w.obj.entry = true
		}
	case *StructV:
		for _, f := range w.f {
			x.markEntry(f)
		}
	}
}

// toTerm turns a value into the single term stored in an array of a scalar sort
func (x *Exec) toTerm(st *State, v Value) *Term {
	switch w := v.(type) {
	case *Term:
		return w
	case *IfaceV:
		return x.ifTerm(st, w)
	}
	panic(unsupported(fmt.Sprintf("toTerm %T", v)))
}

func (x *Exec) fromTerm(st *State, t *Term, typ types.Type) Value {
	if t.sort == SIf {
		if iv, ok := x.boxed[t.id]; ok {
			return iv
		}
		return &IfaceV{t: t}
	}
	return t
}

// ---- maps ----

func (x *Exec) mapc(st *State, o *Obj) *MapContent {
	if v, ok := st.heap[o.id]; ok {
		return v.(*MapContent)
	}
	if o.init == nil {
		o.init = x.opaqueMap(o.typ.Underlying().(*types.Map), o.hint)
	}
	return o.init.(*MapContent)
}

func (x *Exec) opaqueMap(t *types.Map, hint string) *MapContent {
	m := &MapContent{kind: 0, typ: t, vals: map[int]Value{}}
	m.id = x.tb.Fresh(hint+"M", SMapc)
	m.len = x.tb.Fresh(hint+".maplen", b64)
	x.tb.Axiom(m.len, x.tb.And(x.tb.Sle(x.tb.I(0), m.len), x.tb.Sle(m.len, x.tb.I(maxLen))))
	return m
}

func (x *Exec) keyTerm(st *State, k Value) *Term {
	switch w := k.(type) {
	case *Term:
		return w
	case *IfaceV:
		return x.ifTerm(st, w)
	case *StructV:
		ts := x.flatten(st, w)
		nm := "key"
		for _, t := range ts {
			nm += "_" + string(t.sort)
		}
		t := x.tb.App(nm, Sort("K"+nm), ts...)
		x.keyVals[t.id] = w
		return t
	}
	panic(unsupported(fmt.Sprintf("map key %T", k)))
}

func (x *Exec) keyEq(st *State, a, b Value) *Term {
	ta, tc := x.keyTerm(st, a), x.keyTerm(st, b)
	if sa, ok := a.(*StructV); ok {
		if sb, ok := b.(*StructV); ok {
			fa, fb := x.flatten(st, sa), x.flatten(st, sb)
			var cs []*Term
			for i := range fa {
				cs = append(cs, x.tb.Eq(fa[i], fb[i]))
			}
			return x.tb.And(cs...)
		}
	}
	return x.tb.Eq(ta, tc)
}

// lookup returns presence and the value (zero value if absent)
func (x *Exec) lookup(st *State, m *MapContent, k Value) (*Term, Value) {
	tb := x.tb
	switch m.kind {
	case 3:
		return tb.False, x.zero(m.typ.Elem())
	case 1:
		e := x.keyEq(st, k, m.key)
		if e.isTrue() {
			return tb.True, m.val
		}
		p, v := x.lookup(st, m.base, k)
		return tb.Or(e, p), x.iteV(st, e, m.val, v)
	case 2:
		e := x.keyEq(st, k, m.key)
		p, v := x.lookup(st, m.base, k)
		return tb.And(tb.Not(e), p), x.iteV(st, e, x.zero(m.typ.Elem()), v)
	}
	kt := x.keyTerm(st, k)
	p := tb.App("has_"+string(kt.sort), Bool, m.id, kt)
	if len(tb.axioms[p.id]) == 0 && m.len != nil {
		tb.Axiom(p, tb.Imp(p, tb.Slt(tb.I(0), m.len)))
	}
	var v Value
	if s, ok := x.scalarSort(m.typ.Elem()); ok {
		t := tb.App("get_"+string(kt.sort)+"_"+string(s), s, m.id, kt)
		z := x.sortZero(s)
		if len(tb.axioms[t.id]) == 0 {
			tb.Axiom(t, tb.Or(p, tb.Eq(t, z)))
		}
		v = x.fromTerm(st, t, m.typ.Elem())
	} else {
		if w, ok := m.vals[kt.id]; ok {
			v = w
		} else {
			v = x.freshValue(st, m.typ.Elem(), "mapval")
			x.markEntry(v)
			if mv, ok := v.(*MapV); ok {
				tb.Axiom(mv.nil_, tb.Or(p, mv.nil_))
			}
			if pv, ok := v.(*PtrV); ok {
				tb.Axiom(pv.nil_, tb.Or(p, pv.nil_))
			}
			m.vals[kt.id] = v
		}
	}
	return p, v
}

func (x *Exec) iteV(st *State, c *Term, a, b Value) Value {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	switch av := a.(type) {
	case *Term:
		return x.tb.Ite(c, av, b.(*Term))
	case *IfaceV:
		return x.fromTerm(st, x.tb.Ite(c, x.ifTerm(st, av), x.ifTerm(st, b.(*IfaceV))), nil)
	case *StructV:
		bv := b.(*StructV)
		n := &StructV{typ: av.typ}
		for i := range av.f {
			n.f = append(n.f, x.iteV(st, c, av.f[i], bv.f[i]))
		}
		return n
	case *MapV:
		bv := b.(*MapV)
		if av.obj == bv.obj || bv.obj == nil {
			return &MapV{obj: av.obj, nil_: x.tb.Ite(c, av.nil_, bv.nil_), typ: av.typ}
		}
		if av.obj == nil {
			return &MapV{obj: bv.obj, nil_: x.tb.Ite(c, av.nil_, bv.nil_), typ: av.typ}
		}
	case *PtrV:
		bv := b.(*PtrV)
		n := *av
		if av.obj == nil {
			n = *bv
		}
		if av.obj == nil || bv.obj == nil || av.obj == bv.obj && av.idx == bv.idx && len(av.path) == 0 && len(bv.path) == 0 {
			n.nil_ = x.tb.Ite(c, av.nil_, bv.nil_)
			return &n
		}
	}
	panic(unsupported(fmt.Sprintf("ite of %T", a)))
}

type unsupportedErr struct{ msg string }

func unsupported(s string) unsupportedErr { return unsupportedErr{s} }
func (u unsupportedErr) Error() string    { return "unsupported: " + u.msg }

func short(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
