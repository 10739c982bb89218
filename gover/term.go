package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Terms are hash-consed SMT expressions. One TB (term bank) exists per verified function.

type Sort string

const Bool Sort = "Bool"

func BV(n int) Sort { return Sort("bv" + strconv.Itoa(n)) }

const (
	SCont Sort = "Cont" // contents of an array
	SMapc Sort = "Mapc" // contents of a map
	SStr  Sort = "Str"  // Go string
	SIf   Sort = "If"   // interface value
	SRef  Sort = "Ref"  // object identity
	SRV   Sort = "RV"   // reflect.Value
	SType Sort = "Typ"  // dynamic type
	SFn   Sort = "Fn"
)

var b64 = BV(64)

func (s Sort) bits() int {
	if strings.HasPrefix(string(s), "bv") {
		n, _ := strconv.Atoi(string(s)[2:])
		return n
	}
	return 0
}

func (s Sort) smt() string {
	if n := s.bits(); n > 0 {
		return fmt.Sprintf("(_ BitVec %d)", n)
	}
	return string(s)
}

type Term struct {
	id   int
	op   string // "const", "var", "app:<f>", or an SMT operator
	args []*Term
	sort Sort
	val  uint64 // for const bv (and bool: 0/1)
	name string // var name or function name
	// extract/extend parameters
	p1, p2 int
}

type axGen func(t *Term) []*Term

type TB struct {
	tab    map[string]*Term
	all    []*Term
	fresh  map[string]int
	funs   map[string][]Sort // uninterpreted function name -> arg sorts..., result
	sorts  map[Sort]bool
	axioms map[int][]*Term // facts about a term, valid everywhere
	gens   map[string]axGen
	strs   map[string]*Term
	distin map[string][]*Term // groups of pairwise distinct constants
	True   *Term
	False  *Term
}

func NewTB() *TB {
	tb := &TB{tab: map[string]*Term{}, fresh: map[string]int{}, funs: map[string][]Sort{}, sorts: map[Sort]bool{},
		axioms: map[int][]*Term{}, gens: map[string]axGen{}, strs: map[string]*Term{}, distin: map[string][]*Term{}}
	tb.True = tb.mk(&Term{op: "const", sort: Bool, val: 1})
	tb.False = tb.mk(&Term{op: "const", sort: Bool, val: 0})
	return tb
}

func (tb *TB) key(t *Term) string {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatUint(t.val, 16))
	if t.p1 != 0 || t.p2 != 0 {
		fmt.Fprintf(&sb, "|%d,%d", t.p1, t.p2)
	}
	for _, a := range t.args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return sb.String()
}

func (tb *TB) mk(t *Term) *Term {
	k := tb.key(t)
	if x, ok := tb.tab[k]; ok {
		return x
	}
	t.id = len(tb.all)
	tb.all = append(tb.all, t)
	tb.tab[k] = t
	switch t.sort {
	case SCont, SMapc, SStr, SIf, SRef, SRV, SType, SFn:
		tb.sorts[t.sort] = true
	}
	return t
}

func mask(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(n)) - 1
}

func (tb *TB) C(v uint64, n int) *Term {
	return tb.mk(&Term{op: "const", sort: BV(n), val: v & mask(n)})
}
func (tb *TB) I(v int64) *Term { return tb.C(uint64(v), 64) }
func (tb *TB) B(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}
func (tb *TB) Var(name string, s Sort) *Term {
	return tb.mk(&Term{op: "var", sort: s, name: name})
}
func (tb *TB) Fresh(hint string, s Sort) *Term {
	hint = sanitize(hint)
	tb.fresh[hint]++
	return tb.Var(fmt.Sprintf("%s!%d", hint, tb.fresh[hint]), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	if sb.Len() == 0 {
		return "v"
	}
	return sb.String()
}

// Distinct constant out of a named group
func (tb *TB) Const(group, name string, s Sort) *Term {
	t := tb.Var(group+"$"+sanitize(name), s)
	for _, x := range tb.distin[group] {
		if x == t {
			return t
		}
	}
	tb.distin[group] = append(tb.distin[group], t)
	return t
}

func (tb *TB) App(f string, s Sort, args ...*Term) *Term {
	f = sanitize(f)
	if _, ok := tb.funs[f]; !ok {
		sig := []Sort{}
		for _, a := range args {
			sig = append(sig, a.sort)
		}
		tb.funs[f] = append(sig, s)
	}
	n := len(tb.all)
	t := tb.mk(&Term{op: "app", sort: s, name: f, args: args})
	if len(tb.all) > n { // new
		if g := tb.gens[f]; g != nil {
			if ax := g(t); len(ax) > 0 {
				tb.axioms[t.id] = append(tb.axioms[t.id], ax...)
			}
		}
	}
	return t
}

func (tb *TB) Axiom(t *Term, ax *Term) {
	if ax == tb.True {
		return
	}
	for _, a := range tb.axioms[t.id] {
		if a == ax {
			return
		}
	}
	tb.axioms[t.id] = append(tb.axioms[t.id], ax)
}

func (t *Term) isC() bool     { return t.op == "const" }
func (t *Term) isTrue() bool  { return t.op == "const" && t.sort == Bool && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == "const" && t.sort == Bool && t.val == 0 }
func (t *Term) sval() int64 {
	n := t.sort.bits()
	if n == 64 {
		return int64(t.val)
	}
	if t.val>>(uint(n)-1) == 1 {
		return int64(t.val | ^mask(n))
	}
	return int64(t.val)
}

func (tb *TB) Not(a *Term) *Term {
	if a.isC() {
		return tb.B(a.val == 0)
	}
	if a.op == "not" {
		return a.args[0]
	}
	return tb.mk(&Term{op: "not", sort: Bool, args: []*Term{a}})
}

func (tb *TB) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isFalse() {
			return tb.False
		}
		if a.isTrue() || seen[a.id] {
			continue
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return tb.False
		}
	}
	switch len(out) {
	case 0:
		return tb.True
	case 1:
		return out[0]
	}
	return tb.mk(&Term{op: "and", sort: Bool, args: out})
}

func (tb *TB) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isTrue() {
			return tb.True
		}
		if a.isFalse() || seen[a.id] {
			continue
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return tb.True
		}
	}
	switch len(out) {
	case 0:
		return tb.False
	case 1:
		return out[0]
	}
	return tb.mk(&Term{op: "or", sort: Bool, args: out})
}

func (tb *TB) Imp(a, b *Term) *Term { return tb.Or(tb.Not(a), b) }

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort, b.sort))
	}
	if a.sort == Bool {
		if a.isTrue() {
			return tb.Or(c, b)
		}
		if a.isFalse() {
			return tb.And(tb.Not(c), b)
		}
		if b.isTrue() {
			return tb.Or(tb.Not(c), a)
		}
		if b.isFalse() {
			return tb.And(c, a)
		}
	}
	if c.op == "not" {
		return tb.Ite(c.args[0], b, a)
	}
	return tb.mk(&Term{op: "ite", sort: a.sort, args: []*Term{c, a, b}})
}

// split x into base + constant
func (tb *TB) split(x *Term) (*Term, uint64) {
	if x.isC() {
		return nil, x.val
	}
	if x.op == "bvadd" && x.args[1].isC() {
		return x.args[0], x.args[1].val
	}
	return x, 0
}

func (tb *TB) isDistinctConst(t *Term) string {
	if t.op != "var" {
		return ""
	}
	if i := strings.IndexByte(t.name, '$'); i > 0 {
		return t.name[:i]
	}
	return ""
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s %s", a.sort, b.sort, tb.Str(a), tb.Str(b)))
	}
	if a.isC() && b.isC() {
		return tb.B(a.val == b.val)
	}
	if a.sort == Bool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return tb.Not(b)
		}
		if b.isFalse() {
			return tb.Not(a)
		}
	}
	if a.sort.bits() > 0 {
		xa, ca := tb.split(a)
		xb, cb := tb.split(b)
		if xa == xb {
			return tb.B(ca == cb)
		}
		if ca != 0 && cb != 0 && xa != nil && xb != nil || ca != 0 && xb == nil {
			// x+c1 = y+c2  ->  x = y+(c2-c1)
			n := a.sort.bits()
			if xb == nil {
				return tb.Eq(xa, tb.C(cb-ca, n))
			}
			return tb.Eq(xa, tb.Add(xb, tb.C(cb-ca, n)))
		}
		if cb != 0 && xa == nil {
			return tb.Eq(xb, tb.C(ca-cb, a.sort.bits()))
		}
		// zero_ext(x) = const
		for i := 0; i < 2; i++ {
			if b.isC() && a.op == "zero_extend" {
				n := a.args[0].sort.bits()
				if b.val > mask(n) {
					return tb.False
				}
				return tb.Eq(a.args[0], tb.C(b.val, n))
			}
			if b.isC() && a.op == "ite" && (a.args[1].isC() || a.args[2].isC()) {
				return tb.Ite(a.args[0], tb.Eq(a.args[1], b), tb.Eq(a.args[2], b))
			}
			a, b = b, a
		}
	}
	if ga := tb.isDistinctConst(a); ga != "" && ga == tb.isDistinctConst(b) {
		return tb.False
	}
	if a.sort != Bool && a.sort.bits() == 0 {
		for i := 0; i < 2; i++ {
			if a.op == "ite" && tb.isDistinctConst(b) != "" && (tb.isDistinctConst(a.args[1]) != "" || tb.isDistinctConst(a.args[2]) != "") {
				return tb.Ite(a.args[0], tb.Eq(a.args[1], b), tb.Eq(a.args[2], b))
			}
			a, b = b, a
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(&Term{op: "=", sort: Bool, args: []*Term{a, b}})
}
func (tb *TB) Ne(a, b *Term) *Term { return tb.Not(tb.Eq(a, b)) }

func (tb *TB) bin(op string, a, b *Term) *Term {
	return tb.mk(&Term{op: op, sort: a.sort, args: []*Term{a, b}})
}

func (tb *TB) Add(a, b *Term) *Term {
	n := a.sort.bits()
	if n == 0 || a.sort != b.sort {
		panic(fmt.Sprintf("add sorts %s %s", a.sort, b.sort))
	}
	if a.isC() {
		a, b = b, a
	}
	xa, ca := tb.split(a)
	xb, cb := tb.split(b)
	c := (ca + cb) & mask(n)
	var x *Term
	switch {
	case xa == nil && xb == nil:
		return tb.C(c, n)
	case xa == nil:
		x = xb
	case xb == nil:
		x = xa
	default:
		// cancel x + neg(x)
		if xb.op == "bvneg" && xb.args[0] == xa || xa.op == "bvneg" && xa.args[0] == xb {
			return tb.C(c, n)
		}
		// (y + neg x) + x
		if r := tb.cancel(xa, xb); r != nil {
			return tb.Add(r, tb.C(c, n))
		}
		if r := tb.cancel(xb, xa); r != nil {
			return tb.Add(r, tb.C(c, n))
		}
		if xa.id > xb.id {
			xa, xb = xb, xa
		}
		x = tb.bin("bvadd", xa, xb)
	}
	if c == 0 {
		return x
	}
	return tb.bin("bvadd", x, tb.C(c, n))
}

// cancel returns s+t if that simplifies because s is a sum containing -t (or t is -u with u in s)
func (tb *TB) cancel(s, t *Term) *Term {
	if s.op != "bvadd" {
		return nil
	}
	for i := 0; i < 2; i++ {
		x, y := s.args[i], s.args[1-i]
		if x.op == "bvneg" && x.args[0] == t || t.op == "bvneg" && t.args[0] == x {
			return y
		}
		if r := tb.cancel(y, t); r != nil {
			return tb.Add(r, x)
		}
	}
	return nil
}

func (tb *TB) Neg(a *Term) *Term {
	n := a.sort.bits()
	if a.isC() {
		return tb.C(-a.val, n)
	}
	if a.op == "bvneg" {
		return a.args[0]
	}
	if a.op == "bvadd" {
		return tb.Add(tb.Neg(a.args[0]), tb.Neg(a.args[1]))
	}
	return tb.mk(&Term{op: "bvneg", sort: a.sort, args: []*Term{a}})
}
func (tb *TB) Sub(a, b *Term) *Term { return tb.Add(a, tb.Neg(b)) }

func (tb *TB) Mul(a, b *Term) *Term {
	n := a.sort.bits()
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return tb.C(a.val*b.val, n)
		}
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if b.val == 2 {
			return tb.Shl(a, tb.C(1, n))
		}
	}
	return tb.bin("bvmul", a, b)
}

func (tb *TB) BAnd(a, b *Term) *Term {
	n := a.sort.bits()
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return tb.C(a.val&b.val, n)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(n) {
			return a
		}
		if a.op == "bvand" && a.args[1].isC() {
			return tb.BAnd(a.args[0], tb.C(a.args[1].val&b.val, n))
		}
	}
	if a == b {
		return a
	}
	return tb.bin("bvand", a, b)
}
func (tb *TB) BOr(a, b *Term) *Term {
	n := a.sort.bits()
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return tb.C(a.val|b.val, n)
		}
		if b.val == 0 {
			return a
		}
	}
	if a == b {
		return a
	}
	return tb.bin("bvor", a, b)
}
func (tb *TB) BXor(a, b *Term) *Term {
	n := a.sort.bits()
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return tb.C(a.val^b.val, n)
		}
		if b.val == 0 {
			return a
		}
	}
	return tb.bin("bvxor", a, b)
}
func (tb *TB) BNot(a *Term) *Term {
	if a.isC() {
		return tb.C(^a.val, a.sort.bits())
	}
	return tb.mk(&Term{op: "bvnot", sort: a.sort, args: []*Term{a}})
}

func (tb *TB) Shl(a, b *Term) *Term { return tb.shift("bvshl", a, b) }
func (tb *TB) Shr(a, b *Term) *Term { return tb.shift("bvlshr", a, b) }
func (tb *TB) Sar(a, b *Term) *Term { return tb.shift("bvashr", a, b) }
func (tb *TB) shift(op string, a, b *Term) *Term {
	n := a.sort.bits()
	if b.isC() {
		if b.val == 0 {
			return a
		}
		if a.op == op && op != "bvashr" && a.args[1].isC() && a.args[1].val < 64 && b.val < 64 {
			return tb.shift(op, a.args[0], tb.C(a.args[1].val+b.val, n))
		}
		if a.isC() {
			s := b.val
			switch op {
			case "bvshl":
				if s >= uint64(n) {
					return tb.C(0, n)
				}
				return tb.C(a.val<<s, n)
			case "bvlshr":
				if s >= uint64(n) {
					return tb.C(0, n)
				}
				return tb.C(a.val>>s, n)
			case "bvashr":
				if s >= uint64(n) {
					s = uint64(n) - 1
				}
				return tb.C(uint64(a.sval()>>s), n)
			}
		}
		if b.val >= uint64(n) && op != "bvashr" {
			return tb.C(0, n)
		}
	}
	return tb.bin(op, a, b)
}

func (tb *TB) DivOp(op string, a, b *Term) *Term {
	n := a.sort.bits()
	if a.isC() && b.isC() && b.val != 0 {
		switch op {
		case "bvudiv":
			return tb.C(a.val/b.val, n)
		case "bvurem":
			return tb.C(a.val%b.val, n)
		case "bvsdiv":
			return tb.C(uint64(a.sval()/b.sval()), n)
		case "bvsrem":
			return tb.C(uint64(a.sval()%b.sval()), n)
		}
	}
	if b.isC() && b.val != 0 && b.val&(b.val-1) == 0 {
		if op == "bvurem" {
			return tb.BAnd(a, tb.C(b.val-1, n))
		}
		if op == "bvudiv" {
			k := 0
			for v := b.val; v > 1; v >>= 1 {
				k++
			}
			return tb.Shr(a, tb.C(uint64(k), n))
		}
	}
	return tb.bin(op, a, b)
}

// comparisons
func (tb *TB) cmp(op string, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("cmp sorts %s %s", a.sort, b.sort))
	}
	if a.isC() && b.isC() {
		var r bool
		switch op {
		case "bvult":
			r = a.val < b.val
		case "bvule":
			r = a.val <= b.val
		case "bvslt":
			r = a.sval() < b.sval()
		case "bvsle":
			r = a.sval() <= b.sval()
		}
		return tb.B(r)
	}
	if a == b {
		return tb.B(op == "bvule" || op == "bvsle")
	}
	if op == "bvule" && a.isC() && a.val == 0 {
		return tb.True
	}
	if op == "bvult" && b.isC() && b.val == 0 {
		return tb.False
	}
	// zero-extended operands compared with constants / each other
	if a.op == "zero_extend" && b.isC() {
		n := a.args[0].sort.bits()
		if op == "bvslt" || op == "bvsle" {
			if b.sval() < 0 {
				return tb.False
			}
		}
		if b.val > mask(n) {
			return tb.True
		}
		if op == "bvslt" || op == "bvult" {
			return tb.cmp("bvult", a.args[0], tb.C(b.val, n))
		}
		return tb.cmp("bvule", a.args[0], tb.C(b.val, n))
	}
	if b.op == "zero_extend" && a.isC() {
		n := b.args[0].sort.bits()
		if op == "bvslt" || op == "bvsle" {
			if a.sval() < 0 {
				return tb.True
			}
		}
		if a.val > mask(n) {
			return tb.False
		}
		if op == "bvslt" || op == "bvult" {
			return tb.cmp("bvult", tb.C(a.val, n), b.args[0])
		}
		return tb.cmp("bvule", tb.C(a.val, n), b.args[0])
	}
	return tb.mk(&Term{op: op, sort: Bool, args: []*Term{a, b}})
}
func (tb *TB) Ult(a, b *Term) *Term { return tb.cmp("bvult", a, b) }
func (tb *TB) Ule(a, b *Term) *Term { return tb.cmp("bvule", a, b) }
func (tb *TB) Slt(a, b *Term) *Term { return tb.cmp("bvslt", a, b) }
func (tb *TB) Sle(a, b *Term) *Term { return tb.cmp("bvsle", a, b) }

func (tb *TB) Ext(a *Term, n int, signed bool) *Term {
	m := a.sort.bits()
	switch {
	case n == m:
		return a
	case n < m:
		if a.isC() {
			return tb.C(a.val, n)
		}
		if (a.op == "zero_extend" || a.op == "sign_extend") && a.args[0].sort.bits() >= n {
			return tb.Ext(a.args[0], n, false)
		}
		return tb.mk(&Term{op: "extract", sort: BV(n), args: []*Term{a}, p1: n - 1})
	case signed:
		if a.isC() {
			return tb.C(uint64(a.sval()), n)
		}
		if a.op == "zero_extend" {
			return tb.Ext(a, n, false)
		}
		return tb.mk(&Term{op: "sign_extend", sort: BV(n), args: []*Term{a}, p1: n - m})
	default:
		if a.isC() {
			return tb.C(a.val, n)
		}
		if a.op == "zero_extend" {
			return tb.Ext(a.args[0], n, false)
		}
		return tb.mk(&Term{op: "zero_extend", sort: BV(n), args: []*Term{a}, p1: n - m})
	}
}

// ref returns how t is written inside other terms
func (tb *TB) ref(t *Term) string {
	switch t.op {
	case "const":
		if t.sort == Bool {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.bits())
	case "var":
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

func (tb *TB) body(t *Term, ref func(*Term) string) string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case "app":
		if len(t.args) == 0 {
			return "|" + t.name + "|"
		}
		sb.WriteString("|" + t.name + "|")
	case "extract":
		fmt.Fprintf(&sb, "(_ extract %d 0)", t.p1)
	case "zero_extend", "sign_extend":
		fmt.Fprintf(&sb, "(_ %s %d)", t.op, t.p1)
	default:
		sb.WriteString(t.op)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

// Str prints a term in full (debugging), depth limited
func (tb *TB) Str(t *Term) string { return tb.str(t, 8) }
func (tb *TB) str(t *Term, d int) string {
	switch t.op {
	case "const":
		if t.sort == Bool {
			return fmt.Sprint(t.val == 1)
		}
		if t.sort.bits() == 64 {
			return fmt.Sprint(int64(t.val))
		}
		return fmt.Sprintf("%d:%d", t.val, t.sort.bits())
	case "var":
		return t.name
	}
	if d == 0 {
		return "..."
	}
	return tb.body(t, func(a *Term) string { return tb.str(a, d-1) })
}
