package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// external is a call of a function outside the package under verification
func (x *Exec) external(st *State, fr *Frame, fn *ssa.Function, args []Value, p token.Pos, k Cont) {
	tb := x.tb
	name := fn.String()
	ret := func(vs ...Value) { k(st, Outcome{val: pack(vs)}) }
	trust := func(s string) { x.assume["trusted: "+s] = true }
	newErr := func() Value {
		e := &IfaceV{t: tb.Fresh("err", SIf)}
		x.add(st, tb.Ne(e.t, x.inil()))
		x.add(st, tb.Not(x.implements(st, e, x.namedType("runtime.Error"))))
		return e
	}
	switch name {
	case "math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits":
		ret(args[0])
		return
	case "errors.New", "fmt.Errorf":
		trust(name + " returns a non-nil error that is not a runtime.Error")
		ret(newErr())
		return
	case "fmt.Sprintf", "strings.Title":
		trust(name + " returns some string")
		ret(tb.App("ext_"+name+fmt.Sprint(len(args)), SStr, x.strArg(st, args)...))
		return
	case "(encoding/binary.littleEndian).Uint32":
		s := args[1].(*SliceV)
		x.oblige(st, "index", "index in range", p, x.safetyProps(), tb.Slt(tb.I(3), s.len))
		if st.dead {
			return
		}
		c := x.content(st, s.obj)
		r := tb.C(0, 32)
		for i := int64(0); i < 4; i++ {
			r = tb.BOr(r, tb.Shl(tb.Ext(x.sel(c, tb.Add(s.off, tb.I(i))), 32, false), tb.C(uint64(8*i), 32)))
		}
		ret(r)
		return
	case "(encoding/binary.littleEndian).PutUint32":
		s := args[1].(*SliceV)
		v := args[2].(*Term)
		x.oblige(st, "index", "index in range", p, x.safetyProps(), tb.Slt(tb.I(3), s.len))
		if st.dead {
			return
		}
		x.checkGlobalWrite(st, s.obj, p)
		for i := int64(0); i < 4; i++ {
			x.storeElem(st, s.obj, tb.Add(s.off, tb.I(i)), tb.Ext(tb.Shr(v, tb.C(uint64(8*i), 32)), 8, false))
		}
		ret()
		return
	case "encoding/binary.PutUvarint":
		s := args[0].(*SliceV)
		v := args[1].(*Term)
		// at most MaxVarintLen64 bytes; panics with an index error if they do not fit
		trust("encoding/binary.PutUvarint writes the minimal base-128 form")
		need := tb.I(10)
		for i := 9; i >= 1; i-- {
			need = tb.Ite(tb.Ult(v, tb.C(1<<uint(7*i), 64)), tb.I(int64(i)), need)
		}
		x.oblige(st, "index", "varint fits into the buffer", p, x.safetyProps(), tb.Sle(need, s.len))
		if st.dead {
			return
		}
		x.checkGlobalWrite(st, s.obj, p)
		for i := int64(0); i < 10; i++ {
			if !x.feasible(st, tb.Slt(tb.I(i), need)) {
				break
			}
			at := tb.Add(s.off, tb.I(i))
			b := tb.Ext(tb.Shr(v, tb.C(uint64(7*i), 64)), 8, false)
			nb := tb.Ite(tb.Eq(need, tb.I(i+1)), tb.BAnd(b, tb.C(0x7f, 8)), tb.BOr(b, tb.C(0x80, 8)))
			x.storeElem(st, s.obj, at, tb.Ite(tb.Slt(tb.I(i), need), nb, x.sel(x.content(st, s.obj), at)))
		}
		ret(need)
		return
	case "sort.Ints":
		s := args[0].(*SliceV)
		trust("sort.Ints permutes the elements")
		if s.obj != nil {
			oc := x.content(st, s.obj)
			x.setHeap(st, s.obj, x.opaqueContent(oc.sort, "sorted"))
		}
		ret()
		return
	case "(encoding/json.Number).String":
		ret(args[0])
		return
	case "(encoding/json.Number).Int64", "(encoding/json.Number).Float64":
		nm := name[strings.LastIndexByte(name, '.')+1:]
		s := args[0].(*Term)
		trust("json.Number." + nm + " is a function of the number's text")
		e := &IfaceV{t: tb.App("json"+nm+"Err", SIf, s)}
		// the error is never a nil *strconv.NumError
		if nt := x.namedType("*strconv.NumError"); nt != nil {
			if pv, ok := x.unbox(st, e, nt).(*PtrV); ok {
				x.add(st, tb.Imp(x.hasType(st, e, nt), tb.Not(pv.nil_)))
			}
		}
		ret(tb.App("json"+nm, b64, s), e)
		return
	case "github.com/golang/snappy.Encode":
		trust("snappy.Encode returns the compressed form of its input, in a new array when dst is nil")
		r := x.freshValue(st, fn.Signature.Results().At(0).Type(), "snap").(*SliceV)
		r.obj.fresh = true
		x.add(st, tb.Not(r.nil_))
		src := args[1].(*SliceV)
		x.add(st, tb.Eq(x.mkstr(st, r), tb.App("uf_snappyenc", SStr, x.mkstr(st, src))))
		ret(r)
		return
	case "github.com/golang/snappy.Decode":
		trust("snappy.Decode returns the decompressed form of its input, in a prefix of dst if that is big enough and in a new array otherwise")
		d := args[0].(*SliceV)
		src := args[1].(*SliceV)
		in := x.mkstr(st, src)
		done := func(st *State, r *SliceV) {
			e := &IfaceV{t: tb.App("uf_snappyerr", SIf, in)}
			x.add(st, tb.Imp(tb.Eq(e.t, x.inil()), tb.Eq(x.mkstr(st, r), tb.App("uf_snappydec", SStr, in))))
			x.add(st, tb.Not(x.implements(st, e, x.namedType("runtime.Error"))))
			k(st, Outcome{val: pack([]Value{r, e})})
		}
		if d.obj != nil && x.feasible(st, tb.Slt(tb.I(0), d.len)) {
			s2 := st.clone()
			x.add(s2, tb.Slt(tb.I(0), d.len))
			n := tb.Fresh("unsnap.len", b64)
			x.add(s2, tb.And(tb.Sle(tb.I(0), n), tb.Sle(n, d.len)))
			x.checkGlobalWrite(s2, d.obj, p)
			x.havocLoc(s2, location{obj: d.obj, all: true, lo: d.off})
			done(s2, &SliceV{obj: d.obj, off: d.off, len: n, cap: d.cap, nil_: tb.False, elem: d.elem})
		}
		r := x.freshValue(st, fn.Signature.Results().At(0).Type(), "unsnap").(*SliceV)
		r.obj.fresh = true
		done(st, r)
		return
	}
	if name == "(reflect.StructTag).Get" {
		trust("reflect.StructTag.Get is a function of the tag and the key")
		ret(tb.App("tagget", SStr, args[0].(*Term), args[1].(*Term)))
		return
	}
	if strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(reflect.") {
		x.reflectCall(st, fr, name, fn, args, p, k)
		return
	}
	x.havocCall(st, fr, name, fn.Signature, p, k)
}

func (x *Exec) strArg(st *State, args []Value) []*Term {
	var ts []*Term
	for _, a := range args {
		if t, ok := a.(*Term); ok {
			ts = append(ts, t)
		}
	}
	return ts
}

// ---- reflect ----

func (x *Exec) kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (x *Exec) rvKind(rv *Term) *Term {
	tb := x.tb
	if rv == tb.Const("rv", "invalid", SRV) {
		return tb.I(0)
	}
	if t := x.rvTypes[rv.id]; t != nil {
		return tb.I(int64(x.kindOf(t)))
	}
	k := tb.App("rvkind", b64, rv)
	if len(tb.axioms[k.id]) == 0 {
		tb.Axiom(k, tb.And(tb.Ule(k, tb.I(26)), tb.Eq(tb.Eq(k, tb.I(0)), tb.Eq(rv, tb.Const("rv", "invalid", SRV)))))
	}
	return k
}

func (x *Exec) rvValid(rv *Term) *Term { return x.tb.Ne(rv, x.tb.Const("rv", "invalid", SRV)) }

func (x *Exec) reflectCall(st *State, fr *Frame, name string, fn *ssa.Function, args []Value, p token.Pos, k Cont) {
	tb := x.tb
	x.assume["trusted: package reflect behaves as documented; its panics are not run-time errors"] = true
	ret := func(vs ...Value) { k(st, Outcome{val: pack(vs)}) }
	short := name
	short = strings.TrimPrefix(short, "(reflect.Value).")
	short = strings.TrimPrefix(short, "reflect.")
	method := strings.HasPrefix(name, "(reflect.Value).")
	ver := x.rvVer(st)
	may := func() { x.mayPanic(st, fr, p, k) }
	isKind := func(rv *Term, ks ...reflect.Kind) *Term {
		var cs []*Term
		for _, q := range ks {
			cs = append(cs, tb.Eq(x.rvKind(rv), tb.I(int64(q))))
		}
		return tb.Or(cs...)
	}
	// need: otherwise the call panics (with something that is not a run-time error)
	need := func(c *Term) bool {
		if c.isTrue() {
			return true
		}
		if x.feasible(st, tb.Not(c)) {
			may()
		}
		x.add(st, c)
		return x.feasible(st, tb.True)
	}
	if !method {
		switch short {
		case "ValueOf":
			iv := args[0].(*IfaceV)
			t := x.ifTerm(st, iv)
			if t == x.inil() {
				ret(tb.Const("rv", "invalid", SRV))
				return
			}
			if t.op == "app" && t.name == "rviface" && false {
				ret(t.args[0])
				return
			}
			rv := tb.App("rvof", SRV, t)
			if len(tb.axioms[rv.id]) == 0 {
				tb.Axiom(rv, tb.Eq(tb.Eq(rv, tb.Const("rv", "invalid", SRV)), tb.Eq(t, x.inil())))
			}
			b := iv
			if b.dyn == nil {
				if q, ok := x.boxed[t.id]; ok {
					b = q
				}
			}
			if b.dyn != nil {
				x.rvTypes[rv.id] = b.dyn
				x.rvVals[rv.id] = b.val
				if pv, ok := b.val.(*PtrV); ok && pv.obj != nil {
					if pv.obj.kind == KCell {
						st.expose(pv.obj)
					} else if pv.idx != nil {
						st.exposedElem[fmt.Sprintf("%d/%d", pv.obj.id, pv.idx.id)] = pv
					}
				}
			}
			ret(rv)
			return
		case "New", "Zero", "MakeMap", "MakeSlice":
			if short == "MakeSlice" {
				n, c := args[1].(*Term), args[2].(*Term)
				x.oblige(st, "makeslice", "reflect.MakeSlice: length and capacity are possible", p, x.safetyProps(),
					tb.And(tb.Sle(tb.I(0), n), tb.Sle(n, c), tb.Sle(c, tb.I(1<<32))))
				may()
			}
			t := x.ifTerm(st, args[0].(*IfaceV))
			rv := tb.Fresh("rv"+short, SRV)
			x.add(st, x.rvValid(rv))
			x.add(st, tb.Eq(tb.App("rvtype", SIf, rv), x.newType(st, short, t)))
			switch short {
			case "New":
				x.add(st, isKind(rv, reflect.Ptr))
				x.add(st, tb.Not(tb.App("rvisnil", Bool, rv, ver)))
			case "MakeSlice":
				x.add(st, isKind(rv, reflect.Slice))
				x.add(st, tb.Eq(x.rvLen(rv, ver), args[1].(*Term)))
				x.add(st, tb.Not(tb.App("rvisnil", Bool, rv, ver)))
			case "MakeMap":
				x.add(st, isKind(rv, reflect.Map))
				x.add(st, tb.Not(tb.App("rvisnil", Bool, rv, ver)))
			case "Zero":
				x.add(st, tb.Eq(x.rvKind(rv), x.typKind(t)))
			}
			ret(rv)
			return
		case "Copy":
			may()
			x.event(st, "Copy", args[0].(*Term), args[1])
			x.bumpRV(st)
			n := tb.Fresh("ncopy", b64)
			x.add(st, tb.Sle(tb.I(0), n))
			ret(n)
			return
		}
		x.havocCall(st, fr, name, fn.Signature, p, k)
		return
	}
	rv, ok := args[0].(*Term)
	if !ok {
		panic(unsupported("reflect.Value receiver"))
	}
	switch short {
	case "Kind":
		ret(x.rvKind(rv))
	case "IsValid":
		ret(x.rvValid(rv))
	case "CanAddr", "CanInterface", "CanSet":
		ret(tb.App("rv"+short, Bool, rv))
	case "IsNil":
		need(isKind(rv, reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer))
		if st.dead {
			return
		}
		ret(tb.App("rvisnil", Bool, rv, ver))
	case "Elem":
		need(isKind(rv, reflect.Interface, reflect.Ptr))
		if st.dead {
			return
		}
		r := tb.App("rvelem", SRV, rv, ver)
		x.add(st, tb.Eq(x.rvValid(r), tb.Not(tb.App("rvisnil", Bool, rv, ver))))
		if t := x.rvTypes[rv.id]; t != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				// the variable a pointer designates does not change with the state
				r = tb.App("rvderef", SRV, rv)
				x.rvTypes[r.id] = pt.Elem()
			}
		} else {
			x.add(st, tb.Imp(isKind(rv, reflect.Interface), tb.Not(isKind(r, reflect.Interface))))
		}
		ret(r)
	case "Interface":
		need(x.rvValid(rv))
		if st.dead {
			return
		}
		may2 := tb.App("rvCanInterface", Bool, rv)
		if rv.op == "app" && rv.name == "rvof" {
			if b, ok := x.boxed[rv.args[0].id]; ok {
				ret(b)
				return
			}
			ret(&IfaceV{t: rv.args[0]})
			return
		}
		need(may2)
		if st.dead {
			return
		}
		t := tb.App("rviface", SIf, rv, ver)
		if len(tb.axioms[t.id]) == 0 {
			tb.Axiom(t, tb.Imp(tb.And(x.rvValid(rv), tb.Not(isKind(rv, reflect.Interface))), tb.Ne(t, x.inil())))
			tb.Axiom(t, tb.Imp(tb.And(x.rvValid(rv), isKind(rv, reflect.Struct)), tb.Eq(x.typKind(tb.App("rvtype", SIf, rv)), tb.I(int64(reflect.Struct)))))
		}
		ret(&IfaceV{t: t})
	case "Type":
		need(x.rvValid(rv))
		if st.dead {
			return
		}
		t := tb.App("rvtype", SIf, rv)
		if len(tb.axioms[t.id]) == 0 {
			tb.Axiom(t, tb.And(tb.Ne(t, x.inil()), tb.Imp(x.rvValid(rv), tb.Eq(x.typKind(t), x.rvKind(rv)))))
		}
		ret(&IfaceV{t: t})
	case "Len":
		need(isKind(rv, reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String, reflect.Ptr))
		if st.dead {
			return
		}
		ret(x.rvLen(rv, ver))
	case "NumField":
		need(isKind(rv, reflect.Struct))
		n := tb.App("rvnumfield", b64, rv)
		x.add(st, tb.Sle(tb.I(0), n))
		ret(n)
	case "Index":
		i := args[1].(*Term)
		need(tb.And(isKind(rv, reflect.Array, reflect.Slice, reflect.String), tb.Sle(tb.I(0), i), tb.Slt(i, x.rvLen(rv, ver))))
		if st.dead {
			return
		}
		r := tb.App("rvindex", SRV, rv, i)
		x.add(st, x.rvValid(r))
		ret(r)
	case "Field":
		i := args[1].(*Term)
		need(tb.And(isKind(rv, reflect.Struct), tb.App("rvHasField", Bool, rv, i)))
		if st.dead {
			return
		}
		r := tb.App("rvfield", SRV, rv, i)
		x.add(st, x.rvValid(r))
		ret(r)
	case "MapIndex":
		kv := args[1].(*Term)
		need(isKind(rv, reflect.Map))
		may()
		r := tb.App("rvmapindex", SRV, rv, kv, ver)
		ret(r)
	case "MapKeys":
		need(isKind(rv, reflect.Map))
		if st.dead {
			return
		}
		key := fmt.Sprintf("mapkeys/%d/%d", rv.id, ver.id)
		w, ok := x.unboxed[key]
		if !ok {
			s := x.freshValue(st, fn.Signature.Results().At(0).Type(), "keys").(*SliceV)
			s.obj.fresh = true
			w = s
			x.unboxed[key] = w
		}
		s := w.(*SliceV)
		x.add(st, tb.Not(s.nil_))
		x.add(st, tb.Eq(s.len, x.rvLen(rv, ver)))
		ret(s)
	case "Bool":
		need(isKind(rv, reflect.Bool))
		ret(tb.App("rvbool", Bool, rv, ver))
	case "Int":
		need(isKind(rv, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64))
		ret(tb.App("rvint", b64, rv, ver))
	case "Uint":
		need(isKind(rv, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr))
		ret(tb.App("rvuint", b64, rv, ver))
	case "Float":
		need(isKind(rv, reflect.Float32, reflect.Float64))
		f := tb.App("rvfloat", b64, rv, ver)
		ret(f)
	case "String":
		s := tb.App("rvstring", SStr, rv, ver)
		ret(s)
	case "Pointer":
		need(isKind(rv, reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer, reflect.String))
		r := tb.App("rvpointer", b64, rv, ver)
		ret(r)
	case "UnsafeAddr":
		need(tb.App("rvCanAddr", Bool, rv))
		r := tb.App("rvaddr", b64, rv)
		ret(r)
	case "Addr":
		need(tb.App("rvCanAddr", Bool, rv))
		if st.dead {
			return
		}
		r := tb.App("rvaddrof", SRV, rv)
		x.add(st, x.rvValid(r))
		x.add(st, isKind(r, reflect.Ptr))
		x.add(st, tb.Not(tb.App("rvisnil", Bool, r, ver)))
		ret(r)
	case "Slice":
		may()
		r := tb.Fresh("rvslice", SRV)
		x.add(st, x.rvValid(r))
		x.add(st, isKind(r, reflect.Slice, reflect.String))
		ret(r)
	case "Set", "SetInt", "SetUint", "SetFloat", "SetBool", "SetString", "SetBytes", "SetLen":
		may()
		x.event(st, short, rv, args[1])
		x.bumpRV(st)
		// read back what has just been stored
		nv := x.rvVer(st)
		switch short {
		case "SetInt":
			st.rvstored = append([]*Term{}, rv, args[1].(*Term))
		}
		if short == "Set" {
			if a, ok := args[1].(*Term); ok {
				// nil-ness and length follow the assigned value
				x.add(st, tb.Imp(tb.Eq(x.rvKind(rv), x.rvKind(a)), tb.And(
					tb.Eq(x.rvLen(rv, nv), x.rvLen(a, ver)),
					tb.Eq(tb.App("rvisnil", Bool, rv, nv), tb.App("rvisnil", Bool, a, ver)))))
			}
		}
		ret()
	case "SetMapIndex":
		may()
		x.oblige(st, "nilmap", "map written to through reflection is not nil", p, x.safetyProps(),
			tb.Or(tb.Not(isKind(rv, reflect.Map)), tb.Not(tb.App("rvisnil", Bool, rv, ver))))
		x.event(st, short, rv, args[2])
		x.bumpRV(st)
		// the map itself stays
		x.add(st, tb.Eq(tb.App("rvisnil", Bool, rv, x.rvVer(st)), tb.App("rvisnil", Bool, rv, ver)))
		ret()
	default:
		x.havocCall(st, fr, name, fn.Signature, p, func(st *State, out Outcome) {
			k(st, out)
		})
	}
}

func (x *Exec) event(st *State, op string, rv *Term, v Value) {
	st.events = append(st.events, rvEvent{op, rv, v})
}

type rvEvent struct {
	op string
	rv *Term
	v  Value
}

func (st *State) expose(o *Obj) {
	if st.exposed == nil {
		st.exposed = map[int]bool{}
	}
	st.objs[o.id] = o
	st.exposed[o.id] = true
}

func (x *Exec) rvLen(rv, ver *Term) *Term {
	tb := x.tb
	n := tb.App("rvlen", b64, rv, ver)
	if len(tb.axioms[n.id]) == 0 {
		tb.Axiom(n, tb.And(tb.Sle(tb.I(0), n), tb.Sle(n, tb.I(maxLen))))
	}
	return n
}

// types

func (x *Exec) typKind(t *Term) *Term {
	k := x.tb.App("typkind", b64, t)
	if len(x.tb.axioms[k.id]) == 0 {
		x.tb.Axiom(k, x.tb.And(x.tb.Ule(k, x.tb.I(26)), x.tb.Ne(k, x.tb.I(0))))
	}
	return k
}

func (x *Exec) newType(st *State, op string, t *Term) *Term {
	switch op {
	case "New":
		r := x.tb.App("ptrto", SIf, t)
		x.tb.Axiom(r, x.tb.And(x.tb.Ne(r, x.inil()), x.tb.Eq(x.tb.App("typelem", SIf, r), t)))
		return r
	}
	return t
}

func (x *Exec) reflectTypeMethod(st *State, fr *Frame, v *IfaceV, m string, args []Value, sig *types.Signature, p token.Pos, k Cont) {
	tb := x.tb
	x.assume["trusted: package reflect behaves as documented; its panics are not run-time errors"] = true
	t := v.t
	ret := func(vs ...Value) { k(st, Outcome{val: pack(vs)}) }
	switch m {
	case "Kind":
		ret(x.typKind(t))
	case "Elem", "Key":
		x.mayPanic(st, fr, p, k)
		r := tb.App("typ"+strings.ToLower(m), SIf, t)
		tb.Axiom(r, tb.Ne(r, x.inil()))
		ret(&IfaceV{t: r})
	case "NumField":
		x.mayPanic(st, fr, p, k)
		n := tb.App("typnumfield", b64, t)
		tb.Axiom(n, tb.And(tb.Sle(tb.I(0), n), tb.Sle(n, tb.I(1<<20))))
		ret(n)
	case "Field":
		x.mayPanic(st, fr, p, k)
		i := args[0].(*Term)
		s, _ := x.scalarSort(sig.Results().At(0).Type())
		ret(tb.App("typfield", s, t, i))
	case "Name", "PkgPath", "String":
		ret(tb.App("typ"+m, SStr, t))
	default:
		x.havocCall(st, fr, "reflect.Type."+m, sig, p, k)
	}
}
