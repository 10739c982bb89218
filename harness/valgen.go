//go:build go1.21

package main

// Random Go values, and what a document encoding one must contain.

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"

	"github.com/Sereal/Sereal/Go/sereal"
)

type (
	MyInt   int
	MyInt8  int8
	MyU64   uint64
	MyU16   uint16
	MyBool  bool
	MyStr   string
	MyF32   float32
	MyF64   float64
	MyBytes []byte
	MyMap   map[string]int
	MyList  []interface{}
)

// frozen is a value with its own marshalling.
type frozen struct{ Data []byte }

var errHook = errors.New("hook error")

func (f frozen) MarshalBinary() ([]byte, error) {
	if bytes.HasPrefix(f.Data, []byte("ERR")) {
		return nil, errHook
	}
	return append([]byte{}, f.Data...), nil
}

func (f *frozen) UnmarshalBinary(b []byte) error {
	if f == nil {
		return errHook
	}
	if bytes.HasPrefix(b, []byte("BAD")) {
		return errHook
	}
	f.Data = append([]byte{}, b...)
	return nil
}

// frozenInt freezes a non-struct.
type frozenInt int

func (f frozenInt) MarshalBinary() ([]byte, error) {
	return []byte(strconv.Itoa(int(f))), nil
}

func (f *frozenInt) UnmarshalBinary(b []byte) error {
	n, err := strconv.Atoi(string(b))
	*f = frozenInt(n)
	return err
}

const pkgName = "main"

type Plain struct {
	A int
	B string
	C []byte
}

type Tagged struct {
	X     int         `sereal:"ex"`
	Skip  int         `sereal:"-"`
	Y     interface{} `sereal:"Why"`
	Zed   float64
	priv  int
	Other map[string]int `json:"x" sereal:"oth er"`
}

type Tree struct {
	Left, Right *Tree
	Val         interface{}
	Kids        []Tree
	M           map[string]*Tree
}

type Inner struct{ P, Q int }

type Embeds struct {
	Inner
	*Plain
	Z [3]int8
}

type Empty struct{}

type AllSkipped struct {
	a int
	B int `sereal:"-"`
}

type Ptrs struct {
	S  string
	PS *string
	I  int
	PI *int
	L  []int
	PL *[]int
	F  Inner
	PF *Inner
	PQ *int
	M  map[string]int
	PM *map[string]int
	A  [2]int
	PA *[2]int
	E  interface{}
	PE *interface{}
}

var (
	tIface   = reflect.TypeOf((*interface{})(nil)).Elem()
	tBytes   = reflect.TypeOf([]byte(nil))
	tJSON    = reflect.TypeOf(json.Number(""))
	tFrozen  = reflect.TypeOf(frozen{})
	tFrozenI = reflect.TypeOf(frozenInt(0))
	tRegexp  = reflect.TypeOf(sereal.PerlRegexp{})
	tUndef   = reflect.TypeOf(sereal.PerlUndef{})
	tObject  = reflect.TypeOf(sereal.PerlObject{})
	tWeak    = reflect.TypeOf(sereal.PerlWeakRef{})
	tMarsh   = reflect.TypeOf((*encoding.BinaryMarshaler)(nil)).Elem()

	scalarTypes = []reflect.Type{
		reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)),
		reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)),
		reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)),
		reflect.TypeOf(float64(0)), reflect.TypeOf(""), tBytes,
		reflect.TypeOf(MyInt(0)), reflect.TypeOf(MyInt8(0)), reflect.TypeOf(MyU64(0)), reflect.TypeOf(MyU16(0)),
		reflect.TypeOf(MyBool(false)), reflect.TypeOf(MyStr("")), reflect.TypeOf(MyF32(0)), reflect.TypeOf(MyF64(0)),
	}
	structTypes = []reflect.Type{
		reflect.TypeOf(Plain{}), reflect.TypeOf(Tagged{}), reflect.TypeOf(Tree{}), reflect.TypeOf(Embeds{}),
		reflect.TypeOf(Empty{}), reflect.TypeOf(AllSkipped{}), reflect.TypeOf(Ptrs{}), reflect.TypeOf(Inner{}),
	}
	weirdTypes = []reflect.Type{
		reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex(1, 2)), reflect.TypeOf(uintptr(0)),
		reflect.TypeOf(map[int]string{}), reflect.TypeOf(map[interface{}]int{}), reflect.TypeOf(errHook), reflect.TypeOf(sereal.PerlAlias{}),
		reflect.TypeOf(sereal.PerlFreeze{}), reflect.TypeOf(reflect.Value{}), reflect.TypeOf((*encoding.BinaryMarshaler)(nil)).Elem(),
		reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(map[[2]int]bool{}), reflect.TypeOf((*json.Number)(nil)),
	}
)

type valOpts struct {
	share   bool // pointers may share or overlap memory
	frozen  bool
	perl    bool
	json    bool
	structs bool
	ptrs    bool
	weird   bool
	oneKey  bool // maps and structs have at most one key: deterministic output
	noMaps  bool
	dynamic bool // fresh struct types
}

func allVal() valOpts {
	return valOpts{frozen: true, perl: true, json: true, structs: true, ptrs: true, dynamic: true}
}

type valGen struct {
	r    *rand.Rand
	o    valOpts
	left int
	pool map[reflect.Type][]reflect.Value // addressable values
	keys []string
	strs []string
}

func newValGen(r *rand.Rand, o valOpts, size int) *valGen {
	return &valGen{r: r, o: o, left: size, pool: map[reflect.Type][]reflect.Value{}, keys: newKeys(r)}
}

func (g *valGen) typ(depth int) reflect.Type {
	r := g.r
	if depth <= 0 {
		return scalarTypes[r.Intn(len(scalarTypes))]
	}
	if g.o.weird && r.Intn(12) == 0 {
		return weirdTypes[r.Intn(len(weirdTypes))]
	}
	switch r.Intn(16) {
	case 0, 1, 2:
		return scalarTypes[r.Intn(len(scalarTypes))]
	case 3, 4, 5:
		return tIface
	case 6, 7:
		return reflect.SliceOf(g.typ(depth - 1))
	case 8:
		return reflect.ArrayOf([]int{0, 1, 2, 3, 17}[r.Intn(5)], g.typ(depth-1))
	case 9, 10:
		if g.o.noMaps {
			return reflect.SliceOf(tIface)
		}
		k := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(MyStr(""))}[r.Intn(3)]
		return reflect.MapOf(k, g.typ(depth-1))
	case 11:
		if g.o.ptrs {
			return reflect.PtrTo(g.typ(depth - 1))
		}
	case 12:
		if g.o.structs && !g.o.oneKey {
			if g.o.dynamic && r.Intn(2) == 0 {
				return g.structType(depth - 1)
			}
			return structTypes[r.Intn(len(structTypes))]
		}
	case 13:
		if g.o.perl {
			return []reflect.Type{tRegexp, tUndef, tObject, tWeak, reflect.PtrTo(tRegexp), reflect.PtrTo(tUndef), reflect.PtrTo(tObject), reflect.PtrTo(tWeak)}[r.Intn(8)]
		}
	case 14:
		if g.o.json {
			return tJSON
		}
	case 15:
		if g.o.frozen {
			return []reflect.Type{tFrozen, tFrozen, tFrozenI, reflect.PtrTo(tFrozen)}[r.Intn(4)]
		}
	}
	return []reflect.Type{tIface, reflect.TypeOf([]interface{}{}), reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf(MyBytes{}), reflect.TypeOf(MyList{})}[r.Intn(g.ifn(5))]
}

func (g *valGen) ifn(n int) int {
	if g.o.noMaps {
		return 2
	}
	return n
}

func (g *valGen) structType(depth int) reflect.Type {
	var fs []reflect.StructField
	used := map[string]bool{}
	for i := 0; i < g.r.Intn(6); i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: g.typ(depth)}
		if g.o.weird && g.r.Intn(8) == 0 {
			f.Name = fmt.Sprintf("f%d", i)
			f.PkgPath = pkgName
		}
		switch g.r.Intn(4) {
		case 0:
			t := g.keys[g.r.Intn(len(g.keys))]
			if t != "" && !used[t] {
				f.Tag = reflect.StructTag("sereal:" + strconv.Quote(t))
				used[t] = true
			}
		case 1:
			if g.r.Intn(3) == 0 {
				f.Tag = `sereal:"-"`
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func (g *valGen) n() int {
	if g.left <= 0 {
		return 0
	}
	if g.r.Intn(25) == 0 {
		return []int{15, 16, 17, 31, 32, 127, 128}[g.r.Intn(7)]
	}
	return g.r.Intn(5)
}

func (g *valGen) str() string {
	r := g.r
	switch r.Intn(6) {
	case 0:
		return g.keys[r.Intn(len(g.keys))]
	case 1:
		b := make([]byte, lens[r.Intn(len(lens))])
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		return string(b)
	case 2:
		if len(g.strs) > 0 {
			s := g.strs[r.Intn(len(g.strs))]
			if len(s) > 0 && g.o.share {
				return s[:1+r.Intn(len(s))] // shares memory
			}
			return s
		}
	}
	b := make([]byte, r.Intn(6))
	r.Read(b)
	g.strs = append(g.strs, string(b))
	return string(b)
}

func (g *valGen) int64() int64 {
	r := g.r
	switch r.Intn(5) {
	case 0:
		return int64(r.Intn(40) - 20)
	case 1:
		return int64(1)<<uint(r.Intn(63)) - int64(r.Intn(3)) + 1
	case 2:
		return -(int64(1) << uint(r.Intn(63))) - int64(r.Intn(3)) + 1
	case 3:
		return int64(r.Uint32()) - 1<<31
	}
	return int64(edgeU64(r))
}

// fill sets v, which is addressable, to something random.
func (g *valGen) fill(v reflect.Value, depth int) {
	r := g.r
	t := v.Type()
	g.left--
	switch t {
	case tJSON:
		v.SetString([]string{"1", "-5", "12345678901234567890", "1.5", "-0.25e10", "x", "", "99999999999999999999999", "1e400", strconv.FormatInt(g.int64(), 10)}[r.Intn(10)])
		return
	case tFrozen:
		v.Set(reflect.ValueOf(frozen{[]byte(g.str())}))
		return
	case tUndef:
		if r.Intn(2) == 0 {
			v.Set(reflect.ValueOf(*sereal.PerlCanonicalUndef()))
		}
		return
	case tRegexp:
		v.Set(reflect.ValueOf(sereal.PerlRegexp{Pattern: []byte(g.str()), Modifiers: []byte("ix")[:r.Intn(3)]}))
		return
	case tObject:
		o := sereal.PerlObject{Class: []string{"Foo", "Bar", "Plain", g.str()}[r.Intn(4)]}
		o.Reference = g.any(depth - 1)
		v.Set(reflect.ValueOf(o))
		return
	case tWeak:
		v.Set(reflect.ValueOf(sereal.PerlWeakRef{Reference: g.any(depth - 1)}))
		return
	case reflect.PtrTo(tUndef):
		if r.Intn(2) == 0 {
			v.Set(reflect.ValueOf(sereal.PerlCanonicalUndef()))
			return
		}
	case tBytes:
		if r.Intn(8) > 0 {
			v.SetBytes([]byte(g.str()))
		}
		return
	}
	if g.o.share && v.CanAddr() {
		p := g.pool[t]
		// containers that share memory with earlier ones
		if len(p) > 0 && r.Intn(3) == 0 {
			o := p[r.Intn(len(p))]
			switch t.Kind() {
			case reflect.Slice:
				a := r.Intn(o.Len() + 1)
				b := a + r.Intn(o.Len()-a+1)
				v.Set(o.Slice(a, b))
				return
			case reflect.Map, reflect.Ptr:
				v.Set(o)
				return
			}
		}
		if k := t.Kind(); k == reflect.Slice || k == reflect.Map {
			defer g.note(v) // cycles only through pointers
		} else {
			g.note(v)
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.int64())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(g.int64()))
	case reflect.Float32:
		v.SetFloat(float64(math.Float32frombits(edgeF32(r))))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(edgeF64(r)))
	case reflect.String:
		v.SetString(g.str())
	case reflect.Interface:
		if t.NumMethod() == 0 && r.Intn(8) > 0 {
			if x := g.any(depth - 1); x != nil {
				v.Set(reflect.ValueOf(x))
			}
		} else if reflect.TypeOf(frozen{}).Implements(t) && r.Intn(2) == 0 {
			v.Set(reflect.ValueOf(frozen{[]byte(g.str())}))
		}
	case reflect.Slice:
		if r.Intn(10) > 0 {
			n := g.n()
			v.Set(reflect.MakeSlice(t, n, n+r.Intn(2)))
			for i := 0; i < n; i++ {
				g.fill(v.Index(i), depth-1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth-1)
		}
	case reflect.Map:
		if r.Intn(10) > 0 {
			v.Set(reflect.MakeMap(t))
			n := g.n()
			if g.o.oneKey && n > 1 {
				n = 1
			}
			for i := 0; i < n; i++ {
				k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
				if t.Key().Kind() == reflect.String {
					k.SetString(g.str())
				} else if t.Key() == tIface {
					k.Set(reflect.ValueOf([]interface{}{g.str(), MyStr(g.str()), 1, "x"}[r.Intn(4)]))
				} else {
					g.fill(k, 0)
				}
				g.fill(e, depth-1)
				v.SetMapIndex(k, e)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				g.fill(v.Field(i), depth-1)
			}
		}
	case reflect.Ptr:
		if t.Elem() == tUndef {
			v.Set(reflect.New(t.Elem()))
			return
		}
		if depth <= 0 || g.left < 0 || r.Intn(8) == 0 {
			return
		}
		if p := g.pool[t.Elem()]; g.o.share && len(p) > 0 && r.Intn(2) == 0 {
			v.Set(p[r.Intn(len(p))].Addr())
			return
		}
		n := reflect.New(t.Elem())
		g.fill(n.Elem(), depth-1)
		v.Set(n)
	}
}

func (g *valGen) note(v reflect.Value) {
	g.pool[v.Type()] = append(g.pool[v.Type()], v)
}

func (g *valGen) any(depth int) interface{} {
	if g.r.Intn(15) == 0 {
		return nil
	}
	if g.o.share && g.r.Intn(3) == 0 {
		// a pointer to something made before
		for _, p := range g.pool {
			v := p[g.r.Intn(len(p))]
			if v.CanAddr() && v.CanInterface() {
				return v.Addr().Interface()
			}
		}
	}
	v := reflect.New(g.typ(depth)).Elem()
	g.fill(v, depth)
	return v.Interface()
}

// encMatcher compares a value with the document made of it.
type encMatcher struct {
	perl, noFreeze bool
	seen           map[seenKey]bool
}

func newEncMatcher(perl, noFreeze bool) *encMatcher {
	return &encMatcher{perl: perl, noFreeze: noFreeze, seen: map[seenKey]bool{}}
}

// deref follows references down to what is not one.
func deref(n *Node) *Node {
	for i := 0; n != nil && n.k == kRef; i++ {
		if i > 10000 {
			return nil // a cycle of references
		}
		n = n.kids[0]
	}
	return n
}

func (m *encMatcher) match(n *Node, v reflect.Value, path string) error {
	n = deref(n)
	var last uintptr
	for i := 0; v.IsValid() && (v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr); i++ {
		if i > 10000 {
			if n == nil {
				return nil
			}
			return rerr("%s: a cycle of pointers became %v", path, n)
		}
		if v.Kind() == reflect.Ptr {
			last = v.Pointer()
		}
		v = v.Elem()
	}
	if n == nil {
		return rerr("%s: document has a cycle of references", path)
	}
	if !v.IsValid() {
		if n.k == kUndef {
			return nil
		}
		return rerr("%s: nil encoded as %v", path, n)
	}
	bad := func() error { return rerr("%s: value %s encoded as %v", path, showRV(v), n) }
	if last != 0 {
		k := seenKey{n, last, v.Type()}
		if m.seen[k] {
			return nil
		}
		m.seen[k] = true
	}
	switch x := v.Interface().(type) {
	case sereal.PerlUndef:
		if (n.k == kCUndef) == (x == *sereal.PerlCanonicalUndef()) && (n.k == kUndef || n.k == kCUndef) {
			return nil
		}
		return bad()
	case sereal.PerlRegexp:
		if n.k == kRegexp && bytes.Equal(n.b, x.Pattern) && bytes.Equal(n.mods, x.Modifiers) {
			return nil
		}
		return bad()
	case sereal.PerlObject:
		if n.k == kObject && string(n.b) == x.Class {
			return m.match(n.kids[0], reflect.ValueOf(x.Reference), path+"<obj>")
		}
		return bad()
	case sereal.PerlWeakRef:
		if n.k == kWeaken {
			return m.match(n.kids[0], reflect.ValueOf(x.Reference), path+"<weak>")
		}
		return bad()
	case json.Number:
		return m.jsonNumber(n, x, path)
	}
	if v.Type().Implements(tMarsh) && !m.noFreeze {
		data, err := v.Interface().(encoding.BinaryMarshaler).MarshalBinary()
		if err != nil {
			return rerr("%s: encoded though MarshalBinary failed", path)
		}
		got, ok := []byte(nil), false
		if n.k == kFreeze {
			got, ok = freezeData(n)
		}
		if ok && bytes.Equal(got, data) && string(n.b) == v.Type().PkgPath()+"."+v.Type().Name() {
			return nil
		}
		return bad()
	}
	switch v.Kind() {
	case reflect.Bool:
		if n.k == kBool && (n.mag == 1) == v.Bool() {
			return nil
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if i, ok := n.isInt64(); n.k == kInt && ok && i == v.Int() {
			return nil
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n.k == kInt && !n.neg && n.mag == v.Uint() {
			return nil
		}
	case reflect.Float32:
		if n.k == kF32 && sameF32(uint32(n.bits), math.Float32bits(float32(v.Float()))) {
			return nil
		}
	case reflect.Float64:
		if n.k == kF64 && n.bits == math.Float64bits(v.Float()) {
			return nil
		}
	case reflect.String:
		if n.k == kStr && string(n.b) == v.String() {
			return nil
		}
	case reflect.Slice, reflect.Array:
		if v.Type() == tBytes {
			if n.k == kBytes && bytes.Equal(n.b, v.Bytes()) {
				return nil
			}
			return bad()
		}
		if n.k != kArray {
			return bad()
		}
		if len(n.kids) != v.Len() {
			return rerr("%s: %d elements encoded as %d items", path, v.Len(), len(n.kids))
		}
		if v.Kind() == reflect.Slice && v.Len() > 0 {
			k := seenKey{n, v.Pointer(), v.Type()}
			if m.seen[k] {
				return nil
			}
			m.seen[k] = true
		}
		for i, c := range n.kids {
			if err := m.match(c, v.Index(i), fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if n.k != kHash {
			return bad()
		}
		if len(n.kids) != v.Len() {
			return rerr("%s: %d entries encoded as %d pairs", path, v.Len(), len(n.kids))
		}
		if v.Len() > 0 {
			k := seenKey{n, v.Pointer(), v.Type()}
			if m.seen[k] {
				return nil
			}
			m.seen[k] = true
		}
		last := lastPairs(n)
		it := v.MapRange()
		for it.Next() {
			key := it.Key()
			if key.Kind() == reflect.Interface {
				key = key.Elem()
			}
			if key.Kind() != reflect.String {
				return bad()
			}
			c, ok := last[key.String()]
			if !ok {
				return rerr("%s: key %q is missing", path, key.String())
			}
			if err := m.match(c, it.Value(), fmt.Sprintf("%s{%q}", path, key.String())); err != nil {
				return err
			}
		}
		return nil
	case reflect.Struct:
		if n.k != kObject || string(n.b) != v.Type().Name() {
			return bad()
		}
		h := deref(n.kids[0])
		if h == nil || h.k != kHash {
			return bad()
		}
		fields := fieldKeys(v.Type())
		if fields == nil {
			return nil
		}
		if len(h.kids) != len(fields) {
			return rerr("%s: %d fields encoded as %d pairs", path, len(fields), len(h.kids))
		}
		last := lastPairs(h)
		for name, i := range fields {
			c, ok := last[name]
			if !ok {
				return rerr("%s: field %q is missing", path, name)
			}
			if err := m.match(c, v.Field(i), path+"."+name); err != nil {
				return err
			}
		}
		return nil
	}
	return bad()
}

func sameF32(a, b uint32) bool {
	if a == b {
		return true
	}
	// converting a signalling NaN through float64 quiets it
	nan := func(u uint32) bool { return u&0x7f800000 == 0x7f800000 && u&0x7fffff != 0 }
	return nan(a) && nan(b) && a|0x400000 == b|0x400000
}

func (m *encMatcher) jsonNumber(n *Node, x json.Number, path string) error {
	if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
		if j, ok := n.isInt64(); n.k == kInt && ok && i == j {
			return nil
		}
		return rerr("%s: json.Number %q encoded as %v", path, x, n)
	} else if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
		if n.k == kStr && string(n.b) == string(x) {
			return nil
		}
		return rerr("%s: json.Number %q encoded as %v", path, x, n)
	}
	if f, err := strconv.ParseFloat(string(x), 64); err == nil {
		if n.k == kF64 && n.bits == math.Float64bits(f) {
			return nil
		}
	} else if n.k == kStr && string(n.b) == string(x) {
		return nil
	}
	return rerr("%s: json.Number %q encoded as %v", path, x, n)
}

// levels is the number of recursion levels encoding v takes, -1 if it does not end.
func levels(v reflect.Value, noFreeze bool, limit int) int {
	if limit < 0 {
		return 1 << 20
	}
	if !v.IsValid() {
		return 0
	}
	if v.Kind() != reflect.Ptr && !noFreeze && v.Kind() != reflect.Interface && v.Type().Implements(tMarsh) {
		return 0
	}
	max := 0
	sub := func(x reflect.Value) {
		if l := levels(x, noFreeze, limit-1); l > max {
			max = l
		}
	}
	switch v.Kind() {
	case reflect.Interface:
		return levels(v.Elem(), noFreeze, limit)
	case reflect.Ptr:
		sub(v.Elem())
		return max + 1
	case reflect.Slice, reflect.Array:
		if v.Type() == tBytes {
			return 0
		}
		for i := 0; i < v.Len(); i++ {
			sub(v.Index(i))
		}
		return max + 1
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			sub(it.Value())
		}
		return max + 1
	case reflect.Struct:
		switch x := v.Interface().(type) {
		case sereal.PerlUndef, sereal.PerlRegexp:
			return 0
		case sereal.PerlObject:
			return levels(reflect.ValueOf(x.Reference), noFreeze, limit)
		case sereal.PerlWeakRef:
			return levels(reflect.ValueOf(x.Reference), noFreeze, limit)
		}
		for _, i := range fieldKeys(v.Type()) {
			sub(v.Field(i))
		}
		return max + 1
	}
	return 0
}
