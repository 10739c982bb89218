//go:build go1.21

package main

// What a document item must look like as a Go value.

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"
)

type matcher struct {
	perl, dri bool
	seen      map[seenKey]bool
	maps      map[*Node]uintptr
	active    map[*Node]bool // references being compared with one value
	// items that went into destinations of their own type
	typedAt  map[*Node]reflect.Type
	typedNow map[*Node]int
	// reports that the comparison met something the property leaves open
	open string
	reg  map[string]bool // registered class names
}

type seenKey struct {
	n *Node
	p uintptr
	t reflect.Type
}

func newMatcher(perl, dri bool) *matcher {
	return &matcher{perl: perl, dri: dri, seen: map[seenKey]bool{}, maps: map[*Node]uintptr{}, active: map[*Node]bool{}, typedAt: map[*Node]reflect.Type{}, typedNow: map[*Node]int{}}
}

func show(v interface{}) string {
	s := fmt.Sprintf("%T(%#v)", v, v)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// showSafe avoids following cycles
func showKind(v interface{}) string {
	switch v.(type) {
	case nil, bool, int, uint, float32, float64, string, []byte, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
		return show(v)
	}
	return fmt.Sprintf("%T", v)
}

// iface checks what decoding n into an empty interface{} gave.
func (m *matcher) iface(n *Node, v interface{}, path string) error {
	bad := func() error { return rerr("%s: document has %v, decoded %s", path, n, showKind(v)) }
	if t, ok := m.typedAt[n]; ok && v != nil && reflect.TypeOf(v) == t {
		if m.typedNow[n] > 0 {
			m.open = "reference to an enclosing item"
			return nil
		}
		return m.typed(n, reflect.ValueOf(v), path)
	}
	switch n.k {
	case kInt:
		switch x := v.(type) {
		case int:
			if i, ok := n.isInt64(); ok && int64(x) == i {
				return nil
			}
		case uint:
			if !n.neg && n.mag > math.MaxInt64 && uint64(x) == n.mag {
				return nil
			}
		}
		return bad()
	case kF32:
		if x, ok := v.(float32); ok && (uint64(math.Float32bits(x)) == n.bits) {
			return nil
		}
		return bad()
	case kF64:
		if x, ok := v.(float64); ok && math.Float64bits(x) == n.bits {
			return nil
		}
		return bad()
	case kBool:
		if x, ok := v.(bool); ok && x == (n.mag == 1) {
			return nil
		}
		return bad()
	case kUndef, kCUndef:
		if !m.perl {
			if v == nil {
				return nil
			}
			return bad()
		}
		if x, ok := v.(*sereal.PerlUndef); ok && x != nil && (x == sereal.PerlCanonicalUndef()) == (n.k == kCUndef) {
			return nil
		}
		return bad()
	case kBytes:
		if x, ok := v.([]byte); ok && bytes.Equal(x, n.b) {
			return nil
		}
		return bad()
	case kStr:
		if x, ok := v.(string); ok && x == string(n.b) {
			return nil
		}
		return bad()
	case kRegexp:
		if x, ok := v.(*sereal.PerlRegexp); ok && x != nil && bytes.Equal(x.Pattern, n.b) && bytes.Equal(x.Modifiers, n.mods) {
			return nil
		}
		return bad()
	case kFreeze:
		data, ok := freezeData(n)
		if !ok {
			return rerr("%s: malformed FREEZE accepted", path)
		}
		if m.reg[string(n.b)] && !m.perl {
			if x, ok := v.(*frozen); ok && x != nil && bytes.Equal(x.Data, data) {
				return nil
			}
			return bad()
		}
		if x, ok := v.(*sereal.PerlFreeze); ok && x != nil && x.Class == string(n.b) && bytes.Equal(x.Data, data) {
			return nil
		}
		return bad()
	case kRef:
		done, err := m.enter(n, v, path)
		if done || err != nil {
			return err
		}
		defer delete(m.active, n)
		if n.refp {
			return m.refp(n, v, path)
		}
		if !m.perl {
			return m.iface(n.kids[0], v, path)
		}
		if !n.short && n.tracked {
			p, ok := v.(*interface{})
			if !ok || p == nil {
				return bad()
			}
			return m.iface(n.kids[0], *p, path+"*")
		}
		rv := reflect.ValueOf(v)
		if rv.Kind() != reflect.Ptr || rv.IsNil() {
			return bad()
		}
		return m.iface(n.kids[0], rv.Elem().Interface(), path+"*")
	case kWeaken:
		if !m.perl {
			return m.iface(n.kids[0], v, path)
		}
		if x, ok := v.(*sereal.PerlWeakRef); ok && x != nil {
			return m.iface(n.kids[0], x.Reference, path+"~")
		}
		return bad()
	case kObject:
		if !m.perl {
			return m.iface(n.kids[0], v, path)
		}
		if x, ok := v.(*sereal.PerlObject); ok && x != nil && x.Class == string(n.b) {
			return m.iface(n.kids[0], x.Reference, path+"<obj>")
		}
		return bad()
	case kArray:
		x, ok := v.([]interface{})
		if !ok || x == nil || len(x) != len(n.kids) {
			if ok {
				return rerr("%s: array of %d items decoded to %d elements", path, len(n.kids), len(x))
			}
			return bad()
		}
		if len(x) > 0 {
			if m.visit(n, reflect.ValueOf(x)) {
				return nil
			}
			if err := m.identity(n, reflect.ValueOf(x).Pointer(), path); err != nil {
				return err
			}
		}
		for i, k := range n.kids {
			if err := m.iface(k, x[i], fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case kHash:
		x, ok := v.(map[string]interface{})
		if !ok || x == nil {
			return bad()
		}
		if m.visit(n, reflect.ValueOf(x)) {
			return nil
		}
		if err := m.identity(n, reflect.ValueOf(x).Pointer(), path); err != nil {
			return err
		}
		last := lastPairs(n)
		if len(last) != len(x) {
			return rerr("%s: hash with %d distinct keys decoded to %d entries", path, len(last), len(x))
		}
		for k, c := range last {
			y, ok := x[k]
			if !ok {
				return rerr("%s: key %q is missing", path, k)
			}
			if err := m.iface(c, y, fmt.Sprintf("%s{%q}", path, k)); err != nil {
				return err
			}
		}
		return nil
	}
	return bad()
}

func lastPairs(n *Node) map[string]*Node {
	last := map[string]*Node{}
	for i, k := range n.keys {
		last[string(k)] = n.kids[i]
	}
	return last
}

// freezeData returns the frozen bytes of a REFN ARRAY(1) BINARY item.
func freezeData(n *Node) ([]byte, bool) {
	r := n.kids[0]
	if r == nil || r.k != kRef || r.refp || r.short || r.kids[0].k != kArray || len(r.kids[0].kids) != 1 {
		return nil, false
	}
	d := r.kids[0].kids[0]
	for i := 0; i < 100 && (d.k == kObject || d.k == kWeaken || d.k == kRef); i++ {
		d = d.kids[0] // the decoder looks through these
	}
	if d.k != kBytes {
		return nil, false
	}
	return d.b, true
}

// enter keeps the comparison from following a cycle of references forever.
func (m *matcher) enter(n *Node, v interface{}, path string) (bool, error) {
	if rv := reflect.ValueOf(v); rv.Kind() == reflect.Ptr && !rv.IsNil() || rv.Kind() == reflect.Map || rv.Kind() == reflect.Slice && rv.Len() > 0 {
		return m.visit(n, rv), nil
	}
	if m.active[n] {
		// references that lead to nothing but themselves
		return true, rerr("%s: a reference to itself decoded to %s", path, showKind(v))
	}
	m.active[n] = true
	return false, nil
}

func (m *matcher) visit(n *Node, v reflect.Value) bool {
	k := seenKey{n, v.Pointer(), v.Type()}
	if m.seen[k] {
		return true
	}
	m.seen[k] = true
	return false
}

// identity checks that one container stays one container.
func (m *matcher) identity(n *Node, p uintptr, path string) error {
	if q, ok := m.maps[n]; ok && q != p {
		return rerr("%s: the same item decoded to two different containers", path)
	}
	m.maps[n] = p
	return nil
}

func (m *matcher) refp(n *Node, v interface{}, path string) error {
	t := n.kids[0]
	if m.dri {
		return m.iface(t, v, path)
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Ptr || rv.IsNil() {
		return rerr("%s: reference decoded to %s", path, showKind(v))
	}
	return m.iface(t, rv.Elem().Interface(), path+"*")
}

// typed checks what decoding n into a fresh destination of v's type gave.
func (m *matcher) typed(n *Node, v reflect.Value, path string) error {
	bad := func() error {
		return rerr("%s: document has %v, destination of type %v holds %s", path, n, v.Type(), showRV(v))
	}
	if v.Kind() == reflect.Interface {
		if v.NumMethod() > 0 {
			m.open = "non-empty interface"
			return nil
		}
		if v.IsNil() {
			return m.iface(n, nil, path)
		}
		return m.iface(n, v.Interface(), path)
	}
	if n.tracked {
		if m.typedNow[n] == 0 {
			m.typedAt[n] = v.Type()
		}
		m.typedNow[n]++
		defer func() { m.typedNow[n]-- }()
	}
	switch n.k {
	case kRef, kWeaken, kObject:
		if m.perl && n.k != kRef {
			m.open = "perl types"
			return nil
		}
		if n.refp && !n.kids[0].done {
			m.open = "reference to an enclosing item"
			return nil
		}
		return m.typed(n.kids[0], v, path)
	case kUndef, kCUndef:
		if m.perl {
			m.open = "perl types"
			return nil
		}
		if v.IsZero() {
			return nil
		}
		return bad()
	case kFreeze:
		data, ok := freezeData(n)
		if !ok {
			return rerr("%s: malformed FREEZE accepted", path)
		}
		if f, ok := v.Interface().(frozen); ok {
			if bytes.Equal(f.Data, data) {
				return nil
			}
			return bad()
		}
		if f, ok := v.Interface().(*frozen); ok {
			if f != nil && bytes.Equal(f.Data, data) {
				return nil
			}
			return bad()
		}
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 && bytes.Equal(v.Bytes(), data) {
			return nil
		}
		if f, ok := v.Interface().(*frozenInt); ok && f != nil {
			v = v.Elem()
		}
		if f, ok := v.Interface().(frozenInt); ok {
			var g frozenInt
			if g.UnmarshalBinary(data) == nil && f == g {
				return nil
			}
		}
		return bad()
	case kRegexp:
		if f, ok := v.Interface().(*sereal.PerlRegexp); ok && f != nil && bytes.Equal(f.Pattern, n.b) && bytes.Equal(f.Modifiers, n.mods) {
			return nil
		}
		return bad()
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n.k != kInt {
			return bad()
		}
		i, ok := n.isInt64()
		if !ok || v.OverflowInt(i) {
			m.open = "not representable"
			return nil
		}
		if v.Int() != i {
			return bad()
		}
		return nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n.k != kInt {
			return bad()
		}
		if n.neg || v.OverflowUint(n.mag) {
			m.open = "not representable"
			return nil
		}
		if v.Uint() != n.mag {
			return bad()
		}
		return nil
	case reflect.Float32:
		switch n.k {
		case kF32:
			f := math.Float32frombits(uint32(n.bits))
			if float32(v.Float()) == f || f != f && v.Float() != v.Float() {
				return nil
			}
		case kF64:
			f := math.Float64frombits(n.bits)
			if v.OverflowFloat(f) || float64(float32(f)) != f {
				m.open = "not representable"
				return nil
			}
			if v.Float() == f {
				return nil
			}
		}
		return bad()
	case reflect.Float64:
		f := math.NaN()
		switch n.k {
		case kF32:
			f = float64(math.Float32frombits(uint32(n.bits)))
		case kF64:
			f = math.Float64frombits(n.bits)
		default:
			return bad()
		}
		if math.Float64bits(v.Float()) == math.Float64bits(f) || f != f && v.Float() != v.Float() {
			return nil
		}
		return bad()
	case reflect.Bool:
		if n.k == kBool && v.Bool() == (n.mag == 1) {
			return nil
		}
		return bad()
	case reflect.String:
		if (n.k == kStr || n.k == kBytes) && v.String() == string(n.b) {
			return nil
		}
		return bad()
	case reflect.Ptr:
		if n.k == kHash && !v.IsNil() {
			if m.visit(n, v) {
				return nil
			}
			return m.typed(n, v.Elem(), path+"*")
		}
		return bad()
	case reflect.Slice:
		if n.k == kBytes && v.Type().Elem().Kind() == reflect.Uint8 {
			if bytes.Equal(v.Bytes(), n.b) {
				return nil
			}
			return bad()
		}
		if n.k != kArray {
			return bad()
		}
		if v.Len() != len(n.kids) {
			return rerr("%s: array of %d items decoded to %d elements", path, len(n.kids), v.Len())
		}
		if v.Len() > 0 && m.visit(n, v) {
			return nil
		}
		for i, k := range n.kids {
			if err := m.typed(k, v.Index(i), fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Array:
		if n.k == kBytes && v.Type().Elem().Kind() == reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				w := uint64(0)
				if i < len(n.b) {
					w = uint64(n.b[i])
				}
				if v.Index(i).Uint() != w {
					return bad()
				}
			}
			return nil
		}
		if n.k != kArray {
			return bad()
		}
		for i := 0; i < v.Len(); i++ {
			if i >= len(n.kids) {
				if !v.Index(i).IsZero() {
					return bad()
				}
			} else if err := m.typed(n.kids[i], v.Index(i), fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if n.k != kHash {
			return bad()
		}
		if !v.IsNil() && m.visit(n, v) {
			return nil
		}
		last := lastPairs(n)
		if len(last) != len(n.keys) {
			m.open = "duplicate keys"
			return nil
		}
		if v.Len() != len(last) || v.IsNil() {
			return rerr("%s: hash of %d keys decoded to %d entries", path, len(last), v.Len())
		}
		for k, c := range last {
			y := v.MapIndex(reflect.ValueOf(k).Convert(v.Type().Key()))
			if !y.IsValid() {
				return rerr("%s: key %q is missing", path, k)
			}
			if err := m.typed(c, y, fmt.Sprintf("%s{%q}", path, k)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Struct:
		if n.k != kHash {
			return bad()
		}
		want := map[int]*Node{}
		fields := fieldKeys(v.Type())
		if fields == nil {
			m.open = "ambiguous field names"
			return nil
		}
		for i, k := range n.keys {
			f, ok := fields[string(k)]
			if !ok {
				f, ok = fields[strings.Title(string(k))]
			}
			if !ok {
				continue
			}
			if want[f] != nil {
				m.open = "several keys for one field"
				return nil
			}
			want[f] = n.kids[i]
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			if want[i] == nil {
				if !v.Field(i).IsZero() {
					return rerr("%s: field %s was set though no key names it", path, v.Type().Field(i).Name)
				}
			} else if err := m.typed(want[i], v.Field(i), path+"."+v.Type().Field(i).Name); err != nil {
				return err
			}
		}
		return nil
	}
	return bad()
}

func showRV(v reflect.Value) string {
	if v.CanInterface() {
		return showKind(v.Interface())
	}
	return v.Kind().String()
}

// fieldKeys maps keys to field indices by the documented rule; nil if two
// fields claim one key.
func fieldKeys(t reflect.Type) map[string]int {
	m := map[string]int{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		key := f.Tag.Get("sereal")
		if key == "-" {
			continue
		}
		if key == "" {
			if f.PkgPath != "" {
				continue
			}
			key = f.Name
		}
		if _, dup := m[key]; dup {
			return nil
		}
		m[key] = i
	}
	return m
}
