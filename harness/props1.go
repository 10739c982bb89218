//go:build go1.21

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"
)

func encoder(v int) *sereal.Encoder {
	switch v {
	case 1:
		return sereal.NewEncoder()
	case 2:
		return sereal.NewEncoderV2()
	}
	return sereal.NewEncoderV3()
}

// parsed is an encoded document as the oracle reads it.
type parsed struct {
	h    refHead
	body []byte
	n    *Node
	r    *refDoc
}

// parseDoc insists on a complete document with nothing after the body.
func parseDoc(b []byte, canonical bool) (*parsed, error) {
	h, body, err := refPlain(b)
	if err != nil {
		return nil, rerr("not a document: %v", err)
	}
	r := &refDoc{by: body, base: h.base, tracked: map[int]*Node{}, budget: 2000000, canonical: canonical}
	n, end, err := r.item(0)
	if err != nil {
		if r.ambiguous == "too large" {
			return nil, errTooLarge
		}
		return nil, rerr("malformed body: %v", err)
	}
	for end < len(body) && body[end]&0x7f == 0x3f {
		end++
	}
	if end != len(body) {
		return nil, rerr("%d bytes after the body", len(body)-end)
	}
	return &parsed{h, body, n, r}, nil
}

var errTooLarge = rerr("too large")

func rawDoc(r *rand.Rand, body []byte, version int) []byte {
	return append(genHead(r, version, 0, nil), body...)
}

func decodeAny(doc []byte) (interface{}, error) {
	var v interface{}
	err := sereal.Unmarshal(doc, &v)
	return v, err
}

func init() {
	properties["C01"] = property{c01, "random quantities (all varint lengths, boundaries), values, documents with padded, truncated and overlong varints, and merges; non-trivial: the case has a varint of two or more bytes"}
	properties["C02"] = property{c02, "random integers of every type, alone and inside containers, and every integer form of the format; non-trivial: not a single-byte integer"}
	properties["C03"] = property{c03, "random scalars, strings and byte slices with boundary lengths; non-trivial: more than two encoded bytes"}
	properties["C04"] = property{c04, "mutated and random documents, random options and destinations; non-trivial: the header is accepted"}
	properties["C05"] = property{c05, "valid documents, mutated documents and all short bodies compared with an independent reader; non-trivial: the reader accepts the body"}
	properties["C06"] = property{c06, "random headers; non-trivial: valid magic for its version"}
	properties["C07"] = property{c07, "random values and header values, encoders of all versions; non-trivial: encoded, with more than 4 bytes of body"}
	properties["C08"] = property{c08, "random values with repeated keys and class names, with and without deduplication; non-trivial: at least one COPY"}
	properties["C09"] = property{c09, "random containers, with failing elements in random places; non-trivial: at least one container"}
	properties["C10"] = property{c10, "random nesting and limits; non-trivial: at least one level"}
	properties["C11"] = property{c11, "random sequences of calls on one object against fresh objects; non-trivial: at least two calls"}
	properties["C12"] = property{c12, "random bodies, compressors, thresholds, and damaged compressed documents; non-trivial: a compressed document"}
	properties["C13"] = property{c13, "valid and damaged documents of all types with random destination buffers; non-trivial: accepted"}
}

func c01(c *ctx) error {
	r := c.r
	v := edgeU64(r)
	ver := 1 + r.Intn(3)
	switch r.Intn(6) {
	case 0:
		c.say("uint64", "%d", v)
		c.nt = v > 127
		b, err := encoder(ver).Marshal(v)
		if err != nil {
			return err
		}
		if v > 15 {
			want := putVarint([]byte{0x20}, v)
			if len(b) < 6 || !bytes.Equal(b[6:], want) {
				return rerr("uint64 %d encoded as %x, expected body %x", v, b, want)
			}
		}
		x, err := decodeAny(b)
		if err != nil {
			return err
		}
		return newMatcher(false, false).iface(&Node{k: kInt, mag: v}, x, "value")
	case 1:
		n := []int{31, 32, 127, 128, 129, 255, 16383, 16384, 16385, 2097151, 2097152}[r.Intn(11)]
		if n > 100000 && r.Intn(20) > 0 {
			n = r.Intn(20000)
		}
		c.say("length", "%d", n)
		c.nt = n > 127
		b, err := encoder(ver).Marshal(strings.Repeat("x", n))
		if err != nil {
			return err
		}
		want := append(putVarint([]byte{0x27}, uint64(n)), bytes.Repeat([]byte("x"), n)...)
		if !bytes.Equal(b[6:], want) {
			return rerr("string of %d bytes: length or bytes wrong", n)
		}
	case 2: // any varint of at most ten bytes
		raw := make([]byte, 1+r.Intn(10))
		r.Read(raw)
		for i := range raw {
			if i < len(raw)-1 {
				raw[i] |= 0x80
				if r.Intn(2) == 0 {
					raw[i] &= 0x80
				}
			} else {
				raw[i] &= 0x7f
				if r.Intn(2) == 0 {
					raw[i] = 0
				}
			}
		}
		for i := 0; i < len(raw)-1; i++ {
			raw[i] |= 0x80
		}
		tag := byte(0x20 + r.Intn(2))
		body := append([]byte{0x2b, 2, tag}, raw...)
		body = append(body, 7)
		doc := rawDoc(r, body, ver)
		c.in("doc", doc)
		c.nt = len(raw) > 1
		n, _, _, err := refBody(body, 1)
		if err != nil {
			return err
		}
		x, err := decodeAny(doc)
		if err != nil {
			return rerr("varint %x: %v", raw, err)
		}
		return newMatcher(false, false).iface(n, x, "value")
	case 3: // unterminated or too long
		raw := bytes.Repeat([]byte{0x80 | byte(r.Intn(128))}, 1+r.Intn(14))
		tags := []byte{0x20, 0x21, 0x26, 0x27, 0x2a, 0x2b, 0x29, 0x2f, 0x2e, 0x2d}
		body := append([]byte{tags[r.Intn(len(tags))]}, raw...)
		if len(raw) > 9 {
			body = append(body, 1, 1, 1)
		}
		doc := rawDoc(r, body, ver)
		c.in("doc", doc)
		c.nt = true
		if x, err := decodeAny(doc); err == nil {
			return rerr("varint %x accepted: %s", raw, showKind(x))
		}
		if r.Intn(2) == 0 {
			m := sereal.NewMerger()
			if _, err := m.Append(doc); err == nil {
				return rerr("merger accepted varint %x", raw)
			}
		}
	case 4:
		g := newValGen(r, allVal(), 40)
		x := g.any(5)
		b, err := encoder(ver).MarshalWithHeader(nil, x)
		if err != nil {
			return nil
		}
		c.in("doc", b)
		c.nt = len(b) > 134
		if _, err := parseDoc(b, true); err != nil && err != errTooLarge {
			return err
		}
	case 5:
		m := sereal.NewMergerV3()
		m.DedupeStrings = r.Intn(2) == 0
		o := allDoc()
		o.nonMin, o.copyClass = false, false
		for i := r.Intn(6); i >= 0; i-- {
			d := genDocument(r, o, []int{1, 2, 3}, false, 30)
			c.in("doc", d.doc)
			m.Append(d.doc)
		}
		b, err := m.Finish()
		if err != nil {
			return err
		}
		c.nt = len(b) > 134
		_, err = parseDoc(b, true)
		return err
	}
	return nil
}

func c02(c *ctx) error {
	r := c.r
	ver := 1 + r.Intn(3)
	ints := []reflect.Type{}
	for _, t := range scalarTypes {
		switch t.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			ints = append(ints, t)
		}
	}
	var n *Node
	var doc []byte
	if r.Intn(3) > 0 {
		t := ints[r.Intn(len(ints))]
		v := reflect.New(t).Elem()
		newValGen(r, valOpts{}, 1).fill(v, 0)
		n = &Node{k: kInt}
		if v.Kind() >= reflect.Uint {
			n.mag = v.Uint()
		} else if i := v.Int(); i < 0 {
			n.neg, n.mag = true, uint64(-(i+1))+1
		} else {
			n.mag = uint64(i)
		}
		var x interface{}
		wrap := r.Intn(6)
		switch wrap {
		case 0:
			x = v.Interface()
		case 1:
			x = []interface{}{v.Interface(), 5}
		case 2:
			s := reflect.MakeSlice(reflect.SliceOf(t), 1, 1)
			s.Index(0).Set(v)
			x = s.Interface()
			if t.Kind() == reflect.Uint8 && t == reflect.TypeOf(uint8(0)) {
				x = []interface{}{v.Interface()}
			}
		case 3:
			x = map[string]interface{}{"k": v.Interface()}
		case 4:
			p := reflect.New(t)
			p.Elem().Set(v)
			x = p.Interface()
		case 5:
			mm := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
			mm.SetMapIndex(reflect.ValueOf("k"), v)
			x = mm.Interface()
		}
		c.say("value", "%T %v v%d wrap%d", v.Interface(), v.Interface(), ver, wrap)
		b, err := encoder(ver).Marshal(x)
		if err != nil {
			return err
		}
		p, err := parseDoc(b, false)
		if err != nil {
			return err
		}
		if err := newEncMatcher(false, false).match(p.n, reflect.ValueOf(x), "value"); err != nil {
			return err
		}
		doc = b
		got, err := decodeAny(b)
		if err != nil {
			return err
		}
		if err := newMatcher(false, false).iface(p.n, got, "value"); err != nil {
			return err
		}
		if wrap != 0 && wrap != 4 {
			c.nt = true
			// into the container's own type
			dst := reflect.New(reflect.TypeOf(x))
			if err := sereal.Unmarshal(b, dst.Interface()); err != nil {
				return rerr("into its own type: %v", err)
			}
			return newMatcher(false, false).typed(p.n, dst.Elem(), "value")
		}
	} else {
		g := &docGen{r: r, o: docOpts{nonMin: true}, base: 1}
		switch r.Intn(3) {
		case 0:
			g.buf = append(g.buf, byte(r.Intn(32)))
		case 1:
			g.buf = append(g.buf, 0x20)
			g.varint(edgeU64(r))
		case 2:
			g.buf = append(g.buf, 0x21)
			g.varint(edgeU64(r))
		}
		var err error
		if n, _, _, err = refBody(g.buf, 1); err != nil {
			return err
		}
		doc = rawDoc(r, g.buf, 2+r.Intn(2))
		got, err := decodeAny(doc)
		if err != nil {
			return err
		}
		if err := newMatcher(false, false).iface(n, got, "value"); err != nil {
			return err
		}
	}
	c.in("doc", doc)
	c.nt = c.nt || len(doc) > 7
	t := ints[r.Intn(len(ints))]
	dst := reflect.New(t)
	err := sereal.Unmarshal(doc, dst.Interface())
	m := newMatcher(false, false)
	cmp := m.typed(n, dst.Elem(), "value")
	if m.open != "" {
		return nil
	}
	if err != nil {
		return rerr("into %v: %v", t, err)
	}
	return cmp
}

func c03(c *ctx) error {
	r := c.r
	ver := 1 + r.Intn(3)
	var x interface{}
	var want []byte
	str := func() []byte {
		b := make([]byte, lens[r.Intn(len(lens))])
		if r.Intn(50) == 0 {
			b = make([]byte, []int{16383, 16384, 70000}[r.Intn(3)])
		}
		r.Read(b)
		return b
	}
	switch r.Intn(9) {
	case 0:
		x, want = nil, []byte{0x25}
	case 1:
		x, want = true, []byte{0x3b}
	case 2:
		x, want = false, []byte{0x3a}
	case 3:
		u := edgeF32(r)
		x, want = math.Float32frombits(u), binary.LittleEndian.AppendUint32([]byte{0x22}, u)
	case 4:
		u := edgeF64(r)
		x, want = math.Float64frombits(u), binary.LittleEndian.AppendUint64([]byte{0x23}, u)
	case 5, 6:
		s := str()
		x, want = string(s), append(putVarint([]byte{0x27}, uint64(len(s))), s...)
	default:
		s := str()
		x, want = s, append(putVarint([]byte{0x26}, uint64(len(s))), s...)
		if len(s) < 32 {
			want = append([]byte{0x60 | byte(len(s))}, s...)
		}
	}
	arg := x
	if r.Intn(4) == 0 { // named types and pointers
		switch y := x.(type) {
		case bool:
			arg = MyBool(y)
		case float32:
			if y == y {
				arg = MyF32(y)
			}
		case float64:
			arg = MyF64(y)
		case string:
			arg = MyStr(y)
		}
	}
	b, err := encoder(ver).Marshal(arg)
	if err != nil {
		return err
	}
	c.in("doc", b)
	c.nt = len(want) > 2
	if !bytes.Equal(b[6:], want) {
		return rerr("%s encoded as %x, expected %x", showKind(arg), b[6:], want)
	}
	n, _, _, err := refBody(want, 1)
	if err != nil {
		return err
	}
	// inside an array, so that what follows shows how much was consumed
	body := append([]byte{0x2b, 3, 9}, want...)
	body = append(body, 7)
	doc := rawDoc(r, body, ver)
	got, err := decodeAny(doc)
	if err != nil {
		return err
	}
	l, ok := got.([]interface{})
	if !ok || len(l) != 3 || l[0] != 9 || l[2] != 7 {
		return rerr("item before or after %x disturbed", want)
	}
	if err := newMatcher(false, false).iface(n, l[1], "value"); err != nil {
		return err
	}
	if x == nil {
		return nil
	}
	for _, t := range []reflect.Type{reflect.TypeOf(x), reflect.TypeOf(arg)} {
		dst := reflect.New(reflect.SliceOf(t))
		doc := rawDoc(r, append([]byte{0x2b, 1}, want...), ver)
		if err := sereal.Unmarshal(doc, dst.Interface()); err != nil {
			return rerr("into %v: %v", t, err)
		}
		if err := newMatcher(false, false).typed(n, dst.Elem().Index(0), "typed value"); err != nil {
			return err
		}
	}
	return nil
}

func randDecoder(r *rand.Rand) *sereal.Decoder {
	d := sereal.NewDecoder()
	d.PerlCompat = r.Intn(3) == 0
	d.DisableReferentialIntegrity = r.Intn(3) == 0
	if r.Intn(3) == 0 {
		d.RegisterName("Foo", &frozen{})
		d.RegisterName("Bar", new(frozenInt))
	}
	return d
}

func anyVersions() []int { return []int{1, 2, 3, 4} }

func badDoc(r *rand.Rand, size int) []byte {
	d := genDocument(r, allDoc(), anyVersions(), true, size)
	doc := d.doc
	switch r.Intn(8) {
	case 0:
		return doc
	case 1: // mutated before compression
		d.body = mutate(r, d.body)
		doc = append(append([]byte{}, d.head...), compressBody(d.doctype, d.body)...)
	case 2: // only the body
		h := append([]byte{}, d.head...)
		doc = append(h, mutate(r, doc[len(d.head):])...)
	case 3:
		b := make([]byte, r.Intn(12))
		for i := range b {
			b[i] = interesting[r.Intn(len(interesting))]
		}
		doc = rawDoc(r, b, 1+r.Intn(4))
	default:
		doc = mutate(r, doc)
	}
	return doc
}

func c04(c *ctx) error {
	r := c.r
	doc := badDoc(r, 5+r.Intn(25))
	if hugeClaim(doc) {
		return nil
	}
	c.in("doc", doc)
	_, err := refHeader(doc)
	c.nt = err == nil
	d := randDecoder(r)
	o := allVal()
	o.weird = true
	o.share = r.Intn(3) == 0
	g := newValGen(r, o, 12)
	dst := func() interface{} {
		if r.Intn(3) == 0 {
			return new(interface{})
		}
		v := reflect.New(g.typ(r.Intn(4)))
		if r.Intn(3) == 0 {
			g.fill(v.Elem(), 3)
		}
		return v.Interface()
	}
	sereal.LooksLikeSereal(doc)
	x := dst()
	c.say("destination", "%T perl=%v dri=%v", x, d.PerlCompat, d.DisableReferentialIntegrity)
	switch r.Intn(6) {
	case 0:
		d.UnmarshalHeader(doc, x)
	case 1:
		d.UnmarshalHeaderBody(doc, dst(), x)
	case 2:
		var buf []byte
		if r.Intn(2) == 0 {
			buf = make([]byte, r.Intn(2*len(doc)+10), 3*len(doc)+20)
		}
		sereal.DecompressDocument(buf, doc)
	default:
		d.Unmarshal(doc, x)
	}
	// the same destination again
	if r.Intn(4) == 0 {
		d.Unmarshal(doc, x)
	}
	return nil
}

// shape finds a destination type that fits the item more or less.
func shape(r *rand.Rand, n *Node, depth int) reflect.Type {
	if r.Intn(12) == 0 || depth <= 0 {
		return tIface
	}
	if r.Intn(60) == 0 {
		return scalarTypes[r.Intn(len(scalarTypes))]
	}
	pick := func(ts ...interface{}) reflect.Type {
		return reflect.TypeOf(ts[r.Intn(len(ts))])
	}
	switch n.k {
	case kInt:
		return pick(0, int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), MyInt(0), MyU64(0))
	case kF32, kF64:
		return pick(float32(0), float64(0), MyF64(0))
	case kBool:
		return pick(false, MyBool(false))
	case kStr:
		return pick("", MyStr(""))
	case kBytes:
		return pick("", MyStr(""), []byte{}, []byte{}, MyBytes{}, [3]byte{}, [40]byte{})
	case kUndef, kCUndef:
		return pick(new(int), []int{}, map[string]int{}, 0, "", &Plain{}, []byte{}, new(string))
	case kRef, kWeaken, kObject:
		if n.kids[0] == nil {
			return tIface
		}
		return shape(r, n.kids[0], depth-1)
	case kFreeze:
		return pick(frozen{}, &frozen{}, []byte{}, frozenInt(0))
	case kRegexp:
		return reflect.TypeOf(&sereal.PerlRegexp{})
	case kArray:
		e := common(r, n.kids, depth-1)
		if r.Intn(4) == 0 {
			return reflect.ArrayOf([]int{0, 1, 2, 3, len(n.kids), 5}[r.Intn(6)], e)
		}
		return reflect.SliceOf(e)
	case kHash:
		switch r.Intn(4) {
		case 0:
			return reflect.MapOf(reflect.TypeOf(""), common(r, n.kids, depth-1))
		case 1:
			return reflect.PtrTo(structFor(r, n, depth-1))
		case 2:
			if r.Intn(3) == 0 {
				return structTypes[r.Intn(len(structTypes))]
			}
		}
		return structFor(r, n, depth-1)
	}
	return tIface
}

func common(r *rand.Rand, kids []*Node, depth int) reflect.Type {
	if len(kids) == 0 {
		return []reflect.Type{tIface, reflect.TypeOf(0), reflect.TypeOf("")}[r.Intn(3)]
	}
	k := kids[r.Intn(len(kids))]
	if k == nil {
		return tIface
	}
	for _, o := range kids {
		if o == nil || deref(o) == nil || deref(k) == nil || deref(o).k != deref(k).k {
			if r.Intn(8) > 0 {
				return tIface
			}
		}
	}
	return shape(r, k, depth)
}

func structFor(r *rand.Rand, n *Node, depth int) reflect.Type {
	var fs []reflect.StructField
	used := map[string]bool{}
	for i, k := range n.keys {
		s := string(k)
		if r.Intn(4) == 0 || used[s] || s == "" || s == "-" || len(fs) > 20 {
			continue
		}
		used[s] = true
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Tag: reflect.StructTag("sereal:" + quote(s))}
		if n.kids[i] == nil {
			f.Type = tIface
		} else {
			f.Type = shape(r, n.kids[i], depth)
		}
		if r.Intn(6) == 0 && (s == "foo" || s == "key" || s == "name" || s == "id") && !used[strings.Title(s)] {
			f.Tag = "" // found through its capitalised name
			f.Name = strings.Title(s)
			used[f.Name] = true
		} else if used[strings.Title(s)] && strings.Title(s) != s {
			continue
		}
		fs = append(fs, f)
	}
	if r.Intn(3) == 0 {
		fs = append(fs, reflect.StructField{Name: "Extra", Type: reflect.TypeOf(0), Tag: `sereal:"-"`})
	}
	names := map[string]bool{}
	for _, f := range fs {
		if names[f.Name] {
			return reflect.TypeOf(Empty{})
		}
		names[f.Name] = true
	}
	return reflect.StructOf(fs)
}

func quote(s string) string {
	return fmt.Sprintf("%q", s)
}

// shortBodies enumerates bodies by a case number.
func c05(c *ctx) error {
	r := c.r
	var doc, body []byte
	valid := false
	version := 0
	switch r.Intn(5) {
	case 0, 1:
		d := genDocument(r, allDoc(), anyVersions(), true, 8+r.Intn(40))
		doc, body, version = d.doc, d.body, d.version
		valid = true
	case 2:
		body = make([]byte, 1+r.Intn(6))
		for i := range body {
			body[i] = byte(r.Intn(256))
			if r.Intn(2) == 0 {
				body[i] = interesting[r.Intn(len(interesting))]
			}
		}
		version = 1 + r.Intn(4)
		doc = rawDoc(r, body, version)
	default:
		d := genDocument(r, allDoc(), anyVersions(), false, 4+r.Intn(20))
		version = d.version
		body = mutate(r, d.body)
		doc = append(append([]byte{}, d.head...), body...)
	}
	c.in("doc", doc)
	h, err := refHeader(doc)
	if err != nil {
		return err
	}
	n, _, rd, rerr_ := refBody(body, h.base)
	if rd.ambiguous != "" {
		if valid {
			return ambig(rd, nil)
		}
		return nil
	}
	d := sereal.NewDecoder()
	d.PerlCompat = r.Intn(4) == 0
	d.DisableReferentialIntegrity = r.Intn(4) == 0
	m := newMatcher(d.PerlCompat, d.DisableReferentialIntegrity)
	if r.Intn(4) == 0 {
		d.RegisterName("Foo", &frozen{})
		m.reg = map[string]bool{"Foo": true}
	}
	c.say("options", "perl=%v dri=%v", d.PerlCompat, d.DisableReferentialIntegrity)
	var v interface{}
	got := d.Unmarshal(doc, &v)
	if rerr_ != nil {
		if valid {
			return rerr("generator: %v", rerr_)
		}
		if got == nil {
			return rerr("accepted though %v; decoded %s", rerr_, showKind(v))
		}
		return nil
	}
	c.nt = true
	if got != nil {
		// data for a registered type may be refused by its own method
		if got == errHook {
			return nil
		}
		if rd.usesRefs && !valid {
			return nil
		}
		return rerr("valid document refused: %v", got)
	}
	return m.iface(n, v, "value")
}

func c06(c *ctx) error {
	r := c.r
	magics := []string{"=srl", "=\xf3rl", "=\xc3\xb3r", "=srl", "=\xf3rl", "=srk", "\x00srl", "=\xf3rl", "lrs="}
	mg := magics[r.Intn(len(magics))]
	if r.Intn(20) == 0 {
		b := []byte(mg)
		b[r.Intn(4)] ^= 1 << uint(r.Intn(8))
		mg = string(b)
	}
	ver := []int{1, 2, 3, 4, 1, 2, 3, 4, 0, 5, 15, r.Intn(16)}[r.Intn(12)]
	typ := []int{0, 0, 0, 1, 2, 3, 4, r.Intn(16)}[r.Intn(8)]
	doc := append([]byte(mg), byte(ver)|byte(typ)<<4)
	suffix := make([]byte, []int{0, 0, 1, 2, 5, 127, 128, 300}[r.Intn(8)])
	r.Read(suffix)
	var ln []byte
	switch r.Intn(8) {
	case 0:
		ln = putVarint(nil, edgeU64(r))
	case 1:
		ln = putVarint(nil, uint64(len(suffix)+r.Intn(4)))
	case 2:
		ln = bytes.Repeat([]byte{0x80}, r.Intn(12))
		ln = append(ln, byte(r.Intn(2)))
	case 3:
		ln = putVarint(nil, uint64(len(suffix)))
		ln[len(ln)-1] |= 0x80
		ln = append(ln, 0x80, 0x80, 0)
	default:
		ln = putVarint(nil, uint64(len(suffix)))
	}
	doc = append(append(doc, ln...), suffix...)
	val := byte(r.Intn(16))
	doc = append(doc, compressBody(typ, []byte{val})...)
	if r.Intn(6) == 0 {
		doc = doc[:r.Intn(len(doc)+1)]
	}
	if hugeClaim(doc) {
		return nil
	}
	c.in("doc", doc)
	h, herr := refHeader(doc)
	c.nt = herr == nil
	looks := false
	if len(doc) >= 7 {
		v := int(doc[4] & 15)
		m := string(doc[:4]) == "=srl" && (v == 1 || v == 2) || string(doc[:4]) == "=\xf3rl" && v >= 3
		l, _, e := refVarint(doc[5:])
		looks = m && e == nil && l < 1<<63
	}
	if got := sereal.LooksLikeSereal(doc); got != looks {
		return rerr("LooksLikeSereal gives %v", got)
	}
	v, err := decodeAny(doc)
	if herr != nil {
		if err == nil {
			return rerr("accepted though %v", herr)
		}
		if herr == errUTF8 && err != sereal.ErrBadHeaderUTF8 {
			return rerr("mangled magic reported as %v", err)
		}
		if herr != errUTF8 && err == sereal.ErrBadHeaderUTF8 {
			return rerr("reported as mangled")
		}
		if _, err := sereal.DecompressDocument(nil, doc); err == nil {
			return rerr("DecompressDocument accepts it though %v", herr)
		}
		return nil
	}
	if h.doctype == 4 {
		return nil // needs a C library
	}
	_, plain, perr := refPlain(doc)
	if perr != nil || len(plain) == 0 {
		return nil // the body is damaged
	}
	if h.doctype == 0 {
		u, err := sereal.DecompressDocument(nil, doc)
		if err != nil || !bytes.Equal(u, doc) {
			return rerr("DecompressDocument of a raw document: %x, %v", u, err)
		}
	}
	n, _, rd, berr := refBody(plain, h.base)
	if berr != nil || rd.ambiguous != "" || rd.usesRefs {
		return nil
	}
	if err != nil {
		return rerr("valid document refused: %v", err)
	}
	return newMatcher(false, false).iface(n, v, "value")
}

func c07(c *ctx) error {
	r := c.r
	ver := 1 + r.Intn(3)
	e := encoder(ver)
	e.PerlCompat = r.Intn(3) == 0
	e.DisableDedup = r.Intn(3) == 0
	e.DisableFREEZE = r.Intn(3) == 0
	e.ExpectedSize = uint(r.Intn(3) * r.Intn(300))
	zero := r.Intn(10) == 0
	if zero { // the zero encoder picks a version of its own
		*e = sereal.Encoder{PerlCompat: e.PerlCompat}
		ver = 3
	}
	o := allVal()
	o.share = r.Intn(3) == 0
	g := newValGen(r, o, 25)
	var head interface{}
	if r.Intn(3) > 0 {
		head = g.any(r.Intn(4))
	}
	x := g.any(r.Intn(5))
	pkg := ver == 3 && head == nil && r.Intn(4) == 0
	var b []byte
	var err error
	switch {
	case pkg:
		e = sereal.NewEncoderV3()
		b, err = sereal.Marshal(x)
	case head == nil && r.Intn(2) == 0:
		b, err = e.Marshal(x)
	default:
		b, err = e.MarshalWithHeader(head, x)
	}
	if err != nil {
		return nil
	}
	c.in("doc", b)
	c.say("options", "v%d perl=%v dedup=%v freeze=%v header=%v", ver, e.PerlCompat, !e.DisableDedup, !e.DisableFREEZE, head != nil)
	c.nt = len(b) > 10
	if !sereal.LooksLikeSereal(b) {
		return rerr("LooksLikeSereal rejects it")
	}
	h, err := refHeader(b)
	if err != nil {
		return err
	}
	if h.version != ver || h.doctype != 0 {
		return rerr("version %d type %d, expected version %d type 0", h.version, h.doctype, ver)
	}
	if !bytes.Equal(b[5:h.bodyStart], append(putVarint(nil, uint64(len(h.suffix))), h.suffix...)) {
		return rerr("suffix length is not minimal")
	}
	withHead := head != nil && ver >= 2
	if !withHead && len(h.suffix) != 0 {
		return rerr("unexpected suffix %x", h.suffix)
	}
	p, err := parseDoc(b, true)
	if err == errTooLarge {
		return nil
	}
	if err != nil {
		return err
	}
	if err := newEncMatcher(e.PerlCompat, e.DisableFREEZE).match(p.n, reflect.ValueOf(x), "body"); err != nil {
		return err
	}
	d := sereal.NewDecoder()
	var gh, gb interface{}
	if err := d.UnmarshalHeaderBody(b, &gh, &gb); err != nil {
		if _, _, hr, herr := refBody(headBody(h), 1); p.r.selfRef() || herr == nil && hr.selfRef() {
			return nil // a cycle of nothing but pointers has no value to decode to
		}
		return rerr("own decoder refuses it: %v", err)
	}
	if err := newMatcher(false, false).iface(p.n, gb, "body"); err != nil {
		return err
	}
	if !withHead {
		if gh != nil {
			return rerr("header value out of nowhere: %s", showKind(gh))
		}
		return nil
	}
	if len(h.suffix) < 2 || h.suffix[0] != 1 {
		return rerr("suffix %x does not announce metadata", h.suffix)
	}
	hn, end, _, err := refBody(h.suffix[1:], 1)
	if err != nil || end != len(h.suffix)-1 {
		return rerr("header metadata malformed: %v", err)
	}
	if err := newEncMatcher(e.PerlCompat, e.DisableFREEZE).match(hn, reflect.ValueOf(head), "header"); err != nil {
		return err
	}
	if err := newMatcher(false, false).iface(hn, gh, "header"); err != nil {
		return err
	}
	var only interface{}
	if err := d.UnmarshalHeader(b, &only); err != nil {
		return rerr("UnmarshalHeader: %v", err)
	}
	return newMatcher(false, false).iface(hn, only, "header")
}

func headBody(h refHead) []byte {
	if len(h.suffix) < 2 {
		return nil
	}
	return h.suffix[1:]
}

func c08(c *ctx) error {
	r := c.r
	ver := 1 + r.Intn(3)
	o := allVal()
	g := newValGen(r, o, 40)
	var x interface{}
	switch r.Intn(3) {
	case 0:
		// many records with the same keys, so that offsets grow
		var l []interface{}
		for i := r.Intn(40); i >= 0; i-- {
			m := map[string]interface{}{}
			for j := r.Intn(4); j >= 0; j-- {
				m[g.str()] = g.any(2)
			}
			l = append(l, m)
			if r.Intn(3) == 0 {
				l = append(l, Plain{A: i, B: g.str()}, sereal.PerlObject{Class: "Foo", Reference: i}, frozen{[]byte("z")})
			}
		}
		x = l
	default:
		x = g.any(5)
	}
	var ns []*Node
	for i := 0; i < 2; i++ {
		e := encoder(ver)
		e.DisableDedup = i == 1
		e.PerlCompat = r.Intn(3) == 0
		b, err := e.Marshal(x)
		if err != nil {
			return nil
		}
		c.in("doc", b)
		p, err := parseDoc(b, false)
		if err == errTooLarge {
			return nil
		}
		if err != nil {
			return err
		}
		c.nt = c.nt || p.r.copies > 0
		if err := newEncMatcher(e.PerlCompat, false).match(p.n, reflect.ValueOf(x), "value"); err != nil {
			return rerr("dedup=%v: %v", i == 0, err)
		}
		var v interface{}
		if err := sereal.Unmarshal(b, &v); err != nil {
			if p.r.selfRef() {
				continue
			}
			return rerr("dedup=%v: own decoder: %v", i == 0, err)
		}
		if err := newMatcher(false, false).iface(p.n, v, "value"); err != nil {
			return rerr("dedup=%v: %v", i == 0, err)
		}
		ns = append(ns, p.n)
	}
	return nil
}

type failing struct{}

func (failing) MarshalBinary() ([]byte, error) { return nil, errHook }

func c09(c *ctx) error {
	r := c.r
	ver := 1 + r.Intn(3)
	o := allVal()
	o.perl = r.Intn(2) == 0
	size := 40
	if r.Intn(20) == 0 {
		size = 1000
	}
	g := newValGen(r, o, size)
	x := g.any(6)
	if r.Intn(60) == 0 {
		l := make([]interface{}, []int{127, 128, 129, 16383, 16384, 16385}[r.Intn(6)])
		for i := range l {
			l[i] = i % 16
		}
		x = l
	}
	bad := false
	if r.Intn(5) == 0 {
		// an element that cannot be encoded
		bad = true
		var f interface{} = []interface{}{failing{}, make(chan int), complex(1, 1), map[int]int{1: 1}, func() {}}[r.Intn(5)]
		for d := r.Intn(4); d >= 0; d-- {
			switch r.Intn(6) {
			case 0:
				f = []interface{}{1, f, 2}
			case 1:
				f = map[string]interface{}{"a": 1, "b": f}
			case 2:
				g := f
				f = []interface{}{&g}
			case 3:
				f = Tagged{Y: f}
			case 4:
				f = map[MyStr]interface{}{"q": f}
			case 5:
				f = [2]interface{}{nil, f}
			}
		}
		x = []interface{}{x, f}
	}
	e := encoder(ver)
	e.PerlCompat = r.Intn(3) == 0
	e.DisableDedup = r.Intn(3) == 0
	b, err := e.Marshal(x)
	if bad {
		c.say("value", "v%d %T", ver, x)
		if err == nil {
			c.in("doc", b)
			return rerr("encoded though an element cannot be")
		}
		if b != nil {
			return rerr("returned bytes with an error")
		}
		return nil
	}
	if err != nil {
		return nil
	}
	c.in("doc", b)
	p, err := parseDoc(b, false)
	if err == errTooLarge {
		return nil
	}
	if err != nil {
		return err
	}
	c.nt = len(p.n.kids) > 0
	if err := newEncMatcher(e.PerlCompat, false).match(p.n, reflect.ValueOf(x), "value"); err != nil {
		return err
	}
	var v interface{}
	if err := sereal.Unmarshal(b, &v); err != nil {
		if p.r.selfRef() {
			return nil
		}
		return rerr("own decoder: %v", err)
	}
	return newMatcher(false, false).iface(p.n, v, "value")
}

func c10(c *ctx) error {
	r := c.r
	var x interface{}
	limit := []int{-1, 0, 1, 2, 3, 4, 5, 8, 20, 100}[r.Intn(10)]
	self := r.Intn(12) == 0
	if self {
		switch r.Intn(4) {
		case 0:
			l := []interface{}{nil}
			l[0] = l
			x = l
		case 1:
			m := map[string]interface{}{}
			m["m"] = m
			x = m
		case 2:
			l := make(MyList, 1)
			l[0] = l
			x = l
		case 3:
			m := map[MyStr]interface{}{}
			m["m"] = []interface{}{m}
			x = m
		}
		if limit <= 0 {
			limit = 50
		}
		e := encoder(1 + r.Intn(3))
		e.MaxRecursionDepth = limit
		e.PerlCompat = r.Intn(2) == 0
		c.say("value", "self-referential %T limit %d", x, limit)
		c.nt = true
		if _, err := e.Marshal(x); err != sereal.ErrMaxRecursionLimit {
			return rerr("self-referential value: %v", err)
		}
		return nil
	}
	o := allVal()
	o.ptrs = false // pointers to zero-size values share an address and are encoded once
	g := newValGen(r, o, 30)
	if r.Intn(2) == 0 {
		x = g.any(8)
	} else {
		x = g.any(1)
		for d := r.Intn(12); d > 0; d-- {
			switch r.Intn(8) {
			case 0:
				x = []interface{}{1, x}
			case 1:
				x = map[string]interface{}{"a": x}
			case 2:
				y := x
				x = &y
			case 3:
				x = Tagged{Y: x}
			case 4:
				x = map[MyStr]interface{}{"q": x}
			case 5:
				x = [1]interface{}{x}
			case 6:
				x = sereal.PerlObject{Class: "C", Reference: x}
			case 7:
				x = &sereal.PerlWeakRef{Reference: x}
			}
		}
	}

	need := levels(reflect.ValueOf(x), false, 1<<19)
	ver := 1 + r.Intn(3)
	perl := r.Intn(3) == 0
	enc := func(limit int) ([]byte, error) {
		e := encoder(ver)
		e.MaxRecursionDepth = limit
		e.PerlCompat = perl
		if need > 0 && r.Intn(4) == 0 {
			return e.MarshalWithHeader(x, 1)
		}
		return e.Marshal(x)
	}
	free, ferr := enc(0)
	c.in("doc", free)
	c.say("limit", "%d need %d", limit, need)
	c.nt = need > 0
	b, err := enc(limit)
	if ferr == sereal.ErrMaxRecursionLimit {
		return rerr("limit error without a limit")
	}
	if ferr != nil {
		return nil // not encodable for another reason
	}
	if limit > 0 && need >= limit {
		if ver == 1 && err == nil && len(b) == 7 {
			return nil // header values are not encoded in version 1
		}
		if err != sereal.ErrMaxRecursionLimit {
			return rerr("%d levels with limit %d: %v", need, limit, err)
		}
		return nil
	}
	if err != nil {
		return rerr("%d levels with limit %d: %v", need, limit, err)
	}
	if len(b) == len(free) {
		p, err := parseDoc(b, false)
		if err == errTooLarge {
			return nil
		}
		if err != nil {
			return err
		}
		if len(p.h.suffix) == 0 && !(ver == 1 && len(b) == 7) {
			return newEncMatcher(perl, false).match(p.n, reflect.ValueOf(x), "value")
		}
	}
	return nil
}

var _ = json.Number("")
