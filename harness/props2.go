//go:build go1.21

package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"sync"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	properties["C14"] = property{c14, "sequences of damaged and valid documents, random merger options; non-trivial: at least one document has a valid header"}
	properties["C15"] = property{c15, "sequences of valid and truncated documents, random merger options; non-trivial: at least one document merged"}
	properties["C16"] = property{c16, "sequences with rejected documents against the same sequence without them; non-trivial: at least one document rejected after its header was read"}
	properties["C17"] = property{c17, "valid documents decoded into destinations shaped after them; non-trivial: both decodings succeed"}
	properties["C18"] = property{c18, "frozen values in random places, registered and typed destinations, failing hooks; non-trivial: a FREEZE item was decoded"}
	properties["C19"] = property{c19, "encode, decode and merge with inputs compared and then overwritten; non-trivial: a document or value of more than 8 bytes"}
	properties["C20"] = property{c20, "concurrent jobs on distinct objects under the race detector, results compared with sequential runs; non-trivial: every case"}
	properties["C21"] = property{c21, "values whose pointers, slices, maps and strings share or overlap memory; non-trivial: at least one back reference"}
	properties["C22"] = property{c22, "values of all kinds including unsupported ones, random options; non-trivial: the value is not a scalar"}
	properties["C23"] = property{c23, "struct types with random tags through one encoder and one decoder; non-trivial: at least one participating field"}
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func c11(c *ctx) error {
	r := c.r
	if r.Intn(2) == 0 {
		// one decoder, several documents
		perl, dri := r.Intn(4) == 0, r.Intn(3) == 0
		mk := func() *sereal.Decoder {
			d := sereal.NewDecoder()
			d.PerlCompat, d.DisableReferentialIntegrity = perl, dri
			d.RegisterName("Foo", &frozen{})
			return d
		}
		one := mk()
		k := 2 + r.Intn(5)
		c.nt = true
		for i := 0; i < k; i++ {
			doc := badDoc(r, 4+r.Intn(20))
			if hugeClaim(doc) {
				continue
			}
			c.in("doc", doc)
			var t reflect.Type = tIface
			switch r.Intn(3) {
			case 0:
				if h, body, err := refPlain(doc); err == nil && len(body) > 0 {
					if n, _, _, err := refBody(body, h.base); err == nil {
						t = shape(r, n, 6)
					}
				}
			case 1:
				t = structTypes[r.Intn(len(structTypes))]
			}
			how := r.Intn(4)
			var res [2]reflect.Value
			var hd [2]interface{}
			var errs [2]error
			for j, d := range []*sereal.Decoder{one, mk()} {
				dst := reflect.New(t)
				switch how {
				case 0:
					errs[j] = d.UnmarshalHeaderBody(doc, &hd[j], dst.Interface())
				case 1:
					errs[j] = d.UnmarshalHeader(doc, dst.Interface())
				default:
					errs[j] = d.Unmarshal(doc, dst.Interface())
				}
				res[j] = dst.Elem()
			}
			if errText(errs[0]) != errText(errs[1]) {
				return rerr("call %d: used decoder: %v, fresh decoder: %v", i+1, errs[0], errs[1])
			}
			if errs[0] != nil {
				continue
			}
			if err := deepEq(res[0], res[1], "result", map[[2]uintptr]bool{}); err != nil {
				return rerr("call %d: used and fresh decoder differ: %v", i+1, err)
			}
			if err := deepEq(reflect.ValueOf(&hd[0]).Elem(), reflect.ValueOf(&hd[1]).Elem(), "header", map[[2]uintptr]bool{}); err != nil {
				return rerr("call %d: used and fresh decoder differ: %v", i+1, err)
			}
		}
		return nil
	}
	ver := 1 + r.Intn(3)
	limit := []int{0, 0, 4, 6}[r.Intn(4)]
	flags := r.Intn(8)
	comp := r.Intn(4)
	mk := func() *sereal.Encoder {
		e := encoder(ver)
		e.MaxRecursionDepth = limit
		e.PerlCompat, e.DisableDedup, e.DisableFREEZE = flags&1 != 0, flags&2 != 0, flags&4 != 0
		if comp == 0 {
			e.Compression, e.CompressionThreshold = sereal.SnappyCompressor{Incremental: true}, 20
		}
		return e
	}
	one := mk()
	c.nt = true
	for i, k := 0, 2+r.Intn(5); i < k; i++ {
		o := allVal()
		o.oneKey = true
		o.weird = r.Intn(4) == 0
		g := newValGen(r, o, 15)
		x := g.any(4)
		var head interface{}
		if r.Intn(3) == 0 {
			head = g.any(2)
		}
		if r.Intn(5) == 0 {
			x = []interface{}{"k", x, failing{}}
		}
		var out [2][]byte
		var errs [2]error
		for j, e := range []*sereal.Encoder{one, mk()} {
			out[j], errs[j] = e.MarshalWithHeader(head, x)
		}
		c.in("doc", out[1])
		c.say("error", "%v", errs[1])
		if errText(errs[0]) != errText(errs[1]) || !sameDoc(out[0], out[1]) {
			return rerr("call %d: used encoder: %x, %v; fresh encoder: %x, %v", i+1, out[0], errs[0], out[1], errs[1])
		}
	}
	return nil
}

// sameDoc compares two encodings of one value; struct fields and map entries
// come in no particular order.
func sameDoc(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	ha, err := refHeader(a)
	if err != nil {
		return false
	}
	hb, err := refHeader(b)
	if err != nil || ha.version != hb.version || ha.doctype != hb.doctype || (len(ha.suffix) == 0) != (len(hb.suffix) == 0) {
		return false
	}
	if len(ha.suffix) > 0 {
		if ha.suffix[0] != hb.suffix[0] {
			return false
		}
		na, ea, _, err := refBody(ha.suffix[1:], 1)
		if err != nil {
			return false
		}
		nb, eb, _, err := refBody(hb.suffix[1:], 1)
		e := newEq()
		e.unordered = true
		if err != nil || ea != len(ha.suffix)-1 || eb != len(hb.suffix)-1 || e.eq(na, nb, "") != nil {
			return false
		}
	}
	pa, err := parseDoc(a, true)
	if err != nil {
		return err == errTooLarge
	}
	pb, err := parseDoc(b, true)
	if err != nil {
		return err == errTooLarge
	}
	e := newEq()
	e.unordered = true
	return e.eq(pa.n, pb.n, "") == nil
}

// deepEq compares values bit by bit, following pointers.
func deepEq(a, b reflect.Value, path string, seen map[[2]uintptr]bool) error {
	if a.IsValid() != b.IsValid() {
		return rerr("%s: one side is missing", path)
	}
	if !a.IsValid() {
		return nil
	}
	if a.Type() != b.Type() {
		return rerr("%s: %v and %v", path, a.Type(), b.Type())
	}
	bad := func() error { return rerr("%s: %s and %s", path, showRV(a), showRV(b)) }
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return bad()
		}
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return bad()
		}
		return deepEq(a.Elem(), b.Elem(), path, seen)
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return bad()
		}
		if a.IsNil() {
			return nil
		}
		k := [2]uintptr{a.Pointer(), b.Pointer()}
		if seen[k] {
			return nil
		}
		seen[k] = true
		return deepEq(a.Elem(), b.Elem(), path+"*", seen)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() || a.Kind() == reflect.Slice && a.IsNil() != b.IsNil() {
			return bad()
		}
		if a.Kind() == reflect.Slice && a.Len() > 0 {
			k := [2]uintptr{a.Pointer() + 1, b.Pointer() + 1}
			if seen[k] && a.Type().Elem().Kind() != reflect.Uint8 {
				return nil
			}
			seen[k] = true
		}
		for i := 0; i < a.Len(); i++ {
			if err := deepEq(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), seen); err != nil {
				return err
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return bad()
		}
		k := [2]uintptr{a.Pointer() + 3, b.Pointer() + 3}
		if seen[k] {
			return nil
		}
		seen[k] = true
		it := a.MapRange()
		for it.Next() {
			y := b.MapIndex(it.Key())
			if !y.IsValid() {
				return rerr("%s: key %v missing", path, it.Key())
			}
			if err := deepEq(it.Value(), y, fmt.Sprintf("%s{%v}", path, it.Key()), seen); err != nil {
				return err
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if err := deepEq(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name, seen); err != nil {
				return err
			}
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return bad()
		}
	case reflect.String:
		if a.String() != b.String() {
			return bad()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return bad()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return bad()
		}
	}
	return nil
}

func c12(c *ctx) error {
	r := c.r
	if r.Intn(3) > 0 {
		ver := 1 + r.Intn(3)
		o := allVal()
		o.noMaps, o.structs = true, false
		g := newValGen(r, o, 40)
		x := g.any(4)
		if r.Intn(3) == 0 {
			x = strings.Repeat(g.str()+"ab", r.Intn(900))
		}
		var head interface{}
		if r.Intn(5) == 0 {
			head = "meta"
		}
		plain, err := encoder(ver).MarshalWithHeader(head, x)
		if err != nil {
			return nil
		}
		h0, err := refHeader(plain)
		if err != nil {
			return err
		}
		body := plain[h0.bodyStart:]
		e := encoder(ver)
		if r.Intn(10) == 0 {
			*e = sereal.Encoder{}
			ver = 3
			if plain, err = e.MarshalWithHeader(head, x); err != nil {
				return nil
			}
			if h0, err = refHeader(plain); err != nil {
				return err
			}
			body = plain[h0.bodyStart:]
		}
		kind := r.Intn(4)
		lvl := 0
		want := 0
		legal := false
		switch kind {
		case 0:
			e.Compression = sereal.SnappyCompressor{}
			want, legal = 1, ver == 1
		case 1:
			e.Compression = sereal.SnappyCompressor{Incremental: true}
			want, legal = 2, true
		case 2:
			lvl = []int{0, 1, 5, 9, -1, 10, -2, 100}[r.Intn(8)]
			e.Compression = sereal.ZlibCompressor{Level: lvl}
			want, legal = 3, ver == 3 && lvl >= -1 && lvl <= 9
		case 3:
			e.Compression = sereal.ZstdCompressor{}
			want, legal = 4, false
		}
		e.CompressionThreshold = []int{0, 0, 1024, len(body) - 1, len(body), len(body) + 1}[r.Intn(6)]
		if e.CompressionThreshold < 0 {
			e.CompressionThreshold = 0
		}
		b, err := e.MarshalWithHeader(head, x)
		c.in("plain", plain)
		c.in("doc", b)
		c.say("options", "v%d kind %d level %d threshold %d error %v", ver, kind, lvl, e.CompressionThreshold, err)
		if e.CompressionThreshold > 0 && len(body) < e.CompressionThreshold {
			if err != nil || !bytes.Equal(b, plain) {
				return rerr("body of %d bytes below the threshold %d: not left as it is (%v)", len(body), e.CompressionThreshold, err)
			}
			return nil
		}
		c.nt = true
		if !legal {
			if err == nil {
				h, _ := refHeader(b)
				return rerr("version %d document produced with compressor %d level %d (labelled %d)", ver, kind, lvl, h.doctype)
			}
			return nil
		}
		if err != nil {
			return rerr("legal combination refused: %v", err)
		}
		h, p, err := refPlain(b)
		if err != nil {
			return err
		}
		if h.doctype != want || h.version != ver || !bytes.Equal(h.suffix, h0.suffix) {
			return rerr("labelled version %d type %d suffix %x, expected version %d type %d suffix %x", h.version, h.doctype, h.suffix, ver, want, h0.suffix)
		}
		if !bytes.Equal(p, body) {
			return rerr("decompressed body differs from the uncompressed encoding")
		}
		raw := b[h.bodyStart:]
		switch want {
		case 2:
			v, n, _ := refVarint(raw)
			if int(v) != len(raw)-n {
				return rerr("compressed length %d, actual %d", v, len(raw)-n)
			}
		case 3:
			u, n, _ := refVarint(raw)
			v, n2, _ := refVarint(raw[n:])
			if int(u) != len(body) || int(v) != len(raw)-n-n2 {
				return rerr("lengths %d and %d, actual %d and %d", u, v, len(body), len(raw)-n-n2)
			}
		}
		var a, d interface{}
		e1, e2 := sereal.Unmarshal(plain, &a), sereal.Unmarshal(b, &d)
		if errText(e1) != errText(e2) {
			return rerr("uncompressed: %v, compressed: %v", e1, e2)
		}
		return deepEq(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&d).Elem(), "value", map[[2]uintptr]bool{})
	}
	// damaged frames
	d := genDocument(r, allDoc(), anyVersions(), false, 10)
	typ := 1 + r.Intn(3)
	frame := compressBody(typ, d.body)
	switch r.Intn(6) {
	case 0:
		frame = append(frame, 0, 1, 2)
	case 1:
		frame = frame[:r.Intn(len(frame)+1)]
	case 2:
		frame = mutate(r, frame)
	case 3: // another first length
		_, n, err := refVarint(frame)
		if err == nil {
			frame = append(putVarint(nil, edgeU64(r)), frame[n:]...)
		}
	case 4: // another second length
		if typ == 3 {
			_, n, _ := refVarint(frame)
			_, n2, _ := refVarint(frame[n:])
			frame = append(putVarint(append([]byte{}, frame[:n]...), edgeU64(r)), frame[n+n2:]...)
		}
	}
	head := append([]byte{}, d.head...)
	head[4] = head[4]&15 | byte(typ)<<4
	doc := append(head, frame...)
	if hugeClaim(doc) {
		return nil
	}
	c.in("doc", doc)
	_, p, perr := refPlain(doc)
	var v interface{}
	err := sereal.Unmarshal(doc, &v)
	out, derr := sereal.DecompressDocument(nil, doc)
	if perr != nil {
		if err == nil || derr == nil {
			return rerr("accepted though %v", perr)
		}
		return nil
	}
	c.nt = true
	if derr != nil {
		return rerr("DecompressDocument refuses it: %v", derr)
	}
	plain := append(append([]byte{}, d.head...), p...)
	if !bytes.Equal(out, plain) {
		return rerr("decompressed to something else")
	}
	if h, err := refHeader(doc); err == nil {
		if _, _, rd, _ := refBody(p, h.base); rd != nil && rd.ambiguous != "" {
			return nil // such as offsets that designate header bytes
		}
	}
	var w interface{}
	err2 := sereal.Unmarshal(plain, &w)
	if errText(err) != errText(err2) {
		return rerr("compressed: %v, uncompressed: %v", err, err2)
	}
	if err != nil {
		return nil
	}
	return deepEq(reflect.ValueOf(&v).Elem(), reflect.ValueOf(&w).Elem(), "value", map[[2]uintptr]bool{})
}

func c13(c *ctx) error {
	r := c.r
	var doc []byte
	if r.Intn(4) == 0 {
		doc = badDoc(r, 10)
	} else {
		d := genDocument(r, allDoc(), anyVersions(), true, 3+r.Intn(40))
		if r.Intn(3) == 0 && d.doctype != 0 { // compresses well, so that small buffers differ
			d.body = append(putVarint([]byte{0x26}, uint64(r.Intn(3000))), make([]byte, 3000)...)
			d.doc = append(append([]byte{}, d.head...), compressBody(d.doctype, d.body)...)
		}
		if r.Intn(12) == 0 { // an empty body
			d.doc = append(append([]byte{}, d.head...), compressBody(d.doctype, nil)...)
		}
		doc = d.doc
	}
	if hugeClaim(doc) {
		return nil
	}
	c.in("doc", doc)
	h, p, perr := refPlain(doc)
	var dst []byte
	switch r.Intn(6) {
	case 0:
	case 1:
		dst = []byte{}
	case 2:
		dst = make([]byte, r.Intn(len(doc)+1), len(doc)*2+5)
	case 3:
		dst = make([]byte, len(doc)+r.Intn(5))
	case 4:
		dst = make([]byte, len(doc)+len(p)+r.Intn(40))
	case 5:
		n := len(doc) + r.Intn(len(p)+20)
		dst = make([]byte, n, n+r.Intn(20))
	}
	for i := range dst {
		dst[i] = 0xaa
	}
	c.say("dst", "len %d cap %d nil %v", len(dst), cap(dst), dst == nil)
	keep := append([]byte{}, doc...)
	out, err := sereal.DecompressDocument(dst, doc)
	if !bytes.Equal(keep, doc) {
		return rerr("input modified")
	}
	if perr != nil {
		if err == nil {
			return rerr("accepted though %v", perr)
		}
		return nil
	}
	c.nt = true
	if err != nil {
		return rerr("refused: %v", err)
	}
	want := append(append([]byte{}, doc[:h.bodyStart]...), p...)
	want[4] &= 15
	if !bytes.Equal(out, want) {
		return rerr("result %x, expected %x", cut(out), cut(want))
	}
	return nil
}

func cut(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

type mergeCfg struct {
	ctor     int
	arrayRef bool
	dedupe   bool
	flat     bool
	expected uint
	comp     int
	thresh   int
}

func randCfg(r *rand.Rand) mergeCfg {
	return mergeCfg{r.Intn(3), r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, uint([]int{0, 0, 1, 3, 5, 6, 11, 12, 1000}[r.Intn(9)]), r.Intn(6), []int{0, 1024, 30}[r.Intn(3)]}
}

func (m mergeCfg) build() *sereal.Merger {
	g := []*sereal.Merger{sereal.NewMerger(), sereal.NewMergerV2(), sereal.NewMergerV3()}[m.ctor]
	g.TopLevelElement = sereal.TopLevelArray
	if m.arrayRef {
		g.TopLevelElement = sereal.TopLevelArrayRef
	}
	g.DedupeStrings, g.KeepFlat, g.ExpectedSize, g.CompressionThreshold = m.dedupe, m.flat, m.expected, m.thresh
	switch m.comp {
	case 0:
		g.Compression = sereal.SnappyCompressor{Incremental: true}
	case 1:
		g.Compression = sereal.ZlibCompressor{}
	case 2:
		g.Compression = sereal.SnappyCompressor{}
	case 3:
		if m.thresh == 0 {
			g.Compression = sereal.ZstdCompressor{}
		}
	}
	return g
}

func c14(c *ctx) error {
	r := c.r
	cfg := randCfg(r)
	c.say("config", "%+v", cfg)
	m := cfg.build()
	for i := r.Intn(5); i >= 0; i-- {
		doc := badDoc(r, 4+r.Intn(25))
		if hugeClaim(doc) {
			continue
		}
		c.in("doc", doc)
		if _, err := refHeader(doc); err == nil {
			c.nt = true
		}
		m.Append(doc)
		if r.Intn(10) == 0 {
			m.Finish()
		}
		if r.Intn(12) == 0 {
			m.KeepFlat = !m.KeepFlat
			m.DedupeStrings = !m.DedupeStrings
		}
		if r.Intn(20) == 0 {
			m.Compression = sereal.ZlibCompressor{Level: r.Intn(14) - 2}
			m.CompressionThreshold = 0
		}
	}
	m.Finish()
	m.Finish()
	return nil
}

func mergeDocOpts() docOpts {
	o := allDoc()
	o.copyClass = false // the merger refuses class names given as COPY
	return o
}

// topItems is what a merger adds to its top-level container for a document.
func topItems(n *Node, body []byte, cfg mergeCfg) ([]*Node, bool) {
	if cfg.flat && len(body) > 0 {
		t := body[0] & 0x7f
		if !cfg.arrayRef && t == 0x2b {
			return n.kids, n.tracked
		}
		if cfg.arrayRef && t == 0x28 && len(body) > 1 && body[1]&0x7f == 0x2b {
			return n.kids[0].kids, n.tracked || n.kids[0].tracked
		}
		if cfg.arrayRef && t >= 0x40 && t < 0x50 {
			return n.kids[0].kids, n.tracked
		}
	}
	return []*Node{n}, false
}

func c15(c *ctx) error {
	r := c.r
	cfg := randCfg(r)
	if cfg.comp == 2 {
		cfg.comp = 5
	}
	if cfg.comp == 1 && cfg.ctor == 1 {
		cfg.comp = 5
	}
	if cfg.comp == 3 {
		cfg.comp = 5
	}
	c.say("config", "%+v", cfg)
	m := cfg.build()
	var want []*Node
	for i := r.Intn(6); i >= 0; i-- {
		size := 3 + r.Intn(30)
		d := genDocument(r, mergeDocOpts(), anyVersions(), true, size)
		if r.Intn(4) == 0 { // containers of the kind that KeepFlat flattens
			n := r.Intn(5)
			g := &docGen{r: r, o: mergeDocOpts(), base: d.base, left: size, keys: newKeys(r)}
			switch r.Intn(3) {
			case 0:
				g.buf = append(g.buf, 0x40|byte(n))
			case 1:
				g.buf = append(g.buf, 0x28, 0x2b, byte(n))
			case 2:
				g.buf = append(g.buf, 0x2b, byte(n))
			}
			for ; n > 0; n-- {
				g.item(3)
			}
			d.body = g.buf
			d.doc = append(append([]byte{}, d.head...), compressBody(d.doctype, d.body)...)
		}
		cutOff := r.Intn(6) == 0
		if cutOff {
			d.body = d.body[:r.Intn(len(d.body)+1)]
			d.doc = append(append([]byte{}, d.head...), compressBody(d.doctype, d.body)...)
		}
		c.in("doc", d.doc)
		n, _, rd, err := refBody(d.body, d.base)
		if err == nil && rd.ambiguous != "" {
			return ambig(rd, nil)
		}
		if err == nil {
			cutOff = false
		}
		got, merr := m.Append(d.doc)
		if cutOff {
			if merr == nil {
				return rerr("document %x merged though %v", d.doc, err)
			}
			continue
		}
		if err != nil {
			return rerr("generator: %v", err)
		}
		items, dangling := topItems(n, d.body, cfg)
		if merr != nil {
			if dangling {
				continue // the container that references designate is gone
			}
			return rerr("valid document %x refused: %v", d.doc, merr)
		}
		c.nt = true
		if got != len(items) {
			return rerr("Append reports %d elements, expected %d", got, len(items))
		}
		want = append(want, items...)
	}
	out, err := m.Finish()
	if err != nil {
		return rerr("Finish: %v", err)
	}
	c.in("merged", out)
	p, err := parseDoc(out, false)
	if err != nil {
		return rerr("merged document: %v", err)
	}
	if v := []int{3, 2, 3}[cfg.ctor]; p.h.version != v || len(p.h.suffix) != 0 {
		return rerr("merged document has version %d and suffix %x", p.h.version, p.h.suffix)
	}
	top := p.n
	if cfg.arrayRef {
		if top.k != kRef || top.refp {
			return rerr("top level is %v", top)
		}
		top = top.kids[0]
	}
	if top.k != kArray {
		return rerr("top level is %v", top)
	}
	if len(top.kids) != len(want) {
		return rerr("merged document has %d elements, expected %d", len(top.kids), len(want))
	}
	e := newEq()
	for i, k := range top.kids {
		if err := e.eq(want[i], k, fmt.Sprintf("[%d]", i)); err != nil {
			return err
		}
	}
	var v interface{}
	if err := sereal.Unmarshal(out, &v); err != nil {
		return rerr("merged document does not decode: %v", err)
	}
	return newMatcher(false, false).iface(p.n, v, "merged")
}

func c16(c *ctx) error {
	r := c.r
	cfg := randCfg(r)
	cfg.comp = 5
	c.say("config", "%+v", cfg)
	a, b := cfg.build(), cfg.build()
	for i := 1 + r.Intn(6); i >= 0; i-- {
		d := genDocument(r, mergeDocOpts(), anyVersions(), true, 4+r.Intn(25))
		doc := d.doc
		switch r.Intn(5) {
		case 0:
			d.body = mutate(r, d.body)
			doc = append(append([]byte{}, d.head...), compressBody(d.doctype, d.body)...)
		case 1:
			d.body = d.body[:r.Intn(len(d.body)+1)]
			doc = append(append([]byte{}, d.head...), compressBody(d.doctype, d.body)...)
		case 2:
			doc = badDoc(r, 10)
		}
		if hugeClaim(doc) {
			continue
		}
		c.in("doc", doc)
		n, err := a.Append(doc)
		if err != nil {
			if n != 0 {
				return rerr("rejected document counts %d elements", n)
			}
			if _, err := refHeader(doc); err == nil {
				c.nt = true
			}
			continue
		}
		k, err := b.Append(doc)
		if err != nil {
			return rerr("accepted after a rejected document, refused without: %v", err)
		}
		if n != k {
			return rerr("%d elements after a rejected document, %d without", n, k)
		}
	}
	x, e1 := a.Finish()
	y, e2 := b.Finish()
	if errText(e1) != errText(e2) || !bytes.Equal(x, y) {
		return rerr("with rejected documents: %x, %v; without: %x, %v", cut(x), e1, cut(y), e2)
	}
	return nil
}

func c17(c *ctx) error {
	r := c.r
	o := allDoc()
	if r.Intn(2) == 0 {
		o.simple = true
		o.freeze, o.refs, o.objects = false, false, false
	}
	d := genDocument(r, o, anyVersions(), true, 6+r.Intn(30))
	n, _, rd, err := refBody(d.body, d.base)
	if err != nil || rd.ambiguous != "" {
		return ambig(rd, err)
	}
	if rd.dupKeys && rd.usesRefs {
		return nil // a field takes the later value, references meant the earlier
	}
	t := shape(r, n, 8)
	if r.Intn(3) == 0 {
		t = shape(r, n, 8)
	}
	c.in("doc", d.doc)
	c.say("type", "%v", t)
	dst := reflect.New(t)
	dec := sereal.NewDecoder()
	dec.DisableReferentialIntegrity = r.Intn(3) == 0
	if err := dec.Unmarshal(d.doc, dst.Interface()); err != nil {
		return nil
	}
	var v interface{}
	dec2 := sereal.NewDecoder()
	dec2.DisableReferentialIntegrity = dec.DisableReferentialIntegrity
	if err := dec2.Unmarshal(d.doc, &v); err != nil {
		return nil
	}
	c.nt = true
	return newMatcher(false, dec.DisableReferentialIntegrity).typed(n, dst.Elem(), "value")
}

type holder struct {
	F  frozen
	P  *frozen
	L  []frozen
	M  map[string]*frozen
	I  interface{}
	Fi frozenInt
}

func c18(c *ctx) error {
	r := c.r
	data := func() []byte {
		b := make([]byte, lens[r.Intn(len(lens))])
		r.Read(b)
		if bytes.HasPrefix(b, []byte("ERR")) || bytes.HasPrefix(b, []byte("BAD")) {
			b = nil
		}
		return b
	}
	ver := 1 + r.Intn(3)
	e := encoder(ver)
	e.PerlCompat = r.Intn(4) == 0
	e.DisableDedup = r.Intn(3) == 0
	switch r.Intn(5) {
	case 0: // hooks that fail
		f := frozen{append([]byte("ERR"), data()...)}
		var x interface{} = []interface{}{f, &f, []frozen{f}, map[string]frozen{"a": f}, holder{F: f}, map[string]interface{}{"x": f}}[r.Intn(6)]
		c.say("value", "failing MarshalBinary in %T", x)
		if b, err := e.Marshal(x); !errors.Is(err, errHook) || b != nil {
			return rerr("MarshalBinary failed, Marshal gave %x, %v", b, err)
		}
		e.DisableFREEZE = true
		if _, err := e.Marshal(x); err != nil {
			return rerr("hook called though disabled: %v", err)
		}
		return nil
	case 1:
		f := frozen{append([]byte("BAD"), data()...)}
		b, err := e.Marshal([]frozen{f})
		if err != nil {
			return err
		}
		c.in("doc", b)
		d := sereal.NewDecoder()
		var dst interface{} = []interface{}{&[]frozen{}, &[]*frozen{}, new([1]frozen)}[r.Intn(3)]
		if r.Intn(3) == 0 {
			d.RegisterName("main.frozen", &frozen{})
			dst = new(interface{})
		}
		if err := d.Unmarshal(b, dst); err != errHook {
			return rerr("UnmarshalBinary failed, Unmarshal into %T gave %v", dst, err)
		}
		return nil
	}
	h := holder{F: frozen{data()}, Fi: frozenInt(r.Intn(1000) - 500)}
	if r.Intn(3) > 0 {
		h.P = &frozen{data()}
	}
	for i := r.Intn(4); i > 0; i-- {
		h.L = append(h.L, frozen{data()})
	}
	if r.Intn(2) == 0 {
		h.M = map[string]*frozen{"a": {data()}, "b": {data()}}
	}
	h.I = []interface{}{nil, frozen{data()}, &frozen{data()}, frozenInt(7), []interface{}{frozen{data()}, frozen{data()}}, map[string]interface{}{"k": frozen{data()}}}[r.Intn(6)]
	b, err := e.Marshal(h)
	if err != nil {
		return err
	}
	c.in("doc", b)
	c.nt = true
	p, err := parseDoc(b, false)
	if err != nil {
		return err
	}
	if err := newEncMatcher(e.PerlCompat, false).match(p.n, reflect.ValueOf(h), "value"); err != nil {
		return err
	}
	var got holder
	d := sereal.NewDecoder()
	reg := r.Intn(2) == 0
	if reg {
		d.RegisterName("main.frozen", &frozen{})
	}
	if err := d.Unmarshal(b, &got); err != nil {
		return rerr("typed: %v", err)
	}
	eq := func(a, b frozen) bool { return bytes.Equal(a.Data, b.Data) }
	if !eq(h.F, got.F) || h.Fi != got.Fi || len(h.L) != len(got.L) || len(h.M) != len(got.M) || (h.P == nil) != (got.P == nil) {
		return rerr("typed: %+v decoded to %+v", h, got)
	}
	if h.P != nil && !eq(*h.P, *got.P) {
		return rerr("typed: pointer field differs")
	}
	for i := range h.L {
		if !eq(h.L[i], got.L[i]) {
			return rerr("typed: element %d differs", i)
		}
	}
	for k := range h.M {
		if got.M[k] == nil || !eq(*h.M[k], *got.M[k]) {
			return rerr("typed: map entry %s differs", k)
		}
	}
	var v interface{}
	d.PerlCompat = r.Intn(3) == 0
	if err := d.Unmarshal(b, &v); err != nil {
		return rerr("untyped: %v", err)
	}
	m := newMatcher(d.PerlCompat, false)
	if reg {
		m.reg = map[string]bool{"main.frozen": true}
	}
	if err := m.iface(p.n, v, "value"); err != nil {
		return err
	}
	if fi := h.F; true {
		b, err := e.Marshal(fi)
		if err != nil {
			return err
		}
		var raw []byte
		d.PerlCompat = false
		if err := d.Unmarshal(b, &raw); err != nil {
			return rerr("into []byte: %v", err)
		}
		if !bytes.Equal(raw, fi.Data) {
			return rerr("into []byte: %x, expected %x", raw, fi.Data)
		}
	}
	e.DisableFREEZE = true
	b, err = e.Marshal(h.F)
	if err != nil {
		return err
	}
	p, err = parseDoc(b, false)
	if err != nil {
		return err
	}
	return newEncMatcher(e.PerlCompat, true).match(p.n, reflect.ValueOf(h.F), "DisableFREEZE")
}

// guard returns a copy of b with spare capacity holding a pattern.
func guard(b []byte) []byte {
	g := make([]byte, len(b), len(b)+64)
	copy(g, b)
	for i := range g[len(b):cap(g)] {
		g[:cap(g)][len(b)+i] = 0xc5
	}
	return g
}

func guardOK(g, b []byte) error {
	if !bytes.Equal(g, b) {
		return rerr("input bytes modified")
	}
	for _, x := range g[len(g):cap(g)] {
		if x != 0xc5 {
			return rerr("memory behind the input modified")
		}
	}
	return nil
}

func c19(c *ctx) error {
	r := c.r
	switch r.Intn(5) {
	case 0, 1: // decoding
		d := genDocument(r, allDoc(), anyVersions(), true, 5+r.Intn(30))
		c.in("doc", d.doc)
		c.nt = len(d.doc) > 8
		n, _, rd, err := refBody(d.body, d.base)
		if err != nil || rd.ambiguous != "" {
			return ambig(rd, err)
		}
		buf := guard(d.doc)
		dec := sereal.NewDecoder()
		dec.PerlCompat = r.Intn(4) == 0
		typed := r.Intn(3) == 0
		t := tIface
		if typed {
			dec.PerlCompat = false
			t = shape(r, n, 8)
		}
		c.say("type", "%v perl=%v", t, dec.PerlCompat)
		var hd interface{}
		dst := reflect.New(t)
		err = dec.UnmarshalHeaderBody(buf, &hd, dst.Interface())
		if e := guardOK(buf, d.doc); e != nil {
			return e
		}
		if err != nil {
			return nil
		}
		// the same again from a buffer that stays as it is
		var hd2 interface{}
		dst2 := reflect.New(t)
		if err := dec.UnmarshalHeaderBody(append([]byte{}, d.doc...), &hd2, dst2.Interface()); err != nil {
			return rerr("second decoding: %v", err)
		}
		full := buf[:cap(buf)]
		for i := range full {
			full[i] = ^full[i]
		}
		if err := deepEq(dst.Elem(), dst2.Elem(), "value", map[[2]uintptr]bool{}); err != nil {
			return rerr("overwriting the document changed the result: %v", err)
		}
		if err := deepEq(reflect.ValueOf(&hd).Elem(), reflect.ValueOf(&hd2).Elem(), "header", map[[2]uintptr]bool{}); err != nil {
			return rerr("overwriting the document changed the header value: %v", err)
		}
	case 2, 3: // encoding
		seed := r.Int63()
		o := allVal()
		o.share = r.Intn(3) == 0
		mk := func() interface{} {
			rr := rand.New(rand.NewSource(seed))
			g := newValGen(rr, o, 30)
			x := g.any(5)
			b := make([]byte, rr.Intn(50))
			rr.Read(b)
			return []interface{}{guard(b), x, guard(b[:len(b)/2]), &x, string(b)}
		}
		x, y := mk(), mk()
		if r.Intn(2) == 0 || o.share {
			// map order makes shared structures differ between the two
			o.share = false
			x, y = mk(), mk()
		}
		e := encoder(1 + r.Intn(3))
		e.PerlCompat = r.Intn(3) == 0
		e.MaxRecursionDepth = 100
		if r.Intn(3) == 0 {
			e.Compression, e.CompressionThreshold = sereal.SnappyCompressor{Incremental: true}, 0
		}
		b, err := e.MarshalWithHeader(x.([]interface{})[0], x)
		if r.Intn(4) == 0 {
			b, err = e.Marshal(x.([]interface{})[0])
		}
		c.in("doc", b)
		c.nt = true
		for _, i := range []int{0, 2} {
			g := x.([]interface{})[i].([]byte)
			if e := guardOK(g, y.([]interface{})[i].([]byte)); e != nil {
				return rerr("encoding: %v", e)
			}
		}
		if e := deepEq(reflect.ValueOf(&x).Elem(), reflect.ValueOf(&y).Elem(), "value", map[[2]uintptr]bool{}); e != nil {
			return rerr("encoding modified the value: %v", e)
		}
		if err == nil { // nor does the output share memory with the value
			keep := append([]byte{}, b...)
			for _, i := range []int{0, 2} {
				g := x.([]interface{})[i].([]byte)
				for j := range g {
					g[j] ^= 0xff
				}
			}
			if !bytes.Equal(b, keep) {
				return rerr("the document shares memory with the value")
			}
		}
	default: // merging
		cfg := randCfg(r)
		a, b := cfg.build(), cfg.build()
		for i := r.Intn(4); i >= 0; i-- {
			d := genDocument(r, mergeDocOpts(), anyVersions(), true, 5+r.Intn(20))
			doc := d.doc
			if r.Intn(4) == 0 {
				doc = mutate(r, doc)
			}
			if hugeClaim(doc) {
				continue
			}
			c.in("doc", doc)
			c.nt = true
			buf := guard(doc)
			a.Append(buf)
			b.Append(append([]byte{}, doc...))
			if err := guardOK(buf, doc); err != nil {
				return rerr("merging: %v", err)
			}
			for i := range buf {
				buf[i] ^= 0xff
			}
		}
		x, _ := a.Finish()
		y, _ := b.Finish()
		if !bytes.Equal(x, y) {
			return rerr("overwriting appended documents changed the merged document")
		}
	}
	return nil
}

// job returns a deterministic piece of work; its result must not depend on
// what other goroutines do.
func job(seed int64) string {
	r := rand.New(rand.NewSource(seed))
	switch r.Intn(6) {
	case 0, 1:
		o := allVal()
		o.oneKey = true
		g := newValGen(r, o, 20)
		x := g.any(4)
		var b []byte
		var err error
		switch r.Intn(3) {
		case 0:
			b, err = sereal.Marshal(x)
		default:
			e := encoder(1 + r.Intn(3))
			e.PerlCompat = r.Intn(2) == 0
			if r.Intn(2) == 0 {
				e.Compression, e.CompressionThreshold = sereal.ZlibCompressor{}, 0
			} else if r.Intn(2) == 0 {
				e.Compression, e.CompressionThreshold = sereal.SnappyCompressor{Incremental: true}, 0
			}
			b, err = e.MarshalWithHeader(g.any(1), x)
		}
		return fmt.Sprintf("%x %v", b, err)
	case 2, 3:
		doc := badDoc(r, 15)
		if hugeClaim(doc) {
			return ""
		}
		var v, w interface{}
		var e1, e2 error
		if r.Intn(2) == 0 {
			e1 = sereal.Unmarshal(doc, &v)
		} else {
			d := sereal.NewDecoder()
			d.PerlCompat = r.Intn(2) == 0
			d.RegisterName("Foo", &frozen{})
			e1 = d.UnmarshalHeaderBody(doc, &w, &v)
		}
		t := structTypes[r.Intn(len(structTypes))]
		e2 = sereal.Unmarshal(doc, reflect.New(t).Interface())
		return fmt.Sprintf("%T %T %v %v %v", v, w, e1, e2, sereal.LooksLikeSereal(doc))
	case 4:
		m := randCfg(r).build()
		for i := 0; i < 3; i++ {
			doc := badDoc(r, 12)
			if !hugeClaim(doc) {
				m.Append(doc)
			}
		}
		b, err := m.Finish()
		return fmt.Sprintf("%x %v", b, err)
	}
	d := genDocument(r, allDoc(), anyVersions(), true, 10)
	b, err := sereal.DecompressDocument(nil, d.doc)
	x := Tagged{X: r.Intn(100), Y: Plain{A: 1, B: "x"}}
	y, err2 := sereal.Marshal([]interface{}{Inner{1, 2}, frozen{[]byte("q")}})
	var z Tagged
	zb, _ := sereal.Marshal(x)
	err3 := sereal.Unmarshal(zb, &z)
	return fmt.Sprintf("%x %v %d %v %v %v", b, err, len(y), err2, z.X, err3)
}

func c20(c *ctx) error {
	r := c.r
	c.nt = true
	n := 8
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = r.Int63()
		if i > 0 && r.Intn(3) == 0 {
			seeds[i] = seeds[i-1]
		}
	}
	c.say("jobs", "%v", seeds)
	got := make([]string, n)
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := range seeds {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					got[i] = fmt.Sprint("panic: ", p)
				}
			}()
			<-start
			got[i] = job(seeds[i])
		}(i)
	}
	close(start)
	wg.Wait()
	for i := range seeds {
		if want := job(seeds[i]); got[i] != want {
			return rerr("job %d gave %s concurrently and %s alone", seeds[i], got[i], want)
		}
	}
	return nil
}

func c21(c *ctx) error {
	r := c.r
	o := allVal()
	o.share = true
	o.weird = false
	g := newValGen(r, o, 30)
	var l []interface{}
	for i := 1 + r.Intn(5); i >= 0; i-- {
		l = append(l, g.any(4))
	}
	var x interface{} = l
	if r.Intn(3) == 0 { // overlapping fields of one struct
		p := &Ptrs{S: g.str(), I: r.Intn(100), L: []int{1, 2, 3}, F: Inner{4, 5}, M: map[string]int{"a": 1}, A: [2]int{6, 7}, E: g.any(2)}
		ps := []interface{}{p, &p.S, &p.I, &p.L, &p.F, &p.F.P, &p.F.Q, &p.M, &p.A, &p.A[0], &p.A[1], &p.E, &p.L[0], p.L[:1], p.L[1:], p.L, p.M, p.S[:len(p.S)/2], p.A[:1], &p, *p}
		p.PS, p.PI, p.PL, p.PF, p.PQ, p.PM, p.PA, p.PE = &p.S, &p.I, &p.L, &p.F, &p.F.P, &p.M, &p.A, &p.E
		switch r.Intn(4) {
		case 0:
			p.PI = &p.A[0]
		case 1:
			p.E = p
		case 2:
			p.PL, p.PQ = nil, &p.L[0]
		}
		for i := 1 + r.Intn(5); i > 0; i-- {
			l = append(l, ps[r.Intn(len(ps))])
		}
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		x = l
	}
	if r.Intn(4) == 0 {
		x = &x
	}
	e := encoder(1 + r.Intn(3))
	e.PerlCompat = r.Intn(4) == 0
	e.DisableDedup = r.Intn(4) == 0
	e.MaxRecursionDepth = 60
	b, err := e.Marshal(x)
	if err != nil {
		return nil
	}
	if len(b) > 100000 {
		return nil
	}
	c.in("doc", b)
	p, err := parseDoc(b, false)
	if err == errTooLarge {
		return nil
	}
	if err != nil {
		return err
	}
	c.nt = p.r.usesRefs
	if err := newEncMatcher(e.PerlCompat, false).match(p.n, reflect.ValueOf(x), "value"); err != nil {
		return err
	}
	d := sereal.NewDecoder()
	d.DisableReferentialIntegrity = r.Intn(4) == 0
	var v interface{}
	if err := d.Unmarshal(b, &v); err != nil {
		if p.r.selfRef() {
			return nil
		}
		return rerr("own decoder: %v", err)
	}
	return newMatcher(false, d.DisableReferentialIntegrity).iface(p.n, v, "value")
}

func c22(c *ctx) error {
	r := c.r
	o := allVal()
	o.weird = true
	o.share = r.Intn(2) == 0
	g := newValGen(r, o, 25)
	x := g.any(5)
	e := encoder(1 + r.Intn(3))
	e.PerlCompat = r.Intn(2) == 0
	e.DisableDedup = r.Intn(3) == 0
	e.DisableFREEZE = r.Intn(3) == 0
	e.ExpectedSize = uint(r.Intn(3) * r.Intn(2000))
	e.MaxRecursionDepth = []int{1, 2, 3, 10, 40, 40}[r.Intn(6)]
	if r.Intn(12) == 0 {
		*e = sereal.Encoder{MaxRecursionDepth: 40}
	}
	switch r.Intn(8) {
	case 0:
		e.Compression = sereal.SnappyCompressor{Incremental: r.Intn(2) == 0}
	case 1:
		e.Compression = sereal.ZlibCompressor{Level: r.Intn(16) - 4}
	case 2:
		e.Compression = sereal.ZstdCompressor{Level: r.Intn(4)}
	}
	e.CompressionThreshold = []int{0, 1, 1024, -5}[r.Intn(4)]
	c.say("value", "%T", x)
	c.say("options", "perl=%v dedup=%v freeze=%v comp=%T/%d depth=%d", e.PerlCompat, !e.DisableDedup, !e.DisableFREEZE, e.Compression, e.CompressionThreshold, e.MaxRecursionDepth)
	k := reflect.ValueOf(x).Kind()
	c.nt = k > reflect.Complex128 && k != reflect.String
	var b []byte
	switch r.Intn(3) {
	case 0:
		b, _ = e.MarshalWithHeader(g.any(3), x)
	default:
		b, _ = e.Marshal(x)
	}
	c.in("doc", b)
	return nil
}

// namesakes are different types of one name
var namesakes = []reflect.Type{
	func() reflect.Type {
		type Rec struct{ A, B int }
		return reflect.TypeOf(Rec{})
	}(),
	func() reflect.Type {
		type Rec struct{ B, A int }
		return reflect.TypeOf(Rec{})
	}(),
	func() reflect.Type {
		type Rec struct {
			A string
			C []int `sereal:"B"`
			B int   `sereal:"-"`
		}
		return reflect.TypeOf(Rec{})
	}(),
	func() reflect.Type {
		type Rec struct {
			a int
			B interface{}
			A uint8 `sereal:"a"`
		}
		return reflect.TypeOf(Rec{})
	}(),
}

func c23(c *ctx) error {
	r := c.r
	o := allVal()
	o.weird, o.frozen, o.perl, o.json = false, false, false, false
	e := encoder(1 + r.Intn(3))
	e.PerlCompat = r.Intn(4) == 0
	d := sereal.NewDecoder()
	for i := 1 + r.Intn(3); i >= 0; i-- {
		g := newValGen(r, o, 20)
		var t reflect.Type
		if r.Intn(4) == 0 {
			t = structTypes[r.Intn(len(structTypes))]
		} else if r.Intn(4) == 0 {
			t = namesakes[r.Intn(len(namesakes))]
		} else {
			t = g.structType(2)
			// unexported fields
			if r.Intn(2) == 0 {
				fs := []reflect.StructField{}
				for j := 0; j < t.NumField(); j++ {
					fs = append(fs, reflect.StructField{Name: t.Field(j).Name, Type: t.Field(j).Type, Tag: t.Field(j).Tag})
				}
				fs = append(fs, reflect.StructField{Name: "hid", PkgPath: pkgName, Type: reflect.TypeOf(0)})
				r.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
				t = reflect.StructOf(fs)
			}
		}
		fields := fieldKeys(t)
		if fields == nil {
			continue
		}
		v := reflect.New(t)
		g.fill(v.Elem(), 3)
		var x interface{} = v.Elem().Interface()
		if r.Intn(3) == 0 {
			x = v.Interface()
		}
		b, err := e.Marshal(x)
		if err != nil {
			return rerr("%v: %v", t, err)
		}
		c.in("doc", b)
		c.say("type", "%v", t)
		c.nt = c.nt || len(fields) > 0
		p, err := parseDoc(b, false)
		if err == errTooLarge {
			return nil
		}
		if err != nil {
			return err
		}
		if err := newEncMatcher(e.PerlCompat, false).match(p.n, v.Elem(), "value"); err != nil {
			return err
		}
		// into the same type, and into an unrelated one
		for _, dt := range []reflect.Type{t, structTypes[r.Intn(len(structTypes))]} {
			dst := reflect.New(dt)
			if err := d.Unmarshal(b, dst.Interface()); err != nil {
				continue
			}
			if err := newMatcher(false, false).typed(p.n, dst.Elem(), "value"); err != nil {
				return err
			}
		}
		// a document with shuffled, missing and unknown keys
		h := deref(p.n.kids[0])
		if h == nil || h.k != kHash {
			return nil
		}
		var body []byte
		k := 0
		for name := range fields {
			if r.Intn(4) > 0 {
				body = append(append(putVarint(append(body, 0x27), uint64(len(name))), name...), 0x25)
				k++
			}
		}
		for _, name := range []string{"hid", "Skip", "priv", "-", "nobody"} {
			if _, ok := fields[name]; ok || fields[strings.Title(name)] != 0 {
				continue
			}
			if _, ok := fields[strings.Title(name)]; ok {
				continue
			}
			body = append(append(putVarint(append(body, 0x27), uint64(len(name))), name...), 5)
			k++
		}
		doc := rawDoc(r, append(putVarint([]byte{0x2a}, uint64(k)), body...), 2)
		dst := reflect.New(t)
		if err := d.Unmarshal(doc, dst.Interface()); err != nil {
			return rerr("unknown keys: %v", err)
		}
		if !dst.Elem().IsZero() {
			return rerr("a key without a field changed %v", t)
		}
	}
	return nil
}
