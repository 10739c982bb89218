//go:build go1.21

package main

// Random documents: structurally valid ones, and mutations of them.

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"math"
	"math/rand"

	"github.com/golang/snappy"
)

type docOpts struct {
	copyClass bool // class names may be COPY
	freeze    bool
	refs      bool // REFP and ALIAS
	objects   bool
	copies    bool
	pads      bool
	big       bool
	nonMin    bool // padded varints
	simple    bool // scalars and containers only
	noCUndef  bool
}

func allDoc() docOpts {
	return docOpts{copyClass: true, freeze: true, refs: true, objects: true, copies: true, pads: true, nonMin: true}
}

type span struct {
	start, end                int
	anyCopy, valCopy, hasRefs bool
	str                       bool // plain string
	scalarStr                 bool
}

type docGen struct {
	r       *rand.Rand
	o       docOpts
	buf     []byte
	base    int
	spans   []span // completed items
	tags    []int  // item tags that may be tracked
	strs    []int  // plain string tags
	classes []int
	copied  []span
	left    int
	curCopy []*span
	keys    []string
}

var lens = []int{0, 1, 2, 3, 5, 15, 16, 17, 30, 31, 32, 33, 63, 64, 126, 127, 128, 129, 255, 256, 300}

func (g *docGen) len() int {
	switch g.r.Intn(12) {
	case 0:
		return lens[g.r.Intn(len(lens))]
	case 1:
		if g.o.big {
			return []int{1000, 16383, 16384, 16385, 70000}[g.r.Intn(5)]
		}
	}
	return g.r.Intn(6)
}

func (g *docGen) varint(v uint64) {
	g.buf = putVarint(g.buf, v)
	if g.o.nonMin && g.r.Intn(20) == 0 {
		n := len(putVarint(nil, v))
		extra := g.r.Intn(11 - n)
		if extra > 0 {
			g.buf[len(g.buf)-1] |= 0x80
			for ; extra > 1; extra-- {
				g.buf = append(g.buf, 0x80)
			}
			g.buf = append(g.buf, 0)
		}
	}
}

func edgeU64(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(40))
	case 1:
		return uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(3)) + uint64(r.Intn(2))
	case 2:
		return -uint64(r.Intn(40))
	case 3:
		return uint64(r.Uint32())
	case 4:
		return 1<<63 - 2 + uint64(r.Intn(4))
	}
	return r.Uint64()
}

func (g *docGen) randBytes(n int) []byte {
	b := make([]byte, n)
	switch g.r.Intn(3) {
	case 0:
		for i := range b {
			b[i] = "abcXYZ"[g.r.Intn(6)]
		}
	case 1:
		g.r.Read(b)
	default:
		for i := range b {
			b[i] = 'a'
		}
	}
	return b
}

func (g *docGen) pad() {
	if !g.o.pads {
		return
	}
	for g.r.Intn(16) == 0 {
		g.buf = append(g.buf, 0x3f)
		if g.r.Intn(6) == 0 {
			g.buf[len(g.buf)-1] |= 0x80
		}
	}
}

// plain string item
func (g *docGen) rawStr(s []byte, kind int) int {
	at := len(g.buf)
	switch {
	case kind == 0 && len(s) < 32:
		g.buf = append(g.buf, 0x60|byte(len(s)))
	case kind == 1:
		g.buf = append(g.buf, 0x27)
		g.varint(uint64(len(s)))
	default:
		g.buf = append(g.buf, 0x26)
		g.varint(uint64(len(s)))
	}
	g.buf = append(g.buf, s...)
	g.strs = append(g.strs, at)
	g.spans = append(g.spans, span{start: at, end: len(g.buf), str: true})
	return at
}

// key or class name
func (g *docGen) keyStr(allowCopy bool) int {
	g.pad()
	at := len(g.buf)
	if allowCopy && g.o.copies && len(g.strs) > 0 && g.r.Intn(4) == 0 {
		t := g.strs[g.r.Intn(len(g.strs))]
		g.buf = append(g.buf, 0x2f)
		g.varint(uint64(t + g.base))
		g.noteCopy(false)
		g.reserve(t, t+1)
		return at
	}
	var s []byte
	if g.r.Intn(3) > 0 {
		s = []byte(g.keys[g.r.Intn(len(g.keys))])
	} else {
		s = g.randBytes(g.len())
	}
	g.rawStr(s, g.r.Intn(3))
	return at
}

// noteCopy tells the items being built that they contain a COPY
func (g *docGen) noteCopy(value bool) {
	for _, s := range g.curCopy {
		s.anyCopy = true
		if value {
			s.valCopy = true
		}
	}
}

func (g *docGen) noteRef() {
	for _, s := range g.curCopy {
		s.hasRefs = true
	}
}

func (g *docGen) reserve(a, b int) { g.copied = append(g.copied, span{start: a, end: b}) }

func (g *docGen) isCopied(p int) bool {
	for _, c := range g.copied {
		if p >= c.start && p < c.end {
			return true
		}
	}
	return false
}

func (g *docGen) hasTracked(s span) bool {
	for i := s.start; i < s.end; i++ {
		if g.buf[i]&0x80 != 0 && g.isTag(i) {
			return true
		}
	}
	return false
}

func (g *docGen) isTag(p int) bool {
	for _, t := range g.tags {
		if t == p {
			return true
		}
	}
	return false
}

// item appends one item
func (g *docGen) item(depth int) {
	g.pad()
	at := len(g.buf)
	sp := &span{start: at}
	g.curCopy = append(g.curCopy, sp)
	g.tags = append(g.tags, at)
	g.left--
	trackable := g.emit(depth, at)
	g.curCopy = g.curCopy[:len(g.curCopy)-1]
	sp.end = len(g.buf)
	if trackable && g.r.Intn(25) == 0 && !g.isCopied(at) {
		g.buf[at] |= 0x80
	}
	if !trackable {
		g.tags = remove(g.tags, at)
	}
	g.spans = append(g.spans, *sp)
}

func remove(t []int, v int) []int {
	for i := len(t) - 1; i >= 0; i-- {
		if t[i] == v {
			return append(t[:i:i], t[i+1:]...)
		}
	}
	return t
}

func (g *docGen) count(per int) int {
	if g.left <= 0 {
		return 0
	}
	n := g.r.Intn(5)
	if g.r.Intn(30) == 0 {
		n = []int{15, 16, 17, 31, 40, 127, 128, 130}[g.r.Intn(8)]
	}
	if g.o.simple && n > g.left {
		n = g.left
	}
	return n
}

func (g *docGen) emit(depth, at int) bool {
	r := g.r
	if depth <= 0 || g.left <= 0 {
		g.scalar()
		return true
	}
	n := 20
	if g.o.simple {
		n = 13
	}
	switch c := r.Intn(n); {
	case c < 6:
		g.scalar()
	case c < 8:
		l := g.count(1)
		if l < 16 && r.Intn(2) == 0 {
			g.buf = append(g.buf, 0x40|byte(l))
		} else {
			g.buf = append(g.buf, 0x2b)
			g.varint(uint64(l))
		}
		for ; l > 0; l-- {
			g.item(depth - 1)
		}
	case c < 10:
		l := g.count(2)
		if l < 16 && r.Intn(2) == 0 {
			g.buf = append(g.buf, 0x50|byte(l))
		} else {
			g.buf = append(g.buf, 0x2a)
			g.varint(uint64(l))
		}
		for ; l > 0; l-- {
			g.keyStr(true)
			g.item(depth - 1)
		}
	case c < 12:
		g.buf = append(g.buf, 0x28)
		g.item(depth - 1)
	case c < 13:
		g.rawStr([]byte(g.keys[r.Intn(len(g.keys))]), r.Intn(3))
	case c < 14:
		g.buf = append(g.buf, 0x30)
		g.buf = append(g.buf, 0x28)
		g.item(depth - 1)
	case c < 15:
		g.buf = append(g.buf, 0x31)
		keep, keepSpans := len(g.strs), len(g.spans)
		g.rawStr(g.randBytes(g.len()), r.Intn(3))
		g.rawStr(g.randBytes(r.Intn(4)), r.Intn(3))
		if !g.o.copyClass {
			g.spans = g.spans[:keepSpans]
			g.strs = g.strs[:keep] // no COPY of patterns either
		}
	case c < 16 && g.o.objects:
		if len(g.classes) > 0 && r.Intn(2) == 0 {
			t := g.classes[r.Intn(len(g.classes))]
			g.buf = append(g.buf, 0x2d)
			g.varint(uint64(t + g.base))
			g.reserve(t, t+1)
		} else {
			g.buf = append(g.buf, 0x2c)
			g.class()
		}
		g.item(depth - 1)
	case c < 17 && g.o.freeze:
		if len(g.classes) > 0 && r.Intn(2) == 0 {
			t := g.classes[r.Intn(len(g.classes))]
			g.buf = append(g.buf, 0x33)
			g.varint(uint64(t + g.base))
			g.reserve(t, t+1)
		} else {
			g.buf = append(g.buf, 0x32)
			g.class()
		}
		g.buf = append(g.buf, 0x28, 0x2b, 1)
		g.rawStr(g.randBytes(g.len()), []int{0, 2}[r.Intn(2)])
	case c < 19 && g.o.copies:
		// a completed item without COPY in value position, references or tracked items
		for try := 0; try < 5 && len(g.spans) > 0; try++ {
			s := g.spans[r.Intn(len(g.spans))]
			if s.valCopy || s.hasRefs || g.hasTracked(s) || s.end-s.start > 2000 || g.buf[s.start]&0x7f == 0x2f {
				continue
			}
			g.buf = append(g.buf, 0x2f)
			g.varint(uint64(s.start + g.base))
			g.reserve(s.start, s.end)
			g.noteCopy(true)
			return false
		}
		g.scalar()
	case g.o.refs:
		for try := 0; try < 5 && len(g.tags) > 1; try++ {
			t := g.tags[r.Intn(len(g.tags)-1)]
			if t == at || g.isCopied(t) {
				continue
			}
			tag := byte(0x29)
			if r.Intn(3) == 0 {
				// an alias to an enclosing item has no value of its own yet
				tag = 0x2e
				encl := false
				for _, s := range g.curCopy {
					encl = encl || s.start == t
				}
				if encl {
					continue
				}
			}
			g.buf[t] |= 0x80
			g.buf = append(g.buf, tag)
			g.varint(uint64(t + g.base))
			g.noteRef()
			return false
		}
		g.scalar()
	default:
		g.scalar()
	}
	return true
}

func (g *docGen) class() {
	p := len(g.buf)
	if g.o.copyClass && len(g.strs) > 0 && g.r.Intn(5) == 0 {
		g.keyStr(true)
		return
	}
	g.rawStr([]byte([]string{"Foo", "Bar", "A::B", "Class31456789012345678901234567890123"}[g.r.Intn(4)]), g.r.Intn(3))
	g.classes = append(g.classes, p)
}

func (g *docGen) scalar() {
	r := g.r
	switch r.Intn(12) {
	case 0, 1:
		g.buf = append(g.buf, byte(r.Intn(32)))
	case 2:
		g.buf = append(g.buf, 0x20)
		g.varint(edgeU64(r))
	case 3:
		g.buf = append(g.buf, 0x21)
		g.varint(edgeU64(r))
	case 4:
		g.buf = append(g.buf, 0x22)
		g.buf = binary.LittleEndian.AppendUint32(g.buf, edgeF32(r))
	case 5:
		g.buf = append(g.buf, 0x23)
		g.buf = binary.LittleEndian.AppendUint64(g.buf, edgeF64(r))
	case 6:
		g.buf = append(g.buf, 0x25)
	case 7:
		if g.o.noCUndef {
			g.buf = append(g.buf, 0x25)
		} else {
			g.buf = append(g.buf, 0x39)
		}
	case 8:
		g.buf = append(g.buf, 0x3a|byte(r.Intn(2)))
	default:
		g.rawStr(g.randBytes(g.len()), r.Intn(3))
	}
}

func edgeF32(r *rand.Rand) uint32 {
	switch r.Intn(4) {
	case 0:
		return math.Float32bits(float32(r.Intn(100)) / 4)
	case 1:
		return []uint32{0, 0x80000000, 0x7f800000, 0xff800000, 1, 0x7fc00000, 0x7f7fffff}[r.Intn(7)]
	}
	u := r.Uint32()
	if u&0x7f800000 == 0x7f800000 && u&0x7fffff != 0 {
		u |= 0x400000 // quiet
	}
	return u
}

func edgeF64(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return math.Float64bits(float64(r.Intn(1000)) / 8)
	case 1:
		return []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 1, 0x7ff8000000000001, 0x7fefffffffffffff}[r.Intn(7)]
	}
	return r.Uint64()
}

var magicFor = map[int]string{1: "=srl", 2: "=srl", 3: "=\xf3rl", 4: "=\xf3rl"}

type genDoc struct {
	version int
	doctype int
	head    []byte // magic, version byte, suffix
	body    []byte // uncompressed
	doc     []byte
	base    int
}

func newKeys(r *rand.Rand) []string {
	return []string{"", "a", "b", "foo", "Foo", "key", "name", "id", "k31xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "k32xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "\xff\x00", "ключ"}
}

// genBody makes a body whose first byte has offset base.
func genBody(r *rand.Rand, o docOpts, base int, size int) []byte {
	g := &docGen{r: r, o: o, base: base, left: size, keys: newKeys(r)}
	g.item(1 + r.Intn(6))
	return g.buf
}

// genHead makes a header; kind selects the suffix.
func genHead(r *rand.Rand, version, doctype int, suffix []byte) []byte {
	h := append([]byte(magicFor[version]), byte(version)|byte(doctype)<<4)
	h = putVarint(h, uint64(len(suffix)))
	if r.Intn(12) == 0 { // padded varint
		h[len(h)-1] |= 0x80
		h = append(h, 0x80, 0)
	}
	return append(h, suffix...)
}

func genSuffix(r *rand.Rand, version int) []byte {
	switch r.Intn(6) {
	case 0:
		return []byte{0}
	case 1:
		b := make([]byte, r.Intn(140))
		r.Read(b)
		return b
	case 2:
		o := docOpts{copies: true, refs: true}
		return append([]byte{1}, genBody(r, o, 1, 6)...)
	}
	return nil
}

func genDocument(r *rand.Rand, o docOpts, versions []int, compress bool, size int) genDoc {
	var d genDoc
	d.version = versions[r.Intn(len(versions))]
	if compress && r.Intn(3) == 0 {
		ts := map[int][]int{1: {1, 2}, 2: {2}, 3: {2, 3}, 4: {2, 3}}[d.version]
		d.doctype = ts[r.Intn(len(ts))]
	}
	d.head = genHead(r, d.version, d.doctype, genSuffix(r, d.version))
	d.base = 1
	if d.version == 1 {
		d.base = len(d.head)
	}
	d.body = genBody(r, o, d.base, size)
	d.doc = append(append([]byte{}, d.head...), compressBody(d.doctype, d.body)...)
	return d
}

func compressBody(doctype int, body []byte) []byte {
	switch doctype {
	case 1:
		return snappy.Encode(nil, body)
	case 2:
		c := snappy.Encode(nil, body)
		return append(putVarint(nil, uint64(len(c))), c...)
	case 3:
		var z bytes.Buffer
		w := zlib.NewWriter(&z)
		w.Write(body)
		w.Close()
		h := putVarint(nil, uint64(len(body)))
		h = putVarint(h, uint64(z.Len()))
		return append(h, z.Bytes()...)
	}
	return append([]byte{}, body...)
}

var interesting = []byte{0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x31, 0x32, 0x33, 0x34, 0x36, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f, 0x40, 0x41, 0x42, 0x4f, 0x50, 0x51, 0x52, 0x60, 0x61, 0x62, 0x7f, 0x80, 0xff, 0, 1, 2, 3, 4, 8, 15, 16, 31}

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + r.Intn(4); n > 0; n-- {
		p := 0
		if len(b) > 0 {
			p = r.Intn(len(b))
		}
		switch r.Intn(9) {
		case 0:
			if len(b) > 0 {
				b[p] = byte(r.Intn(256))
			}
		case 1, 2:
			if len(b) > 0 {
				b[p] = interesting[r.Intn(len(interesting))]
			}
		case 3:
			if len(b) > 0 {
				b[p] ^= 1 << uint(r.Intn(8))
			}
		case 4:
			if len(b) > 0 {
				b = b[:p]
			}
		case 5:
			b = append(b[:p], append([]byte{interesting[r.Intn(len(interesting))]}, b[p:]...)...)
		case 6:
			if len(b) > 0 {
				b = append(b[:p], b[p+1:]...)
			}
		case 7:
			v := putVarint(nil, edgeU64(r))
			if r.Intn(3) == 0 {
				v = bytes.Repeat([]byte{0xff}, 8+r.Intn(4))
			}
			b = append(b[:p], append(v, b[p:]...)...)
		case 8:
			if len(b) > 0 {
				q := r.Intn(len(b))
				l := r.Intn(8)
				for i := 0; i < l && p+i < len(b) && q+i < len(b); i++ {
					b[p+i] = b[q+i]
				}
			}
		}
	}
	return b
}

// hugeClaim reports that decoding would only exhaust memory (outside the statements).
func hugeClaim(doc []byte) bool {
	h, err := refHeader(doc)
	if err != nil || h.doctype == 0 {
		return false
	}
	body := doc[h.bodyStart:]
	const lim = 64 << 20
	switch h.doctype {
	case 1, 2:
		if h.doctype == 2 {
			_, n, err := refVarint(body)
			if err != nil {
				return false
			}
			body = body[n:]
		}
		n, err := snappy.DecodedLen(body)
		return err == nil && n > lim
	case 3:
		v, _, err := refVarint(body)
		return err == nil && v > lim && v <= math.MaxInt32
	}
	return false
}

// refPlain returns the uncompressed form of a document, as the oracle sees it.
func refPlain(doc []byte) (refHead, []byte, error) {
	h, err := refHeader(doc)
	if err != nil {
		return h, nil, err
	}
	body := doc[h.bodyStart:]
	switch h.doctype {
	case 0:
		return h, body, nil
	case 1:
		p, err := snappy.Decode(nil, body)
		return h, p, err
	case 2:
		v, n, err := refVarint(body)
		if err != nil {
			return h, nil, err
		}
		if v > uint64(len(body)-n) {
			return h, nil, rerr("compressed length")
		}
		p, err := snappy.Decode(nil, body[n:n+int(v)])
		return h, p, err
	case 3:
		u, n, err := refVarint(body)
		if err != nil {
			return h, nil, err
		}
		if u > math.MaxInt32 {
			return h, nil, rerr("uncompressed length")
		}
		c, n2, err := refVarint(body[n:])
		if err != nil {
			return h, nil, err
		}
		if c > uint64(len(body)-n-n2) {
			return h, nil, rerr("compressed length")
		}
		zr, err := zlib.NewReader(bytes.NewReader(body[n+n2 : n+n2+int(c)]))
		if err != nil {
			return h, nil, err
		}
		var out bytes.Buffer
		if _, err := out.ReadFrom(zr); err != nil {
			return h, nil, err
		}
		return h, out.Bytes(), nil
	}
	return h, nil, rerr("doctype %d not available", h.doctype)
}
