//go:build go1.21

package main

// An independent reader of Sereal documents, written from sereal_spec.pod. It
// shares no code with the package under test and serves as the oracle.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
)

type kind int

const (
	kInt kind = iota
	kF32
	kF64
	kUndef
	kCUndef
	kBool
	kBytes
	kStr
	kRef // REFN, ARRAYREF, HASHREF or REFP
	kArray
	kHash
	kObject
	kFreeze
	kRegexp
	kWeaken
)

// Node is an item of a document. ALIAS yields the node it designates, REFP a
// reference to it, COPY a fresh node.
type Node struct {
	k       kind
	neg     bool
	mag     uint64
	bits    uint64
	b       []byte // string bytes, class name or pattern
	mods    []byte
	kids    []*Node
	keys    [][]byte
	short   bool // HASHREF or ARRAYREF
	refp    bool
	tracked bool
	done    bool // read completely
	off     int
	copied  bool
	level   int // containers around it
}

type refDoc struct {
	by        []byte
	base      int // offset of by[0]
	min       int // lowest index an offset may designate
	tracked   map[int]*Node
	copyDepth int
	level     int
	dupKeys   bool // a hash names a key twice
	cyclic    bool // a cycle of nothing but references
	canonical bool // insist on minimal varints
	// set when the specification leaves the meaning open
	ambiguous string
	usesRefs  bool // REFP, ALIAS, FREEZE: a reader may refuse them for its own reasons
	copies    int
	aside     bool // reading an earlier string
	budget    int
}

var errRef = errors.New("reference reader refuses")

func rerr(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

// refVarint reads at most ten bytes, modulo 2^64.
func refVarint(b []byte) (uint64, int, error) {
	var v uint64
	for i := 0; i < len(b) && i < 10; i++ {
		v |= uint64(b[i]&0x7f) << uint(7*i)
		if b[i]&0x80 == 0 {
			return v, i + 1, nil
		}
	}
	return 0, 0, rerr("bad varint")
}

func putVarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func (r *refDoc) varint(i int) (uint64, int, error) {
	if i > len(r.by) {
		return 0, 0, rerr("truncated")
	}
	v, n, err := refVarint(r.by[i:])
	if err == nil && r.canonical && !bytes.Equal(putVarint(nil, v), r.by[i:i+n]) {
		return 0, 0, rerr("varint at %d is not minimal", i)
	}
	return v, i + n, err
}

func (r *refDoc) skipPad(i int) (int, error) {
	for {
		if i < 0 || i >= len(r.by) {
			return 0, rerr("truncated")
		}
		if r.by[i]&0x7f != 0x3f {
			return i, nil
		}
		i++
	}
}

// ref resolves the offset argument of a tag at index at.
func (r *refDoc) offset(i, at int) (int, int, error) {
	v, j, err := r.varint(i)
	if err != nil {
		return 0, 0, err
	}
	if v >= uint64(at+r.base) {
		if v == uint64(at+r.base) {
			r.ambiguous = "offset of the tag itself"
		}
		return 0, 0, rerr("offset %d is not before the tag at %d", v, at+r.base)
	}
	t := int(v) - r.base
	if t < r.min {
		r.ambiguous = "offset before the body"
		return 0, 0, rerr("offset %d is before the body", v)
	}
	return t, j, nil
}

func (r *refDoc) bytes(i int, n uint64) ([]byte, int, error) {
	if n > uint64(len(r.by)-i) {
		return nil, 0, rerr("length %d exceeds the buffer", n)
	}
	return r.by[i : i+int(n)], i + int(n), nil
}

// str reads a string item: a hash key, class name, pattern or modifiers.
func (r *refDoc) str(i int) ([]byte, int, error) {
	i, err := r.skipPad(i)
	if err != nil {
		return nil, 0, err
	}
	at := i
	if r.by[i]&0x80 != 0 && !r.aside {
		r.tracked[i] = nil // REFP to keys and class names is not supported
	}
	tag := r.by[i] & 0x7f
	i++
	switch {
	case tag >= 0x60:
		return r.bytes(i, uint64(tag&0x1f))
	case tag == 0x26 || tag == 0x27:
		n, j, err := r.varint(i)
		if err != nil {
			return nil, 0, err
		}
		return r.bytes(j, n)
	case tag == 0x2f:
		if r.copyDepth > 1 {
			return nil, 0, rerr("nested COPY")
		}
		t, j, err := r.offset(i, at)
		if err != nil {
			return nil, 0, err
		}
		d := r.copyDepth
		r.copyDepth = 2
		r.copies++
		s, err := r.strAt(t)
		r.copyDepth = d
		return s, j, err
	}
	return nil, 0, rerr("tag %#x is no string", tag)
}

// strAt reads the string at an earlier position.
func (r *refDoc) strAt(i int) ([]byte, error) {
	was := r.aside
	r.aside = true
	s, _, err := r.str(i)
	r.aside = was
	return s, err
}

func (r *refDoc) item(i int) (*Node, int, error) {
	if r.budget--; r.budget < 0 {
		r.ambiguous = "too large"
		return nil, 0, rerr("too large")
	}
	i, err := r.skipPad(i)
	if err != nil {
		return nil, 0, err
	}
	at := i
	n := &Node{off: at + r.base, copied: r.copyDepth > 0, level: r.level}
	tag := r.by[i] & 0x7f
	if r.by[i]&0x80 != 0 {
		n.tracked = true
		if r.copyDepth > 0 {
			r.ambiguous = "tracked item inside copied data"
		}
		r.tracked[i] = n
	}
	i++
	switch {
	case tag < 0x10:
		n.mag = uint64(tag)
	case tag < 0x20:
		n.neg, n.mag = true, uint64(32-tag)
	case tag == 0x20:
		n.mag, i, err = r.varint(i)
	case tag == 0x21:
		var z uint64
		z, i, err = r.varint(i)
		if z&1 == 0 {
			n.mag = z >> 1
		} else {
			n.neg, n.mag = true, z>>1+1
		}
	case tag == 0x22:
		n.k = kF32
		var b []byte
		if b, i, err = r.bytes(i, 4); err == nil {
			n.bits = uint64(binary.LittleEndian.Uint32(b))
		}
	case tag == 0x23:
		n.k = kF64
		var b []byte
		if b, i, err = r.bytes(i, 8); err == nil {
			n.bits = binary.LittleEndian.Uint64(b)
		}
	case tag == 0x25:
		n.k = kUndef
	case tag == 0x39:
		n.k = kCUndef
	case tag == 0x3a:
		n.k = kBool
	case tag == 0x3b:
		n.k, n.mag = kBool, 1
	case tag == 0x26 || tag == 0x27:
		n.k = kBytes
		if tag == 0x27 {
			n.k = kStr
		}
		var l uint64
		if l, i, err = r.varint(i); err == nil {
			n.b, i, err = r.bytes(i, l)
		}
	case tag >= 0x60:
		n.k = kBytes
		n.b, i, err = r.bytes(i, uint64(tag&0x1f))
	case tag == 0x28:
		n.k = kRef
		i, err = r.kid(n, i)
	case tag == 0x30:
		n.k = kWeaken
		i, err = r.kid(n, i)
	case tag == 0x2b, tag == 0x2a:
		var l uint64
		if l, i, err = r.varint(i); err == nil {
			n.k = kArray
			if tag == 0x2a {
				n.k = kHash
			}
			i, err = r.fill(n, i, l)
		}
	case tag >= 0x40 && tag < 0x60:
		c := &Node{k: kArray, off: at + r.base, copied: n.copied}
		if tag >= 0x50 {
			c.k = kHash
		}
		n.k, n.short, n.kids = kRef, true, []*Node{c}
		i, err = r.fill(c, i, uint64(tag&0xf))
		c.done = true
	case tag == 0x29, tag == 0x2e:
		r.usesRefs = true
		if n.tracked {
			r.ambiguous = "tracked REFP or ALIAS"
		}
		if r.copyDepth > 0 {
			r.ambiguous = "reference inside copied data"
		}
		var t int
		if t, i, err = r.offset(i, at); err == nil {
			target, ok := r.tracked[t]
			if !ok {
				return nil, 0, rerr("offset %d is not tracked", t+r.base)
			}
			if target == nil {
				r.ambiguous = "reference to a key or class name"
				return nil, 0, rerr("reference to a key or class name")
			}
			if tag == 0x2e {
				if !target.done {
					r.ambiguous = "alias to an enclosing item"
				}
				return target, i, nil
			}
			n.k, n.refp, n.kids = kRef, true, []*Node{target}
			if target == n || !target.done && target.level == n.level {
				r.ambiguous = "reference to an enclosing reference or object"
				r.cyclic = true
			}
		}
	case tag == 0x2f:
		if r.copyDepth > 0 {
			return nil, 0, rerr("nested COPY")
		}
		if n.tracked {
			r.ambiguous = "tracked COPY"
		}
		var t int
		if t, i, err = r.offset(i, at); err == nil {
			r.copyDepth++
			r.copies++
			n, _, err = r.item(t)
			r.copyDepth--
		}
	case tag == 0x31:
		n.k = kRegexp
		if n.b, i, err = r.str(i); err == nil {
			n.mods, i, err = r.str(i)
		}
	case tag == 0x2c || tag == 0x32:
		n.k = kObject
		if tag == 0x32 {
			n.k = kFreeze
		}
		if n.b, i, err = r.str(i); err == nil {
			i, err = r.object(n, i)
		}
	case tag == 0x2d || tag == 0x33:
		n.k = kObject
		if tag == 0x33 {
			n.k = kFreeze
		}
		var t int
		if t, i, err = r.offset(i, at); err == nil {
			if n.b, err = r.strAt(t); err == nil {
				i, err = r.object(n, i)
			}
		}
	default:
		err = rerr("unknown tag %#x", tag)
	}
	if err != nil {
		return nil, 0, err
	}
	n.done = true
	return n, i, nil
}

func (r *refDoc) object(n *Node, i int) (int, error) {
	if n.k == kFreeze {
		r.usesRefs = true // restricted forms
	}
	return r.kid(n, i)
}

func (r *refDoc) kid(n *Node, i int) (int, error) {
	n.kids = make([]*Node, 1)
	k, i, err := r.item(i)
	n.kids[0] = k
	return i, err
}

func (r *refDoc) fill(n *Node, i int, l uint64) (int, error) {
	per := uint64(1)
	if n.k == kHash {
		per = 2
	}
	if l > uint64(len(r.by)-i)/per {
		return 0, rerr("count %d exceeds the buffer", l)
	}
	r.level++
	defer func() { r.level-- }()
	for ; l > 0; l-- {
		var err error
		if n.k == kHash {
			var key []byte
			if key, i, err = r.str(i); err != nil {
				return 0, err
			}
			for _, k := range n.keys {
				r.dupKeys = r.dupKeys || bytes.Equal(k, key)
			}
			n.keys = append(n.keys, key)
		}
		var c *Node
		if c, i, err = r.item(i); err != nil {
			return 0, err
		}
		n.kids = append(n.kids, c)
	}
	return i, nil
}

// refBody reads the body in by, whose first byte has the given offset.
func refBody(by []byte, base int) (*Node, int, *refDoc, error) {
	r := &refDoc{by: by, base: base, tracked: map[int]*Node{}, budget: 200000}
	n, end, err := r.item(0)
	return n, end, r, err
}

type refHead struct {
	version, doctype int
	suffix           []byte
	bodyStart        int
	base             int // offset of the first body byte
}

var errUTF8 = errors.New("utf8")

// refHeader reads a document header by the specification.
func refHeader(b []byte) (refHead, error) {
	var h refHead
	if len(b) < 6 {
		return h, rerr("short")
	}
	h.version, h.doctype = int(b[4]&15), int(b[4]>>4)
	switch string(b[:4]) {
	case "=srl":
		if h.version != 1 && h.version != 2 {
			return h, rerr("magic")
		}
	case "=\xf3rl":
		if h.version != 3 && h.version != 4 {
			return h, rerr("magic")
		}
	case "=\xc3\xb3r":
		return h, errUTF8
	default:
		return h, rerr("magic")
	}
	v, n, err := refVarint(b[5:])
	if err != nil {
		return h, err
	}
	if v > uint64(len(b)-5-n) {
		return h, rerr("suffix")
	}
	h.bodyStart = 5 + n + int(v)
	h.suffix = b[5+n : h.bodyStart]
	h.base = 1
	if h.version == 1 {
		h.base = h.bodyStart
	}
	switch h.doctype {
	case 0, 2:
	case 1:
		if h.version != 1 {
			return h, rerr("doctype")
		}
	case 3:
		if h.version < 3 {
			return h, rerr("doctype")
		}
	case 4:
		if h.version < 4 {
			return h, rerr("doctype")
		}
	default:
		return h, rerr("doctype")
	}
	return h, nil
}

// intOf returns the number as int64 or uint64 when it is one.
func (n *Node) isInt64() (int64, bool) {
	if n.neg {
		if n.mag > 1<<63 {
			return 0, false
		}
		return -int64(n.mag-1) - 1, true
	}
	return int64(n.mag), n.mag <= math.MaxInt64
}

// eqNode compares two graphs, sharing included.
type eqer struct {
	ab, ba map[*Node]*Node
	// compare hashes as sets of pairs rather than sequences
	unordered bool
	// a reader may have dropped this distinction
	noShare bool
}

func newEq() *eqer { return &eqer{ab: map[*Node]*Node{}, ba: map[*Node]*Node{}} }

func (e *eqer) eq(a, b *Node, path string) error {
	if a == nil || b == nil {
		if a == b {
			return nil
		}
		return rerr("%s: item missing on one side", path)
	}
	if !e.noShare {
		x, ok1 := e.ab[a]
		y, ok2 := e.ba[b]
		if ok1 || ok2 {
			if x != b || y != a {
				return rerr("%s: refers to a different item", path)
			}
			return nil
		}
		e.ab[a], e.ba[b] = b, a
	}
	if a.k != b.k || a.short != b.short || a.refp != b.refp {
		return rerr("%s: item of another kind: %v and %v", path, a, b)
	}
	if a.neg != b.neg || a.mag != b.mag || a.bits != b.bits || !bytes.Equal(a.b, b.b) || !bytes.Equal(a.mods, b.mods) {
		return rerr("%s: different content: %v and %v", path, a, b)
	}
	if len(a.kids) != len(b.kids) || len(a.keys) != len(b.keys) {
		return rerr("%s: %d and %d items", path, len(a.kids), len(b.kids))
	}
	if e.unordered && a.k == kHash {
		idx := map[string]int{}
		for i, k := range b.keys {
			idx[string(k)] = i
		}
		for i, k := range a.keys {
			j, ok := idx[string(k)]
			if !ok {
				return rerr("%s: key %q missing", path, k)
			}
			if err := e.eq(a.kids[i], b.kids[j], path+"{"+string(k)+"}"); err != nil {
				return err
			}
		}
		return nil
	}
	for i := range a.kids {
		p := path
		if a.k == kHash {
			if !bytes.Equal(a.keys[i], b.keys[i]) {
				return rerr("%s: key %d is %q and %q", path, i, a.keys[i], b.keys[i])
			}
			p += fmt.Sprintf("{%q}", a.keys[i])
		} else if a.k == kArray {
			p += fmt.Sprintf("[%d]", i)
		}
		if err := e.eq(a.kids[i], b.kids[i], p); err != nil {
			return err
		}
	}
	return nil
}

func (n *Node) String() string {
	if n == nil {
		return "-"
	}
	s := func(b []byte) string {
		if len(b) > 40 {
			return fmt.Sprintf("%q...(%d)", b[:40], len(b))
		}
		return fmt.Sprintf("%q", b)
	}
	switch n.k {
	case kInt:
		if n.neg {
			return fmt.Sprintf("int(-%d)", n.mag)
		}
		return fmt.Sprintf("int(%d)", n.mag)
	case kF32:
		return fmt.Sprintf("float(%#x)", n.bits)
	case kF64:
		return fmt.Sprintf("double(%#x)", n.bits)
	case kUndef:
		return "undef"
	case kCUndef:
		return "canonical undef"
	case kBool:
		return fmt.Sprintf("bool(%d)", n.mag)
	case kBytes:
		return "binary " + s(n.b)
	case kStr:
		return "string " + s(n.b)
	case kRef:
		if n.refp {
			return "refp"
		}
		return "ref"
	case kArray:
		return fmt.Sprintf("array(%d)", len(n.kids))
	case kHash:
		return fmt.Sprintf("hash(%d)", len(n.kids))
	case kObject:
		return "object " + s(n.b)
	case kFreeze:
		return "freeze " + s(n.b)
	case kRegexp:
		return "regexp " + s(n.b) + " " + s(n.mods)
	case kWeaken:
		return "weaken"
	}
	return "?"
}

// ambig tells what to do with a generated document the specification leaves open.
func ambig(rd *refDoc, err error) error {
	if rd.selfRef() {
		return nil
	}
	return rerr("generator: %v %s", err, rd.ambiguous)
}

func (r *refDoc) selfRef() bool {
	return r.cyclic
}
