// Document header, compression framing, entry points of the decoder.

// magic numbers: =srl for versions 1 and 2, =\xF3rl from version 3 on
define le32(b) = uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
define magicOK(b) = (le32(b) == 0x6c72733d && b[4]&15 >= 1 && b[4]&15 <= 2) || (le32(b) == 0x6c72f33d && b[4]&15 >= 3)
// hdrOK: magic, version and the length of the header suffix are acceptable to readHeader
define hdrOK(b) = len(b) > 5 && magicOK(b) && VS(b, 5) <= 10 && VS(b, 5) <= len(b)-5 && int(VV(b, 5)) >= 0
define bodyAt(b) = 5 + int(VS(b, 5)) + int(VV(b, 5))
// compression type allowed in version v
define typeOK(v, t) = t == 0 || (t == 1 && v == 1) || t == 2 || (t == 3 && v >= 3) || (t == 4 && v >= 4)
define docOK(b) = hdrOK(b) && b[4]&15 <= 4 && typeOK(b[4]&15, b[4]>>4) && 0 <= bodyAt(b) && bodyAt(b) <= len(b)

func readHeader(b) (h, err)
  props C06 C04 C14
  safety C04 C14 C06
  ensures [C06] iff(err == nil, hdrOK(b))
  ensures [C06 C04 C14] imp(err == nil, h.version == b[4]&15 && h.doctype == documentType(b[4]>>4) && h.version >= 1)
  ensures [C06 C04 C14] imp(err == nil, h.suffixStart == 5+int(VS(b, 5)) && h.suffixSize == int(VV(b, 5)) + int(VS(b, 5)) && len(b) > 5 && h.suffixStart > 5)

func LooksLikeSereal(b) (r)
  props C06 C04
  safety C04 C06
  ensures [C06] iff(r, hdrOK(b) && len(b) >= 7)

func checkHeader(b) (h, err)
  props C06 C04 C14
  safety C04 C14 C06
  ensures [C06] iff(err == nil, hdrOK(b) && b[4]&15 <= 4)
  ensures [C06 C04 C14] imp(err == nil, h.version == b[4]&15 && h.doctype == documentType(b[4]>>4) && 1 <= h.version && h.version <= 4)
  ensures [C06 C04 C14] imp(err == nil, h.suffixStart == 5+int(VS(b, 5)) && h.suffixSize == int(VV(b, 5)) + int(VS(b, 5)) && len(b) > 5 && h.suffixStart > 5)

func documentDecompressor(version, doctype) (decomp, err)
  props C06 C12 C04 C14
  safety C04 C14
  ensures [C06 C12] iff(err == nil, typeOK(version, doctype))
  ensures [C06 C12] imp(err == nil, iff(decomp == nil, doctype == 0))
  ensures [C12] imp(err == nil && doctype == 1, is(decomp, SnappyCompressor) && !as(decomp, SnappyCompressor).Incremental)
  ensures [C12] imp(err == nil && doctype == 2, is(decomp, SnappyCompressor) && as(decomp, SnappyCompressor).Incremental)
  ensures [C12] imp(err == nil && doctype == 3, is(decomp, ZlibCompressor))
  ensures [C12] imp(err == nil && doctype == 4, is(decomp, ZstdCompressor))

func (*Decoder).UnmarshalHeaderBody(d, b, vheader, vbody) (err)
  props C04 C06 C05 C07 C11 C20
  safety C04
  modifies d.copyDepth, d.tracked, d.tcache.cmap, contents(d.tcache.cmap), rv, *as(vheader, *interface{}), *as(vbody, *interface{})
  requires [C04] imp(is(vheader, *interface{}), as(vheader, *interface{}) != nil) && imp(is(vbody, *interface{}), as(vbody, *interface{}) != nil)
  requires [C04] allkeys(k, d.umcache, k_val != nil)
  ensures [C06] imp(!docOK(b), err != nil)
  ensures [C11] imp(err == nil && vbody != nil, d.tracked == nil && d.copyDepth == 0)
  oncall [C06] decode: docOK(b)
  oncall [C06] decodeViaReflection: docOK(b)

func (*Decoder).Unmarshal(d, b, vbody) (err)
  props C04 C06
  safety C04
  modifies d.copyDepth, d.tracked, d.tcache.cmap, contents(d.tcache.cmap), rv, *as(vbody, *interface{})
  requires [C04] imp(is(vbody, *interface{}), as(vbody, *interface{}) != nil)
  requires [C04] allkeys(k, d.umcache, k_val != nil)
  ensures [C06] imp(!docOK(b), err != nil)

func (*Decoder).UnmarshalHeader(d, b, vheader) (err)
  props C04 C06
  safety C04
  modifies d.copyDepth, d.tracked, d.tcache.cmap, contents(d.tcache.cmap), rv, *as(vheader, *interface{})
  requires [C04] imp(is(vheader, *interface{}), as(vheader, *interface{}) != nil)
  requires [C04] allkeys(k, d.umcache, k_val != nil)
  ensures [C06] imp(!docOK(b), err != nil)

func Unmarshal(b, body) (err)
  props C04 C06
  safety C04
  modifies rv, *as(body, *interface{})
  requires [C04] imp(is(body, *interface{}), as(body, *interface{}) != nil)
  ensures [C06] imp(!docOK(b), err != nil)

func DecompressDocument(dst, b) (r, err)
  props C04 C06 C13
  safety C04
  modifies contents(dst)
  ensures [C06] imp(!docOK(b), err != nil)
  ensures [C13] imp(err == nil, len(r) >= bodyAt(b) && r[4] == b[4]&15)
  ensures [C13] imp(err == nil && b[4]>>4 == 0, len(r) == len(b) && eqrange(r, 0, b, 0, len(b)))
  ensures [C13] imp(err == nil, eqrange(r, 0, b, 0, 4) && eqrange(r, 5, b, 5, bodyAt(b)-5))

func hasSameBuffer(a, b) (r)
  inline
  props C04 C13
  safety C04 C13
  requires [C04] cap(a) > 0 && cap(b) > 0

func (SnappyCompressor).decompress(c, d, b) (r, err)
  inline
  props C04 C12 C14
  safety C04 C14
  modifies contents(d)
  ensures [C12] imp(err == nil && !c.Incremental, str(r) == ufs("snappydec", old(str(b))))

func (SnappyCompressor).compress(c, b) (r, err)
  props C12 C22
  safety C22
  modifies contents(b)

func (ZlibCompressor).decompress(c, d, buf) (r, err)
  inline
  props C04 C12 C14
  safety C04 C14

func (ZlibCompressor).compress(c, buf) (r, err)
  props C12 C22
  safety C22

func (ZstdCompressor).decompress(c, d, buf) (r, err)
  inline
  props C04 C12 C14
  safety C04 C14
  modifies contents(d)

func (ZstdCompressor).compress(c, buf) (r, err)
  props C12 C22
  safety C22

func zlibDecode(n, buf) (r, err)
  props C04 C12 C14
  safety C04 C14
  requires [C04 C14] 0 <= n && n <= math.MaxInt32

func zlibEncode(buf, level) (r, err)
  props C12 C22
  safety C22
