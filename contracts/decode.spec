// Decoder.
// A panic that is not a run-time error (package reflect, user hooks) is turned into an error by UnmarshalHeaderBody.

// Layout of a body. IEND(b,p): position behind the item at b[p], padding included; AEND(b,p,k): position behind the
// k items from b[p] on; NP(b,p): position of the first byte from b[p] on that is not padding. The definitions are
// unfolded at the positions the code visits.
define tagAt(b, p) = b[p] & 0x7f
define varlen(b, p) = int(VV(b, p))
define vend(b, p) = p + int(VS(b, p))
define IE(b, p) = int(IEND(b, p))
define AE(b, p, k) = int(AEND(b, p, k))
define QP(b, p) = int(NP(b, p))
define NPdef(b, p) = int(NP(b, p)) == ite(tagAt(b, p) == 0x3f, int(NP(b, p+1)), p)
define AEdef(b, p, k) = AE(b, p, 0) == p && imp(k > 0, AE(b, p, k) == IE(b, AE(b, p, k-1)))
define IEif(b, p, t) = imp(t == 0x3f, IE(b, p) == IE(b, p+1))
|  && imp(t < 0x20 || t == 0x25 || t == 0x39 || t == 0x3a || t == 0x3b, IE(b, p) == p+1)
|  && imp(t == 0x20 || t == 0x21, IE(b, p) == vend(b, p+1))
|  && imp(t == 0x22, IE(b, p) == p+5)
|  && imp(t == 0x23, IE(b, p) == p+9)
|  && imp(t == 0x26 || t == 0x27, IE(b, p) == vend(b, p+1)+varlen(b, p+1))
|  && imp(t == 0x28 || t == 0x30, IE(b, p) == IE(b, p+1))
|  && imp(t == 0x29 || t == 0x2e || t == 0x2f, IE(b, p) == vend(b, p+1))
|  && imp(t == 0x2a, IE(b, p) == AE(b, vend(b, p+1), 2*varlen(b, p+1)))
|  && imp(t == 0x2b, IE(b, p) == AE(b, vend(b, p+1), varlen(b, p+1)))
|  && imp(t == 0x2c || t == 0x31 || t == 0x32, IE(b, p) == IE(b, IE(b, p+1)))
|  && imp(t == 0x2d || t == 0x33, IE(b, p) == IE(b, vend(b, p+1)))
|  && imp(t >= 0x40 && t < 0x50, IE(b, p) == AE(b, p+1, int(t&15)))
|  && imp(t >= 0x50 && t < 0x60, IE(b, p) == AE(b, p+1, 2*int(t&15)))
|  && imp(t >= 0x60, IE(b, p) == p+1+int(t&31))
define IEdef(b, p) = IEif(b, p, tagAt(b, p))
define knownTag(t) = t <= 0x23 || t >= 0x25 && t <= 0x33 || t >= 0x39 && t <= 0x3b || t >= 0x40 && t < 0x80
define f32At(b, p) = uint32(b[p]) | uint32(b[p+1])<<8 | uint32(b[p+2])<<16 | uint32(b[p+3])<<24
define f64At(b, p) = uint64(b[p]) | uint64(b[p+1])<<8 | uint64(b[p+2])<<16 | uint64(b[p+3])<<24
|   | uint64(b[p+4])<<32 | uint64(b[p+5])<<40 | uint64(b[p+6])<<48 | uint64(b[p+7])<<56
define bytesEq(s, b, p, n) = len(s) == n && eqrange(s, 0, b, p, n)

define decOK(d) = d.tracked != nil && allkeys(k, d.umcache, k_val != nil)

func (*Decoder).decode(d, by, idx, ptr) (n, err)
  props C04 C05 C11 C17
  safety C04
  maypanic
  modifies *ptr, d.copyDepth, contents(d.tracked), d.tcache.cmap, contents(d.tcache.cmap), rv
  requires [C04] ptr != nil && decOK(d)
  ensures [C04] imp(err == nil, idx < n && n <= len(by) && idx >= 0)
  ensures [C11] d.copyDepth == old(d.copyDepth)
  unfolding IEdef(by, idx) && NPdef(by, idx)
  unfolding IEdef(by, $i1) && NPdef(by, $i1)
  inv [C05 C17] $i1 >= idx && IE(by, idx) == IE(by, $i1) && QP(by, idx) == QP(by, $i1)
  inv [C05 C17] $b1 == by[$i1]
  ensures [C05 C17] imp(err == nil, n == IE(by, idx))
  ensures [C05] imp(err == nil, knownTag(tagAt(by, QP(by, idx))))
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) < 16, is(*ptr, int) && as(*ptr, int) == int(tagAt(by, QP(by, idx))))
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) >= 16 && tagAt(by, QP(by, idx)) < 32, is(*ptr, int) && as(*ptr, int) == int(tagAt(by, QP(by, idx)))-32)
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) == 0x20, imp(VV(by, QP(by, idx)+1) < 1<<63, is(*ptr, int) && uint64(as(*ptr, int)) == VV(by, QP(by, idx)+1))
  |    && imp(VV(by, QP(by, idx)+1) >= 1<<63, is(*ptr, uint) && uint64(as(*ptr, uint)) == VV(by, QP(by, idx)+1)))
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) == 0x21, is(*ptr, int) && uint64(as(*ptr, int)) == (VV(by, QP(by, idx)+1)>>1) ^ -(VV(by, QP(by, idx)+1)&1))
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) == 0x22, is(*ptr, float32) && bits(as(*ptr, float32)) == f32At(by, QP(by, idx)+1))
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) == 0x23, is(*ptr, float64) && bits(as(*ptr, float64)) == f64At(by, QP(by, idx)+1))
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) == 0x3a, is(*ptr, bool) && !as(*ptr, bool))
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) == 0x3b, is(*ptr, bool) && as(*ptr, bool))
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) == 0x27, is(*ptr, string) && as(*ptr, string) == str(by, vend(by, QP(by, idx)+1), varlen(by, QP(by, idx)+1)))
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) == 0x26, is(*ptr, []byte) && bytesEq(as(*ptr, []byte), by, vend(by, QP(by, idx)+1), varlen(by, QP(by, idx)+1)))
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) >= 0x60, is(*ptr, []byte) && bytesEq(as(*ptr, []byte), by, QP(by, idx)+1, int(tagAt(by, QP(by, idx))&31)))
  ensures [C05] imp(err == nil && (tagAt(by, QP(by, idx)) == 0x25 || tagAt(by, QP(by, idx)) == 0x39) && !d.PerlCompat, *ptr == nil)
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) == 0x2f, VV(by, QP(by, idx)+1) <= QP(by, idx) && old(d.copyDepth) <= 0)
  oncall [C05] (*Decoder).decode: imp(tagAt(by, QP(by, idx)) == 0x2f, arg2 == varlen(by, QP(by, idx)+1) && arg3 == ptr)
  oncall [C05] (*Decoder).decode: imp(tagAt(by, QP(by, idx)) == 0x28 && !d.PerlCompat, arg3 == ptr)
  oncall [C05] (*Decoder).decode: imp(tagAt(by, QP(by, idx)) == 0x2c || tagAt(by, QP(by, idx)) == 0x2d || tagAt(by, QP(by, idx)) == 0x30 && !d.PerlCompat, arg3 == ptr)
  oncall [C05] (*Decoder).decodeHash: arg4 == ptr && arg3 == ite(tagAt(by, QP(by, idx)) == 0x2a, varlen(by, QP(by, idx)+1), int(tagAt(by, QP(by, idx))&15))
  oncall [C05] (*Decoder).decodeArray: arg4 == ptr && arg3 == ite(tagAt(by, QP(by, idx)) == 0x2b, varlen(by, QP(by, idx)+1), int(tagAt(by, QP(by, idx))&15))
  oncall [C05] mapupdate: arg1 == QP(by, idx) && by[QP(by, idx)] >= 0x80
  ensures [C05] imp(err == nil && by[QP(by, idx)] >= 0x80, called("mapupdate"))

func (*Decoder).decodeHash(d, by, idx, ln, ptr, isRef) (n, err)
  props C04 C05 C11 C17
  unfolding AE(by, idx, 0) == idx
  unfolding AEdef(by, idx, 2*$i2+1) && AEdef(by, idx, 2*$i2+2)
  inv [C05 C17] $i1 == AE(by, idx, 2*$i2)
  ensures [C05 C17] imp(err == nil, n == AE(by, idx, 2*ln))
  ensures [C05] imp(err == nil && !isRef, is(*ptr, map[string]interface{}))
  oncall [C05] mapupdate: arg1 == str(result("(*Decoder).decodeStringish", 0)) && arg2 == *argument("(*Decoder).decode", 3)
  safety C04
  maypanic
  modifies *ptr, d.copyDepth, contents(d.tracked), d.tcache.cmap, contents(d.tcache.cmap), rv
  requires [C04] 0 <= idx && idx <= len(by) && ptr != nil && decOK(d)
  ensures [C04] imp(err == nil, idx <= n && n <= len(by))
  ensures [C11] d.copyDepth == old(d.copyDepth)

func (*Decoder).decodeArray(d, by, idx, ln, ptr, isRef) (n, err)
  props C04 C05 C11 C17
  unfolding AE(by, idx, 0) == idx
  unfolding AEdef(by, idx, $i2+1)
  inv [C05 C17] $i1 == AE(by, idx, $i2)
  ensures [C05 C17] imp(err == nil, n == AE(by, idx, ln))
  ensures [C05] imp(err == nil && !isRef, is(*ptr, []interface{}) && len(as(*ptr, []interface{})) == ln)
  oncall [C05] (*Decoder).decode: arg2 == AE(by, idx, index(arg3))
  safety C04
  maypanic
  modifies *ptr, d.copyDepth, contents(d.tracked), d.tcache.cmap, contents(d.tcache.cmap), rv
  requires [C04] 0 <= idx && idx <= len(by) && ptr != nil && decOK(d)
  ensures [C04] imp(err == nil, idx <= n && n <= len(by))
  ensures [C11] d.copyDepth == old(d.copyDepth)

func (*Decoder).decodeStringish(d, by, idx) (res, n, err)
  props C04 C05 C11 C17
  unfolding IEdef(by, idx) && NPdef(by, idx)
  unfolding IEdef(by, $i1) && NPdef(by, $i1)
  inv [C05 C17] $i1 >= idx && IE(by, idx) == IE(by, $i1) && QP(by, idx) == QP(by, $i1)
  inv [C05 C17] $b1 == by[$i1]
  ensures [C05 C17] imp(err == nil, n == IE(by, idx))
  ensures [C05 C17] imp(err == nil && (tagAt(by, QP(by, idx)) == 0x26 || tagAt(by, QP(by, idx)) == 0x27), bytesEq(res, by, vend(by, QP(by, idx)+1), varlen(by, QP(by, idx)+1)))
  ensures [C05 C17] imp(err == nil && tagAt(by, QP(by, idx)) >= 0x60, bytesEq(res, by, QP(by, idx)+1, int(tagAt(by, QP(by, idx))&31)))
  ensures [C05] imp(err == nil, tagAt(by, QP(by, idx)) == 0x26 || tagAt(by, QP(by, idx)) == 0x27 || tagAt(by, QP(by, idx)) == 0x2f || tagAt(by, QP(by, idx)) >= 0x60)
  ensures [C05] imp(err == nil && tagAt(by, QP(by, idx)) == 0x2f, VV(by, QP(by, idx)+1) <= QP(by, idx) && old(d.copyDepth) <= 1)
  ensures [C05 C17] imp(err == nil && tagAt(by, QP(by, idx)) == 0x2f, str(res) == str(result("(*Decoder).decodeStringish", 0)))
  oncall [C05 C17] (*Decoder).decodeStringish: arg2 == varlen(by, QP(by, idx)+1)
  safety C04
  modifies d.copyDepth
  ensures [C04] imp(err == nil, idx < n && n <= len(by) && idx >= 0)
  ensures [C11] d.copyDepth == old(d.copyDepth)

func (*Decoder).decodeRegexp(d, by, idx) (re, n, err)
  props C04 C05 C11 C17 C19
  ensures [C05 C17] imp(err == nil, n == IE(by, IE(by, idx)))
  ensures [C05] imp(err == nil, str(re.Modifiers) == str(result("(*Decoder).decodeStringish", 0)))
  safety C04
  modifies d.copyDepth
  fresh re
  frame C19
  ensures [C04] imp(err == nil, idx < n && n <= len(by) && idx >= 0)
  ensures [C11] d.copyDepth == old(d.copyDepth)
  ensures [C19] imp(err == nil, fresh(re.Pattern) && fresh(re.Modifiers))

func (*Decoder).decodeViaReflection(d, by, idx, ptr) (n, err)
  props C04 C05 C11 C17
  unfolding IEdef(by, idx) && NPdef(by, idx)
  unfolding IEdef(by, $i1) && NPdef(by, $i1)
  inv [C05 C17] $i1 >= idx && IE(by, idx) == IE(by, $i1) && QP(by, idx) == QP(by, $i1)
  inv [C05 C17] $b1 == by[$i1]
  ensures [C05 C17] imp(err == nil, n == IE(by, idx))
  ensures [C17] imp(err == nil, knownTag(tagAt(by, QP(by, idx))))
  ensures [C17] imp(err == nil && tagAt(by, QP(by, idx)) <= 0x21, called("setInt") || called("(*Decoder).decode"))
  ensures [C17] imp(err == nil && (tagAt(by, QP(by, idx)) == 0x22 || tagAt(by, QP(by, idx)) == 0x23), called("(reflect.Value).SetFloat") || called("(*Decoder).decode"))
  ensures [C17] imp(err == nil && (tagAt(by, QP(by, idx)) == 0x3a || tagAt(by, QP(by, idx)) == 0x3b), called("(reflect.Value).SetBool") || called("(*Decoder).decode"))
  ensures [C17] imp(err == nil && tagAt(by, QP(by, idx)) == 0x27, called("(reflect.Value).SetString") || called("(*Decoder).decode"))
  ensures [C17] imp(err == nil && (tagAt(by, QP(by, idx)) == 0x26 || tagAt(by, QP(by, idx)) >= 0x60), called("setBinary") || called("(*Decoder).decode"))
  ensures [C17] imp(err == nil && by[QP(by, idx)] >= 0x80, called("mapupdate") || called("(*Decoder).decode"))
  ensures [C17] imp(err == nil && (tagAt(by, QP(by, idx)) == 0x29 || tagAt(by, QP(by, idx)) == 0x2e || tagAt(by, QP(by, idx)) == 0x31), called("(reflect.Value).Set") || called("(*Decoder).decode"))
  oncall [C17] setInt: arg0 == ptr && tagAt(by, QP(by, idx)) <= 0x21
  oncall [C17] setInt: imp(tagAt(by, QP(by, idx)) < 16, arg1 == int(tagAt(by, QP(by, idx)))) && imp(tagAt(by, QP(by, idx)) >= 16 && tagAt(by, QP(by, idx)) < 32, arg1 == int(tagAt(by, QP(by, idx)))-32)
  |   && imp(tagAt(by, QP(by, idx)) == 0x20, uint64(arg1) == VV(by, QP(by, idx)+1)) && imp(tagAt(by, QP(by, idx)) == 0x21, uint64(arg1) == (VV(by, QP(by, idx)+1)>>1) ^ -(VV(by, QP(by, idx)+1)&1))
  oncall [C17] (reflect.Value).SetFloat: arg0 == ptr && imp(tagAt(by, QP(by, idx)) == 0x23, bits(arg1) == f64At(by, QP(by, idx)+1)) && imp(tagAt(by, QP(by, idx)) == 0x22, bits(arg1) == bits(float64(result("(*Decoder).decodeFloat", 0))))
  oncall [C17] (reflect.Value).SetBool: arg0 == ptr && iff(arg1, tagAt(by, QP(by, idx)) == 0x3b)
  oncall [C17] (reflect.Value).SetString: arg0 == ptr && arg1 == str(by, vend(by, QP(by, idx)+1), varlen(by, QP(by, idx)+1))
  oncall [C17] setBinary: arg0 == ptr && ite(tagAt(by, QP(by, idx)) == 0x26, bytesEq(arg1, by, vend(by, QP(by, idx)+1), varlen(by, QP(by, idx)+1)), bytesEq(arg1, by, QP(by, idx)+1, int(tagAt(by, QP(by, idx))&31)))
  oncall [C17] (reflect.Value).Set: arg0 == ptr
  oncall [C17] (*Decoder).decodeViaReflection: arg3 == ptr && imp(tagAt(by, QP(by, idx)) == 0x2f, arg2 == varlen(by, QP(by, idx)+1))
  oncall [C17] (*Decoder).decodeHashViaReflection: arg4 == ptr && arg3 == ite(tagAt(by, QP(by, idx)) == 0x2a, varlen(by, QP(by, idx)+1), int(tagAt(by, QP(by, idx))&15))
  oncall [C17] (*Decoder).decodeArrayViaReflection: arg4 == ptr && arg3 == ite(tagAt(by, QP(by, idx)) == 0x2b, varlen(by, QP(by, idx)+1), int(tagAt(by, QP(by, idx))&15))
  oncall [C17] (*Decoder).decodeObjectViaReflection: arg3 == ptr
  oncall [C17] (*Decoder).decodeObjectFreezeViaReflection: arg3 == ptr
  oncall [C17] mapupdate: arg1 == QP(by, idx) && by[QP(by, idx)] >= 0x80 && arg2 == ptr
  safety C04
  maypanic
  modifies d.copyDepth, contents(d.tracked), d.tcache.cmap, contents(d.tcache.cmap), rv
  requires [C04] decOK(d)
  ensures [C04] imp(err == nil, idx < n && n <= len(by) && idx >= 0)
  ensures [C11] d.copyDepth == old(d.copyDepth)

func (*Decoder).decodeArrayViaReflection(d, by, idx, ln, ptr) (n, err)
  props C04 C05 C11 C17
  unfolding AE(by, idx, 0) == idx
  unfolding AEdef(by, idx, $i2+1)
  inv [C05 C17] $i1 == AE(by, idx, $i2)
  ensures [C05 C17] imp(err == nil, n == AE(by, idx, ln))
  oncall [C17] (*Decoder).decodeViaReflection: arg2 == AE(by, idx, index(arg3)) && arg3 == result("(reflect.Value).Index", 0)
  oncall [C17] (reflect.Value).Index: arg0 == ptr
  oncall [C17] (reflect.Value).Set: arg0 == ptr
  safety C04
  maypanic
  modifies d.copyDepth, contents(d.tracked), d.tcache.cmap, contents(d.tcache.cmap), rv
  requires [C04] decOK(d) && 0 <= idx && idx <= len(by)
  ensures [C04] imp(err == nil, idx <= n && n <= len(by))
  ensures [C11] d.copyDepth == old(d.copyDepth)

func (*Decoder).decodeHashViaReflection(d, by, idx, ln, ptr) (n, err)
  props C04 C05 C11 C17 C23
  unfolding AE(by, idx, 0) == idx
  unfolding AEdef(by, idx, 2*$i2+1) && AEdef(by, idx, 2*$i2+2)
  inv [C05 C17] $i1 == AE(by, idx, 2*$i2)
  ensures [C05 C17] imp(err == nil, n == AE(by, idx, 2*ln))
  oncall [C17] (reflect.Value).SetMapIndex: arg0 == ptr && arg1 == result("reflect.ValueOf", 0) && arg2 == result("(reflect.Value).Elem", 0) && argument("(reflect.Value).Elem", 0) == result("reflect.New", 0)
  oncall [C17] (*Decoder).decodeViaReflection: arg3 == result("(reflect.Value).Field", 0) || arg3 == result("(reflect.Value).MapIndex", 0) || arg3 == result("(reflect.Value).Elem", 0) && argument("(reflect.Value).Elem", 0) == result("reflect.New", 0)
  oncall [C17] (reflect.Value).SetMapIndex: is(argument("reflect.ValueOf", 0), string) && as(argument("reflect.ValueOf", 0), string) == str(result("(*Decoder).decodeStringish", 0))
  oncall [C17] (reflect.Value).MapIndex: arg0 == ptr && is(argument("reflect.ValueOf", 0), string) && as(argument("reflect.ValueOf", 0), string) == str(result("(*Decoder).decodeStringish", 0)) && arg1 == result("reflect.ValueOf", 0)
  oncall [C17 C23] (reflect.Value).Field: arg0 == ptr
  oncall [C23] (*tagsCache).Get: arg1 == ptr
  oncall [C17 C23] (reflect.Value).Field: ite(has(result("(*tagsCache).Get", 0), str(result("(*Decoder).decodeStringish", 0))), arg1 == result("(*tagsCache).Get", 0)[str(result("(*Decoder).decodeStringish", 0))],
  |   argument("strings.Title", 0) == str(result("(*Decoder).decodeStringish", 0)) && has(result("(*tagsCache).Get", 0), result("strings.Title", 0)) && arg1 == result("(*tagsCache).Get", 0)[result("strings.Title", 0)])
  oncall [C17] (reflect.Value).Set: arg0 == ptr
  safety C04
  maypanic
  modifies d.copyDepth, contents(d.tracked), d.tcache.cmap, contents(d.tcache.cmap), rv
  requires [C04] decOK(d) && 0 <= idx && idx <= len(by)
  ensures [C04] imp(err == nil, idx <= n && n <= len(by))
  ensures [C11] d.copyDepth == old(d.copyDepth)

func (*Decoder).decodeREFP_ALIAS(d, by, idx, isREFP) (res, n, err)
  props C04 C05 C17
  ensures [C05 C17] imp(err == nil && kind(d.tracked[varlen(by, idx)]) != reflect.Ptr, res == d.tracked[varlen(by, idx)])
  ensures [C05 C17] imp(err == nil, n == vend(by, idx))
  ensures [C05] imp(err == nil, varlen(by, idx) >= 0 && varlen(by, idx) < n && has(d.tracked, varlen(by, idx)))
  safety C04
  maypanic
  modifies rv
  requires [C04] 0 <= idx && idx <= len(by)
  ensures [C04] imp(err == nil, idx < n && n <= len(by))

func (*Decoder).decodeClassName(d, by, idx, isObjectV) (res, n, err)
  props C04 C05 C11 C17
  ensures [C05 C17] imp(err == nil && isObjectV, n == vend(by, idx) && varlen(by, idx) < n)
  ensures [C05 C17] imp(err == nil && !isObjectV, n == IE(by, idx))
  oncall [C05] (*Decoder).decodeStringish: arg2 == ite(isObjectV, varlen(by, idx), idx)
  ensures [C05] imp(err == nil, str(res) == str(result("(*Decoder).decodeStringish", 0)))
  safety C04
  modifies d.copyDepth
  requires [C04] 0 <= idx && idx <= len(by)
  ensures [C04] imp(err == nil, idx < n && n <= len(by))
  ensures [C11] d.copyDepth == old(d.copyDepth)

func (*Decoder).decodeObjectViaReflection(d, by, idx, ptr, isObjectV) (n, err)
  props C04 C05 C11 C17
  ensures [C05 C17] imp(err == nil && isObjectV, n == IE(by, vend(by, idx)))
  ensures [C05 C17] imp(err == nil && !isObjectV, n == IE(by, IE(by, idx)))
  oncall [C17] decodeViaReflection: arg3 == ptr
  safety C04
  maypanic
  modifies d.copyDepth, contents(d.tracked), d.tcache.cmap, contents(d.tcache.cmap), rv
  requires [C04] decOK(d) && 0 <= idx && idx <= len(by)
  ensures [C04] imp(err == nil, idx < n && n <= len(by))
  ensures [C11] d.copyDepth == old(d.copyDepth)

// class name and data as read from the document
define frozenName() = str(result("(*Decoder).decodeStringish", 0))
define frozenData() = as(as(*argument("(*Decoder).decode", 3), []interface{})[0], []byte)
define sameBytes(a, b) = len(a) == len(b) && bytesEq(a, b, 0, len(b))

func (*Decoder).decodeObjectFreezeViaReflection(d, by, idx, ptr, isObjectV) (n, err)
  props C04 C05 C11 C17 C18
  oncall [C18] UnmarshalBinary: sameBytes(arg1, frozenData()) && len(as(*argument("(*Decoder).decode", 3), []interface{})) == 1
  oncall [C18] UnmarshalBinary: arg0 == result("findUnmarshaler", 0)
  oncall [C18] (*Decoder).getUnmarshalerType: arg1 == frozenName()
  oncall [C18] instantiateZero: arg0 == result("(*Decoder).getUnmarshalerType", 0) && result("(*Decoder).getUnmarshalerType", 1)
  oncall [C18] findUnmarshaler: arg0 == ptr || arg0 == result("instantiateZero", 0)
  oncall [C18] (reflect.Value).Set: arg0 == ptr && arg1 == result("reflect.ValueOf", 0)
  oncall [C18] (reflect.Value).Set: ite(called("UnmarshalBinary"), argument("reflect.ValueOf", 0) == result("findUnmarshaler", 0),
  |   ite(is(argument("reflect.ValueOf", 0), *PerlFreeze), as(argument("reflect.ValueOf", 0), *PerlFreeze).Class == frozenName() && sameBytes(as(argument("reflect.ValueOf", 0), *PerlFreeze).Data, frozenData()),
  |   is(argument("reflect.ValueOf", 0), []byte) && sameBytes(as(argument("reflect.ValueOf", 0), []byte), frozenData())))
  ensures [C18] imp(called("UnmarshalBinary") && result("UnmarshalBinary", 0) != nil, err == result("UnmarshalBinary", 0))
  ensures [C18] imp(err == nil, called("UnmarshalBinary") || called("(reflect.Value).Set"))
  ensures [C18] imp(err == nil && d.PerlCompat, !called("UnmarshalBinary"))
  unfolding IEdef(by, vend(by, idx)) && IEdef(by, IE(by, idx))
  ensures [C05 C17] imp(err == nil && isObjectV, n == IE(by, vend(by, idx)))
  ensures [C05 C17] imp(err == nil && !isObjectV, n == IE(by, IE(by, idx)))
  safety C04
  maypanic
  modifies d.copyDepth, contents(d.tracked), d.tcache.cmap, contents(d.tcache.cmap), rv
  requires [C04] decOK(d) && 0 <= idx && idx <= len(by)
  ensures [C04] imp(err == nil, idx < n && n <= len(by))
  ensures [C11] d.copyDepth == old(d.copyDepth)

func setInt(ptr, i) ()
  props C02 C04 C17
  oncall [C02 C17] (reflect.Value).SetInt: arg0 == ptr && arg1 == int64(i)
  oncall [C02 C17] (reflect.Value).SetUint: arg0 == ptr && arg1 == uint64(i)
  ensures [C02 C17] called("(reflect.Value).SetInt") || called("(reflect.Value).SetUint")
  safety C04
  maypanic
  modifies rv

func setBinary(ptr, val) ()
  props C04 C17 C19
  oncall [C17] reflect.Copy: arg1 == result("reflect.ValueOf", 0) && is(argument("reflect.ValueOf", 0), []byte) && bytesEq(as(argument("reflect.ValueOf", 0), []byte), val, 0, len(val))
  oncall [C17] reflect.Copy: arg0 == ptr || arg0 == result("(reflect.Value).Slice", 0) && argument("(reflect.Value).Slice", 0) == ptr && argument("(reflect.Value).Slice", 1) == 0
  oncall [C17] (reflect.Value).SetString: arg0 == ptr && arg1 == str(val)
  oncall [C17] (reflect.Value).Set: arg0 == ptr && is(argument("reflect.ValueOf", 0), []byte) && len(as(argument("reflect.ValueOf", 0), []byte)) == len(val)
  oncall [C19] (reflect.Value).Set: fresh(as(argument("reflect.ValueOf", 0), []byte))
  ensures [C17] called("reflect.Copy") || called("(reflect.Value).SetString")
  safety C04
  maypanic
  modifies rv

func findUnmarshaler(ptr) (u, ok)
  props C04 C18
  ensures [C18] imp(ok, u == result("(reflect.Value).Interface", 0) && (argument("(reflect.Value).Interface", 0) == ptr || argument("(reflect.Value).Interface", 0) == result("(reflect.Value).Addr", 0) && argument("(reflect.Value).Addr", 0) == ptr))
  safety C04
  maypanic
  modifies rv
  ensures [C04] imp(ok, u != nil)

func instantiateZero(typ) (r)
  props C04 C18
  oncall [C18] reflect.New: ite(tkind(typ) == reflect.Ptr, arg0 == result("(reflect.Type).Elem", 0) && argument("(reflect.Type).Elem", 0) == typ, arg0 == typ)
  ensures [C18] r == result("reflect.New", 0)
  safety C04
  maypanic
  requires [C04] typ != nil

func (*Decoder).getUnmarshalerType(d, name) (t, ok)
  props C04 C18
  ensures [C18] ok == has(d.umcache, name) && imp(ok, t == d.umcache[name])
  safety C04
  requires [C04] allkeys(k, d.umcache, k_val != nil)
  ensures [C04] imp(ok, t != nil)

func (*Decoder).RegisterName(d, name, value) ()
  props C04 C18
  oncall [C18] mapupdate: arg1 == name && (arg2 == typ(result("reflect.ValueOf", 0)) || arg2 == typ(result("(reflect.Value).Addr", 0)) && argument("(reflect.Value).Addr", 0) == result("reflect.ValueOf", 0))
  ensures [C18] has(d.umcache, name) && argument("reflect.ValueOf", 0) == value
  safety C04
  maypanic
  modifies d.umcache, contents(d.umcache)
  requires [C04] allkeys(k, d.umcache, k_val != nil)
  ensures [C04] allkeys(k, d.umcache, k_val != nil)

// a field takes part under its tag, or under its name if it is exported and not tagged
define fieldTag(t, i) = tagget(field(t, i).Tag, "sereal")
define takesPart(t, i) = ite(fieldTag(t, i) == "", field(t, i).PkgPath == "", fieldTag(t, i) != "-")
define fieldKey(t, i) = ite(fieldTag(t, i) == "", field(t, i).Name, fieldTag(t, i))

func (*tagsCache).Get(tc, ptr) (r)
  props C04 C22 C23
  oncall [C23] mapupdate[string]: 0 <= arg2 && arg2 < numfield(typ(ptr)) && takesPart(typ(ptr), arg2) && arg1 == fieldKey(typ(ptr), arg2)
  oncall [C23] mapupdate[reflect.Type]: arg1 == typ(ptr)
  inv [C23] forall(j, 0, $i1, imp(takesPart(typ(ptr), j), has($m1, fieldKey(typ(ptr), j))))
  inv [C23] allkeys(k, $m1, 0 <= k_val && k_val < $i1 && takesPart(typ(ptr), k_val) && k == fieldKey(typ(ptr), k_val))
  ensures [C23] imp(kind(ptr) == reflect.Struct && !old(has(tc.cmap, typ(ptr))), allkeys(k, r, 0 <= k_val && k_val < numfield(typ(ptr)) && takesPart(typ(ptr), k_val) && k == fieldKey(typ(ptr), k_val)))
  ensures [C23] imp(kind(ptr) == reflect.Struct && !old(has(tc.cmap, typ(ptr))), forall(j, 0, numfield(typ(ptr)), imp(takesPart(typ(ptr), j), has(r, fieldKey(typ(ptr), j)))))
  safety C04 C22
  maypanic
  modifies tc.cmap, contents(tc.cmap)
