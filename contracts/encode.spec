// Encoder.
// A panic that is not a run-time error (package reflect, user hooks, unsupported types) is turned into an error by MarshalWithHeader.

// stOK: the tables are there and recorded positions lie in the output by
define stOK(state, by) = state != nil && state.strTable != nil && state.ptrTable != nil && ptrIn(state.ptrTable, len(by)) && ptrIn(state.strTable, len(by))
define ptrIn(m, n) = allkeys(k, m, 0 <= k_val && k_val < n)
// strIn: as ptrIn, for a table passed alone
define limitErr(err) = err == ErrMaxRecursionLimit

func (*Encoder).encode(e, b, v, isKeyOrClass, isRefNext, state, remainingDepth) (r, err)
  props C22 C10 C09
  safety C22
  maypanic
  appends b
  modifies contents(b), contents(state.strTable), contents(state.ptrTable), e.tcache.cmap, contents(e.tcache.cmap), rv
  requires [C22] stOK(state, b)
  requires [C10] remainingDepth >= 0
  ensures [C22] imp(err == nil, len(r) > len(b) && stOK(state, r))
  ensures [C09] imp(err == nil, prefixflag(r, old(b)))
  oncall [C10] (*Encoder).encode: arg6 == remainingDepth
  oncall [C10] (*Encoder).encodeIntfArray: arg5 == remainingDepth
  oncall [C10] (*Encoder).encodeStrMap: arg5 == remainingDepth
  oncall [C10] (*Encoder).encodeViaReflection: arg6 == remainingDepth

// the item that goes out for v: v itself or its reflect.Value
define sendsBytes(a, v) = ite(is(a, reflect.Value), as(a, reflect.Value) == result("reflect.ValueOf", 0) && is(argument("reflect.ValueOf", 0), []byte) && sameBytes(as(argument("reflect.ValueOf", 0), []byte), v), is(a, []byte) && sameBytes(as(a, []byte), v))

func (*Encoder).encodeViaReflection(e, b, rv, isKeyOrClass, isRefNext, state, remainingDepth) (r, err)
  props C22 C10 C09 C18
  oncall [C18] MarshalBinary: arg0 == result("(reflect.Value).Interface", 0) && argument("(reflect.Value).Interface", 0) == rv && !e.DisableFREEZE
  oncall [C18] concreteName: arg0 == rv
  oncall [C18] encodeString: imp(called("MarshalBinary"), arg2 == result("concreteName", 0) && len(arg1) == len(b)+1 && arg1[len(b)]&127 == typeOBJECT_FREEZE)
  oncall [C18] (*Encoder).encode: imp(called("MarshalBinary"), result("MarshalBinary", 1) == nil && called("(*Encoder).encodeString") && len(arg1) == len(result("(*Encoder).encodeString", 0))+3)
  oncall [C18] (*Encoder).encode: imp(called("MarshalBinary"), arg1[len(arg1)-3] == typeREFN && arg1[len(arg1)-2] == typeARRAY && arg1[len(arg1)-1] == 1)
  oncall [C18] (*Encoder).encode: imp(called("MarshalBinary"), sendsBytes(arg2, result("MarshalBinary", 0)))
  ensures [C18] imp(called("MarshalBinary"), ite(result("MarshalBinary", 1) != nil, err == result("MarshalBinary", 1), called("(*Encoder).encode")))
  ensures [C18] imp(!e.DisableFREEZE && kind(rv) != reflect.Invalid && kind(rv) != reflect.Ptr, argument("(reflect.Value).Interface", 0) == rv && imp(implements(result("(reflect.Value).Interface", 0), encoding.BinaryMarshaler), called("MarshalBinary")))
  safety C22
  maypanic
  appends b
  modifies contents(b), contents(state.strTable), contents(state.ptrTable), e.tcache.cmap, contents(e.tcache.cmap), rv
  requires [C22] stOK(state, b)
  requires [C10] remainingDepth >= 0
  ensures [C22] imp(err == nil, len(r) > len(b) && stOK(state, r))
  ensures [C09] imp(err == nil, prefixflag(r, old(b)))
  oncall [C10] (*Encoder).encode: arg6 == remainingDepth
  oncall [C10] (*Encoder).encodeArray: arg5 == remainingDepth
  oncall [C10] (*Encoder).encodeMap: arg5 == remainingDepth
  oncall [C10] (*Encoder).encodeStruct: arg4 == remainingDepth
  oncall [C10] (*Encoder).encodePointer: arg4 == remainingDepth

func (*Encoder).encodeIntfArray(e, by, arr, isRefNext, state, remainingDepth) (r, err)
  props C22 C10 C09
  drop C01 C02 C03 C08
  safety C22
  maypanic
  appends by
  modifies contents(by), contents(state.strTable), contents(state.ptrTable), e.tcache.cmap, contents(e.tcache.cmap), rv
  requires [C22] stOK(state, by)
  requires [C10] remainingDepth >= 0
  ensures [C22] imp(err == nil, len(r) > len(by) && stOK(state, r))
  ensures [C09] imp(err == nil, prefixflag(r, old(by)))
  ensures [C10] imp(remainingDepth <= 1, limitErr(err))
  oncall [C10] (*Encoder).encode: remainingDepth > 1 && arg6 == remainingDepth-1
  inv stOK(state, $s)
  inv prefixflag($s, old(by))
  inv [C09] imp(called("varint"), len($s) == len(result("varint", 0)) + grown("(*Encoder).encode"))
  ensures [C09] imp(err == nil && called("varint"), len(r) == len(result("varint", 0)) + grown("(*Encoder).encode"))
  ensures [C09] imp(err == nil && called("(*Encoder).encode"), result("(*Encoder).encode", 1) == nil)
  oncall [C09] varint: arg1 == uint(len(arr)) && len(arg0) == len(by)+ite(e.PerlCompat && !isRefNext, 2, 1) && arg0[len(arg0)-1] == typeARRAY && imp(e.PerlCompat && !isRefNext, arg0[len(by)] == typeREFN)
  oncall [C09] (*Encoder).encode: ncalls("(*Encoder).encode") < len(arr) && arg2 == arr[ncalls("(*Encoder).encode")] && arg5 == state
  ensures [C09] imp(err == nil, ncalls("(*Encoder).encode") == len(arr))

func (*Encoder).encodeStrMap(e, by, m, isRefNext, state, remainingDepth) (r, err)
  props C22 C10 C09
  drop C01 C02 C03 C08
  safety C22
  maypanic
  appends by
  modifies contents(by), contents(state.strTable), contents(state.ptrTable), e.tcache.cmap, contents(e.tcache.cmap), rv
  requires [C22] stOK(state, by)
  requires [C10] remainingDepth >= 0
  ensures [C22] imp(err == nil, len(r) > len(by) && stOK(state, r))
  ensures [C09] imp(err == nil, prefixflag(r, old(by)))
  ensures [C10] imp(remainingDepth <= 1, limitErr(err))
  oncall [C10] (*Encoder).encode: remainingDepth > 1 && arg6 == remainingDepth-1
  inv stOK(state, $s)
  inv prefixflag($s, old(by))
  inv [C09] imp(called("varint"), len($s) == len(result("varint", 0)) + grown("(*Encoder).encode") + grown("(*Encoder).encodeString"))
  ensures [C09] imp(err == nil && called("varint"), len(r) == len(result("varint", 0)) + grown("(*Encoder).encode") + grown("(*Encoder).encodeString"))
  ensures [C09] imp(err == nil && called("(*Encoder).encode"), result("(*Encoder).encode", 1) == nil)
  oncall [C09] varint: arg1 == uint(len(m)) && len(arg0) == len(by)+ite(e.PerlCompat && !isRefNext, 2, 1) && arg0[len(arg0)-1] == typeHASH && imp(e.PerlCompat && !isRefNext, arg0[len(by)] == typeREFN)
  oncall [C09] (*Encoder).encodeString: has(m, arg2)
  oncall [C09] (*Encoder).encode: has(m, argument("(*Encoder).encodeString", 2)) && arg2 == m[argument("(*Encoder).encodeString", 2)] && len(arg1) == len(result("(*Encoder).encodeString", 0)) && arg5 == state
  ensures [C09] imp(err == nil, ncalls("(*Encoder).encode") == len(m) && ncalls("(*Encoder).encodeString") == len(m))

func (*Encoder).encodeArray(e, by, arr, isRefNext, state, remainingDepth) (r, err)
  props C22 C10 C09
  drop C01 C02 C03 C08
  safety C22
  maypanic
  appends by
  modifies contents(by), contents(state.strTable), contents(state.ptrTable), e.tcache.cmap, contents(e.tcache.cmap), rv
  requires [C22] stOK(state, by)
  requires [C10] remainingDepth >= 0
  ensures [C22] imp(err == nil, len(r) > len(by) && stOK(state, r))
  ensures [C09] imp(err == nil, prefixflag(r, old(by)))
  ensures [C10] imp(remainingDepth <= 1, limitErr(err))
  oncall [C10] (*Encoder).encode: remainingDepth > 1 && arg6 == remainingDepth-1
  inv stOK(state, $s)
  inv prefixflag($s, old(by))
  inv [C09] imp(called("varint"), len($s) == len(result("varint", 0)) + grown("(*Encoder).encode"))
  ensures [C09] imp(err == nil && called("varint"), len(r) == len(result("varint", 0)) + grown("(*Encoder).encode"))
  ensures [C09] imp(err == nil && called("(*Encoder).encode"), result("(*Encoder).encode", 1) == nil)
  oncall [C09] varint: arg1 == uint(result("(reflect.Value).Len", 0)) && argument("(reflect.Value).Len", 0) == arr && len(arg0) == len(by)+ite(e.PerlCompat && !isRefNext, 2, 1) && arg0[len(arg0)-1] == typeARRAY && imp(e.PerlCompat && !isRefNext, arg0[len(by)] == typeREFN)
  oncall [C09] (*Encoder).encode: argument("(reflect.Value).Index", 0) == arr && argument("(reflect.Value).Index", 1) == ncalls("(*Encoder).encode") && is(arg2, reflect.Value) && as(arg2, reflect.Value) == result("(reflect.Value).Index", 0) && arg5 == state
  ensures [C09] imp(err == nil, ncalls("(*Encoder).encode") == result("(reflect.Value).Len", 0))

func (*Encoder).encodeMap(e, by, m, isRefNext, state, remainingDepth) (r, err)
  props C22 C10 C09
  drop C01 C02 C03 C08
  safety C22
  maypanic
  appends by
  modifies contents(by), contents(state.strTable), contents(state.ptrTable), e.tcache.cmap, contents(e.tcache.cmap), rv
  requires [C22] stOK(state, by)
  requires [C10] remainingDepth >= 0
  ensures [C22] imp(err == nil, len(r) > len(by) && stOK(state, r))
  ensures [C09] imp(err == nil, prefixflag(r, old(by)))
  ensures [C10] imp(remainingDepth <= 1, limitErr(err))
  oncall [C10] (*Encoder).encode: remainingDepth > 1 && arg6 == remainingDepth-1
  inv stOK(state, $s)
  inv prefixflag($s, old(by))
  inv [C09] imp(called("varint"), len($s) == len(result("varint", 0)) + grown("(*Encoder).encode") + grown("(*Encoder).encodeString"))
  ensures [C09] imp(err == nil && called("varint"), len(r) == len(result("varint", 0)) + grown("(*Encoder).encode") + grown("(*Encoder).encodeString"))
  ensures [C09] imp(err == nil && called("(*Encoder).encode"), result("(*Encoder).encode", 1) == nil)
  oncall [C09] (reflect.Value).MapKeys: arg0 == m
  oncall [C09] varint: arg1 == uint(len(result("(reflect.Value).MapKeys", 0))) && len(arg0) == len(by)+ite(e.PerlCompat && !isRefNext, 2, 1) && arg0[len(arg0)-1] == typeHASH && imp(e.PerlCompat && !isRefNext, arg0[len(by)] == typeREFN)
  oncall [C09] (reflect.Value).MapIndex: arg0 == m && arg1 == result("(reflect.Value).MapKeys", 0)[ncalls("(*Encoder).encode")]
  oncall [C09] (*Encoder).encodeString: arg2 == result("(reflect.Value).String", 0)
  oncall [C09] (reflect.Value).String: arg0 == result("(reflect.Value).MapKeys", 0)[ncalls("(*Encoder).encode")] || arg0 == result("(reflect.Value).Elem", 0) && argument("(reflect.Value).Elem", 0) == result("(reflect.Value).MapKeys", 0)[ncalls("(*Encoder).encode")]
  oncall [C09] (*Encoder).encode: is(arg2, reflect.Value) && as(arg2, reflect.Value) == result("(reflect.Value).MapIndex", 0) && len(arg1) == len(result("(*Encoder).encodeString", 0)) && arg5 == state
  ensures [C09] imp(err == nil, ncalls("(*Encoder).encode") == len(result("(reflect.Value).MapKeys", 0)) && ncalls("(*Encoder).encodeString") == len(result("(reflect.Value).MapKeys", 0)))

func (*Encoder).encodeStruct(e, by, st, state, remainingDepth) (r, err)
  props C22 C10 C09 C23
  oncall [C23] (*tagsCache).Get: arg1 == st
  oncall [C23 C09] varint: arg1 == uint(len(result("(*tagsCache).Get", 0)))
  oncall [C23 C09] (reflect.Value).Field: arg0 == st && has(result("(*tagsCache).Get", 0), argument("(*Encoder).encodeString", 2)) && arg1 == result("(*tagsCache).Get", 0)[argument("(*Encoder).encodeString", 2)]
  oncall [C23 C09] (*Encoder).encode: is(arg2, reflect.Value) && as(arg2, reflect.Value) == result("(reflect.Value).Field", 0) && len(arg1) == len(result("(*Encoder).encodeString", 0))
  oncall [C23] (*Encoder).encodeBytes: str(arg2) == result("(reflect.Type).Name", 0) && argument("(reflect.Type).Name", 0) == typ(st)
  drop C01 C02 C03 C08
  safety C22
  maypanic
  appends by
  modifies contents(by), contents(state.strTable), contents(state.ptrTable), e.tcache.cmap, contents(e.tcache.cmap), rv
  requires [C22] stOK(state, by)
  requires [C10] remainingDepth >= 0
  ensures [C22] imp(err == nil, len(r) > len(by) && stOK(state, r))
  ensures [C09] imp(err == nil, prefixflag(r, old(by)))
  ensures [C10] imp(remainingDepth <= 1, limitErr(err))
  oncall [C10] (*Encoder).encode: remainingDepth > 1 && arg6 == remainingDepth-1
  inv stOK(state, $s)
  inv prefixflag($s, old(by))
  inv [C09] imp(called("varint"), len($s) == len(result("varint", 0)) + grown("(*Encoder).encode") + grown("(*Encoder).encodeString"))
  ensures [C09] imp(err == nil && called("varint"), len(r) == len(result("varint", 0)) + grown("(*Encoder).encode") + grown("(*Encoder).encodeString"))
  ensures [C09] imp(err == nil && called("(*Encoder).encode"), result("(*Encoder).encode", 1) == nil)
  oncall [C09] varint: len(arg0) > len(by) && arg0[len(arg0)-1] == typeHASH && called("(*Encoder).encodeBytes") && len(arg0) == len(result("(*Encoder).encodeBytes", 0))+ite(e.PerlCompat, 2, 1) && imp(e.PerlCompat, arg0[len(arg0)-2] == typeREFN)
  oncall [C09] (*Encoder).encodeBytes: len(arg1) == len(by)+1 && arg1[len(by)] == typeOBJECT
  ensures [C09] imp(err == nil, ncalls("(*Encoder).encode") == len(result("(*tagsCache).Get", 0)) && ncalls("(*Encoder).encodeString") == len(result("(*tagsCache).Get", 0)))

// keys under which the referent of pointer rv and what it refers to are recorded
define ptrKeyOf(rv) = ptrKey{result("(reflect.Value).Pointer", 0), result("(reflect.Type).Elem", 0), -1}
define refpTo(r, p, o) = r[p] == typeREFP && VV(r, p+1) == uint64(o) && len(r) == p+1+int(VS(r, p+1)) && r[o]&128 == 128

func (*Encoder).encodePointer(e, by, rv, state, remainingDepth) (r, err)
  props C22 C10 C09 C21
  safety C22
  maypanic
  appends by
  modifies contents(by), contents(state.strTable), contents(state.ptrTable), e.tcache.cmap, contents(e.tcache.cmap), rv
  requires [C22] stOK(state, by)
  requires [C10] remainingDepth >= 0
  ensures [C22] imp(err == nil, len(r) > len(by) && stOK(state, r))
  ensures [C09] imp(err == nil, prefixflag(r, old(by)))
  ensures [C10] imp(remainingDepth <= 1, limitErr(err))
  oncall [C10] (*Encoder).encode: remainingDepth > 1 && arg6 == remainingDepth-1
  oncall [C21] getPointer: arg0 == result("(reflect.Value).Elem", 0) && argument("(reflect.Value).Elem", 0) == rv
  oncall [C21] (reflect.Value).Pointer: arg0 == rv
  oncall [C21] (reflect.Type).Elem: arg0 == typ(rv)
  oncall [C21] (*Encoder).encode: is(arg2, reflect.Value) && as(arg2, reflect.Value) == result("(reflect.Value).Elem", 0) && argument("(reflect.Value).Elem", 0) == rv && arg5 == state
  oncall [C21] mapupdate: arg1 == ptrKeyOf(rv) && arg2 == len(by) && !called("(*Encoder).encode") || arg1 == result("getPointer", 0) && arg1.addr != 0 && arg2 == len(by)+1 && called("(*Encoder).encode")
  ensures [C21] imp(err == nil && !called("(*Encoder).encode") && old(has(state.ptrTable, ptrKeyOf(rv))), r[len(by)] == typeREFP)
  ensures [C21] imp(err == nil && !called("(*Encoder).encode") && old(has(state.ptrTable, ptrKeyOf(rv))), VV(r, len(by)+1) == uint64(old(state.ptrTable[ptrKeyOf(rv)])))
  ensures [C21] imp(err == nil && !called("(*Encoder).encode") && old(has(state.ptrTable, ptrKeyOf(rv))), len(r) == len(by)+1+int(VS(r, len(by)+1)))
  ensures [C21] imp(err == nil && !called("(*Encoder).encode") && old(has(state.ptrTable, ptrKeyOf(rv))), r[old(state.ptrTable[ptrKeyOf(rv)])]&128 == 128)
  ensures [C21] imp(err == nil && !called("(*Encoder).encode") && !old(has(state.ptrTable, ptrKeyOf(rv))), result("getPointer", 0).addr != 0 && old(has(state.ptrTable, result("getPointer", 0))) && refpTo(r, len(by), old(state.ptrTable[result("getPointer", 0)])))

func (*Encoder).encodeBytes(e, by, byt, isKeyOrClass, strTable) (r)
  props C03 C08 C22
  safety C22
  appends by
  modifies contents(strTable)
  requires [C22 C08] e.DisableDedup || !isKeyOrClass || strTable != nil
  requires [C22] ptrIn(strTable, len(by))
  ensures [C22] ptrIn(strTable, len(r))
  ensures [C03 C08 C09 C22] prefix(r, by) && len(r) > len(by)
  ensures [C03] imp((!isKeyOrClass || e.DisableDedup || !old(has(strTable, str(byt)))) && len(byt) < 32, r[len(by)] == typeSHORT_BINARY_0 + uint8(len(byt))
  |    && eqrange(r, len(by)+1, byt, 0, len(byt)) && len(r) == len(by)+1+len(byt))
  ensures [C03] imp((!isKeyOrClass || e.DisableDedup || !old(has(strTable, str(byt)))) && len(byt) >= 32, r[len(by)] == typeBINARY && VV(r, len(by)+1) == len(byt)
  |    && eqrange(r, len(by)+1+VS(r, len(by)+1), byt, 0, len(byt)) && len(r) == len(by)+1+VS(r, len(by)+1)+len(byt))
  ensures [C08] imp(isKeyOrClass && !e.DisableDedup && old(has(strTable, str(byt))), r[len(by)] == typeCOPY && VV(r, len(by)+1) == old(strTable[str(byt)])
  |    && len(r) == len(by)+1+VS(r, len(by)+1))
  ensures [C08] imp(isKeyOrClass && !e.DisableDedup && !old(has(strTable, str(byt))), has(strTable, str(byt)) && strTable[str(byt)] == len(by))

func (*Encoder).encodeJsonNumber(e, by, n, isKeyOrClass, strTable) (r)
  props C02 C22
  safety C22
  appends by
  modifies contents(strTable)
  requires [C22 C08] e.DisableDedup || !isKeyOrClass || strTable != nil
  requires [C22] ptrIn(strTable, len(by))
  ensures [C22] len(r) > len(by) && ptrIn(strTable, len(r)) && prefix(r, by)

func getPointer(rv) (k)
  props C22 C21
  safety C22
  maypanic
  ensures [C21] imp(k.addr != 0 && kind(rv) != reflect.Interface, kind(rv) == reflect.Map || kind(rv) == reflect.Slice || kind(rv) == reflect.Ptr || kind(rv) == reflect.String)
  ensures [C21] imp(k.addr != 0 && kind(rv) == reflect.Map, k == ptrKey{result("(reflect.Value).Pointer", 0), typ(rv), -1} && argument("(reflect.Value).Pointer", 0) == rv)
  ensures [C21] imp(k.addr != 0 && kind(rv) == reflect.Slice, k == ptrKey{result("(reflect.Value).Pointer", 0), typ(rv), rvlen(rv)} && argument("(reflect.Value).Pointer", 0) == rv)
  ensures [C21] imp(k.addr != 0 && kind(rv) == reflect.Ptr, k == ptrKey{result("(reflect.Value).Pointer", 0), result("(reflect.Type).Elem", 0), -1} && argument("(reflect.Value).Pointer", 0) == rv && argument("(reflect.Type).Elem", 0) == typ(rv))
  ensures [C21] imp(k.addr != 0 && kind(rv) == reflect.String, k.typ == typ(rv))

func concreteName(value) (s)
  props C22 C18
  ensures [C18] argument("(reflect.Type).PkgPath", 0) == typ(value) && argument("(reflect.Type).Name", 0) == typ(value) && s == result("(reflect.Type).PkgPath", 0) + "." + result("(reflect.Type).Name", 0)
  safety C22
  maypanic

func remainingRecursion(maxDepth) (r)
  props C10
  ensures [C10] r == ite(maxDepth <= 0, 2147483647, maxDepth)

// protocol version of the output; header metadata is there from version 2 on
define outVersion(e) = ite(old(e.version) == 0, ProtocolVersion, old(e.version))
define withHeader(e, header) = header != nil && outVersion(e) >= 2
// the encoded body, of which the first hack bytes are there for the offsets only
define encoded() = result("(*Encoder).encode", 0)
define hack(e) = ite(outVersion(e) == 1, 6, 1)
define bodyIs(b, at, src, from) = len(b) == at+len(src)-from && eqrange(b, at, src, from, len(src)-from)

func (*Encoder).MarshalWithHeader(e, header, body) (b, err)
  props C22 C07 C10 C12
  safety C22
  requires [C22] e.ExpectedSize <= 1<<47
  requires [C07 C12] 0 <= e.version && e.version <= 3
  modifies e.version, e.tcache.cmap, contents(e.tcache.cmap), rv
  oncall [C10] (*Encoder).encode: arg6 == ite(e.MaxRecursionDepth <= 0, 2147483647, e.MaxRecursionDepth)
  oncall [C07] (*Encoder).encode: arg5 != nil && arg5.strTable != nil && arg5.ptrTable != nil && len(arg5.strTable) == 0 && len(arg5.ptrTable) == 0
  oncall [C07] (*Encoder).encode: arg2 == body && len(arg1) == hack(e) || arg2 == header && len(arg1) == 1 && withHeader(e, header) && arg1[0] == 1
  ensures [C07] imp(err == nil, len(b) >= 6 && magicOK(b) && int(b[4]&15) == outVersion(e))
  ensures [C07] imp(err == nil && !withHeader(e, header), b[5] == 0)
  ensures [C07] imp(err == nil && withHeader(e, header), prevcalled("(*Encoder).encode") && prevargument("(*Encoder).encode", 2) == header && int(VV(b, 5)) == len(prevresult("(*Encoder).encode", 0))
  |   && bodyAt(b) <= len(b) && eqrange(b, 5+int(VS(b, 5)), prevresult("(*Encoder).encode", 0), 0, len(prevresult("(*Encoder).encode", 0))))
  ensures [C07] imp(err == nil, called("(*Encoder).encode") && argument("(*Encoder).encode", 2) == body && result("(*Encoder).encode", 1) == nil)
  ensures [C07 C12] imp(err == nil && b[4]>>4 == 0 && !withHeader(e, header), bodyIs(b, 6, encoded(), hack(e)))
  ensures [C07 C12] imp(err == nil && b[4]>>4 == 0 && withHeader(e, header), bodyIs(b, bodyAt(b), encoded(), hack(e)))
  ensures [C12] imp(err == nil, typeOK(b[4]&15, b[4]>>4))
  ensures [C12] imp(err == nil, iff(b[4]>>4 == 0, e.Compression == nil || e.CompressionThreshold != 0 && len(encoded())-hack(e) < e.CompressionThreshold))
  ensures [C12] imp(err == nil && (b[4]>>4 == 1 || b[4]>>4 == 2), is(e.Compression, SnappyCompressor) && (b[4]>>4 == 2) == as(e.Compression, SnappyCompressor).Incremental)
  ensures [C12] imp(err == nil && b[4]>>4 == 3, is(e.Compression, ZlibCompressor))
  ensures [C07 C12] imp(err == nil && is(e.Compression, SnappyCompressor) && b[4]>>4 != 0, called("(SnappyCompressor).compress") && bodyIs(argument("(SnappyCompressor).compress", 1), 0, encoded(), hack(e))
  |   && bodyIs(b, ite(withHeader(e, header), bodyAt(b), 6), result("(SnappyCompressor).compress", 0), 0))
  ensures [C07 C12] imp(err == nil && is(e.Compression, ZlibCompressor) && b[4]>>4 != 0, called("(ZlibCompressor).compress") && bodyIs(argument("(ZlibCompressor).compress", 1), 0, encoded(), hack(e))
  |   && bodyIs(b, ite(withHeader(e, header), bodyAt(b), 6), result("(ZlibCompressor).compress", 0), 0))

func (*Encoder).Marshal(e, body) (b, err)
  props C22 C07
  safety C22
  oncall [C07] (*Encoder).MarshalWithHeader: arg1 == nil && arg2 == body
  ensures [C07] called("(*Encoder).MarshalWithHeader") && err == result("(*Encoder).MarshalWithHeader", 1) && imp(err == nil, sameBytes(b, result("(*Encoder).MarshalWithHeader", 0)))
  requires [C22] e.ExpectedSize <= 1<<47
  requires [C07 C12] 0 <= e.version && e.version <= 3
  modifies e.version, e.tcache.cmap, contents(e.tcache.cmap), rv

func Marshal(body) (b, err)
  props C22 C07
  safety C22
  oncall [C07] (*Encoder).MarshalWithHeader: arg1 == nil && arg2 == body
  ensures [C07] called("(*Encoder).MarshalWithHeader") && err == result("(*Encoder).MarshalWithHeader", 1) && imp(err == nil, sameBytes(b, result("(*Encoder).MarshalWithHeader", 0)))
  modifies rv
