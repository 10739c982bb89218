// Leaf codecs: variable-length integers, numbers, strings.
// VS(b,p), VV(b,p): size and value of the base-128 integer at b[p]; VS is 11 if there is none within 10 bytes.

func varint(by, n) (r)
  props C01 C02 C03 C08 C09 C22
  safety C22 C01
  appends by
  unfold VS VV
  unroll 12
  ensures [C01 C02 C03] VS(r, len(by)) == len(r) - len(by)
  ensures [C01 C02 C03] VV(r, len(by)) == uint64(n)
  ensures [C01 C22] len(r) - len(by) >= 1 && len(r) - len(by) <= 10
  ensures [C01] len(r) - len(by) == 1 || r[len(r)-1] != 0
  ensures [C01 C07] imp(n < 128, len(r) == len(by)+1 && r[len(by)] == uint8(n))
  ensures [C01 C08 C09] prefix(r, by)

func varintdecode(by) (n, sz, err)
  props C01 C02 C04 C14
  safety C04 C14 C01
  unfold VS VV
  unroll 12
  ensures [C01 C02] imp(err == nil, sz == VS(by, 0) && uint64(n) == VV(by, 0))
  ensures [C01 C04 C14] imp(err == nil, 1 <= sz && sz <= len(by) && sz <= 10)
  ensures [C01 C04 C14] 0 <= sz && sz <= len(by)
  ensures [C01 C04] imp(err != nil, !runtimeerr(err))
  ensures [C01] imp(VS(by, 0) <= len(by) && VS(by, 0) <= 10, err == nil)

func appendTagVarint(by, tag, n) (r)
  props C01 C14 C15
  safety C14 C01
  appends by
  unfold VS VV
  unroll 12
  requires n < 1<<63
  ensures [C01 C15] len(r) >= len(by)+2 && r[len(by)] == tag
  ensures [C01 C15] VS(r, len(by)+1) == len(r) - len(by) - 1
  ensures [C01 C15] VV(r, len(by)+1) == uint64(n)
  ensures [C01 C15] prefix(r, by)

func (*Encoder).encodeInt(e, by, k, i) (r)
  props C02 C22
  safety C22 C02
  appends by
  ensures [C02 C09 C22] prefix(r, by) && len(r) > len(by)
  ensures [C02] imp(0 <= i && i <= 15, len(r) == len(by)+1 && r[len(by)] == uint8(i))
  ensures [C02] imp(i > 15, r[len(by)] == typeVARINT && VV(r, len(by)+1) == uint64(i) && VS(r, len(by)+1) == len(r)-len(by)-1)
  ensures [C02] imp(i < 0 && k != reflect.Int, r[len(by)] == typeVARINT && VV(r, len(by)+1) == uint64(i) && VS(r, len(by)+1) == len(r)-len(by)-1)
  ensures [C02] imp(i < 0 && i >= -16 && k == reflect.Int, len(r) == len(by)+1 && r[len(by)] == uint8(i+32))
  ensures [C02] imp(i < -16 && k == reflect.Int, r[len(by)] == typeZIGZAG && VV(r, len(by)+1) == uint64(-2*i-1) && VS(r, len(by)+1) == len(r)-len(by)-1)

func (*Encoder).encodeFloat(e, by, f) (r)
  props C03 C22
  safety C22 C03
  appends by
  ensures [C03] prefix(r, by) && len(r) == len(by)+5 && r[len(by)] == typeFLOAT
  ensures [C03] uint32(r[len(by)+1]) | uint32(r[len(by)+2])<<8 | uint32(r[len(by)+3])<<16 | uint32(r[len(by)+4])<<24 == bits(f)

func (*Encoder).encodeDouble(e, by, f) (r)
  props C03 C22
  safety C22 C03
  appends by
  ensures [C03] prefix(r, by) && len(r) == len(by)+9 && r[len(by)] == typeDOUBLE
  ensures [C03] uint64(r[len(by)+1]) | uint64(r[len(by)+2])<<8 | uint64(r[len(by)+3])<<16 | uint64(r[len(by)+4])<<24
  |   | uint64(r[len(by)+5])<<32 | uint64(r[len(by)+6])<<40 | uint64(r[len(by)+7])<<48 | uint64(r[len(by)+8])<<56 == bits(f)

func (*Decoder).decodeInt(d, tag) (r)
  props C02 C04 C05
  safety C04
  ensures [C02 C05] imp(tag < 16, r == int(tag))
  ensures [C02 C05] imp(tag >= 16 && tag < 32, r == int(tag) - 32)

func (*Decoder).decodeVarint(d, by, idx) (v, n, err)
  props C02 C04 C05
  safety C04
  requires [C04] 0 <= idx && idx <= len(by)
  ensures [C02 C05] imp(err == nil, uint64(v) == VV(by, idx) && n == idx + VS(by, idx))
  ensures [C04] imp(err == nil, idx < n && n <= len(by))
  ensures [C04] imp(err != nil, !runtimeerr(err))

func (*Decoder).decodeZigzag(d, by, idx) (v, n, err)
  props C02 C04 C05
  safety C04
  requires [C04] 0 <= idx && idx <= len(by)
  ensures [C02 C05] imp(err == nil, uint64(v) == (VV(by, idx)>>1) ^ -(VV(by, idx)&1) && n == idx + VS(by, idx))
  ensures [C04] imp(err == nil, idx < n && n <= len(by))
  ensures [C04] imp(err != nil, !runtimeerr(err))

func (*Decoder).decodeFloat(d, by, idx) (f, n, err)
  props C03 C04 C05
  safety C04
  requires [C04] 0 <= idx && idx <= len(by)
  ensures [C03 C05] imp(err == nil, n == idx+4 && bits(f) == uint32(by[idx]) | uint32(by[idx+1])<<8 | uint32(by[idx+2])<<16 | uint32(by[idx+3])<<24)
  ensures [C04] imp(err == nil, n <= len(by))
  ensures [C03 C05] iff(err == nil, idx+4 <= len(by))
  ensures [C04] imp(err != nil, !runtimeerr(err))

func (*Decoder).decodeDouble(d, by, idx) (f, n, err)
  props C03 C04 C05
  safety C04
  requires [C04] 0 <= idx && idx <= len(by)
  ensures [C03 C05] imp(err == nil, n == idx+8 && bits(f) == uint64(by[idx]) | uint64(by[idx+1])<<8 | uint64(by[idx+2])<<16 | uint64(by[idx+3])<<24
  |   | uint64(by[idx+4])<<32 | uint64(by[idx+5])<<40 | uint64(by[idx+6])<<48 | uint64(by[idx+7])<<56)
  ensures [C04] imp(err == nil, n <= len(by))
  ensures [C03 C05] iff(err == nil, idx+8 <= len(by))
  ensures [C04] imp(err != nil, !runtimeerr(err))

func (*Decoder).decodeBinary(d, by, idx, ln, makeCopy) (res, n, err)
  props C03 C04 C05 C19
  safety C04
  requires [C04] 0 <= idx && idx <= len(by)
  ensures [C03 C04 C05] imp(err == nil, n == idx+ln && n <= len(by) && len(res) == ln && ln >= 0)
  ensures [C03 C05] imp(err == nil, eqrange(res, 0, by, idx, ln))
  ensures [C03 C05] imp(0 <= ln && ln <= math.MaxInt32 && idx+ln <= len(by), err == nil)
  ensures [C04] imp(err != nil, !runtimeerr(err))
  ensures [C19] makeCopy ==> fresh(res)

func (*Encoder).encodeString(e, by, s, isKeyOrClass, strTable) (r)
  props C03 C08 C22
  safety C22
  appends by
  modifies contents(strTable)
  requires [C22 C08] e.DisableDedup || !isKeyOrClass || strTable != nil
  requires [C22] ptrIn(strTable, len(by))
  ensures [C22] ptrIn(strTable, len(r))
  ensures [C03 C08 C09 C22] prefix(r, by) && len(r) > len(by)
  ensures [C08] imp(isKeyOrClass && !e.DisableDedup && !old(has(strTable, s)), has(strTable, s) && strTable[s] == len(by))
  ensures [C03] imp(!isKeyOrClass || e.DisableDedup || !old(has(strTable, s)), r[len(by)] == typeSTR_UTF8 && VV(r, len(by)+1) == len(s)
  |    && eqrange(r, len(by)+1+VS(r, len(by)+1), s, 0, len(s)) && len(r) == len(by)+1+VS(r, len(by)+1)+len(s))
  ensures [C08] imp(isKeyOrClass && !e.DisableDedup && old(has(strTable, s)), r[len(by)] == typeCOPY && VV(r, len(by)+1) == old(strTable[s])
  |    && len(r) == len(by)+1+VS(r, len(by)+1))
