// Merger.

// mOK: what initMerger sets up and every call keeps
define tabPos(t) = allkeys(k, t, 0 <= k_val)
define mOK(m) = imp(m.inited, m.strTable != nil && m.utfTable != nil && m.objTable != nil && 0 <= m.length && m.length <= math.MaxInt32
  |   && m.bodyOffset == 5 && len(m.buf) >= 6 && 6 <= m.lenOffset && m.lenOffset <= 8
  |   && tabPos(m.strTable) && tabPos(m.utfTable) && tabPos(m.objTable))
  |   && imp(!m.inited, m.length == 0 && !m.finished) && imp(m.inited && !m.finished, m.lenOffset+5 <= len(m.buf))
define mdocOK(d) = len(d.buf) <= 1<<47 && d.startIdx == 0 && d.bodyOffset <= -1 && d.bodyOffset >= -(1<<47)

func isShallowStringish(tag) (r)
  props C14 C15
  safety C14
  ensures [C14 C15] r == (tag == typeBINARY || tag == typeSTR_UTF8 || (tag >= typeSHORT_BINARY_0 && tag < typeSHORT_BINARY_0+32))

func readString(buf) (n, s, err)
  props C14 C15
  safety C14
  ensures [C14 C15] imp(err == nil, 1 <= n && n <= 11 && n + len(s) <= len(buf))
  ensures [C15] imp(err == nil, eqrange(s, 0, buf, n, len(s)))
  ensures [C15] imp(err == nil && buf[0]&127 >= typeSHORT_BINARY_0, n == 1 && len(s) == int(buf[0]&31))
  ensures [C15] imp(err == nil && buf[0]&127 < typeSHORT_BINARY_0, (buf[0]&127 == typeBINARY || buf[0]&127 == typeSTR_UTF8) && n == 1+VS(buf, 1) && len(s) == VV(buf, 1))

func (*Merger).expectedElements(m, b) (n, off, err)
  props C14 C15
  safety C14
  ensures [C14] imp(err == nil, 0 <= off && off <= len(b))
  requires [C14] m != nil
  ensures [C15] imp(!m.KeepFlat, err == nil && n == 1 && off == 0)
  ensures [C15] imp(err == nil && off == 0, n == 1)

func (*Merger).initMerger(m) (err)
  props C14 C15 C16
  safety C14
  requires [C14] m != nil && mOK(m) && m.ExpectedSize <= 1<<47
  modifies m.strTable, m.utfTable, m.objTable, m.buf, m.version, m.bodyOffset, m.lenOffset, m.inited, contents(m.buf)
  ensures [C14] mOK(m)
  ensures [C14] m.finished == old(m.finished)
  ensures [C14 C15] imp(err == nil, m.inited)

func (*Merger).buildTrackTable(m, doc) (err)
  props C14 C15
  safety C14
  requires [C14] m != nil && doc != nil && mdocOK(doc)
  modifies doc.trackTable, doc.trackIdxs, doc.copiesItems
  ensures [C14] imp(err == nil, doc.trackTable != nil)

func (*Merger).mergeItems(m, doc) (err)
  props C14 C15 C16
  safety C14
  requires [C14] m != nil && mOK(m) && m.inited && !m.finished && doc != nil && mdocOK(doc) && doc.trackTable != nil
  modifies m.buf, m.length, contents(m.buf), contents(m.strTable), contents(m.utfTable), contents(m.objTable), contents(doc.trackTable), doc.trackIdxs
  inv tabPos($m)
  ensures [C14] mOK(m) && len(m.buf) >= old(len(m.buf))
  ensures [C14 C16] imp(err != nil, len(m.buf) == old(len(m.buf)) && m.length == old(m.length))

func (*Merger).forgetOffsets(m, offset) ()
  props C14 C16
  safety C14
  requires [C14] m != nil && mOK(m) && m.inited
  modifies contents(m.strTable), contents(m.utfTable), contents(m.objTable)
  ensures [C14] mOK(m)
  inv tabPos($m)

func (*Merger).Append(m, b) (n, err)
  props C14 C15 C16
  safety C14
  requires [C14] m != nil && mOK(m) && m.ExpectedSize <= 1<<47 && len(b) <= 1<<40
  modifies m.strTable, m.utfTable, m.objTable, m.buf, m.length, m.version, m.bodyOffset, m.lenOffset, m.inited, contents(m.buf), contents(m.strTable), contents(m.utfTable), contents(m.objTable)
  ensures [C14] mOK(m)

func (*Merger).Finish(m) (b, err)
  props C14 C15 C12
  safety C14
  requires [C14] m != nil && mOK(m) && m.ExpectedSize <= 1<<47
  modifies m.strTable, m.utfTable, m.objTable, m.buf, m.version, m.bodyOffset, m.lenOffset, m.inited, m.finished, contents(m.buf)
  ensures [C14] mOK(m)
