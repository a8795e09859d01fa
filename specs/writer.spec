// ---- Writing blocks: statistics (C02)
fold umin uMinU(s []u64; i) = s[i]
fold umax uMaxU(s []u64; i) = s[i]

func col.calculateMinMaxUint64 (values) (mn, mx)
  flags @stat
  props C01 C02 C08 C09
  ensures imp(len(values) >= 1, mn == uMinU(values, 0, len(values)) && mx == uMaxU(values, 0, len(values)))
template [@stat] (m uint64, i cnt, s []uint64) m == min(s[0], uMinU(s, 0, i))
template [@stat] (m uint64, i cnt, s []uint64) m == max(s[0], uMaxU(s, 0, i))
func col.calculateMinMaxInt64 (values) (mn, mx)
  flags @stat
  props C01 C02 C08 C09
  ensures imp(len(values) >= 1, mn == sMin(values, 0, len(values)) && mx == sMax(values, 0, len(values)))
template [@stat] (m int64, i cnt, s []int64) m == min(s[0], sMin(s, 0, i))
template [@stat] (m int64, i cnt, s []int64) m == max(s[0], sMax(s, 0, i))
func col.calculateSumInt64 (values) (t)
  flags @stat
  props C01 C02 C08 C09
  ensures t == wrap_i64(sSum(values, 0, len(values)))
template [@stat] (m int64, i cnt, s []int64) m == wrap_i64(sSum(s, 0, i))

func col.int64ToUint64 (v) (u)
  props C01 C02 C08 C09
  ensures u == i2u(v)

// invariant of a writer
def WI(w) = w.file != nil && w.globalIDs != nil && isopen(w.file) && w.encodingType <= 7 && len(w.blockPositions) == w.blockCount && len(w.blockSizes) == w.blockCount && len(w.blockStats) == w.blockCount && w.blockCount < 2147483648
def exactStats(s, ids, values) = s.MinID == uMinU(ids, 0, len(ids)) && s.MaxID == uMaxU(ids, 0, len(ids)) && s.MinValue == sMin(values, 0, len(values)) && s.MaxValue == sMax(values, 0, len(values)) && s.Sum == wrap_i64(sSum(values, 0, len(values))) && s.Count == len(ids)


// ---- file layout: C09
func (*col.Writer).writeHeader (w) (err) mode w
  props C09
  requires w.file != nil && isopen(w.file) && size(w.file) == 0 && pos(w.file) == 0
  modifies file(w.file)
  ensures imp(err == nil, size(w.file) == 64 && pos(w.file) == 64)
  ensures imp(err == nil, headerOf(content(w.file), 0, w.blockSizeTarget, w.encodingType, 0, 0))
def headerOf(c, n, target, enc, bo, bs) = rd(c, 0, 8) == MagicNumber && rd(c, 8, 4) == 1 && rd(c, 12, 4) == 0 && rd(c, 16, 8) == n && rd(c, 24, 4) == target && rd(c, 28, 4) == 0 && rd(c, 32, 4) == enc && rd(c, 44, 8) == bo && rd(c, 52, 8) == bs && rd(c, 60, 4) == 0

def entryOf(c, p, off, sz, s) = rd(c, p, 8) == off && rd(c, p + 8, 4) == sz && rd(c, p + 12, 8) == s.MinID && rd(c, p + 20, 8) == s.MaxID && rd(c, p + 28, 8) == i2u(s.MinValue) && rd(c, p + 36, 8) == i2u(s.MaxValue) && rd(c, p + 44, 8) == i2u(s.Sum) && rd(c, p + 52, 4) == s.Count

func (*col.Writer).writeBlockFooter (w, blockOffset, blockSize, minID, maxID, minValue, maxValue, sum, count) (err) mode w
  flags internal
  props C02 C09
  name P = pos(w.file)
  requires w.file != nil && isopen(w.file)
  requires pos(w.file) == size(w.file) && blockSize < 4294967296
  modifies appends(w.file)
  ensures err == nil
  ensures imp(err == nil, size(w.file) == P + 56 && pos(w.file) == P + 56)
  ensures imp(err == nil, rd(content(w.file), P, 8) == blockOffset && rd(content(w.file), P + 8, 4) == blockSize && rd(content(w.file), P + 12, 8) == minID && rd(content(w.file), P + 20, 8) == maxID && rd(content(w.file), P + 28, 8) == i2u(minValue) && rd(content(w.file), P + 36, 8) == i2u(maxValue) && rd(content(w.file), P + 44, 8) == i2u(sum) && rd(content(w.file), P + 52, 4) == count)

func (*col.Writer).Finalize (w) (err) mode w
  flags @fin
  props C02 C09
  name F = w.file
  name BP = w.blockPositions
  name BS = w.blockSizes
  name ST = w.blockStats
  name N = w.blockCount
  requires WI(w)
  requires size(F) >= 64 && rd(content(F), 60, 4) == 0
  modifies file(w.file)
  ensures [C09] imp(err == nil, headerOf(content(F), N, w.blockSizeTarget, w.encodingType, old(size(F)), rd(content(F), old(size(F)), 4) + 4))
  ensures [C09] imp(err == nil, rd(content(F), size(F) - 8, 8) == MagicNumber && rd(content(F), size(F) - 16, 8) == 0 && footAt(content(F), size(F)) % 4096 == 0)
  ensures imp(err == nil, footLen(content(F), size(F)) == 4 + 56 * N && footCount(content(F), size(F)) == N)
  ensures imp(err == nil, forall(k, 0, N, entryOf(content(F), entryAt(content(F), size(F), k), BP[k], BS[k], ST[k])))
  ensures imp(err == nil, forall(k, 64, old(size(F)), rd(content(F), k, 1) == old(rd(content(F), k, 1))))
template [@fin] (i ctr, p int64) pos(F) == p + 4 + 56 * i && size(F) == pos(F)
template [@fin] (i ctr, p int64) forall(k, 0, i, entryOf(content(F), p + 4 + 56 * k, BP[k], BS[k], ST[k]))

// ---- encoding of columns: C01 C08 C09
// varint codes: length of a code, and "the first n bytes at b are the code of v".  Defined by encodeVarInt and encodeSignedVarInt;
// the axioms restate what their bit-vector contracts (codec.spec, proved with every property that uses this) say, and, for
// vcode_dec, that encoding/binary.Uvarint decodes canonical varints.
fn vl(u64) code
fn sl(i64) code
fn vcode(bytes, len, u64) int window
fn scode(bytes, len, i64) int window
axiom [@show] vcode_dec(b, n, v) {vcode(b, n, v)} imp(vcode(b, n, v) == 1, forallv(L, u64, imp(n <= L, uvdec(b, L) == v && uvlen(b, L) == n)))
axiom [@show] scode_dec(b, n, v) {scode(b, n, v)} imp(scode(b, n, v) == 1, rd(b, n - 1, 1) < 128 && forallv(L, u64, imp(n <= L, svdec(b, L) == v && svlen(b, L) == n)))

func col.encodeVarInt (v) (out) mode w
  props C01 C08 C09
  fresh out
  defines len(out) == vl(v) && vcode(elems(out), len(out), v) == 1
func col.encodeSignedVarInt (v) (out) mode w
  props C01 C08 C09
  fresh out
  defines len(out) == sl(v) && scode(elems(out), len(out), v) == 1

// the stored number of row j
def encid(e, ids, j) = ite(deltaID(e) && j > 0, wrap_u64(ids[j] - ids[j-1]), ids[j])
def encval(e, vs, j) = ite(deltaVal(e) && j > 0, wrap_i64(vs[j] - vs[j-1]), vs[j])
fold sum idBytes(e u32, ids []u64; j) = vl(encid(e, ids, j))
fold sum valBytes(e u32, vs []i64; j) = sl(encval(e, vs, j))
def idSize(e, ids, n) = ite(varID(e), idBytes(e, ids, 0, n), 8 * n)
def valSize(e, vs, n) = ite(varVal(e), valBytes(e, vs, 0, n), 8 * n)

func (*col.Writer).encodeIDs (w, ids) (enc, bts, sz, err) mode w
  flags internal @enc
  props C01 C08 C09
  cases w.encodingType: 0..7
  name E = w.encodingType
  name I = ids
  requires w.encodingType <= 7 && len(ids) >= 1 && len(ids) <= 134217728
  fresh enc
  ensures err == nil
  ensures len(enc) == len(ids) && forall(k, 0, len(ids), enc[k] == encid(E, ids, k))
  ensures sz == idSize(E, ids, len(ids))
  ensures imp(varID(E), len(bts) == len(ids) && forall(k, 0, len(ids), len(bts[k]) == vl(encid(E, ids, k)) && vcode(elems(bts[k]), vl(encid(E, ids, k)), encid(E, ids, k)) == 1))
template [@enc] (i cnt, d []uint64) forall(k, 1, i, d[k] == encid(E, I, k))
template [@enc] (d []uint64) d[0] == I[0]
template [@enc] (i cnt, b [][]byte) forall(k, 0, i, len(b[k]) == vl(encid(E, I, k)) && vcode(elems(b[k]), vl(encid(E, I, k)), encid(E, I, k)) == 1)
template [@enc] (i cnt, s acc:uint32) s == idBytes(E, I, 0, i)

func (*col.Writer).encodeValues (w, values) (enc, bts, sz, err) mode w
  flags internal @encv
  props C01 C08 C09
  cases w.encodingType: 0..7
  name E = w.encodingType
  name V = values
  requires w.encodingType <= 7 && len(values) >= 1 && len(values) <= 134217728
  fresh enc
  ensures err == nil
  ensures len(enc) == len(values) && forall(k, 0, len(values), enc[k] == encval(E, values, k))
  ensures sz == valSize(E, values, len(values))
  ensures imp(varVal(E), len(bts) == len(values) && forall(k, 0, len(values), len(bts[k]) == sl(encval(E, values, k)) && scode(elems(bts[k]), sl(encval(E, values, k)), encval(E, values, k)) == 1))
template [@encv] (i cnt, d []int64) forall(k, 1, i, d[k] == encval(E, V, k))
template [@encv] (d []int64) d[0] == V[0]
template [@encv] (i cnt, b [][]byte) forall(k, 0, i, len(b[k]) == sl(encval(E, V, k)) && scode(elems(b[k]), sl(encval(E, V, k)), encval(E, V, k)) == 1)
template [@encv] (i cnt, s acc:uint32) s == valBytes(E, V, 0, i)


// a block at p holding n rows
def padded(p, sz) = sz + (4096 - (p + sz) % 4096) % 4096
def blockHead(c, p, e, n, l1, l2) = rd(c, p + 40, 4) == n && rd(c, p + 44, 4) == e && rd(c, p + 48, 4) == 0 && rd(c, p + 52, 4) == 0 && rd(c, p + 56, 4) == 0 && rd(c, p + 60, 4) == 0 && rd(c, p + 64, 4) == 0 && rd(c, p + 68, 4) == l1 && rd(c, p + 72, 4) == l1 && rd(c, p + 76, 4) == l2
def blockStat(c, p, ids, values) = rd(c, p, 8) == uMinU(ids, 0, len(ids)) && rd(c, p + 8, 8) == uMaxU(ids, 0, len(ids)) && rd(c, p + 16, 8) == i2u(sMin(values, 0, len(values))) && rd(c, p + 24, 8) == i2u(sMax(values, 0, len(values))) && rd(c, p + 32, 8) == i2u(wrap_i64(sSum(values, 0, len(values))))
def idB(c, p) = shift(c, p + 80)
func (*col.Writer).writeBlockInternal (w, ids, values) (err) mode w
  flags @wb
  props C01 C02 C08 C09
  cases [C01 C08 C09] w.encodingType: 0..7
  name E = w.encodingType
  name F = w.file
  name P = size(w.file)
  name I = ids
  name V = values
  name N = len(ids)
  name L1 = idSize(E, ids, N)
  name L2 = valSize(E, values, N)
  requires WI(w)
  requires len(ids) == len(values) && len(ids) >= 1 && len(ids) <= 134217728
  modifies *w; file(w.file); bitmap(w.globalIDs)
  ensures [C02] imp(err == nil, len(w.blockStats) == old(len(w.blockStats)) + 1 && exactStats(w.blockStats[old(len(w.blockStats))], ids, values))
  ensures [C02] imp(err != nil, len(w.blockStats) == old(len(w.blockStats)))
  ensures [C01 C08 C09] err == nil
  ensures [C01 C08 C09] size(F) == P + padded(P, 80 + L1 + L2) && pos(F) == size(F)
  ensures [C01 C08 C09] len(w.blockPositions) == old(len(w.blockPositions)) + 1 && w.blockPositions[old(len(w.blockPositions))] == P && w.blockSizes[old(len(w.blockSizes))] == size(F) - P
  ensures [C01 C08 C09] forall(k, 0, old(len(w.blockPositions)), w.blockPositions[k] == old(w.blockPositions[k]) && w.blockSizes[k] == old(w.blockSizes[k]))
  ensures [C01 C08 C09] WI(w) || w.blockCount == 2147483648
  ensures [C01 C08 C09] w.encodingType == E && w.file == F && w.blockSizeTarget == old(w.blockSizeTarget) && w.globalIDs == old(w.globalIDs) && w.blockCount == old(w.blockCount) + 1
  ensures [C09 C01] blockHead(content(F), P, E, N, L1, L2)
  ensures [C09] blockStat(content(F), P, ids, values)
  ensures [C09] forall(k, P + 80 + L1 + L2, size(F), rd(content(F), k, 1) == 0)
  ensures [C09 C01] forall(k, 0, P, rd(content(F), k, 1) == old(rd(content(F), k, 1)))
  // the block decodes to the rows
  show [C01] rd(content(F), P + 64, 4) == 0 && rd(content(F), P + 68, 4) == L1 && rd(content(F), P + 72, 4) == L1 && rd(content(F), P + 76, 4) == L2
  ensures [C01] N <= L1 && N <= L2
  scope [C01]
  show [C01] imp(varID(E), forall(k, 0, N, idBytes(E, I, 0, k) + vl(encid(E, I, k)) <= L1 && idBytes(E, I, 0, k + 1) == idBytes(E, I, 0, k) + vl(encid(E, I, k))))
  show [C01] imp(varID(E), forall(k, 0, N, vcode(idB(content(F), P + idBytes(E, I, 0, k)), vl(encid(E, I, k)), encid(E, I, k)) == 1))
  show [C01] imp(varID(E), forall(k, 0, N, uvlen(idB(content(F), P + idBytes(E, I, 0, k)), L1 - idBytes(E, I, 0, k)) == vl(encid(E, I, k)) && uvdec(idB(content(F), P + idBytes(E, I, 0, k)), L1 - idBytes(E, I, 0, k)) == encid(E, I, k))) from imp(varID(E), forall(k, 0, N, vcode(idB(content(F), P + idBytes(E, I, 0, k)), vl(encid(E, I, k)), encid(E, I, k)) == 1)); imp(varID(E), forall(k, 0, N, idBytes(E, I, 0, k) + vl(encid(E, I, k)) <= L1 && idBytes(E, I, 0, k + 1) == idBytes(E, I, 0, k) + vl(encid(E, I, k))))
  show [C01] induct(k, 0, N, varID(E), uvoff(idB(content(F), P), L1, k) == idBytes(E, I, 0, k)) from imp(varID(E), forall(k, 0, N, idBytes(E, I, 0, k) + vl(encid(E, I, k)) <= L1 && idBytes(E, I, 0, k + 1) == idBytes(E, I, 0, k) + vl(encid(E, I, k)))); imp(varID(E), forall(k, 0, N, uvlen(idB(content(F), P + idBytes(E, I, 0, k)), L1 - idBytes(E, I, 0, k)) == vl(encid(E, I, k)) && uvdec(idB(content(F), P + idBytes(E, I, 0, k)), L1 - idBytes(E, I, 0, k)) == encid(E, I, k)))
  show [C01] imp(varID(E), forall(k, 0, N, uvlenat(idB(content(F), P), L1, k) == vl(encid(E, I, k)) && uvat(idB(content(F), P), L1, k) == encid(E, I, k))) from imp(varID(E), forall(k, 0, N, uvlen(idB(content(F), P + idBytes(E, I, 0, k)), L1 - idBytes(E, I, 0, k)) == vl(encid(E, I, k)) && uvdec(idB(content(F), P + idBytes(E, I, 0, k)), L1 - idBytes(E, I, 0, k)) == encid(E, I, k))); imp(varID(E), forall(k, 0, N + 1, uvoff(idB(content(F), P), L1, k) == idBytes(E, I, 0, k)))
  show [C01] imp(!varID(E), forall(k, 0, N, rd(idB(content(F), P), 8 * k, 8) == encid(E, I, k)))
  show [C01] idsComplete(E, idB(content(F), P), L1, N) from imp(varID(E), forall(k, 0, N, uvlen(idB(content(F), P + idBytes(E, I, 0, k)), L1 - idBytes(E, I, 0, k)) == vl(encid(E, I, k)) && uvdec(idB(content(F), P + idBytes(E, I, 0, k)), L1 - idBytes(E, I, 0, k)) == encid(E, I, k))); imp(varID(E), forall(k, 0, N + 1, uvoff(idB(content(F), P), L1, k) == idBytes(E, I, 0, k))); imp(varID(E), forall(k, 0, N, uvlenat(idB(content(F), P), L1, k) == vl(encid(E, I, k)) && uvat(idB(content(F), P), L1, k) == encid(E, I, k))); L1 == idSize(E, I, N)
  show [C01] forall(k, 0, N, idraw(E, idB(content(F), P), L1, k) == encid(E, I, k)) from imp(varID(E), forall(k, 0, N, uvlenat(idB(content(F), P), L1, k) == vl(encid(E, I, k)) && uvat(idB(content(F), P), L1, k) == encid(E, I, k))); imp(!varID(E), forall(k, 0, N, rd(idB(content(F), P), 8 * k, 8) == encid(E, I, k)))
  show [C01] induct(k, 0, N - 1, true, idv(idB(content(F), P), L1, E, k) == I[k]) from forall(k, 0, N, idraw(E, idB(content(F), P), L1, k) == encid(E, I, k))
  show [C01] idsAre(E, ids, idB(content(F), P), L1, N) from forall(k, 0, N, idv(idB(content(F), P), L1, E, k) == I[k])
  ensures [C01] idsThere(E, content(F), P, N)
  ensures [C01] idsRead(E, ids, content(F), P, N)
  end [C01]
  scope [C01]
  show [C01] imp(varVal(E), forall(k, 0, N, valBytes(E, V, 0, k) + sl(encval(E, V, k)) <= L2 && valBytes(E, V, 0, k + 1) == valBytes(E, V, 0, k) + sl(encval(E, V, k))))
  show [C01] imp(varVal(E), forall(k, 0, N, scode(idB(content(F), P + L1 + valBytes(E, V, 0, k)), sl(encval(E, V, k)), encval(E, V, k)) == 1))
  show [C01] imp(varVal(E), forall(k, 0, N, svlen(idB(content(F), P + L1 + valBytes(E, V, 0, k)), L2 - valBytes(E, V, 0, k)) == sl(encval(E, V, k)) && svdec(idB(content(F), P + L1 + valBytes(E, V, 0, k)), L2 - valBytes(E, V, 0, k)) == encval(E, V, k) && rd(idB(content(F), P + L1), valBytes(E, V, 0, k) + sl(encval(E, V, k)) - 1, 1) < 128)) from imp(varVal(E), forall(k, 0, N, scode(idB(content(F), P + L1 + valBytes(E, V, 0, k)), sl(encval(E, V, k)), encval(E, V, k)) == 1)); imp(varVal(E), forall(k, 0, N, valBytes(E, V, 0, k) + sl(encval(E, V, k)) <= L2 && valBytes(E, V, 0, k + 1) == valBytes(E, V, 0, k) + sl(encval(E, V, k))))
  show [C01] induct(k, 0, N, varVal(E), svoff(idB(content(F), P + L1), L2, k) == valBytes(E, V, 0, k)) from imp(varVal(E), forall(k, 0, N, valBytes(E, V, 0, k) + sl(encval(E, V, k)) <= L2 && valBytes(E, V, 0, k + 1) == valBytes(E, V, 0, k) + sl(encval(E, V, k)))); imp(varVal(E), forall(k, 0, N, svlen(idB(content(F), P + L1 + valBytes(E, V, 0, k)), L2 - valBytes(E, V, 0, k)) == sl(encval(E, V, k)) && svdec(idB(content(F), P + L1 + valBytes(E, V, 0, k)), L2 - valBytes(E, V, 0, k)) == encval(E, V, k) && rd(idB(content(F), P + L1), valBytes(E, V, 0, k) + sl(encval(E, V, k)) - 1, 1) < 128))
  show [C01] imp(varVal(E), forall(k, 0, N, svlenat(idB(content(F), P + L1), L2, k) == sl(encval(E, V, k)) && svat(idB(content(F), P + L1), L2, k) == encval(E, V, k))) from imp(varVal(E), forall(k, 0, N, svlen(idB(content(F), P + L1 + valBytes(E, V, 0, k)), L2 - valBytes(E, V, 0, k)) == sl(encval(E, V, k)) && svdec(idB(content(F), P + L1 + valBytes(E, V, 0, k)), L2 - valBytes(E, V, 0, k)) == encval(E, V, k) && rd(idB(content(F), P + L1), valBytes(E, V, 0, k) + sl(encval(E, V, k)) - 1, 1) < 128)); imp(varVal(E), forall(k, 0, N + 1, svoff(idB(content(F), P + L1), L2, k) == valBytes(E, V, 0, k)))
  show [C01] imp(!varVal(E), forall(k, 0, N, wrap_i64(rd(idB(content(F), P + L1), 8 * k, 8)) == encval(E, V, k)))
  show [C01] imp(varVal(E), forall(k, 0, N, rd(idB(content(F), P + L1), valBytes(E, V, 0, k) + sl(encval(E, V, k)) - 1, 1) < 128)) from imp(varVal(E), forall(k, 0, N, svlen(idB(content(F), P + L1 + valBytes(E, V, 0, k)), L2 - valBytes(E, V, 0, k)) == sl(encval(E, V, k)) && svdec(idB(content(F), P + L1 + valBytes(E, V, 0, k)), L2 - valBytes(E, V, 0, k)) == encval(E, V, k) && rd(idB(content(F), P + L1), valBytes(E, V, 0, k) + sl(encval(E, V, k)) - 1, 1) < 128))
  show [C01] imp(varVal(E), forall(k, 0, N, svoff(idB(content(F), P + L1), L2, k) + svlenat(idB(content(F), P + L1), L2, k) == valBytes(E, V, 0, k) + sl(encval(E, V, k)))) from imp(varVal(E), forall(k, 0, N + 1, svoff(idB(content(F), P + L1), L2, k) == valBytes(E, V, 0, k))); imp(varVal(E), forall(k, 0, N, svlenat(idB(content(F), P + L1), L2, k) == sl(encval(E, V, k)) && svat(idB(content(F), P + L1), L2, k) == encval(E, V, k))); L2 == valSize(E, V, N)
  show [C01] imp(varVal(E), forall(k, 0, N, rd(idB(content(F), P + L1), svoff(idB(content(F), P + L1), L2, k) + svlenat(idB(content(F), P + L1), L2, k) - 1, 1) < 128)) from imp(varVal(E), forall(k, 0, N, rd(idB(content(F), P + L1), valBytes(E, V, 0, k) + sl(encval(E, V, k)) - 1, 1) < 128)); imp(varVal(E), forall(k, 0, N, svoff(idB(content(F), P + L1), L2, k) + svlenat(idB(content(F), P + L1), L2, k) == valBytes(E, V, 0, k) + sl(encval(E, V, k))))
  show [C01] valsComplete(E, idB(content(F), P + L1), L2, N) from L2 == valSize(E, V, N); imp(varVal(E), forall(k, 0, N, svlenat(idB(content(F), P + L1), L2, k) == sl(encval(E, V, k)))); imp(varVal(E), forall(k, 0, N, rd(idB(content(F), P + L1), svoff(idB(content(F), P + L1), L2, k) + svlenat(idB(content(F), P + L1), L2, k) - 1, 1) < 128))
  show [C01] forall(k, 0, N, valraw(E, idB(content(F), P + L1), L2, k) == encval(E, V, k)) from imp(varVal(E), forall(k, 0, N, svlenat(idB(content(F), P + L1), L2, k) == sl(encval(E, V, k)) && svat(idB(content(F), P + L1), L2, k) == encval(E, V, k))); imp(!varVal(E), forall(k, 0, N, wrap_i64(rd(idB(content(F), P + L1), 8 * k, 8)) == encval(E, V, k)))
  show [C01] induct(k, 0, N - 1, true, valv(idB(content(F), P + L1), L2, E, k) == V[k]) from forall(k, 0, N, valraw(E, idB(content(F), P + L1), L2, k) == encval(E, V, k))
  show [C01] valsAre(E, values, idB(content(F), P + L1), L2, N) from forall(k, 0, N, valv(idB(content(F), P + L1), L2, E, k) == V[k])
  ensures [C01] valsThere(E, content(F), P, N)
  ensures [C01] valsRead(E, values, content(F), P, N)
  end [C01]
template [@wb C01] (i cnt) imp(varID(E), forall(j, 0, i, vcode(idB(content(F), P + idBytes(E, I, 0, j)), vl(encid(E, I, j)), encid(E, I, j)) == 1))
template [@wb C01] (i cnt) imp(!varID(E), forall(j, 0, i, rd(content(F), P + 80 + 8 * j, 8) == encid(E, I, j)))
template [@wb C01] (i cnt) imp(varVal(E), forall(j, 0, i, scode(idB(content(F), P + L1 + valBytes(E, V, 0, j)), sl(encval(E, V, j)), encval(E, V, j)) == 1))
template [@wb C01] (i cnt) imp(!varVal(E), forall(j, 0, i, wrap_i64(rd(content(F), P + 80 + L1 + 8 * j, 8)) == encval(E, V, j)))
template [@wb C01 C08 C09] (i cnt, t acc:int64) t == idSize(E, I, i) && pos(F) == P + 80 + t && size(F) == pos(F)
template [@wb C01 C08 C09] (i cnt, t acc:int64) t == valSize(E, V, i) && pos(F) == P + 80 + L1 + t && size(F) == pos(F)

func (*col.Writer).EstimateBlockSize (w, ids, values) (sz, err) mode w
  props C08
  name F = w.file
  name E = w.encodingType
  requires WI(w)
  requires len(ids) <= 134217728
  modifies seek(w.file)
  ensures imp(len(ids) == len(values) && len(ids) >= 1, err == nil && sz == padded(size(F), 80 + idSize(E, ids, len(ids)) + valSize(E, values, len(ids))))
  ensures imp(len(ids) != len(values) || len(ids) == 0, err != nil)

// size of a block of the first n rows
def est(p, e, ids, vs, n) = padded(p, 80 + idSize(e, ids, n) + valSize(e, vs, n))
def full(err) = istype(err, "*col.BlockFullError")

func (*col.Writer).WriteBlock (w, ids, values) (err) mode w
  props C08
  flags @wblk
  cases w.encodingType: 0..7
  name F = w.file
  name E = w.encodingType
  name P = size(w.file)
  name I = ids
  name V = values
  name N = len(ids)
  name T = w.blockSizeTarget
  requires WI(w)
  requires len(ids) <= 134217728
  modifies *w; file(w.file); bitmap(w.globalIDs)
  ensures imp(err == nil, len(ids) == len(values) && N >= 1 && size(F) == P + est(P, E, ids, values, N) && w.blockCount == old(w.blockCount) + 1)
  ensures imp(err == nil && N > 1, est(P, E, ids, values, N) <= T)
  ensures imp(full(err), 1 <= payload(err, "*col.BlockFullError").ItemsWritten && payload(err, "*col.BlockFullError").ItemsWritten < N)
  ensures imp(full(err), size(F) == P + est(P, E, ids, values, payload(err, "*col.BlockFullError").ItemsWritten) && w.blockCount == old(w.blockCount) + 1)
  ensures imp(full(err), payload(err, "*col.BlockFullError").ItemsWritten == 1 || est(P, E, ids, values, payload(err, "*col.BlockFullError").ItemsWritten) <= T)
  ensures imp(full(err), forall(m, payload(err, "*col.BlockFullError").ItemsWritten + 1, N + 1, est(P, E, ids, values, m) > T))
  ensures imp(len(ids) == len(values) && N >= 1, err == nil || full(err))
  ensures imp(err != nil && !full(err), size(F) == P && w.blockCount == old(w.blockCount))
template [@wblk] (i int, o acc:int) o == max(1, i - 1) && imp(i > 1, est(P, E, I, V, o) <= T)
