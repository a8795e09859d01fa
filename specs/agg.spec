// ---- Aggregation over finalized files: C02 C03 C04 C05.  Mode "wf": the file is well formed and reads of existing bytes succeed.

// the rows a file holds: R the reader, k the block, i the row
fn BN(ref, int) u32
fn BI(ref, int, int) u64
fn BV(ref, int, int) i64
// the id range its index stores for a block
fn BLo(ref, int) u64
fn BHi(ref, int) u64

// aggregates of the rows of one block, and of blocks
fold sum uSum(R ref, k int; i) = BV(R, k, i)
fold min uMin(R ref, k int; i) = BV(R, k, i)
fold max uMax(R ref, k int; i) = BV(R, k, i)
fold sum TCnt(R ref; k) = BN(R, k)
fold sum TSum(R ref; k) = uSum(R, k, 0, BN(R, k))
fold min TMin(R ref; k) = uMin(R, k, 0, BN(R, k))
fold max TMax(R ref; k) = uMax(R, k, 0, BN(R, k))
// the same for the rows selected by an allow set a (when ha) and a deny set d (when hd)
def rowSel(R, k, i, a, ha, d, hd) = imp(ha, in(BI(R, k, i), a)) && imp(hd, !in(BI(R, k, i), d))
fold sum fCnt(R ref, k int, a set, ha bool, d set, hd bool; i) = ite(rowSel(R, k, i, a, ha, d, hd), 1, 0)
fold sum fSum(R ref, k int, a set, ha bool, d set, hd bool; i) = ite(rowSel(R, k, i, a, ha, d, hd), BV(R, k, i), 0)
fold min fMin(R ref, k int, a set, ha bool, d set, hd bool; i) = ite(rowSel(R, k, i, a, ha, d, hd), BV(R, k, i), 9223372036854775807)
fold max fMax(R ref, k int, a set, ha bool, d set, hd bool; i) = ite(rowSel(R, k, i, a, ha, d, hd), BV(R, k, i), -9223372036854775808)
fold sum TFCnt(R ref, a set, ha bool, d set, hd bool; k) = fCnt(R, k, a, ha, d, hd, 0, BN(R, k))
fold sum TFSum(R ref, a set, ha bool, d set, hd bool; k) = fSum(R, k, a, ha, d, hd, 0, BN(R, k))
fold min TFMin(R ref, a set, ha bool, d set, hd bool; k) = fMin(R, k, a, ha, d, hd, 0, BN(R, k))
fold max TFMax(R ref, a set, ha bool, d set, hd bool; k) = fMax(R, k, a, ha, d, hd, 0, BN(R, k))
// blocks whose id range meets [lo, hi]
fold sum MBlk(R ref, lo u64, hi u64; k) = ite(BHi(R, k) < lo || BLo(R, k) > hi, 0, 1)
// values of a slice
fold sum sSum(s []i64; i) = s[i]
fold min sMin(s []i64; i) = s[i]
fold max sMax(s []i64; i) = s[i]

// a well-formed file: every block complete and inside the file, holding the rows BI/BV
def blockWF(r, k, m) = blockInside(r, k) && sectionsInside(m, bOff(r, k), r.blockIndex[k].BlockSize) && r.blockIndex[k].Count <= idSecLen(m, bOff(r, k)) && r.blockIndex[k].Count <= valSecLen(m, bOff(r, k)) && idsThere(r.header.EncodingType, m, bOff(r, k), r.blockIndex[k].Count) && valsThere(r.header.EncodingType, m, bOff(r, k), r.blockIndex[k].Count)
def rowsWF(r, k, m) = forall(i, 0, BN(refof(r), k), BI(refof(r), k, i) == idv(shift(m, idSecAt(m, bOff(r, k))), idSecLen(m, bOff(r, k)), r.header.EncodingType, i) && BV(refof(r), k, i) == valv(shift(m, valSecAt(m, bOff(r, k))), valSecLen(m, bOff(r, k)), r.header.EncodingType, i))
def RWF(r) = RI(r) && isopen(r.file) && r.header.EncodingType <= 7 && len(r.blockIndex) < 2147483648 && forall(k, 0, len(r.blockIndex), r.blockIndex[k].Count == BN(refof(r), k) && BN(refof(r), k) >= 1 && blockWF(r, k, content(r.file)) && rowsWF(r, k, content(r.file)))
// its index entries hold the exact statistics of the rows
def statWF(r, k) = u2i(r.blockIndex[k].MinValue) == uMin(refof(r), k, 0, BN(refof(r), k)) && u2i(r.blockIndex[k].MaxValue) == uMax(refof(r), k, 0, BN(refof(r), k)) && u2i(r.blockIndex[k].Sum) == wrap_i64(uSum(refof(r), k, 0, BN(refof(r), k)))
def rangeWF(r, k) = r.blockIndex[k].MinID == BLo(refof(r), k) && r.blockIndex[k].MaxID == BHi(refof(r), k) && forall(i, 0, BN(refof(r), k), r.blockIndex[k].MinID <= BI(refof(r), k, i) && BI(refof(r), k, i) <= r.blockIndex[k].MaxID)
def SWF(r) = forall(k, 0, len(r.blockIndex), statWF(r, k)) && forall(k, 0, len(r.blockIndex), rangeWF(r, k))

func col.uint64ToInt64 (u) (v)
  props C02 C03 C04 C05
  ensures v == u2i(u)

func col.decodeBlockData (idBytes, valueBytes, count, encodingType) (ids, values, err) mode wf
  flags internal @dec
  props C02 C03 C04
  requires count >= 0 && encodingType <= 7
  requires count <= len(idBytes) && count <= len(valueBytes)
  requires idsComplete(encodingType, elems(idBytes), len(idBytes), count) && valsComplete(encodingType, elems(valueBytes), len(valueBytes), count)
  cases encodingType: 0..7
  fresh ids values
  ensures err == nil
  ensures idsAre(encodingType, ids, elems(idBytes), len(idBytes), count)
  ensures valsAre(encodingType, values, elems(valueBytes), len(valueBytes), count)

func (*col.Reader).readBlock (r, blockIndex) (ids, values, err) mode wf
  flags internal @dec
  props C02 C03 C04
  name R = refof(r)
  cases r.header.EncodingType: 0..7
  requires RWF(r)
  requires 0 <= blockIndex && blockIndex < len(r.blockIndex)
  fresh ids values
  ensures err == nil
  ensures len(ids) == BN(R, blockIndex) && len(values) == BN(R, blockIndex)
  ensures forall(i, 0, BN(R, blockIndex), ids[i] == BI(R, blockIndex, i))
  ensures forall(i, 0, BN(R, blockIndex), values[i] == BV(R, blockIndex, i))
  ensures sSum(values, 0, len(values)) == uSum(R, blockIndex, 0, BN(R, blockIndex))
  ensures sMin(values, 0, len(values)) == uMin(R, blockIndex, 0, BN(R, blockIndex))
  ensures sMax(values, 0, len(values)) == uMax(R, blockIndex, 0, BN(R, blockIndex))

func (*col.Reader).readBlockFiltered (r, blockIndex, filter, denyFilter) (ids, values, err) mode wf
  flags internal @rbf
  props C03 C04
  name R = refof(r)
  name K = blockIndex
  name A = setof(filter)
  name D = setof(denyFilter)
  name HA = filter != nil
  name HD = denyFilter != nil
  cases filter != nil: 0..1
  cases denyFilter != nil: 0..1
  requires RWF(r)
  requires 0 <= blockIndex && blockIndex < len(r.blockIndex)
  fresh ids values
  ensures err == nil
  ensures len(ids) == len(values)
  ensures imp(HA || HD, len(values) == fCnt(R, K, A, HA, D, HD, 0, BN(R, K)))
  ensures imp(HA || HD, sSum(values, 0, len(values)) == fSum(R, K, A, HA, D, HD, 0, BN(R, K)))
  ensures imp(HA || HD, sMin(values, 0, len(values)) == fMin(R, K, A, HA, D, HD, 0, BN(R, K)))
  ensures imp(HA || HD, sMax(values, 0, len(values)) == fMax(R, K, A, HA, D, HD, 0, BN(R, K)))
  ensures imp(!HA && !HD, len(values) == BN(R, K) && sSum(values, 0, len(values)) == uSum(R, K, 0, BN(R, K)) && sMin(values, 0, len(values)) == uMin(R, K, 0, BN(R, K)) && sMax(values, 0, len(values)) == uMax(R, K, 0, BN(R, K)) && forall(i, 0, BN(R, K), values[i] == BV(R, K, i)))
template [@rbf] (i cnt, s []int64) len(s) == fCnt(R, K, A, HA, D, HD, 0, i)
template [@rbf] (i cnt, s []int64) sSum(s, 0, len(s)) == fSum(R, K, A, HA, D, HD, 0, i)
template [@rbf] (i cnt, s []int64) sMin(s, 0, len(s)) == fMin(R, K, A, HA, D, HD, 0, i)
template [@rbf] (i cnt, s []int64) sMax(s, 0, len(s)) == fMax(R, K, A, HA, D, HD, 0, i)

// aggregates over a list of blocks
fold sum LCnt(R ref, l []u64; j) = BN(R, l[j])
fold sum LSum(R ref, l []u64; j) = uSum(R, l[j], 0, BN(R, l[j]))
fold min LMin(R ref, l []u64; j) = uMin(R, l[j], 0, BN(R, l[j]))
fold max LMax(R ref, l []u64; j) = uMax(R, l[j], 0, BN(R, l[j]))
fold sum LFCnt(R ref, l []u64, a set, ha bool, d set, hd bool; j) = fCnt(R, l[j], a, ha, d, hd, 0, BN(R, l[j]))
fold sum LFSum(R ref, l []u64, a set, ha bool, d set, hd bool; j) = fSum(R, l[j], a, ha, d, hd, 0, BN(R, l[j]))
fold min LFMin(R ref, l []u64, a set, ha bool, d set, hd bool; j) = fMin(R, l[j], a, ha, d, hd, 0, BN(R, l[j]))
fold max LFMax(R ref, l []u64, a set, ha bool, d set, hd bool; j) = fMax(R, l[j], a, ha, d, hd, 0, BN(R, l[j]))

func (*col.Reader).FilteredBlockIterator (r, filter, denyFilter) (l) mode wf
  flags @fbi
  props C03 C04
  name R = refof(r)
  name A = setof(filter)
  name D = setof(denyFilter)
  name HA = filter != nil
  name HD = denyFilter != nil
  name N = len(r.blockIndex)
  cases filter != nil: 0..1
  cases denyFilter != nil: 0..1
  requires RWF(r) && SWF(r)
  ensures len(l) <= N && forall(j, 0, len(l), l[j] < N)
  ensures imp(!HA, len(l) == N && forall(j, 0, len(l), l[j] == j))
  ensures [C04] imp(HA, len(l) == MBlk(R, setmin(A), setmax(A), 0, N))
  ensures LFCnt(R, l, A, HA, D, HD, 0, len(l)) == TFCnt(R, A, HA, D, HD, 0, N)
  ensures LFSum(R, l, A, HA, D, HD, 0, len(l)) == TFSum(R, A, HA, D, HD, 0, N)
  ensures LFMin(R, l, A, HA, D, HD, 0, len(l)) == TFMin(R, A, HA, D, HD, 0, N)
  ensures LFMax(R, l, A, HA, D, HD, 0, len(l)) == TFMax(R, A, HA, D, HD, 0, N)
template [@fbi] (i cnt, l []uint64) forall(j, 0, len(l), l[j] < i)
template [@fbi] (i cnt, l []uint64) forall(j, 0, i, l[j] == j)
template [@fbi] (i cnt, l []uint64) len(l) == MBlk(R, setmin(A), setmax(A), 0, i)
template [@fbi] (i cnt, l []uint64) LFCnt(R, l, A, HA, D, HD, 0, len(l)) == TFCnt(R, A, HA, D, HD, 0, i)
template [@fbi] (i cnt, l []uint64) LFSum(R, l, A, HA, D, HD, 0, len(l)) == TFSum(R, A, HA, D, HD, 0, i)
template [@fbi] (i cnt, l []uint64) LFMin(R, l, A, HA, D, HD, 0, len(l)) == TFMin(R, A, HA, D, HD, 0, i)
template [@fbi] (i cnt, l []uint64) LFMax(R, l, A, HA, D, HD, 0, len(l)) == TFMax(R, A, HA, D, HD, 0, i)

func (*col.Reader).GetPairs (r, blockIdx) (ids, values, err) mode wf
  flags internal @dec
  props C02 C03 C04
  name R = refof(r)
  requires RWF(r)
  requires blockIdx < len(r.blockIndex)
  fresh ids values
  ensures err == nil
  ensures len(ids) == BN(R, blockIdx) && len(values) == BN(R, blockIdx)
  ensures forall(i, 0, BN(R, blockIdx), ids[i] == BI(R, blockIdx, i))
  ensures forall(i, 0, BN(R, blockIdx), values[i] == BV(R, blockIdx, i))
  ensures sSum(values, 0, len(values)) == uSum(R, blockIdx, 0, BN(R, blockIdx))
  ensures sMin(values, 0, len(values)) == uMin(R, blockIdx, 0, BN(R, blockIdx))
  ensures sMax(values, 0, len(values)) == uMax(R, blockIdx, 0, BN(R, blockIdx))

// no block can hold a row of the allow set
def none(R, A, HA, N) = ite(HA, MBlk(R, setmin(A), setmax(A), 0, N) == 0, N == 0)
def avgOf(a) = a.Avg == ite(a.Count > 0, fdiv(i2f(a.Sum), i2f(a.Count)), fzero())

func (*col.Reader).aggregateWithFilter (r, opts) (a) mode wf
  flags internal @aggf
  props C03 C04
  name R = refof(r)
  name A = setof(opts.Filter)
  name D = setof(opts.DenyFilter)
  name HA = opts.Filter != nil
  name HD = opts.DenyFilter != nil
  name N = len(r.blockIndex)
  cases opts.Filter != nil: 0..1
  cases opts.DenyFilter != nil: 0..1
  requires RWF(r) && SWF(r)
  requires HA || HD
  ensures a.Count == TFCnt(R, A, HA, D, HD, 0, N)
  ensures a.Sum == wrap_i64(TFSum(R, A, HA, D, HD, 0, N))
  ensures [C03] imp(a.Count > 0, a.Min == TFMin(R, A, HA, D, HD, 0, N) && a.Max == TFMax(R, A, HA, D, HD, 0, N))
  ensures [C04] a.Min == ite(none(R, A, HA, N), 0, TFMin(R, A, HA, D, HD, 0, N)) && a.Max == ite(none(R, A, HA, N), 0, TFMax(R, A, HA, D, HD, 0, N))
  ensures avgOf(a)
template [@aggf] (acc acc:int, j cnt, l []uint64) acc == LFCnt(R, l, A, HA, D, HD, 0, j)
template [@aggf] (acc acc:int64, j cnt, l []uint64) acc == wrap_i64(LFSum(R, l, A, HA, D, HD, 0, j))
template [@aggf] (acc acc:int64, j cnt, l []uint64) acc == LFMin(R, l, A, HA, D, HD, 0, j)
template [@aggf] (acc acc:int64, j cnt, l []uint64) acc == LFMax(R, l, A, HA, D, HD, 0, j)
template [@aggf @agg] (acc acc:int64, i cnt, s []int64) acc == wrap_i64(acc0 + sSum(s, 0, i))
template [@aggf @agg] (acc acc:int64, i cnt, s []int64) acc == min(acc0, sMin(s, 0, i))
template [@aggf @agg] (acc acc:int64, i cnt, s []int64) acc == max(acc0, sMax(s, 0, i))

func (*col.Reader).AggregateWithOptions (r, opts) (a) mode wf
  flags @agg
  props C02 C03 C04
  name R = refof(r)
  name A = setof(opts.Filter)
  name D = setof(opts.DenyFilter)
  name HA = opts.Filter != nil
  name HD = opts.DenyFilter != nil
  name N = len(r.blockIndex)
  cases opts.Filter != nil: 0..1
  cases opts.DenyFilter != nil: 0..1
  requires RWF(r) && SWF(r)
  requires [C02 C03] opts.Parallel == 0
  requires [C02] opts.Filter == nil && opts.DenyFilter == nil
  decreases ite(opts.Parallel == 0, 0, 1)
  ensures imp(!HA && !HD, a.Count == TCnt(R, 0, N))
  ensures imp(!HA && !HD, a.Sum == wrap_i64(TSum(R, 0, N)))
  ensures imp(!HA && !HD, a.Min == TMin(R, 0, N) && a.Max == TMax(R, 0, N))
  ensures [C03 C04] imp(HA || HD, a.Count == TFCnt(R, A, HA, D, HD, 0, N))
  ensures [C03 C04] imp(HA || HD, a.Sum == wrap_i64(TFSum(R, A, HA, D, HD, 0, N)))
  ensures [C03] imp((HA || HD) && a.Count > 0, a.Min == TFMin(R, A, HA, D, HD, 0, N) && a.Max == TFMax(R, A, HA, D, HD, 0, N))
  ensures [C04] imp(HA || HD, a.Min == ite(none(R, A, HA, N), 0, TFMin(R, A, HA, D, HD, 0, N)) && a.Max == ite(none(R, A, HA, N), 0, TFMax(R, A, HA, D, HD, 0, N)))
  ensures avgOf(a)
template [@agg] (acc acc:int, j cnt) acc == TCnt(R, 0, j)
template [@agg] (acc acc:int64, j cnt) acc == wrap_i64(TSum(R, 0, j))
template [@agg] (acc acc:int64, j cnt) acc == TMin(R, 0, j)
template [@agg] (acc acc:int64, j cnt) acc == TMax(R, 0, j)

// ---- parallel aggregation: C04
chaninv col.AggregateResult [C04] v.Count >= 0 && imp(v.Count == 0, v.Min == 9223372036854775807 && v.Max == -9223372036854775808)

func (*col.Reader).aggregateParallelWithFooter (r, blockIndices, numWorkers) (a) mode wf
  flags internal @par @parf
  props C04
  name R = refof(r)
  name L = blockIndices
  requires RWF(r) && SWF(r)
  requires 1 < numWorkers && numWorkers <= len(r.blockIndex) && len(blockIndices) <= len(r.blockIndex) && len(blockIndices) >= 1
  requires forall(k, 0, len(blockIndices), blockIndices[k] < len(r.blockIndex))
  ensures a.Count == LCnt(R, L, 0, len(L))
  ensures a.Sum == wrap_i64(LSum(R, L, 0, len(L)))
  ensures a.Min == LMin(R, L, 0, len(L)) && a.Max == LMax(R, L, 0, len(L))
  ensures avgOf(a)
// one worker
template [@parf] (acc acc:int, j ctr) acc == LCnt(R, L, j0, j)
template [@parf] (acc acc:int64, j ctr) acc == wrap_i64(LSum(R, L, j0, j))
template [@parf] (acc acc:int64, j ctr) acc == LMin(R, L, j0, j)
template [@parf] (acc acc:int64, j ctr) acc == LMax(R, L, j0, j)
template [@parf] (acc acc:int, j ctr) acc >= j - j0
template [@par] (c acc:int, m acc:int64) imp(c == 0, m == 9223372036854775807)
template [@par] (c acc:int, m acc:int64) imp(c == 0, m == -9223372036854775808)
// the loop that starts the workers; s rows each
template [@parf] (w ctr, s chunk, ch chan col.AggregateResult) chansum(ch, "Count") == LCnt(R, L, 0, min(w * s, len(L)))
template [@parf] (w ctr, s chunk, ch chan col.AggregateResult) wrap_i64(chansum(ch, "Sum")) == wrap_i64(LSum(R, L, 0, min(w * s, len(L))))
template [@parf] (w ctr, s chunk, ch chan col.AggregateResult) chanmin(ch, "Min") == LMin(R, L, 0, min(w * s, len(L)))
template [@parf] (w ctr, s chunk, ch chan col.AggregateResult) chanmax(ch, "Max") == LMax(R, L, 0, min(w * s, len(L)))
template [@par] (w ctr, ch chan col.AggregateResult) imp(w > 0, chanlen(ch) >= 1)
template [@par] (ch chan col.AggregateResult) chanmin(ch, "Count") >= 0
// the loop that merges the results
template [@par] (acc acc:int, ch chan col.AggregateResult) acc + chansum(ch, "Count") == pre(chansum(ch, "Count"))
template [@par] (f col.AggregateResult, ch chan col.AggregateResult) f.Count + chansum(ch, "Count") == pre(chansum(ch, "Count"))
template [@par] (f col.AggregateResult, ch chan col.AggregateResult) f.Count >= 0
template [@par] (acc acc:int64, ch chan col.AggregateResult) wrap_i64(acc + chansum(ch, "Sum")) == wrap_i64(pre(chansum(ch, "Sum")))
template [@par] (f col.AggregateResult, ch chan col.AggregateResult) ite(f.Count == 0, chanmin(ch, "Min"), min(f.Min, chanmin(ch, "Min"))) == pre(chanmin(ch, "Min"))
template [@par] (f col.AggregateResult, ch chan col.AggregateResult) ite(f.Count == 0, chanmax(ch, "Max"), max(f.Max, chanmax(ch, "Max"))) == pre(chanmax(ch, "Max"))
template [@par] (f col.AggregateResult, ch chan col.AggregateResult) imp(f.Count == 0, f.Min == 9223372036854775807 && f.Max == -9223372036854775808 || chanlen(ch) == pre(chanlen(ch)))
