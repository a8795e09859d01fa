// ---- Decoding of blocks.

// values and lengths of varints at the start of a byte window
fn uvdec(bytes, int) u64 window
fn uvlen(bytes, int) i64 window
fn svdec(bytes, int) i64 window
fn svlen(bytes, int) i64 window
// start of the k-th varint of a section of L bytes
fn uvoff(bytes, int, int) len window
fn svoff(bytes, int, int) len window
// bounds of a decoded length: first postcondition of decodeSignedVarInt
axiom svlen_range(b, n) {svlen(b, n)} imp(0 <= n, 0 <= svlen(b, n) && svlen(b, n) <= n)
axiom uvoff_range(b, L, k) {uvoff(b, L, k)} imp(0 <= L, uvoff(b, L, k) <= L) && imp(k <= 0, uvoff(b, L, k) == 0)
axiom svoff_range(b, L, k) {svoff(b, L, k)} imp(0 <= L, svoff(b, L, k) <= L) && imp(k <= 0, svoff(b, L, k) == 0)
axiom [@once] uvoff_def(b, L, k) {uvoff(b, L, k)} imp(k > 0, uvoff(b, L, k) == uvoff(b, L, k-1) + max(0, uvlen(shift(b, uvoff(b, L, k-1)), L - uvoff(b, L, k-1))))
axiom [@once] svoff_def(b, L, k) {svoff(b, L, k)} imp(k > 0, svoff(b, L, k) == svoff(b, L, k-1) + max(0, svlen(shift(b, svoff(b, L, k-1)), L - svoff(b, L, k-1))))

func col.decodeSignedVarInt (data) (v, n)
  props C11 C12 C01 C02 C03 C04
  ensures 0 <= n && n <= len(data)
  ensures imp(len(data) > 0, n >= 1)
  defines v == svdec(data, len(data)) && n == svlen(data, len(data))

def deltaID(e) = e == 1 || e == 3 || e == 5 || e == 7
def deltaVal(e) = e == 2 || e == 3 || e == 6 || e == 7
def varID(e) = e == 4 || e == 5 || e == 7
def varVal(e) = e == 4 || e == 6 || e == 7

// the k-th stored number of a section
def uvat(b, L, k) = uvdec(shift(b, uvoff(b, L, k)), L - uvoff(b, L, k))
def uvlenat(b, L, k) = uvlen(shift(b, uvoff(b, L, k)), L - uvoff(b, L, k))
def svat(b, L, k) = svdec(shift(b, svoff(b, L, k)), L - svoff(b, L, k))
def svlenat(b, L, k) = svlen(shift(b, svoff(b, L, k)), L - svoff(b, L, k))
def idraw(e, b, L, k) = ite(varID(e), uvat(b, L, k), rd(b, 8*k, 8))
def valraw(e, b, L, k) = ite(varVal(e), svat(b, L, k), wrap_i64(rd(b, 8*k, 8)))
// n complete numbers lie in a section of L bytes
def idsComplete(e, b, L, n) = ite(varID(e), forall(k, 0, n, uvlenat(b, L, k) > 0), 8*n <= L)
def valsComplete(e, b, L, n) = ite(varVal(e), forall(k, 0, n, svlenat(b, L, k) > 0 && rd(b, svoff(b, L, k) + svlenat(b, L, k) - 1, 1) < 128), 8*n <= L)
// the k-th decoded id and value
fn idv(bytes, int, int, int) u64 window
fn valv(bytes, int, int, int) i64 window
axiom [@once] idv_def(b, L, e, k) {idv(b, L, e, k)} idv(b, L, e, k) == ite(deltaID(e) && k > 0, wrap_u64(idv(b, L, e, k-1) + idraw(e, b, L, k)), idraw(e, b, L, k))
axiom [@once] valv_def(b, L, e, k) {valv(b, L, e, k)} valv(b, L, e, k) == ite(deltaVal(e) && k > 0, wrap_i64(valv(b, L, e, k-1) + valraw(e, b, L, k)), valraw(e, b, L, k))
def idsAre(e, ids, b, L, n) = len(ids) == n && forall(k, 0, n, ids[k] == idv(b, L, e, k))
def valsAre(e, vs, b, L, n) = len(vs) == n && forall(k, 0, n, vs[k] == valv(b, L, e, k))

func col.decodeBlockData (idBytes, valueBytes, count, encodingType) (ids, values, err) mode hostile
  flags internal @dec
  props C12 C11
  requires count >= 0
  requires [C11] len(idBytes) <= alloclim && len(valueBytes) <= alloclim
  cases encodingType: 0..7 *
  fresh ids values
  ensures imp(err == nil, len(ids) == count && len(values) == count)
  ensures [C12] imp(err == nil, idsComplete(encodingType, elems(idBytes), len(idBytes), count))
  ensures [C12] imp(err == nil, valsComplete(encodingType, elems(valueBytes), len(valueBytes), count))
  ensures [C12] imp(err == nil, idsAre(encodingType, ids, elems(idBytes), len(idBytes), count))
  ensures [C12] imp(err == nil, valsAre(encodingType, values, elems(valueBytes), len(valueBytes), count))

// varint sections: position and values so far
template [@dec @calls:Uvarint] (o idx, i idx, b []byte) o == uvoff(elems(b), len(b), i)
template [@dec @calls:decodeSignedVarInt] (o idx, i idx, b []byte) o == svoff(elems(b), len(b), i)
template [C12 @dec @calls:Uvarint] (i idx, b []byte) forall(k, 0, i, uvlenat(elems(b), len(b), k) > 0)
template [C12 @dec @calls:decodeSignedVarInt] (i idx, b []byte) forall(k, 0, i, svlenat(elems(b), len(b), k) > 0 && rd(elems(b), svoff(elems(b), len(b), k) + svlenat(elems(b), len(b), k) - 1, 1) < 128)
template [@dec @calls:Uvarint] (i idx, a []uint64, b []byte) forall(k, 0, i, a[k] == uvat(elems(b), len(b), k))
template [@dec @calls:decodeSignedVarInt] (i idx, a []int64, b []byte) forall(k, 0, i, a[k] == svat(elems(b), len(b), k))
// fixed-width sections
template [@dec @calls:Uint64] (i idx, a []uint64, b []byte) forall(k, 0, i, a[k] == rd(elems(b), 8*k, 8))
template [@dec @calls:Uint64] (i idx, a []int64, b []byte) forall(k, 0, i, a[k] == wrap_i64(rd(elems(b), 8*k, 8)))
// delta decoding in place
template [@dec] (i idx, a []uint64, b []byte, e uint32) forall(j, 0, min(i, len(a)), a[j] == idv(elems(b), len(b), e, j)) && forall(j, i, len(a), a[j] == pre(a[j])) && imp(len(a) > 0, a[0] == pre(a[0]))
template [@dec] (i idx, a []int64, b []byte, e uint32) forall(j, 0, min(i, len(a)), a[j] == valv(elems(b), len(b), e, j)) && forall(j, i, len(a), a[j] == pre(a[j])) && imp(len(a) > 0, a[0] == pre(a[0]))
