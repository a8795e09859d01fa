// ---- C10: the integer codecs.  Bit-vector mode: every machine operation exact.

// canonical base-128 form of a 64-bit number: length and bytes
def vlenbv(v) = ite(v < 0x80, 1, ite(v < 0x4000, 2, ite(v < 0x200000, 3, ite(v < 0x10000000, 4, ite(v < 0x800000000, 5,
    ite(v < 0x40000000000, 6, ite(v < 0x2000000000000, 7, ite(v < 0x100000000000000, 8, ite(v < 0x8000000000000000, 9, 10)))))))))
def vbyte(v, i) = trunc8((v >> (7*i)) & 127) | ite(i+1 < vlenbv(v), 128 & trunc8(v | 255), 0 & trunc8(v))
def zz(v) = (v << 1) ^ ashr(v, 63)

func col.encodeVarInt(v) (out) mode bv
  props C10 C01 C08 C09
  flags nocall
  ensures len(out) == vlenbv(v)
  ensures all(i, 0, 10, imp(i < vlenbv(v), out[i] == vbyte(v, i)))

func col.decodeVarInt(data) (r, n) mode bv
  props C10 C01 C08 C09
  flags nocall
  ghost v bv64
  ensures imp(len(data) >= vlenbv(v) && all(i, 0, 10, imp(i < vlenbv(v), data[i] == vbyte(v, i))), r == v && n == vlenbv(v))

func col.encodeSignedVarInt(v) (out) mode bv
  props C10 C01 C08 C09
  flags nocall
  ensures len(out) == vlenbv(zz(v))
  ensures all(i, 0, 10, imp(i < vlenbv(zz(v)), out[i] == vbyte(zz(v), i)))

func col.decodeSignedVarInt(data) (r, n) mode bv
  props C10 C01 C08 C09
  flags nocall
  ghost v bv64
  ensures imp(len(data) >= vlenbv(zz(v)) && all(i, 0, 10, imp(i < vlenbv(zz(v)), data[i] == vbyte(zz(v), i))), r == v && n == vlenbv(zz(v)))

// stored unsigned form of a signed number: sign and magnitude
def i2ubv(v) = ite(slt(v, 0), (0-v) | 0x8000000000000000, v)
def i2u(v) = ite(v >= 0, v, ite(v == -9223372036854775808, 9223372036854775808, 9223372036854775808 - v))
def u2i(u) = ite(u < 9223372036854775808, u, ite(u == 9223372036854775808, -9223372036854775808, 9223372036854775808 - u))

func col.int64ToUint64(v) (u) mode bv
  props C10
  flags nocall
  ensures u == i2ubv(v)
func col.uint64ToInt64(u) (v) mode bv
  props C10
  flags nocall
  ghost w bv64
  ensures imp(u == i2ubv(w), v == w)

// delta coding, wrapping modulo 2^64
func col.deltaEncode(values) (out)
  props C10
  flags @delta
  fresh out
  ensures len(out) == len(values)
  ensures imp(len(values) > 0, out[0] == values[0])
  ensures forall(i, 1, len(values), out[i] == wrap_u64(values[i] - values[i-1]))
func col.deltaDecode(deltas) (out)
  props C10
  flags @delta
  fresh out
  ghost v []u64
  ensures len(out) == len(deltas)
  ensures imp(len(deltas) > 0, out[0] == deltas[0])
  ensures forall(i, 1, len(deltas), out[i] == wrap_u64(out[i-1] + deltas[i]))
func col.deltaEncodeInt64(values) (out)
  props C10
  flags @delta
  fresh out
  ensures len(out) == len(values)
  ensures imp(len(values) > 0, out[0] == values[0])
  ensures forall(i, 1, len(values), out[i] == wrap_i64(values[i] - values[i-1]))
func col.deltaDecodeInt64(deltas) (out)
  props C10
  flags @delta
  fresh out
  ensures len(out) == len(deltas)
  ensures imp(len(deltas) > 0, out[0] == deltas[0])
  ensures forall(i, 1, len(deltas), out[i] == wrap_i64(out[i-1] + deltas[i]))

template [@delta] (i idx, a []uint64, d []uint64) forall(k, 1, i, d[k] == wrap_u64(a[k] - a[k-1]))
template [@delta] (i idx, a []int64, d []int64) forall(k, 1, i, d[k] == wrap_i64(a[k] - a[k-1]))
template [@delta] (i idx, a []uint64, d []uint64) forall(k, 1, i, d[k] == wrap_u64(d[k-1] + a[k]))
template [@delta] (i idx, a []int64, d []int64) forall(k, 1, i, d[k] == wrap_i64(d[k-1] + a[k]))
template [@delta] (d []uint64, a []uint64) d[0] == a[0]
template [@delta] (d []int64, a []int64) d[0] == a[0]
