func col.ConvU16 (i) (r)
  props GOOD BAD
  ensures [GOOD] imp(i < 65536, r == i) && r < 65536
  ensures [BAD] r == i
func col.ConvI8 (i) (r)
  props GOOD BAD
  ensures [GOOD] r < 128 && imp(i == 255, r == 0 - 1)
  ensures [BAD] imp(i < 256 && i >= 0, r == i)
func col.ConvU8 (i) (r)
  props GOOD BAD
  ensures [GOOD] imp(i == 0-1, r == 255)
  ensures [BAD] imp(i < 256, r == i)
func col.ConvSign (i) (r)
  props GOOD BAD
  ensures [GOOD] imp(i >= 0, r == i)
  ensures [BAD] r == i
func col.ConvI32U64 (i) (r)
  props GOOD BAD
  ensures [GOOD] imp(i == 0-1, r == 18446744073709551615)
  ensures [BAD] r < 4294967296
func col.ConvU32I64 (i) (r)
  props GOOD BAD
  ensures [GOOD] r == i
  ensures [BAD] r < 2147483648
func col.ConvU32I32 (i) (r)
  props GOOD BAD
  ensures [GOOD] imp(i < 2147483648, r == i)
  ensures [BAD] r >= 0
func col.ConvU64Int (i) (r)
  props GOOD BAD
  ensures [GOOD] imp(i < 9223372036854775808, r == i)
  ensures [BAD] r >= 0
func col.Mul32 (a, b) (r)
  props GOOD BAD
  ensures [GOOD] r < 4294967296
  ensures [BAD] r == a * b
func col.Mul32w (a, b) (r)
  props GOOD BAD
  ensures [BAD] r < 4294967296
func col.Add8 (a, b) (r)
  props GOOD BAD
  ensures [GOOD] r < 256
  ensures [BAD] r == a + b
func col.Sub64 (a, b) (r)
  props GOOD BAD
  ensures [GOOD] imp(a >= b, r == a - b)
  ensures [BAD] r <= a
func col.AddI64 (a, b) (r)
  props GOOD BAD
  ensures [GOOD] imp(a >= 0 && b <= 0, r == a + b)
  ensures [BAD] imp(a >= 0 && b >= 0, r >= 0)
func col.Neg (a) (r)
  props GOOD BAD
  ensures [GOOD] imp(a > 0, r < 0)
  ensures [BAD] imp(a < 0, r > 0)
func col.Div (a, b) (r)
  props GOOD BAD
  ensures [GOOD] imp(a >= 0 && b > 0, r <= a) && imp(a == 0-7 && b == 2, r == 0-3)
  ensures [BAD] imp(a == 0-7 && b == 2, r == 0-4)
func col.Rem (a) (r)
  props GOOD BAD
  ensures [GOOD] r < 8 && r > 0-8
  ensures [BAD] r >= 0
func col.RemU (a) (r)
  props GOOD BAD
  ensures [GOOD] r < 8
  ensures [BAD] r < 7
func col.Shl (a) (r)
  props GOOD BAD
  ensures [GOOD] imp(a < 100, r == 8*a)
  ensures [BAD] r == 8*a
func col.Shr (a) (r)
  props GOOD BAD
  ensures [GOOD] imp(a == 0-3, r == 0-2)
  ensures [BAD] imp(a == 0-3, r == 0-1)
func col.ShrU (a) (r)
  props GOOD BAD
  ensures [GOOD] r < 16
  ensures [BAD] r < 15
func col.And (a) (r)
  props GOOD BAD
  ensures [GOOD] r < 256
  ensures [BAD] r == a
func col.AndNot (a) (r)
  props GOOD BAD
  ensures [BAD] r == a
func col.Round (a) (r)
  props GOOD BAD
  ensures [GOOD] imp(a >= 0 && a <= 1000000, r >= a && r < a + 4096)
  ensures [BAD] imp(a >= 0 && a <= 1000000, r > a)
func col.CmpSign (a, b) (r)
  props GOOD BAD
  ensures [GOOD] imp(a >= 0 && b >= 0, iff(r, a < b))
  ensures [BAD] iff(r, a < b)
func col.Abs (a) (r)
  props GOOD BAD
  ensures [GOOD] imp(a > 0-9223372036854775808, r >= 0)
  ensures [BAD] r >= 0
func col.IncTwice (a) (r)
  props GOOD BAD
  ensures [GOOD] imp(a < 1000, r == a + 2)
  ensures [BAD] r >= a

func col.Idx (a, i) (r)
  props BAD
  ensures true
func col.IdxOK (a, i) (r)
  props GOOD BAD
  ensures [GOOD] imp(0 <= i && i < len(a), r == a[i])
  ensures [BAD] r == 0
func col.Off1 (a, i) (r)
  props BAD
  ensures true
func col.SliceBad (a, i) (r)
  props BAD
  ensures true
func col.Set0 (a)
  props GOOD BAD
  modifies elems(a)
  ensures [GOOD] imp(len(a) > 0, a[0] == 7) && imp(len(a) > 1, a[1] == old(a[1]))
  ensures [BAD] imp(len(a) > 0, a[0] == old(a[0]))
func col.Alias (a) (r)
  props GOOD BAD
  modifies elems(a)
  ensures [GOOD] imp(len(a) >= 4, r == 11)
  ensures [BAD] imp(len(a) >= 4, a[1] == old(a[1]))
func col.Append1 (a) (r)
  props GOOD BAD
  modifies elems(a)
  ensures [GOOD] len(r) == len(a) + 1 && r[len(a)] == 1 && forall(i, 0, len(a), r[i] == old(a[i]))
  ensures [BAD] len(r) == len(a)
func col.AppendAlias (a) (r)
  props GOOD BAD
  modifies elems(a)
  ensures [GOOD] imp(len(a) >= 2, r == 9)
  ensures [BAD] imp(len(a) >= 2, r == old(a[1]))
func col.AppendNew (n) (r)
  props GOOD BAD
  ensures [GOOD] imp(n < 1, r == 1)
  ensures [BAD] imp(n == 1, r == 3)
func col.CopyOverlap (a)
  props GOOD BAD
  modifies elems(a)
  ensures [GOOD] imp(len(a) >= 10, a[1] == old(a[0]) && a[2] == old(a[1]) && a[5] == old(a[4]) && a[6] == old(a[6]))
  ensures [BAD] imp(len(a) >= 10, a[2] == old(a[0]))
func col.Sum (a) (r)
  props GOOD BAD
  ensures [BAD] imp(len(a) == 2, r == a[0])
func col.CountPos (a) (r)
  props GOOD BAD
  ensures [GOOD] r >= 0 && r <= len(a)
  ensures [BAD] imp(len(a) > 0, r < len(a) - 1)
func col.MaxOf (a) (r)
  props GOOD BAD
  requires len(a) > 0
  ensures [GOOD] r >= a[0]
  ensures [BAD] r == a[0]
func col.Fill (a, v)
  props GOOD BAD
  modifies elems(a)
  ensures [GOOD] forall(i, 0, len(a), a[i] == v)
  ensures [BAD] forall(i, 0, len(a), a[i] == old(a[i]))
template (i idx, a []uint64, v uint64) forall(k, 0, i, a[k] == v)
func col.FillSkip (a, v)
  props GOOD BAD
  modifies elems(a)
  ensures [GOOD] true
  ensures [BAD] forall(i, 0, len(a), a[i] == v)
func col.Until (a) (r)
  props GOOD BAD
  ensures [GOOD] r <= len(a)
  ensures [BAD] r < len(a)
func col.Clone (a) (b)
  props GOOD BAD
  fresh b
  ensures [GOOD] len(b) == len(a) && forall(i, 0, len(a), b[i] == a[i])
  ensures [BAD] imp(len(a) > 0, b[0] == 0)
func col.NoClone (a) (b)
  props BAD
  fresh b
  ensures true

func col.LE (b) (r)
  props GOOD BAD
  ensures [GOOD] imp(len(b) >= 8, r == rd(elems(b), 4, 4))
  ensures [BAD] imp(len(b) >= 8, r == rd(elems(b), 0, 4))
func col.Put (b, v)
  props GOOD BAD
  modifies elems(b)
  ensures [GOOD] imp(len(b) >= 16, rd(elems(b), 4, 4) == 7)
  ensures [BAD] imp(len(b) >= 16, rd(elems(b), 0, 8) == v)

func col.CopyStruct (p) (r)
  props GOOD BAD
  ensures [GOOD] r == p.X
  ensures [BAD] r == 5
func col.TwoPtr (p, q) (r)
  props GOOD BAD
  modifies p.X; q.X
  ensures [GOOD] r == 1 || r == 2
  ensures [BAD] r == 1
func col.NilPtr (p) (r)
  props GOOD BAD
  ensures [GOOD] true
  ensures [BAD] r == 0
func col.NilPtr2 (p) (r)
  props BAD
  ensures true
func col.FieldAddr (p) (r)
  props GOOD BAD
  modifies p.X
  ensures [GOOD] r == 9
  ensures [BAD] r == old(p.X)
func col.CallInc (p) (r)
  props GOOD BAD
  modifies p.X; p.Y
  ensures [GOOD] r == 12
  ensures [BAD] r == 11
func col.SharedSlice (p, q) (r)
  props GOOD BAD
  modifies elems(p.S); elems(q.S)
  ensures [GOOD] r == 0 || r == 1 || r == 2
  ensures [BAD] imp(len(p.S) > 0 && len(q.S) > 0, r == 1)

func col.Switch (e) (r)
  props GOOD BAD
  ensures [GOOD] imp(e == 3, r == 1) && imp(e > 3, r == 0)
  ensures [BAD] imp(e == 3, r == 0)
func col.Defer (p) (r)
  props GOOD BAD
  ensures [GOOD] r == 5
  ensures [BAD] r == 4
func col.DeferOrder (p)
  props GOOD BAD
  modifies p.X
  ensures [GOOD] p.X == 1
  ensures [BAD] p.X == 2
func col.Closure (n) (r)
  props GOOD BAD
  requires n < 1000 && n > 0
  ensures [GOOD] r == 1 + 2*n
  ensures [BAD] r == 1 + n
func col.EarlyBreak (a) (r)
  props GOOD BAD
  ensures [GOOD] r < len(a) && imp(r >= 0, a[r] == 3)
  ensures [BAD] imp(len(a) > 0, r >= 0)
func col.Nested (n) (r)
  props GOOD BAD
  ensures [BAD] r <= n
func col.Down (n) (r)
  props GOOD BAD
  ensures [BAD] r == n
func col.CallErr (b) (r)
  props GOOD BAD
  ensures [GOOD] imp(b, r == 0) && imp(!b, r == 2)
  ensures [BAD] r == 2
func col.Panics (b) (r)
  props BAD
  ensures true
func col.DivZero (a, b) (r)
  props BAD
  ensures true
func col.MakeNeg (n) (r)
  props BAD
  ensures true
func col.Half (n) (r)
  props GOOD BAD
  requires n >= 0
  ensures [GOOD] r <= n
  ensures [BAD] r < n
func col.UseHalf (n) (r)
  props GOOD BAD
  ensures [GOOD] imp(n >= 2, r <= n)
func col.Need (n) (r)
  props GOOD BAD
  requires n > 0
  ensures r == n
func col.UseNeed (n) (r)
  props BAD
  ensures r == n
func col.Touch (p)
  props GOOD BAD
  modifies p.X
  ensures p.X == 3 || p.X == 4
func col.UseTouch (p) (r)
  props GOOD BAD
  modifies p.X; p.Y
  ensures [GOOD] r == 32 || r == 42
  ensures [BAD] r == 32
func col.TouchTooMuch (p)
  props BAD
  modifies p.X
  ensures true
func col.FreshNot (p) (r)
  props BAD
  fresh r
  ensures true
func col.WriteOnce (f, b) (err) mode wf
  props GOOD BAD
  requires isopen(f) && size(f) >= 100
  requires len(b) == 8
  modifies file(f)
  ensures [GOOD] imp(err == nil, rd(content(f), 10, 8) == rd(elems(b), 0, 8)) && imp(err == nil, rd(content(f), 0, 8) == old(rd(content(f), 0, 8)))
  ensures [BAD] imp(err == nil, rd(content(f), 8, 8) == rd(elems(b), 0, 8))
func col.ReadSome (f) (v, err) mode hostile
  props GOOD BAD
  requires isopen(f)
  ensures [GOOD] imp(err == nil, v == rd(content(f), 4, 8))
  ensures [BAD] v == rd(content(f), 4, 8)
func col.ReadNoCheck (f) (v) mode hostile
  props BAD
  requires isopen(f)
  ensures [BAD] v == rd(content(f), 4, 8)
