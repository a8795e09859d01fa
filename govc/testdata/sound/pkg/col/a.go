// Package col holds small functions with true (GOOD) and false (BAD) contracts: govc must prove the former and must
// not prove the latter.
package col

import (
	"encoding/binary"
	"errors"
	"os"
	"sync"
)

// ---- integers

func ConvU16(i uint32) int      { return int(uint16(i)) }
func ConvI8(i int64) int64      { return int64(int8(i)) }
func ConvU8(i int64) uint64     { return uint64(uint8(i)) }
func ConvSign(i int64) uint64   { return uint64(i) }
func ConvI32U64(i int32) uint64 { return uint64(i) }
func ConvU32I64(i uint32) int64 { return int64(i) }
func ConvU32I32(i uint32) int32 { return int32(i) }
func ConvU64Int(i uint64) int   { return int(i) }
func Mul32(a, b uint32) uint64  { return uint64(a * b) }
func Mul32w(a, b uint32) uint64 { return uint64(a) * uint64(b) }
func Add8(a, b uint8) int       { return int(a + b) }
func Sub64(a, b uint64) uint64  { return a - b }
func AddI64(a, b int64) int64   { return a + b }
func Neg(a int64) int64         { return -a }
func Div(a, b int64) int64 {
	if b <= 0 {
		return 0
	}
	return a / b
}
func Rem(a int64) int64      { return a % 8 }
func RemU(a uint64) uint64   { return a % 8 }
func Shl(a uint64) uint64    { return a << 3 }
func Shr(a int64) int64      { return a >> 1 }
func ShrU(a uint64) uint64   { return a >> 60 }
func And(a uint64) uint64    { return a & 0xff }
func AndNot(a uint64) uint64 { return a &^ 0xff }
func Round(a int) int {
	if a < 0 || a > 1<<40 {
		return 0
	}
	return (a + 4095) / 4096 * 4096
}
func CmpSign(a, b int64) bool { return uint64(a) < uint64(b) }
func Abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func IncTwice(a uint32) uint32 { a++; a++; return a }

// ---- slices

func Idx(a []int, i int) int { return a[i] }
func IdxOK(a []int, i int) int {
	if i < 0 || i >= len(a) {
		return 0
	}
	return a[i]
}
func Off1(a []int, i int) int {
	if i < 0 || i > len(a) {
		return 0
	}
	return a[i]
}
func SliceBad(a []int, i int) []int {
	if i < 0 || i > len(a) {
		return nil
	}
	return a[i : i+1]
}
func Set0(a []int) {
	if len(a) > 0 {
		a[0] = 7
	}
}
func Alias(a []int) int {
	if len(a) < 4 {
		return 0
	}
	b := a[1:]
	b[0] = 5
	c := a[2:4]
	c[0] = 6
	return a[1] + a[2]
}
func Append1(a []int) []int { return append(a, 1) }
func AppendAlias(a []int) int {
	if len(a) < 2 {
		return 0
	}
	b := append(a[:1], 9)
	_ = b
	return a[1]
}
func AppendNew(n int) int {
	if n < 1 || n > 100 {
		return 1
	}
	a := make([]int, n)
	b := append(a, 5)
	b[0] = 3
	return a[0]
}
func CopyOverlap(a []byte) {
	if len(a) < 10 {
		return
	}
	copy(a[1:], a[:5])
}
func Sum(a []int64) int64 {
	var s int64
	for _, v := range a {
		s += v
	}
	return s
}
func CountPos(a []int64) int {
	n := 0
	for i := 1; i < len(a); i++ {
		if a[i] > 0 {
			n++
		}
	}
	return n
}
func MaxOf(a []int64) int64 {
	m := a[0]
	for _, v := range a[1:] {
		if v > m {
			m = v
		}
	}
	return m
}
func Fill(a []uint64, v uint64) {
	for i := range a {
		a[i] = v
	}
}
func FillSkip(a []uint64, v uint64) {
	for i := 0; i < len(a); i += 2 {
		a[i] = v
	}
}
func Until(a []byte) int {
	i := 0
	for i < len(a) && a[i] != 0 {
		i++
	}
	return i
}
func Clone(a []uint64) []uint64 {
	b := make([]uint64, len(a))
	copy(b, a)
	return b
}
func NoClone(a []uint64) []uint64 { return a }

// ---- bytes

func LE(b []byte) uint64 {
	if len(b) < 8 {
		return 0
	}
	return uint64(binary.LittleEndian.Uint32(b[4:]))
}
func Put(b []byte, v uint64) {
	if len(b) < 16 {
		return
	}
	binary.LittleEndian.PutUint64(b[0:], v)
	binary.LittleEndian.PutUint32(b[4:], 7)
}

// ---- structs and pointers

type P struct {
	X, Y int
	A    [4]int
	S    []int
	next *P
}

func CopyStruct(p *P) int {
	q := *p
	q.X = 5
	return p.X
}
func TwoPtr(p, q *P) int {
	p.X = 1
	q.X = 2
	return p.X
}
func NilPtr(p *P) int {
	if p.next == nil {
		return 0
	}
	return p.next.X
}
func NilPtr2(p *P) int { return p.next.X }
func ArrCopy(p *P) int {
	a := p.A
	a[2] = 4
	return p.A[2]
}
func FieldAddr(p *P) int {
	x := &p.X
	*x = 9
	return p.X
}
func Inc(x *int) { *x = *x + 1 }
func CallInc(p *P) int {
	p.X, p.Y = 1, 10
	Inc(&p.Y)
	return p.X + p.Y
}
func SharedSlice(p, q *P) int {
	if len(p.S) < 1 || len(q.S) < 1 {
		return 0
	}
	p.S[0] = 1
	q.S[0] = 2
	return p.S[0]
}

// ---- control flow

func Switch(e uint32) int {
	switch e {
	case 1, 3:
		return 1
	case 2:
		return 2
	default:
		return 0
	}
}
func Defer(p *P) (r int) {
	defer func() { r++ }()
	return 4
}
func DeferOrder(p *P) {
	defer func() { p.X = 1 }()
	defer func() { p.X = 2 }()
}
func Closure(n int) int {
	x := 1
	f := func() { x += n }
	f()
	f()
	return x
}
func EarlyBreak(a []int) int {
	for i := range a {
		if a[i] == 3 {
			return i
		}
	}
	return -1
}
func Nested(n int) int {
	if n < 0 || n > 1000 {
		return 0
	}
	s := 0
	for i := 0; i < n; i++ {
		for j := 0; j < 3; j++ {
			s++
		}
	}
	return s
}
func Down(n int) int {
	k := 0
	for i := n; i > 0; i-- {
		k++
	}
	return k
}
func Err(b bool) (int, error) {
	if b {
		return 1, errors.New("x")
	}
	return 2, nil
}
func CallErr(b bool) int {
	v, err := Err(b)
	if err != nil {
		return 0
	}
	return v
}
func Panics(b bool) int {
	if b {
		panic("x")
	}
	return 1
}
func DivZero(a, b int) int { return a / b }
func MakeNeg(n int) []byte { return make([]byte, n) }
func Forever(n int) int {
	for n != 0 {
		n -= 2
	}
	return n
}

// callee with a contract: only the contract is known
func Half(n int) int { return n / 2 }
func UseHalf(n int) int {
	if n < 2 {
		return 0
	}
	return Half(n)
}
func Need(n int) int    { return n }
func UseNeed(n int) int { return Need(n) }
func Touch(p *P)        { p.X = 3 }
func UseTouch(p *P) int {
	p.X, p.Y = 1, 2
	Touch(p)
	return p.X*10 + p.Y
}
func TouchTooMuch(p *P)   { p.X = 3; p.Y = 4 }
func FreshNot(p *P) []int { return p.S }

// ---- goroutines

func Bag(n int) int64 {
	if n < 1 || n > 100 {
		return 0
	}
	ch := make(chan int64, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ch <- 2
		}()
	}
	wg.Wait()
	close(ch)
	var s int64
	for v := range ch {
		s += v
	}
	return s
}

// ---- files

func WriteOnce(f *os.File, b []byte) error {
	if _, err := f.Seek(10, 0); err != nil {
		return err
	}
	_, err := f.Write(b)
	return err
}
func ReadSome(f *os.File) (uint64, error) {
	b := make([]byte, 8)
	if _, err := f.ReadAt(b, 4); err != nil {
		return 0, err
	}
	return binary.LittleEndian.Uint64(b), nil
}
func ReadNoCheck(f *os.File) uint64 {
	b := make([]byte, 8)
	f.ReadAt(b, 4)
	return binary.LittleEndian.Uint64(b)
}
