package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"
)

// An independent reading of the file format, from column_format_spec.md and the property statements.

const magic = 0x5642455F434F4C00

type row struct {
	id uint64
	v  int64
}

func idsOf(r []row) []uint64 {
	o := make([]uint64, len(r))
	for i := range r {
		o[i] = r[i].id
	}
	return o
}
func valsOf(r []row) []int64 {
	o := make([]int64, len(r))
	for i := range r {
		o[i] = r[i].v
	}
	return o
}

func deltaIDs(e uint32) bool  { return e == 1 || e == 3 || e == 5 || e == 7 }
func deltaVals(e uint32) bool { return e == 2 || e == 3 || e == 6 || e == 7 }
func varIDs(e uint32) bool    { return e == 4 || e == 5 || e == 7 }
func varVals(e uint32) bool   { return e == 4 || e == 6 || e == 7 }

func vlen(v uint64) int {
	if v == 0 {
		return 1
	}
	return (bits.Len64(v) + 6) / 7
}
func vput(b []byte, v uint64) []byte {
	n := vlen(v)
	for i := 0; i < n; i++ {
		x := byte(v>>(7*i)) & 127
		if i < n-1 {
			x |= 128
		}
		b = append(b, x)
	}
	return b
}
func zigzag(v int64) uint64 {
	if v >= 0 {
		return uint64(v) * 2
	}
	return uint64(-(v+1))*2 + 1
}
func unzigzag(u uint64) int64 {
	if u%2 == 0 {
		return int64(u / 2)
	}
	return -int64(u/2) - 1
}
func encIDs(e uint32, r []row) []byte {
	var b []byte
	var prev uint64
	for _, x := range r {
		d := x.id
		if deltaIDs(e) {
			d = x.id - prev
			prev = x.id
		}
		if varIDs(e) {
			b = vput(b, d)
		} else {
			b = binary.LittleEndian.AppendUint64(b, d)
		}
	}
	return b
}
func encVals(e uint32, r []row) []byte {
	var b []byte
	var prev int64
	for _, x := range r {
		d := x.v
		if deltaVals(e) {
			d = x.v - prev
			prev = x.v
		}
		if varVals(e) {
			b = vput(b, zigzag(d))
		} else {
			b = binary.LittleEndian.AppendUint64(b, uint64(d))
		}
	}
	return b
}

// vget decodes one varint; n == 0: malformed or truncated.  over reports bits beyond 64.
func vget(b []byte) (v uint64, n int, over bool) {
	for i := 0; i < len(b) && i < 10; i++ {
		x := b[i]
		if i == 9 && x&127 > 1 {
			over = true
		}
		if i < 10 {
			v |= uint64(x&127) << (7 * i)
		}
		if x&128 == 0 {
			return v, i + 1, over
		}
	}
	return 0, 0, over
}

// decodeSection decodes count numbers from their own positions; overflow: some varint has more than 64 bits.
func decodeSection(b []byte, count int, vari bool) (out []uint64, overflow bool, err error) {
	if !vari {
		if count > len(b)/8 {
			return nil, false, fmt.Errorf("section of %d bytes too short for %d fixed-width items", len(b), count)
		}
		out = make([]uint64, count)
		for i := range out {
			out[i] = binary.LittleEndian.Uint64(b[8*i:])
		}
		return out, false, nil
	}
	if count > len(b) {
		return nil, false, fmt.Errorf("section of %d bytes too short for %d varints", len(b), count)
	}
	out = make([]uint64, 0, count)
	for i := 0; i < count; i++ {
		v, n, o := vget(b)
		if n == 0 {
			return nil, overflow, fmt.Errorf("varint %d of %d is truncated or too long", i, count)
		}
		overflow = overflow || o
		out = append(out, v)
		b = b[n:]
	}
	return out, overflow, nil
}

type blockEntry struct {
	off                    uint64
	size                   uint32
	minID, maxID           uint64
	minVal, maxVal, sum    uint64 // stored form
	count                  uint32
}

type envelope struct {
	enc               uint32
	target            uint32
	hdrBlocks         uint64
	version           uint32
	bmOff, bmSize     uint64
	footerLen         uint64
	footerStart       int
	entries           []blockEntry
}

// parseEnvelope reports why the file may not be opened, or its contents.
func parseEnvelope(b []byte) (*envelope, error) {
	le := binary.LittleEndian
	if len(b) < 64 {
		return nil, fmt.Errorf("file of %d bytes has no complete header", len(b))
	}
	if le.Uint64(b) != magic {
		return nil, fmt.Errorf("wrong header magic")
	}
	e := &envelope{version: le.Uint32(b[8:]), hdrBlocks: le.Uint64(b[16:]), target: le.Uint32(b[24:]), enc: le.Uint32(b[32:]), bmOff: le.Uint64(b[44:]), bmSize: le.Uint64(b[52:])}
	if e.version != 1 {
		return nil, fmt.Errorf("version %d", e.version)
	}
	if len(b) < 24 || le.Uint64(b[len(b)-8:]) != magic {
		return nil, fmt.Errorf("wrong trailer magic")
	}
	e.footerLen = le.Uint64(b[len(b)-24:])
	if len(b)-24 < 64 || e.footerLen > uint64(len(b)-24-64) {
		return nil, fmt.Errorf("footer of %d bytes does not lie between header and trailer (file %d bytes)", e.footerLen, len(b))
	}
	if e.footerLen < 4 {
		return nil, fmt.Errorf("footer of %d bytes has no block count", e.footerLen)
	}
	e.footerStart = len(b) - 24 - int(e.footerLen)
	n := le.Uint32(b[e.footerStart:])
	if uint64(n)*56+4 > e.footerLen {
		return nil, fmt.Errorf("footer of %d bytes too small for %d entries", e.footerLen, n)
	}
	for i := 0; i < int(n); i++ {
		p := b[e.footerStart+4+56*i:]
		e.entries = append(e.entries, blockEntry{le.Uint64(p), le.Uint32(p[8:]), le.Uint64(p[12:]), le.Uint64(p[20:]), le.Uint64(p[28:]), le.Uint64(p[36:]), le.Uint64(p[44:]), le.Uint32(p[52:])})
	}
	return e, nil
}

// decodeBlock: the rows of a block backed by bytes, or why there are none.  overflow: a varint with more than 64 bits.
func decodeBlock(b []byte, e *envelope, i int) (ids []uint64, vals []int64, overflow bool, err error) {
	le := binary.LittleEndian
	en := e.entries[i]
	if en.size < 80 {
		return nil, nil, false, fmt.Errorf("block of %d bytes cannot hold header and section table", en.size)
	}
	if en.off > uint64(len(b)) || uint64(en.size) > uint64(len(b))-en.off {
		return nil, nil, false, fmt.Errorf("block [%d,+%d) reaches past the end of the file (%d)", en.off, en.size, len(b))
	}
	d := b[en.off+64 : en.off+uint64(en.size)]
	io, is, vo, vs := uint64(le.Uint32(d)), uint64(le.Uint32(d[4:])), uint64(le.Uint32(d[8:])), uint64(le.Uint32(d[12:]))
	if 16+io+is > uint64(len(d)) || 16+vo+vs > uint64(len(d)) {
		return nil, nil, false, fmt.Errorf("section outside the block")
	}
	ui, o1, err := decodeSection(d[16+io:16+io+is], int(en.count), varIDs(e.enc))
	if err != nil {
		return nil, nil, o1, fmt.Errorf("ids: %w", err)
	}
	uv, o2, err := decodeSection(d[16+vo:16+vo+vs], int(en.count), varVals(e.enc))
	if err != nil {
		return nil, nil, o1 || o2, fmt.Errorf("values: %w", err)
	}
	var pi uint64
	for _, u := range ui {
		if deltaIDs(e.enc) {
			u += pi
		}
		pi = u
		ids = append(ids, u)
	}
	var pv int64
	for _, u := range uv {
		v := int64(u)
		if varVals(e.enc) {
			v = unzigzag(u)
		}
		if deltaVals(e.enc) {
			v += pv
		}
		pv = v
		vals = append(vals, v)
	}
	return ids, vals, o1 || o2, nil
}

func stored(v int64) uint64 {
	if v >= 0 {
		return uint64(v)
	}
	return uint64(-v) | 1<<63
}

type stats struct {
	minID, maxID   uint64
	min, max, sum  int64
	count          int
}

func statsOf(r []row) stats {
	s := stats{}
	for i, x := range r {
		if i == 0 || x.id < s.minID {
			s.minID = x.id
		}
		if i == 0 || x.id > s.maxID {
			s.maxID = x.id
		}
		if i == 0 || x.v < s.min {
			s.min = x.v
		}
		if i == 0 || x.v > s.max {
			s.max = x.v
		}
		s.sum += x.v
		s.count++
	}
	return s
}

func avgOf(s stats) float64 {
	if s.count == 0 {
		return 0
	}
	return float64(s.sum) / float64(s.count)
}

// rowBytes is what row r[i] adds to a block.
func rowBytes(e uint32, r []row, i int) int {
	n := 16
	if varIDs(e) {
		d := r[i].id
		if deltaIDs(e) && i > 0 {
			d -= r[i-1].id
		}
		n += vlen(d) - 8
	}
	if varVals(e) {
		d := r[i].v
		if deltaVals(e) && i > 0 {
			d -= r[i-1].v
		}
		n += vlen(zigzag(d)) - 8
	}
	return n
}
func blockBytes(e uint32, r []row) int {
	n := 80
	for i := range r {
		n += rowBytes(e, r, i)
	}
	return n
}
func pad(p int) int                    { return (4096 - p%4096) % 4096 }

// buildBlock is the image of a block written at file position pos.
func buildBlock(e uint32, r []row, pos int) []byte {
	le := binary.LittleEndian
	s := statsOf(r)
	var b []byte
	for _, u := range []uint64{s.minID, s.maxID, stored(s.min), stored(s.max), stored(s.sum)} {
		b = le.AppendUint64(b, u)
	}
	b = le.AppendUint32(b, uint32(len(r)))
	b = le.AppendUint32(b, e)
	b = append(b, make([]byte, 16)...)
	i, v := encIDs(e, r), encVals(e, r)
	b = le.AppendUint32(b, 0)
	b = le.AppendUint32(b, uint32(len(i)))
	b = le.AppendUint32(b, uint32(len(i)))
	b = le.AppendUint32(b, uint32(len(v)))
	b = append(b, i...)
	b = append(b, v...)
	return append(b, make([]byte, pad(pos+len(b)))...)
}

// buildFile is the whole file; bm is the serialized id set.
func buildFile(e, target uint32, blocks [][]row, bm []byte) []byte {
	le := binary.LittleEndian
	b := make([]byte, 64)
	le.PutUint64(b, magic)
	le.PutUint32(b[8:], 1)
	le.PutUint64(b[16:], uint64(len(blocks)))
	le.PutUint32(b[24:], target)
	le.PutUint32(b[32:], e)
	var f []byte
	f = le.AppendUint32(f, uint32(len(blocks)))
	for _, r := range blocks {
		bb := buildBlock(e, r, len(b))
		s := statsOf(r)
		f = le.AppendUint64(f, uint64(len(b)))
		f = le.AppendUint32(f, uint32(len(bb)))
		for _, u := range []uint64{s.minID, s.maxID, stored(s.min), stored(s.max), stored(s.sum)} {
			f = le.AppendUint64(f, u)
		}
		f = le.AppendUint32(f, uint32(len(r)))
		b = append(b, bb...)
	}
	le.PutUint64(b[44:], uint64(len(b)))
	le.PutUint64(b[52:], uint64(len(bm)+4))
	b = le.AppendUint32(b, uint32(len(bm)))
	b = append(b, bm...)
	b = append(b, make([]byte, pad(len(b)))...)
	n := len(f)
	b = append(b, f...)
	b = le.AppendUint64(b, uint64(n))
	b = le.AppendUint64(b, 0)
	return le.AppendUint64(b, magic)
}

func idSet(blocks [][]row) []uint64 {
	m := map[uint64]bool{}
	for _, b := range blocks {
		for _, r := range b {
			m[r.id] = true
		}
	}
	return sortedKeys(m)
}
func sortedKeys(m map[uint64]bool) []uint64 {
	o := make([]uint64, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}
func eqU(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func eqI(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func eqF(a, b float64) bool { return a == b || (math.IsNaN(a) && math.IsNaN(b)) }
func flat(bs [][]row) []row {
	var o []row
	for _, b := range bs {
		o = append(o, b...)
	}
	return o
}
