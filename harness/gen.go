package main

import (
	"fmt"
	"math"
	"sort"

	"vibe-lsm/pkg/col"
)

var edgeU = []uint64{0, 1, 2, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<35 - 1, 1 << 35, 1<<42 - 1, 1 << 42, 1<<48 - 1, 1 << 48, 1<<49 - 1, 1 << 49, 1<<56 - 1, 1 << 56, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}

func edgeI(c *Ctx) int64 {
	switch c.intn(5) {
	case 0:
		return math.MinInt64 + int64(c.intn(3))
	case 1:
		return math.MaxInt64 - int64(c.intn(3))
	case 2:
		return int64(c.intn(5)) - 2
	case 3:
		v := int64(edgeU[c.intn(len(edgeU))] / 2)
		if c.chance(0.5) {
			return -v - int64(c.intn(2))
		}
		return v
	}
	return int64(edgeU[c.intn(len(edgeU))])
}

func genIDs(c *Ctx, n int) []uint64 {
	o := make([]uint64, n)
	switch c.intn(8) {
	case 0: // consecutive
		b := uint64(c.intn(1000))
		for i := range o {
			o[i] = b + uint64(i)
		}
	case 1: // edges
		for i := range o {
			o[i] = edgeU[c.intn(len(edgeU))]
		}
	case 2: // full range
		for i := range o {
			o[i] = c.rng.Uint64()
		}
	case 3: // small, unsorted, duplicates
		for i := range o {
			o[i] = uint64(c.intn(n + 3))
		}
	case 4: // sorted with duplicates
		b := uint64(0)
		for i := range o {
			b += uint64(c.intn(3))
			o[i] = b
		}
	case 5: // descending
		for i := range o {
			o[i] = uint64(10*n - 3*i)
		}
	case 6: // near the top
		for i := range o {
			o[i] = math.MaxUint64 - uint64(c.intn(2*n+1))
		}
	case 7: // mixed magnitudes, sorted
		for i := range o {
			o[i] = c.rng.Uint64() >> uint(c.intn(64))
		}
		sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	}
	return o
}

func genVals(c *Ctx, n int) []int64 {
	o := make([]int64, n)
	switch c.intn(6) {
	case 0:
		for i := range o {
			o[i] = int64(i * 10)
		}
	case 1:
		for i := range o {
			o[i] = edgeI(c)
		}
	case 2:
		for i := range o {
			o[i] = int64(c.rng.Uint64())
		}
	case 3: // all negative
		for i := range o {
			o[i] = -1 - int64(c.intn(1000))
		}
	case 4:
		for i := range o {
			o[i] = int64(c.intn(2001)) - 1000
		}
	case 5:
		for i := range o {
			o[i] = int64(c.rng.Uint64()) >> uint(c.intn(64))
		}
	}
	return o
}

func genRows(c *Ctx, n int) []row {
	ids, vals := genIDs(c, n), genVals(c, n)
	o := make([]row, n)
	for i := range o {
		o[i] = row{ids[i], vals[i]}
	}
	return o
}

// rows whose block image is exactly body bytes long (header and table included), if possible
func fitRows(c *Ctx, e uint32, body int) []row {
	if !varIDs(e) && !varVals(e) {
		n := (body - 80) / 16
		if n < 1 {
			n = 1
		}
		return genRows(c, n)
	}
	var r []row
	size := 80
	add := func(x row) bool {
		r = append(r, x)
		n := rowBytes(e, r, len(r)-1)
		if size+n > body {
			r = r[:len(r)-1]
			return false
		}
		size += n
		return true
	}
	bulk := genRows(c, 1+c.intn(200))
	for _, x := range bulk {
		if !add(x) {
			break
		}
	}
	var last row
	if len(r) > 0 {
		last = r[len(r)-1]
	}
	for i := 0; i < 6000; i++ {
		// coarse steps, then fine
		left := body - size
		if left == 0 {
			break
		}
		x := last
		x.v++
		x.id++
		if left > 300 {
			x.v = last.v ^ int64(c.rng.Uint64()>>uint(8*c.intn(8)))
			x.id = last.id + c.rng.Uint64()>>uint(8*c.intn(8))
		} else if c.chance(0.3) {
			x.v = last.v + 100 + int64(c.intn(100000))
		}
		if !add(x) && c.chance(0.05) && left < 3 && len(r) > 0 {
			size -= rowBytes(e, r, len(r)-1)
			r = r[:len(r)-1]
		}
		if len(r) > 0 {
			last = r[len(r)-1]
		}
	}
	if len(r) == 0 {
		r = genRows(c, 1)
	}
	return r
}

func genCount(c *Ctx) int {
	switch c.intn(12) {
	case 0:
		return 1
	case 1:
		return 2
	case 2, 3:
		return 1 + c.intn(40)
	case 4, 5:
		return []int{246, 247, 248, 250, 251, 252, 253, 501, 502, 503, 507, 1018, 1019, 1020, 1021, 1022, 1023, 1024}[c.intn(18)]
	case 6:
		return 100 + c.intn(700)
	case 7:
		if c.idx > 30 {
			return 1000 + c.intn(4000)
		}
	}
	return 1 + c.intn(12)
}

func genTarget(c *Ctx) uint32 {
	switch c.intn(9) {
	case 0:
		return 0
	case 1:
		return uint32(c.intn(5000))
	case 2:
		return 4096
	case 3:
		return 4032 + uint32(c.intn(130)) // around 4096-64
	case 4:
		return uint32(4096 * (1 + c.intn(8)))
	case 5:
		return uint32(4096*(1+c.intn(8))) + uint32(c.intn(3)) - 1
	case 6:
		return math.MaxUint32
	case 7:
		return uint32(c.intn(70000))
	}
	return 16384
}

type built struct {
	path   string
	enc    uint32
	target uint32
	blocks [][]row
}

// writeSome writes a batch (and possibly what was left over) and returns the rows of the blocks made.
func writeSome(c *Ctx, w *col.Writer, rows []row, rest bool) [][]row {
	var out [][]row
	for len(rows) > 0 {
		err := w.WriteBlock(idsOf(rows), valsOf(rows))
		if bf, ok := err.(*col.BlockFullError); ok {
			n := bf.ItemsWritten
			if n < 1 || n >= len(rows) {
				c.fail("WriteBlock of %d rows reported BlockFullError with ItemsWritten=%d", len(rows), n)
			}
			out = append(out, rows[:n])
			rows = rows[n:]
			if !rest || len(out) > 40 {
				return out
			}
			continue
		}
		if err != nil {
			c.fail("WriteBlock of %d rows failed: %v", len(rows), err)
		}
		out = append(out, rows)
		return out
	}
	return out
}

func (c *Ctx) newWriter(path string, e, target uint32) *col.Writer {
	var opts []col.WriterOption
	opts = append(opts, col.WithEncoding(e), col.WithBlockSize(target))
	if c.chance(0.2) {
		opts[0], opts[1] = opts[1], opts[0]
	}
	w, err := col.NewWriter(path, opts...)
	if err != nil {
		c.fail("NewWriter: %v", err)
	}
	return w
}

type genOpt struct {
	maxBlocks int
	rows      func(c *Ctx) []row
	bigTarget bool
}

func genFile(c *Ctx, o genOpt) built {
	e := uint32(c.intn(8))
	t := genTarget(c)
	if o.bigTarget || c.chance(0.5) {
		t = math.MaxUint32
	}
	b := built{path: c.file(), enc: e, target: t}
	w := c.newWriter(b.path, e, t)
	nb := c.intn(o.maxBlocks + 1)
	pos := 64
	for i := 0; i < nb; i++ {
		var rows []row
		switch {
		case o.rows != nil:
			rows = o.rows(c)
		case c.chance(0.15):
			d := 4096*(1+c.intn(3)) - pos%4096 + c.intn(5) - 2
			if d < 120 {
				d += 4096
			}
			rows = fitRows(c, e, d)
		default:
			rows = genRows(c, genCount(c))
		}
		got := writeSome(c, w, rows, c.chance(0.5))
		b.blocks = append(b.blocks, got...)
		for _, g := range got {
			n := blockBytes(e, g)
			pos += n + pad(pos+n)
		}
	}
	if c.chance(0.5) {
		if err := w.FinalizeAndClose(); err != nil {
			c.fail("FinalizeAndClose: %v", err)
		}
	} else {
		if err := w.Finalize(); err != nil {
			c.fail("Finalize: %v", err)
		}
		if err := w.Close(); err != nil {
			c.fail("Close: %v", err)
		}
	}
	c.note("file %s: encoding %d, target %d, %s", b.path, e, t, descBlocks(b.blocks))
	return b
}

func descBlocks(bs [][]row) string {
	s := fmt.Sprintf("%d blocks", len(bs))
	for i, b := range bs {
		if i >= 6 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" | %d rows %s", len(b), descRows(b))
	}
	return s
}
func descRows(b []row) string {
	s := ""
	for i, r := range b {
		if i >= 8 {
			s += ",..."
			break
		}
		if i > 0 {
			s += ","
		}
		s += fmt.Sprintf("%d:%d", r.id, r.v)
	}
	return s
}

func (c *Ctx) open(path string) *col.Reader {
	r, err := col.NewReader(path)
	if err != nil {
		c.fail("NewReader of a finalized file: %v", err)
	}
	return r
}

// checkRows compares the content a reader delivers with the expected blocks.
func (c *Ctx) checkRows(r *col.Reader, blocks [][]row) {
	if int(r.BlockCount()) != len(blocks) {
		c.fail("BlockCount() = %d, %d blocks were written", r.BlockCount(), len(blocks))
	}
	for i, b := range blocks {
		ids, vals, err := r.GetPairs(uint64(i))
		if err != nil {
			c.fail("GetPairs(%d): %v", i, err)
		}
		if len(ids) != len(b) || len(vals) != len(b) {
			c.fail("GetPairs(%d): %d ids and %d values, %d rows were written", i, len(ids), len(vals), len(b))
		}
		for j := range b {
			if ids[j] != b[j].id || vals[j] != b[j].v {
				c.fail("block %d row %d reads back as (%d,%d), written was (%d,%d)", i, j, ids[j], vals[j], b[j].id, b[j].v)
			}
		}
	}
}
