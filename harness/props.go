package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"runtime"
	"sort"
	"sync"

	"github.com/weaviate/sroar"
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
	props["C04"] = c04
	props["C05"] = c05
	props["C06"] = c06
	props["C07"] = c07
	props["C08"] = c08
	props["C09"] = c09
	props["C14"] = c14
}

func c01(c *Ctx) {
	o := genOpt{maxBlocks: 5}
	if c.idx%40 == 17 {
		n := 100 + c.intn(300)
		o = genOpt{maxBlocks: n, rows: func(c *Ctx) []row { return genRows(c, 1+c.intn(3)) }}
	}
	b := genFile(c, o)
	c.nontrivial = len(b.blocks) > 0
	r := c.open(b.path)
	defer r.Close()
	c.checkRows(r, b.blocks)
	// any order, repeatedly
	for k := 0; k < 3 && len(b.blocks) > 0; k++ {
		i := c.intn(len(b.blocks))
		ids, vals, err := r.GetPairs(uint64(i))
		if err != nil || !eqU(ids, idsOf(b.blocks[i])) || !eqI(vals, valsOf(b.blocks[i])) {
			c.fail("GetPairs(%d) a second time differs (err %v)", i, err)
		}
	}
	if r.EncodingType() != b.enc {
		c.fail("EncodingType() = %d, file was written with %d", r.EncodingType(), b.enc)
	}
}

func (c *Ctx) checkAgg(what string, got col.AggregateResult, s stats, all bool) {
	if got.Count != s.count || got.Sum != s.sum {
		c.fail("%s: count %d sum %d, rows give count %d sum %d", what, got.Count, got.Sum, s.count, s.sum)
	}
	if s.count > 0 || all {
		if got.Min != s.min || got.Max != s.max || !eqF(got.Avg, avgOf(s)) {
			c.fail("%s: min %d max %d avg %v, rows give min %d max %d avg %v", what, got.Min, got.Max, got.Avg, s.min, s.max, avgOf(s))
		}
	}
}

func c02(c *Ctx) {
	b := genFile(c, genOpt{maxBlocks: 6})
	c.nontrivial = len(b.blocks) > 0
	raw, _ := os.ReadFile(b.path)
	env, err := parseEnvelope(raw)
	if err != nil {
		c.fail("finalized file has no valid envelope: %v", err)
	}
	if len(env.entries) != len(b.blocks) {
		c.fail("footer has %d entries, %d blocks were written", len(env.entries), len(b.blocks))
	}
	for i, e := range env.entries {
		s := statsOf(b.blocks[i])
		if e.minID != s.minID || e.maxID != s.maxID || e.minVal != stored(s.min) || e.maxVal != stored(s.max) || e.sum != stored(s.sum) || int(e.count) != s.count {
			c.fail("statistics of block %d in the footer are %+v, rows give %+v (stored min %#x max %#x sum %#x)", i, e, s, stored(s.min), stored(s.max), stored(s.sum))
		}
		if int(e.off)+44 > len(raw) {
			c.fail("block %d has offset %d in a file of %d bytes", i, e.off, len(raw))
		}
		h := raw[e.off:]
		le := binary.LittleEndian
		if le.Uint64(h) != s.minID || le.Uint64(h[8:]) != s.maxID || le.Uint64(h[16:]) != stored(s.min) || le.Uint64(h[24:]) != stored(s.max) || le.Uint64(h[32:]) != stored(s.sum) || int(le.Uint32(h[40:])) != s.count {
			c.fail("statistics in the header of block %d are not those of its rows", i)
		}
	}
	r := c.open(b.path)
	defer r.Close()
	s := statsOf(flat(b.blocks))
	m := r.Aggregate()
	o := col.DefaultAggregateOptions()
	o.SkipPreCalculated = true
	f := r.AggregateWithOptions(o)
	if m != f && s.count > 0 {
		c.fail("aggregate from stored statistics %+v differs from full scan %+v", m, f)
	}
	c.checkAgg("aggregate from stored statistics", m, s, false)
	c.checkAgg("aggregate by full scan", f, s, false)
	c.checkAgg("aggregate with default options", r.AggregateWithOptions(col.DefaultAggregateOptions()), s, false)
}

// genSet makes an id set relevant for the rows.
func genSet(c *Ctx, rows []row) (*sroar.Bitmap, map[uint64]bool) {
	m := map[uint64]bool{}
	b := sroar.NewBitmap()
	add := func(x uint64) { b.Set(x); m[x] = true }
	switch c.intn(7) {
	case 0: // empty
	case 1: // one id, or a neighbour
		if len(rows) > 0 {
			add(rows[c.intn(len(rows))].id + uint64(c.intn(3)) - 1)
		} else {
			add(uint64(c.intn(10)))
		}
	case 2: // all
		for _, r := range rows {
			add(r.id)
		}
	case 3: // strangers only
		for i := 0; i < 5; i++ {
			add(c.rng.Uint64())
		}
	case 4: // edges
		for _, x := range edgeU {
			if c.chance(0.3) {
				add(x)
			}
		}
	default:
		p := c.rng.Float64()
		for _, r := range rows {
			if c.chance(p) {
				add(r.id)
			}
		}
		for i := c.intn(4); i > 0; i-- {
			add(c.rng.Uint64() >> uint(c.intn(64)))
		}
	}
	return b, m
}

type filt struct {
	allow, deny   *sroar.Bitmap
	am, dm        map[uint64]bool
}

func genFilters(c *Ctx, blocks [][]row) filt {
	var f filt
	rows := flat(blocks)
	if len(blocks) > 1 && c.chance(0.4) {
		// around one block's range
		rows = blocks[c.intn(len(blocks))]
		s := statsOf(rows)
		var e []row
		for _, r := range rows {
			if r.id == s.minID || r.id == s.maxID {
				e = append(e, r)
			}
		}
		if c.chance(0.5) {
			rows = e
		}
	}
	k := c.intn(4)
	if k != 1 {
		f.allow, f.am = genSet(c, rows)
	}
	if k != 0 {
		if c.chance(0.5) {
			rows = flat(blocks)
		}
		f.deny, f.dm = genSet(c, rows)
	}
	c.note("allow %s deny %s", descSet(f.am), descSet(f.dm))
	return f
}
func descSet(m map[uint64]bool) string {
	if m == nil {
		return "absent"
	}
	k := sortedKeys(m)
	s := fmt.Sprintf("{%d ids:", len(k))
	for i, x := range k {
		if i > 10 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" %d", x)
	}
	return s + "}"
}
func (f filt) sel(rows []row) []row {
	var o []row
	for _, r := range rows {
		if (f.am == nil || f.am[r.id]) && !f.dm[r.id] {
			o = append(o, r)
		}
	}
	return o
}

func smallRows(c *Ctx) []row {
	n := 1 + c.intn(12)
	if c.chance(0.1) {
		n = 200 + c.intn(200)
	}
	return genRows(c, n)
}

func c03(c *Ctx) {
	b := genFile(c, genOpt{maxBlocks: 7, rows: smallRows, bigTarget: c.chance(0.7)})
	r := c.open(b.path)
	defer r.Close()
	for k := 0; k < 8; k++ {
		f := genFilters(c, b.blocks)
		want := f.sel(flat(b.blocks))
		c.nontrivial = c.nontrivial || len(want) > 0
		o := col.DefaultAggregateOptions()
		o.Filter, o.DenyFilter = f.allow, f.deny
		o.SkipPreCalculated = c.chance(0.5)
		c.checkAgg("filtered aggregate", r.AggregateWithOptions(o), statsOf(want), false)
		c.log = c.log[:len(c.log)-1]
	}
}

var raceMode = false

func c04(c *Ctx) {
	o := genOpt{maxBlocks: 12, rows: smallRows, bigTarget: true}
	if c.idx%10 == 3 {
		o.maxBlocks = 70
		o.rows = func(c *Ctx) []row { return genRows(c, 1+c.intn(3)) }
	}
	b := genFile(c, o)
	c.nontrivial = len(b.blocks) > 1
	r := c.open(b.path)
	defer r.Close()
	n := len(b.blocks)
	workers := []int{-1, 1, 2, 3, 4, 5, 7, 8, n - 1, n, n + 1, 2*n + 1, n/2 + 1, 64, 1000, math.MinInt, math.MaxInt, -7}
	old := runtime.GOMAXPROCS(0)
	if c.chance(0.3) {
		runtime.GOMAXPROCS(1 + c.intn(8))
	}
	defer runtime.GOMAXPROCS(old)
	for k := 0; k < 4; k++ {
		var f filt
		if k > 0 {
			f = genFilters(c, b.blocks)
		}
		for _, skip := range []bool{false, true} {
			o := col.AggregateOptions{SkipPreCalculated: skip, Filter: f.allow, DenyFilter: f.deny}
			want := r.AggregateWithOptions(o)
			c.checkAgg("sequential aggregate", want, statsOf(f.sel(flat(b.blocks))), false)
			for _, w := range workers {
				o.Parallel = w
				got := r.AggregateWithOptions(o)
				if got != want {
					c.fail("%d workers (skip=%v): %+v, sequential: %+v", w, skip, got, want)
				}
			}
		}
	}
}

func c05(c *Ctx) {
	nf := c.intn(6)
	pool := genIDs(c, 1+c.intn(20))
	var files []built
	for i := 0; i < nf; i++ {
		o := genOpt{maxBlocks: 3, bigTarget: true, rows: func(c *Ctx) []row {
			rows := smallRows(c)
			if c.chance(0.85) {
				for j := range rows {
					if c.chance(0.8) {
						rows[j].id = pool[c.intn(len(pool))]
					}
				}
			}
			return rows
		}}
		if c.chance(0.1) {
			o.maxBlocks = 0
		}
		files = append(files, genFile(c, o))
	}
	var rs []*col.Reader
	for _, f := range files {
		r := c.open(f.path)
		defer r.Close()
		if c.chance(0.3) {
			r.EnableGlobalIDBitmapCaching()
		}
		rs = append(rs, r)
	}
	mr := multicol.NewMultiReader(rs)
	for k := 0; k < 4; k++ {
		opts := multicol.AggregateOptions{SkipPreCalculated: c.chance(0.5)}
		var am map[uint64]bool
		if c.chance(0.6) {
			var all []row
			for _, f := range files {
				all = append(all, flat(f.blocks)...)
			}
			opts.Filter, am = genSet(c, all)
		}
		newer := map[uint64]bool{}
		var want []row
		for i := nf - 1; i >= 0; i-- {
			for _, r := range flat(files[i].blocks) {
				if !newer[r.id] && (am == nil || am[r.id]) {
					want = append(want, r)
				}
			}
			for _, r := range flat(files[i].blocks) {
				newer[r.id] = true
			}
		}
		got, err := mr.Aggregate(opts)
		if err != nil {
			c.fail("MultiReader.Aggregate: %v", err)
		}
		c.nontrivial = c.nontrivial || len(want) > 0
		c.note("allow %s", descSet(am))
		c.checkAgg(fmt.Sprintf("aggregate over %d files", nf), got, statsOf(want), nf == 0)
		c.log = c.log[:len(c.log)-1]
	}
}

func c06(c *Ctx) {
	e := uint32(c.intn(8))
	t := genTarget(c)
	path := c.file()
	w := c.newWriter(path, e, t)
	var blocks [][]row
	nb := c.intn(7)
	for i := 0; i < nb; i++ {
		switch c.intn(6) {
		case 0: // a refused write
			ids := genIDs(c, 2+c.intn(3))
			if w.WriteBlock(ids, make([]int64, len(ids)-1)) == nil {
				c.fail("WriteBlock accepted different numbers of ids and values")
			}
		case 1:
			if w.WriteBlock(nil, nil) == nil {
				c.fail("WriteBlock accepted an empty block")
			}
		default:
			blocks = append(blocks, writeSome(c, w, genRows(c, genCount(c)), c.chance(0.5))...)
		}
	}
	if err := w.FinalizeAndClose(); err != nil {
		c.fail("FinalizeAndClose: %v", err)
	}
	c.note("encoding %d target %d, %s", e, t, descBlocks(blocks))
	c.nontrivial = len(blocks) > 0
	want := idSet(blocks)
	r := c.open(path)
	defer r.Close()
	for k := 0; k < 6; k++ {
		op := c.intn(4)
		switch op {
		case 0:
			r.EnableGlobalIDBitmapCaching()
			c.note("enable caching")
		case 1:
			r.DisableGlobalIDBitmapCaching()
			c.note("disable caching")
		case 2:
			r.Aggregate()
			if len(blocks) > 0 {
				r.GetPairs(0)
			}
		}
		bm, err := r.GetGlobalIDBitmap()
		if err != nil {
			c.fail("GetGlobalIDBitmap: %v", err)
		}
		c.note("ask")
		got := bm.ToArray()
		if !eqU(got, want) {
			c.fail("reported id set has %d ids %v, the blocks contain %d ids %v", len(got), head(got), len(want), head(want))
		}
		for _, x := range want {
			if !bm.Contains(x) {
				c.fail("reported id set does not contain %d", x)
			}
		}
	}
}
func head(x []uint64) []uint64 {
	if len(x) > 12 {
		return x[:12]
	}
	return x
}

// walkBlocks lists the blocks present in an unfinished file: start, row count, body size.
func walkBlocks(b []byte) (counts []int, err error) {
	le := binary.LittleEndian
	pos := 64
	for pos < len(b) {
		if pos+80 > len(b) {
			return counts, fmt.Errorf("incomplete block at %d (file %d bytes)", pos, len(b))
		}
		n := int(le.Uint32(b[pos+40:]))
		is, vs := int(le.Uint32(b[pos+68:])), int(le.Uint32(b[pos+76:]))
		end := pos + 80 + is + vs
		end += pad(end)
		if end > len(b) {
			return counts, fmt.Errorf("block at %d reaches to %d (file %d bytes)", pos, end, len(b))
		}
		counts = append(counts, n)
		pos = end
	}
	return counts, nil
}

func c07(c *Ctx) {
	e := uint32(c.intn(8))
	path := c.file()
	opts := []col.WriterOption{col.WithEncoding(e)}
	t0 := genTarget(c)
	if c.chance(0.5) {
		opts = append(opts, col.WithBlockSize(t0))
		c.note("WithBlockSize(%d)", t0)
	}
	w, err := col.NewSimpleWriter(path, opts...)
	if err != nil {
		c.fail("NewSimpleWriter: %v", err)
	}
	c.note("encoding %d", e)
	total := 0
	var batches [][]row
	checkTotal := func(when string) {
		b, _ := os.ReadFile(path)
		counts, err := walkBlocks(b)
		if err != nil {
			c.fail("%s: %v", when, err)
		}
		n := 0
		for _, k := range counts {
			n += k
		}
		if w.TotalItems() != uint64(n) {
			c.fail("%s: TotalItems() = %d, blocks in the file hold %d rows", when, w.TotalItems(), n)
		}
		if n > total {
			c.fail("%s: %d rows in blocks, only %d were submitted", when, n, total)
		}
	}
	nb := c.intn(8)
	for i := 0; i < nb; i++ {
		if c.chance(0.15) {
			t := genTarget(c)
			if err := w.SetTargetBlockSize(int(t)); err != nil {
				c.fail("SetTargetBlockSize: %v", err)
			}
			c.note("SetTargetBlockSize(%d)", t)
		}
		var rows []row
		switch c.intn(8) {
		case 0:
		case 1:
			rows = genRows(c, 998+c.intn(4))
		case 2:
			rows = genRows(c, 1000+c.intn(1500))
		case 3:
			rows = genRows(c, 300+c.intn(500))
		default:
			rows = genRows(c, 1+c.intn(30))
		}
		if c.chance(0.4) {
			sort.SliceStable(rows, func(a, b int) bool { return rows[a].id < rows[b].id })
		}
		if c.chance(0.1) {
			if w.Write(idsOf(genRows(c, 3)), []int64{1, 2}) == nil {
				c.fail("Write accepted different numbers of ids and values")
			}
		}
		ids, vals := idsOf(rows), valsOf(rows)
		if err := w.Write(ids, vals); err != nil {
			c.fail("Write of %d rows: %v", len(rows), err)
		}
		c.note("Write %d rows %s", len(rows), descRows(rows))
		total += len(rows)
		if len(rows) > 0 {
			batches = append(batches, rows)
		}
		if w.IsClosed() {
			c.fail("IsClosed() before Close")
		}
		checkTotal(fmt.Sprintf("after write %d", i+1))
	}
	if err := w.Close(); err != nil {
		c.fail("Close: %v", err)
	}
	c.nontrivial = total > 0
	if w.TotalItems() != uint64(total) {
		c.fail("TotalItems() after Close = %d, %d rows were submitted", w.TotalItems(), total)
	}
	before, _ := os.ReadFile(path)
	if err := w.Close(); err != nil {
		c.fail("second Close: %v", err)
	}
	if w.Write([]uint64{1}, []int64{1}) == nil {
		c.fail("Write after Close succeeded")
	}
	if w.Write(nil, nil) == nil {
		c.fail("Write of nothing after Close succeeded")
	}
	if !w.IsClosed() || w.TotalItems() != uint64(total) {
		c.fail("state after a refused write: closed %v, total %d", w.IsClosed(), w.TotalItems())
	}
	after, _ := os.ReadFile(path)
	if !bytes.Equal(before, after) {
		c.fail("closing twice or writing after close changed the file")
	}
	r := c.open(path)
	defer r.Close()
	var got []row
	for i := uint64(0); i < r.BlockCount(); i++ {
		ids, vals, err := r.GetPairs(i)
		if err != nil {
			c.fail("GetPairs(%d): %v", i, err)
		}
		for j := range ids {
			got = append(got, row{ids[j], vals[j]})
		}
	}
	if len(got) != total {
		c.fail("the file holds %d rows, %d were submitted", len(got), total)
	}
	p := 0
	for bi, b := range batches {
		g := append([]row(nil), got[p:p+len(b)]...)
		p += len(b)
		sorted := sort.SliceIsSorted(b, func(i, j int) bool { return b[i].id < b[j].id })
		if sorted {
			for j := range b {
				if g[j] != b[j] {
					c.fail("batch %d row %d: (%d,%d) in the file, submitted was (%d,%d)", bi, j, g[j].id, g[j].v, b[j].id, b[j].v)
				}
			}
			continue
		}
		for j := 1; j < len(g); j++ {
			if g[j].id < g[j-1].id {
				c.fail("unsorted batch %d is not sorted by id in the file (row %d)", bi, j)
			}
		}
		w := append([]row(nil), b...)
		less := func(x []row) func(i, j int) bool {
			return func(i, j int) bool { return x[i].id < x[j].id || x[i].id == x[j].id && x[i].v < x[j].v }
		}
		sort.Slice(w, less(w))
		sort.Slice(g, less(g))
		for j := range w {
			if g[j] != w[j] {
				c.fail("batch %d: the file holds (%d,%d) where (%d,%d) was submitted", bi, g[j].id, g[j].v, w[j].id, w[j].v)
			}
		}
	}
}

func fileSize(p string) int {
	st, err := os.Stat(p)
	if err != nil {
		return -1
	}
	return int(st.Size())
}

func c08(c *Ctx) {
	e := uint32(c.intn(8))
	t := genTarget(c)
	if t > 60000 && c.chance(0.8) {
		t = uint32(4096 * (1 + c.intn(4)))
	}
	path := c.file()
	w := c.newWriter(path, e, t)
	c.note("encoding %d target %d", e, t)
	nb := 1 + c.intn(4)
	var blocks [][]row
	for i := 0; i < nb; i++ {
		pos := fileSize(path)
		var rows []row
		if c.chance(0.5) {
			want := int(t) - c.intn(40)
			if c.chance(0.5) {
				want = int(t) - pos%4096 + c.intn(5) - 2
			}
			if want < 100 || want > 100000 {
				want = 4096
			}
			rows = fitRows(c, e, want)
			if c.chance(0.5) {
				rows = append(rows, genRows(c, 1+c.intn(20))...)
			}
		} else {
			rows = genRows(c, genCount(c))
		}
		ids, vals := idsOf(rows), valsOf(rows)
		est, err := w.EstimateBlockSize(ids, vals)
		if err != nil {
			c.fail("EstimateBlockSize: %v", err)
		}
		body := blockBytes(e, rows)
		full := body + pad(pos+body)
		c.note("at %d: %d rows %s, announced %d", pos, len(rows), descRows(rows), est)
		if int(est) != full {
			c.fail("EstimateBlockSize = %d at position %d, the block occupies %d", est, pos, full)
		}
		// longest prefix that fits
		want := len(rows)
		if uint64(full) > uint64(t) && len(rows) > 1 {
			want = 1
			bl := 80 + rowBytes(e, rows, 0)
			for k := 2; k < len(rows); k++ {
				bl += rowBytes(e, rows, k-1)
				if bl+pad(pos+bl) <= int(t) {
					want = k
				} else {
					break
				}
			}
		}
		c.nontrivial = c.nontrivial || want < len(rows)
		err = w.WriteBlock(ids, vals)
		n := len(rows)
		if bf, ok := err.(*col.BlockFullError); ok {
			n = bf.ItemsWritten
		} else if err != nil {
			c.fail("WriteBlock: %v", err)
		}
		if n != want {
			c.fail("WriteBlock of %d rows at position %d, target %d, reported %d rows written; the longest fitting prefix has %d", len(rows), pos, t, n, want)
		}
		size := fileSize(path) - pos
		bl := blockBytes(e, rows[:n])
		if size != bl+pad(pos+bl) {
			c.fail("block of %d rows occupies %d bytes, its rows need %d", n, size, bl+pad(pos+bl))
		}
		if n > 1 && uint64(size) > uint64(t) {
			c.fail("block of %d rows occupies %d bytes, target is %d", n, size, t)
		}
		if n == len(rows) && size != int(est) {
			c.fail("announced %d bytes, block occupies %d", est, size)
		}
		blocks = append(blocks, rows[:n])
	}
	if err := w.FinalizeAndClose(); err != nil {
		c.fail("FinalizeAndClose: %v", err)
	}
	r := c.open(path)
	defer r.Close()
	c.checkRows(r, blocks)
}

func c09(c *Ctx) {
	o := genOpt{maxBlocks: 5}
	if c.idx%50 == 33 {
		o = genOpt{maxBlocks: 400, rows: func(c *Ctx) []row { return genRows(c, 1+c.intn(2)) }}
	}
	b := genFile(c, o)
	c.nontrivial = len(b.blocks) > 0
	raw, _ := os.ReadFile(b.path)
	if len(raw) < 64 {
		c.fail("finalized file has %d bytes", len(raw))
	}
	off := binary.LittleEndian.Uint64(raw[44:])
	var bm []byte
	if off+4 <= uint64(len(raw)) {
		n := binary.LittleEndian.Uint32(raw[off:])
		if off+4+uint64(n) <= uint64(len(raw)) {
			bm = raw[off+4 : off+4+uint64(n)]
		} else {
			c.fail("id set of %d bytes at %d reaches past the end (%d)", n, off, len(raw))
		}
	} else {
		c.fail("id set offset %d outside the file (%d bytes)", off, len(raw))
	}
	want := buildFile(b.enc, b.target, b.blocks, bm)
	if len(raw) != len(want) {
		c.fail("file has %d bytes, the documented layout gives %d", len(raw), len(want))
	}
	for i := range raw {
		if i >= 36 && i < 44 {
			continue // creation time
		}
		if raw[i] != want[i] {
			c.fail("byte %d is %#x, the documented layout gives %#x (file of %d bytes)", i, raw[i], want[i], len(raw))
		}
	}
	cp := append([]byte(nil), bm...)
	if got := sroar.FromBuffer(cp).ToArray(); !eqU(got, idSet(b.blocks)) {
		c.fail("the stored id set is not the set of ids written")
	}
}

func c14(c *Ctx) {
	switch c.idx % 3 {
	case 0:
		c14write(c)
	default:
		c14read(c)
	}
}

func c14write(c *Ctx) {
	// plain writer
	e := uint32(c.intn(8))
	t := genTarget(c)
	path := c.file()
	w := c.newWriter(path, e, t)
	c.note("encoding %d target %d", e, t)
	var blocks [][]row
	for i := 0; i < 1+c.intn(3); i++ {
		rows := genRows(c, genCount(c))
		ids, vals := idsOf(rows), valsOf(rows)
		xi := append(make([]uint64, 0, len(ids)+8), ids...)
		xv := append(make([]int64, 0, len(vals)+8), vals...)
		spareI, spareV := xi[len(ids):cap(xi)], xv[len(vals):cap(xv)]
		w.EstimateBlockSize(xi, xv)
		err := w.WriteBlock(xi, xv)
		n := len(rows)
		if bf, ok := err.(*col.BlockFullError); ok {
			n = bf.ItemsWritten
		} else if err != nil {
			c.fail("WriteBlock: %v", err)
		}
		if !eqU(xi, ids) || !eqI(xv, vals) {
			c.fail("WriteBlock changed the caller's slices")
		}
		for k := range spareI {
			if spareI[k] != 0 || spareV[k] != 0 {
				c.fail("WriteBlock wrote behind the caller's slices")
			}
		}
		for k := range xi {
			xi[k] ^= 0x55555
			xv[k] ^= 0x33333
		}
		blocks = append(blocks, rows[:n])
	}
	if err := w.FinalizeAndClose(); err != nil {
		c.fail("FinalizeAndClose: %v", err)
	}
	r := c.open(path)
	c.checkRows(r, blocks)
	bm, err := r.GetGlobalIDBitmap()
	if err != nil || !eqU(bm.ToArray(), idSet(blocks)) {
		c.fail("id set differs after the caller changed its slices (err %v)", err)
	}
	r.Close()
	// buffering writer
	c.nontrivial = true
	path = c.file()
	sw, err := col.NewSimpleWriter(path, col.WithEncoding(e))
	if err != nil {
		c.fail("NewSimpleWriter: %v", err)
	}
	want := map[row]int{}
	nb := 1 + c.intn(5)
	for i := 0; i < nb; i++ {
		rows := genRows(c, 1+c.intn(600))
		ids, vals := idsOf(rows), valsOf(rows)
		if c.chance(0.3) {
			sort.Slice(rows, func(a, b int) bool { return rows[a].id < rows[b].id })
			ids, vals = idsOf(rows), valsOf(rows)
		}
		xi := append(make([]uint64, 0, len(ids)+2000), ids...)
		xv := append(make([]int64, 0, len(vals)+2000), vals...)
		if err := sw.Write(xi, xv); err != nil {
			c.fail("Write: %v", err)
		}
		c.note("Write %d rows", len(rows))
		if !eqU(xi, ids) || !eqI(xv, vals) {
			c.fail("SimpleWriter.Write changed the caller's slices")
		}
		xi, xv = xi[:cap(xi)], xv[:cap(xv)]
		for k := len(ids); k < len(xi); k++ {
			if xi[k] != 0 || xv[k] != 0 {
				c.fail("SimpleWriter.Write wrote behind the caller's slices")
			}
		}
		for k := range xi {
			xi[k] = ^xi[k]
			xv[k] = ^xv[k]
		}
		for _, r := range rows {
			want[r]++
		}
	}
	if err := sw.Close(); err != nil {
		c.fail("Close: %v", err)
	}
	r = c.open(path)
	defer r.Close()
	for i := uint64(0); i < r.BlockCount(); i++ {
		ids, vals, err := r.GetPairs(i)
		if err != nil {
			c.fail("GetPairs: %v", err)
		}
		for k := range ids {
			x := row{ids[k], vals[k]}
			if want[x] == 0 {
				c.fail("row (%d,%d) in the file was not submitted (the caller's slices were changed after Write)", x.id, x.v)
			}
			want[x]--
		}
	}
}

func c14read(c *Ctx) {
	b := genFile(c, genOpt{maxBlocks: 5, rows: smallRows, bigTarget: true})
	b2 := genFile(c, genOpt{maxBlocks: 3, rows: smallRows, bigTarget: true})
	c.nontrivial = len(b.blocks) > 0
	before, _ := os.ReadFile(b.path)
	st0, _ := os.Stat(b.path)
	r, r2 := c.open(b.path), c.open(b2.path)
	defer r.Close()
	defer r2.Close()
	f := genFilters(c, b.blocks)
	snap := func(m *sroar.Bitmap) []byte {
		if m == nil {
			return nil
		}
		return append([]byte(nil), m.ToBuffer()...)
	}
	sa, sd := snap(f.allow), snap(f.deny)
	var aa, ad []uint64
	if f.allow != nil {
		aa = f.allow.ToArray()
	}
	if f.deny != nil {
		ad = f.deny.ToArray()
	}
	mr := multicol.NewMultiReader([]*col.Reader{r2, r})
	type op struct {
		name string
		do   func() string
	}
	var ops []op
	for i := range b.blocks {
		i := uint64(i)
		ops = append(ops, op{fmt.Sprintf("GetPairs(%d)", i), func() string {
			ids, vals, err := r.GetPairs(i)
			s := fmt.Sprint(ids, vals, err)
			for k := range ids { // the result belongs to the caller
				ids[k], vals[k] = 7, 7
			}
			return s
		}})
	}
	for _, w := range []int{0, -1, 2, 3} {
		for _, skip := range []bool{false, true} {
			for _, fl := range []bool{false, true} {
				o := col.AggregateOptions{Parallel: w, SkipPreCalculated: skip}
				if fl {
					o.Filter, o.DenyFilter = f.allow, f.deny
				}
				ops = append(ops, op{fmt.Sprintf("Aggregate(workers %d, skip %v, filters %v)", w, skip, fl), func() string { return fmt.Sprint(r.AggregateWithOptions(o)) }})
			}
		}
	}
	ops = append(ops, op{"FilteredBlockIterator", func() string {
		x := r.FilteredBlockIterator(f.allow, f.deny)
		s := fmt.Sprint(x)
		for k := range x {
			x[k] = 99
		}
		return s
	}})
	ops = append(ops, op{"GetGlobalIDBitmap", func() string {
		bm, err := r.GetGlobalIDBitmap()
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(bm.ToArray())
	}})
	ops = append(ops, op{"BlockCount/EncodingType/Version/DebugInfo", func() string { return fmt.Sprint(r.BlockCount(), r.EncodingType(), r.Version(), r.DebugInfo()) }})
	for _, fl := range []bool{false, true} {
		o := multicol.AggregateOptions{}
		if fl {
			o.Filter = f.allow
		}
		ops = append(ops, op{fmt.Sprintf("MultiReader.Aggregate(filter %v)", fl), func() string { x, err := mr.Aggregate(o); return fmt.Sprint(x, err) }})
	}
	first := make([]string, len(ops))
	for i, o := range ops {
		first[i] = o.do()
	}
	for k := 0; k < 2*len(ops); k++ {
		i := c.intn(len(ops))
		if s := ops[i].do(); s != first[i] {
			c.fail("%s gave %s, asked again after other reads %s", ops[i].name, first[i], s)
		}
	}
	var wg sync.WaitGroup
	bad := make(chan string, 8)
	for g := 0; g < 4; g++ {
		order := c.rng.Perm(len(ops))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					select {
					case bad <- fmt.Sprint("panic in a concurrent read: ", e):
					default:
					}
				}
			}()
			for _, i := range order {
				if s := ops[i].do(); s != first[i] {
					select {
					case bad <- fmt.Sprintf("%s gave %s alone, %s concurrently with other reads", ops[i].name, first[i], s):
					default:
					}
				}
			}
		}()
	}
	wg.Wait()
	select {
	case s := <-bad:
		c.fail("%s", s)
	default:
	}
	if !bytes.Equal(snap(f.allow), sa) || !bytes.Equal(snap(f.deny), sd) {
		c.fail("a filter passed in was changed")
	}
	if f.allow != nil && !eqU(f.allow.ToArray(), aa) || f.deny != nil && !eqU(f.deny.ToArray(), ad) {
		c.fail("a filter passed in was changed")
	}
	after, _ := os.ReadFile(b.path)
	st1, _ := os.Stat(b.path)
	if !bytes.Equal(before, after) || !st0.ModTime().Equal(st1.ModTime()) {
		c.fail("reading changed the file")
	}
}
