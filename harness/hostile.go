package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"runtime"
	"strings"

	"vibe-lsm/pkg/col"
)

func init() {
	props["C11"] = c11
	props["C12"] = c12
	props["C13"] = c13
}

func interesting(c *Ctx, size int) uint64 {
	switch c.intn(7) {
	case 0:
		return uint64(c.intn(6))
	case 1:
		return uint64(size) + uint64(c.intn(200)) - 100
	case 2:
		return edgeU[c.intn(len(edgeU))]
	case 3:
		return math.MaxUint64 - uint64(c.intn(size+100))
	case 4:
		return math.MaxInt64 - uint64(c.intn(size+100))
	case 5:
		return uint64(c.intn(size + 1))
	}
	return c.rng.Uint64() >> uint(c.intn(64))
}

// interesting32 stays near the true value more often, so that several checks are passed
func near(c *Ctx, v uint64, size int) uint64 {
	switch c.intn(4) {
	case 0:
		return v + uint64(c.intn(5)) - 2
	case 1:
		return v + uint64(c.intn(70)) - 35
	}
	return interesting(c, size)
}

func put32(c *Ctx, b []byte, off int, what string) {
	if off < 0 || off+4 > len(b) {
		return
	}
	v := uint32(near(c, uint64(binary.LittleEndian.Uint32(b[off:])), len(b)))
	binary.LittleEndian.PutUint32(b[off:], v)
	c.note("%s (offset %d) := %d", what, off, v)
}
func put64(c *Ctx, b []byte, off int, what string) {
	if off < 0 || off+8 > len(b) {
		return
	}
	v := near(c, binary.LittleEndian.Uint64(b[off:]), len(b))
	binary.LittleEndian.PutUint64(b[off:], v)
	c.note("%s (offset %d) := %d", what, off, v)
}

// hostile makes a file: a valid one, mutated.  focus: "envelope", "block" or "".
func hostile(c *Ctx, focus string) []byte {
	if focus != "block" && c.chance(0.08) {
		// from scratch
		n := c.intn(260)
		b := make([]byte, n)
		if c.chance(0.5) {
			c.rng.Read(b)
		}
		if n >= 12 && c.chance(0.8) {
			binary.LittleEndian.PutUint64(b, magic)
			binary.LittleEndian.PutUint32(b[8:], 1)
		}
		if n >= 24 && c.chance(0.8) {
			binary.LittleEndian.PutUint64(b[n-8:], magic)
			binary.LittleEndian.PutUint64(b[n-24:], interesting(c, n))
		}
		c.note("%d bytes made from scratch", n)
		return b
	}
	e := uint32(c.intn(8))
	nb := c.intn(4)
	if focus == "block" && nb == 0 {
		nb = 1
	}
	var blocks [][]row
	for i := 0; i < nb; i++ {
		n := 1 + c.intn(12)
		if c.chance(0.1) {
			n = 200 + c.intn(200)
		}
		if c.chance(0.1) {
			blocks = append(blocks, fitRows(c, e, 4032+c.intn(3)-1))
			continue
		}
		blocks = append(blocks, genRows(c, n))
	}
	b := buildFile(e, 16384, blocks, []byte{})
	c.note("valid file, encoding %d, %s, then:", e, descBlocks(blocks))
	env, err := parseEnvelope(b)
	if err != nil {
		c.fail("harness error: %v", err)
	}
	tight := focus == "block" && c.chance(0.3)
	if tight {
		// blocks without padding: the value section ends exactly where the block ends
		for i := range blocks {
			binary.LittleEndian.PutUint32(b[env.footerStart+4+56*i+8:], uint32(blockBytes(e, blocks[i])))
		}
		c.note("block sizes without padding")
	}
	nm := 1 + c.intn(3)
	if focus == "" && c.chance(0.1) {
		nm = 0
	}
	for k := 0; k < nm; k++ {
		kind := c.intn(12)
		switch focus {
		case "block":
			kind = []int{0, 1, 2, 3, 4, 4, 4, 5, 5, 5, 6, 11}[kind]
		case "envelope":
			kind = []int{0, 4, 6, 7, 7, 8, 8, 8, 9, 9, 10, 11}[kind]
		}
		var bi int
		if nb > 0 {
			bi = c.intn(nb)
		}
		fe := env.footerStart + 4 + 56*bi
		switch kind {
		case 0: // flip bytes anywhere
			for j := 1 + c.intn(4); j > 0; j-- {
				p := c.intn(len(b))
				b[p] = byte(c.rng.Intn(256))
				c.note("byte %d := %#x", p, b[p])
			}
		case 1: // damage the sections of a block
			if nb > 0 {
				o := int(env.entries[bi].off) + 80
				l := blockBytes(e, blocks[bi]) - 80
				for j := 1 + c.intn(4); j > 0; j-- {
					p := o + c.intn(l)
					if p < len(b) {
						b[p] = []byte{0xff, 0x80, 0, byte(c.rng.Intn(256))}[c.intn(4)]
						c.note("section byte %d := %#x", p, b[p])
					}
				}
			}
		case 2: // long runs of continuation bytes
			if nb > 0 {
				o := int(env.entries[bi].off) + 80 + c.intn(blockBytes(e, blocks[bi])-80)
				n := 1 + c.intn(25)
				for j := 0; j < n && o+j < len(b); j++ {
					b[o+j] = 0xff
				}
				c.note("%d bytes 0xff at %d", n, o)
			}
		case 3: // cut the last bytes of the value section off
			if nb > 0 {
				v := binary.LittleEndian.Uint32(b[fe+8:])
				d := uint32(c.intn(20))
				binary.LittleEndian.PutUint32(b[fe+8:], v-d)
				c.note("block %d size := %d", bi, v-d)
			}
		case 4: // index entry
			if nb > 0 {
				switch c.intn(4) {
				case 0:
					if c.chance(0.2) {
						// wraps into the file when taken as a signed number
						v := -uint64(c.intn(80 + 1))
						binary.LittleEndian.PutUint64(b[fe:], v)
						c.note("index offset := %d", v)
						break
					}
					put64(c, b, fe, "index offset")
				case 1:
					put32(c, b, fe+8, "index size")
				case 2:
					put32(c, b, fe+52, "index count")
				case 3:
					put64(c, b, fe+12+8*c.intn(5), "index statistics")
				}
			}
		case 5: // section table
			if nb > 0 {
				o := int(env.entries[bi].off) + 64 + 4*c.intn(4)
				put32(c, b, o, "section table")
			}
		case 6:
			put32(c, b, 32, "encoding")
			if c.chance(0.7) {
				v := uint32(c.intn(9))
				binary.LittleEndian.PutUint32(b[32:], v)
				c.note("encoding := %d", v)
			}
		case 7: // header fields
			f := []int{0, 8, 12, 16, 24, 28, 36, 44, 52, 60}[c.intn(10)]
			if f == 0 || f == 16 || f == 36 || f == 44 || f == 52 {
				put64(c, b, f, "header field")
			} else {
				put32(c, b, f, "header field")
			}
		case 8: // trailer
			f := []int{24, 16, 8}[c.intn(3)]
			put64(c, b, len(b)-f, "trailer field")
		case 9: // announced number of entries
			put32(c, b, len(b)-24-int(env.footerLen), "footer block count")
		case 10: // truncate / extend
			if c.chance(0.6) {
				n := c.intn(len(b) + 1)
				if c.chance(0.5) {
					n = len(b) - c.intn(100)
				}
				if n < 0 {
					n = 0
				}
				b = b[:n]
				c.note("truncated to %d bytes", n)
				if c.chance(0.5) && n >= 24 {
					binary.LittleEndian.PutUint64(b[n-8:], magic)
					binary.LittleEndian.PutUint64(b[n-24:], interesting(c, n))
					c.note("new trailer")
				}
				return b
			}
			x := make([]byte, c.intn(100))
			b = append(b, x...)
			c.note("%d zero bytes appended", len(x))
			return b
		case 11: // shorten the footer, or move its start
			n := uint64(c.intn(int(env.footerLen) + 80))
			binary.LittleEndian.PutUint64(b[len(b)-24:], n)
			c.note("footer length := %d", n)
		}
		if len(b) == 0 {
			return b
		}
	}
	return b
}

func (c *Ctx) allocs(what string, size, times int, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	limit := uint64(times) * (uint64(size)*100 + 1<<17)
	if d := b.TotalAlloc - a.TotalAlloc; d > limit {
		c.fail("%s allocated %d bytes for a file of %d bytes", what, d, size)
	}
}

func c11(c *Ctx) {
	focus := []string{"", "", "envelope", "block", "block"}[c.intn(5)]
	raw := hostile(c, focus)
	path := c.file()
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		c.fail("%v", err)
	}
	var r *col.Reader
	var err error
	c.allocs("NewReader", len(raw), 1, func() { r, err = col.NewReader(path) })
	if err != nil {
		if r != nil {
			c.fail("NewReader returned an error and a reader")
		}
		return
	}
	c.nontrivial = true
	defer r.Close()
	n := r.BlockCount()
	if n > uint64(len(raw)) {
		c.fail("BlockCount() = %d for a file of %d bytes", n, len(raw))
	}
	idx := []uint64{n, n + 1, math.MaxUint64, 1 << 63, 1<<63 - 1, 1 << 32, n + 1<<32}
	for i := uint64(0); i < n && i < 40; i++ {
		idx = append(idx, i)
	}
	for _, i := range idx {
		c.note("GetPairs(%d)", i)
		c.allocs(fmt.Sprintf("GetPairs(%d)", i), len(raw), 1, func() {
			ids, vals, err := r.GetPairs(i)
			if err == nil && i >= n {
				c.fail("GetPairs(%d) succeeded with %d blocks", i, n)
			}
			if err == nil && len(ids) != len(vals) {
				c.fail("GetPairs(%d): %d ids, %d values", i, len(ids), len(vals))
			}
		})
	}
	for _, w := range []int{0, 2, 3, -1, math.MaxInt} {
		for _, skip := range []bool{false, true} {
			c.note("Aggregate(workers %d, skip %v)", w, skip)
			c.allocs("Aggregate", len(raw), int(n)+2, func() {
				r.AggregateWithOptions(col.AggregateOptions{Parallel: w, SkipPreCalculated: skip})
			})
		}
	}
	r.Aggregate()
}

func c12(c *Ctx) {
	raw := hostile(c, "block")
	path := c.file()
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		c.fail("%v", err)
	}
	r, err := col.NewReader(path)
	if err != nil {
		return
	}
	defer r.Close()
	env, perr := parseEnvelope(raw)
	if perr != nil {
		return // C13's business
	}
	for i := range env.entries {
		ids, vals, err := r.GetPairs(uint64(i))
		if err != nil {
			continue
		}
		c.nontrivial = true
		if env.enc > 7 {
			continue
		}
		wi, wv, over, werr := decodeBlock(raw, env, i)
		if werr != nil {
			c.fail("GetPairs(%d) returned %d rows for a block that has none: %v", i, len(ids), werr)
		}
		if len(ids) != int(env.entries[i].count) || len(vals) != len(ids) {
			c.fail("GetPairs(%d) returned %d ids and %d values, the index announces %d", i, len(ids), len(vals), env.entries[i].count)
		}
		if over {
			continue // a varint of more than 64 bits: its low bits or an error
		}
		for j := range wi {
			if ids[j] != wi[j] || vals[j] != wv[j] {
				c.fail("GetPairs(%d) row %d is (%d,%d), the bytes of the block say (%d,%d)", i, j, ids[j], vals[j], wi[j], wv[j])
			}
		}
	}
}

func fromStored(u uint64) int64 {
	if u>>63 == 0 {
		return int64(u)
	}
	if u == 1<<63 {
		return math.MinInt64
	}
	return -int64(u & (1<<63 - 1))
}

func c13(c *Ctx) {
	focus := "envelope"
	if c.chance(0.2) {
		focus = ""
	}
	var raw []byte
	switch {
	case c.chance(0.3):
		raw = flipEnvelope(c)
	case c.chance(0.005):
		raw = manyEntries(c)
	default:
		raw = hostile(c, focus)
	}
	path := c.file()
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		c.fail("%v", err)
	}
	r, err := col.NewReader(path)
	if err != nil {
		return
	}
	defer r.Close()
	c.nontrivial = true
	env, perr := parseEnvelope(raw)
	if perr != nil {
		c.fail("NewReader opened the file: %v", perr)
	}
	if r.BlockCount() != uint64(len(env.entries)) {
		c.fail("BlockCount() = %d, the footer announces %d entries", r.BlockCount(), len(env.entries))
	}
	if r.EncodingType() != env.enc || r.Version() != env.version {
		c.fail("EncodingType() = %d Version() = %d, the file says %d and %d", r.EncodingType(), r.Version(), env.enc, env.version)
	}
	var lines []string
	k := 0
	if len(env.entries) <= 1500 {
		lines = strings.Split(r.DebugInfo(), "\n")
	}
	for i, e := range env.entries {
		for ; k < len(lines) && !strings.HasPrefix(strings.TrimSpace(lines[k]), fmt.Sprintf("Block %d:", i)); k++ {
		}
		if k+2 >= len(lines) {
			break
		}
		got := strings.TrimSpace(lines[k]) + " " + strings.TrimSpace(lines[k+1]) + " " + strings.TrimSpace(lines[k+2])
		want := fmt.Sprintf("Block %d: Offset=%d, Size=%d, Count=%d ID range: %d-%d Value range: %d-%d, Sum=%d", i, e.off, e.size, e.count, e.minID, e.maxID, fromStored(e.minVal), fromStored(e.maxVal), fromStored(e.sum))
		if got != want {
			c.fail("entry %d is reported as %q, the file says %q", i, got, want)
		}
	}
	// the aggregate from stored statistics shows the entries as well
	if n := len(env.entries); n > 0 {
		a := r.Aggregate()
		var cnt int
		var sum int64
		mn, mx := int64(math.MaxInt64), int64(math.MinInt64)
		for _, e := range env.entries {
			cnt += int(e.count)
			sum += fromStored(e.sum)
			mn = min(mn, fromStored(e.minVal))
			mx = max(mx, fromStored(e.maxVal))
		}
		if a.Count != cnt || a.Sum != sum || cnt > 0 && (a.Min != mn || a.Max != mx) {
			c.fail("aggregate from stored statistics %+v, the entries of the file give count %d sum %d min %d max %d", a, cnt, sum, mn, mx)
		}
	}
}

// flipEnvelope flips one bit of one of the fields that make a file acceptable.
func flipEnvelope(c *Ctx) []byte {
	var blocks [][]row
	for i := c.intn(3); i > 0; i-- {
		blocks = append(blocks, genRows(c, 1+c.intn(4)))
	}
	b := buildFile(uint32(c.intn(8)), 16384, blocks, []byte{})
	n := len(b)
	f := [][2]int{{0, 8}, {8, 4}, {n - 8, 8}, {n - 24, 8}, {n - 16, 8}, {n - 24 - 4 - 56*len(blocks), 4}}[c.intn(6)]
	p, bit := f[0]+c.intn(f[1]), c.intn(8)
	b[p] ^= 1 << bit
	c.note("valid file of %d blocks and %d bytes, bit %d of byte %d flipped", len(blocks), n, bit, p)
	return b
}

// manyEntries is a file with a large index and no blocks.
func manyEntries(c *Ctx) []byte {
	n := []int{255, 256, 257, 1000, 1171, 1300, 4096, 20000, 66000, 70000, 150000}[c.intn(11)]
	b := buildFile(uint32(c.intn(8)), 16384, nil, []byte{})
	foot := len(b) - 28
	idx := make([]byte, 4+56*n)
	c.rng.Read(idx)
	binary.LittleEndian.PutUint32(idx, uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint32(idx[4+56*i+52:], uint32(i%1000+1))
	}
	out := append(append([]byte(nil), b[:foot]...), idx...)
	out = append(out, make([]byte, 24)...)
	binary.LittleEndian.PutUint64(out[len(out)-24:], uint64(len(idx)))
	binary.LittleEndian.PutUint64(out[len(out)-8:], magic)
	c.note("index of %d random entries", n)
	return out
}
