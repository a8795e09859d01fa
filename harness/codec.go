package main

import (
	"fmt"
	"math"
	"os"
)

// The unexported codec functions, when the overlay could export them (see codec_on.go).
type codecFns struct {
	encodeVarInt       func(uint64) []byte
	decodeVarInt       func([]byte) (uint64, int)
	encodeSignedVarInt func(int64) []byte
	decodeSignedVarInt func([]byte) (int64, int)
	int64ToUint64      func(int64) uint64
	uint64ToInt64      func(uint64) int64
	deltaEncode        func([]uint64) []uint64
	deltaDecode        func([]uint64) []uint64
	deltaEncodeInt64   func([]int64) []int64
	deltaDecodeInt64   func([]int64) []int64
}

var codec *codecFns

func init() { props["C10"] = c10 }

func c10num(c *Ctx) uint64 {
	switch c.intn(4) {
	case 0:
		return edgeU[c.intn(len(edgeU))]
	case 1:
		return uint64(1)<<uint(c.intn(64)) + uint64(c.intn(3)) - 1
	case 2:
		return c.rng.Uint64() >> uint(c.intn(64))
	}
	return c.rng.Uint64()
}

func c10(c *Ctx) {
	c.nontrivial = true
	if codec == nil || c.idx%20 == 19 {
		// through files: ids and values of every magnitude under the varint and delta encodings
		n := 1 + c.intn(60)
		rows := make([]row, n)
		for i := range rows {
			rows[i] = row{c10num(c), int64(c10num(c))}
			if c.chance(0.3) {
				rows[i].v = -rows[i].v
			}
		}
		b := genFile(c, genOpt{maxBlocks: 2, bigTarget: true, rows: func(c *Ctx) []row { return rows }})
		raw, _ := os.ReadFile(b.path)
		env, err := parseEnvelope(raw)
		if err != nil {
			c.fail("%v", err)
		}
		for i, bl := range b.blocks {
			want := buildBlock(b.enc, bl, int(env.entries[i].off))
			got := raw[env.entries[i].off:]
			if len(got) < len(want) || string(got[80:len(want)]) != string(want[80:]) {
				c.fail("sections of block %d are not the canonical encoding of its rows", i)
			}
		}
		r := c.open(b.path)
		defer r.Close()
		c.checkRows(r, b.blocks)
		return
	}
	for k := 0; k < 300; k++ {
		u := c10num(c)
		v := int64(u)
		if c.chance(0.5) {
			v = -v
		}
		one := func(what string, enc []byte, n uint64, dec func([]byte) (string, int), want string) {
			ref := vput(nil, n)
			if string(enc) != string(ref) {
				c.fail("%s encodes as % x, canonical form is % x", what, enc, ref)
			}
			for _, suffix := range [][]byte{nil, {0}, {0x80}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {1, 2, 3}} {
				g, m := dec(append(append([]byte(nil), enc...), suffix...))
				if g != want || m != len(enc) {
					c.fail("%s: % x followed by % x decodes as %s using %d bytes", what, enc, suffix, g, m)
				}
			}
		}
		one(fmt.Sprintf("unsigned %d", u), codec.encodeVarInt(u), u, func(b []byte) (string, int) { x, n := codec.decodeVarInt(b); return fmt.Sprint(x), n }, fmt.Sprint(u))
		one(fmt.Sprintf("signed %d", v), codec.encodeSignedVarInt(v), zigzag(v), func(b []byte) (string, int) { x, n := codec.decodeSignedVarInt(b); return fmt.Sprint(x), n }, fmt.Sprint(v))
		if s := codec.int64ToUint64(v); codec.uint64ToInt64(s) != v || s != stored(v) {
			c.fail("signed %d is stored as %#x and read back as %d", v, s, codec.uint64ToInt64(s))
		}
	}
	n := c.intn(40)
	us, is := make([]uint64, n), make([]int64, n)
	for i := range us {
		us[i] = c10num(c)
		is[i] = int64(c10num(c))
		if i > 0 && c.chance(0.1) {
			is[i] = math.MinInt64
		}
	}
	de, di := codec.deltaEncode(us), codec.deltaEncodeInt64(is)
	if len(de) != n || len(di) != n {
		c.fail("delta coding of %d numbers gives %d and %d", n, len(de), len(di))
	}
	if g := codec.deltaDecode(de); !eqU(g, us) {
		c.fail("delta coding of %v is undone as %v", us, g)
	}
	if g := codec.deltaDecodeInt64(di); !eqI(g, is) {
		c.fail("signed delta coding of %v is undone as %v", is, g)
	}
	for i := range us {
		w, x := us[i], is[i]
		if i > 0 {
			w -= us[i-1]
			x -= is[i-1]
		}
		if de[i] != w || di[i] != x {
			c.fail("delta %d of %v / %v is %d / %d", i, us, is, de[i], di[i])
		}
	}
}
