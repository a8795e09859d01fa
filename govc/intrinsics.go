package main

// Trusted contracts of the primitives outside the repository.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var big64 = big.NewInt(64)

type intrinsic func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome

var intrinsics map[string]intrinsic

func one1(st *State, v Val) []outcome { return []outcome{{st, v}} }

func (x *Exec) someErr(st *State, kind string) IfaceV {
	e := IfaceV{tag: x.c.Fresh("err.tag", SK("nat")), pay: x.c.Fresh("err.pay", SInt)}
	st.assume(x.c.And(x.c.Not(x.c.Eq(e.tag, x.c.Zero)), x.c.Lt(e.tag, x.c.I(repoTag))))
	return e
}

func (x *Exec) fget(st *State, key string, f *Term) *Term {
	s := SK("len")
	switch key {
	case "file.content":
		s = SMem
	case "file.synced", "file.open":
		s = SInt
	}
	return x.c.Select(x.H(st, key, s), f)
}
func (x *Exec) fset(st *State, key string, f, v *Term) {
	x.fget(st, key, f)
	x.checkKeyWrite(st, key, f)
	st.heap[key] = x.c.Store(st.heap[key], f, v)
}

// openSplit: the operation fails on a closed file
func (x *Exec) openSplit(st *State, f *Term, fails func(st *State) outcome) (ok *State, outs []outcome) {
	c := x.c
	open := c.Eq(x.fget(st, "file.open", f), c.One)
	if st.quick(open) {
		return st, nil
	}
	st2 := st.clone()
	c.known = st2
	st2.assume(c.Not(open))
	if !st2.dead {
		outs = append(outs, fails(st2))
	}
	c.known = st
	st.assume(open)
	return st, outs
}

func (x *Exec) writeBytes(st *State, f *Term, n *Term, put func(content, pos *Term) *Term) {
	c := x.c
	pos := x.fget(st, "file.pos", f)
	size := x.fget(st, "file.size", f)
	x.fset(st, "file.content", f, put(x.fget(st, "file.content", f), pos))
	end := c.Add(pos, n)
	st.assume(c.Le(end, c.IB(pow2(47))))
	x.fset(st, "file.size", f, c.Max(size, end))
	x.fset(st, "file.pos", f, end)
	x.fset(st, "file.synced", f, c.Zero)
}

// writeOp: complete write, plus the failing alternatives
func (x *Exec) writeOp(st *State, f, n *Term, put func(content, pos *Term) *Term, ret func(st *State, n *Term, err IfaceV) Val) []outcome {
	c := x.c
	st, outs := x.openSplit(st, f, func(s *State) outcome { return outcome{s, ret(s, c.Zero, x.someErr(s, "closed"))} })
	if x.faults {
		bad := st.clone()
		c.known = bad
		bad.trace = append(bad.trace, "write fails")
		k := c.Fresh("written", SK("len"))
		bad.assume(c.Le(k, n))
		junk := c.Fresh("partial", SMem)
		x.writeBytes(bad, f, k, func(content, pos *Term) *Term { return c.Blit(content, pos, junk, c.Zero, k) })
		outs = append(outs, outcome{bad, ret(bad, k, x.someErr(bad, "write"))})
		c.known = st
	}
	x.writeBytes(st, f, n, put)
	return append(outs, outcome{st, ret(st, n, x.nilErr())})
}

func (x *Exec) littleEndianTag(v Val) bool {
	i, ok := v.(IfaceV)
	if !ok || i.tag.op != OInt {
		return false
	}
	t := x.tagTypes[i.tag.iv.Int64()]
	return t != nil && strings.HasSuffix(types.TypeString(t, nil), "binary.littleEndian")
}

func (x *Exec) unsigned(k string, t *Term) *Term {
	if k[0] == 'i' {
		return x.c.Wrap("u"+k[1:], t)
	}
	return t
}

func lePut(w int64) intrinsic {
	return func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
		b := args[1].(SliceV)
		v := x.scalar(args[2])
		c := x.c
		x.oblige(st, "safety", "index in range", x.pos(in), c.Le(c.I(w), b.len))
		if x.bv {
			unsup("encoding/binary in bit-vector mode")
		}
		x.checkWrite(st, x.elemPtr(b, c.Zero))
		key := "[]" + tname(b.elem)
		h := x.H(st, key, SMem)
		st.heap[key] = c.Store(h, b.ref, c.Wr(c.Select(h, b.ref), b.off, c.I(w), v))
		return one1(st, TupleV{})
	}
}
func leGet(w int64) intrinsic {
	return func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
		b := args[1].(SliceV)
		c := x.c
		x.oblige(st, "safety", "index in range", x.pos(in), c.Le(c.I(w), b.len))
		if x.bv {
			unsup("encoding/binary in bit-vector mode")
		}
		key := "[]" + tname(b.elem)
		return one1(st, c.Rd(c.Select(x.H(st, key, SMem), b.ref), b.off, c.I(w)))
	}
}
func leAppend(w int64) intrinsic {
	return func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
		b := args[1].(SliceV)
		v := x.scalar(args[2])
		c := x.c
		if x.bv {
			unsup("encoding/binary in bit-vector mode")
		}
		t := x.makeSlice(st, b.elem, c.I(w), c.I(w))
		key := "[]" + tname(b.elem)
		h := x.H(st, key, SMem)
		st.heap[key] = c.Store(h, t.ref, c.Wr(c.Select(h, t.ref), c.Zero, c.I(w), v))
		return one1(st, x.appendSlice(st, b, t, x.pos(in)))
	}
}

func (x *Exec) bset(st *State, bm *Term) *Term {
	return x.c.Select(x.H(st, "bitmap.set", SArr(SBool)), bm)
}
func (x *Exec) setBset(st *State, bm, v *Term) {
	h := x.H(st, "bitmap.set", SArr(SBool))
	x.checkKeyWrite(st, "bitmap.set", bm)
	st.heap["bitmap.set"] = x.c.Store(h, bm, v)
}
func (x *Exec) bmPtr(v Val, ref *Term) PtrV {
	p := v.(PtrV)
	return PtrV{root: p.root, ref: ref, typ: p.typ}
}

func (x *Exec) openFile(st *State, fn *ssa.Function, content, size *Term) PtrV {
	c := x.c
	ref := c.Alloc()
	x.fset(st, "file.content", ref, content)
	x.fset(st, "file.size", ref, size)
	x.fset(st, "file.pos", ref, c.Zero)
	x.fset(st, "file.synced", ref, c.One)
	x.fset(st, "file.open", ref, c.One)
	return x.ptrTo(ref, fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
}

func (x *Exec) nilOf(fn *ssa.Function, i int) Val { return x.zero(fn.Signature.Results().At(i).Type()) }

func init() {
	pure := func(mk func(x *Exec, st *State, args []Val, fn *ssa.Function) Val) intrinsic {
		return func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			return one1(st, mk(x, st, args, fn))
		}
	}
	newErr := pure(func(x *Exec, st *State, args []Val, fn *ssa.Function) Val { return x.someErr(st, "err") })
	fref := func(x *Exec, v Val) *Term { return x.scalar(v) }

	intrinsics = map[string]intrinsic{
		"fmt.Errorf": newErr,
		"errors.New": newErr,
		"runtime.GOMAXPROCS": pure(func(x *Exec, st *State, args []Val, fn *ssa.Function) Val {
			n := x.c.Fresh("procs", SK("i64"))
			st.assume(x.c.Le(x.c.One, n))
			return n
		}),
		"runtime.NumCPU": pure(func(x *Exec, st *State, args []Val, fn *ssa.Function) Val {
			n := x.c.Fresh("cpus", SK("i64"))
			st.assume(x.c.Le(x.c.One, n))
			return n
		}),
		"math.Float64frombits": pure(func(x *Exec, st *State, args []Val, fn *ssa.Function) Val {
			return x.c.App("f64frombits", SFlt, x.scalar(args[0]))
		}),

		"(encoding/binary.littleEndian).PutUint16":    lePut(2),
		"(encoding/binary.littleEndian).PutUint32":    lePut(4),
		"(encoding/binary.littleEndian).PutUint64":    lePut(8),
		"(encoding/binary.littleEndian).Uint16":       leGet(2),
		"(encoding/binary.littleEndian).Uint32":       leGet(4),
		"(encoding/binary.littleEndian).Uint64":       leGet(8),
		"(encoding/binary.littleEndian).AppendUint16": leAppend(2),
		"(encoding/binary.littleEndian).AppendUint32": leAppend(4),
		"(encoding/binary.littleEndian).AppendUint64": leAppend(8),

		"encoding/binary.Write": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			if !x.littleEndianTag(args[1]) {
				unsup("binary.Write with another byte order at %s", x.pos(in))
			}
			w := args[0].(IfaceV)
			if w.tag.op != OInt || tname(x.tagTypes[w.tag.iv.Int64()]) != "*os.File" {
				unsup("binary.Write to something else than a file at %s", x.pos(in))
			}
			d := args[2].(IfaceV)
			if d.tag.op != OInt {
				unsup("binary.Write of a value of unknown type at %s", x.pos(in))
			}
			t := x.tagTypes[d.tag.iv.Int64()]
			k := kindOf(t)
			if k == "" || isPlainInt(t) {
				unsup("binary.Write of %s at %s", t, x.pos(in))
			}
			var v *Term
			if d.dyn != nil {
				v = x.scalar(d.dyn)
			} else {
				v = d.pay
			}
			n := c.I(int64(kindW(k) / 8))
			v = x.unsigned(k, v)
			return x.writeOp(st, w.pay, n, func(m, p *Term) *Term { return c.Wr(m, p, n, v) }, func(st *State, n *Term, err IfaceV) Val { return err })
		},
		"encoding/binary.Uvarint": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			b := args[0].(SliceV)
			c := x.c
			if x.bv {
				unsup("binary.Uvarint in bit-vector mode")
			}
			m := c.Select(x.H(st, "[]"+tname(b.elem), SMem), b.ref)
			v := c.App("uvdec", SK("u64"), m, b.off, b.len)
			n := c.App("uvlen", SK("i64"), m, b.off, b.len)
			st.assume(c.Le(n, b.len))
			st.assume(c.Le(c.I(-11), n))
			st.assume(c.Le(n, c.I(10)))
			x.assumed["encoding/binary.Uvarint decodes canonical varints"] = true
			return one1(st, TupleV{v, n})
		},

		"os.Open": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			bad := st.clone()
			c.known = bad
			o := outcome{bad, TupleV{x.nilOf(fn, 0), x.someErr(bad, "open")}}
			c.known = st
			name := x.scalar(args[0])
			sz := c.App("disk.size", SK("len"), name)
			x.allocBoundVar()
			st.assume(c.Le(sz, x.allocLim))
			st.assume(c.Le(sz, c.IB(pow2(47))))
			f := x.openFile(st, fn, c.App("disk.content", SMem, name), sz)
			return []outcome{o, {st, TupleV{f, x.nilErr()}}}
		},
		"os.Create": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			bad := st.clone()
			c.known = bad
			o := outcome{bad, TupleV{x.nilOf(fn, 0), x.someErr(bad, "create")}}
			c.known = st
			f := x.openFile(st, fn, c.Zeros(), c.Zero)
			return []outcome{o, {st, TupleV{f, x.nilErr()}}}
		},
		"(*os.File).Write": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			b := args[1].(SliceV)
			src := c.Select(x.H(st, "[]"+tname(b.elem), SMem), b.ref)
			return x.writeOp(st, fref(x, args[0]), b.len, func(m, p *Term) *Term { return c.Blit(m, p, src, b.off, b.len) },
				func(st *State, n *Term, err IfaceV) Val { return TupleV{n, err} })
		},
		"(*os.File).Seek": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			f := fref(x, args[0])
			st, outs := x.openSplit(st, f, func(s *State) outcome { return outcome{s, TupleV{c.Zero, x.someErr(s, "closed")}} })
			off, wh := x.scalar(args[1]), x.scalar(args[2])
			if wh.op != OInt {
				unsup("Seek whence")
			}
			var np *Term
			switch wh.iv.Int64() {
			case 0:
				np = off
			case 1:
				np = c.Add(x.fget(st, "file.pos", f), off)
			case 2:
				np = c.Add(x.fget(st, "file.size", f), off)
			default:
				unsup("Seek whence")
			}
			neg := c.Lt(np, c.Zero)
			if x.faults || !st.quick(c.Not(neg)) {
				bad := st.clone()
				c.known = bad
				bad.trace = append(bad.trace, "seek fails")
				if !x.faults {
					bad.assume(neg)
				}
				if !bad.dead {
					outs = append(outs, outcome{bad, TupleV{c.Zero, x.someErr(bad, "seek")}})
				}
				c.known = st
			}
			st.assume(c.Not(neg))
			if st.dead {
				return outs
			}
			st.assume(c.Le(np, c.IB(pow2(47))))
			x.fset(st, "file.pos", f, np)
			return append(outs, outcome{st, TupleV{np, x.nilErr()}})
		},
		"(*os.File).Sync": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			f := fref(x, args[0])
			st, outs := x.openSplit(st, f, func(s *State) outcome { return outcome{s, x.someErr(s, "closed")} })
			if x.faults {
				bad := st.clone()
				c.known = bad
				bad.trace = append(bad.trace, "sync fails")
				outs = append(outs, outcome{bad, x.someErr(bad, "sync")})
				c.known = st
			}
			x.fset(st, "file.synced", f, c.One)
			return append(outs, outcome{st, x.nilErr()})
		},
		"(*os.File).Close": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			f := fref(x, args[0])
			st, outs := x.openSplit(st, f, func(s *State) outcome { return outcome{s, x.someErr(s, "closed")} })
			x.fset(st, "file.open", f, c.Zero)
			if x.faults {
				bad := st.clone()
				c.known = bad
				bad.trace = append(bad.trace, "close fails")
				outs = append(outs, outcome{bad, x.someErr(bad, "close")})
				c.known = st
			}
			return append(outs, outcome{st, x.nilErr()})
		},
		"(*os.File).ReadAt": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			f := fref(x, args[0])
			b := args[1].(SliceV)
			off := x.scalar(args[2])
			st, outs := x.openSplit(st, f, func(s *State) outcome { return outcome{s, TupleV{c.Zero, x.someErr(s, "closed")}} })
			size := x.fget(st, "file.size", f)
			ok := c.And(c.Le(c.Zero, off), c.Or(c.Le(c.Add(off, b.len), size), c.Eq(b.len, c.Zero)))
			key := "[]" + tname(b.elem)
			if x.mode == "hostile" || !st.quick(ok) {
				bad := st.clone()
				c.known = bad
				bad.trace = append(bad.trace, "read fails")
				if x.mode != "hostile" {
					bad.assume(c.Not(ok))
				}
				if !bad.dead {
					n := c.Fresh("n", SK("len"))
					bad.assume(c.Le(n, b.len))
					x.checkWrite(bad, x.elemPtr(b, c.Zero))
					h := x.H(bad, key, SMem)
					// the first n bytes are those of the file, the rest of the buffer is unspecified
					bad.assume(c.Or(c.Eq(n, c.Zero), c.And(c.Le(c.Zero, off), c.Le(c.Add(off, n), x.fget(bad, "file.size", f)))))
					m := c.Blit(c.Select(h, b.ref), b.off, c.Fresh("short", SMem), c.Zero, b.len)
					bad.heap[key] = c.Store(h, b.ref, c.Blit(m, b.off, x.fget(bad, "file.content", f), off, n))
					outs = append(outs, outcome{bad, TupleV{n, x.someErr(bad, "read")}})
				}
				c.known = st
			}
			st.assume(ok)
			if st.dead {
				return outs
			}
			x.checkWrite(st, x.elemPtr(b, c.Zero))
			h := x.H(st, key, SMem)
			st.heap[key] = c.Store(h, b.ref, c.Blit(c.Select(h, b.ref), b.off, x.fget(st, "file.content", f), off, b.len))
			return append(outs, outcome{st, TupleV{b.len, x.nilErr()}})
		},
		"(*os.File).Stat": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			f := fref(x, args[0])
			bad := st.clone()
			c.known = bad
			o := outcome{bad, TupleV{x.nilOf(fn, 0), x.someErr(bad, "stat")}}
			c.known = st
			open := c.Eq(x.fget(st, "file.open", f), c.One)
			st.assume(open)
			return []outcome{o, {st, TupleV{IfaceV{tag: c.I(x.nameTag("fileinfo")), pay: f}, x.nilErr()}}}
		},
		"invoke fs.FileInfo.Size": pure(func(x *Exec, st *State, args []Val, fn *ssa.Function) Val {
			return x.fget(st, "file.size", args[0].(IfaceV).pay)
		}),

		"(*sync.WaitGroup).Add": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			if st.gor != nil {
				x.oblige(st, "safety", "WaitGroup.Add before the goroutine starts", x.pos(in), c.False)
			}
			r := x.wgRef(args[0])
			h := x.H(st, "wg.n", SInt)
			n := c.Add(c.Select(h, r), x.scalar(args[1]))
			x.oblige(st, "safety", "WaitGroup counter not negative", x.pos(in), c.Le(c.Zero, n))
			st.heap["wg.n"] = c.Store(h, r, n)
			return one1(st, TupleV{})
		},
		"(*sync.WaitGroup).Done": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			r := x.wgRef(args[0])
			h := x.H(st, "wg.n", SInt)
			n := c.Sub(c.Select(h, r), c.One)
			x.oblige(st, "safety", "WaitGroup counter not negative", x.pos(in), c.Le(c.Zero, n))
			st.heap["wg.n"] = c.Store(h, r, n)
			if st.gor != nil {
				g := *st.gor
				g.done = true
				st.gor = &g
			}
			return one1(st, TupleV{})
		},
		"(*sync.WaitGroup).Wait": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			r := x.wgRef(args[0])
			h := x.H(st, "wg.n", SInt)
			x.oblige(st, "termination", "WaitGroup.Wait returns: every Add has its Done", x.pos(in), c.Eq(c.Select(h, r), c.Zero))
			st.heap["gor.live"] = c.Store(x.H(st, "gor.live", SInt), c.Zero, c.Zero)
			return one1(st, TupleV{})
		},

		"github.com/weaviate/sroar.NewBitmap": pure(func(x *Exec, st *State, args []Val, fn *ssa.Function) Val {
			c := x.c
			ref := c.Alloc()
			x.setBset(st, ref, c.ConstArr(c.False, SArr(SBool)))
			return x.ptrTo(ref, fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		}),
		"(*github.com/weaviate/sroar.Bitmap).Set": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			b := x.scalar(args[0])
			x.nonnil(st, b, in)
			s := x.bset(st, b)
			x.setBset(st, b, c.Store(s, x.scalar(args[1]), c.True))
			return one1(st, c.Fresh("isnew", SBool))
		},
		"(*github.com/weaviate/sroar.Bitmap).Contains": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			b := x.scalar(args[0])
			return one1(st, c.And(c.Not(c.Eq(b, c.Zero)), c.Select(x.bset(st, b), x.scalar(args[1]))))
		},
		"(*github.com/weaviate/sroar.Bitmap).Minimum": bextreme(true),
		"(*github.com/weaviate/sroar.Bitmap).Maximum": bextreme(false),
		"(*github.com/weaviate/sroar.Bitmap).Or": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			a, b := x.scalar(args[0]), x.scalar(args[1])
			x.nonnil(st, a, in)
			u := x.bunion(st, x.bset(st, a), c.Ite(c.Eq(b, c.Zero), c.ConstArr(c.False, SArr(SBool)), x.bset(st, b)))
			x.setBset(st, a, u)
			return one1(st, args[0])
		},
		"(*github.com/weaviate/sroar.Bitmap).Clone": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			a := x.scalar(args[0])
			x.nonnil(st, a, in)
			ref := c.Alloc()
			x.setBset(st, ref, x.bset(st, a))
			return one1(st, x.bmPtr(args[0], ref))
		},
		"(*github.com/weaviate/sroar.Bitmap).IsEmpty": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			a := x.scalar(args[0])
			e := c.Fresh("empty", SBool)
			k := c.BoundVar("k")
			s := x.bset(st, a)
			w := c.Fresh("wit", SK("u64"))
			st.assume(c.Imp(e, c.Or(c.Eq(a, c.Zero), c.Forall(k, c.Not(c.Select(s, k))))))
			st.assume(c.Or(e, c.And(c.Not(c.Eq(a, c.Zero)), c.Select(s, w))))
			return one1(st, e)
		},
		"(*github.com/weaviate/sroar.Bitmap).ToBuffer": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			a := x.scalar(args[0])
			x.nonnil(st, a, in)
			s := x.bset(st, a)
			n := c.App("bm.len", SK("len"), s)
			st.assume(c.Le(n, c.IB(pow2(31))))
			st.assume(c.Eq(c.Mod(n, c.I(2)), c.Zero))
			r := x.makeSlice(st, types.Typ[types.Byte], n, n)
			code := c.App("bm.code", SInt, s)
			key := "[]" + tname(types.Typ[types.Byte])
			h := x.H(st, key, SMem)
			st.heap[key] = c.Store(h, r.ref, c.Wr(c.Select(h, r.ref), c.Zero, n, code))
			st.assume(c.Eq(c.App("bm.set", SArr(SBool), code, n), s))
			x.assumed["sroar: FromBuffer(ToBuffer(b)) is the same set"] = true
			return one1(st, r)
		},
		"github.com/weaviate/sroar.FromBuffer": func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
			c := x.c
			b := args[0].(SliceV)
			x.oblige(st, "safety", "sroar.FromBuffer needs an even number of bytes", x.pos(in), c.Eq(c.Mod(b.len, c.I(2)), c.Zero))
			m := c.Select(x.H(st, "[]"+tname(b.elem), SMem), b.ref)
			s := c.App("bm.set", SArr(SBool), c.Rd(m, b.off, b.len), b.len)
			ref := c.Alloc()
			x.setBset(st, ref, s)
			return one1(st, x.ptrTo(ref, fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()))
		},
		"sort.Slice": sortSlice,
	}
	intrinsics["invoke os.FileInfo.Size"] = intrinsics["invoke fs.FileInfo.Size"]
	intrinsics["sort.SliceStable"] = intrinsics["sort.Slice"]
	// signed and other integer helpers
	_ = fmt.Sprint
}

func (x *Exec) allocBoundVar() {
	if x.allocLim == nil {
		sv := x.c.epoch
		x.c.epoch = 1
		x.allocLim = x.c.Var("alloclim", SK("len"))
		x.c.epoch = sv
	}
}

func (x *Exec) wgRef(v Val) *Term {
	p := v.(PtrV)
	if p.path != "" || !isAlloc(p.ref) {
		unsup("WaitGroup that is not a local variable")
	}
	return p.ref
}

func (x *Exec) bunion(st *State, a, b *Term) *Term {
	c := x.c
	u := c.App("bm.union", SArr(SBool), a, b)
	k := c.BoundVar("k")
	st.assume(c.Forall(k, c.Eq(c.Select(u, k), c.Or(c.Select(a, k), c.Select(b, k))), c.Select(u, k)))
	return u
}

func bextreme(min bool) intrinsic {
	return func(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
		c := x.c
		b := x.scalar(args[0])
		x.nonnil(st, b, in)
		s := x.bset(st, b)
		k := c.BoundVar("k")
		n := "bm.max"
		if min {
			n = "bm.min"
		}
		v := c.App(n, SK("u64"), s)
		le := c.Le(k, v)
		if min {
			le = c.Le(v, k)
		}
		st.assume(c.Forall(k, c.Or(c.Not(c.Select(s, k)), le)))
		return one1(st, v)
	}
}

// sortSlice: the elements are permuted
func sortSlice(x *Exec, st *State, args []Val, in ssa.Instruction, fn *ssa.Function) []outcome {
	c := x.c
	iv := args[0].(IfaceV)
	s, ok := iv.dyn.(SliceV)
	if !ok {
		unsup("sort.Slice of unknown slice at %s", x.pos(in))
	}
	c.epoch++
	x.loopN++
	id := fmt.Sprintf("%d", c.epoch)
	perm := func(t *Term) *Term { return c.App("perm#"+id, SInt, t) }
	inv := func(t *Term) *Term { return c.App("pinv#"+id, SInt, t) }
	k := c.BoundVar("k")
	inr := func(t *Term) *Term { return c.And(c.Le(c.Zero, t), c.Lt(t, s.len)) }
	x.checkWrite(st, x.elemPtr(s, c.Zero))
	st.assume(c.Forall(k, c.Or(c.Not(inr(k)), c.And(inr(perm(k)), c.Eq(inv(perm(k)), k)))))
	st.assume(c.Forall(k, c.Or(c.Not(inr(k)), c.And(inr(inv(k)), c.Eq(perm(inv(k)), k)))))
	for _, l := range x.leaves(s.elem) {
		key := "[]" + tname(s.elem) + l.suf
		h := x.H(st, key, SArr(l.sort))
		old := c.Select(h, s.ref)
		nw := c.Fresh("sorted"+l.suf, SArr(l.sort))
		st.heap[key] = c.Store(h, s.ref, nw)
		st.assume(c.Forall(k, c.Or(c.Not(inr(k)), c.Eq(c.Select(nw, c.Add(s.off, k)), c.Select(old, c.Add(s.off, perm(k)))))))
		st.assume(c.Forall(k, c.Or(c.Not(inr(k)), c.Eq(c.Select(nw, c.Add(s.off, inv(k))), c.Select(old, c.Add(s.off, k))))))
	}
	x.assumed["sort.Slice permutes the elements"] = true
	return one1(st, TupleV{})
}
