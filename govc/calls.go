package main

// Calls: builtins, intrinsics, contracts, inlining, goroutines and channels.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type outcome struct {
	st *State
	v  Val
}

type CallK func(st *State, v Val, more bool)

func (x *Exec) call(st *State, fr *Frame, cc *ssa.CallCommon, in ssa.Instruction, k CallK) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		v := x.builtin(st, fr, b.Name(), in, cc)
		k(st, v, false)
		return
	}
	if cc.IsInvoke() {
		x.invoke(st, fr, cc, in, k)
		return
	}
	fv := x.get(fr, cc.Value)
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.get(fr, a))
	}
	x.callVal(st, fr, cc, fv, args, in, k)
}

func (x *Exec) deliver(outs []outcome, k CallK) {
	for i, o := range outs {
		if o.st.dead {
			continue
		}
		x.c.known = o.st
		k(o.st, o.v, len(outs) > 1 && i >= 0)
	}
}

func fnKey(fn *ssa.Function) string {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	return shortFn(f)
}

func resultVal(res []Val, sig *types.Signature) Val {
	switch len(res) {
	case 0:
		return TupleV{}
	case 1:
		return res[0]
	}
	return TupleV(res)
}

func (x *Exec) callVal(st *State, fr *Frame, cc *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction, k CallK) {
	f, ok := fv.(FuncV)
	if !ok {
		unsup("call of %T", fv)
	}
	sig := cc.Signature()
	if f.fn == nil {
		x.opaqueCall(st, f, args, in, sig, k)
		return
	}
	key := fnKey(f.fn)
	if h := intrinsics[key]; h != nil {
		outs := h(x, st, args, in, f.fn)
		x.deliver(outs, k)
		return
	}
	if con := x.contractFor(f.fn); con != nil {
		x.deliver(x.applyContract(st, con, f.fn, args, in), k)
		return
	}
	if len(f.fn.Blocks) == 0 || !x.pg.inlinable(f.fn) {
		if pureExternal(key) {
			x.assumed["opaque "+pkgOf(key)] = true
			k(st, x.freshResults(st, sig), false)
			return
		}
		unsup("call of %s (no contract, not inlinable) at %s", key, x.pos(in))
	}
	x.inline(st, fr, f, args, in, k)
}

func pkgOf(key string) string { return key }

func (x *Exec) freshResults(st *State, sig *types.Signature) Val {
	x.c.epoch++
	r := sig.Results()
	if r.Len() == 0 {
		return TupleV{}
	}
	if r.Len() == 1 {
		return x.freshVal(st, "r", r.At(0).Type())
	}
	var t TupleV
	for i := 0; i < r.Len(); i++ {
		t = append(t, x.freshVal(st, "r", r.At(i).Type()))
	}
	return t
}

func (x *Exec) inline(st *State, fr *Frame, f FuncV, args []Val, in ssa.Instruction, k CallK) {
	n := 0
	for _, g := range x.stack {
		if g == f.fn {
			n++
		}
	}
	if n >= 2 || len(x.stack) > 14 {
		unsup("recursion of %s without contract", f.fn)
	}
	nf := &Frame{fn: f.fn, regs: map[ssa.Value]Val{}, ctl: map[*ssa.BasicBlock]*loopCtl{}, caller: fr}
	for i, p := range f.fn.Params {
		nf.regs[p] = args[i]
	}
	for i, p := range f.fn.FreeVars {
		nf.regs[p] = f.bind[i]
	}
	sv := append([]*ssa.Function{}, x.stack...)
	x.stack = append(sv, f.fn)
	inner := x.stack
	x.runBlockEntry(st, nf, func(st2 *State, res []Val) {
		x.stack = sv
		k(st2, resultVal(res, f.fn.Signature), true)
		x.stack = inner
	})
	x.stack = sv
}

func (x *Exec) runBlockEntry(st *State, fr *Frame, k Cont) {
	if len(fr.fn.Blocks) == 0 {
		unsup("no body for %s", fr.fn)
	}
	b := fr.fn.Blocks[0]
	x.runFrom(st, fr, b, 0, k)
}

func (x *Exec) opaqueCall(st *State, f FuncV, args []Val, in ssa.Instruction, sig *types.Signature, k CallK) {
	tn := ""
	if f.typ != nil {
		tn = tname(f.typ)
	}
	if con := x.pg.specs.funcType(tn, x.mode); con != nil {
		x.assumed["contract of function values of type "+tn] = true
		x.deliver(x.applyContractSig(st, con, sig, args, in), k)
		return
	}
	unsup("call of unknown function value of type %s at %s", tn, x.pos(in))
}

func (x *Exec) invoke(st *State, fr *Frame, cc *ssa.CallCommon, in ssa.Instruction, k CallK) {
	recv, ok := x.get(fr, cc.Value).(IfaceV)
	if !ok {
		unsup("interface call on %T", x.get(fr, cc.Value))
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.get(fr, a))
	}
	tn := tname(cc.Value.Type())
	name := tn + "." + cc.Method.Name()
	if recv.tag.op == OInt {
		if t := x.tagTypes[recv.tag.iv.Int64()]; t != nil && recv.dyn != nil {
			if fn := x.pg.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); fn != nil {
				x.callVal(st, fr, cc, FuncV{fn: fn, typ: fn.Type()}, append([]Val{recv.dyn}, args...), in, k)
				return
			}
		}
	}
	if h := intrinsics["invoke "+name]; h != nil {
		x.deliver(h(x, st, append([]Val{recv}, args...), in, nil), k)
		return
	}
	switch name {
	case "error.Error", "os.FileInfo.Name", "fs.FileInfo.Name":
		k(st, x.freshResults(st, cc.Signature()), false)
		return
	}
	unsup("interface call %s at %s", name, x.pos(in))
}

func (x *Exec) builtin(st *State, fr *Frame, name string, in ssa.Instruction, cc *ssa.CallCommon) Val {
	c := x.c
	arg := func(i int) Val { return x.get(fr, cc.Args[i]) }
	switch name {
	case "len", "cap":
		switch v := arg(0).(type) {
		case SliceV:
			if name == "len" {
				return v.len
			}
			return v.cap
		case PtrV:
			return c.I(v.arr)
		case *Term:
			if _, ok := cc.Args[0].Type().Underlying().(*types.Basic); ok {
				return c.App("strlen", SK("len"), v)
			}
			return c.Select(x.H(st, "chan."+name, SK("len")), v)
		}
	case "min", "max":
		t := x.scalar(arg(0))
		for i := 1; i < len(cc.Args); i++ {
			u := x.scalar(arg(i))
			if t.sort.Base == "BV" || t.sort == SFlt {
				unsup("min/max")
			}
			if name == "min" {
				t = c.Min(t, u)
			} else {
				t = c.Max(t, u)
			}
		}
		return t
	case "append":
		s := arg(0).(SliceV)
		if _, ok := arg(1).(SliceV); !ok {
			unsup("append of string")
		}
		return x.appendSlice(st, s, arg(1).(SliceV), x.pos(in))
	case "copy":
		d := arg(0).(SliceV)
		s, ok := arg(1).(SliceV)
		if !ok {
			unsup("copy from string")
		}
		n := c.Min(d.len, s.len)
		if st.quick(c.Eq(d.len, s.len)) {
			n = d.len
		} else if st.quick(c.Le(s.len, d.len)) {
			n = s.len
		} else if st.quick(c.Le(d.len, s.len)) {
			n = d.len
		}
		x.copyElems(st, d, s, n)
		return n
	case "close":
		ch := x.scalar(arg(0))
		x.oblige(st, "safety", "close of nil channel", x.pos(in), c.Not(c.Eq(ch, c.Zero)))
		x.oblige(st, "safety", "channel closed once", x.pos(in), c.Eq(c.Select(x.H(st, "chan.closed", SInt), ch), c.Zero))
		x.oblige(st, "safety", "channel closed only after all senders finished", x.pos(in), c.Eq(c.Select(x.H(st, "gor.live", SInt), c.Zero), c.Zero))
		st.heap["chan.closed"] = c.Store(x.H(st, "chan.closed", SInt), ch, c.One)
		return TupleV{}
	case "print", "println":
		return TupleV{}
	case "ssa:wrapnilchk":
		return arg(0)
	case "recover":
		return x.nilErr()
	}
	unsup("builtin %s at %s", name, x.pos(in))
	return nil
}

// appendSlice models append: in place when it fits, into a fresh array otherwise.
func (x *Exec) appendSlice(st *State, s, t SliceV, pos string) SliceV {
	c := x.c
	n := c.Add(s.len, t.len)
	st.assume(c.Le(n, c.IB(pow2(47))))
	fits := c.Le(n, s.cap)
	inPlace := func(st *State) SliceV {
		d := SliceV{s.ref, c.Add(s.off, s.len), t.len, t.len, s.elem}
		x.copySmall(st, d, t)
		return SliceV{s.ref, s.off, n, s.cap, s.elem}
	}
	if st.quick(fits) {
		return inPlace(st)
	}
	if st.quick(c.Not(fits)) || s.ref == c.Zero {
		return x.appendFresh(st, s, t, n, pos)
	}
	// Unknown whether it fits.  A fresh array is used for the new slice; the in-place alternative also
	// writes the spare capacity of the old array, which is only visible through other slices of the
	// same array that reach beyond len(s).
	old := SliceV{s.ref, c.Add(s.off, s.len), t.len, t.len, s.elem}
	x.checkWrite(st, x.elemPtr(old, c.Zero))
	x.spareWrite(st, s, pos)
	return x.appendFresh(st, s, t, n, pos)
}

func (x *Exec) copySmall(st *State, d, t SliceV) {
	// few elements: individual stores read better than block copies
	if t.len.op == OInt && t.len.iv.IsInt64() && t.len.iv.Int64() <= 4 {
		for i := int64(0); i < t.len.iv.Int64(); i++ {
			x.store(st, x.elemPtr(d, x.c.I(i)), x.load(st, x.elemPtr(t, x.c.I(i))))
		}
		return
	}
	x.copyElems(st, d, t, t.len)
}

func (x *Exec) appendFresh(st *State, s, t SliceV, n *Term, pos string) SliceV {
	c := x.c
	capn := c.Fresh("cap", SK("len"))
	st.assume(c.Le(n, capn))
	r := x.makeSlice(st, s.elem, n, capn)
	if st.quick(c.Eq(s.len, c.Zero)) {
		x.copySmall(st, SliceV{r.ref, c.Zero, t.len, t.len, s.elem}, t)
		return r
	}
	x.copyElems(st, r, s, s.len)
	x.copySmall(st, SliceV{r.ref, s.len, t.len, t.len, s.elem}, t)
	return r
}

// spareWrite: an append may overwrite the spare capacity of an existing array.
func (x *Exec) spareWrite(st *State, s SliceV, pos string) {
	if isAlloc(s.ref) || s.ref.op == OInt {
		return
	}
	if x.prop == "C14" && x.root != nil {
		// the spare capacity of a caller's slice must not be written
		c := x.c
		x.oblige(st, "frame", "append does not write the caller's array", pos, x.ownRef(st, s.ref))
		_ = c
	}
}

// ownRef: the array is not one of the argument slices of the function under verification
func (x *Exec) ownRef(st *State, ref *Term) *Term {
	c := x.c
	g := c.True
	for _, v := range x.root.env {
		if a, ok := v.(SliceV); ok {
			g = c.And(g, c.Not(c.Eq(ref, a.ref)))
		}
	}
	return g
}

// ---- goroutines and channels

type gorCtx struct {
	epoch int
	done  bool
}

func (x *Exec) checkWrite(st *State, p PtrV) {
	if st.gor == nil {
		return
	}
	if isAlloc(p.ref) && p.ref.epoch > st.gor.epoch {
		return
	}
	x.oblige(st, "frame", "goroutine writes only memory of its own ("+heapKey(p)+")", "", x.c.False)
}

func (x *Exec) goStmt(st *State, fr *Frame, in *ssa.Go, k func(*State)) {
	if in.Call.IsInvoke() {
		unsup("go with interface call")
	}
	fv := x.get(fr, in.Call.Value)
	var args []Val
	for _, a := range in.Call.Args {
		args = append(args, x.get(fr, a))
	}
	if st.gor != nil {
		unsup("nested goroutine")
	}
	// one WaitGroup per function, so that waiting waits for all of its goroutines
	groups := 0
	for _, b := range in.Parent().Blocks {
		for _, i := range b.Instrs {
			if a, ok := i.(*ssa.Alloc); ok && isWaitGroup(a.Type().Underlying().(*types.Pointer).Elem()) {
				groups++
			}
		}
	}
	if groups != 1 {
		unsup("goroutines with %d WaitGroups", groups)
	}
	c := x.c
	st.heap["gor.live"] = c.Store(x.H(st, "gor.live", SInt), c.Zero, c.One)
	st.gor = &gorCtx{epoch: c.epoch}
	x.callVal(st, fr, &in.Call, fv, args, in, func(st2 *State, v Val, more bool) {
		if !st2.gor.done {
			x.oblige(st2, "safety", "goroutine announces its end", x.pos(in), c.False)
		}
		st2.gor = nil
		k(st2)
	})
}

func chanElems(t types.Type) []string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return []string{""}
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		if kindOf(s.Field(i).Type()) != "" {
			out = append(out, s.Field(i).Name())
		}
	}
	return out
}

func (x *Exec) makeChan(st *State, t *types.Chan, n *Term) Val {
	c := x.c
	ref := c.Alloc()
	set := func(key string, s *Sort, v *Term) {
		st.heap[key] = c.Store(x.H(st, key, s), ref, v)
	}
	set("chan.cap", SK("len"), n)
	set("chan.len", SK("len"), c.Zero)
	set("chan.closed", SInt, c.Zero)
	for _, f := range chanElems(t.Elem()) {
		set("chan.sum."+f, SInt, c.Zero)
		set("chan.min."+f, SInt, c.IB(kindHi["i64"]))
		set("chan.max."+f, SInt, c.IB(kindLo["i64"]))
	}
	return ref
}

func (x *Exec) fieldOf(v Val, f string) *Term {
	if s, ok := v.(StructV); ok {
		u := s.t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f {
				return x.scalar(s.f[i])
			}
		}
	}
	return x.scalar(v)
}

func (x *Exec) send(st *State, fr *Frame, in *ssa.Send) {
	c := x.c
	ch := x.term(fr, in.Chan)
	v := x.get(fr, in.X)
	et := in.Chan.Type().Underlying().(*types.Chan).Elem()
	n := c.Select(x.H(st, "chan.len", SK("len")), ch)
	x.oblige(st, "safety", "send does not block", x.pos(in), c.Lt(n, c.Select(x.H(st, "chan.cap", SK("len")), ch)))
	x.oblige(st, "safety", "send on open channel", x.pos(in), c.Eq(c.Select(x.H(st, "chan.closed", SInt), ch), c.Zero))
	if st.gor != nil && st.gor.done {
		x.oblige(st, "safety", "send before the goroutine announced its end", x.pos(in), c.False)
	}
	for _, inv := range x.pg.specs.chanInv[tname(et)] {
		if !inv.applies(x) {
			continue
		}
		g := x.specBool(st, nil, map[string]Val{"v": v}, inv.expr)
		x.oblige(st, "invariant", "element invariant of the channel: "+inv.text, x.pos(in), g)
	}
	st.heap["chan.len"] = c.Store(st.heap["chan.len"], ch, c.Add(n, c.One))
	for _, f := range chanElems(et) {
		t := x.fieldOf(v, f)
		for _, m := range []string{"sum", "min", "max"} {
			key := "chan." + m + "." + f
			h := x.H(st, key, SInt)
			o := c.Select(h, ch)
			var r *Term
			switch m {
			case "sum":
				r = c.Add(o, t)
			case "min":
				r = c.Min(o, t)
			default:
				r = c.Max(o, t)
			}
			st.heap[key] = c.Store(h, ch, r)
		}
	}
}

func (x *Exec) recv(st *State, fr *Frame, in *ssa.UnOp, k func(*State, Val)) {
	c := x.c
	ch := x.term(fr, in.X)
	et := in.X.Type().Underlying().(*types.Chan).Elem()
	n := c.Select(x.H(st, "chan.len", SK("len")), ch)
	closed := c.Select(x.H(st, "chan.closed", SInt), ch)
	x.oblige(st, "safety", "receive does not block", x.pos(in), c.Or(c.Eq(closed, c.One), c.Lt(c.Zero, n)))
	ret := func(st *State, v Val, ok *Term) {
		if in.CommaOk {
			k(st, TupleV{v, ok})
		} else {
			k(st, v)
		}
	}
	empty := st.clone()
	empty.assume(c.Le(n, c.Zero))
	if !empty.dead {
		c.known = empty
		for _, f := range chanElems(et) {
			empty.assume(c.Eq(c.Select(x.H(empty, "chan.sum."+f, SInt), ch), c.Zero))
			empty.assume(c.Eq(c.Select(x.H(empty, "chan.min."+f, SInt), ch), c.IB(kindHi["i64"])))
			empty.assume(c.Eq(c.Select(x.H(empty, "chan.max."+f, SInt), ch), c.IB(kindLo["i64"])))
		}
		ret(empty, x.zero(et), c.False)
	}
	st.assume(c.Lt(c.Zero, n))
	if st.dead {
		return
	}
	c.known = st
	v := x.freshVal(st, "recv", et)
	st.heap["chan.len"] = c.Store(st.heap["chan.len"], ch, c.Sub(n, c.One))
	last := c.Eq(n, c.One)
	for _, f := range chanElems(et) {
		t := x.fieldOf(v, f)
		for _, m := range []string{"sum", "min", "max"} {
			key := "chan." + m + "." + f
			h := x.H(st, key, SInt)
			o := c.Select(h, ch)
			r := c.Fresh("rem."+m, SInt)
			switch m {
			case "sum":
				r = c.Sub(o, t)
				st.assume(c.Imp(last, c.Eq(r, c.Zero)))
			case "min":
				st.assume(c.Eq(o, c.Min(r, t)))
				st.assume(c.Imp(last, c.Eq(r, c.IB(kindHi["i64"]))))
				st.assume(c.Le(r, c.IB(kindHi["i64"])))
			default:
				st.assume(c.Eq(o, c.Max(r, t)))
				st.assume(c.Imp(last, c.Eq(r, c.IB(kindLo["i64"]))))
				st.assume(c.Le(c.IB(kindLo["i64"]), r))
			}
			st.heap[key] = c.Store(h, ch, r)
		}
	}
	for _, f := range chanElems(et) { // a sum of numbers that are not negative
		mn, sm := c.Select(st.heap["chan.min."+f], ch), c.Select(st.heap["chan.sum."+f], ch)
		st.assume(c.Imp(c.Le(c.Zero, mn), c.Le(c.Zero, sm)))
	}
	for _, inv := range x.pg.specs.chanInv[tname(et)] {
		if inv.applies(x) {
			st.assume(x.specBool(st, nil, map[string]Val{"v": v}, inv.expr))
		}
	}
	ret(st, v, c.True)
}

// ---- contracts

func (x *Exec) contractFor(fn *ssa.Function) *Contract {
	key := fnKey(fn)
	con := x.pg.specs.find(key, x.mode)
	if con == nil || con.top || x.noContr[con.id()] {
		return nil
	}
	if con.noCall || !con.hasProp(x.prop) {
		return nil
	}
	if len(con.params) != len(fn.Params) {
		return nil
	}
	if con.bvOnly && !x.bv {
		return nil
	}
	return con
}

func (x *Exec) applyContract(st *State, con *Contract, fn *ssa.Function, args []Val, in ssa.Instruction) []outcome {
	x.used[con.id()] = true
	return x.applyContractSig(st, con, fn.Signature, args, in)
}

func (x *Exec) applyContractSig(st *State, con *Contract, sig *types.Signature, args []Val, in ssa.Instruction) []outcome {
	c := x.c
	env := map[string]Val{}
	for i, p := range con.params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	c.known = st
	x.bindNames(st, con, env)
	for _, cl := range con.requires {
		if !cl.applies(x) {
			continue
		}
		g := x.specBool(st, nil, env, cl.expr)
		x.oblige(st, "requires", con.short()+" requires "+cl.text, x.pos(in), g)
	}
	if con.decreases != nil && x.root != nil && x.root.con != nil && x.root.con.decreases != nil && x.task.fnKey == con.fn {
		m1 := x.specTerm(st, nil, env, con.decreases)
		m0 := x.specTerm(x.root.entry, nil, x.root.env, x.root.con.decreases)
		c.known = st
		x.oblige(st, "termination", "recursion measure decreases", x.pos(in), c.And(c.Le(c.Zero, m1), c.Lt(m1, m0)))
	}
	pre := st.clone()
	c.epoch++
	for _, m := range con.modifies {
		if m.applies(x) {
			x.havocLoc(st, env, m.expr)
		}
	}
	res := sig.Results()
	mk := func(st *State, errNil int) outcome {
		var vals []Val
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			name := con.resName(i)
			var v Val
			if types.Identical(t, types.Universe.Lookup("error").Type()) && errNil >= 0 {
				if errNil == 1 {
					v = x.nilErr()
				} else {
					e := IfaceV{tag: c.Fresh("err.tag", SK("nat")), pay: c.Fresh("err.pay", SInt)}
					st.assume(c.Not(c.Eq(e.tag, c.Zero)))
					v = e
				}
			} else if con.fresh[name] && errNil != 0 {
				v = x.freshAlloc(st, name, t)
			} else {
				v = x.freshVal(st, name, t)
			}
			vals = append(vals, v)
			env[name] = v
		}
		if len(vals) == 1 {
			env["result"] = vals[0]
		}
		for _, cl := range con.ensures {
			if !cl.applies(x) || cl.kind == "show" {
				continue
			}
			st.assume(x.specBool(st, pre, env, cl.expr))
			if st.dead {
				break
			}
		}
		for _, cl := range con.defines {
			if cl.applies(x) && !st.dead {
				st.assume(x.specBool(st, pre, env, cl.expr))
			}
		}
		return outcome{st, resultVal(vals, sig)}
	}
	hasErr := res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), types.Universe.Lookup("error").Type())
	if hasErr {
		st2 := st.clone()
		env1 := env
		env = cloneEnv(env1)
		st.trace = append(st.trace, con.short()+" fails")
		o2 := mk(st, 0)
		env = cloneEnv(env1)
		c.known = st2
		o1 := mk(st2, 1)
		return []outcome{o2, o1}
	}
	return []outcome{mk(st, -1)}
}

func cloneEnv(m map[string]Val) map[string]Val {
	n := map[string]Val{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (x *Exec) freshAlloc(st *State, name string, t types.Type) Val {
	c := x.c
	switch u := t.Underlying().(type) {
	case *types.Slice:
		n := c.Fresh(name+".len", SK("len"))
		cp := c.Fresh(name+".cap", SK("len"))
		st.assume(c.Le(n, cp))
		return SliceV{c.Alloc(), c.Zero, n, cp, u.Elem()}
	case *types.Pointer:
		return x.ptrTo(c.Alloc(), u.Elem())
	}
	return x.freshVal(st, name, t)
}

func pureExternal(key string) bool {
	for _, p := range []string{"fmt.", "strings.", "time.", "(time.", "errors.", "(*flag.", "flag.", "strconv.", "runtime.GOMAXPROCS", "runtime.NumCPU", "os.Exit"} {
		if strings.HasPrefix(key, p) {
			return key != "os.Exit"
		}
	}
	return false
}
