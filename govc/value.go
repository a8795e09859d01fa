package main

// Symbolic values, typed memory.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type SliceV struct {
	ref, off, len, cap *Term
	elem               types.Type
}
type PtrV struct {
	root types.Type // type of the root object, or of the elements if idx != nil
	ref  *Term
	idx  *Term
	path string
	typ  types.Type // pointee
	arr  int64      // pointee is an array of this length (root = element type, idx = start)
	isA  bool
}
type StructV struct {
	t types.Type
	f []Val
}
type TupleV []Val
type IfaceV struct {
	tag, pay *Term
	dyn      Val // payload when known statically
}
type FuncV struct {
	fn   *ssa.Function
	bind []Val
	id   *Term // opaque
	typ  types.Type
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func pkgQual(p *types.Package) string { return p.Name() }
func tname(t types.Type) string       { return types.TypeString(t, pkgQual) }

func kindOf(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch b.Kind() {
	case types.Int8:
		return "i8"
	case types.Int16:
		return "i16"
	case types.Int32, types.UntypedRune:
		return "i32"
	case types.Int64, types.Int, types.UntypedInt:
		return "i64"
	case types.Uint8:
		return "u8"
	case types.Uint16:
		return "u16"
	case types.Uint32:
		return "u32"
	case types.Uint64, types.Uint, types.Uintptr:
		return "u64"
	}
	return ""
}
func kindW(k string) int {
	var w int
	fmt.Sscanf(k[1:], "%d", &w)
	return w
}
func isPlainInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.UntypedInt)
}

func (x *Exec) sortOf(t types.Type) *Sort {
	if k := kindOf(t); k != "" {
		if x.bv && !isPlainInt(t) {
			return SBV(kindW(k))
		}
		return SK(k)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsFloat != 0:
			return SFlt
		}
		return SRef
	}
	return SRef
}

// leaves of a type: path suffix and sort
type leaf struct {
	suf  string
	sort *Sort
}

func (x *Exec) leaves(t types.Type) []leaf {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range x.leaves(u.Field(i).Type()) {
				out = append(out, leaf{"." + u.Field(i).Name() + l.suf, l.sort})
			}
		}
		return out
	case *types.Slice:
		return []leaf{{".$ref", SRef}, {".$off", SK("len")}, {".$len", SK("len")}, {".$cap", SK("len")}}
	case *types.Interface:
		return []leaf{{".$tag", SK("nat")}, {".$pay", SInt}}
	case *types.Array:
		return nil
	}
	return []leaf{{"", x.sortOf(t)}}
}

// flatten / unflatten a value into leaf terms
func (x *Exec) flatten(v Val, t types.Type) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, ok := v.(StructV)
		if !ok {
			unsup("struct value %T for %s", v, t)
		}
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.flatten(s.f[i], u.Field(i).Type())...)
		}
		return out
	case *types.Slice:
		s := v.(SliceV)
		return []*Term{s.ref, s.off, s.len, s.cap}
	case *types.Interface:
		i := v.(IfaceV)
		return []*Term{i.tag, i.pay}
	case *types.Array:
		return nil
	}
	return []*Term{x.scalar(v)}
}

func (x *Exec) scalar(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case PtrV:
		if v.path != "" || v.idx != nil && !v.isA {
			unsup("interior pointer stored")
		}
		return v.ref
	case FuncV:
		if v.id != nil {
			return v.id
		}
		return x.funcID(v)
	case SliceV:
		return v.ref
	case nil:
		return x.c.Zero
	}
	unsup("scalar of %T", v)
	return nil
}

func (x *Exec) unflatten(ts []*Term, t types.Type) (Val, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = x.unflatten(ts, u.Field(i).Type())
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3], u.Elem()}, ts[4:]
	case *types.Interface:
		return IfaceV{tag: ts[0], pay: ts[1], dyn: x.dynOf(ts[0], ts[1])}, ts[2:]
	case *types.Pointer:
		return x.ptrTo(ts[0], u.Elem()), ts[1:]
	case *types.Signature:
		if f, ok := x.funcs[ts[0]]; ok {
			return f, ts[1:]
		}
		return FuncV{id: ts[0], typ: t}, ts[1:]
	case *types.Array:
		return nil, ts
	}
	return ts[0], ts[1:]
}

func (x *Exec) dynOf(tag, pay *Term) Val {
	if tag.op == OInt && tag.iv.IsInt64() {
		if t := x.tagTypes[tag.iv.Int64()]; t != nil {
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return x.ptrTo(pay, u.Elem())
			case *types.Basic:
				if x.bv {
					return nil
				}
				return pay
			}
		}
	}
	return nil
}

func (x *Exec) ptrTo(ref *Term, elem types.Type) PtrV {
	if a, ok := elem.Underlying().(*types.Array); ok {
		return PtrV{root: a.Elem(), ref: ref, idx: x.c.Zero, typ: elem, arr: a.Len(), isA: true}
	}
	return PtrV{root: elem, ref: ref, typ: elem}
}

func (x *Exec) funcID(f FuncV) *Term {
	n := "fn:" + f.fn.String()
	if len(f.bind) > 0 {
		x.c.fresh++
		n += fmt.Sprintf("!%d", x.c.fresh)
	}
	t := x.c.Var(n, SRef)
	x.funcs[t] = f
	return t
}

func heapKey(p PtrV) string {
	if p.idx != nil {
		return "[]" + tname(p.root) + p.path
	}
	return tname(p.root) + p.path
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// H returns the heap array for key; elem: element arrays
func (x *Exec) H(st *State, key string, s *Sort) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	if x.heapSort == nil {
		x.heapSort = map[string]*Sort{}
	}
	n := "H:" + key
	sv := x.c.epoch
	x.c.epoch = 1
	h := x.c.Var(n, SArr(s))
	x.c.epoch = sv
	st.heap[key] = h
	x.heapSort[key] = h.sort
	return h
}

func (x *Exec) elemSort(p types.Type, s *Sort) *Sort {
	if isByte(p) && !x.bv {
		return SMem
	}
	return SArr(s)
}

func (x *Exec) load(st *State, p PtrV) Val {
	if _, ok := p.typ.Underlying().(*types.Array); ok {
		if p.isA {
			return p
		}
		unsup("array load")
	}
	var ts []*Term
	for _, l := range x.leaves(p.typ) {
		key := heapKey(p) + l.suf
		if p.idx != nil {
			if isByte(p.root) && !x.bv {
				h := x.H(st, key, SMem)
				ts = append(ts, x.c.Rd(x.c.Select(h, p.ref), p.idx, x.c.One))
				continue
			}
			h := x.H(st, key, SArr(l.sort))
			ts = append(ts, x.c.Select(x.c.Select(h, p.ref), p.idx))
			continue
		}
		h := x.H(st, key, l.sort)
		ts = append(ts, x.c.Select(h, p.ref))
	}
	v, _ := x.unflatten(ts, p.typ)
	x.wellTyped(st, v)
	return v
}

// wellTyped assumes the structural invariants of Go values
func (x *Exec) wellTyped(st *State, v Val) {
	if x.noWT {
		return
	}
	switch v := v.(type) {
	case SliceV:
		st.assume(x.c.Le(v.len, v.cap))
		if v.ref.op != OInt && !isAlloc(v.ref) {
			st.assume(x.c.Or(x.c.Not(x.c.Eq(v.ref, x.c.Zero)), x.c.Eq(v.cap, x.c.Zero)))
		}
	case StructV:
		for _, f := range v.f {
			x.wellTyped(st, f)
		}
	}
}

func (x *Exec) store(st *State, p PtrV, v Val) {
	if _, ok := p.typ.Underlying().(*types.Array); ok {
		unsup("array store")
	}
	x.checkWrite(st, p)
	ts := x.flatten(v, p.typ)
	for i, l := range x.leaves(p.typ) {
		x.storeLeaf(st, p, l, ts[i])
	}
}
func (x *Exec) storeLeaf(st *State, p PtrV, l leaf, v *Term) {
	key := heapKey(p) + l.suf
	c := x.c
	if p.idx != nil {
		if isByte(p.root) && !x.bv {
			h := x.H(st, key, SMem)
			st.heap[key] = c.Store(h, p.ref, c.Wr(c.Select(h, p.ref), p.idx, c.One, v))
			return
		}
		h := x.H(st, key, SArr(l.sort))
		st.heap[key] = c.Store(h, p.ref, c.Store(c.Select(h, p.ref), p.idx, v))
		return
	}
	h := x.H(st, key, l.sort)
	st.heap[key] = c.Store(h, p.ref, v)
}

// zero values
func (x *Exec) zeroTerm(s *Sort) *Term {
	switch s.Base {
	case "Int":
		return x.c.Zero
	case "Bool":
		return x.c.False
	case "BV":
		return x.c.BVC(zero, s.W)
	}
	return x.c.Var("zero:"+s.key, s)
}
func (x *Exec) zero(t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var out TupleV
		for i := 0; i < tp.Len(); i++ {
			out = append(out, x.zero(tp.At(i).Type()))
		}
		return out
	}
	var ts []*Term
	for _, l := range x.leaves(t) {
		ts = append(ts, x.zeroTerm(l.sort))
	}
	v, _ := x.unflatten(ts, t)
	return v
}

// fresh symbolic value of a type
func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	var ts []*Term
	for _, l := range x.leaves(t) {
		ts = append(ts, x.c.Fresh(name+l.suf, l.sort))
	}
	v, _ := x.unflatten(ts, t)
	x.wellTyped(st, v)
	return v
}

// alloc creates a zeroed object of type t and returns its pointer
func (x *Exec) alloc(st *State, t types.Type) PtrV {
	ref := x.c.Alloc()
	if a, ok := t.Underlying().(*types.Array); ok {
		x.zeroElems(st, a.Elem(), ref)
		return PtrV{root: a.Elem(), ref: ref, idx: x.c.Zero, typ: t, arr: a.Len(), isA: true}
	}
	p := PtrV{root: t, ref: ref, typ: t}
	if isWaitGroup(t) {
		st.heap["wg.n"] = x.c.Store(x.H(st, "wg.n", SInt), ref, x.c.Zero)
		return p
	}
	for _, l := range x.leaves(t) {
		x.storeLeaf(st, p, l, x.zeroTerm(l.sort))
	}
	return p
}

func (x *Exec) zeroElems(st *State, elem types.Type, ref *Term) {
	c := x.c
	if isByte(elem) && !x.bv {
		key := "[]" + tname(elem)
		st.heap[key] = c.Store(x.H(st, key, SMem), ref, c.Zeros())
		return
	}
	for _, l := range x.leaves(elem) {
		key := "[]" + tname(elem) + l.suf
		as := SArr(l.sort)
		st.heap[key] = c.Store(x.H(st, key, as), ref, c.ConstArr(x.zeroTerm(l.sort), as))
	}
}

func (x *Exec) makeSlice(st *State, elem types.Type, n, cap *Term) SliceV {
	ref := x.c.Alloc()
	x.zeroElems(st, elem, ref)
	return SliceV{ref, x.c.Zero, n, cap, elem}
}

func (x *Exec) elemPtr(s SliceV, i *Term) PtrV {
	return PtrV{root: s.elem, ref: s.ref, idx: x.c.Add(s.off, i), typ: s.elem}
}

// copyElems: dst[0..n) = src[0..n) (memmove semantics since source is read first)
func (x *Exec) copyElems(st *State, dst, src SliceV, n *Term) {
	c := x.c
	x.checkWrite(st, x.elemPtr(dst, c.Zero))
	if isByte(dst.elem) && !x.bv {
		key := "[]" + tname(dst.elem)
		h := x.H(st, key, SMem)
		st.heap[key] = c.Store(h, dst.ref, c.Blit(c.Select(h, dst.ref), dst.off, c.Select(h, src.ref), src.off, n))
		return
	}
	for _, l := range x.leaves(dst.elem) {
		key := "[]" + tname(dst.elem) + l.suf
		h := x.H(st, key, SArr(l.sort))
		st.heap[key] = c.Store(h, dst.ref, c.BlitA(c.Select(h, dst.ref), dst.off, c.Select(h, src.ref), src.off, n))
	}
}

func (x *Exec) iteVal(k *Term, a, b Val, t types.Type) Val {
	if fa, ok := a.(FuncV); ok {
		if fb, ok := b.(FuncV); ok && fa.fn == fb.fn && fa.id == fb.id {
			return a
		}
	}
	if k == x.c.True {
		return a
	}
	if k == x.c.False {
		return b
	}
	if pa, ok := a.(PtrV); ok {
		if pb, ok2 := b.(PtrV); ok2 && (pa.idx != nil || pa.path != "") {
			if pa == pb {
				return a
			}
			if heapKey(pa) == heapKey(pb) && pa.idx != nil && pb.idx != nil {
				r := pa
				r.ref = x.c.Ite(k, pa.ref, pb.ref)
				r.idx = x.c.Ite(k, pa.idx, pb.idx)
				return r
			}
		}
	}
	if tp, ok := t.(*types.Tuple); ok {
		var out TupleV
		for i := 0; i < tp.Len(); i++ {
			out = append(out, x.iteVal(k, a.(TupleV)[i], b.(TupleV)[i], tp.At(i).Type()))
		}
		return out
	}
	fa, fb := x.flatten(a, t), x.flatten(b, t)
	out := make([]*Term, len(fa))
	for i := range fa {
		out[i] = x.c.Ite(k, fa[i], fb[i])
	}
	v, _ := x.unflatten(out, t)
	return v
}

const repoTag = 1 << 30

func (x *Exec) typeTag(t types.Type) int64 {
	n := types.TypeString(t, nil)
	if k, ok := x.tags[n]; ok {
		return k
	}
	k := int64(len(x.tags) + 100)
	if strings.Contains(n, "vibe-lsm/") {
		k += repoTag // no error made outside the repository has one of its types
	}
	x.tags[n] = k
	x.tagTypes[k] = t
	return k
}
func (x *Exec) nameTag(n string) int64 {
	if k, ok := x.tags["name:"+n]; ok {
		return k
	}
	k := int64(len(x.tags) + 100)
	x.tags["name:"+n] = k
	return k
}
func (x *Exec) errVal(kind string) IfaceV {
	return IfaceV{tag: x.c.I(x.nameTag(kind)), pay: x.c.Fresh("err", SInt)}
}
func (x *Exec) nilErr() IfaceV { return IfaceV{tag: x.c.Zero, pay: x.c.Zero} }

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "vibe-lsm/pkg/", "")
	s = strings.ReplaceAll(s, "vibe-lsm/cmd/", "")
	return s
}

func isWaitGroup(t types.Type) bool { return tname(t) == "sync.WaitGroup" }
