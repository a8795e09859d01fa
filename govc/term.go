package main

// Hash-consed terms with polynomial normal forms for integers.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort struct {
	Base string // Int Bool Mem Arr Flt BV Str
	K    string // for Int: "" (mathematical), u8.. i64, ref
	W    int    // BV width
	Elem *Sort
	key  string
}

var sortMu sync.Mutex
var sortTab = map[string]*Sort{}

func mkSort(s Sort) *Sort {
	k := s.Base + ":" + s.K + ":" + fmt.Sprint(s.W)
	if s.Elem != nil {
		k += "[" + s.Elem.key + "]"
	}
	sortMu.Lock()
	defer sortMu.Unlock()
	if r, ok := sortTab[k]; ok {
		return r
	}
	s.key = k
	r := &s
	sortTab[k] = r
	return r
}

var (
	SInt  = mkSort(Sort{Base: "Int"})
	SBool = mkSort(Sort{Base: "Bool"})
	SMem  = mkSort(Sort{Base: "Mem"})
	SFlt  = mkSort(Sort{Base: "Flt"})
	SRef  = mkSort(Sort{Base: "Int", K: "ref"})
)

func SK(k string) *Sort     { return mkSort(Sort{Base: "Int", K: k}) }
func SArr(e *Sort) *Sort    { return mkSort(Sort{Base: "Arr", Elem: e}) }
func SBV(w int) *Sort       { return mkSort(Sort{Base: "BV", W: w}) }
func (s *Sort) isInt() bool { return s.Base == "Int" }
func (s *Sort) smt() string {
	switch s.Base {
	case "Arr":
		return "(Array Int " + s.Elem.smt() + ")"
	case "BV":
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	return s.Base
}

type Op int

const (
	OVar Op = iota
	OInt
	OBool
	OPoly
	OMul
	ODiv
	OMod
	OWrap
	OIte
	ONot
	OAnd
	OOr
	OEq
	OGe0
	OSelect
	OStore
	OConstArr
	OBlitA
	ORd
	OWr
	OBlit
	OApp
	OForall
	OBV
	OBVC
)

type Term struct {
	id    int
	op    Op
	sort  *Sort
	args  []*Term
	name  string
	iv    *big.Int   // OInt, OBVC value, OPoly constant
	coef  []*big.Int // OPoly
	epoch int        // max birth epoch of the atoms
	lo    *big.Int
	hi    *big.Int
	ivOK  bool
	fv    []*Term  // free bound variables
	bound bool     // contains a bound variable
	frame *hvFrame // OVar arrays: frame rule attached by havoc
	trig  []*Term  // OForall: explicit triggers
}

// hvFrame: select(A, t) == select(base, t) for every ref t born at or before limit and different from except
type hvFrame struct {
	base   *Term
	limit  int
	except []*Term
}

type Ctx struct {
	tab       map[string]*Term
	n         int
	fresh     int
	epoch     int
	True      *Term
	False     *Term
	Zero      *Term
	One       *Term
	smemo     map[[2]int]*Term
	folds     map[string]*FoldDef
	foldMemo  map[*Term][]string
	defs      map[string]*Term
	known     *State // current path, used for context dependent simplification
	declRange map[string][2]*big.Int
	axioms    map[string][]*axiom
	showing   bool // a step is being shown from premises alone
	windows   map[string]bool
	winMemo   map[*Term][]string
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, folds: map[string]*FoldDef{}, axioms: map[string][]*axiom{}, windows: map[string]bool{"uvdec": true, "uvlen": true}}
	c.True = c.mk(&Term{op: OBool, sort: SBool, name: "true"})
	c.False = c.mk(&Term{op: OBool, sort: SBool, name: "false"})
	c.Zero = c.I(0)
	c.One = c.I(1)
	c.epoch = 1
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%s", t.op, t.sort.key, t.name)
	if t.iv != nil {
		sb.WriteString("#" + t.iv.String())
	}
	for i, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if t.coef != nil {
			sb.WriteString("*" + t.coef[i].String())
		}
	}
	k := sb.String()
	if r, ok := c.tab[k]; ok {
		return r
	}
	c.n++
	t.id = c.n
	for i, a := range t.args {
		// the place of an element says nothing about its age
		if a.epoch > t.epoch && !(t.op == OSelect && i == 1 && a.sort != SRef) {
			t.epoch = a.epoch
		}
		for _, v := range a.fv {
			if t.op == OForall && v == t.args[0] {
				continue // closed under its own variable
			}
			dup := false
			for _, w := range t.fv {
				dup = dup || w == v
			}
			if !dup {
				t.fv = append(t.fv, v)
			}
		}
	}
	if t.op == OVar && t.bound {
		t.fv = []*Term{t}
	}
	t.bound = len(t.fv) > 0
	c.tab[k] = t
	return t
}

func (c *Ctx) I(n int64) *Term { return c.IB(big.NewInt(n)) }
func (c *Ctx) IB(n *big.Int) *Term {
	return c.mk(&Term{op: OInt, sort: SInt, iv: new(big.Int).Set(n)})
}
func (c *Ctx) B(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var returns the variable of that name, born now.
func (c *Ctx) Var(name string, s *Sort) *Term {
	t := c.mk(&Term{op: OVar, sort: s, name: name, epoch: c.epoch})
	return t
}
func (c *Ctx) Fresh(prefix string, s *Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), s)
}
func (c *Ctx) BoundVar(name string) *Term {
	c.fresh++
	return c.mk(&Term{op: OVar, sort: SInt, name: fmt.Sprintf("?%s!%d", name, c.fresh), bound: true})
}

// Alloc returns a reference different from everything born before.
func (c *Ctx) Alloc() *Term {
	c.epoch++
	return c.mk(&Term{op: OVar, sort: SRef, name: fmt.Sprintf("@%d", c.epoch), epoch: c.epoch})
}
func isAlloc(t *Term) bool { return t.op == OVar && t.name[0] == '@' }

func (t *Term) isConst() bool  { return t.op == OInt || t.op == OBool }
func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 60 {
		return "..."
	}
	switch t.op {
	case OVar:
		return t.name
	case OInt:
		return t.iv.String()
	case OBool:
		return t.name
	case OBVC:
		return fmt.Sprintf("0x%x:%d", t.iv, t.sort.W)
	case OPoly:
		var p []string
		for i, a := range t.args {
			if t.coef[i].Cmp(one) == 0 {
				p = append(p, a.str(d+1))
			} else {
				p = append(p, t.coef[i].String()+"*"+a.str(d+1))
			}
		}
		if t.iv.Sign() != 0 {
			p = append(p, t.iv.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	}
	nm := map[Op]string{OMul: "*", ODiv: "div", OMod: "mod", OWrap: "wrap", OIte: "ite", ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OGe0: "ge0", OSelect: "sel", OStore: "store", OConstArr: "const", OBlitA: "blitA", ORd: "rd", OWr: "wr", OBlit: "blit", OForall: "forall"}[t.op]
	if nm == "" || t.op == OWrap {
		nm += t.name
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d+1))
	}
	return nm + "(" + strings.Join(p, ",") + ")"
}

// isNew: the object was allocated after the entry of the function under contract
func (c *Ctx) isNew(r *Term) *Term {
	switch {
	case isAlloc(r):
		return c.True
	case r.op == OIte:
		return c.Ite(r.args[0], c.isNew(r.args[1]), c.isNew(r.args[2]))
	}
	return c.App("isnew", SBool, r)
}

var one = big.NewInt(1)
var zero = big.NewInt(0)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(one, n) }

var kindLo, kindHi = map[string]*big.Int{}, map[string]*big.Int{}

func init() {
	for _, w := range []uint{8, 16, 32, 64} {
		kindLo[fmt.Sprintf("u%d", w)] = zero
		kindHi[fmt.Sprintf("u%d", w)] = new(big.Int).Sub(pow2(w), one)
		kindLo[fmt.Sprintf("i%d", w)] = new(big.Int).Neg(pow2(w - 1))
		kindHi[fmt.Sprintf("i%d", w)] = new(big.Int).Sub(pow2(w-1), one)
	}
	kindLo["nat"] = zero
	// lengths and capacities: an address space bound
	kindLo["len"] = zero
	kindHi["len"] = pow2(47)
	// lengths of varint codes (proved in bit-vector mode)
	kindLo["code"] = one
	kindHi["code"] = big.NewInt(10)
	// file sizes and positions
	kindLo["fpos"] = zero
	kindHi["fpos"] = pow2(60)
}

// interval returns static bounds of an integer term (nil: unbounded).
func (c *Ctx) interval(t *Term) (lo, hi *big.Int) {
	if t.ivOK {
		return t.lo, t.hi
	}
	lo, hi = c.interval0(t)
	t.lo, t.hi, t.ivOK = lo, hi, true
	return
}
func (c *Ctx) interval0(t *Term) (lo, hi *big.Int) {
	if !t.sort.isInt() {
		return nil, nil
	}
	if k := t.sort.K; k != "" && k != "ref" {
		lo, hi = kindLo[k], kindHi[k]
	}
	switch t.op {
	case OInt:
		return t.iv, t.iv
	case OPoly:
		lo, hi = t.iv, t.iv
		for i, a := range t.args {
			l, h := c.interval(a)
			if t.coef[i].Sign() < 0 {
				l, h = h, l
			}
			if l != nil && lo != nil {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(t.coef[i], l))
			} else {
				lo = nil
			}
			if h != nil && hi != nil {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(t.coef[i], h))
			} else {
				hi = nil
			}
		}
		return
	case OMul:
		l0, h0 := one, one
		for _, a := range t.args {
			l, h := c.interval(a)
			if l == nil || l.Sign() < 0 {
				return nil, nil
			}
			l0 = new(big.Int).Mul(l0, l)
			if h != nil && h0 != nil {
				h0 = new(big.Int).Mul(h0, h)
			} else {
				h0 = nil
			}
		}
		return l0, h0
	case OMod:
		if t.args[1].op == OInt {
			return zero, new(big.Int).Sub(t.args[1].iv, one)
		}
		l1, h1 := c.interval(t.args[1])
		if l1 != nil && l1.Sign() > 0 && h1 != nil {
			return zero, new(big.Int).Sub(h1, one)
		}
		return nil, nil
	case ODiv:
		l, h := c.interval(t.args[0])
		if t.args[1].op == OInt && t.args[1].iv.Sign() > 0 {
			d := t.args[1].iv
			if l != nil {
				lo = new(big.Int).Div(l, d)
			}
			if h != nil {
				hi = new(big.Int).Div(h, d)
			}
			return
		}
		l1, _ := c.interval(t.args[1])
		if l1 != nil && l1.Sign() > 0 && l != nil && l.Sign() >= 0 {
			return zero, h
		}
		return nil, nil
	case OWrap:
		return kindLo[t.name], kindHi[t.name]
	case OIte:
		l1, h1 := c.interval(t.args[1])
		l2, h2 := c.interval(t.args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	case OApp:
		if isFold(t) {
			return c.foldInterval(t)
		}
	case ORd:
		lo = zero
		if n := t.args[2]; n.op == OInt && n.iv.IsInt64() && n.iv.Int64() <= 16 {
			hi = new(big.Int).Sub(pow2(uint(8*n.iv.Int64())), one)
		}
		return
	}
	return
}

// ---- polynomials

type lin struct {
	m map[*Term]*big.Int
	k *big.Int
}

func (c *Ctx) toLin(t *Term) lin {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	switch t.op {
	case OInt:
		l.k.Set(t.iv)
	case OPoly:
		l.k.Set(t.iv)
		for i, a := range t.args {
			l.m[a] = t.coef[i]
		}
	default:
		l.m[t] = one
	}
	return l
}
func (c *Ctx) fromLin(l lin) *Term {
	var as []*Term
	for a, k := range l.m {
		if k.Sign() != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return c.IB(l.k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.k.Sign() == 0 && l.m[as[0]].Cmp(one) == 0 {
		return as[0]
	}
	co := make([]*big.Int, len(as))
	for i, a := range as {
		co[i] = l.m[a]
	}
	return c.mk(&Term{op: OPoly, sort: SInt, args: as, coef: co, iv: new(big.Int).Set(l.k)})
}
func (l *lin) addMul(o lin, k *big.Int) {
	for a, q := range o.m {
		v := new(big.Int).Mul(q, k)
		if x, ok := l.m[a]; ok {
			v.Add(v, x)
		}
		l.m[a] = v
	}
	l.k = new(big.Int).Add(l.k, new(big.Int).Mul(o.k, k))
}
func (c *Ctx) Add(ts ...*Term) *Term {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	for _, t := range ts {
		l.addMul(c.toLin(t), one)
	}
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := c.toLin(a)
	l.addMul(c.toLin(b), big.NewInt(-1))
	return c.fromLin(l)
}
func (c *Ctx) MulK(k *big.Int, a *Term) *Term {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	l.addMul(c.toLin(a), k)
	return c.fromLin(l)
}
func (c *Ctx) Neg(a *Term) *Term { return c.MulK(big.NewInt(-1), a) }
func atomsOf(t *Term) []*Term {
	if t.op == OMul {
		return t.args
	}
	return []*Term{t}
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OInt {
		return c.MulK(a.iv, b)
	}
	if b.op == OInt {
		return c.MulK(b.iv, a)
	}
	la, lb := c.toLin(a), c.toLin(b)
	r := lin{map[*Term]*big.Int{}, new(big.Int)}
	r.addMul(lin{lb.m, lb.k}, la.k)
	for x, k := range la.m {
		kk := new(big.Int).Mul(k, lb.k)
		r.addMul(lin{map[*Term]*big.Int{x: one}, new(big.Int)}, kk)
		for y, q := range lb.m {
			at := append(append([]*Term{}, atomsOf(x)...), atomsOf(y)...)
			sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
			m := c.mk(&Term{op: OMul, sort: SInt, args: at})
			r.addMul(lin{map[*Term]*big.Int{m: one}, new(big.Int)}, new(big.Int).Mul(k, q))
		}
	}
	return c.fromLin(r)
}

// Div and Mod are Euclidean (SMT-LIB); callers use them for non-negative or handled operands.
func (c *Ctx) Div(a, b *Term) *Term {
	if b.op == OInt && b.iv.Sign() > 0 {
		d := b.iv
		if d.Cmp(one) == 0 {
			return a
		}
		if a.op == OInt {
			return c.IB(new(big.Int).Div(a.iv, d))
		}
		// pull out multiples of d
		l := c.toLin(a)
		q := lin{map[*Term]*big.Int{}, new(big.Int)}
		r := lin{map[*Term]*big.Int{}, new(big.Int)}
		for x, k := range l.m {
			if new(big.Int).Mod(k, d).Sign() == 0 {
				q.m[x] = new(big.Int).Div(k, d)
			} else {
				r.m[x] = k
			}
		}
		kk := new(big.Int).Div(l.k, d)
		q.k = kk
		r.k = new(big.Int).Sub(l.k, new(big.Int).Mul(kk, d))
		rt := c.fromLin(r)
		lo, hi := c.interval(rt)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(d) < 0 {
			return c.fromLin(q)
		}
		// nested div
		if rt.op == ODiv && rt.args[1].op == OInt {
			return c.Add(c.fromLin(q), c.Div(rt.args[0], c.IB(new(big.Int).Mul(d, rt.args[1].iv))))
		}
		return c.Add(c.fromLin(q), c.mk(&Term{op: ODiv, sort: SInt, args: []*Term{rt, b}}))
	}
	return c.mk(&Term{op: ODiv, sort: SInt, args: []*Term{a, b}})
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if b.op == OInt && b.iv.Sign() > 0 {
		d := b.iv
		if a.op == OInt {
			return c.IB(new(big.Int).Mod(a.iv, d))
		}
		l := c.toLin(a)
		r := lin{map[*Term]*big.Int{}, new(big.Int)}
		for x, k := range l.m {
			// strip inner wraps/mods whose modulus is a multiple of d
			if m := modulusOf(x); m != nil && new(big.Int).Mod(m, d).Sign() == 0 {
				r.addMul(c.toLin(x.args[0]), k)
				continue
			}
			r.addMul(lin{map[*Term]*big.Int{x: one}, new(big.Int)}, k)
		}
		for x, k := range r.m {
			r.m[x] = new(big.Int).Mod(k, d)
		}
		r.k = new(big.Int).Mod(new(big.Int).Add(l.k, r.k), d)
		rt := c.fromLin(r)
		lo, hi := c.interval(rt)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(d) < 0 {
			return rt
		}
		lo, hi = c.interval(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(d) < 0 {
			return a
		}
		return c.mk(&Term{op: OMod, sort: SInt, args: []*Term{rt, b}})
	}
	return c.mk(&Term{op: OMod, sort: SInt, args: []*Term{a, b}})
}
func modulusOf(x *Term) *big.Int {
	switch x.op {
	case OWrap:
		return kindMod(x.name)
	case OMod:
		if x.args[1].op == OInt {
			return x.args[1].iv
		}
	}
	return nil
}
func kindMod(k string) *big.Int {
	return new(big.Int).Add(new(big.Int).Sub(kindHi[k], kindLo[k]), one)
}

// Wrap reduces t into the range of kind k (two's complement).
func (c *Ctx) Wrap(k string, t *Term) *Term {
	lo, hi := c.interval(t)
	if lo != nil && hi != nil && lo.Cmp(kindLo[k]) >= 0 && hi.Cmp(kindHi[k]) <= 0 {
		return t
	}
	M := kindMod(k)
	if t.op == OInt {
		r := new(big.Int).Mod(new(big.Int).Sub(t.iv, kindLo[k]), M)
		return c.IB(r.Add(r, kindLo[k]))
	}
	if t.op == OIte {
		if t.args[1].op == OInt || t.args[2].op == OInt {
			return c.Ite(t.args[0], c.Wrap(k, t.args[1]), c.Wrap(k, t.args[2]))
		}
	}
	l := c.toLin(t)
	r := lin{map[*Term]*big.Int{}, new(big.Int).Set(l.k)}
	for x, q := range l.m {
		if m := modulusOf(x); m != nil && new(big.Int).Mod(m, M).Sign() == 0 {
			r.addMul(c.toLin(x.args[0]), q)
		} else {
			r.addMul(lin{map[*Term]*big.Int{x: one}, new(big.Int)}, q)
		}
	}
	// reduce coefficients and the constant symmetrically
	red := func(x *big.Int) *big.Int {
		y := new(big.Int).Mod(x, M)
		if new(big.Int).Lsh(y, 1).Cmp(M) > 0 {
			y.Sub(y, M)
		}
		return y
	}
	for x, q := range r.m {
		r.m[x] = red(q)
	}
	r.k = red(r.k)
	rt := c.fromLin(r)
	lo, hi = c.interval(rt)
	if lo != nil && hi != nil && lo.Cmp(kindLo[k]) >= 0 && hi.Cmp(kindHi[k]) <= 0 {
		return rt
	}
	if rt.op == OInt {
		return c.Wrap(k, rt)
	}
	return c.mk(&Term{op: OWrap, sort: SK(k), name: k, args: []*Term{rt}})
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a {
	case c.True:
		return c.False
	case c.False:
		return c.True
	}
	switch a.op {
	case ONot:
		return a.args[0]
	case OGe0: // not(p>=0) == -p-1>=0
		return c.Ge0(c.Sub(c.Neg(a.args[0]), c.One))
	}
	return c.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}
func (c *Ctx) nary(op Op, unit, absorb *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == absorb {
			return true
		}
		if t == unit || seen[t] {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if add(a) {
					return true
				}
			}
			return false
		}
		if seen[c.Not(t)] {
			return true
		}
		seen[t] = true
		out = append(out, t)
		return false
	}
	for _, t := range ts {
		if add(t) {
			return absorb
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, sort: SBool, args: out})
}
func (c *Ctx) And(ts ...*Term) *Term { return c.nary(OAnd, c.True, c.False, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary(OOr, c.False, c.True, ts) }
func (c *Ctx) Imp(a, b *Term) *Term  { return c.Or(c.Not(a), b) }
func (c *Ctx) Iff(a, b *Term) *Term  { return c.Eq(a, b) }
func (c *Ctx) Ge0(p *Term) *Term {
	lo, hi := c.interval(p)
	if lo != nil && lo.Sign() >= 0 {
		return c.True
	}
	if hi != nil && hi.Sign() < 0 {
		return c.False
	}
	if p.op == OPoly {
		// divide by gcd of the coefficients
		g := new(big.Int)
		for _, k := range p.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(one) > 0 {
			l := lin{map[*Term]*big.Int{}, new(big.Int).Div(p.iv, g)}
			for i, a := range p.args {
				l.m[a] = new(big.Int).Div(p.coef[i], g)
			}
			p = c.fromLin(l)
		}
	}
	if p.op == OIte && (p.args[1].op == OInt || p.args[2].op == OInt) {
		return c.Ite(p.args[0], c.Ge0(p.args[1]), c.Ge0(p.args[2]))
	}
	return c.mk(&Term{op: OGe0, sort: SBool, args: []*Term{p}})
}
func (c *Ctx) Le(a, b *Term) *Term { return c.Ge0(c.Sub(b, a)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.Ge0(c.Sub(c.Sub(b, a), c.One)) }

// isRef: terms that denote references born at or before their epoch
func isRef(t *Term) bool {
	return t.sort == SRef || t.op == OInt && t.iv.Sign() <= 0
}

// distinctRefs: a and b can never be equal
func distinctRefs(a, b *Term) bool {
	if isAlloc(a) && isRef(b) && b.epoch < a.epoch {
		return true
	}
	if isAlloc(b) && isRef(a) && a.epoch < b.epoch {
		return true
	}
	if isAlloc(a) && isAlloc(b) && a != b {
		return true
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort.Base == "Bool" {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	}
	if a.sort.isInt() {
		if distinctRefs(a, b) {
			return c.False
		}
		p := c.Sub(a, b)
		if p.op == OInt {
			return c.B(p.iv.Sign() == 0)
		}
		lo, hi := c.interval(p)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return c.False
		}
		if a.op == OIte && b.op == OInt && (a.args[1].op == OInt || a.args[2].op == OInt) {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if b.op == OIte && a.op == OInt && (b.args[1].op == OInt || b.args[2].op == OInt) {
			return c.Ite(b.args[0], c.Eq(b.args[1], a), c.Eq(b.args[2], a))
		}
		// canonical orientation of the difference
		if p.op == OPoly {
			g := new(big.Int)
			for _, k := range p.coef {
				g.GCD(nil, nil, g, new(big.Int).Abs(k))
			}
			if g.Cmp(one) > 0 {
				if new(big.Int).Mod(p.iv, g).Sign() != 0 {
					return c.False
				}
			}
			if g.Sign() == 0 {
				g = one
			}
			if p.coef[0].Sign() < 0 {
				g = new(big.Int).Neg(g)
			}
			// a == b  as  pos-part == neg-part
			l1 := lin{map[*Term]*big.Int{}, new(big.Int)}
			l2 := lin{map[*Term]*big.Int{}, new(big.Int)}
			for i, x := range p.args {
				k := new(big.Int).Quo(p.coef[i], g)
				if k.Sign() > 0 {
					l1.m[x] = k
				} else {
					l2.m[x] = new(big.Int).Neg(k)
				}
			}
			l2.k = new(big.Int).Neg(new(big.Int).Quo(p.iv, g))
			a, b = c.fromLin(l1), c.fromLin(l2)
		} else {
			a, b = p, c.Zero
		}
		return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
	}
	if a.sort.Base == "BV" && a.op == OBVC && b.op == OBVC {
		return c.B(a.iv.Cmp(b.iv) == 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}
func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k == c.True || a == b {
		return a
	}
	if k == c.False {
		return b
	}
	if k.op == ONot {
		return c.Ite(k.args[0], b, a)
	}
	if a.sort.Base == "Bool" {
		if a == c.True && b == c.False {
			return k
		}
		if a == c.False && b == c.True {
			return c.Not(k)
		}
		if a == c.True {
			return c.Or(k, b)
		}
		if a == c.False {
			return c.And(c.Not(k), b)
		}
		if b == c.True {
			return c.Or(c.Not(k), a)
		}
		if b == c.False {
			return c.And(k, a)
		}
	}
	if a.op == OIte && a.args[0] == k {
		return c.Ite(k, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == k {
		return c.Ite(k, a, b.args[2])
	}
	s := a.sort
	if s.isInt() && b.sort != s {
		s = SInt
	}
	return c.mk(&Term{op: OIte, sort: s, args: []*Term{k, a, b}})
}
func (c *Ctx) Min(a, b *Term) *Term { return c.Ite(c.Le(a, b), a, b) }
func (c *Ctx) Max(a, b *Term) *Term { return c.Ite(c.Le(b, a), a, b) }

// cmpRef decides equality of indices: 1 equal, 0 different, -1 unknown
func (c *Ctx) cmpIdx(i, j *Term) int {
	e := c.Eq(i, j)
	if e == c.True {
		return 1
	}
	if e == c.False {
		return 0
	}
	if c.known != nil {
		if c.known.quick(e) {
			return 1
		}
		if c.known.quick(c.Not(e)) {
			return 0
		}
	}
	return -1
}

// decide uses the current path facts for a cheap decision
func (c *Ctx) decide(t *Term) *Term {
	if t == c.True || t == c.False || c.known == nil {
		return t
	}
	if c.known.quick(t) {
		return c.True
	}
	if c.known.quick(c.Not(t)) {
		return c.False
	}
	return t
}

func (c *Ctx) Select(a, i *Term) *Term {
	switch a.op {
	case OConstArr:
		return a.args[0]
	case OStore:
		switch c.cmpIdx(a.args[1], i) {
		case 1:
			return a.args[2]
		case 0:
			return c.Select(a.args[0], i)
		}
		return c.Ite(c.Eq(a.args[1], i), a.args[2], c.Select(a.args[0], i))
	case OIte:
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	case OBlitA: // A,p,B,q,n
		p, q, n := a.args[1], a.args[3], a.args[4]
		in := c.And(c.decide(c.Le(p, i)), c.decide(c.Lt(i, c.Add(p, n))))
		if in == c.False {
			return c.Select(a.args[0], i)
		}
		src := c.Select(a.args[2], c.Add(c.Sub(i, p), q))
		if in == c.True {
			return src
		}
		return c.Ite(in, src, c.Select(a.args[0], i))
	case OVar:
		if f := a.frame; f != nil && !i.bound && isRef(i) && i.epoch <= f.limit {
			ok := true
			for _, e := range f.except {
				if c.cmpIdx(e, i) != 0 {
					ok = false
				}
			}
			if ok {
				return c.Select(f.base, i)
			}
		}
	}
	return c.mk(&Term{op: OSelect, sort: a.sort.Elem, args: []*Term{a, i}})
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == OStore && a.args[1] == i {
		a = a.args[0]
	}
	// keep alloc indices sorted for canonicity
	if c.mk(&Term{op: OSelect, sort: a.sort.Elem, args: []*Term{a, i}}) == v {
		return a
	}
	return c.mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}
func (c *Ctx) ConstArr(v *Term, s *Sort) *Term {
	return c.mk(&Term{op: OConstArr, sort: s, args: []*Term{v}})
}
func (c *Ctx) BlitA(a, p, b, q, n *Term) *Term {
	if c.decide(c.Eq(n, c.Zero)) == c.True {
		return a
	}
	return c.mk(&Term{op: OBlitA, sort: a.sort, args: []*Term{a, p, b, q, n}})
}

// ---- byte memories

func (c *Ctx) Rd(m, p, n *Term) *Term {
	switch m.op {
	case OWr: // m,p,n,v
		p2, n2 := m.args[1], m.args[2]
		if n == n2 && c.cmpIdx(p, p2) == 1 {
			return m.args[3]
		}
		if c.decide(c.Le(c.Add(p, n), p2)) == c.True || c.decide(c.Le(c.Add(p2, n2), p)) == c.True {
			return c.Rd(m.args[0], p, n)
		}
		if d := c.Sub(p, p2); d.op == OInt && n.op == OInt && n2.op == OInt && d.iv.Sign() >= 0 && new(big.Int).Add(d.iv, n.iv).Cmp(n2.iv) <= 0 {
			v := c.Div(m.args[3], c.IB(pow2(uint(8*d.iv.Int64()))))
			return c.Mod(v, c.IB(pow2(uint(8*n.iv.Int64()))))
		}
	case OBlit: // m,p,s,q,n
		p2, q, n2 := m.args[1], m.args[3], m.args[4]
		if c.decide(c.Le(p2, p)) == c.True && c.decide(c.Le(c.Add(p, n), c.Add(p2, n2))) == c.True {
			return c.Rd(m.args[2], c.Add(c.Sub(p, p2), q), n)
		}
		if c.decide(c.Le(c.Add(p, n), p2)) == c.True || c.decide(c.Le(c.Add(p2, n2), p)) == c.True {
			return c.Rd(m.args[0], p, n)
		}
	case OVar:
		if m.name == "zeros" {
			return c.Zero
		}
	case OIte:
		return c.Ite(m.args[0], c.Rd(m.args[1], p, n), c.Rd(m.args[2], p, n))
	}
	if n == c.Zero {
		return c.Zero
	}
	return c.mk(&Term{op: ORd, sort: SInt, args: []*Term{m, p, n}})
}
func (c *Ctx) Wr(m, p, n, v *Term) *Term {
	return c.mk(&Term{op: OWr, sort: SMem, args: []*Term{m, p, n, v}})
}
func (c *Ctx) Blit(m, p, s, q, n *Term) *Term {
	if c.decide(c.Eq(n, c.Zero)) == c.True {
		return m
	}
	return c.mk(&Term{op: OBlit, sort: SMem, args: []*Term{m, p, s, q, n}})
}
func (c *Ctx) Zeros() *Term {
	t := c.mk(&Term{op: OVar, sort: SMem, name: "zeros"})
	return t
}

// App applies an uninterpreted function.  A window function (mem, off, len, ...) depends on mem only
// through the bytes off..off+len, so it can be moved to the memory those bytes come from.
func (c *Ctx) App(name string, s *Sort, args ...*Term) *Term {
	if c.windows[name] && !args[0].bound {
		m, p, n := args[0], args[1], args[2]
		with := func(m2, p2 *Term) *Term { return c.App(name, s, append([]*Term{m2, p2}, args[2:]...)...) }
		switch m.op {
		case OBlit:
			p2, q, n2 := m.args[1], m.args[3], m.args[4]
			if c.decide(c.Le(p2, p)) == c.True && c.decide(c.Le(c.Add(p, n), c.Add(p2, n2))) == c.True {
				return with(m.args[2], c.Add(c.Sub(p, p2), q))
			}
			if c.decide(c.Le(c.Add(p, n), p2)) == c.True || c.decide(c.Le(c.Add(p2, n2), p)) == c.True {
				return with(m.args[0], p)
			}
		case OWr:
			p2, n2 := m.args[1], m.args[2]
			if c.decide(c.Le(c.Add(p, n), p2)) == c.True || c.decide(c.Le(c.Add(p2, n2), p)) == c.True {
				return with(m.args[0], p)
			}
		case OIte:
			return c.Ite(m.args[0], with(m.args[1], p), with(m.args[2], p))
		}
	}
	return c.mk(&Term{op: OApp, sort: s, name: name, args: args})
}
func (c *Ctx) Forall(v, body *Term, trig ...*Term) *Term {
	if body == c.True || body == c.False {
		return body
	}
	t := c.mk(&Term{op: OForall, sort: SBool, args: []*Term{v, body}})
	t.trig = trig
	return t
}

// rebuild constructs the node op of t over new arguments, simplifying
func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OPoly:
		l := lin{map[*Term]*big.Int{}, new(big.Int).Set(t.iv)}
		for i, x := range a {
			l.addMul(c.toLin(x), t.coef[i])
		}
		return c.fromLin(l)
	case OMul:
		r := a[0]
		for _, x := range a[1:] {
			r = c.Mul(r, x)
		}
		return r
	case ODiv:
		return c.Div(a[0], a[1])
	case OMod:
		return c.Mod(a[0], a[1])
	case OWrap:
		return c.Wrap(t.name, a[0])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OEq:
		return c.Eq(a[0], a[1])
	case OGe0:
		return c.Ge0(a[0])
	case OSelect:
		return c.Select(a[0], a[1])
	case OStore:
		return c.Store(a[0], a[1], a[2])
	case OConstArr:
		return c.ConstArr(a[0], t.sort)
	case OBlitA:
		return c.BlitA(a[0], a[1], a[2], a[3], a[4])
	case ORd:
		return c.Rd(a[0], a[1], a[2])
	case OWr:
		return c.Wr(a[0], a[1], a[2], a[3])
	case OBlit:
		return c.Blit(a[0], a[1], a[2], a[3], a[4])
	case OApp:
		return c.App(t.name, t.sort, a...)
	case OForall:
		return c.Forall(a[0], a[1], t.trig...)
	case OBV:
		return c.BV(t.name, t.sort, a...)
	}
	panic("rebuild")
}

// Subst replaces terms by terms.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.args) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(x.args))
		for i, a := range x.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			r = c.rebuild(x, na)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

// ---- bit vectors

func (c *Ctx) BVC(n *big.Int, w int) *Term {
	v := new(big.Int).Mod(n, pow2(uint(w)))
	return c.mk(&Term{op: OBVC, sort: SBV(w), iv: v})
}
func (c *Ctx) BV(name string, s *Sort, a ...*Term) *Term {
	// constant folding where it matters for control flow
	allc := true
	for _, x := range a {
		if x.op != OBVC {
			allc = false
		}
	}
	if allc {
		w := uint(a[0].sort.W)
		x := a[0].iv
		sx := func(t *Term) *big.Int {
			if t.iv.Bit(t.sort.W-1) == 1 {
				return new(big.Int).Sub(t.iv, pow2(uint(t.sort.W)))
			}
			return t.iv
		}
		switch name {
		case "bvadd":
			return c.BVC(new(big.Int).Add(x, a[1].iv), int(w))
		case "bvsub":
			return c.BVC(new(big.Int).Sub(x, a[1].iv), int(w))
		case "bvmul":
			return c.BVC(new(big.Int).Mul(x, a[1].iv), int(w))
		case "bvand":
			return c.BVC(new(big.Int).And(x, a[1].iv), int(w))
		case "bvor":
			return c.BVC(new(big.Int).Or(x, a[1].iv), int(w))
		case "bvxor":
			return c.BVC(new(big.Int).Xor(x, a[1].iv), int(w))
		case "bvneg":
			return c.BVC(new(big.Int).Neg(x), int(w))
		case "bvnot":
			return c.BVC(new(big.Int).Not(x), int(w))
		case "bvult":
			return c.B(x.Cmp(a[1].iv) < 0)
		case "bvule":
			return c.B(x.Cmp(a[1].iv) <= 0)
		case "bvslt":
			return c.B(sx(a[0]).Cmp(sx(a[1])) < 0)
		case "bvsle":
			return c.B(sx(a[0]).Cmp(sx(a[1])) <= 0)
		case "bvshl":
			if a[1].iv.Cmp(big.NewInt(int64(w))) >= 0 {
				return c.BVC(zero, int(w))
			}
			return c.BVC(new(big.Int).Lsh(x, uint(a[1].iv.Int64())), int(w))
		case "bvlshr":
			if a[1].iv.Cmp(big.NewInt(int64(w))) >= 0 {
				return c.BVC(zero, int(w))
			}
			return c.BVC(new(big.Int).Rsh(x, uint(a[1].iv.Int64())), int(w))
		}
		if strings.HasPrefix(name, "zext") {
			return c.BVC(x, s.W)
		}
		if strings.HasPrefix(name, "sext") {
			return c.BVC(sx(a[0]), s.W)
		}
		if strings.HasPrefix(name, "trunc") {
			return c.BVC(x, s.W)
		}
	}
	return c.mk(&Term{op: OBV, sort: s, name: name, args: a})
}
