package main

// Ground instantiation of quantified facts and axiom schemas.

import (
	"fmt"
	"math/big"
	"os"
	"sort"
)

// FoldDef is a fold over an index range: kind sum, min or max of step(params, k).
type FoldDef struct {
	name   string
	kind   string // sum, min, max
	params []*Term
	k      *Term
	step   *Term
	unit   *Term // for min/max
}

func (c *Ctx) Fold(name string, args []*Term, lo, hi *Term) *Term {
	d := c.folds[name]
	if d == nil {
		panic("no fold " + name)
	}
	if c.Eq(lo, hi) == c.True {
		return c.foldUnit(d)
	}
	s := SInt
	return c.App("fold:"+name, s, append(append([]*Term{}, args...), lo, hi)...)
}
func (c *Ctx) foldUnit(d *FoldDef) *Term {
	if d.kind == "sum" {
		return c.Zero
	}
	return d.unit
}
func (c *Ctx) foldOp(d *FoldDef, a, b *Term) *Term {
	switch d.kind {
	case "sum":
		return c.Add(a, b)
	case "min":
		return c.Min(a, b)
	}
	return c.Max(a, b)
}
func (c *Ctx) foldStep(d *FoldDef, args []*Term, k *Term) *Term {
	m := map[*Term]*Term{d.k: k}
	for i, p := range d.params {
		m[p] = args[i]
	}
	return c.Subst(d.step, m)
}

// foldInterval bounds a fold by the bounds of its step and the length of its range.
func (c *Ctx) foldInterval(t *Term) (lo, hi *big.Int) {
	d := c.folds[t.name[5:]]
	if d.step == nil {
		return nil, nil
	}
	n := len(t.args)
	sl, sh := c.interval(c.foldStep(d, t.args[:n-2], c.Var("?fold$iv$"+d.name, SInt)))
	if d.kind != "sum" {
		u := d.unit.iv
		if sl != nil {
			lo = sl
			if u.Cmp(lo) < 0 {
				lo = u
			}
		}
		if sh != nil {
			hi = sh
			if u.Cmp(hi) > 0 {
				hi = u
			}
		}
		return
	}
	_, m := c.interval(c.Sub(t.args[n-1], t.args[n-2]))
	if m != nil && m.Sign() < 0 {
		m = zero
	}
	if sl != nil && sl.Sign() >= 0 {
		lo = zero
	} else if sl != nil && m != nil {
		lo = new(big.Int).Mul(sl, m)
	}
	if sh != nil && sh.Sign() <= 0 {
		hi = zero
	} else if sh != nil && m != nil {
		hi = new(big.Int).Mul(sh, m)
	}
	return
}
func isFold(t *Term) bool { return t.op == OApp && len(t.name) > 5 && t.name[:5] == "fold:" }

type instState struct {
	c        *Ctx
	out      []*Term
	gen      map[*Term]int
	seenPos  map[*Term]int // forall -> bit0 positive registered, bit1 negative done
	foralls  []*Term
	fgen     map[*Term]int
	pending  []*Term
	done     map[[2]int]bool
	byOp     map[string][]*Term // trigger index
	folds    []*Term
	count    int
	limit    int
	maxGen   int
	lite     bool // no lemmas about folds beyond their definition
	asserted map[*Term]bool
	ibv      map[*Term]bool
	pgen     map[*Term]int
	part     map[*Term]*Term // the part of an assertion whose quantifiers are not handled elsewhere
}

func trigKey(t *Term) string {
	switch t.op {
	case OSelect:
		if t.args[0].bound {
			return "sel*"
		}
		return fmt.Sprintf("sel%d", t.args[0].id)
	case ORd:
		if t.args[0].bound {
			return "rd*"
		}
		return fmt.Sprintf("rd%d", t.args[0].id)
	case OApp:
		return "app" + t.name
	}
	return ""
}

func (s *instState) assert(f *Term, gen int) {
	if f == s.c.True || s.asserted[f] {
		return
	}
	s.asserted[f] = true
	s.out = append(s.out, f)
	w := f
	if p := s.part[f]; p != nil {
		w = p
	}
	s.polarity(w, 1, gen, map[[2]int]bool{})
	s.ground(f, gen)
}

// polarity walks the boolean structure; pol: 1 positive, 2 negative
func (s *instState) polarity(f *Term, pol int, gen int, memo map[[2]int]bool) {
	k := [2]int{f.id, pol}
	if memo[k] {
		return
	}
	memo[k] = true
	switch f.op {
	case ONot:
		s.polarity(f.args[0], 3-pol, gen, memo)
	case OAnd, OOr:
		for _, a := range f.args {
			s.polarity(a, pol, gen, memo)
		}
	case OIte, OEq:
		for i, a := range f.args {
			if a.sort == SBool {
				s.polarity(a, pol, gen, memo)
				if f.op == OEq || i == 0 {
					s.polarity(a, 3-pol, gen, memo)
				}
			}
		}
	case OForall:
		if f.bound {
			return
		}
		if pol == 1 && s.seenPos[f]&1 == 0 {
			s.seenPos[f] |= 1
			s.fgen[f] = gen
			s.foralls = append(s.foralls, f)
			s.tryForall(f)
		}
		if pol == 2 && s.seenPos[f]&2 == 0 {
			s.seenPos[f] |= 2
			sk := s.c.mk(&Term{op: OVar, sort: SInt, name: fmt.Sprintf("sk!%d", f.id)})
			b := s.c.Subst(f.args[1], map[*Term]*Term{f.args[0]: sk})
			nb := s.c.Not(b)
			full := s.c.Or(f, nb)
			s.part[full] = nb
			s.assert(full, gen)
		}
	}
}

func (s *instState) ground(t *Term, gen int) {
	if t.bound {
		return
	}
	if _, ok := s.gen[t]; ok {
		return
	}
	s.gen[t] = gen
	if t.op == OForall {
		return
	}
	for _, a := range t.args {
		s.ground(a, gen)
	}
	c := s.c
	switch t.op {
	case OSelect, ORd, OApp:
		k := trigKey(t)
		s.byOp[k] = append(s.byOp[k], t)
		if t.op == OSelect {
			s.byOp["sel*"] = append(s.byOp["sel*"], t)
		}
		if t.op == ORd {
			s.byOp["rd*"] = append(s.byOp["rd*"], t)
		}
		for _, f := range s.foralls {
			s.tryForallOn(f, t)
		}
		if isFold(t) {
			s.foldAxioms(t, gen)
		}
		if t.op == OApp {
			if m := t.args; c.windows[t.name] && (m[0].op == OBlit || m[0].op == OWr) {
				b, p, n := m[0], m[1], m[2]
				p2, n2 := b.args[1], b.args[2]
				if b.op == OBlit {
					n2 = b.args[4]
				}
				with := func(m2, p2 *Term) *Term { return c.App(t.name, t.sort, append([]*Term{m2, p2}, m[2:]...)...) }
				dis := c.Or(c.Le(c.Add(p, n), p2), c.Le(c.Add(p2, n2), p))
				s.later(c.Imp(c.And(c.Le(c.Zero, n), dis), c.Eq(t, with(b.args[0], p))), gen)
				if b.op == OBlit {
					in := c.And(c.Le(p2, p), c.Le(c.Add(p, n), c.Add(p2, n2)))
					s.later(c.Imp(c.And(c.Le(c.Zero, n), in), c.Eq(t, with(b.args[2], c.Add(c.Sub(p, p2), b.args[3])))), gen)
				}
			}
			if gen <= s.maxGen {
				for _, ax := range c.axioms[t.name] {
					if ax.once && gen > 0 || ax.show && !c.showing {
						continue
					}
					for _, f := range ax.inst(t) {
						s.later(f, gen+1)
					}
				}
			}
		}
		if t.op == OSelect {
			s.frameAxiom(t, gen)
		}
	}
	switch t.op {
	case ORd:
		m := t.args[0]
		p, n := t.args[1], t.args[2]
		if m.op == OWr {
			p2, n2 := m.args[1], m.args[2]
			same := c.And(c.Eq(p, p2), c.Eq(n, n2))
			dis := c.Or(c.Le(c.Add(p, n), p2), c.Le(c.Add(p2, n2), p))
			s.later(c.Imp(same, c.Eq(t, m.args[3])), gen)
			s.later(c.Imp(dis, c.Eq(t, c.Rd(m.args[0], p, n))), gen)
		} else if m.op == OBlit {
			p2, q, n2 := m.args[1], m.args[3], m.args[4]
			in := c.And(c.Le(p2, p), c.Le(c.Add(p, n), c.Add(p2, n2)))
			dis := c.Or(c.Le(c.Add(p, n), p2), c.Le(c.Add(p2, n2), p))
			s.later(c.Imp(c.And(in, c.Lt(c.Zero, n)), c.Eq(t, c.Rd(m.args[2], c.Add(c.Sub(p, p2), q), n))), gen)
			s.later(c.Imp(dis, c.Eq(t, c.Rd(m.args[0], p, n))), gen)
		}
		if n.op != OInt {
			s.later(c.Ge0(t), gen)
		}
	case ODiv, OMod:
		if t.args[1].op != OInt {
			a, b := t.args[0], t.args[1]
			d := c.mk(&Term{op: ODiv, sort: SInt, args: []*Term{a, b}})
			m := c.Mul(b, d)
			s.later(c.Imp(c.Lt(c.Zero, b), c.And(c.Le(m, a), c.Lt(a, c.Add(m, b)))), gen)
		}
	}
}
func (s *instState) later(f *Term, gen int) {
	if f == s.c.True || s.asserted[f] {
		return
	}
	s.pending = append(s.pending, f)
	if g, ok := s.pgen[f]; !ok || g > gen {
		s.pgen[f] = gen
	}
}

func (s *instState) foldAxioms(t *Term, gen int) {
	c := s.c
	d := c.folds[t.name[5:]]
	n := len(t.args)
	lo, hi := t.args[n-2], t.args[n-1]
	args := t.args[:n-2]
	unit := c.foldUnit(d)
	s.later(c.Imp(c.Le(hi, lo), c.Eq(t, unit)), gen)
	if gen <= 2 && (!s.lite || gen == 0) {
		h1 := c.Sub(hi, c.One)
		prev := c.Fold(d.name, args, lo, h1)
		s.later(c.Imp(c.Lt(lo, hi), c.Eq(t, c.foldOp(d, prev, c.foldStep(d, args, h1)))), gen+1)
	}
	// bounds
	slo, shi := c.interval(c.foldStep(d, args, c.Var("?fold$iv$"+d.name, SInt)))
	if d.kind == "sum" {
		if slo != nil && slo.Sign() >= 0 {
			s.later(c.Imp(c.Le(lo, hi), c.Le(c.MulK(slo, c.Sub(hi, lo)), t)), gen)
		}
		if shi != nil && slo != nil {
			if slo.Sign() < 0 {
				s.later(c.Imp(c.Le(lo, hi), c.Le(c.MulK(slo, c.Sub(hi, lo)), t)), gen)
			}
			s.later(c.Imp(c.Le(lo, hi), c.Le(t, c.MulK(shi, c.Sub(hi, lo)))), gen)
		}
	} else {
		ulo, uhi := unit.iv, unit.iv
		if slo != nil {
			l := slo
			if ulo.Cmp(l) < 0 {
				l = ulo
			}
			s.later(c.Le(c.IB(l), t), gen)
		}
		if shi != nil {
			h := shi
			if uhi.Cmp(h) > 0 {
				h = uhi
			}
			s.later(c.Le(t, c.IB(h)), gen)
		}
		if gen <= 1 && !s.lite {
			// every element is on the right side of the fold
			k := c.BoundVar("fk")
			st := c.foldStep(d, args, k)
			rel := c.Le(t, st)
			if d.kind == "max" {
				rel = c.Le(st, t)
			}
			s.later(c.Forall(k, c.Imp(c.And(c.Le(lo, k), c.Lt(k, hi)), rel)), gen+1)
		}
	}
	if gen <= 1 && !s.lite {
		// unit lemma: if every step is the unit the fold is the unit
		k := c.BoundVar("fz")
		un := unit
		st := c.foldStep(d, args, k)
		all := c.Forall(k, c.Imp(c.And(c.Le(lo, k), c.Lt(k, hi)), c.Eq(st, un)))
		s.later(c.Imp(all, c.Eq(t, un)), gen+1)
	}
	// pair schemas
	for _, o := range s.folds {
		od := c.folds[o.name[5:]]
		if od.kind != d.kind || od.unit != d.unit || o.name != t.name && (gen > 0 || s.gen[o] > 0) {
			continue
		}
		s.foldPair(d, od, t, o)
	}
	s.folds = append(s.folds, t)
}

func sameArgs(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s *instState) foldPair(d, db *FoldDef, a, b *Term) {
	c := s.c
	g := s.gen[a]
	if s.gen[b] > g {
		g = s.gen[b]
	}
	if g > 2 || s.lite && g > 1 {
		return
	}
	n, m := len(a.args), len(b.args)
	la, ha, lb, hb := a.args[n-2], a.args[n-1], b.args[m-2], b.args[m-1]
	aa, ab := a.args[:n-2], b.args[:m-2]
	if d == db && sameArgs(aa, ab) {
		// splitting
		split := func(x, y *Term) { // x=[l,m) y=[m',h): when m==m'
			lx, mx, my, hy := x.args[n-2], x.args[n-1], y.args[n-2], y.args[n-1]
			if c.Eq(mx, my) == c.False || lx == my && hy == mx {
				return
			}
			if mx == c.Zero || hy == c.Zero {
				return
			}
			whole := c.Fold(d.name, aa, lx, hy)
			s.later(c.Imp(c.And(c.Eq(mx, my), c.Le(lx, mx), c.Le(my, hy)), c.Eq(whole, c.foldOp(d, x, y))), g+1)
		}
		if la != lb {
			if c.Eq(ha, lb) != c.False && (ha == lb || g == 0) {
				split(a, b)
			}
			if c.Eq(hb, la) != c.False && (hb == la || g == 0) {
				split(b, a)
			}
		}
		if la == lb && ha != hb {
			// equal ranges, prefix monotonicity
			s.later(c.Imp(c.Eq(ha, hb), c.Eq(a, b)), g)
			slo, _ := c.interval(c.foldStep(d, aa, c.Var("?fold$iv$"+d.name, SInt)))
			if d.kind == "sum" && slo != nil && slo.Sign() >= 0 {
				mono := func(x, y *Term) {
					hx, hy := x.args[n-1], y.args[n-1]
					s.later(c.Imp(c.And(c.Le(la, hx), c.Le(hx, hy)), c.Le(c.Add(x, c.MulK(slo, c.Sub(hy, hx))), y)), g)
				}
				mono(a, b)
				mono(b, a)
			}
		}
		return
	}
	// congruence by extensionality
	x, y := a, b
	if x.id > y.id {
		x, y = y, x
		la, ha, lb, hb = lb, hb, la, ha
		aa, ab = ab, aa
		d, db = db, d
	}
	if c.Eq(c.Sub(ha, la), c.Sub(hb, lb)) == c.False || s.lite && g > 0 {
		return
	}
	sk := c.mk(&Term{op: OVar, sort: SInt, name: fmt.Sprintf("skf!%d!%d", x.id, y.id)})
	s1 := c.foldStep(d, aa, c.Add(la, sk))
	s2 := c.foldStep(db, ab, c.Add(lb, sk))
	if s1 == s2 {
		s.later(c.Imp(c.Eq(c.Sub(ha, la), c.Sub(hb, lb)), c.Eq(x, y)), g+1)
		return
	}
	s.later(c.Or(c.Not(c.Eq(c.Sub(ha, la), c.Sub(hb, lb))), c.Eq(x, y),
		c.And(c.Le(c.Zero, sk), c.Lt(sk, c.Sub(ha, la)), c.Not(c.Eq(s1, s2)))), g+1)
}

// triggers of a forall: subterms containing the bound variable usable for matching
func (c *Ctx) triggers(f *Term) []*Term {
	if f.trig != nil {
		return f.trig
	}
	bv := f.args[0]
	var out []*Term
	seen := map[*Term]bool{}
	var has func(t *Term) bool
	hm := map[*Term]bool{}
	has = func(t *Term) bool {
		if t == bv {
			return true
		}
		if !t.bound {
			return false
		}
		if r, ok := hm[t]; ok {
			return r
		}
		r := false
		for _, a := range t.args {
			if has(a) {
				r = true
				break
			}
		}
		hm[t] = r
		return r
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !has(t) {
			return
		}
		seen[t] = true
		switch t.op {
		case OForall:
			walk(t.args[1])
			return
		case OSelect:
			if has(t.args[1]) {
				out = append(out, t)
			}
		case ORd:
			if has(t.args[1]) {
				out = append(out, t)
			}
		case OApp:
			out = append(out, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(f.args[1])
	f.trig = out
	if out == nil {
		f.trig = []*Term{}
	}
	return f.trig
}

func (s *instState) tryForall(f *Term) {
	for _, p := range s.c.triggers(f) {
		for _, g := range append([]*Term{}, s.byOp[trigKey(p)]...) {
			s.matchInst(f, p, g)
		}
	}
}
func (s *instState) tryForallOn(f, g *Term) {
	for _, p := range s.c.triggers(f) {
		if p.op == g.op && (trigKey(p) == trigKey(g) || p.op != OApp && p.args[0].bound) {
			s.matchInst(f, p, g)
		}
	}
}
func (s *instState) matchInst(f, p, g *Term) {
	if s.gen[g] > s.maxGen {
		return
	}
	for _, k := range s.c.match(p, g, f.args[0], s.gen[g] > 0) {
		if k.bound {
			continue
		}
		key := [2]int{f.id, k.id}
		if s.done[key] {
			continue
		}
		s.done[key] = true
		s.count++
		inst := s.c.Subst(f.args[1], map[*Term]*Term{f.args[0]: k})
		gg := s.gen[g]
		if s.fgen[f] > gg {
			gg = s.fgen[f]
		}
		full := s.c.Or(s.c.Not(f), inst)
		s.part[full] = inst
		s.later(full, gg+1)
	}
}

// match solves p(bv) = g for bv heuristically; strict insists on equal integer arguments of functions
func (c *Ctx) match(p, g, bv *Term, strict bool) []*Term {
	if p == bv {
		return []*Term{g}
	}
	if !p.bound {
		return nil
	}
	if p.sort.isInt() && (p.op == OPoly) {
		l := c.toLin(p)
		k := l.m[bv]
		if k == nil {
			k = zero
		}
		var bounds []*Term
		for a := range l.m {
			if a != bv && a.bound {
				bounds = append(bounds, a)
			}
		}
		if len(bounds) == 0 && k.Sign() != 0 {
			delete(l.m, bv)
			d := c.Sub(g, c.fromLin(l))
			// divide by k
			if k.Cmp(one) == 0 {
				return []*Term{d}
			}
			dl := c.toLin(d)
			r := lin{map[*Term]*big.Int{}, new(big.Int)}
			for a, q := range dl.m {
				if new(big.Int).Rem(q, k).Sign() != 0 {
					return nil
				}
				r.m[a] = new(big.Int).Quo(q, k)
			}
			if new(big.Int).Rem(dl.k, k).Sign() != 0 {
				return nil
			}
			r.k = new(big.Int).Quo(dl.k, k)
			return []*Term{c.fromLin(r)}
		}
		sort.Slice(bounds, func(i, j int) bool { return bounds[i].id < bounds[j].id })
		var out []*Term
		gl := c.toLin(g)
		for _, b := range bounds {
			for a := range gl.m {
				if a.op == b.op && a.name == b.name {
					out = append(out, c.match(b, a, bv, strict)...)
				}
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
		return out
	}
	if p.op != g.op || p.name != g.name || len(p.args) != len(g.args) {
		return nil
	}
	if strict && p.op == OApp {
		for i, a := range p.args {
			if !a.bound && a != g.args[i] && a.sort.isInt() {
				return nil
			}
		}
	}
	var out []*Term
	for i := range p.args {
		if p.args[i].bound {
			r := c.match(p.args[i], g.args[i], bv, strict)
			out = append(out, r...)
			if len(r) > 0 {
				break
			}
		} else if p.op == OApp && p.args[i] != g.args[i] && !p.args[i].sort.isInt() {
			// heuristics: do not insist on equal array arguments
			continue
		}
	}
	return out
}

// expand produces the ground assertions for facts and the negated goal.
func (c *Ctx) expand(facts []*Term, maxGen, limit int, lite bool) []*Term {
	s := &instState{c: c, lite: lite, gen: map[*Term]int{}, seenPos: map[*Term]int{}, fgen: map[*Term]int{}, done: map[[2]int]bool{},
		byOp: map[string][]*Term{}, limit: limit, maxGen: maxGen, asserted: map[*Term]bool{}, pgen: map[*Term]int{}, part: map[*Term]*Term{}}
	saved := c.known
	c.known = nil
	defer func() { c.known = saved }()
	for _, f := range facts {
		s.assert(f, 0)
	}
	for len(s.pending) > 0 && s.count < limit && len(s.out) < 4*limit {
		p := s.pending
		s.pending = nil
		for _, f := range p {
			g := s.pgen[f]
			s.assert(f, g)
		}
	}
	if os.Getenv("GOVC_INST") != "" {
		fmt.Fprintln(os.Stderr, "expand: facts", len(facts), "out", len(s.out), "count", s.count, "pending", len(s.pending))
		cnt := map[int]int{}
		for k := range s.done {
			cnt[k[0]]++
		}
		for _, f := range s.foralls {
			if cnt[f.id] > 200 {
				fmt.Fprintln(os.Stderr, "  ", cnt[f.id], f.id, trunc(f.String(), 400))
			}
		}
	}
	return s.out
}

// frameAxiom: a havocked heap array agrees with its predecessor on references it could not have changed
func (s *instState) frameAxiom(t *Term, gen int) {
	c := s.c
	a, i := t.args[0], t.args[1]
	if a.op != OVar || a.frame == nil || !isRef(i) || i.epoch > a.frame.limit {
		return
	}
	g := c.True
	for _, e := range a.frame.except {
		g = c.And(g, c.Not(c.Eq(e, i)))
	}
	s.later(c.Imp(g, c.Eq(t, c.Select(a.frame.base, i))), gen)
}

// axiom is a schema triggered by the applications of one function.
type axiom struct {
	once bool // only for terms of the original facts and goal
	show bool // only in steps shown from premises alone
	f    func(t *Term) []*Term
	memo map[*Term][]*Term
}

func (a *axiom) inst(t *Term) []*Term {
	r, ok := a.memo[t]
	if !ok {
		r = a.f(t)
		a.memo[t] = r
	}
	return r
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
