package main

// Path states and the cheap entailment used while executing.

import (
	"math/big"
)

type State struct {
	x     *Exec
	facts []*Term
	lit   map[*Term]bool
	byAt  map[*Term][]*Term // atoms -> polynomials known to be >= 0
	heap  map[string]*Term
	dead  bool
	trace []string
	gor   *gorCtx // inside a goroutine body
	meas  int
}

func (s *State) clone() *State {
	n := &State{x: s.x, dead: s.dead, gor: s.gor}
	n.facts = append(make([]*Term, 0, len(s.facts)+8), s.facts...)
	n.trace = append(make([]string, 0, len(s.trace)+4), s.trace...)
	n.lit = make(map[*Term]bool, len(s.lit)+8)
	for k := range s.lit {
		n.lit[k] = true
	}
	n.byAt = make(map[*Term][]*Term, len(s.byAt))
	for k, v := range s.byAt {
		n.byAt[k] = v[:len(v):len(v)]
	}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func newState(x *Exec) *State {
	return &State{x: x, lit: map[*Term]bool{}, byAt: map[*Term][]*Term{}, heap: map[string]*Term{}}
}

func (s *State) addGe(p *Term) {
	switch p.op {
	case OPoly:
		for _, a := range p.args {
			s.byAt[a] = append(s.byAt[a], p)
		}
	case OInt:
	default:
		s.byAt[p] = append(s.byAt[p], p)
	}
}

func (s *State) assume(t *Term) {
	c := s.x.c
	if t == c.True || s.dead {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if s.lit[t] {
		return
	}
	if t == c.False || s.lit[c.Not(t)] || (t.op != OForall && s.quick(c.Not(t))) {
		s.dead = true
		s.facts = append(s.facts, c.False)
		return
	}
	if t.op == OOr { // unit propagation
		var rest []*Term
		for _, a := range t.args {
			if a.op == OForall || !s.quick(c.Not(a)) {
				rest = append(rest, a)
			}
		}
		if len(rest) < len(t.args) {
			s.assume(c.Or(rest...))
			return
		}
	}
	s.facts = append(s.facts, t)
	s.lit[t] = true
	switch t.op {
	case OGe0:
		s.addGe(t.args[0])
		// p >= 0 and p != 0
		if s.lit[c.Not(c.Eq(t.args[0], c.Zero))] {
			s.assume(c.Ge0(c.Sub(t.args[0], c.One)))
		}
	case OEq:
		if t.args[0].sort.isInt() {
			d := c.Sub(t.args[0], t.args[1])
			s.addGe(d)
			s.addGe(c.Neg(d))
		}
	case ONot:
		if e := t.args[0]; e.op == OEq && e.args[0].sort.isInt() {
			d := c.Sub(e.args[0], e.args[1])
			if s.quickGe(d) {
				s.assume(c.Ge0(c.Sub(d, c.One)))
			} else if nd := c.Neg(d); s.quickGe(nd) {
				s.assume(c.Ge0(c.Sub(nd, c.One)))
			}
		}
	}
}

func (s *State) quick(t *Term) bool {
	c := s.x.c
	if t == c.True || s.dead {
		return true
	}
	if t == c.False {
		return false
	}
	if s.lit[t] {
		return true
	}
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			if !s.quick(a) {
				return false
			}
		}
		return true
	case OOr:
		for _, a := range t.args {
			if s.quick(a) {
				return true
			}
		}
		return false
	case OGe0:
		return s.quickGe(t.args[0])
	case OEq:
		if t.args[0].sort.isInt() {
			d := c.Sub(t.args[0], t.args[1])
			return s.quickGe(d) && s.quickGe(c.Neg(d))
		}
	case ONot:
		e := t.args[0]
		if e.op == OEq && e.args[0].sort.isInt() {
			d := c.Sub(e.args[0], e.args[1])
			return s.quickGe(c.Sub(d, c.One)) || s.quickGe(c.Sub(c.Neg(d), c.One))
		}
		if e.op == OAnd || e.op == OOr {
			for _, a := range e.args {
				r := s.quick(c.Not(a))
				if e.op == OAnd && r {
					return true
				}
				if e.op == OOr && !r {
					return false
				}
			}
			return e.op == OOr
		}
	case OIte:
		if t.sort == SBool {
			return s.quick(t.args[1]) && s.quick(t.args[2])
		}
	}
	return false
}

func (s *State) quickGe(p *Term) bool {
	budget := 160
	return s.ge(p, 3, &budget)
}

func (s *State) ge(p *Term, depth int, budget *int) bool {
	c := s.x.c
	lo, _ := c.interval(p)
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	if *budget <= 0 {
		return false
	}
	if s.lit[c.mk(&Term{op: OGe0, sort: SBool, args: []*Term{p}})] {
		return true
	}
	if depth == 0 {
		return false
	}
	if p.op == OIte {
		*budget--
		return s.ge(p.args[1], depth-1, budget) && s.ge(p.args[2], depth-1, budget)
	}
	l := c.toLin(p)
	// one ite atom: split
	if p.op == OPoly {
		for i, a := range p.args {
			if a.op == OIte && *budget > 0 {
				*budget -= 2
				rest := c.Sub(p, c.MulK(p.coef[i], a))
				if s.ge(c.Add(rest, c.MulK(p.coef[i], a.args[1])), depth-1, budget) && s.ge(c.Add(rest, c.MulK(p.coef[i], a.args[2])), depth-1, budget) {
					return true
				}
			}
		}
	}
	try := func(a *Term, k *big.Int) bool {
		for _, q := range s.byAt[a] {
			if *budget <= 0 {
				return false
			}
			var qk *big.Int
			if q == a {
				qk = one
			} else {
				for i, b := range q.args {
					if b == a {
						qk = q.coef[i]
					}
				}
			}
			if qk == nil || qk.Sign() != k.Sign() {
				continue
			}
			// p - (k/qk) q, only for integral ratios
			r, m := new(big.Int).QuoRem(k, qk, new(big.Int))
			if m.Sign() != 0 {
				continue
			}
			*budget--
			if s.ge(c.Sub(p, c.MulK(r, q)), depth-1, budget) {
				return true
			}
		}
		return false
	}
	if p.op == OPoly {
		for _, a := range p.args {
			k := l.m[a]
			alo, ahi := c.interval(a)
			// only atoms that can make p negative
			if k.Sign() > 0 && alo != nil && alo.Sign() >= 0 && p.iv.Sign() >= 0 && depth < 3 {
				continue
			}
			_ = ahi
			if try(a, k) {
				return true
			}
		}
		return false
	}
	return try(p, one)
}
