package main

// Loops: havoc, invariant inference from candidates and templates, termination measures.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type houdini struct{}

type modInfo struct {
	all    bool
	except map[*Term]bool
	sort   *Sort
}

type pseudo struct {
	name string
	phi  int // index of phi or -1
	leaf int
	typ  types.Type // type of the phi if scalar
	key  string     // heap cell
	ref  *Term
	sort *Sort
	init *Term
	head *Term
	step *big.Int // constant step on every back edge, nil if not
	seen bool
}

type point struct {
	st   *State
	vals []Val
}

type cand struct {
	key  string
	name string
	eval func(p *point) *Term
	app  *Term // append-only content of this file
}

func (x *Exec) pval(ps []*ssa.Phi, p *pseudo, pt *point) *Term {
	if p.phi >= 0 {
		return x.flatten(pt.vals[p.phi], ps[p.phi].Type())[p.leaf]
	}
	return x.c.Select(x.H(pt.st, p.key, p.sort), p.ref)
}

func (x *Exec) modWalk(t, hv *Term, limit int, m *modInfo) {
	chain := map[*Term][]*Term{}
	var above []*Term
	for u := hv; ; {
		chain[u] = above
		if u.op == OStore {
			above = append(above[:len(above):len(above)], u.args[1])
			u = u.args[0]
		} else if u.op == OVar && u.frame != nil {
			above = append(above[:len(above):len(above)], u.frame.except...)
			u = u.frame.base
		} else {
			break
		}
	}
	x.modWalk1(t, hv, chain, limit, m)
}
func (x *Exec) modWalk1(t, hv *Term, chain map[*Term][]*Term, limit int, m *modInfo) {
	for {
		if rs, ok := chain[t]; ok {
			for _, r := range rs {
				x.modRef(r, limit, m)
			}
			return
		}
		switch t.op {
		case OStore:
			x.modRef(t.args[1], limit, m)
			t = t.args[0]
			continue
		case OIte:
			x.modWalk1(t.args[1], hv, chain, limit, m)
			t = t.args[2]
			continue
		case OVar:
			if t.frame != nil {
				for _, e := range t.frame.except {
					x.modRef(e, limit, m)
				}
				t = t.frame.base
				continue
			}
		}
		m.all = true
		return
	}
}
func (x *Exec) modRef(r *Term, limit int, m *modInfo) {
	switch {
	case r.epoch <= limit:
		m.except[r] = true
	case isAlloc(r):
	case r.op == OIte:
		x.modRef(r.args[1], limit, m)
		x.modRef(r.args[2], limit, m)
	default:
		m.all = true
	}
}

func (x *Exec) loop(st *State, fr *Frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, vals []Val, k Cont) {
	c := x.c
	if x.bv {
		x.oblige(st, "termination", "unwinding bound of the bit-vector mode", blockPos(x, b), c.False)
		return
	}
	if outOfTime(x.deadline) {
		panic(timeUp{})
	}
	x.loopN++
	if x.loopEntry == nil {
		x.loopEntry = map[*ssa.BasicBlock]*point{}
	}
	svEntry := x.loopEntry[b]
	x.loopEntry[b] = &point{st.clone(), vals}
	defer func() { x.loopEntry[b] = svEntry }()
	ps := phis(b)
	limit := c.epoch
	mods := map[string]*modInfo{}
	unchanged := map[[2]int]bool{}
	for i, p := range ps {
		for j := range x.flatten(vals[i], p.Type()) {
			unchanged[[2]int{i, j}] = true
		}
	}
	var pseudos []*pseudo
	appendOK := map[*Term]bool{}
	appendBad := map[*Term]bool{}
	debug := os.Getenv("GOVC_LOOP") != ""

	// build the state at the loop head
	build := func(alive []*cand, noHavocPhi bool) (*State, *Frame, []Val) {
		h := st.clone()
		c.epoch++
		f := fr.clone()
		var hv []Val
		pseudos = nil
		for i, p := range ps {
			init := x.flatten(vals[i], p.Type())
			var ts []*Term
			for j, t := range init {
				if unchanged[[2]int{i, j}] {
					ts = append(ts, t)
					continue
				}
				v := c.Fresh(p.Name()+"."+p.Comment, t.sort)
				if ls := x.leaves(p.Type()); j < len(ls) {
					v = c.Fresh(p.Name()+"."+p.Comment+ls[j].suf, ls[j].sort)
				}
				pd := &pseudo{name: p.Name() + "." + p.Comment + fmt.Sprint(j), phi: i, leaf: j, sort: v.sort, init: t, head: v}
				if len(init) == 1 {
					pd.typ = p.Type()
				}
				pseudos = append(pseudos, pd)
				ts = append(ts, v)
			}
			if len(init) == 0 || allUnchanged(unchanged, i, len(init)) {
				hv = append(hv, vals[i])
				continue
			}
			v, _ := x.unflatten(ts, p.Type())
			hv = append(hv, v)
		}
		for _, key := range sortedKeys(mods) {
			m := mods[key]
			old := x.H(st, key, m.sort.Elem)
			nv := c.Fresh("hv:"+key, m.sort)
			if !m.all {
				var ex []*Term
				for r := range m.except {
					ex = append(ex, r)
				}
				sort.Slice(ex, func(i, j int) bool { return ex[i].id < ex[j].id })
				nv.frame = &hvFrame{base: old, limit: limit, except: ex}
				if m.sort.Elem.isInt() || m.sort.Elem == SBool {
					for _, r := range ex {
						pseudos = append(pseudos, &pseudo{name: key + "@" + r.String(), phi: -1, key: key, ref: r, sort: m.sort.Elem,
							init: c.Select(old, r), head: c.Select(nv, r)})
					}
				}
			}
			h.heap[key] = nv
		}
		// append-only file contents
		if m := mods["file.content"]; m != nil && !m.all {
			for _, r := range sortedRefs(m.except) {
				if appendOK[r] && !appendBad[r] {
					old := c.Select(x.H(st, "file.content", SMem), r)
					p0 := c.Select(x.H(st, "file.pos", SK("len")), r)
					p1 := c.Select(x.H(h, "file.pos", SK("len")), r)
					nb := c.Fresh("written", SMem)
					h.heap["file.content"] = c.Store(h.heap["file.content"], r, c.Blit(old, p0, nb, p0, c.Sub(p1, p0)))
				}
			}
		}
		for i := range hv {
			x.wellTyped(h, hv[i])
		}
		x.setPhis(f, b, hv)
		c.known = h
		pt := &point{h, hv}
		for _, cd := range alive {
			if t := x.safeEval(cd, pt); t != nil {
				h.assume(t)
				if debug && h.dead {
					fmt.Fprintln(os.Stderr, "dead after", cd.name, t)
				}
			}
		}
		return h, f, hv
	}

	// 1. which cells and phis change
	x.dry++
	x.discover++
	for round := 0; round < 6; round++ {
		h, f, hv := build(nil, false)
		f.only = restrict(fr.only, body)
		heads := map[string]*Term{}
		for key, t := range h.heap {
			heads[key] = t
		}
		changed := false
		for _, p := range pseudos {
			p.seen = false
		}
		f.withCtl(b, &loopCtl{back: func(s2 *State, f2 *Frame, bv []Val) {
			for i, p := range ps {
				now := x.flatten(bv[i], p.Type())
				head := x.flatten(hv[i], p.Type())
				for j := range now {
					if now[j] != head[j] && unchanged[[2]int{i, j}] {
						unchanged[[2]int{i, j}] = false
						changed = true
					}
				}
			}
			for key, t := range s2.heap {
				h0, ok := heads[key]
				if !ok {
					h0 = c.Var("H:"+key, t.sort)
					if t == h0 {
						continue
					}
				}
				if t == h0 {
					continue
				}
				m := mods[key]
				if m == nil {
					m = &modInfo{except: map[*Term]bool{}, sort: t.sort}
					mods[key] = m
					changed = true
				}
				n, a := len(m.except), m.all
				if key == "file.content" && h0.op == OStore {
					for h0.op == OStore {
						h0 = h0.args[0]
					}
				}
				x.modWalk(t, h0, limit, m)
				if len(m.except) != n || m.all != a {
					changed = true
				}
			}
			pt := &point{s2, bv}
			for _, p := range pseudos {
				v := x.pval(ps, p, pt)
				if v.op == OWrap { // only a guess: candidates are checked
					v = v.args[0]
				}
				d := c.Sub0(v, p.head)
				if d == nil || d.op != OInt {
					p.seen, p.step = true, nil
					continue
				}
				if p.seen && (p.step == nil || p.step.Cmp(d.iv) != 0) {
					p.step = nil
				} else if !p.seen {
					p.step = d.iv
				}
				p.seen = true
			}
		}})
		x.runFrom(h, f, b, len(ps), k)
		if !changed {
			break
		}
	}
	x.dry--
	x.discover--
	if x.discover > 0 {
		// an enclosing loop only asks which cells change
		h, f, _ := build(nil, false)
		f.withCtl(b, &loopCtl{back: func(s2 *State, f2 *Frame, bv []Val) {}})
		x.runFrom(h, f, b, len(ps), k)
		return
	}
	steps := map[string]*big.Int{}
	for _, p := range pseudos {
		if p.seen && p.step != nil {
			steps[p.name] = p.step
		}
	}
	if m := mods["file.content"]; m != nil && !m.all {
		for r := range m.except {
			appendOK[r] = true
		}
	}
	if debug {
		fmt.Fprintf(os.Stderr, "LOOP %s %s b%d mods", fr.fn, blockPos(x, b), b.Index)
		for _, key := range sortedKeys(mods) {
			fmt.Fprintf(os.Stderr, " %s(all=%v ex=%v)", key, mods[key].all, sortedRefs(mods[key].except))
		}
		fmt.Fprintln(os.Stderr)
		for _, p := range pseudos {
			fmt.Fprintf(os.Stderr, "   pseudo %s init=%s step=%v\n", p.name, p.init, steps[p.name])
		}
	}

	if len(st.facts) > 0 && x.dry > 0 && x.entails(st, c.False, 3*time.Second) {
		if debug {
			fmt.Fprintln(os.Stderr, "  unreachable")
		}
		return // (for instance under candidates of an enclosing loop that do not hold)
	}
	// 2. candidates
	h0, f0, hv0 := build(nil, false)
	cands := x.candidates(st, fr, b, ps, pseudos, steps, h0, f0, hv0, body)
	entry := &point{st, vals}
	var alive []*cand
	// on a later visit on the same path (an enclosing loop weakens its invariant) only the survivors are tried
	ckey := loopKey{b, fr.fn, strings.Join(st.trace, "|")}
	nameCands(cands)
	if was, ok := x.survivors[ckey]; ok {
		var left []*cand
		for _, cd := range cands {
			if was[cd.key] {
				left = append(left, cd)
			}
		}
		cands = left
	}
	var can []*cand
	var goals []*Term
	for _, cd := range cands {
		c.known = st
		if t := x.safeEval(cd, entry); t != nil {
			can = append(can, cd)
			goals = append(goals, t)
		}
	}
	c.known = st
	for i, ok := range x.entailsMany(st, goals, 4*time.Second) {
		if ok {
			alive = append(alive, can[i])
		} else if debug {
			fmt.Fprintln(os.Stderr, "  not initially:", can[i].name)
		}
	}
	// 3. houdini
	type meas struct {
		name string
		head *Term
		back func(pt *point) *Term
		bad  bool
	}
	for round := 0; ; round++ {
		if round > 40 {
			unsup("invariant inference does not converge")
		}
		if debug {
			fmt.Fprintf(os.Stderr, "  %s round %d: %s\n", blockPos(x, b), round, time.Now().Format("05.0"))
			for _, cd := range alive {
				fmt.Fprintln(os.Stderr, "    alive", cd.name)
			}
		}
		h, f, _ := build(alive, false)
		if h.dead {
			break
		}
		f.only = restrict(fr.only, body)
		failed := map[*cand]bool{}
		badApp := false
		x.dry++
		f.withCtl(b, &loopCtl{back: func(s2 *State, f2 *Frame, bv []Val) {
			pt := &point{s2, bv}
			c.known = s2
			var todo []*cand
			var ts []*Term
			for _, cd := range alive {
				if failed[cd] {
					continue
				}
				t := x.safeEval(cd, pt)
				if t == nil {
					failed[cd] = true
					continue
				}
				if os.Getenv("GOVC_LOOP") == cd.name {
					r := c.Prove(s2.facts, t, 10*time.Second, nil)
					os.WriteFile("/tmp/cand.smt2", []byte(r.query), 0644)
					os.WriteFile("/tmp/candl.smt2", []byte(c.liteQuery(s2.facts, t, nil)), 0644)
					var sb strings.Builder
					for _, f := range s2.facts {
						sb.WriteString(f.String() + "\n")
					}
					sb.WriteString(fmt.Sprint(s2.quick(t)) + "|- " + t.String() + "\n")
					os.WriteFile("/tmp/cand.txt", []byte(sb.String()), 0644)
				}
				if s2.quick(t) {
					continue
				}
				todo = append(todo, cd)
				ts = append(ts, t)
			}
			folds := false
			for _, t := range ts {
				folds = folds || len(c.foldNames(t)) > 0
			}
			if len(todo) > 0 && (len(todo) == 1 || folds || !x.entails(s2, c.And(ts...), 6*time.Second)) {
				to := 6 * time.Second
				if round > 0 { // these held with the invariants dropped since
					to = 15 * time.Second
				}
				oks := x.entailsMany(s2, ts, to)
				for i, cd := range todo {
					if !oks[i] {
						failed[cd] = true
						if debug {
							fmt.Fprintf(os.Stderr, "  not preserved: %s\n", cd.name)
							if os.Getenv("GOVC_LOOP") == cd.name {
								r := c.Prove(s2.facts, ts[i], 10*time.Second, nil)
								os.WriteFile("/tmp/cand.smt2", []byte(r.query), 0644)
								var sb strings.Builder
								for _, f := range s2.facts {
									sb.WriteString(f.String() + "\n")
								}
								sb.WriteString("|- " + ts[i].String() + "\n")
								os.WriteFile("/tmp/cand.txt", []byte(sb.String()), 0644)
							}
						}
					}
				}
			}
			if m := mods["file.content"]; m != nil && !m.all {
				for r := range m.except {
					if appendOK[r] && !appendBad[r] && !x.appendOnly(st, s2, h, r) {
						appendBad[r] = true
						badApp = true
					}
				}
			}
		}})
		x.runFrom(h, f, b, len(ps), k)
		x.dry--
		if len(failed) == 0 && !badApp {
			break
		}
		var next []*cand
		for _, cd := range alive {
			if !failed[cd] {
				next = append(next, cd)
			}
		}
		alive = next
	}
	if x.survivors == nil {
		x.survivors = map[loopKey]map[string]bool{}
	}
	live := map[string]bool{}
	for _, cd := range alive {
		live[cd.key] = true
	}
	x.survivors[ckey] = live
	if x.dry == 0 {
		for _, cd := range alive {
			x.obls = append(x.obls, &Obl{Name: "loop invariant " + cd.name, Kind: "invariant", Pos: blockPos(x, b), Verdict: Proved, Solver: "smt", Task: x.task.name()})
		}
	}
	if debug {
		for _, cd := range alive {
			fmt.Fprintln(os.Stderr, "  INV", cd.name)
		}
	}
	// 4. the body once more, for its obligations and the exits
	h, f, hv := build(alive, false)
	if h.dead {
		return
	}
	measuring := x.checkTerm && x.dry == 0
	var measures []*meas
	if measuring {
		for i, m := range x.measureTerms(h, f, b, hv, pseudos) {
			m := m
			snap := append([]*pseudo{}, pseudos...)
			measures = append(measures, &meas{name: fmt.Sprint(i), head: m, back: func(pt *point) *Term {
				mp := map[*Term]*Term{}
				for _, p := range snap {
					mp[p.head] = x.pval(ps, p, pt)
				}
				return c.Subst(m, mp)
			}})
		}
	}
	backs := 0
	f.withCtl(b, &loopCtl{back: func(s2 *State, f2 *Frame, bv []Val) {
		backs++
		pt := &point{s2, bv}
		c.known = s2
		var ms []*meas
		var gs []*Term
		for _, m := range measures {
			if !m.bad {
				ms = append(ms, m)
				gs = append(gs, c.Lt(m.back(pt), m.head))
			}
		}
		for i, ok := range x.entailsMany(s2, gs, 4*time.Second) {
			if !ok {
				ms[i].bad = true
			}
		}
	}})
	x.runFrom(h, f, b, len(ps), k)
	if measuring && backs > 0 {
		ok := false
		for _, m := range measures {
			if !m.bad {
				ok = true
			}
		}
		o := &Obl{Name: "loop terminates", Kind: "termination", Pos: blockPos(x, b), Verdict: Unknown, Solver: "smt", Task: x.task.name()}
		if ok {
			o.Verdict = Proved
		}
		x.obls = append(x.obls, o)
	}
}

// Sub0: difference of integer terms, nil for other sorts
func (c *Ctx) Sub0(a, b *Term) *Term {
	if !a.sort.isInt() || !b.sort.isInt() {
		return nil
	}
	return c.Sub(a, b)
}

func allUnchanged(u map[[2]int]bool, i, n int) bool {
	for j := 0; j < n; j++ {
		if !u[[2]int{i, j}] {
			return false
		}
	}
	return true
}

func restrict(only, body map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	if only == nil {
		return body
	}
	m := map[*ssa.BasicBlock]bool{}
	for k := range body {
		if only[k] {
			m[k] = true
		}
	}
	return m
}

func sortedRefs(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func blockPos(x *Exec, b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if p := x.pos(in); p != "" {
			return p
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if p := x.pos(in); p != "" {
				return p
			}
		}
	}
	return ""
}

func (x *Exec) safeEval(cd *cand, pt *point) (t *Term) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case unsupported, specMissing:
				t = nil
				return
			}
			panic(e)
		}
	}()
	x.c.known = pt.st
	return cd.eval(pt)
}

// appendOnly: on the way from the head to the back edge, the file is only written between pos0 and the new position
func (x *Exec) appendOnly(entry, back, head *State, r *Term) bool {
	c := x.c
	p0 := c.Select(x.H(entry, "file.pos", SK("len")), r)
	p1 := c.Select(x.H(back, "file.pos", SK("len")), r)
	hc := c.Select(x.H(head, "file.content", SMem), r)
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == hc {
			return true
		}
		switch t.op {
		case OWr:
			return x.entails(back, c.And(c.Le(p0, t.args[1]), c.Le(c.Add(t.args[1], t.args[2]), p1)), 4*time.Second) && walk(t.args[0])
		case OBlit:
			return x.entails(back, c.And(c.Le(p0, t.args[1]), c.Le(c.Add(t.args[1], t.args[4]), p1)), 4*time.Second) && walk(t.args[0])
		case OIte:
			return walk(t.args[1]) && walk(t.args[2])
		}
		return false
	}
	return x.entails(back, c.Le(c.Select(x.H(head, "file.pos", SK("len")), r), p1), 4*time.Second) && walk(c.Select(x.H(back, "file.content", SMem), r))
}

// headCond evaluates the condition of the loop header
func (x *Exec) headCond(h *State, f *Frame, b *ssa.BasicBlock) (cond *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				cond = nil
				return
			}
			panic(e)
		}
	}()
	f2 := f.clone()
	h2 := h.clone()
	x.dry++
	defer func() { x.dry-- }()
	for _, in := range b.Instrs[len(phis(b)):] {
		switch in := in.(type) {
		case *ssa.If:
			return x.scalar(x.get(f2, in.Cond))
		case *ssa.Jump:
			return nil
		case *ssa.Call:
			bi, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" && bi.Name() != "cap" {
				return nil
			}
			f2.regs[in] = x.builtin(h2, f2, bi.Name(), in, &in.Call)
		case *ssa.UnOp, *ssa.BinOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.DebugRef:
			if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
				return nil
			}
			x.step(h2, f2, in)
		default:
			return nil
		}
	}
	return nil
}

func (x *Exec) measureTerms(h *State, f *Frame, b *ssa.BasicBlock, hv []Val, pseudos []*pseudo) []*Term {
	c := x.c
	var out []*Term
	if cond := x.headCond(h, f, b); cond != nil {
		for _, t := range []*Term{cond, c.Not(cond)} {
			switch {
			case t.op == OGe0:
				out = append(out, t.args[0])
			case t.op == ONot && t.args[0].op == OEq && t.args[0].args[0].sort.isInt():
				d := c.Sub(t.args[0].args[0], t.args[0].args[1])
				for _, m := range []*Term{d, c.Neg(d)} {
					if x.entails(h, c.Le(c.Zero, m), 2*time.Second) {
						out = append(out, m)
					}
				}
			}
		}
	}
	for _, p := range pseudos {
		if !p.sort.isInt() || p.sort == SRef {
			continue
		}
		if p.key == "chan.len" || p.phi >= 0 && x.entails(h, c.Ge0(p.head), time.Second) {
			out = append(out, p.head)
		}
	}
	// range over an integer-indexed slice hidden behind a second block: bounds of the body
	var good []*Term
	for _, m := range out {
		// a measure must be bounded below whenever the body runs; conditions of the form m >= 0 hold in
		// the body by construction, the others are nonnegative at the head
		good = append(good, m)
	}
	return good
}

func kindName(t types.Type) string { return tname(t) }

// candidates for the invariants of one loop
func (x *Exec) candidates(st *State, fr *Frame, b *ssa.BasicBlock, ps []*ssa.Phi, pseudos []*pseudo, steps map[string]*big.Int, h0 *State, f0 *Frame, hv0 []Val, body map[*ssa.BasicBlock]bool) []*cand {
	c := x.c
	var out []*cand
	add := func(name string, f func(pt *point) *Term) { out = append(out, &cand{name: name, eval: f}) }
	val := func(p *pseudo, pt *point) *Term { return x.pval(ps, p, pt) }
	var ints []*pseudo
	for _, p := range pseudos {
		p := p
		if strings.HasPrefix(p.key, "chan.sum.") || strings.HasPrefix(p.key, "chan.min.") || strings.HasPrefix(p.key, "chan.max.") {
			continue // left to templates
		}
		if p.sort == SBool || p.sort == SRef || p.sort == SFlt {
			add(p.name+" == init", func(pt *point) *Term { return c.Eq(val(p, pt), p.init) })
			if p.sort == SRef {
				add(p.name+" != nil", func(pt *point) *Term { return c.Not(c.Eq(val(p, pt), c.Zero)) })
				if c.isNew(p.init) == c.True {
					add(p.name+" is new", func(pt *point) *Term { return c.isNew(val(p, pt)) })
				}
			}
			continue
		}
		if !p.sort.isInt() {
			continue
		}
		ints = append(ints, p)
		s := steps[p.name]
		if s == nil || s.Sign() >= 0 {
			add(p.name+" >= init", func(pt *point) *Term { return c.Le(p.init, val(p, pt)) })
		}
		if s == nil || s.Sign() <= 0 {
			add(p.name+" <= init", func(pt *point) *Term { return c.Le(val(p, pt), p.init) })
		}
	}
	diff := func(p *pseudo, pt *point) *Term { return c.Sub(val(p, pt), p.init) }
	n := 0
	for i, p := range ints {
		for _, q := range ints[i+1:] {
			p, q := p, q
			sp, sq := steps[p.name], steps[q.name]
			if n++; n > 150 {
				break
			}
			switch {
			case sp != nil && sq != nil && sp.Sign() != 0 && sq.Sign() != 0:
				add(fmt.Sprintf("%s*%s == %s*%s", sq, p.name, sp, q.name), func(pt *point) *Term {
					return c.Eq(c.MulK(sq, diff(p, pt)), c.MulK(sp, diff(q, pt)))
				})
			case sp == nil && sq == nil:
				add(fmt.Sprintf("%s ~ %s", p.name, q.name), func(pt *point) *Term { return c.Eq(diff(p, pt), diff(q, pt)) })
			case sp == nil && sq != nil && sq.Cmp(one) == 0:
				add(fmt.Sprintf("%s <= %s", p.name, q.name), func(pt *point) *Term { return c.Le(diff(p, pt), diff(q, pt)) })
				add(fmt.Sprintf("%s >= %s", p.name, q.name), func(pt *point) *Term { return c.Le(diff(q, pt), diff(p, pt)) })
			case sq == nil && sp != nil && sp.Cmp(one) == 0:
				add(fmt.Sprintf("%s <= %s", q.name, p.name), func(pt *point) *Term { return c.Le(diff(q, pt), diff(p, pt)) })
				add(fmt.Sprintf("%s >= %s", q.name, p.name), func(pt *point) *Term { return c.Le(diff(p, pt), diff(q, pt)) })
			}
		}
	}
	// bounds from the loop condition
	snap := append([]*pseudo{}, pseudos...)
	at := func(t *Term, pt *point) *Term {
		m := map[*Term]*Term{}
		for _, p := range snap {
			m[p.head] = val(p, pt)
		}
		return c.Subst(t, m)
	}
	if cond := x.headCond(h0, f0, b); cond != nil {
		for _, t := range []*Term{cond, c.Not(cond)} {
			if t.op == OGe0 {
				q := c.Add(t.args[0], c.One)
				add("bound "+q.String(), func(pt *point) *Term { return c.Ge0(at(q, pt)) })
				add("bound1 "+q.String(), func(pt *point) *Term { return c.Ge0(at(c.Add(q, c.One), pt)) })
			} else if t.op == ONot && t.args[0].op == OEq && t.args[0].args[0].sort.isInt() {
				d := c.Sub(t.args[0].args[0], t.args[0].args[1])
				add("bound "+d.String()+">=0", func(pt *point) *Term { return c.Ge0(at(d, pt)) })
				add("bound "+d.String()+"<=0", func(pt *point) *Term { return c.Ge0(c.Neg(at(d, pt))) })
			}
		}
	}
	// upper bounds of integer variables by lengths in scope
	seenB := map[*Term]bool{}
	for _, v := range sortedRegs(fr) {
		s, ok := fr.regs[v].(SliceV)
		if !ok || seenB[s.len] || len(seenB) > 8 || s.len.isConst() {
			continue
		}
		seenB[s.len] = true
		l := s.len
		for _, p := range ints {
			p := p
			if p.phi < 0 || p.typ == nil || kindOf(p.typ) != "i64" && kindOf(p.typ) != "u64" {
				continue
			}
			add(p.name+" <= "+l.String(), func(pt *point) *Term { return c.Le(val(p, pt), l) })
		}
	}
	// a template must mention something that the loop changes, and needs to be tried only once
	was := map[*Term]bool{}
	entry, head := x.loopEntry[b], &point{h0, hv0}
	for _, cd := range x.templates(st, fr, b, ps, pseudos, steps) {
		c.known = h0
		t := x.safeEval(cd, head)
		if t == nil || was[t] || t == c.True {
			continue
		}
		was[t] = true
		if entry != nil {
			c.known = st
			if x.safeEval(cd, entry) == t {
				continue
			}
		}
		out = append(out, cd)
	}
	return out
}

func sortedRegs(fr *Frame) []ssa.Value {
	var out []ssa.Value
	for v := range fr.regs {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].Name() < out[j].Name()
	})
	return out
}

// a binding of a template hole: a value at each point and its initial value
type binding struct {
	name string
	at   func(pt *point) Val
	id   string
}

func (x *Exec) templates(st *State, fr *Frame, b *ssa.BasicBlock, ps []*ssa.Phi, pseudos []*pseudo, steps map[string]*big.Int) []*cand {
	c := x.c
	var out []*cand
	inLoopPhi := map[ssa.Value]bool{}
	changedPhi := map[int]bool{}
	for _, p := range pseudos {
		if p.phi >= 0 {
			changedPhi[p.phi] = true
		}
	}
	for _, p := range ps {
		inLoopPhi[p] = true
	}
	sends := false // the loop changes a channel
	for _, pd := range pseudos {
		sends = sends || pd.key == "chan.len"
	}
	memo := map[string][]binding{}
	bindings := func(h specParam) []binding {
		if r, ok := memo[h.typ]; ok {
			return r
		}
		var r []binding
		if strings.HasPrefix(h.typ, "chan ") && !sends {
			return nil
		}
		seen := map[string]bool{}
		put := func(bd binding) {
			if !seen[bd.id] {
				seen[bd.id] = true
				r = append(r, bd)
			}
		}
		typ := h.typ
		if typ == "chunk" { // an int computed by a division
			typ = "int"
		}
		switch {
		case typ == "idx", typ == "cnt", typ == "ctr": // ctr: a variable that advances by a constant; cnt: one that advances by a constant, if the loop has one
			counters := map[int]bool{} // variables that advance by a constant
			for _, pd := range pseudos {
				if pd.phi >= 0 && steps[pd.name] != nil {
					counters[pd.phi] = true
				}
			}
			for i, p := range ps {
				i := i
				if !changedPhi[i] || kindOf(p.Type()) == "" || typ == "cnt" && len(counters) > 0 && !counters[i] || typ == "ctr" && !counters[i] {
					continue
				}
				if u := kindOf(p.Type()); u != "i64" && u != "u64" && u != "i32" && u != "u32" {
					continue
				}
				// the counter of a range loop starts at -1
				if first := x.firstEdge(b, p); first != nil && first.Value != nil && constant.Compare(first.Value, token.EQL, constant.MakeInt64(-1)) {
					put(binding{p.Name() + "+1", func(pt *point) Val { return c.Add(x.scalar(pt.vals[i]), c.One) }, p.Name() + "+1"})
				} else {
					put(binding{p.Name(), func(pt *point) Val { return pt.vals[i] }, p.Name()})
				}
			}
			for _, pd := range pseudos { // local variables living in memory
				pd := pd
				if (typ != "ctr" || steps[pd.name] != nil) && pd.phi < 0 && isAlloc(pd.ref) && pd.sort.isInt() && pd.sort != SRef && !strings.HasPrefix(pd.key, "chan.") && !strings.HasPrefix(pd.key, "file.") {
					put(binding{pd.name, func(pt *point) Val { return x.pval(ps, pd, pt) }, pd.name})
				}
			}
		case strings.HasPrefix(typ, "acc:"):
			want := typ[4:]
			for i, p := range ps {
				i := i
				if !changedPhi[i] || tname(p.Type()) != want {
					continue
				}
				put(binding{p.Name(), func(pt *point) Val { return pt.vals[i] }, p.Name()})
			}
			for _, pd := range pseudos {
				pd := pd
				if pd.phi < 0 && isAlloc(pd.ref) && pd.key == want {
					put(binding{pd.name, func(pt *point) Val { return x.pval(ps, pd, pt) }, pd.name})
				}
			}
		default:
			for i, p := range ps {
				i := i
				if tname(p.Type()) == typ && h.typ != "chunk" {
					put(binding{p.Name(), func(pt *point) Val { return pt.vals[i] }, p.Name()})
				}
			}
			addVal := func(n string, v Val, t types.Type) {
				if t == nil {
					return
				}
				if tname(t) == typ {
					v := v
					if h.typ == "chunk" && !hasDiv(v) {
						return
					}
					put(binding{n, func(pt *point) Val { return v }, x.valID(v, t)})
				}
				if pt, ok := t.Underlying().(*types.Pointer); ok && tname(pt.Elem()) == typ {
					if p, ok := v.(PtrV); ok && !p.isA && p.ref.op == OVar && (isAlloc(p.ref)) {
						if h.typ == "chunk" && !hasDiv(x.load(st, p)) {
							return
						}
						put(binding{"*" + n, func(pt *point) Val { return x.load(pt.st, p) }, "*" + n})
					}
				}
			}
			for f := fr; f != nil; f = f.caller {
				for _, v := range sortedRegs(f) {
					if f == fr && inLoopPhi[v] {
						continue
					}
					addVal(v.Name(), f.regs[v], v.Type())
				}
				if len(r) > 40 {
					break
				}
			}
			if x.root != nil && x.root.fr != nil {
				for _, p := range x.root.fr.fn.Params {
					addVal(p.Name(), x.root.fr.regs[p], p.Type())
				}
			}
		}
		memo[typ] = r
		return r
	}
	for _, t := range x.pg.specs.temps {
		if !x.templateApplies(t, fr.fn, b) {
			continue
		}
		t := t
		lists := make([][]binding, len(t.holes))
		n := 1
		for i, h := range t.holes {
			lists[i] = bindings(h)
			n *= len(lists[i])
		}
		if n == 0 {
			continue
		}
		if n > 600 {
			n = 600
		}
		for m := 0; m < n; m++ {
			pick := make([]binding, len(lists))
			q := m
			name := ""
			for i := range lists {
				pick[i] = lists[i][q%len(lists[i])]
				q /= len(lists[i])
				name += " " + t.holes[i].name + "=" + pick[i].name
			}
			if !distinct(t.holes, pick) {
				continue
			}
			// a template must mention something that changes
			e0 := x.loopEntry[b]
			out = append(out, &cand{name: t.text + " with" + name, eval: func(pt *point) *Term {
				env := map[string]Val{}
				for i, h := range t.holes {
					env[h.name] = pick[i].at(pt)
				}
				// ghost parameters and initial values
				if x.root != nil {
					for _, g := range x.root.con.ghosts {
						env[g[0]] = x.root.env[g[0]]
					}
					for _, l := range x.root.con.lets {
						env[l.name] = x.root.env[l.name]
					}
				}
				if e0 != nil {
					pen := map[string]Val{}
					for i, h := range t.holes {
						v := pick[i].at(e0)
						env[h.name+"0"] = v
						pen[h.name] = v
					}
					svS, svE := x.preSt, x.preEnv
					x.preSt, x.preEnv = e0.st, pen
					defer func() { x.preSt, x.preEnv = svS, svE }()
				}
				var old *State
				if x.root != nil {
					old = x.root.entry
				}
				return x.specBool(pt.st, old, env, t.expr)
			}})
		}
	}
	return out
}

// distinct: no variable counts and accumulates at the same time
func distinct(hs []specParam, pick []binding) bool {
	seen := map[string]bool{}
	for i, h := range hs {
		if h.typ == "idx" || h.typ == "cnt" || h.typ == "ctr" || strings.HasPrefix(h.typ, "acc:") {
			k := strings.TrimSuffix(pick[i].id, "+1")
			if seen[k] {
				return false
			}
			seen[k] = true
		}
	}
	return true
}

func hasDiv(v Val) bool {
	t, ok := v.(*Term)
	for ok && t.op == OWrap {
		t = t.args[0]
	}
	return ok && (t.op == ODiv || t.op == OPoly && anyDiv(t.args))
}
func anyDiv(ts []*Term) bool {
	for _, t := range ts {
		if hasDiv(t) {
			return true
		}
	}
	return false
}

func (x *Exec) valID(v Val, t types.Type) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("%p", &v)
		}
	}()
	for _, q := range x.flatten(v, t) {
		s += fmt.Sprint(q.id, ",")
	}
	return s
}

var _ = ast.NewIdent

// firstEdge: the constant with which a phi enters its loop, if it is one
func (x *Exec) firstEdge(b *ssa.BasicBlock, p *ssa.Phi) *ssa.Const {
	for i, e := range p.Edges {
		if !b.Dominates(b.Preds[i]) {
			k, _ := e.(*ssa.Const)
			return k
		}
	}
	return nil
}

// templateApplies: a tag @calls:F restricts a template to loops whose body reaches F through static calls
func (x *Exec) templateApplies(t *Template, fn *ssa.Function, b *ssa.BasicBlock) bool {
	var rest []string
	for _, g := range t.tags {
		if f, ok := strings.CutPrefix(g, "@calls:"); ok {
			if !x.pg.loopCalls(fn, b)[f] {
				return false
			}
			continue
		}
		rest = append(rest, g)
	}
	return tagOK2(rest, x.prop, x.task.con.hints)
}

// loopCalls: names of the functions a loop body reaches
func (pg *Prog) loopCalls(fn *ssa.Function, b *ssa.BasicBlock) map[string]bool {
	body := pg.loops(fn).headers[b]
	pg.mu.Lock()
	defer pg.mu.Unlock()
	if r, ok := pg.calls[b]; ok {
		return r
	}
	r := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	block := func(bb *ssa.BasicBlock) {
		for _, in := range bb.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if cal := ci.Common().StaticCallee(); cal != nil {
					r[cal.Name()] = true
					visit(cal)
				}
				if ci.Common().IsInvoke() {
					r[ci.Common().Method.Name()] = true
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				visit(mc.Fn.(*ssa.Function))
			}
		}
	}
	visit = func(f *ssa.Function) {
		if seen[f] || !pg.inlinable(f) {
			return
		}
		seen[f] = true
		for _, bb := range f.Blocks {
			block(bb)
		}
	}
	for bb := range body {
		block(bb)
	}
	pg.calls[b] = r
	return r
}

type loopKey struct {
	b    *ssa.BasicBlock
	fn   *ssa.Function
	path string
}

var freshNo = regexp.MustCompile(`[!~]\d+`)

// nameCands gives candidates names that do not depend on the numbering of fresh variables
func nameCands(cs []*cand) {
	n := map[string]int{}
	for _, cd := range cs {
		k := freshNo.ReplaceAllString(cd.name, "")
		n[k]++
		cd.key = fmt.Sprint(k, "#", n[k])
	}
}
