package main

// Verification tasks: one function (or one case of it) against its contract.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Task struct {
	con   *Contract
	fn    *ssa.Function
	fnKey string
	prop  string
	cases []caseVal
	inst  string
}
type caseVal struct {
	cs  CaseSpec
	val int64
	oth bool
}

func (t *Task) name() string {
	s := t.con.id() + t.inst
	for _, c := range t.cases {
		if c.oth {
			s += fmt.Sprintf("[%s other]", c.cs.text)
		} else {
			s += fmt.Sprintf("[%s=%d]", c.cs.text, c.val)
		}
	}
	return s
}

type TaskResult struct {
	task    *Task
	obls    []*Obl
	used    map[string]bool
	assumed map[string]bool
	axioms  map[string]string
	reach   int
	retried bool
	ms      int64
}

func (r *TaskResult) ok() bool {
	for _, o := range r.obls {
		if o.Verdict != Proved {
			return false
		}
	}
	return true
}

func newExec(pg *Prog, t *Task, dropped map[string]bool) *Exec {
	x := &Exec{c: newCtx(), pg: pg, task: t, mode: t.con.mode, prop: t.prop,
		funcs: map[*Term]FuncV{}, tags: map[string]int64{}, tagTypes: map[int64]types.Type{},
		heapSort: map[string]*Sort{}, failed: map[string]bool{}, stats: map[string]int{},
		noContr: dropped, used: map[string]bool{}, assumed: map[string]bool{}, usedAx: map[string]string{},
		loopEntry: map[*ssa.BasicBlock]*point{}}
	x.bv = t.con.mode == "bv"
	x.faults = t.con.faults
	x.checkTerm = t.prop == "C11" || t.prop == "C04"
	x.installAxioms()
	return x
}

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// nonNilParam: pointers to repository structs are never nil unless declared nilable
func (x *Exec) nonNilParam(con *Contract, name string, t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok || con.hints["nilable"] {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func runTask(pg *Prog, t *Task, dropped map[string]bool, limit time.Duration) (res *TaskResult) {
	x := newExec(pg, t, dropped)
	t0 := time.Now()
	x.deadline = t0.Add(limit)
	res = &TaskResult{task: t}
	fail := func(kind, msg string) {
		x.obls = append(x.obls, &Obl{Name: msg, Kind: kind, Verdict: Unknown, Task: t.name()})
	}
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unsupported:
				fail("unsupported", e.msg)
			case specMissing:
				fail("unsupported", e.String())
			case timeUp:
				fail("unsupported", outOfBudget)
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					fmt.Fprintln(os.Stderr, e)
					debug.PrintStack()
				}
				fail("unsupported", fmt.Sprintf("internal: %v", e))
			}
		}
		res.obls = x.obls
		res.used, res.assumed, res.axioms, res.reach = x.used, x.assumed, x.usedAx, x.reach
		res.ms = int64(time.Since(t0) / time.Millisecond)
	}()
	c := x.c
	con, fn := t.con, t.fn
	st := newState(x)
	c.known = st
	env := map[string]Val{}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, ctl: map[*ssa.BasicBlock]*loopCtl{}}
	c.epoch = 2
	for i, p := range fn.Params {
		name := p.Name()
		if i < len(con.params) {
			name = con.params[i]
		}
		v := x.freshVal(st, name, p.Type())
		if x.nonNilParam(con, name, p.Type()) {
			st.assume(c.Not(c.Eq(x.scalar(v), c.Zero)))
		}
		fr.regs[p] = v
		env[name] = v
	}
	if fn.FreeVars != nil {
		unsup("closure under contract")
	}
	for _, g := range con.ghosts {
		if strings.HasPrefix(g[1], "[]") {
			env[g[0]] = arrV{c.Var("ghost:"+g[0], sortByName(g[1])), c.Zero}
			continue
		}
		env[g[0]] = c.Var("ghost:"+g[0], sortByName(g[1]))
	}
	st.heap["gor.live"] = c.Store(x.H(st, "gor.live", SInt), c.Zero, c.Zero)
	x.bindNames(st, con, env)
	for _, cl := range con.requires {
		if cl.applies(x) {
			st.assume(x.specBool(st, nil, env, cl.expr))
		}
	}
	for _, cv := range t.cases {
		e := x.specTerm(st, nil, env, cv.cs.expr)
		if cv.oth {
			st.assume(c.Or(c.Lt(e, c.I(cv.cs.lo)), c.Lt(c.I(cv.cs.hi), e)))
		} else if e.sort == SBool {
			if cv.val != 0 {
				st.assume(e)
			} else {
				st.assume(c.Not(e))
			}
		} else {
			st.assume(c.Eq(e, c.I(cv.val)))
		}
	}
	x.bindNames(st, con, env) // again: the cases may decide some of them
	for _, cl := range con.uses {
		if cl.applies(x) {
			st.assume(x.specBool(st, nil, env, cl.expr))
		}
	}
	if st.dead {
		if len(t.cases) == 0 {
			fail("vacuous", "the preconditions are contradictory")
		}
		return
	}
	if len(con.requires) > 0 && len(t.cases) == 0 {
		r := c.Prove(st.facts, c.False, 2*time.Second, nil)
		if r.v == Proved {
			fail("vacuous", "the preconditions are contradictory")
			return
		}
	}
	if len(con.defines) > 0 {
		why := pg.argsOnly(fn)
		o := &Obl{Name: "the results depend on the arguments only", Kind: "defines", Verdict: Proved, Solver: "dataflow", Task: t.name()}
		if why != "" {
			o.Verdict = Unknown
			o.Name += ": " + why
		}
		x.obls = append(x.obls, o)
	}
	c.epoch++
	entry := st.clone()
	x.root = &rootInfo{con: con, entry: entry, env: env, fr: fr, epoch: c.epoch}
	x.stack = []*ssa.Function{fn}
	sig := fn.Signature
	x.runBlockEntry(st, fr, func(st *State, rs []Val) {
		if st.dead {
			return
		}
		x.reach++
		c.known = st
		e2 := cloneEnv(env)
		for i, v := range rs {
			e2[con.resName(i)] = v
		}
		if len(rs) == 1 {
			e2["result"] = rs[0]
		}
		st.trace = append(st.trace, "return")
		if st.heap["gor.live"] != entry.heap["gor.live"] {
			x.oblige(st, "safety", "all goroutines finished", "", c.Eq(c.Select(st.heap["gor.live"], c.Zero), c.Zero))
		}
		// split exits on the error result so that fewer cases meet in one goal
		var outer *State
		x.shown, x.shownOuter = map[*Term]*Term{}, nil
		for _, cl := range con.ensures {
			if !cl.applies(x) {
				continue
			}
			c.known = st
			switch {
			case cl.kind == "show" && cl.text == "scope":
				outer, x.shownOuter = st, x.shown
				st = st.clone()
				m := map[*Term]*Term{}
				for k, v := range x.shown {
					m[k] = v
				}
				x.shown = m
				continue
			case cl.kind == "show" && cl.text == "end":
				st, outer, x.shown = outer, nil, x.shownOuter
				continue
			case cl.kind == "show":
				x.show(st, entry, e2, cl)
				continue
			}
			g := x.c.Subst(x.specBool(st, entry, e2, cl.expr), x.shown)
			x.oblige(st, "ensures", cl.text, "", g)
		}
		x.checkFrame(st, entry, env, con, sig)
		x.checkFresh(st, con, sig, rs)
	})
	if x.reach == 0 && !con.noreturn && x.failCount() == 0 && len(t.cases) == 0 {
		fail("vacuous", "no path reaches the end of the function")
	}
	return
}

// show proves an intermediate step at the end of a path and keeps it for the following postconditions;
// show induct(k, lo, hi, cond, body) proves body at lo, and at k+1 from k, and keeps it for lo..hi;
// show ... from A; B proves A and B and then the step from nothing but A, B and what holds at entry, for any content of memory.
func (x *Exec) show(st, entry *State, env map[string]Val, cl *Clause) {
	c := x.c
	known := st
	if cl.from != nil {
		known = entry
	}
	eval := func(s *State, env map[string]Val, e ast.Expr) *Term {
		sv := c.known
		x.knownOver = known
		defer func() { c.known, x.knownOver = sv, nil }()
		return c.Subst(x.specBool(s, entry, env, e), x.shown)
	}
	from := st
	any := st // the state the step is proved in: its files have any content
	if cl.from != nil {
		for _, e := range cl.from {
			x.oblige(st, "ensures", "premise of "+cl.text, "", eval(st, env, e))
		}
		c.showing = true
		defer func() { c.showing = false }()
		any = st.clone()
		if h := any.heap["file.content"]; h != nil {
			any.heap["file.content"] = c.Fresh("any.content", h.sort)
		}
		from = entry.clone()
		from.heap, from.trace = any.clone().heap, st.trace
		for _, e := range cl.from {
			from.assume(eval(any, env, e))
		}
	}
	call, ok := cl.expr.(*ast.CallExpr)
	ind := false
	if ok {
		id, ok := call.Fun.(*ast.Ident)
		ind = ok && id.Name == "induct"
	}
	if !ind {
		g := eval(any, env, cl.expr)
		c.known = from
		x.oblige(from, "ensures", "step "+cl.text, "", g)
		g = eval(st, env, cl.expr)
		c.known = st
		st.assume(g)
		// equations shown for bytes of memory rewrite later goals
		var eqs func(e ast.Expr)
		eqs = func(e ast.Expr) {
			if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.LAND {
				eqs(b.X)
				eqs(b.Y)
			} else if ok && b.Op == token.EQL {
				l, lok := x.specVal(st, entry, env, b.X).(*Term)
				if lok && l.op == ORd {
					if r := x.specTerm(st, entry, env, b.Y); r.op != ORd {
						x.shown[l] = c.Subst(r, x.shown)
					}
				}
			}
		}
		if !st.dead {
			eqs(cl.expr)
		}
		return
	}
	a := call.Args
	kn := a[0].(*ast.Ident).Name
	lo, hi := x.specTerm(st, entry, env, a[1]), x.specTerm(st, entry, env, a[2])
	cond := eval(st, env, a[3])
	at := func(s *State, k *Term) *Term {
		e2 := cloneEnv(env)
		e2[kn] = k
		return eval(s, e2, a[4])
	}
	s2 := from.clone()
	c.known = s2
	s2.assume(cond)
	s2.assume(c.Le(lo, hi))
	if !s2.dead {
		x.oblige(s2, "ensures", "base of "+cl.text, "", at(any, lo))
		c.known = s2
		k := c.Fresh("ind."+kn, SInt)
		s2.assume(c.Le(lo, k))
		s2.assume(c.Lt(k, hi))
		s2.assume(at(any, k))
		x.oblige(s2, "ensures", "step of "+cl.text, "", at(any, c.Add(k, c.One)))
	}
	bv := c.BoundVar(kn)
	c.known = st
	body := at(st, bv)
	cb := c.mk(&Term{op: OVar, sort: SInt, name: fmt.Sprintf("?b%d", depthOf(body)), bound: true})
	body = c.Subst(body, map[*Term]*Term{bv: cb})
	st.assume(c.Imp(cond, c.Forall(cb, c.Or(c.Not(c.Le(lo, cb)), c.Not(c.Le(cb, hi)), body))))
}

// bindNames evaluates the named expressions of a contract at its entry.
func (x *Exec) bindNames(st *State, con *Contract, env map[string]Val) {
	for _, l := range con.lets {
		s := &specCtx{x: x, st: st, env: env}
		s.old = st
		v := s.eval(l.expr)
		if t, ok := v.(*Term); ok && t.sort == SBool {
			v = x.c.decide(t)
		}
		env[l.name] = v
	}
}

func (x *Exec) failCount() int {
	n := 0
	for _, o := range x.obls {
		if o.Verdict != Proved {
			n++
		}
	}
	return n
}

// loc is a modifiable location
type loc struct {
	key   string // heap key; with prefix=true also every key below
	exact bool
	ref   *Term
	from  *Term // file content: only from this position on
}

func (x *Exec) locs(st *State, env map[string]Val, e ast.Expr) []loc {
	s := &specCtx{x: x, st: st, old: st, env: env}
	sv := x.noWT
	x.noWT = true
	defer func() { x.noWT = sv }()
	fileKeys := func(r *Term, content bool) []loc {
		out := []loc{}
		for _, k := range []string{"file.size", "file.pos", "file.synced"} {
			out = append(out, loc{key: k, exact: true, ref: r})
		}
		if content {
			out = append(out, loc{key: "file.content", exact: true, ref: r}, loc{key: "file.open", exact: true, ref: r})
		}
		return out
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.locs(st, env, e.X)
	case *ast.StarExpr:
		p := s.eval(e.X).(PtrV)
		return []loc{{key: heapKey(p), ref: p.ref}}
	case *ast.SelectorExpr:
		b := s.eval(e.X)
		p, ok := b.(PtrV)
		if !ok {
			panic("modifies " + exprStr(e))
		}
		u := p.typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == e.Sel.Name {
				p.path += "." + e.Sel.Name
				p.typ = u.Field(i).Type()
				return []loc{{key: heapKey(p), ref: p.ref}}
			}
		}
		panic(specMissing{exprStr(e)})
	case *ast.CallExpr:
		switch e.Fun.(*ast.Ident).Name {
		case "obj":
			p := s.eval(e.Args[0]).(PtrV)
			return []loc{{key: heapKey(p), ref: p.ref}}
		case "elems":
			v := s.eval(e.Args[0]).(SliceV)
			return []loc{{key: "[]" + tname(v.elem), ref: v.ref}}
		case "file":
			return fileKeys(s.term(e.Args[0]), true)
		case "seek":
			return []loc{{key: "file.pos", exact: true, ref: s.term(e.Args[0])}}
		case "appends":
			r := s.term(e.Args[0])
			p := x.c.Select(x.H(st, "file.pos", SK("len")), r)
			return append(fileKeys(r, false), loc{key: "file.content", exact: true, ref: r, from: p})
		case "bitmap":
			return []loc{{key: "bitmap.set", exact: true, ref: s.term(e.Args[0])}}
		}
	}
	panic("modifies " + exprStr(e))
}

func (l loc) covers(key string) bool {
	return key == l.key || !l.exact && (strings.HasPrefix(key, l.key+".") || strings.HasPrefix(key, l.key+"$"))
}

// keysFor lists the heap keys a location stands for (the type's leaves)
func (x *Exec) keysFor(st *State, l loc) []string {
	if l.exact {
		srt := map[string]*Sort{"file.content": SMem, "file.size": SK("len"), "file.pos": SK("len"), "file.synced": SInt, "file.open": SInt, "bitmap.set": SArr(SBool)}
		x.H(st, l.key, srt[l.key])
		return []string{l.key}
	}
	var out []string
	for _, k := range sortedKeys(x.heapSort) {
		if l.covers(k) {
			out = append(out, k)
		}
	}
	return out
}

// touch makes sure every leaf of the location has a heap array before it is havocked
func (x *Exec) touch(st *State, env map[string]Val, e ast.Expr) {
	s := &specCtx{x: x, st: st, old: st, env: env}
	sv := x.noWT
	x.noWT = true
	defer func() { x.noWT = sv }()
	switch e := e.(type) {
	case *ast.StarExpr:
		x.load(st, s.eval(e.X).(PtrV))
	case *ast.SelectorExpr:
		s.eval(e)
	case *ast.CallExpr:
		switch e.Fun.(*ast.Ident).Name {
		case "obj":
			x.load(st, s.eval(e.Args[0]).(PtrV))
		case "elems":
			v := s.eval(e.Args[0]).(SliceV)
			x.load(st, x.elemPtr(v, x.c.Zero))
		}
	}
}

func (x *Exec) havocLoc(st *State, env map[string]Val, e ast.Expr) {
	c := x.c
	x.touch(st, env, e)
	var late []func()
	for _, l := range x.locs(st, env, e) {
		for _, k := range x.keysFor(st, l) {
			h := st.heap[k]
			if h == nil {
				h = x.H(st, k, x.heapSort[k].Elem)
			}
			es := h.sort.Elem
			f := c.Fresh("hv."+k, es)
			if l.from != nil { // appended between the old and the new position
				late = append(late, func() {
					p1 := x.fget(st, "file.pos", l.ref)
					st.assume(c.Le(l.from, p1))
					h := st.heap[k]
					x.checkKeyWrite(st, k, l.ref)
					st.heap[k] = c.Store(h, l.ref, c.Blit(c.Select(h, l.ref), l.from, f, l.from, c.Sub(p1, l.from)))
				})
				continue
			}
			x.checkKeyWrite(st, k, l.ref)
			st.heap[k] = c.Store(h, l.ref, f)
			if strings.HasSuffix(k, ".$len") {
				// lengths stay within capacities
				ck := strings.TrimSuffix(k, "len") + "cap"
				_ = ck
			}
		}
	}
	x.wellTypedLoc(st, env, e)
	for _, f := range late {
		f()
	}
}

func (x *Exec) wellTypedLoc(st *State, env map[string]Val, e ast.Expr) {
	s := &specCtx{x: x, st: st, old: st, env: env}
	sv := x.noWT
	x.noWT = false
	defer func() { x.noWT = sv }()
	switch e := e.(type) {
	case *ast.StarExpr:
		x.load(st, s.eval(e.X).(PtrV))
	case *ast.SelectorExpr:
		s.eval(e)
	case *ast.CallExpr:
		if e.Fun.(*ast.Ident).Name == "obj" {
			x.load(st, s.eval(e.Args[0]).(PtrV))
		}
	}
}

func (x *Exec) checkKeyWrite(st *State, key string, ref *Term) {
	if st.gor == nil || isAlloc(ref) && ref.epoch > st.gor.epoch {
		return
	}
	x.oblige(st, "frame", "goroutine writes only memory of its own ("+key+")", "", x.c.False)
}

// checkFresh: results declared fresh are non-nil, did not exist at entry, and do not share memory
func (x *Exec) checkFresh(st *State, con *Contract, sig *types.Signature, rs []Val) {
	if len(con.fresh) == 0 {
		return
	}
	c := x.c
	ok := c.True
	if n := len(rs); n > 0 {
		if e, is := rs[n-1].(IfaceV); is && types.Identical(sig.Results().At(n-1).Type(), types.Universe.Lookup("error").Type()) {
			ok = c.Eq(e.tag, c.Zero)
		}
	}
	sv := c.epoch
	c.epoch = x.root.epoch - 1
	old := c.Fresh("frame.ref", SRef)
	c.epoch = sv
	var refs []*Term
	for i, v := range rs {
		if !con.fresh[con.resName(i)] {
			continue
		}
		var r *Term
		switch v := v.(type) {
		case SliceV:
			r = v.ref
		case PtrV:
			r = v.ref
			if v.path != "" || v.idx != nil {
				x.oblige(st, "frame", "result "+con.resName(i)+" is a new object", "", c.False)
			}
		default:
			continue
		}
		g := []*Term{c.Not(c.Eq(r, c.Zero)), c.Not(c.Eq(r, old))}
		for _, q := range refs {
			g = append(g, c.Not(c.Eq(r, q)))
		}
		refs = append(refs, r)
		c.known = st
		x.oblige(st, "frame", "result "+con.resName(i)+" is a new object", "", c.Imp(c.And(ok, c.Not(c.App("isnew", SBool, old))), c.And(g...)))
	}
}

// checkFrame: everything that existed at entry and is not listed under modifies is unchanged
func (x *Exec) checkFrame(st, entry *State, env map[string]Val, con *Contract, sig *types.Signature) {
	if con.hints["noframe"] {
		return
	}
	c := x.c
	var ls []loc
	for _, m := range con.modifies {
		if m.applies(x) {
			ls = append(ls, x.locs(entry, env, m.expr)...)
		}
	}
	sv := c.epoch
	c.epoch = x.root.epoch - 1
	r := c.Fresh("frame.ref", SRef)
	k := c.Fresh("frame.k", SK("len"))
	c.epoch = sv
	for _, key := range sortedKeys(st.heap) {
		if strings.HasPrefix(key, "gor.") || strings.HasPrefix(key, "chan.") || strings.HasPrefix(key, "wg.") {
			continue
		}
		h := st.heap[key]
		h0 := entry.heap[key]
		if h0 == nil {
			e2 := entry.clone()
			h0 = x.H(e2, key, x.heapSort0(key, h))
		}
		if h == h0 {
			continue
		}
		s2 := st.clone()
		c.known = s2
		s2.assume(c.Not(c.Eq(r, c.Zero)))
		for _, l := range ls {
			if l.covers(key) {
				s2.assume(c.Not(c.Eq(r, l.ref)))
			}
		}
		c.known = s2
		g := c.Eq(c.Select(h, r), c.Select(h0, r))
		x.oblige(s2, "frame", "only what is listed under modifies changes: "+key, "", g)
		for _, l := range ls {
			if l.covers(key) && l.from != nil {
				s3 := st.clone()
				c.known = s3
				s3.assume(c.Lt(k, l.from))
				g := c.Eq(c.Rd(c.Select(h, l.ref), k, c.One), c.Rd(c.Select(h0, l.ref), k, c.One))
				x.oblige(s3, "frame", "earlier file content is kept", "", g)
				s4 := st.clone()
				c.known = s4
				p1 := x.fget(s4, "file.pos", l.ref)
				x.oblige(s4, "frame", "the position does not move back", "", c.Le(l.from, p1))
				s4.assume(c.Le(p1, k))
				g = c.Eq(c.Rd(c.Select(h, l.ref), k, c.One), c.Rd(c.Select(h0, l.ref), k, c.One))
				x.oblige(s4, "frame", "file content after the new position is kept", "", g)
			}
		}
	}
	c.known = st
}

func (x *Exec) heapSort0(key string, h *Term) *Sort { return h.sort.Elem }

// allocBound: requested memory is proportional to the size of the file (C11 only)
func (x *Exec) allocBound(st *State, n *Term, elem types.Type, pos string) {
	if x.prop != "C11" || x.mode != "hostile" {
		return
	}
	c := x.c
	sz := types.SizesFor("gc", "amd64").Sizeof(elem)
	if x.allocLim == nil {
		sv := c.epoch
		c.epoch = 1
		x.allocLim = c.Var("alloclim", SK("len"))
		c.epoch = sv
	}
	x.oblige(st, "safety", "requested memory bounded by the file size", pos, c.Le(c.Mul(n, c.I(sz)), c.Add(c.MulK(big64, x.allocLim), c.I(65536))))
}

// ---- running all tasks of a property

type Run struct {
	pg             *Prog
	prop           string
	results        []*TaskResult
	failedInternal []*TaskResult // of contracts that were dropped
	dropped        map[string]bool
	missing        []string
	wall           time.Duration
	bounded        []string
	rounds         int
	workers        int
	perTask        time.Duration
	only           string
	progress       bool
	deadline       time.Time
}

func (pg *Prog) tasksFor(con *Contract, prop string) (ts []*Task, why string) {
	fns := pg.insts[con.fn]
	if len(fns) == 0 {
		return nil, "function " + con.fn + " not found"
	}
	for i, fn := range fns {
		if len(fn.Params) != len(con.params) {
			return nil, "parameters of " + con.fn + " changed"
		}
		inst := ""
		if len(fns) > 1 {
			inst = fmt.Sprintf("#%d", i)
		}
		base := []*Task{{con: con, fn: fn, fnKey: con.fn, prop: prop, inst: inst}}
		for _, cs := range con.cases {
			var next []*Task
			for _, b := range base {
				for v := cs.lo; v <= cs.hi; v++ {
					n := *b
					n.cases = append(append([]caseVal{}, b.cases...), caseVal{cs, v, false})
					next = append(next, &n)
				}
				if cs.star {
					n := *b
					n.cases = append(append([]caseVal{}, b.cases...), caseVal{cs, 0, true})
					next = append(next, &n)
				}
			}
			base = next
		}
		ts = append(ts, base...)
	}
	return ts, ""
}

func (c *Contract) exported() bool {
	k := c.fn
	i := strings.LastIndex(k, ".")
	return i >= 0 && ast.IsExported(k[i+1:])
}

func (r *Run) run() {
	t0 := time.Now()
	r.dropped = map[string]bool{}
	byID := map[string]*Contract{}
	for _, c := range r.pg.specs.cons {
		byID[c.id()] = c
		if c.trusted {
			continue
		}
		ts, why := r.pg.tasksFor(c, r.prop)
		if len(ts) == 0 && why != "" {
			r.dropped[c.id()] = true
		}
	}
	done := map[string]*TaskResult{}
	var mu sync.Mutex
	for round := 0; round < 4; round++ {
		r.rounds = round + 1
		// closure of contracts
		queued := map[string]bool{}
		var wg sync.WaitGroup
		sem := make(chan struct{}, r.workers)
		var schedule func(con *Contract)
		schedule = func(con *Contract) {
			// mu held
			if con == nil || queued[con.id()] || con.trusted || r.dropped[con.id()] {
				return
			}
			queued[con.id()] = true
			ts, _ := r.pg.tasksFor(con, r.prop)
			for _, t := range ts {
				t := t
				if old := done[t.name()]; old != nil {
					stale := false
					for u := range old.used {
						if r.dropped[u] {
							stale = true
						}
					}
					if !stale {
						for _, u := range sortedKeys(old.used) {
							schedule(byID[u])
						}
						continue
					}
				}
				if r.only != "" && !strings.Contains(t.name(), r.only) {
					continue
				}
				dr := map[string]bool{}
				for k := range r.dropped {
					dr[k] = true
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					sem <- struct{}{}
					lim := r.perTask
					if !r.deadline.IsZero() {
						if left := time.Until(r.deadline); left < lim {
							lim = left
						}
					}
					res := runTask(r.pg, t, dr, lim)
					<-sem
					mu.Lock()
					defer mu.Unlock()
					if r.progress {
						bad := 0
						for _, o := range res.obls {
							if o.Verdict != Proved {
								bad++
							}
						}
						fmt.Fprintf(os.Stderr, "%-60s %4d obligations %3d open  paths %d  %.1fs\n", t.name(), len(res.obls), bad, res.reach, float64(res.ms)/1000)
					}
					done[t.name()] = res
					for _, u := range sortedKeys(res.used) {
						schedule(byID[u])
					}
				}()
			}
		}
		mu.Lock()
		for _, c := range r.pg.specs.cons {
			if hasExplicit(c, r.prop) {
				if r.dropped[c.id()] {
					continue
				}
				schedule(c)
			}
		}
		mu.Unlock()
		wg.Wait()
		// what was left undecided for lack of time is tried once more with more of it
		var again1 []string
		for _, n := range sortedKeys(done) {
			if !done[n].retried && done[n].undecided() {
				again1 = append(again1, n)
			}
		}
		if !r.deadline.IsZero() && len(again1) <= 12 && time.Until(r.deadline) > time.Minute && !outOfTime(r.deadline) {
			slow.Store(3)
			for _, n := range again1 {
				n, t := n, done[n].task
				dr := map[string]bool{}
				for k := range r.dropped {
					dr[k] = true
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					sem <- struct{}{}
					res := runTask(r.pg, t, dr, time.Until(r.deadline))
					<-sem
					res.retried = true
					mu.Lock()
					defer mu.Unlock()
					done[n] = res
				}()
			}
			wg.Wait()
			slow.Store(1)
		}
		// internal contracts that failed are dropped, their callers inline the body
		again := false
		for _, n := range sortedKeys(done) {
			res := done[n]
			con := res.task.con
			if !res.ok() && con.internal && !r.dropped[con.id()] {
				r.dropped[con.id()] = true
				again = true
			}
		}
		if again {
			for n, res := range done {
				if r.dropped[res.task.con.id()] {
					r.failedInternal = append(r.failedInternal, res)
					delete(done, n)
				}
			}
			continue
		}
		break
	}
	// anything no longer reachable is dropped from the report
	for _, n := range sortedKeys(done) {
		if !r.dropped[done[n].task.con.id()] {
			r.results = append(r.results, done[n])
		}
	}
	for _, c := range r.pg.specs.cons {
		if hasExplicit(c, r.prop) && r.dropped[c.id()] && !c.internal {
			r.missing = append(r.missing, c.id())
		}
	}
	sort.Strings(r.missing)
	r.wall = time.Since(t0)
}

// undecided: open only because a solver or the task ran out of time
func (r *TaskResult) undecided() bool {
	u := false
	for _, o := range r.obls {
		if o.Verdict == Refuted || o.Verdict == Unknown && o.Kind == "unsupported" && o.Name != outOfBudget {
			return false
		}
		u = u || o.Verdict == Unknown
	}
	return u
}

const outOfBudget = "time budget of the task exhausted"

func hasExplicit(c *Contract, p string) bool {
	for _, q := range c.props {
		if q == p {
			return true
		}
	}
	return false
}
