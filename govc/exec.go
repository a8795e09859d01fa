package main

// Symbolic execution of go/ssa functions: one path at a time, calls by contract or inlined.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name    string
	Kind    string // safety, requires, ensures, invariant, frame, termination, unsupported
	Pos     string
	Verdict Verdict
	Solver  string
	Ms      int64
	Path    []string
	Goal    string
	Model   map[string]string
	Task    string
}

type Exec struct {
	c                 *Ctx
	pg                *Prog
	task              *Task
	bv                bool
	mode              string
	prop              string
	faults            bool
	obls              []*Obl
	funcs             map[*Term]FuncV
	tags              map[string]int64
	tagTypes          map[int64]types.Type
	heapSort          map[string]*Sort
	dry               int
	depth             int
	stack             []*ssa.Function
	root              *rootInfo
	failed            map[string]bool // failed loop candidates
	reach             int             // completed paths
	deadline          time.Time
	discover          int // in the first phase of a loop: find what changes
	survivors         map[loopKey]map[string]bool
	stats             map[string]int
	noContr           map[string]bool // contracts not to be used (inline instead)
	used              map[string]bool // contracts relied upon
	assumed           map[string]bool // trusted primitives used
	lastBad           int
	loopN             int
	houd              []*houdini
	paths             int
	wantVars          []*Term
	oldEpoch          int
	noWT              bool
	usedAx            map[string]string
	checkTerm         bool
	preSt             *State
	preEnv            map[string]Val
	allocLim          *Term
	knownOver         *State          // simplify specifications by what is known here instead
	shown, shownOuter map[*Term]*Term // see show
	loopEntry         map[*ssa.BasicBlock]*point
}

type rootInfo struct {
	con   *Contract
	entry *State
	env   map[string]Val
	fr    *Frame
	epoch int
}

type Cont func(st *State, res []Val)

type deferCall struct {
	call *ssa.CallCommon
	args []Val
	fv   Val
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []deferCall
	ctl    map[*ssa.BasicBlock]*loopCtl
	only   map[*ssa.BasicBlock]bool
	peel   map[*ssa.BasicBlock]int
	caller *Frame
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs)+4)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	if f.peel != nil {
		n.peel = map[*ssa.BasicBlock]int{}
		for k, v := range f.peel {
			n.peel[k] = v
		}
	}
	return &n
}
func (f *Frame) withCtl(h *ssa.BasicBlock, c *loopCtl) {
	n := map[*ssa.BasicBlock]*loopCtl{}
	for k, v := range f.ctl {
		n[k] = v
	}
	if c == nil {
		delete(n, h)
	} else {
		n[h] = c
	}
	f.ctl = n
}

type loopCtl struct {
	back func(st *State, fr *Frame, vals []Val)
}

type timeUp struct{}

func (x *Exec) pos(in ssa.Instruction) string {
	if in == nil || in.Pos() == token.NoPos {
		return ""
	}
	p := x.pg.fset.Position(in.Pos())
	f := p.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// oblige records and discharges one proof obligation, then assumes it.
func (x *Exec) oblige(st *State, kind, name, pos string, goal *Term) bool {
	if st.dead {
		return true
	}
	if x.dry > 0 {
		st.assume(goal)
		return true
	}
	o := &Obl{Name: name, Kind: kind, Pos: pos, Task: x.task.name()}
	x.obls = append(x.obls, o)
	t0 := time.Now()
	x.c.known = st
	if st.quick(goal) {
		o.Verdict, o.Solver = Proved, "simplifier"
		st.assume(goal)
		return true
	}
	if outOfTime(x.deadline) {
		o.Goal = "(time budget of the task exhausted)"
		panic(timeUp{})
	}
	to := 20 * time.Second
	if x.lastBad >= 4 {
		to = 3 * time.Second
	}
	r := x.c.Prove(st.facts, goal, to, x.wantVars)
	o.Verdict, o.Solver, o.Model = r.v, r.solver, r.model
	o.Ms = int64(time.Since(t0) / time.Millisecond)
	if r.v != Proved {
		x.lastBad++
		o.Path = append([]string{}, st.trace...)
		o.Goal = goal.String()
		if d := os.Getenv("GOVC_DUMP"); d != "" {
			fn := fmt.Sprintf("%s/%s_%d.smt2", d, strings.NewReplacer("/", "_", " ", "_", "*", "", "(", "", ")", "").Replace(x.task.name()), len(x.obls))
			os.WriteFile(fn, []byte(r.query), 0644)
			var sb strings.Builder
			for _, f := range st.facts {
				sb.WriteString(f.String() + "\n")
			}
			sb.WriteString("|- " + goal.String() + "\n")
			os.WriteFile(fn+".txt", []byte(sb.String()), 0644)
			o.Goal = "[" + fn + "] " + o.Goal
		}
		if len(o.Goal) > 1500 {
			o.Goal = o.Goal[:1500] + "..."
		}
	}
	if os.Getenv("GOVC_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "  %s %s %s %s %s %dms\n", o.Verdict, kind, name, pos, o.Solver, o.Ms)
	}
	st.assume(goal)
	return r.v == Proved
}

// entails asks quick, then the solver.
func (x *Exec) entails(st *State, goal *Term, to time.Duration) bool {
	x.c.known = st
	if st.quick(goal) {
		return true
	}
	if outOfTime(x.deadline) {
		panic(timeUp{})
	}
	return x.c.Prove(st.facts, goal, to, nil).v == Proved
}

// entailsMany checks several goals against the same state; the solvers run side by side.
func (x *Exec) entailsMany(st *State, goals []*Term, to time.Duration) []bool {
	x.c.known = st
	if outOfTime(x.deadline) {
		panic(timeUp{})
	}
	out := make([]bool, len(goals))
	var wg sync.WaitGroup
	for i, g := range goals {
		if st.quick(g) {
			out[i] = true
			continue
		}
		q := x.c.query(st.facts, g, nil, false)
		lq := ""
		var nqs []string // the goal in parts
		if len(x.c.winNames(g)) > 0 {
			gs := x.c.splitLast(g)
			if gs == nil {
				gs = []*Term{g}
			}
			for _, g := range gs {
				fs := x.c.narrow(st.facts, g)
				if len(gs) > 1 {
					fs, g = x.c.opaque(fs, g)
				}
				if len(gs) > 1 || len(fs) < len(st.facts) {
					nqs = append(nqs, x.c.query(fs, g, nil, false))
				}
			}
		}
		if len(x.c.foldNames(g)) > 0 {
			lq = x.c.liteQuery(st.facts, g, nil)
		}
		to := to
		if g == x.c.False && to > time.Second { // holds only on a path that cannot be taken
			to = time.Second
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if lq != "" && solve(lq, 4*time.Second, nil).v == Proved {
				out[i] = true
				return
			}
			if len(nqs) > 0 {
				ok := true
				for k, nq := range nqs {
					r := solve(nq, to, nil)
					if os.Getenv("GOVC_INST") != "" && (r.v != Proved || r.dur > time.Second) {
						fmt.Fprintf(os.Stderr, "slow part %s %.1fs: %s\n", r.v, r.dur.Seconds(), trunc(g.String(), 300))
						os.WriteFile(fmt.Sprintf("/tmp/slow%d-%d.smt2", g.id, k), []byte(nq), 0644)
					}
					if ok = ok && r.v == Proved; !ok {
						break
					}
				}
				if ok {
					out[i] = true
					return
				}
			}
			r := solve(q, to, nil)
			out[i] = r.v == Proved
			if os.Getenv("GOVC_INST") != "" && r.dur > time.Second {
				fmt.Fprintf(os.Stderr, "slow %s %.1fs: %s\n", r.v, r.dur.Seconds(), trunc(g.String(), 300))
				if r.v == Unknown {
					os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", g.id), []byte(q), 0644)
				}
			}
		}()
	}
	wg.Wait()
	return out
}

func (x *Exec) get(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return FuncV{fn: v, typ: v.Type()}
	case *ssa.Global:
		sv := x.c.epoch
		x.c.epoch = 1
		ref := x.c.Var("G:"+v.String(), SRef)
		x.c.epoch = sv
		return x.ptrTo(ref, v.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.regs[v]
	if !ok {
		unsup("value %s (%T) in %s not available", v.Name(), v, fr.fn)
	}
	return r
}
func (x *Exec) term(fr *Frame, v ssa.Value) *Term { return x.scalar(x.get(fr, v)) }

func (x *Exec) constVal(v *ssa.Const) Val {
	t := v.Type()
	if v.Value == nil {
		return x.zero(t)
	}
	return x.constOf(v.Value, t)
}
func (x *Exec) constOf(v constant.Value, t types.Type) Val {
	switch v.Kind() {
	case constant.Bool:
		return x.c.B(constant.BoolVal(v))
	case constant.String:
		return x.strConst(constant.StringVal(v))
	case constant.Int, constant.Float:
		s := x.sortOf(t)
		if s == SFlt {
			if constant.Sign(v) == 0 {
				return x.zeroTerm(SFlt)
			}
			return x.c.Var("fc:"+v.ExactString(), SFlt)
		}
		b, ok := constant.Val(constant.ToInt(v)).(*big.Int)
		if !ok {
			i, _ := constant.Int64Val(constant.ToInt(v))
			b = big.NewInt(i)
		}
		if s.Base == "BV" {
			return x.c.BVC(b, s.W)
		}
		return x.c.IB(b)
	}
	unsup("constant %s", v)
	return nil
}
func (x *Exec) strConst(s string) *Term {
	sv := x.c.epoch
	x.c.epoch = 1
	t := x.c.Var(fmt.Sprintf("str:%q", s), SRef)
	x.c.epoch = sv
	return t
}

// ---- blocks and loops

type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (pg *Prog) loops(fn *ssa.Function) *loopInfo {
	pg.mu.Lock()
	defer pg.mu.Unlock()
	if l, ok := pg.loopTab[fn]; ok {
		return l
	}
	li := &loopInfo{map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				m := li.headers[s]
				if m == nil {
					m = map[*ssa.BasicBlock]bool{s: true}
					li.headers[s] = m
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if m[n] {
						continue
					}
					m[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	pg.loopTab[fn] = li
	return li
}

func phis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	return -1
}

func (x *Exec) enter(st *State, fr *Frame, b, pred *ssa.BasicBlock, k Cont) {
	i := predIndex(b, pred)
	var vals []Val
	for _, p := range phis(b) {
		vals = append(vals, x.get(fr, p.Edges[i]))
	}
	x.enterVals(st, fr, b, pred, vals, k)
}

func (x *Exec) setPhis(fr *Frame, b *ssa.BasicBlock, vals []Val) {
	for i, p := range phis(b) {
		fr.regs[p] = vals[i]
	}
}

func (x *Exec) enterVals(st *State, fr *Frame, b, pred *ssa.BasicBlock, vals []Val, k Cont) {
	if st.dead || fr.only != nil && !fr.only[b] {
		return
	}
	li := x.pg.loops(fr.fn)
	if body, ok := li.headers[b]; ok {
		if body[pred] && fr.ctl[b] != nil {
			fr.ctl[b].back(st, fr, vals)
			return
		}
		if !body[pred] {
			fr.withCtl(b, nil)
			if fr.peel != nil {
				delete(fr.peel, b)
			}
		}
		if x.tryPeel(st, fr, b, vals) {
			if fr.peel == nil {
				fr.peel = map[*ssa.BasicBlock]int{}
			}
			fr.peel[b]++
			x.setPhis(fr, b, vals)
			x.runFrom(st, fr, b, len(vals), k)
			return
		}
		x.loop(st, fr, b, body, vals, k)
		return
	}
	x.setPhis(fr, b, vals)
	x.runFrom(st, fr, b, len(vals), k)
}

// tryPeel: the loop condition is decided by the values alone
func (x *Exec) tryPeel(st *State, fr *Frame, b *ssa.BasicBlock, vals []Val) bool {
	max := 24
	if fr.peel[b] >= max {
		return false
	}
	if x.bv {
		return true
	}
	f2 := fr.clone()
	x.setPhis(f2, b, vals)
	for _, in := range b.Instrs[len(vals):] {
		switch in := in.(type) {
		case *ssa.BinOp:
			if !pureInstr(in) {
				return false
			}
			f2.regs[in] = x.binop(st, f2, in.Op, x.get(f2, in.X), x.get(f2, in.Y), in.X.Type(), in.Type(), in)
		case *ssa.If:
			t := x.scalar(x.get(f2, in.Cond))
			return t == x.c.True || t == x.c.False
		case *ssa.DebugRef:
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if s, ok := x.get(f2, in.Call.Args[0]).(SliceV); ok {
					f2.regs[in] = s.len
					continue
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (x *Exec) runFrom(st *State, fr *Frame, b *ssa.BasicBlock, i int, k Cont) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		x.c.known = st
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			x.enter(st, fr, b.Succs[0], b, k)
			return
		case *ssa.If:
			x.branch(st, fr, b, in, k)
			return
		case *ssa.Return:
			if fr.only != nil {
				return
			}
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.get(fr, r))
			}
			k(st, res)
			return
		case *ssa.Panic:
			x.oblige(st, "safety", "panic reached", x.pos(in), x.c.False)
			return
		case *ssa.Call:
			next := i + 1
			x.call(st, fr, &in.Call, in, func(st2 *State, v Val, more bool) {
				f2 := fr
				if more {
					f2 = fr.clone()
				}
				f2.regs[in] = v
				x.runFrom(st2, f2, b, next, k)
			})
			return
		case *ssa.Go:
			next := i + 1
			x.goStmt(st, fr, in, func(st2 *State) {
				x.runFrom(st2, fr.clone(), b, next, k)
			})
			return
		case *ssa.Defer:
			d := deferCall{call: &in.Call}
			if in.Call.IsInvoke() {
				unsup("deferred interface call")
			}
			d.fv = x.get(fr, in.Call.Value)
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.get(fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			next := i + 1
			x.runDefers(st, fr, func(st2 *State) {
				f2 := fr.clone()
				f2.defers = nil
				x.runFrom(st2, f2, b, next, k)
			})
			return
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				next := i + 1
				x.recv(st, fr, in, func(st2 *State, v Val) {
					f2 := fr.clone()
					f2.regs[in] = v
					x.runFrom(st2, f2, b, next, k)
				})
				return
			}
			x.step(st, fr, in)
		default:
			x.step(st, fr, in)
		}
	}
}

func (x *Exec) runDefers(st *State, fr *Frame, k func(*State)) {
	var rec func(st *State, n int)
	rec = func(st *State, n int) {
		if n < 0 {
			k(st)
			return
		}
		d := fr.defers[n]
		x.callVal(st, fr, d.call, d.fv, d.args, nil, func(st2 *State, v Val, more bool) { rec(st2, n-1) })
	}
	rec(st, len(fr.defers)-1)
}

func (x *Exec) branch(st *State, fr *Frame, b *ssa.BasicBlock, in *ssa.If, k Cont) {
	c := x.c
	cond := x.scalar(x.get(fr, in.Cond))
	if cond != c.True && cond != c.False {
		if st.quick(cond) {
			cond = c.True
		} else if st.quick(c.Not(cond)) {
			cond = c.False
		}
	}
	if cond == c.True {
		x.enter(st, fr, b.Succs[0], b, k)
		return
	}
	if cond == c.False {
		x.enter(st, fr, b.Succs[1], b, k)
		return
	}
	if x.region(st, fr, b, cond, k) {
		return
	}
	x.paths++
	if x.paths > 40000 {
		unsup("too many paths")
	}
	p := x.pos(in)
	if p == "" {
		if bi, ok := in.Cond.(ssa.Instruction); ok {
			p = x.pos(bi)
		}
	}
	st1, st2 := st.clone(), st
	st1.trace = append(st1.trace, p+" true")
	st1.assume(cond)
	if x.feasible(st1) {
		x.enter(st1, fr.clone(), b.Succs[0], b, k)
	}
	c.known = st2
	st2.trace = append(st2.trace, p+" false")
	st2.assume(c.Not(cond))
	if x.feasible(st2) {
		x.enter(st2, fr, b.Succs[1], b, k)
	}
}

func (x *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	if !x.bv {
		return true
	}
	return x.c.Prove(st.facts, x.c.False, 10*time.Second, nil).v != Proved
}

func pureInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.Jump, *ssa.If, *ssa.Phi, *ssa.ChangeType, *ssa.Field, *ssa.Extract:
		return true
	case *ssa.Convert:
		return kindOf(in.Type()) != "" && kindOf(in.X.Type()) != "" || types.Identical(in.Type().Underlying(), types.Typ[types.Float64]) && kindOf(in.X.Type()) != ""
	case *ssa.UnOp:
		return in.Op != token.MUL && in.Op != token.ARROW
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO:
			b, ok := in.Type().Underlying().(*types.Basic)
			return ok && b.Info()&types.IsFloat != 0
		case token.REM:
			cst, ok := in.Y.(*ssa.Const)
			return ok && cst.Value != nil && constant.Sign(cst.Value) > 0
		case token.SHL, token.SHR:
			_, ok := in.Y.(*ssa.Const)
			return ok
		}
		return true
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
		}
	}
	return false
}

// region: merge a pure acyclic region after b at its join block with conditional values
func (x *Exec) region(st *State, fr *Frame, b *ssa.BasicBlock, cond *Term, k Cont) bool {
	li := x.pg.loops(fr.fn)
	closure := func(join *ssa.BasicBlock) []*ssa.BasicBlock {
		seen := map[*ssa.BasicBlock]bool{}
		var order []*ssa.BasicBlock
		ok := true
		var walk func(n *ssa.BasicBlock)
		walk = func(n *ssa.BasicBlock) {
			if !ok || n == join || seen[n] {
				return
			}
			seen[n] = true
			if n == b || li.headers[n] != nil || len(seen) > 10 || len(n.Succs) == 0 {
				ok = false
				return
			}
			for _, p := range n.Preds {
				if p != b && !seen[p] && !b.Dominates(p) {
					ok = false
					return
				}
			}
			for _, in := range n.Instrs {
				if !pureInstr(in) {
					ok = false
					return
				}
			}
			for _, s := range n.Succs {
				walk(s)
			}
			order = append(order, n)
		}
		for _, s := range b.Succs {
			walk(s)
		}
		if !ok {
			return nil
		}
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
		return append([]*ssa.BasicBlock{}, order...)
	}
	// candidate joins: breadth first
	var cands []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{b: true}
	q := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(q) > 0 && len(cands) < 12 {
		n := q[0]
		q = q[1:]
		if seen[n] {
			continue
		}
		seen[n] = true
		cands = append(cands, n)
		pure := true
		for _, in := range n.Instrs {
			if !pureInstr(in) {
				pure = false
			}
		}
		if pure {
			q = append(q, n.Succs...)
		}
	}
	for _, j := range cands {
		if fr.only != nil && !fr.only[j] {
			continue
		}
		order := closure(j)
		if order == nil && !(b.Succs[0] == j && b.Succs[1] == j) {
			// maybe a plain triangle with an empty side is still fine: order nil means failure
			continue
		}
		// every region block's predecessors must be inside
		in := map[*ssa.BasicBlock]bool{b: true}
		for _, n := range order {
			in[n] = true
		}
		ok := true
		for _, n := range order {
			for _, p := range n.Preds {
				if !in[p] {
					ok = false
				}
			}
		}
		if !ok {
			continue
		}
		// join phis must be mergeable; evaluate
		f2 := fr.clone()
		type edge struct{ from, to *ssa.BasicBlock }
		eg := map[edge]*Term{}
		guard := map[*ssa.BasicBlock]*Term{b: x.c.True}
		addEdges := func(n *ssa.BasicBlock, cnd *Term) {
			if len(n.Succs) == 1 {
				eg[edge{n, n.Succs[0]}] = guard[n]
				return
			}
			if n.Succs[0] == n.Succs[1] {
				eg[edge{n, n.Succs[0]}] = guard[n]
				return
			}
			eg[edge{n, n.Succs[0]}] = x.c.And(guard[n], cnd)
			eg[edge{n, n.Succs[1]}] = x.c.And(guard[n], x.c.Not(cnd))
		}
		addEdges(b, cond)
		var vals []Val
		var pred *ssa.BasicBlock
		good := func() (r bool) {
			defer func() {
				if e := recover(); e != nil {
					if _, is := e.(unsupported); is {
						r = false
						return
					}
					panic(e)
				}
			}()
			merge := func(n *ssa.BasicBlock, ph *ssa.Phi) Val {
				var v Val
				first := true
				for i := len(n.Preds) - 1; i >= 0; i-- {
					g, ok := eg[edge{n.Preds[i], n}]
					if !ok {
						continue
					}
					w := x.get(f2, ph.Edges[i])
					if first {
						v, first = w, false
						continue
					}
					v = x.iteVal(g, w, v, ph.Type())
				}
				return v
			}
			for _, n := range order {
				var gs []*Term
				for _, p := range n.Preds {
					if g, ok := eg[edge{p, n}]; ok {
						gs = append(gs, g)
					}
				}
				guard[n] = x.c.Or(gs...)
				for _, ph := range phis(n) {
					f2.regs[ph] = merge(n, ph)
				}
				var cnd *Term
				for _, ins := range n.Instrs {
					switch ins := ins.(type) {
					case *ssa.Phi, *ssa.Jump:
					case *ssa.If:
						cnd = x.scalar(x.get(f2, ins.Cond))
					case *ssa.Call:
						f2.regs[ins] = x.builtin(st, f2, ins.Call.Value.(*ssa.Builtin).Name(), ins, &ins.Call)
					default:
						x.step(st, f2, ins)
					}
				}
				addEdges(n, cnd)
			}
			for _, ph := range phis(j) {
				vals = append(vals, merge(j, ph))
			}
			// a predecessor for loop classification
			for _, p := range j.Preds {
				if _, ok := eg[edge{p, j}]; ok {
					pred = p
				}
			}
			return true
		}
		if good() {
			x.enterVals(st, f2, j, pred, vals, k)
			return true
		}
	}
	return false
}

// ---- straight-line instructions

func (x *Exec) nonnil(st *State, ref *Term, in ssa.Instruction) {
	if isAlloc(ref) || ref.op == OVar && strings.HasPrefix(ref.name, "G:") {
		return
	}
	x.oblige(st, "safety", "nil dereference", x.pos(in), x.c.Not(x.c.Eq(ref, x.c.Zero)))
}

func (x *Exec) step(st *State, fr *Frame, in ssa.Instruction) {
	c := x.c
	switch in := in.(type) {
	case *ssa.Alloc:
		fr.regs[in] = x.alloc(st, in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.FieldAddr:
		p := x.get(fr, in.X).(PtrV)
		x.nonnil(st, p.ref, in)
		f := p.typ.Underlying().(*types.Struct).Field(in.Field)
		q := p
		q.path += "." + f.Name()
		q.typ = f.Type()
		if a, ok := f.Type().Underlying().(*types.Array); ok {
			_ = a
			unsup("array field")
		}
		fr.regs[in] = q
	case *ssa.Field:
		s, ok := x.get(fr, in.X).(StructV)
		if !ok {
			unsup("field of %T", x.get(fr, in.X))
		}
		fr.regs[in] = s.f[in.Field]
	case *ssa.IndexAddr:
		i := x.index(fr, in.Index)
		switch v := x.get(fr, in.X).(type) {
		case SliceV:
			x.oblige(st, "safety", "index in range", x.pos(in), c.And(c.Le(c.Zero, i), c.Lt(i, v.len)))
			fr.regs[in] = x.elemPtr(v, i)
		case PtrV:
			if !v.isA {
				unsup("index of pointer")
			}
			x.oblige(st, "safety", "index in range", x.pos(in), c.And(c.Le(c.Zero, i), c.Lt(i, c.I(v.arr))))
			fr.regs[in] = PtrV{root: v.root, ref: v.ref, idx: c.Add(v.idx, i), typ: v.root}
		default:
			unsup("index of %T", v)
		}
	case *ssa.UnOp:
		fr.regs[in] = x.unop(st, fr, in)
	case *ssa.BinOp:
		if in.Op == token.QUO || in.Op == token.REM {
			if kindOf(in.Type()) != "" {
				y := x.term(fr, in.Y)
				z := x.zeroTerm(y.sort)
				x.oblige(st, "safety", "division by zero", x.pos(in), c.Not(c.Eq(y, z)))
			}
		}
		fr.regs[in] = x.binop(st, fr, in.Op, x.get(fr, in.X), x.get(fr, in.Y), in.X.Type(), in.Type(), in)
	case *ssa.Store:
		p, ok := x.get(fr, in.Addr).(PtrV)
		if !ok {
			unsup("store through %T", x.get(fr, in.Addr))
		}
		x.nonnil(st, p.ref, in)
		x.store(st, p, x.get(fr, in.Val))
	case *ssa.ChangeType:
		v := x.get(fr, in.X)
		if f, ok := v.(FuncV); ok {
			f.typ = in.Type()
			v = f
		}
		if s, ok := v.(StructV); ok {
			s.t = in.Type()
			v = s
		}
		fr.regs[in] = v
	case *ssa.Convert:
		fr.regs[in] = x.convert(st, x.get(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		v := x.get(fr, in.X)
		tag := c.I(x.typeTag(in.X.Type()))
		var pay *Term
		switch vv := v.(type) {
		case *Term:
			pay = vv
			if pay.sort.Base != "Int" {
				pay = c.App("box:"+pay.sort.key, SInt, pay)
			}
		case PtrV:
			if vv.path == "" && vv.idx == nil {
				pay = vv.ref
			} else {
				pay = c.Fresh("ipay", SInt)
			}
		default:
			pay = c.Fresh("ipay", SInt)
		}
		fr.regs[in] = IfaceV{tag: tag, pay: pay, dyn: v}
	case *ssa.ChangeInterface:
		fr.regs[in] = x.get(fr, in.X)
	case *ssa.TypeAssert:
		fr.regs[in] = x.typeAssert(st, fr, in)
	case *ssa.Extract:
		t, ok := x.get(fr, in.Tuple).(TupleV)
		if !ok {
			unsup("extract of %T", x.get(fr, in.Tuple))
		}
		fr.regs[in] = t[in.Index]
	case *ssa.MakeClosure:
		f := FuncV{fn: in.Fn.(*ssa.Function), typ: in.Type()}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, x.get(fr, b))
		}
		fr.regs[in] = f
	case *ssa.MakeSlice:
		n, cp := x.index(fr, in.Len), x.index(fr, in.Cap)
		x.oblige(st, "safety", "make length in range", x.pos(in), c.And(c.Le(c.Zero, n), c.Le(n, cp)))
		elem := in.Type().Underlying().(*types.Slice).Elem()
		x.allocBound(st, cp, elem, x.pos(in))
		st.assume(c.Le(cp, c.IB(pow2(47)))) // a larger request would have panicked (covered by the size bound where claimed)
		fr.regs[in] = x.makeSlice(st, elem, n, cp)
	case *ssa.MakeChan:
		n := x.index(fr, in.Size)
		x.oblige(st, "safety", "make length in range", x.pos(in), c.Le(c.Zero, n))
		x.allocBound(st, n, in.Type().Underlying().(*types.Chan).Elem(), x.pos(in))
		fr.regs[in] = x.makeChan(st, in.Type().Underlying().(*types.Chan), n)
	case *ssa.Slice:
		fr.regs[in] = x.slice(st, fr, in)
	case *ssa.Send:
		x.send(st, fr, in)
	case *ssa.MakeMap, *ssa.Range, *ssa.Next, *ssa.Lookup, *ssa.MapUpdate, *ssa.Select, *ssa.SliceToArrayPointer:
		unsup("instruction %T at %s", in, x.pos(in))
	default:
		unsup("instruction %T at %s", in, x.pos(in))
	}
}

// index converts an index operand to an integer term
func (x *Exec) index(fr *Frame, v ssa.Value) *Term {
	t := x.term(fr, v)
	if t.sort.Base == "BV" {
		if t.op == OBVC {
			return x.c.IB(t.iv)
		}
		unsup("symbolic index in bit-vector mode")
	}
	return t
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	c := x.c
	lo := c.Zero
	if in.Low != nil {
		lo = x.index(fr, in.Low)
	}
	switch v := x.get(fr, in.X).(type) {
	case SliceV:
		hi, mx := v.len, v.cap
		if in.High != nil {
			hi = x.index(fr, in.High)
		}
		if in.Max != nil {
			mx = x.index(fr, in.Max)
			x.oblige(st, "safety", "slice bounds", x.pos(in), c.And(c.Le(hi, mx), c.Le(mx, v.cap)))
		}
		x.oblige(st, "safety", "slice bounds", x.pos(in), c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx)))
		return SliceV{v.ref, c.Add(v.off, lo), c.Sub(hi, lo), c.Sub(mx, lo), v.elem}
	case PtrV:
		if v.isA {
			n := c.I(v.arr)
			hi := n
			if in.High != nil {
				hi = x.index(fr, in.High)
			}
			x.oblige(st, "safety", "slice bounds", x.pos(in), c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, n)))
			return SliceV{v.ref, c.Add(v.idx, lo), c.Sub(hi, lo), c.Sub(n, lo), v.root}
		}
	case *Term: // string
		return c.Fresh("substr", SRef)
	}
	unsup("slice of %T", x.get(fr, in.X))
	return nil
}

func (x *Exec) unop(st *State, fr *Frame, in *ssa.UnOp) Val {
	c := x.c
	switch in.Op {
	case token.MUL:
		p, ok := x.get(fr, in.X).(PtrV)
		if !ok {
			unsup("load through %T", x.get(fr, in.X))
		}
		if g, ok := in.X.(*ssa.Global); ok {
			return x.loadGlobal(st, g, p)
		}
		x.nonnil(st, p.ref, in)
		return x.load(st, p)
	case token.NOT:
		return c.Not(x.term(fr, in.X))
	case token.SUB:
		v := x.term(fr, in.X)
		if v.sort.Base == "BV" {
			return c.BV("bvneg", v.sort, v)
		}
		if v.sort == SFlt {
			return c.App("fneg", SFlt, v)
		}
		return x.wrap(st, kindOf(in.Type()), c.Neg(v))
	case token.XOR:
		v := x.term(fr, in.X)
		if v.sort.Base == "BV" {
			return c.BV("bvnot", v.sort, v)
		}
		return x.wrap(st, kindOf(in.Type()), c.Sub(c.Neg(v), c.One))
	}
	unsup("unop %s", in.Op)
	return nil
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global, p PtrV) Val {
	if types.Identical(p.typ, types.Universe.Lookup("error").Type()) {
		return IfaceV{tag: x.c.I(x.nameTag("err:" + g.String())), pay: x.c.Zero}
	}
	if g.Pkg != nil && x.pg.isRepo(g.Pkg) {
		return x.load(st, p)
	}
	if _, ok := p.typ.Underlying().(*types.Struct); ok {
		return StructV{t: p.typ}
	}
	v := x.load(st, p)
	return v
}

func (x *Exec) wrap(st *State, k string, t *Term) *Term {
	c := x.c
	if k == "" {
		return t
	}
	r := c.Wrap(k, t)
	if r.op == OWrap && r.name == k {
		a := r.args[0]
		if st.quick(c.Le(c.IB(kindLo[k]), a)) && st.quick(c.Le(a, c.IB(kindHi[k]))) {
			return a
		}
	}
	return r
}

func isMask(n *big.Int) (uint, bool) { // 2^k-1
	if n.Sign() <= 0 {
		return 0, false
	}
	m := new(big.Int).Add(n, one)
	if new(big.Int).And(m, n).Sign() == 0 {
		return uint(n.BitLen()), true
	}
	return 0, false
}

func (x *Exec) binop(st *State, fr *Frame, op token.Token, a, b Val, ta, tr types.Type, in ssa.Instruction) Val {
	c := x.c
	switch op {
	case token.EQL, token.NEQ:
		e := x.equal(st, a, b, ta)
		if op == token.NEQ {
			e = c.Not(e)
		}
		return e
	}
	p, q := x.scalar(a), x.scalar(b)
	if p.sort == SFlt || q.sort == SFlt {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return c.App("f"+op.String(), SFlt, p, q)
		}
		return c.App("f"+op.String(), SBool, p, q)
	}
	k := kindOf(ta)
	if k == "" { // strings
		if op == token.ADD {
			return c.App("strcat", SRef, p, q)
		}
		return c.App("str"+op.String(), SBool, p, q)
	}
	if p.sort.Base == "BV" {
		return x.bvop(op, p, q, k)
	}
	if q.sort.Base == "BV" && (op == token.SHL || op == token.SHR) && q.op == OBVC {
		q = c.IB(q.iv)
	}
	switch op {
	case token.LSS:
		return c.Lt(p, q)
	case token.LEQ:
		return c.Le(p, q)
	case token.GTR:
		return c.Lt(q, p)
	case token.GEQ:
		return c.Le(q, p)
	case token.ADD:
		return x.wrap(st, k, c.Add(p, q))
	case token.SUB:
		return x.wrap(st, k, c.Sub(p, q))
	case token.MUL:
		return x.wrap(st, k, c.Mul(p, q))
	case token.QUO, token.REM:
		pos := st.quick(c.Ge0(p))
		if !st.quick(c.Lt(c.Zero, q)) {
			return c.Fresh("div", SK(k)) // sign of divisor unknown: abstracted
		}
		if op == token.QUO {
			if pos {
				return c.Div(p, q)
			}
			return c.Ite(c.Ge0(p), c.Div(p, q), c.Neg(c.Div(c.Neg(p), q)))
		}
		if pos {
			return c.Mod(p, q)
		}
		return c.Ite(c.Ge0(p), c.Mod(p, q), c.Neg(c.Mod(c.Neg(p), q)))
	case token.SHL:
		if q.op == OInt {
			if q.iv.Cmp(big.NewInt(64)) >= 0 {
				return c.Zero
			}
			return x.wrap(st, k, c.MulK(pow2(uint(q.iv.Int64())), p))
		}
	case token.SHR:
		if q.op == OInt {
			if q.iv.Cmp(big.NewInt(64)) >= 0 && k[0] == 'u' {
				return c.Zero
			}
			if q.iv.Cmp(big.NewInt(64)) < 0 {
				return c.Div(p, c.IB(pow2(uint(q.iv.Int64())))) // floor division: also right for negative numbers
			}
		}
	case token.AND:
		if p.op == OInt {
			p, q = q, p
		}
		if q.op == OInt {
			if q.iv.Sign() == 0 {
				return c.Zero
			}
			if w, ok := isMask(q.iv); ok {
				return c.Mod(p, c.IB(pow2(w)))
			}
			if q.iv.Sign() > 0 { // contiguous mask
				tz := q.iv.TrailingZeroBits()
				if w, ok := isMask(new(big.Int).Rsh(q.iv, tz)); ok {
					return c.MulK(pow2(tz), c.Mod(c.Div(p, c.IB(pow2(tz))), c.IB(pow2(w))))
				}
			}
			if w, ok := isMask(new(big.Int).Sub(new(big.Int).Neg(q.iv), one)); ok && k[0] == 'i' { // ^mask
				return c.Sub(p, c.Mod(p, c.IB(pow2(w))))
			}
		}
	case token.AND_NOT:
		if q.op == OInt {
			if w, ok := isMask(q.iv); ok {
				return c.Sub(p, c.Mod(p, c.IB(pow2(w))))
			}
			if q.iv.Sign() == 0 {
				return p
			}
		}
	case token.OR:
		if q.op == OInt && q.iv.Sign() == 0 {
			return p
		}
		if p.op == OInt {
			p, q = q, p
			if q.iv.Sign() == 0 {
				return p
			}
		}
		if q.op == OInt && q.iv.Sign() > 0 { // contiguous mask
			tz := q.iv.TrailingZeroBits()
			if w, ok := isMask(new(big.Int).Rsh(q.iv, tz)); ok {
				and := c.MulK(pow2(tz), c.Mod(c.Div(p, c.IB(pow2(tz))), c.IB(pow2(w))))
				return c.Add(c.Sub(p, and), q)
			}
		}
	case token.XOR:
		if q.op == OInt && q.iv.Sign() == 0 {
			return p
		}
	}
	return c.App("bit"+op.String()+k, SK(k), p, q)
}

func (x *Exec) bvop(op token.Token, p, q *Term, k string) Val {
	c := x.c
	sg := k[0] == 'i'
	w := p.sort.W
	if op == token.SHL || op == token.SHR {
		// shift counts: Int constants or other widths
		if q.sort.isInt() {
			if q.op != OInt {
				unsup("shift count")
			}
			q = c.BVC(q.iv, w)
		} else if q.sort.W < w {
			q = c.BV(fmt.Sprintf("zext%d", w), p.sort, q)
		} else if q.sort.W > w {
			if q.op != OBVC {
				unsup("wide shift count")
			}
			n := q.iv
			if n.Cmp(big.NewInt(int64(w))) > 0 {
				n = big.NewInt(int64(w))
			}
			q = c.BVC(n, w)
		}
	} else if q.sort.isInt() {
		q = c.BVC(q.iv, w)
	}
	switch op {
	case token.ADD:
		return c.BV("bvadd", p.sort, p, q)
	case token.SUB:
		return c.BV("bvsub", p.sort, p, q)
	case token.MUL:
		return c.BV("bvmul", p.sort, p, q)
	case token.AND:
		return c.BV("bvand", p.sort, p, q)
	case token.OR:
		return c.BV("bvor", p.sort, p, q)
	case token.XOR:
		return c.BV("bvxor", p.sort, p, q)
	case token.AND_NOT:
		return c.BV("bvand", p.sort, p, c.BV("bvnot", q.sort, q))
	case token.SHL:
		return c.BV("bvshl", p.sort, p, q)
	case token.SHR:
		if sg {
			return c.BV("bvashr", p.sort, p, q)
		}
		return c.BV("bvlshr", p.sort, p, q)
	case token.QUO:
		if sg {
			return c.BV("bvsdiv", p.sort, p, q)
		}
		return c.BV("bvudiv", p.sort, p, q)
	case token.REM:
		if sg {
			return c.BV("bvsrem", p.sort, p, q)
		}
		return c.BV("bvurem", p.sort, p, q)
	}
	lt, le := "bvult", "bvule"
	if sg {
		lt, le = "bvslt", "bvsle"
	}
	switch op {
	case token.LSS:
		return c.BV(lt, SBool, p, q)
	case token.LEQ:
		return c.BV(le, SBool, p, q)
	case token.GTR:
		return c.BV(lt, SBool, q, p)
	case token.GEQ:
		return c.BV(le, SBool, q, p)
	}
	unsup("bv op %s", op)
	return nil
}

func (x *Exec) equal(st *State, a, b Val, t types.Type) *Term {
	c := x.c
	switch t.Underlying().(type) {
	case *types.Slice: // comparison with nil
		sa, sb := a.(SliceV), b.(SliceV)
		if sb.ref == c.Zero {
			return c.Eq(sa.ref, c.Zero)
		}
		return c.Eq(sb.ref, c.Zero)
	case *types.Interface:
		ia, ok1 := a.(IfaceV)
		ib, ok2 := b.(IfaceV)
		if !ok1 || !ok2 {
			unsup("interface comparison with %T/%T", a, b)
		}
		if ia.tag == c.Zero {
			return c.Eq(ib.tag, c.Zero)
		}
		if ib.tag == c.Zero {
			return c.Eq(ia.tag, c.Zero)
		}
		return c.And(c.Eq(ia.tag, ib.tag), c.Eq(ia.pay, ib.pay))
	case *types.Signature:
		fa, ok1 := a.(FuncV)
		fb, ok2 := b.(FuncV)
		if ok1 && fa.fn != nil || ok2 && fb.fn != nil {
			return c.False // comparison of a known function with nil
		}
		return c.Eq(x.scalar(a), x.scalar(b))
	case *types.Struct:
		ts, us := x.flatten(a, t), x.flatten(b, t)
		r := c.True
		for i := range ts {
			r = c.And(r, c.Eq(ts[i], us[i]))
		}
		return r
	case *types.Pointer:
		pa, ok1 := a.(PtrV)
		pb, ok2 := b.(PtrV)
		if ok1 && ok2 && (pa.idx != nil || pb.idx != nil || pa.path != "" || pb.path != "") && !pa.isA && !pb.isA {
			if pa.ref == c.Zero || pb.ref == c.Zero {
				return c.False
			}
			unsup("comparison of interior pointers")
		}
	}
	p, q := x.scalar(a), x.scalar(b)
	if p.sort == SFlt {
		return c.App("feq", SBool, p, q)
	}
	return c.Eq(p, q)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	c := x.c
	kf, kt := kindOf(from), kindOf(to)
	if kf != "" && kt != "" {
		t := x.scalar(v)
		if x.bv {
			fi, ti := isPlainInt(from), isPlainInt(to)
			wf, wt := kindW(kf), kindW(kt)
			switch {
			case fi && ti:
				return t
			case fi:
				if t.op == OInt {
					return c.BVC(t.iv, wt)
				}
				unsup("int to bit vector")
			case ti:
				if t.op == OBVC {
					return c.IB(t.iv)
				}
				unsup("bit vector to int")
			case wt > wf:
				if kf[0] == 'i' {
					return c.BV(fmt.Sprintf("sext%d", wt), SBV(wt), t)
				}
				return c.BV(fmt.Sprintf("zext%d", wt), SBV(wt), t)
			case wt < wf:
				return c.BV(fmt.Sprintf("trunc%d", wt), SBV(wt), t)
			}
			return t
		}
		r := x.wrap(st, kt, t)
		if x.mode == "wf" && r.op == OWrap && r.args[0] == t && !t.bound {
			// a conversion that keeps the value: worth a question, the simpler term serves every later query
			in := c.And(c.Le(c.IB(kindLo[kt]), t), c.Le(t, c.IB(kindHi[kt])))
			if x.entails(st, in, 400*time.Millisecond) {
				st.assume(in)
				return t
			}
		}
		return r
	}
	bt, _ := to.Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsFloat != 0 {
		t := x.scalar(v)
		if t.sort == SFlt {
			return t
		}
		return c.App("i2f", SFlt, t)
	}
	if kt != "" {
		return c.App("f2i"+kt, SK(kt), x.scalar(v))
	}
	if bt != nil && bt.Info()&types.IsString != 0 {
		return c.Fresh("str", SRef)
	}
	if sl, ok := to.Underlying().(*types.Slice); ok {
		return x.freshAllocSlice(st, sl.Elem(), "bytes")
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (x *Exec) freshAllocSlice(st *State, elem types.Type, name string) SliceV {
	ref := x.c.Alloc()
	n := x.c.Fresh(name+".len", SK("len"))
	return SliceV{ref, x.c.Zero, n, n, elem}
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) Val {
	c := x.c
	v, ok := x.get(fr, in.X).(IfaceV)
	if !ok {
		unsup("type assertion on %T", x.get(fr, in.X))
	}
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		unsup("assertion to interface type")
	}
	is := c.Eq(v.tag, c.I(x.typeTag(in.AssertedType)))
	var val Val
	if v.dyn != nil && is == c.True {
		val = v.dyn
	} else {
		switch u := in.AssertedType.Underlying().(type) {
		case *types.Pointer:
			val = x.ptrTo(v.pay, u.Elem())
			if pt := val.(PtrV); pt.ref.sort != SRef && pt.ref.op != OInt {
				// payload of an interface as a reference
				r := c.App("payref", SRef, v.pay)
				pt.ref = r
				val = pt
			}
		case *types.Basic:
			val = c.App("unbox:"+tname(in.AssertedType), x.sortOf(in.AssertedType), v.pay)
			if v.pay.sort.isInt() && x.sortOf(in.AssertedType).isInt() {
				val = v.pay
			}
		default:
			val = x.freshVal(st, "assert", in.AssertedType)
		}
	}
	if in.CommaOk {
		z := x.zero(in.AssertedType)
		if is == c.False {
			val = z
		} else if is != c.True {
			val = x.iteVal(is, val, z, in.AssertedType)
		}
		return TupleV{val, is}
	}
	x.oblige(st, "safety", "type assertion", x.pos(in), is)
	return val
}

// stopAt cuts the proof short (unix nanoseconds) once a concrete failing input is known.
var stopAt atomic.Int64

func outOfTime(deadline time.Time) bool {
	now := time.Now()
	if s := stopAt.Load(); s != 0 && now.UnixNano() > s {
		return true
	}
	return now.After(deadline)
}
