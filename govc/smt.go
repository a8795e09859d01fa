package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

type Verdict int

const (
	Unknown Verdict = iota
	Proved
	Refuted // sat: candidate counterexample
)

func (v Verdict) String() string { return [...]string{"unknown", "proved", "refuted"}[v] }

type Result struct {
	v      Verdict
	solver string
	model  map[string]string
	dur    time.Duration
	query  string
}

var solverTime int64 // ns
var solverCalls int64
var statMu sync.Mutex
var bySolver = map[string]int{}

func smtName(s string) string {
	if s[0] == '@' { // reserved
		s = "new" + s
	}
	return "|" + s + "|"
}

func bigSmt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

// script prints the assertions as SMT-LIB.
func (c *Ctx) script(as []*Term, want []*Term) string {
	var decl, body bytes.Buffer
	decls := map[string]bool{}
	declare := func(name, sig string) {
		if !decls[name] {
			decls[name] = true
			fmt.Fprintf(&decl, "(declare-fun %s %s)\n", name, sig)
		}
	}
	usedSorts := map[string]bool{}
	refs := map[*Term]int{}
	var order []*Term
	var count func(t *Term)
	count = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		usedSorts[t.sort.Base] = true
		if t.op != OForall {
			for _, a := range t.args {
				count(a)
			}
		}
		order = append(order, t)
	}
	for _, a := range as {
		count(a)
	}
	for _, a := range want {
		count(a)
	}
	names := map[*Term]string{}
	var pr func(t *Term) string
	var node func(t *Term) string
	pr = func(t *Term) string {
		if n, ok := names[t]; ok {
			return n
		}
		return node(t)
	}
	list := func(op string, as []*Term) string {
		var sb strings.Builder
		sb.WriteString("(" + op)
		for _, a := range as {
			sb.WriteString(" " + pr(a))
		}
		sb.WriteString(")")
		return sb.String()
	}
	node = func(t *Term) string {
		switch t.op {
		case OVar:
			declare(smtName(t.name), "() "+t.sort.smt())
			return smtName(t.name)
		case OInt:
			return bigSmt(t.iv)
		case OBool:
			return t.name
		case OBVC:
			return fmt.Sprintf("(_ bv%s %d)", t.iv.String(), t.sort.W)
		case OPoly:
			var sb strings.Builder
			sb.WriteString("(+")
			for i, a := range t.args {
				if t.coef[i].Cmp(one) == 0 {
					sb.WriteString(" " + pr(a))
				} else {
					sb.WriteString(" (* " + bigSmt(t.coef[i]) + " " + pr(a) + ")")
				}
			}
			if t.iv.Sign() != 0 || len(t.args) == 1 {
				sb.WriteString(" " + bigSmt(t.iv))
			}
			sb.WriteString(")")
			return sb.String()
		case OMul:
			return list("*", t.args)
		case ODiv:
			return list("div", t.args)
		case OMod:
			return list("mod", t.args)
		case OWrap:
			M := kindMod(t.name).String()
			if kindLo[t.name].Sign() == 0 {
				return "(mod " + pr(t.args[0]) + " " + M + ")"
			}
			H := new(big.Int).Neg(kindLo[t.name]).String()
			return "(- (mod (+ " + pr(t.args[0]) + " " + H + ") " + M + ") " + H + ")"
		case OIte:
			return list("ite", t.args)
		case ONot:
			return list("not", t.args)
		case OAnd:
			return list("and", t.args)
		case OOr:
			return list("or", t.args)
		case OEq:
			return list("=", t.args)
		case OGe0:
			p := t.args[0]
			if p.op == OPoly { // nicer: lhs >= rhs
				return "(>= " + pr(p) + " 0)"
			}
			return "(>= " + pr(p) + " 0)"
		case OSelect:
			return list("select", t.args)
		case OStore:
			return list("store", t.args)
		case OConstArr:
			return "((as const " + t.sort.smt() + ") " + pr(t.args[0]) + ")"
		case OBlitA:
			n := "blitA_" + fmt.Sprint(len(t.sort.key)) + strings.NewReplacer(":", "_", "[", "_", "]", "_").Replace(t.sort.key)
			declare(n, "("+t.sort.smt()+" Int "+t.args[2].sort.smt()+" Int Int) "+t.sort.smt())
			return list(n, t.args)
		case ORd:
			usedSorts["Mem"] = true
			declare("rd", "(Mem Int Int) Int")
			return list("rd", t.args)
		case OWr:
			usedSorts["Mem"] = true
			declare("wr", "(Mem Int Int Int) Mem")
			return list("wr", t.args)
		case OBlit:
			usedSorts["Mem"] = true
			declare("blit", "(Mem Int Mem Int Int) Mem")
			return list("blit", t.args)
		case OApp:
			var sg []string
			for _, a := range t.args {
				sg = append(sg, a.sort.smt())
			}
			nm := smtName("f." + t.name + "/" + strings.Join(sg, ","))
			declare(nm, "("+strings.Join(sg, " ")+") "+t.sort.smt())
			if len(t.args) == 0 {
				return nm
			}
			return list(nm, t.args)
		case OForall:
			n := smtName(fmt.Sprintf("q!%d", t.id))
			declare(n, "() Bool")
			return n
		case OBV:
			nm := t.name
			switch {
			case strings.HasPrefix(nm, "zext"):
				return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.W-t.args[0].sort.W, pr(t.args[0]))
			case strings.HasPrefix(nm, "sext"):
				return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.W-t.args[0].sort.W, pr(t.args[0]))
			case strings.HasPrefix(nm, "trunc"):
				return fmt.Sprintf("((_ extract %d 0) %s)", t.sort.W-1, pr(t.args[0]))
			case strings.HasPrefix(nm, "concat"):
				return list("concat", t.args)
			}
			return list(nm, t.args)
		}
		panic("smt node")
	}
	// range facts
	for _, t := range order {
		switch t.op {
		case OVar, OSelect, OApp, ORd:
			if !t.sort.isInt() {
				continue
			}
			lo, hi := c.interval(t)
			n := pr(t)
			if t.op != OVar && refs[t] >= 1 {
				nm := fmt.Sprintf("t!%d", t.id)
				fmt.Fprintf(&body, "(define-fun %s () %s %s)\n", nm, t.sort.smt(), node(t))
				names[t] = nm
				n = nm
			}
			if isAlloc(t) {
				fmt.Fprintf(&body, "(assert (= %s %s))\n", n, t.name[1:])
				continue
			}
			if lo != nil {
				fmt.Fprintf(&body, "(assert (>= %s %s))\n", n, bigSmt(lo))
			}
			if hi != nil {
				fmt.Fprintf(&body, "(assert (<= %s %s))\n", n, bigSmt(hi))
			}
			if t.sort == SRef {
				fmt.Fprintf(&body, "(assert (<= %s %d))\n", n, t.epoch)
			}
		default:
			if refs[t] > 1 && len(t.args) > 0 && t.op != OForall {
				nm := fmt.Sprintf("t!%d", t.id)
				fmt.Fprintf(&body, "(define-fun %s () %s %s)\n", nm, t.sort.smt(), node(t))
				names[t] = nm
			}
		}
	}
	for _, a := range as {
		fmt.Fprintf(&body, "(assert %s)\n", pr(a))
	}
	var w bytes.Buffer
	if len(want) > 0 {
		var ns []string
		for _, t := range want {
			ns = append(ns, pr(t))
		}
		fmt.Fprintf(&w, "(get-value (%s))\n", strings.Join(ns, " "))
	}
	var head bytes.Buffer
	head.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	for _, s := range []string{"Mem", "Flt"} {
		if usedSorts[s] {
			fmt.Fprintf(&head, "(declare-sort %s 0)\n", s)
		}
	}
	return head.String() + decl.String() + body.String() + "(check-sat)\n" + w.String()
}

// slow multiplies the limits of the solvers
var slow atomic.Int64

func init() { slow.Store(1) }

func limitCPU(pid int, sec uint64) {
	lim := [2]uint64{sec, sec + 2}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), 0 /* RLIMIT_CPU */, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
}

var solverSem = make(chan struct{}, 8)

func runSolver(parent context.Context, name string, script string, timeout time.Duration) (Verdict, string) {
	select {
	case solverSem <- struct{}{}:
	case <-parent.Done():
		return Unknown, ""
	}
	var cmd *exec.Cmd
	// the limit is on processor time, so that a busy machine does not change the outcome
	timeout *= time.Duration(slow.Load())
	wall := timeout
	if timeout >= time.Second {
		wall = 3 * timeout
	}
	ctx, cancel := context.WithTimeout(parent, wall+2*time.Second)
	defer cancel()
	ms := int(wall / time.Millisecond)
	switch name {
	case "z3-new":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", fmt.Sprintf("-t:%d", ms))
	case "z3":
		cmd = exec.CommandContext(ctx, "z3", "-in", fmt.Sprintf("-t:%d", ms))
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms))
	}
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	t0 := time.Now()
	if cmd.Start() == nil {
		limitCPU(cmd.Process.Pid, uint64((timeout+time.Second-1)/time.Second))
		cmd.Wait()
	}
	<-solverSem
	atomic.AddInt64(&solverTime, int64(time.Since(t0)))
	atomic.AddInt64(&solverCalls, 1)
	o := out.String()
	for _, l := range strings.Split(o, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return Proved, o
		case "sat":
			return Refuted, o
		case "unknown", "timeout":
			return Unknown, o
		}
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				os.WriteFile("/tmp/govc_err.smt2", []byte(script), 0644)
				fmt.Fprintln(os.Stderr, "solver error", name, l)
			}
			return Unknown, o
		}
	}
	return Unknown, o
}

// Prove checks facts |- goal.
func (c *Ctx) Prove(facts []*Term, goal *Term, timeout time.Duration, want []*Term) Result {
	if os.Getenv("GOVC_SLOW") != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 300*time.Millisecond {
				var pcs [12]uintptr
				n := runtime.Callers(3, pcs[:])
				fr := runtime.CallersFrames(pcs[:n])
				s := ""
				for i := 0; i < 5; i++ {
					f, more := fr.Next()
					s += fmt.Sprintf(" %s:%d", f.Function[strings.LastIndex(f.Function, ".")+1:], f.Line)
					if !more {
						break
					}
				}
				fmt.Fprintf(os.Stderr, "SLOW %.1f%s %s\n", d.Seconds(), s, trunc(goal.String(), 100))
			}
		}()
	}
	if goal == c.True {
		return Result{v: Proved, solver: "simplifier"}
	}
	if len(c.foldNames(goal)) == 0 && goal != c.False {
		for _, f := range facts {
			if len(c.foldNames(f)) > 0 {
				short := timeout
				if short > 3*time.Second {
					short = 3 * time.Second
				}
				if r := solve(c.query(facts, goal, want, false), short, want); r.v == Proved {
					return r
				}
				break
			}
		}
	}
	if len(c.foldNames(goal)) > 0 {
		if r := solve(c.liteQuery(facts, goal, want), 4*time.Second, want); r.v == Proved {
			return r
		}
	}
	// quantified facts about functions of memory the goal does not mention are first left out
	if goal != c.False && timeout > time.Second {
		if fs := c.narrow(facts, goal); len(fs) < len(facts) {
			if r := solve(c.query(fs, goal, want, true), 4*time.Second, want); r.v == Proved {
				return r
			}
		}
	}
	return solve(c.query(facts, goal, want, true), timeout, want)
}

// narrow leaves out the quantified facts about functions of memory that the goal does not mention
func (c *Ctx) narrow(facts []*Term, goal *Term) []*Term {
	in := map[string]bool{}
	for _, n := range c.winNames(goal) {
		in[n] = true
	}
	var fs []*Term
	for _, f := range facts {
		keep := true
		for _, n := range c.winNames(f) {
			keep = keep && in[n]
		}
		if keep || !hasForall(f) {
			fs = append(fs, f)
		}
	}
	return fs
}

// opaque replaces a fold that occurs in the goal as one term only by a constant and leaves out the facts about its other
// terms, so that nothing is unfolded that the goal does not depend on.
func (c *Ctx) opaque(facts []*Term, goal *Term) ([]*Term, *Term) {
	of := map[string]map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && strings.HasPrefix(t.name, "fold:") {
			if of[t.name] == nil {
				of[t.name] = map[*Term]bool{}
			}
			of[t.name][t] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(goal)
	if len(of) < 2 {
		return facts, goal
	}
	gone := map[string]bool{}
	m := map[*Term]*Term{}
	for n, ts := range of {
		if len(ts) == 1 {
			for t := range ts {
				if !hasBound(t) {
					gone[n] = true
					m[t] = c.Fresh("opaque", t.sort)
				}
			}
		}
	}
	if len(m) == 0 {
		return facts, goal
	}
	sv := c.known
	c.known = nil
	defer func() { c.known = sv }()
	var fs []*Term
	for _, f := range facts {
		f = c.Subst(f, m)
		keep := true
		for _, n := range c.foldNames(f) {
			keep = keep && !gone[n] && !gone["fold:"+n]
		}
		if keep {
			fs = append(fs, f)
		}
	}
	return fs, c.Subst(goal, m)
}

func hasBound(t *Term) bool {
	if t.bound {
		return true
	}
	for _, a := range t.args {
		if hasBound(a) {
			return true
		}
	}
	return false
}

func hasForall(t *Term) bool {
	if t.op == OForall {
		return true
	}
	if t.op == OAnd || t.op == OOr || t.op == ONot {
		for _, a := range t.args {
			if hasForall(a) {
				return true
			}
		}
	}
	return false
}

// winNames lists the window functions a term mentions
func (c *Ctx) winNames(t *Term) []string {
	if r, ok := c.winMemo[t]; ok {
		return r
	}
	var r []string
	have := map[string]bool{}
	put := func(n string) {
		if !have[n] {
			have[n] = true
			r = append(r, n)
		}
	}
	if t.op == OApp && c.windows[t.name] {
		put(t.name)
	}
	for _, a := range t.args {
		for _, n := range c.winNames(a) {
			put(n)
		}
	}
	if c.winMemo == nil {
		c.winMemo = map[*Term][]string{}
	}
	c.winMemo[t] = r
	return r
}

// liteQuery is a small form of the question that suffices when only the definitions of folds matter.
func (c *Ctx) liteQuery(facts []*Term, goal *Term, want []*Term) string {
	all := c.relevant(append(append([]*Term{}, facts...), c.Not(goal)), false)
	all = append(all, c.wrapLemmas(all, goal)...)
	return c.script(c.expand(all, 1, 600, true), want)
}

// query builds the solver's input; without full a goal about no fold is tried without the facts about folds.
func (c *Ctx) query(facts []*Term, goal *Term, want []*Term, full bool) string {
	all := append(append([]*Term{}, facts...), c.Not(goal))
	all = c.relevant(all, full)
	all = append(all, c.wrapLemmas(all, goal)...)
	g := c.expand(all, 3, 3000, false)
	return c.script(g, want)
}

func solve(sc string, timeout time.Duration, want []*Term) Result {
	t0 := time.Now()
	res := Result{query: sc}
	short := time.Second
	if timeout < short {
		short = timeout
	}
	v, o := runSolver(context.Background(), "z3-new", sc, short)
	res.v, res.solver = v, "z3-new"
	if v == Unknown && timeout > short {
		// portfolio
		type r struct {
			v Verdict
			o string
			n string
		}
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan r, 3)
		ns := []string{"cvc5", "z3-new", "z3"}
		if timeout <= 4*time.Second {
			ns = ns[:2]
		}
		for _, n := range ns {
			n := n
			go func() {
				v, o := runSolver(ctx, n, sc, timeout)
				ch <- r{v, o, n}
			}()
		}
		for range ns {
			x := <-ch
			if x.v != Unknown {
				res.v, res.solver, o = x.v, x.n, x.o
				break
			}
		}
		cancel()
	}
	if res.v == Refuted && len(want) > 0 {
		res.model = parseModel(o, want)
	}
	statMu.Lock()
	bySolver[res.solver+":"+res.v.String()]++
	statMu.Unlock()
	res.dur = time.Since(t0)
	return res
}

// relevant removes duplicates and the facts about folds that have no connection to the goal (the last element).
func (c *Ctx) relevant(all []*Term, full bool) []*Term {
	var fs []*Term
	var flat func(f *Term)
	flat = func(f *Term) {
		if f.op == OAnd {
			for _, a := range f.args {
				flat(a)
			}
			return
		}
		fs = append(fs, f)
	}
	for _, f := range all[:len(all)-1] {
		flat(f)
	}
	fs = append(fs, all[len(all)-1])
	goal := c.foldNames(fs[len(fs)-1])
	rel := map[string]bool{}
	var add func(n string)
	add = func(n string) {
		if rel[n] {
			return
		}
		rel[n] = true
		if d := c.folds[n]; d != nil && d.step != nil {
			for _, m := range c.foldNames(d.step) {
				add(m)
			}
		}
	}
	for _, n := range goal {
		add(n)
	}
	for grown := true; grown && len(goal) > 0; {
		grown = false
		for _, f := range fs {
			ns := c.foldNames(f)
			hit, all := false, true
			for _, n := range ns {
				hit = hit || rel[n]
				all = all && rel[n]
			}
			if hit && !all {
				for _, n := range ns {
					add(n)
				}
				grown = true
			}
		}
	}
	seen := map[*Term]bool{}
	var out []*Term
	for _, f := range fs {
		if seen[f] {
			continue
		}
		seen[f] = true
		ns := c.foldNames(f)
		keep := len(ns) == 0 || full && len(goal) == 0
		for _, n := range ns {
			keep = keep || rel[n]
		}
		if keep {
			out = append(out, f)
		}
	}
	return out
}

// foldNames lists the folds a term mentions.
func (c *Ctx) foldNames(t *Term) []string {
	if r, ok := c.foldMemo[t]; ok {
		return r
	}
	var r []string
	have := map[string]bool{}
	put := func(n string) {
		if !have[n] {
			have[n] = true
			r = append(r, n)
		}
	}
	if isFold(t) {
		put(t.name[5:])
	}
	for _, a := range t.args {
		for _, n := range c.foldNames(a) {
			put(n)
		}
	}
	if c.foldMemo == nil {
		c.foldMemo = map[*Term][]string{}
	}
	c.foldMemo[t] = r
	return r
}

func parseModel(o string, want []*Term) map[string]string {
	m := map[string]string{}
	i := strings.Index(o, "((")
	if i < 0 {
		return m
	}
	s := o[i:]
	// s-expression list of (term value)
	var toks []string
	cur := ""
	bar := false
	for _, ch := range s {
		switch {
		case ch == '|':
			bar = !bar
			cur += "|"
		case bar:
			cur += string(ch)
		case ch == '(' || ch == ')':
			if cur != "" {
				toks = append(toks, cur)
				cur = ""
			}
			toks = append(toks, string(ch))
		case ch == ' ' || ch == '\n' || ch == '\t':
			if cur != "" {
				toks = append(toks, cur)
				cur = ""
			}
		default:
			cur += string(ch)
		}
	}
	pos := 0
	var parse func() interface{}
	parse = func() interface{} {
		if pos >= len(toks) {
			return ""
		}
		if toks[pos] == "(" {
			pos++
			var l []interface{}
			for pos < len(toks) && toks[pos] != ")" {
				l = append(l, parse())
			}
			pos++
			return l
		}
		pos++
		return toks[pos-1]
	}
	top, _ := parse().([]interface{})
	var str func(x interface{}) string
	str = func(x interface{}) string {
		if l, ok := x.([]interface{}); ok {
			if len(l) == 2 {
				if a, ok := l[0].(string); ok && a == "-" {
					return "-" + str(l[1])
				}
			}
			var p []string
			for _, y := range l {
				p = append(p, str(y))
			}
			return "(" + strings.Join(p, " ") + ")"
		}
		return x.(string)
	}
	for i, e := range top {
		if l, ok := e.([]interface{}); ok && len(l) == 2 && i < len(want) {
			m[want[i].String()] = str(l[1])
		}
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// wrapLemmas: congruence modulo 2^n, spelled out for the wraps of the goal: from a == b (mod M) follows
// wrap(p) == wrap(p[a:=b]).
func (c *Ctx) wrapLemmas(facts []*Term, goal *Term) []*Term {
	var wraps []*Term
	seen := map[*Term]bool{}
	var find func(t *Term)
	find = func(t *Term) {
		if seen[t] || t.op == OForall {
			return
		}
		seen[t] = true
		if t.op == OWrap {
			wraps = append(wraps, t)
		}
		for _, a := range t.args {
			find(a)
		}
	}
	find(goal)
	if len(wraps) == 0 {
		return nil
	}
	var eqs [][3]interface{}
	add := func(a, b *Term, m *big.Int) {
		switch a.op {
		case OVar, OSelect, OApp, OIte:
			if !occursIn(a, b) {
				eqs = append(eqs, [3]interface{}{a, b, m})
			}
		}
	}
	var scan func(f *Term)
	scan = func(f *Term) {
		if f.op == OAnd {
			for _, g := range f.args {
				scan(g)
			}
		}
		if f.op != OEq || !f.args[0].sort.isInt() {
			return
		}
		l, r := f.args[0], f.args[1]
		var m *big.Int
		if l.op == OWrap {
			m, l = modulusOf(l), l.args[0]
		}
		if r.op == OWrap {
			n := modulusOf(r)
			if m == nil || n.Cmp(m) < 0 {
				m = n
			}
			r = r.args[0]
		}
		if m == nil {
			return
		}
		add(l, r, m)
		add(r, l, m)
	}
	for _, f := range facts {
		scan(f)
	}
	var out []*Term
	done := map[*Term]bool{}
	for depth := 0; depth < 2; depth++ {
		var next []*Term
		for _, w := range wraps {
			if done[w] {
				continue
			}
			done[w] = true
			l := c.toLin(w.args[0])
			for _, e := range eqs {
				a, b, m := e[0].(*Term), e[1].(*Term), e[2].(*big.Int)
				q, ok := l.m[a]
				if !ok || new(big.Int).Mod(m, modulusOf(w)).Sign() != 0 || len(out) > 40 {
					continue
				}
				n := lin{map[*Term]*big.Int{}, new(big.Int)}
				n.addMul(l, one)
				n.addMul(lin{map[*Term]*big.Int{a: one}, new(big.Int)}, new(big.Int).Neg(q))
				n.addMul(c.toLin(b), q)
				v := c.Wrap(w.name, c.fromLin(n))
				if v != w {
					out = append(out, c.Eq(w, v))
					if v.op == OWrap {
						next = append(next, v)
					}
				}
			}
		}
		wraps = next
	}
	return out
}

func occursIn(a, t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == a {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, x := range t.args {
			if f(x) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// splitLast divides forall k in [lo, hi): B into the last element and the others; what holds so far usually covers the
// others, what the last step did the last.
func (c *Ctx) splitLast(g *Term) []*Term {
	if g.op != OForall || g.args[1].op != OOr {
		return nil
	}
	v, body := g.args[0], g.args[1]
	var hi *Term
	n := 0
	for _, a := range body.args {
		if a.op != OGe0 || !mentions(a, v) {
			continue
		}
		if h := c.Sub(v, a.args[0]); !mentions(h, v) {
			hi = h
			n++
		}
	}
	if n != 1 {
		return nil
	}
	last := c.Sub(hi, c.One)
	if last.isConst() {
		return nil
	}
	rest := c.Forall(v, c.Or(body, c.Eq(v, last)), g.trig...)
	return []*Term{c.Subst(body, map[*Term]*Term{v: last}), rest}
}

func mentions(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
