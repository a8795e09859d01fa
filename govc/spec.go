package main

// Specification files: contracts, definitions, folds, templates.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	kind string
	expr ast.Expr
	text string
	tags []string
	from []ast.Expr // of show: premises
}

func (c *Clause) applies(x *Exec) bool      { return tagOK(c.tags, x.prop) }
func tagOK(tags []string, prop string) bool { return tagOK2(tags, prop, nil) }

// tagOK2: tags of the form @group are satisfied by the flags of the contract under verification
func tagOK2(tags []string, prop string, hints map[string]bool) bool {
	props, groups := 0, 0
	okP, okG := false, false
	for _, t := range tags {
		if t[0] == '@' {
			groups++
			okG = okG || hints[t]
		} else {
			props++
			okP = okP || t == prop
		}
	}
	return (props == 0 || okP) && (groups == 0 || okG)
}

type CaseSpec struct {
	expr ast.Expr
	text string
	lo   int64
	hi   int64
	star bool
}

type letDef struct {
	name string
	expr ast.Expr
}

type Contract struct {
	fn        string
	mode      string
	params    []string
	results   []string
	ghosts    [][2]string // name, sort
	lets      []letDef    // names for expressions over the parameters, evaluated at entry
	requires  []*Clause
	ensures   []*Clause
	modifies  []*Clause
	uses      []*Clause // lemmas assumed at entry
	defines   []*Clause // names of the results of a function that depends on its arguments only
	decreases ast.Expr
	fresh     map[string]bool
	props     []string
	cases     []CaseSpec
	top       bool // task only, never applied at call sites
	noCall    bool
	bvOnly    bool
	trusted   bool
	internal  bool // may be missing from the code
	faults    bool
	noreturn  bool
	pure      bool
	hints     map[string]bool
	file      string
}

func (c *Contract) id() string {
	if c.mode != "" {
		return c.fn + "@" + c.mode
	}
	return c.fn
}
func (c *Contract) short() string { return c.id() }
func (c *Contract) hasProp(p string) bool {
	if len(c.props) == 0 {
		return true
	}
	for _, q := range c.props {
		if q == p {
			return true
		}
	}
	return false
}
func (c *Contract) resName(i int) string {
	if i < len(c.results) {
		return c.results[i]
	}
	return fmt.Sprintf("result%d", i)
}

type specParam struct {
	name string
	typ  string
}

type Def struct {
	name   string
	params []string
	body   ast.Expr
	text   string
}
type FoldSpec struct {
	name, kind string
	params     []specParam
	k          string
	body       ast.Expr
}
type FnSpec struct {
	name   string
	params []string
	res    string
	window bool
}
type Template struct {
	tags  []string
	holes []specParam
	expr  ast.Expr
	text  string
	mode  string
}
type Axiom struct {
	name string
	vars []specParam
	expr ast.Expr
	text string
	trig []ast.Expr
	tags []string
}

type Specs struct {
	cons    []*Contract
	byKey   map[string][]*Contract
	ftypes  map[string][]*Contract
	defs    map[string]*Def
	folds   map[string]*FoldSpec
	fns     map[string]*FnSpec
	temps   []*Template
	axioms  []*Axiom
	chanInv map[string][]*Clause
	errs    []string
}

func (s *Specs) find(key, mode string) *Contract {
	var any *Contract
	for _, c := range s.byKey[key] {
		if c.mode == mode && !c.top {
			return c
		}
		if c.mode == "" && !c.top {
			any = c
		}
	}
	return any
}
func (s *Specs) funcType(tn, mode string) *Contract {
	var any *Contract
	for _, c := range s.ftypes[tn] {
		if c.mode == mode {
			return c
		}
		if c.mode == "" {
			any = c
		}
	}
	return any
}

var clauseRe = regexp.MustCompile(`^(requires|ensures|show|scope|end|modifies|decreases|fresh|props|cases|flags|ghost|uses|defines|name)\b\s*(.*)$`)
var tagRe = regexp.MustCompile(`^\[([A-Za-z0-9@: ]+)\]\s*(.*)$`)

func loadSpecs(dir string) (*Specs, error) {
	s := &Specs{byKey: map[string][]*Contract{}, ftypes: map[string][]*Contract{}, defs: map[string]*Def{}, folds: map[string]*FoldSpec{}, fns: map[string]*FnSpec{}, chanInv: map[string][]*Clause{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := s.parse(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return s, nil
}

func parseExpr(t string) (ast.Expr, error) {
	e, err := parser.ParseExpr(t)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, t)
	}
	return e, nil
}

func splitParams(s string) []specParam {
	var out []specParam
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		f := strings.Fields(p)
		sp := specParam{name: f[0]}
		if len(f) > 1 {
			sp.typ = strings.Join(f[1:], " ")
		}
		out = append(out, sp)
	}
	return out
}
func names(ps []specParam) []string {
	var out []string
	for _, p := range ps {
		out = append(out, p.name)
	}
	return out
}

// matchParen returns index after the parenthesis group starting at s[i]
func matchParen(s string, i int) int {
	d := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i + 1
			}
		}
	}
	return -1
}

func (s *Specs) parse(file, text string) error {
	var items []string // logical lines
	var cur string
	flush := func() {
		if strings.TrimSpace(cur) != "" {
			items = append(items, cur)
		}
		cur = ""
	}
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		ind := len(l) - len(strings.TrimLeft(l, " \t"))
		t := strings.TrimSpace(l)
		if ind == 0 {
			flush()
			cur = t
		} else if clauseRe.MatchString(t) {
			flush()
			cur = "\x01" + t
		} else {
			cur += " " + t
		}
	}
	flush()
	var con *Contract
	for _, it := range items {
		if it[0] == 1 {
			if con == nil {
				return fmt.Errorf("%s: clause without function: %s", file, it[1:])
			}
			if err := con.clause(it[1:]); err != nil {
				return fmt.Errorf("%s: %s: %v", file, con.fn, err)
			}
			continue
		}
		con = nil
		kw, rest, _ := strings.Cut(it, " ")
		rest = strings.TrimSpace(rest)
		var err error
		switch kw {
		case "func", "functype":
			con, err = parseHead(rest)
			if err == nil {
				con.file = file
				if kw == "func" {
					s.cons = append(s.cons, con)
					s.byKey[con.fn] = append(s.byKey[con.fn], con)
				} else {
					con.trusted = true
					s.ftypes[con.fn] = append(s.ftypes[con.fn], con)
				}
			}
		case "def":
			l, r, ok := strings.Cut(rest, "=")
			if !ok {
				return fmt.Errorf("%s: def %s", file, rest)
			}
			d := &Def{text: r}
			i := strings.Index(l, "(")
			d.name = strings.TrimSpace(l[:i])
			d.params = names(splitParams(l[i+1 : strings.LastIndex(l, ")")]))
			d.body, err = parseExpr(r)
			s.defs[d.name] = d
		case "fold":
			l, r, ok := strings.Cut(rest, "=")
			if !ok {
				return fmt.Errorf("%s: fold %s", file, rest)
			}
			kind, l2, _ := strings.Cut(strings.TrimSpace(l), " ")
			i := strings.Index(l2, "(")
			in := l2[i+1 : strings.LastIndex(l2, ")")]
			ps, k, _ := strings.Cut(in, ";")
			f := &FoldSpec{name: strings.TrimSpace(l2[:i]), kind: kind, params: splitParams(ps), k: strings.TrimSpace(k)}
			f.body, err = parseExpr(r)
			s.folds[f.name] = f
		case "fn":
			i := strings.Index(rest, "(")
			j := matchParen(rest, i)
			f := &FnSpec{name: strings.TrimSpace(rest[:i]), res: strings.TrimSpace(rest[j:])}
			if strings.HasSuffix(f.res, " window") {
				f.window = true
				f.res = strings.TrimSpace(strings.TrimSuffix(f.res, " window"))
			}
			for _, p := range strings.Split(rest[i+1:j-1], ",") {
				if p = strings.TrimSpace(p); p != "" {
					f.params = append(f.params, p)
				}
			}
			s.fns[f.name] = f
		case "template":
			t := &Template{}
			if m := tagRe.FindStringSubmatch(rest); m != nil {
				t.tags = strings.Fields(m[1])
				rest = m[2]
			}
			j := matchParen(rest, 0)
			t.holes = splitParams(rest[1 : j-1])
			t.text = strings.TrimSpace(rest[j:])
			t.expr, err = parseExpr(t.text)
			s.temps = append(s.temps, t)
		case "axiom":
			a := &Axiom{}
			if m := tagRe.FindStringSubmatch(rest); m != nil {
				a.tags = strings.Fields(m[1])
				rest = m[2]
			}
			i := strings.Index(rest, "(")
			j := matchParen(rest, i)
			a.name = strings.TrimSpace(rest[:i])
			a.vars = splitParams(rest[i+1 : j-1])
			a.text = strings.TrimSpace(rest[j:])
			if strings.HasPrefix(a.text, "{") {
				tr, body, _ := strings.Cut(a.text[1:], "}")
				for _, p := range strings.Split(tr, ";") {
					e, err := parseExpr(p)
					if err != nil {
						return err
					}
					a.trig = append(a.trig, e)
				}
				a.text = strings.TrimSpace(body)
			}
			a.expr, err = parseExpr(a.text)
			s.axioms = append(s.axioms, a)
		case "chaninv":
			c := &Clause{kind: "chaninv"}
			tn, r, _ := strings.Cut(rest, " ")
			r = strings.TrimSpace(r)
			if m := tagRe.FindStringSubmatch(r); m != nil {
				c.tags = strings.Fields(m[1])
				r = m[2]
			}
			c.text = r
			c.expr, err = parseExpr(r)
			s.chanInv[tn] = append(s.chanInv[tn], c)
		default:
			return fmt.Errorf("%s: unknown item %q", file, it)
		}
		if err != nil {
			return fmt.Errorf("%s: %v", file, err)
		}
	}
	return nil
}

// head: KEY (params) (results) [mode M]   -- the key may itself contain parentheses: (*col.Reader).readBlock
func parseHead(s string) (*Contract, error) {
	c := &Contract{fresh: map[string]bool{}, hints: map[string]bool{}}
	i := 0
	if s[0] == '(' {
		i = matchParen(s, 0)
	}
	j := strings.Index(s[i:], "(")
	if j < 0 {
		return nil, fmt.Errorf("bad head %q", s)
	}
	j += i
	c.fn = strings.TrimSpace(s[:j])
	e := matchParen(s, j)
	c.params = names(splitParams(s[j+1 : e-1]))
	rest := strings.TrimSpace(s[e:])
	if strings.HasPrefix(rest, "(") {
		e := matchParen(rest, 0)
		c.results = names(splitParams(rest[1 : e-1]))
		rest = strings.TrimSpace(rest[e:])
	}
	if strings.HasPrefix(rest, "mode ") {
		c.mode = strings.TrimSpace(rest[5:])
	}
	if c.mode == "bv" {
		c.bvOnly = true
	}
	return c, nil
}

func (c *Contract) clause(t string) error {
	m := clauseRe.FindStringSubmatch(t)
	kw, rest := m[1], strings.TrimSpace(m[2])
	cl := &Clause{kind: kw}
	if m := tagRe.FindStringSubmatch(rest); m != nil {
		cl.tags = strings.Fields(m[1])
		rest = m[2]
	}
	cl.text = rest
	switch kw {
	case "fresh":
		for _, n := range strings.Fields(rest) {
			c.fresh[n] = true
		}
		return nil
	case "props":
		c.props = append(c.props, strings.Fields(rest)...)
		return nil
	case "flags":
		for _, f := range strings.Fields(rest) {
			switch f {
			case "top":
				c.top = true
			case "nocall":
				c.noCall = true
			case "trusted":
				c.trusted = true
			case "internal":
				c.internal = true
			case "faults":
				c.faults = true
			case "noreturn":
				c.noreturn = true
			default:
				c.hints[f] = true
			}
		}
		return nil
	case "name":
		l, r, ok := strings.Cut(rest, "=")
		if !ok {
			return fmt.Errorf("name %s", rest)
		}
		e, err := parseExpr(r)
		if err != nil {
			return err
		}
		c.lets = append(c.lets, letDef{strings.TrimSpace(l), e})
		return nil
	case "ghost":
		for _, p := range splitParams(rest) {
			c.ghosts = append(c.ghosts, [2]string{p.name, p.typ})
		}
		return nil
	case "cases":
		e, r, _ := strings.Cut(rest, ":")
		ex, err := parseExpr(e)
		if err != nil {
			return err
		}
		cs := CaseSpec{expr: ex, text: strings.TrimSpace(e)}
		for _, f := range strings.Fields(r) {
			if f == "*" {
				cs.star = true
				continue
			}
			a, b, ok := strings.Cut(f, "..")
			cs.lo, _ = strconv.ParseInt(a, 10, 64)
			cs.hi = cs.lo
			if ok {
				cs.hi, _ = strconv.ParseInt(b, 10, 64)
			}
		}
		c.cases = append(c.cases, cs)
		return nil
	case "modifies":
		for _, p := range strings.Split(rest, ";") {
			e, err := parseExpr(p)
			if err != nil {
				return err
			}
			c.modifies = append(c.modifies, &Clause{kind: kw, tags: cl.tags, expr: e, text: strings.TrimSpace(p)})
		}
		return nil
	}
	if kw == "scope" || kw == "end" { // steps shown between the two serve only there
		c.ensures = append(c.ensures, &Clause{kind: "show", tags: cl.tags, text: kw})
		return nil
	}
	if kw == "show" {
		if h, t, ok := strings.Cut(rest, " from "); ok {
			rest = h
			for _, p := range strings.Split(t, ";") {
				e, err := parseExpr(p)
				if err != nil {
					return err
				}
				cl.from = append(cl.from, e)
			}
		}
	}
	e, err := parseExpr(rest)
	if err != nil {
		return err
	}
	cl.expr = e
	switch kw {
	case "requires":
		c.requires = append(c.requires, cl)
	case "ensures", "show":
		c.ensures = append(c.ensures, cl)
	case "uses":
		c.uses = append(c.uses, cl)
	case "defines":
		c.defines = append(c.defines, cl)
	case "decreases":
		c.decreases = e
	}
	return nil
}

// ---- evaluation

// arrV is a view of an array from an offset: a[k] = arr[off+k]
type arrV struct{ arr, off *Term }

type specCtx struct {
	x   *Exec
	st  *State
	old *State
	env map[string]Val
	pre *State         // state at loop entry (templates)
	pen map[string]Val // hole values at loop entry
}

func (x *Exec) specBool(st, old *State, env map[string]Val, e ast.Expr) *Term {
	v := x.specVal(st, old, env, e)
	t, ok := v.(*Term)
	if !ok || t.sort != SBool {
		panic(fmt.Sprintf("specification is not boolean: %s (%T)", exprStr(e), v))
	}
	return t
}
func (x *Exec) specTerm(st, old *State, env map[string]Val, e ast.Expr) *Term {
	return x.scalar(x.specVal(st, old, env, e))
}
func (x *Exec) specVal(st, old *State, env map[string]Val, e ast.Expr) Val {
	sv := x.noWT
	x.noWT = true
	defer func() { x.noWT = sv }()
	if old == nil {
		old = st
	}
	x.c.known = st
	if x.knownOver != nil {
		x.c.known = x.knownOver
	}
	return (&specCtx{x: x, st: st, old: old, env: env, pre: x.preSt, pen: x.preEnv}).eval(e)
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (s *specCtx) term(e ast.Expr) *Term {
	v := s.eval(e)
	switch v.(type) {
	case *Term, PtrV, FuncV:
		return s.x.scalar(v)
	}
	panic(fmt.Sprintf("specification term expected: %s (%T)", exprStr(e), v))
}
func (s *specCtx) sub(env map[string]Val) *specCtx {
	return &specCtx{s.x, s.st, s.old, env, s.pre, s.pen}
}

func sortByName(n string) *Sort {
	switch n {
	case "int", "":
		return SInt
	case "bool":
		return SBool
	case "mem":
		return SMem
	case "ref":
		return SRef
	case "flt":
		return SFlt
	case "set":
		return SArr(SBool)
	case "bv64":
		return SBV(64)
	}
	if strings.HasPrefix(n, "[]") {
		return SArr(sortByName(n[2:]))
	}
	return SK(n)
}

func (s *specCtx) eval(e ast.Expr) Val {
	x, c := s.x, s.x.c
	switch e := e.(type) {
	case *ast.ParenExpr:
		return s.eval(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(e.Value, 0)
			if !ok {
				panic("literal " + e.Value)
			}
			return c.IB(n)
		case token.STRING:
			u, _ := strconv.Unquote(e.Value)
			return u
		}
	case *ast.Ident:
		switch e.Name {
		case "true":
			return c.True
		case "false":
			return c.False
		case "nil":
			return nil
		case "alloclim":
			x.allocBoundVar()
			return x.allocLim
		}
		if v, ok := s.env[e.Name]; ok {
			return v
		}
		if d := x.pg.specs.defs[e.Name]; d != nil && len(d.params) == 0 {
			return s.eval(d.body)
		}
		if v := x.pg.constant(e.Name); v != nil {
			return x.constOf(v, types.Typ[types.UntypedInt])
		}
		panic(specMissing{e.Name})
	case *ast.SelectorExpr:
		return s.field(s.eval(e.X), e.Sel.Name, e)
	case *ast.StarExpr:
		p := s.eval(e.X).(PtrV)
		return x.load(s.st, p)
	case *ast.IndexExpr:
		return s.index(s.eval(e.X), s.term(e.Index), e)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return c.Not(s.term(e.X))
		case token.SUB:
			return c.Neg(s.term(e.X))
		case token.XOR:
			t := s.term(e.X)
			return c.BV("bvnot", t.sort, t)
		}
	case *ast.BinaryExpr:
		return s.binary(e)
	case *ast.CallExpr:
		return s.callExpr(e)
	}
	panic("specification expression " + exprStr(e))
}

type specMissing struct{ name string }

func (m specMissing) String() string { return "unknown name in specification: " + m.name }

func (s *specCtx) field(v Val, f string, e ast.Expr) Val {
	x := s.x
	switch v := v.(type) {
	case PtrV:
		st, ok := v.typ.Underlying().(*types.Struct)
		if !ok {
			break
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				q := v
				q.path += "." + f
				q.typ = st.Field(i).Type()
				return x.load(s.st, q)
			}
		}
	case StructV:
		u := v.t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f {
				return v.f[i]
			}
		}
	case nil:
	}
	panic(specMissing{exprStr(e)})
}

func (s *specCtx) index(v Val, i *Term, e ast.Expr) Val {
	x := s.x
	switch v := v.(type) {
	case SliceV:
		return x.load(s.st, x.elemPtr(v, i))
	case arrV:
		if v.arr.sort == SMem {
			return x.c.Rd(v.arr, x.c.Add(v.off, i), x.c.One)
		}
		return x.c.Select(v.arr, x.c.Add(v.off, i))
	case *Term:
		return x.c.Select(v, i)
	}
	panic("index of " + exprStr(e))
}

func (s *specCtx) binary(e *ast.BinaryExpr) Val {
	x, c := s.x, s.x.c
	switch e.Op {
	case token.LAND:
		a := s.term(e.X)
		if a == c.False {
			return a
		}
		return c.And(a, s.term(e.Y))
	case token.LOR:
		a := s.term(e.X)
		if a == c.True {
			return a
		}
		return c.Or(a, s.term(e.Y))
	case token.EQL, token.NEQ:
		r := s.equal(s.eval(e.X), s.eval(e.Y))
		if e.Op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	p, q := s.term(e.X), s.term(e.Y)
	if p.sort.Base == "BV" || q.sort.Base == "BV" {
		if p.sort.isInt() {
			p = c.BVC(p.iv, q.sort.W)
		}
		return x.bvop(e.Op, p, q, "u64")
	}
	if p.sort == SFlt {
		return c.App("f"+e.Op.String(), SFlt, p, q)
	}
	switch e.Op {
	case token.ADD:
		return c.Add(p, q)
	case token.SUB:
		return c.Sub(p, q)
	case token.MUL:
		return c.Mul(p, q)
	case token.QUO:
		return c.Div(p, q)
	case token.REM:
		return c.Mod(p, q)
	case token.LSS:
		return c.Lt(p, q)
	case token.LEQ:
		return c.Le(p, q)
	case token.GTR:
		return c.Lt(q, p)
	case token.GEQ:
		return c.Le(q, p)
	}
	panic("operator " + e.Op.String())
}

func (s *specCtx) equal(a, b Val) *Term {
	x, c := s.x, s.x.c
	if a == nil {
		a, b = b, a
	}
	switch v := a.(type) {
	case nil:
		return c.True
	case IfaceV:
		if b == nil {
			return c.Eq(v.tag, c.Zero)
		}
		w := b.(IfaceV)
		return c.And(c.Eq(v.tag, w.tag), c.Eq(v.pay, w.pay))
	case SliceV:
		if b == nil {
			return c.Eq(v.ref, c.Zero)
		}
		w := b.(SliceV)
		return c.And(c.Eq(v.ref, w.ref), c.Eq(v.off, w.off), c.Eq(v.len, w.len))
	case StructV:
		w := b.(StructV)
		r := c.True
		for i := range v.f {
			r = c.And(r, s.equal(v.f[i], w.f[i]))
		}
		return r
	}
	p := x.scalar(a)
	var q *Term
	if b == nil {
		q = c.Zero
	} else {
		q = x.scalar(b)
	}
	if p.sort.Base == "BV" && q.sort.isInt() {
		q = c.BVC(q.iv, p.sort.W)
	}
	if q.sort.Base == "BV" && p.sort.isInt() {
		p = c.BVC(p.iv, q.sort.W)
	}
	return c.Eq(p, q)
}

func (x *Exec) arrOf(st *State, sl SliceV, fld string) arrV {
	key := "[]" + tname(sl.elem)
	if isByte(sl.elem) && !x.bv {
		return arrV{x.c.Select(x.H(st, key, SMem), sl.ref), sl.off}
	}
	for _, l := range x.leaves(sl.elem) {
		if l.suf == fld || l.suf == "."+fld {
			return arrV{x.c.Select(x.H(st, key+l.suf, SArr(l.sort)), sl.ref), sl.off}
		}
	}
	panic("array of " + key + " " + fld)
}

// expandArgs converts values to the terms of formal parameters
func (s *specCtx) actual(v Val, typ string) []*Term {
	x := s.x
	if strings.HasPrefix(typ, "[]") || typ == "bytes" {
		switch v := v.(type) {
		case SliceV:
			a := x.arrOf(s.st, v, "")
			return []*Term{a.arr, a.off}
		case arrV:
			return []*Term{v.arr, v.off}
		case *Term:
			return []*Term{v, x.c.Zero}
		}
		panic(fmt.Sprintf("array argument expected, got %T", v))
	}
	return []*Term{x.scalar(v)}
}

func formal(c *Ctx, p specParam) (Val, []*Term) {
	if strings.HasPrefix(p.typ, "[]") {
		a := c.Var("?"+p.name+"$arr:"+p.typ, sortByName(p.typ))
		o := c.Var("?"+p.name+"$off", SInt)
		return arrV{a, o}, []*Term{a, o}
	}
	if p.typ == "bytes" {
		a := c.Var("?"+p.name+"$mem", SMem)
		o := c.Var("?"+p.name+"$off", SInt)
		return arrV{a, o}, []*Term{a, o}
	}
	t := c.Var("?"+p.name+":"+p.typ, sortByName(p.typ))
	return t, []*Term{t}
}

func (x *Exec) foldDef(st *State, name string) *FoldDef {
	c := x.c
	if d := c.folds[name]; d != nil {
		return d
	}
	f := x.pg.specs.folds[name]
	if f == nil {
		return nil
	}
	d := &FoldDef{name: name, kind: f.kind}
	env := map[string]Val{}
	for _, p := range f.params {
		v, ts := formal(c, p)
		env[p.name] = v
		d.params = append(d.params, ts...)
	}
	d.k = c.Var("?fold$k", SInt)
	env[f.k] = d.k
	sv := c.known
	c.known = nil
	s := &specCtx{x: x, st: newState(x), env: env}
	s.old = s.st
	c.folds[name] = d
	d.step = s.term(f.body)
	c.known = sv
	switch f.kind {
	case "min":
		d.unit = c.IB(kindHi["i64"])
	case "max":
		d.unit = c.IB(kindLo["i64"])
	case "umin":
		d.kind, d.unit = "min", c.IB(kindHi["u64"])
	case "umax":
		d.kind, d.unit = "max", c.Zero
	}
	return d
}

func (s *specCtx) callExpr(e *ast.CallExpr) Val {
	x, c := s.x, s.x.c
	id, ok := e.Fun.(*ast.Ident)
	if !ok {
		panic("specification call " + exprStr(e))
	}
	n := id.Name
	arg := func(i int) ast.Expr { return e.Args[i] }
	switch n {
	case "old":
		o := &specCtx{x, s.old, s.old, s.env, s.pre, s.pen}
		return o.eval(arg(0))
	case "pre": // value at loop entry (bound variables keep their meaning)
		if s.pre == nil {
			panic(specMissing{"pre outside a template"})
		}
		env := cloneEnv(s.env)
		for k, v := range s.pen {
			env[k] = v
		}
		o := &specCtx{x, s.pre, s.old, env, s.pre, s.pen}
		return o.eval(arg(0))
	case "diskcontent":
		return c.App("disk.content", SMem, s.term(arg(0)))
	case "disksize":
		return c.App("disk.size", SK("len"), s.term(arg(0)))
	case "imp":
		a := s.term(arg(0))
		if !a.bound {
			a = c.decide(a)
		}
		if a == c.False {
			return c.True
		}
		return c.Imp(a, s.term(arg(1)))
	case "iff":
		return c.Iff(s.term(arg(0)), s.term(arg(1)))
	case "ite":
		a := s.term(arg(0))
		if !a.bound {
			a = c.decide(a)
		}
		if a == c.True {
			return s.eval(arg(1))
		}
		if a == c.False {
			return s.eval(arg(2))
		}
		p, q := s.eval(arg(1)), s.eval(arg(2))
		if pa, ok := p.(arrV); ok {
			qa := q.(arrV)
			return arrV{c.Ite(a, pa.arr, qa.arr), c.Ite(a, pa.off, qa.off)}
		}
		return c.Ite(a, x.scalar(p), x.scalar(q))
	case "let": // let(name, value, body)
		env := cloneEnv(s.env)
		env[arg(0).(*ast.Ident).Name] = s.eval(arg(1))
		return s.sub(env).eval(arg(2))
	case "forall": // forall(k, lo, hi, body)
		lo, hi := s.term(arg(1)), s.term(arg(2))
		if c.decide(c.Le(hi, lo)) == c.True {
			return c.True
		}
		bv := c.BoundVar(arg(0).(*ast.Ident).Name)
		// canonical bound variable names so that equal formulas are shared
		env := cloneEnv(s.env)
		env[arg(0).(*ast.Ident).Name] = bv
		// the body is simplified knowing that the variable is in range
		kn := c.known
		if kn != nil {
			k2 := kn.clone()
			k2.assume(c.Le(lo, bv))
			k2.assume(c.Lt(bv, hi))
			if k2.dead {
				return c.True
			}
			c.known = k2
		}
		body := s.sub(env).term(arg(3))
		c.known = kn
		cb := c.mk(&Term{op: OVar, sort: SInt, name: fmt.Sprintf("?b%d", depthOf(body)), bound: true})
		body = c.Subst(body, map[*Term]*Term{bv: cb})
		return c.Forall(cb, c.Or(c.Not(c.Le(lo, cb)), c.Not(c.Lt(cb, hi)), body))
	case "forallv": // forallv(v, sort, body): all values of a sort (trigger based)
		bv := c.BoundVar(arg(0).(*ast.Ident).Name)
		env := cloneEnv(s.env)
		env[arg(0).(*ast.Ident).Name] = bv
		body := s.sub(env).term(arg(2))
		cb := c.mk(&Term{op: OVar, sort: SInt, name: fmt.Sprintf("?b%d", depthOf(body)), bound: true})
		body = c.Subst(body, map[*Term]*Term{bv: cb})
		return c.Forall(cb, body)
	case "all": // finite conjunction over constants
		lo, hi := s.term(arg(1)), s.term(arg(2))
		r := c.True
		for i := lo.iv.Int64(); i < hi.iv.Int64(); i++ {
			env := cloneEnv(s.env)
			env[arg(0).(*ast.Ident).Name] = c.I(i)
			r = c.And(r, s.sub(env).term(arg(3)))
		}
		return r
	case "len", "cap":
		switch v := s.eval(arg(0)).(type) {
		case SliceV:
			if n == "len" {
				return v.len
			}
			return v.cap
		case nil:
			return c.Zero
		}
	case "off":
		return s.eval(arg(0)).(SliceV).off
	case "refof":
		switch v := s.eval(arg(0)).(type) {
		case SliceV:
			return v.ref
		default:
			return x.scalar(v)
		}
	case "elems": // elems(s) or elems(s, Field)
		v := s.eval(arg(0))
		if a, ok := v.(arrV); ok {
			return a
		}
		f := ""
		if len(e.Args) > 1 {
			f = arg(1).(*ast.Ident).Name
		}
		return x.arrOf(s.st, v.(SliceV), f)
	case "shift": // shift(a, d): a from index d on
		a := s.arr(arg(0))
		return arrV{a.arr, c.Add(a.off, s.term(arg(1)))}
	case "mem":
		a := s.arr(arg(0))
		return a.arr
	case "rd":
		m := s.eval(arg(0))
		switch v := m.(type) {
		case arrV:
			return c.Rd(v.arr, c.Add(v.off, s.term(arg(1))), s.term(arg(2)))
		case SliceV:
			a := x.arrOf(s.st, v, "")
			return c.Rd(a.arr, c.Add(a.off, s.term(arg(1))), s.term(arg(2)))
		}
		return c.Rd(x.scalar(m), s.term(arg(1)), s.term(arg(2)))
	case "sel":
		return c.Select(s.term(arg(0)), s.term(arg(1)))
	case "min":
		return c.Min(s.term(arg(0)), s.term(arg(1)))
	case "max":
		return c.Max(s.term(arg(0)), s.term(arg(1)))
	case "i2f":
		return c.App("i2f", SFlt, s.term(arg(0)))
	case "fdiv":
		return c.App("f/", SFlt, s.term(arg(0)), s.term(arg(1)))
	case "fzero":
		return x.zeroTerm(SFlt)
	case "content":
		return c.Select(x.H(s.st, "file.content", SMem), s.term(arg(0)))
	case "size":
		return c.Select(x.H(s.st, "file.size", SK("len")), s.term(arg(0)))
	case "pos":
		return c.Select(x.H(s.st, "file.pos", SK("len")), s.term(arg(0)))
	case "synced":
		return c.Eq(c.Select(x.H(s.st, "file.synced", SInt), s.term(arg(0))), c.One)
	case "isopen":
		return c.Eq(c.Select(x.H(s.st, "file.open", SInt), s.term(arg(0))), c.One)
	case "setof": // the set of a bitmap
		return c.Select(x.H(s.st, "bitmap.set", SArr(SBool)), s.term(arg(0)))
	case "in": // in(x, set)
		return c.Select(s.term(arg(1)), s.term(arg(0)))
	case "setmin", "setmax": // smallest and largest element, as the bitmap reports them
		return c.App("bm."+n[3:], SK("u64"), s.term(arg(0)))
	case "chanlen":
		return c.Select(x.H(s.st, "chan.len", SK("len")), s.term(arg(0)))
	case "chancap":
		return c.Select(x.H(s.st, "chan.cap", SK("len")), s.term(arg(0)))
	case "chansum", "chanmin", "chanmax":
		key := "chan." + n[4:] + "." + s.eval(arg(1)).(string)
		return c.Select(x.H(s.st, key, SInt), s.term(arg(0)))
	case "istype": // istype(err, "*col.BlockFullError")
		v := s.eval(arg(0)).(IfaceV)
		t := x.pg.typeByName(s.eval(arg(1)).(string))
		if t == nil {
			panic(specMissing{exprStr(arg(1))})
		}
		return c.Eq(v.tag, c.I(x.typeTag(t)))
	case "payload": // payload(err, "*T"): the value as that pointer type
		v := s.eval(arg(0)).(IfaceV)
		if v.dyn != nil {
			return v.dyn
		}
		t := x.pg.typeByName(s.eval(arg(1)).(string))
		pt := t.Underlying().(*types.Pointer)
		r := v.pay
		if r.sort != SRef && r.op != OInt {
			r = c.App("payref", SRef, v.pay)
		}
		return x.ptrTo(r, pt.Elem())
	case "hits": // trigger helper: mention a term
		s.eval(arg(0))
		return c.True
	case "divf":
		return c.Div(s.term(arg(0)), s.term(arg(1)))
	case "zext64":
		t := s.term(arg(0))
		if t.sort.W == 64 {
			return t
		}
		return c.BV("zext64", SBV(64), t)
	case "trunc8":
		return c.BV("trunc8", SBV(8), s.term(arg(0)))
	case "slt":
		return c.BV("bvslt", SBool, s.bv(arg(0)), s.bv(arg(1)))
	case "ashr":
		t := s.term(arg(0))
		return c.BV("bvashr", t.sort, t, c.BVC(s.term(arg(1)).iv, t.sort.W))
	}
	if strings.HasPrefix(n, "wrap_") {
		return c.Wrap(n[5:], s.term(arg(0)))
	}
	if d := x.pg.specs.defs[n]; d != nil {
		env := map[string]Val{}
		for i, p := range d.params {
			if i >= len(e.Args) {
				panic("arguments of " + n)
			}
			env[p] = s.eval(arg(i))
		}
		return s.sub(env).eval(d.body)
	}
	if d := x.foldDef(s.st, n); d != nil {
		f := x.pg.specs.folds[n]
		var ts []*Term
		for i, p := range f.params {
			ts = append(ts, s.actual(s.eval(arg(i)), p.typ)...)
		}
		return c.Fold(n, ts, s.term(arg(len(f.params))), s.term(arg(len(f.params)+1)))
	}
	if f := x.pg.specs.fns[n]; f != nil {
		var ts []*Term
		for i, p := range f.params {
			ts = append(ts, s.actual(s.eval(arg(i)), p)...)
		}
		x.regAxioms(n)
		return c.App(n, sortByName(f.res), ts...)
	}
	panic(specMissing{n})
}

func (s *specCtx) bv(e ast.Expr) *Term {
	t := s.term(e)
	if t.sort.isInt() {
		return s.x.c.BVC(t.iv, 64)
	}
	return t
}

func (s *specCtx) arr(e ast.Expr) arrV {
	switch v := s.eval(e).(type) {
	case arrV:
		return v
	case SliceV:
		return s.x.arrOf(s.st, v, "")
	case *Term:
		return arrV{v, s.x.c.Zero}
	}
	panic("array expected: " + exprStr(e))
}

// depthOf: nesting depth of quantifiers below
func depthOf(t *Term) int {
	memo := map[*Term]int{}
	var f func(t *Term) int
	f = func(t *Term) int {
		if !t.bound && t.op != OForall {
			return 0
		}
		if d, ok := memo[t]; ok {
			return d
		}
		d := 0
		for _, a := range t.args {
			if k := f(a); k > d {
				d = k
			}
		}
		if t.op == OForall {
			d++
		}
		memo[t] = d
		return d
	}
	return f(t)
}

// regAxioms is called when a spec function is used
func (x *Exec) regAxioms(n string) {}

// installAxioms registers the axioms of the specification with the instantiation engine.
// Every axiom has one trigger: an application of a spec function to distinct variables.
func (x *Exec) installAxioms() {
	for n, f := range x.pg.specs.fns {
		if f.window {
			x.c.windows[n] = true
		}
	}
	for _, a := range x.pg.specs.axioms {
		a := a
		var tags []string
		once, show := false, false
		for _, t := range a.tags {
			if t == "@once" {
				once = true
			} else if t == "@show" {
				show = true
			} else {
				tags = append(tags, t)
			}
		}
		if !tagOK2(tags, x.prop, x.task.con.hints) {
			continue
		}
		call := a.trig[0].(*ast.CallExpr)
		fname := call.Fun.(*ast.Ident).Name
		f := x.pg.specs.fns[fname]
		name := fname
		if f == nil {
			fd := x.pg.specs.folds[fname]
			if fd == nil {
				panic("axiom trigger " + fname)
			}
			f = &FnSpec{}
			for _, p := range fd.params {
				f.params = append(f.params, p.typ)
			}
			f.params = append(f.params, "int", "int")
			name = "fold:" + fname
		}
		x.c.axioms[name] = append(x.c.axioms[name], &axiom{once: once, show: show, memo: map[*Term][]*Term{}, f: func(t *Term) []*Term {
			env := map[string]Val{}
			ts := t.args
			for i, p := range f.params {
				vn := call.Args[i].(*ast.Ident).Name
				if strings.HasPrefix(p, "[]") || p == "bytes" {
					env[vn] = arrV{ts[0], ts[1]}
					ts = ts[2:]
				} else {
					env[vn] = ts[0]
					ts = ts[1:]
				}
			}
			sv := x.c.known
			st := newState(x)
			g := x.specBool(st, nil, env, a.expr)
			x.c.known = sv
			return []*Term{g}
		}})
		x.usedAx[a.name] = a.text
	}
}

var _ = constant.MakeInt64
