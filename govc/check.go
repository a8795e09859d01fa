package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// The check of one property: the deductive proof decides; the harness turns a failed obligation into a concrete
// failing input on the real code, and cross-checks the trusted contracts (bounded, never counted as proved).

type harnessResult struct {
	ran    bool
	failed bool
	what   string
	replay string
	cases  int
	nontr  int
	sample []string
	err    string
}

type harness struct {
	root, repo, dir string
	bin, vibecol    string
	race            bool
	noCodec         bool
}

func mustReplace(src, sig, ins string) (string, error) {
	i := strings.Index(src, sig)
	if i < 0 {
		return "", fmt.Errorf("signature %q not found in package os", sig)
	}
	return src[:i+len(sig)] + "\n" + ins + "\n" + src[i+len(sig):], nil
}

func goEnv(name string) string {
	out, _ := exec.Command("go", "env", name).Output()
	return strings.TrimSpace(string(out))
}

// build compiles the harness with /repo's current sources; package os gets a hook on file operations.
func (h *harness) build(prop string) error {
	goroot := goEnv("GOROOT")
	rd := func(f string) string {
		b, err := os.ReadFile(filepath.Join(goroot, "src/os", f))
		if err != nil {
			return ""
		}
		return string(b)
	}
	hk := func(op, args, ret string) string {
		return "\tif h := VerifHook; h != nil {\n\t\tif n, err, ok := h(\"" + op + "\", f, " + args + "); ok {\n\t\t\t_ = n\n\t\t\treturn " + ret + "\n\t\t}\n\t}"
	}
	file, posix := rd("file.go"), rd("file_posix.go")
	var err error
	for _, s := range [][3]string{
		{"func (f *File) Write(b []byte) (n int, err error) {", hk("write", "b, 0, 0", "int(n), err"), "f"},
		{"func (f *File) WriteAt(b []byte, off int64) (n int, err error) {", hk("writeat", "b, off, 0", "int(n), err"), "f"},
		{"func (f *File) Seek(offset int64, whence int) (ret int64, err error) {", hk("seek", "nil, offset, whence", "n, err"), "f"},
		{"func (f *File) Close() error {", hk("close", "nil, 0, 0", "err"), "p"},
		{"func (f *File) Truncate(size int64) error {", hk("truncate", "nil, size, 0", "err"), "p"},
		{"func (f *File) Sync() error {", hk("sync", "nil, 0, 0", "err"), "p"},
	} {
		if s[2] == "f" {
			file, err = mustReplace(file, s[0], s[1])
		} else {
			posix, err = mustReplace(posix, s[0], s[1])
		}
		if err != nil {
			return err
		}
	}
	w := func(n, s string) string {
		p := filepath.Join(h.dir, n)
		os.WriteFile(p, []byte(s), 0o644)
		return p
	}
	rep := map[string]string{}
	rep[filepath.Join(goroot, "src/os/file.go")] = w("os_file.go", file)
	rep[filepath.Join(goroot, "src/os/file_posix.go")] = w("os_file_posix.go", posix)
	rep[filepath.Join(goroot, "src/os/verif_hook.go")] = w("os_verif_hook.go", "package os\n\n// VerifHook sees operations on files before they are made (build overlay of the verification harness).\nvar VerifHook func(op string, f *File, b []byte, off int64, whence int) (n int64, err error, handled bool)\n")
	fs, _ := filepath.Glob(filepath.Join(h.root, "harness/*.go"))
	build := func(codec bool) error {
		r := map[string]string{}
		for k, v := range rep {
			r[k] = v
		}
		for _, f := range fs {
			switch filepath.Base(f) {
			case "col_export.go":
				if codec {
					r[filepath.Join(h.repo, "pkg/col/zz_verif_export.go")] = f
				}
			case "codec_on.go":
				if codec {
					r[filepath.Join(h.repo, "verifharness/codec_on.go")] = f
				}
			default:
				r[filepath.Join(h.repo, "verifharness", filepath.Base(f))] = f
			}
		}
		b, _ := json.Marshal(map[string]any{"Replace": r})
		ov := w("overlay.json", string(b))
		args := []string{"build", "-overlay", ov, "-o", filepath.Join(h.dir, "harness")}
		if h.race {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, "./verifharness")...)
		cmd.Dir = h.repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
		if h.race {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		}
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("go build of the harness: %v\n%s", err, out)
		}
		return nil
	}
	err = build(prop == "C10")
	if err != nil && prop == "C10" {
		h.noCodec = true
		err = build(false)
	}
	if err != nil {
		return err
	}
	h.bin = filepath.Join(h.dir, "harness")
	if prop == "C16" {
		h.vibecol = filepath.Join(h.dir, "vibecol")
		cmd := exec.Command("go", "build", "-o", h.vibecol, "./cmd/vibecol")
		cmd.Dir = h.repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("go build ./cmd/vibecol: %v\n%s", err, out)
		}
	}
	return nil
}

var scratchN int64

func (h *harness) run(prop string, seed int64, from, n int, seconds float64, replayFile string) (r harnessResult) {
	k := atomic.AddInt64(&scratchN, 1)
	base := h.dir
	if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
		if d, err := os.MkdirTemp("/dev/shm", "vh"); err == nil {
			base = d
			defer os.RemoveAll(d)
		}
	}
	scratch := filepath.Join(base, fmt.Sprintf("s%d", k))
	os.MkdirAll(scratch, 0o755)
	rp := filepath.Join(scratch, "replay.json")
	stp := filepath.Join(scratch, "stats.json")
	args := []string{"-prop", prop, "-seed", fmt.Sprint(seed), "-seconds", fmt.Sprint(seconds), "-scratch", scratch, "-replay", rp, "-stats", stp, "-from", fmt.Sprint(from)}
	if n > 0 {
		args = append(args, "-n", fmt.Sprint(n))
	}
	if h.vibecol != "" {
		args = append(args, "-vibecol", h.vibecol)
	}
	cmd := exec.Command(h.bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	r.ran = true
	if err != nil {
		if b, e := os.ReadFile(rp); e == nil {
			var m struct {
				What string `json:"what_failed"`
			}
			json.Unmarshal(b, &m)
			r.failed, r.what = true, m.What
			os.WriteFile(replayFile, b, 0o644)
			r.replay = replayFile
			return
		}
		r.err = fmt.Sprintf("%v: %s", err, tailStr(out.String(), 2000))
		return
	}
	var st struct {
		Cases, Nontrivial int
		Samples           []string
	}
	b, _ := os.ReadFile(stp)
	json.Unmarshal(b, &st)
	r.cases, r.nontr, r.sample = st.Cases, st.Nontrivial, st.Samples
	return
}

// runMany runs n processes with different seeds; the first failure wins.
func (h *harness) runMany(prop string, seed int64, n int, seconds float64, rp string) (hr harnessResult) {
	rs := make([]harnessResult, n)
	var ww sync.WaitGroup
	for k := range rs {
		ww.Add(1)
		go func() {
			defer ww.Done()
			rs[k] = h.run(prop, seed+int64(k)*1000, 0, 0, seconds, fmt.Sprintf("%s.%d", rp, k))
		}()
	}
	ww.Wait()
	hr.ran = true
	for k, x := range rs {
		hr.cases += x.cases
		hr.nontr += x.nontr
		if hr.sample == nil {
			hr.sample = x.sample
		}
		if hr.err == "" {
			hr.err = x.err
		}
		p := fmt.Sprintf("%s.%d", rp, k)
		if x.failed && !hr.failed {
			hr.failed, hr.what, hr.replay = true, x.what, rp
			os.Rename(p, rp)
		}
		os.Remove(p)
	}
	return
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type finding struct{ prop, match, desc string }

func loadFindings(path string) (fs []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(C\d\d) match="([^"]+)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			fs = append(fs, finding{m[1], m[2], m[3]})
		}
	}
	return
}

func checkMain(args []string) int {
	t0 := time.Now()
	fset := flag.NewFlagSet("check", flag.ExitOnError)
	root := fset.String("root", "/verif", "")
	repo := fset.String("repo", "/repo", "")
	tier := fset.String("tier", os.Getenv("VERIF_TIER"), "")
	hs := fset.Float64("harness-seconds", 0, "")
	replayCase := fset.String("replay", "", "re-run the case of a replay file")
	noHarness := fset.Bool("no-harness", false, "")
	noProof := fset.Bool("no-proof", false, "")
	fset.Parse(args)
	if fset.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: govc check [flags] PROPERTY")
		return 2
	}
	prop := fset.Arg(0)
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	thorough := *tier == "thorough"
	ev := filepath.Join(*root, "evidence")
	os.MkdirAll(ev, 0o755)
	rp := filepath.Join(ev, prop+".replay.json")
	os.Remove(rp)
	op := filepath.Join(ev, prop+".obligations.txt")
	os.Remove(op)
	dir, err := os.MkdirTemp("", "vcheck-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	h := &harness{root: *root, repo: *repo, dir: dir, race: prop == "C04"}

	if *replayCase != "" {
		b, err := os.ReadFile(*replayCase)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var m struct {
			Seed int64
			Case int
		}
		json.Unmarshal(b, &m)
		if err := h.build(prop); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r := h.run(prop, m.Seed, m.Case, 1, 600, rp)
		if r.failed {
			fmt.Println("replayed:", r.what)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
			return 1
		}
		fmt.Println("the case passes", r.err)
		return 0
	}

	// the harness runs beside the proof
	var hr harnessResult
	var wg sync.WaitGroup
	buildErr := error(nil)
	secs := 20.0
	if thorough {
		secs = 240
	}
	if *hs > 0 {
		secs = *hs
	}
	if !*noHarness {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if buildErr = h.build(prop); buildErr == nil {
				hr = h.runMany(prop, seed, 3, secs, rp)
				if hr.failed {
					// the violation is certain; give the proof a little longer to name the obligation
					stopAt.Store(time.Now().Add(60 * time.Second).UnixNano())
				}
			}
		}()
	}
	r := &Run{prop: prop, workers: 8, perTask: 400 * time.Second, deadline: time.Now().Add(640 * time.Second)}
	if !*noProof {
		pg, err := loadProg(*repo, filepath.Join(*root, "specs"))
		if err != nil {
			wg.Wait()
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r.pg = pg
		r.run()
	}
	wg.Wait()
	if buildErr != nil {
		fmt.Fprintln(os.Stderr, buildErr)
		return 2
	}
	if hr.err != "" {
		fmt.Fprintln(os.Stderr, "harness:", hr.err)
		return 2
	}
	obls, open, kinds := 0, []*Obl{}, map[string]int{}
	fns := map[string]bool{}
	trusted := map[string]bool{}
	var fnList []string
	for _, res := range r.results {
		if len(res.obls) > 0 {
			fns[res.task.con.id()] = true
		}
		for a := range res.assumed {
			trusted[a] = true
		}
		for a := range res.axioms {
			trusted["axiom "+a] = true
		}
		for _, o := range res.obls {
			obls++
			kinds[o.Kind]++
			if o.Verdict != Proved {
				open = append(open, o)
			}
		}
	}
	fnList = sortedKeys(fns)
	var inner []*Obl // of internal contracts that failed; their callers were then checked against the body
	for _, res := range r.failedInternal {
		for _, o := range res.obls {
			if o.Verdict != Proved {
				inner = append(inner, o)
			}
		}
	}
	proofBad := ""
	if !*noProof {
		switch {
		case obls == 0:
			proofBad = "no obligation was generated"
		case len(r.missing) > 0:
			proofBad = "functions under contract are gone or changed their signature: " + strings.Join(r.missing, ", ")
		case len(open) > 0:
			proofBad = fmt.Sprintf("%d of %d obligations are not discharged", len(open), obls)
		}
	}
	if proofBad != "" && !hr.failed && !*noHarness {
		// look harder for a concrete failing input
		extra := 60.0
		if thorough {
			extra = 300
		}
		if left := 800 - time.Since(t0).Seconds(); extra > left {
			extra = left
		}
		if extra > 5 {
			x := h.runMany(prop, seed*100+1, 6, extra, rp)
			x.cases += hr.cases
			x.nontr += hr.nontr
			hr = x
		}
	}
	// report
	fnd := loadFindings(filepath.Join(*root, "known_findings.txt"))
	known := func(s string) *finding {
		for i := range fnd {
			if fnd[i].prop == prop && strings.Contains(s, fnd[i].match) {
				return &fnd[i]
			}
		}
		return nil
	}
	violations := 0
	var lines []string
	var oblText strings.Builder
	if proofBad != "" {
		unknownOpen := len(r.missing) > 0 || obls == 0
		fmt.Fprintf(&oblText, "property %s: %s\n", prop, proofBad)
		for _, m := range r.missing {
			fmt.Fprintf(&oblText, "missing: %s\n", m)
		}
		for _, o := range inner {
			fmt.Fprintf(&oblText, "FAILED obligation of an internal contract: %s | %s | %s | %s\n  verdict %s (%s)\n  goal %s\n  path %v\n", o.Task, o.Kind, o.Name, o.Pos, o.Verdict, o.Solver, tailStr(o.Goal, 1500), o.Path)
		}
		for _, o := range open {
			fmt.Fprintf(&oblText, "FAILED obligation: %s | %s | %s | %s\n  verdict %s (%s)\n  goal %s\n  path %v\n  counterexample %v\n", o.Task, o.Kind, o.Name, o.Pos, o.Verdict, o.Solver, tailStr(o.Goal, 1500), o.Path, o.Model)
			if f := known(o.Task + " " + o.Name); f != nil {
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, f.desc))
			} else {
				unknownOpen = true
			}
		}
		os.WriteFile(op, []byte(oblText.String()), 0o644)
		if unknownOpen && !hr.failed {
			violations++
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", prop, op))
		}
	}
	if hr.failed {
		if f := known(hr.what); f != nil {
			lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, f.desc))
		} else {
			violations++
			if proofBad != "" {
				// the replay names the failed obligations as well
				var m map[string]any
				b, _ := os.ReadFile(rp)
				json.Unmarshal(b, &m)
				if m != nil {
					m["failed_obligations"] = strings.Split(tailStr(oblText.String(), 20000), "\n")
					b, _ = json.MarshalIndent(m, "", " ")
					os.WriteFile(rp, b, 0o644)
				}
			}
			lines = append(lines, "what failed: "+hr.what, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp))
		}
	}
	level := "proof"
	tb := append([]string{"govc (this verifier: Go SSA to SMT), golang.org/x/tools/go/ssa, the Go compiler", "z3 / cvc5"}, sortedKeys(trusted)...)
	cov := map[string]any{
		"obligations": obls, "discharged": obls - len(open), "checker_cmd": fmt.Sprintf("/verif/check %s %s", prop, *tier),
		"trusted_base": tb, "functions_under_contract": fnList, "obligations_by_kind": kinds, "discharged_by_backend": bySolver,
		"solver_calls": atomic.LoadInt64(&solverCalls), "solver_time_s": float64(atomic.LoadInt64(&solverTime)) / 1e9,
		"bounded_replay_harness": map[string]any{"note": "bounded; never counted as proved", "cases": hr.cases, "nontrivial": hr.nontr, "codec_functions_exported": !h.noCodec && prop == "C10"},
		"open":                   proofBad, "dropped_internal_contracts": sortedKeys(r.dropped),
	}
	if len(hr.sample) > 0 {
		s := hr.sample[0]
		if len(s) > 600 {
			s = s[:600]
		}
		cov["bounded_replay_sample"] = s
	}
	evd := map[string]any{"property": prop, "tier": *tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": assumptionsOf(prop), "wall_s": time.Since(t0).Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(evd, "", " ")
	os.WriteFile(filepath.Join(ev, prop+".json"), append(b, '\n'), 0o644)
	for _, l := range lines {
		fmt.Println(l)
	}
	if proofBad != "" {
		for i, o := range append(inner, open...) {
			if i == 5 {
				fmt.Printf("  ... and %d more\n", len(inner)+len(open)-i)
				break
			}
			fmt.Printf("  open: %s | %s | %s | %s\n", o.Task, o.Kind, tailStr(o.Name, 200), o.Pos)
		}
	}
	fmt.Printf("%s %s: %d obligations, %d discharged, %d functions under contract; bounded cross-check %d cases; %.1fs\n", prop, *tier, obls, obls-len(open), len(fnList), hr.cases, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func assumptionsOf(prop string) []string {
	a := []string{
		"machine integers are exact: 64-bit wrap-around is modelled; lengths of slices and files are below 2^62",
		"memory safety of the Go runtime; no unsafe code in the repository",
	}
	m := map[string][]string{
		"C13": {"os.Open, (*os.File).Stat and (*os.File).ReadAt behave as documented: ReadAt returns n bytes of the file and an error unless n is the length asked for; it may fail at any time", "the file is not changed by others while it is being opened", "fmt.Errorf returns a non-nil error"},
		"C11": {"(*os.File).ReadAt behaves as documented and may fail at any time; os.Open and Stat as for C13", "encoding/binary.Uvarint returns at most the number of bytes it is given", "sync.WaitGroup and channels behave as documented; a goroutine is checked to write only memory of its own and its channel, so running it at its go statement loses no behaviour", "stack depth is not modelled (the only recursion has a proved depth of one)", "file size below 2^47; the bound is per allocation: 64 times the file size plus 64 KiB"},
		"C12": {"(*os.File).ReadAt behaves as documented and may fail at any time", "encoding/binary.Uvarint is a function of the bytes it is given, returns at most their number and at most 10 used bytes", "the file is not changed by others while the reader is open", "encodings above 7 in a damaged header are read as plain 8-byte columns"},
		"C02": {"reading back happens from a well-formed file (contract RWF): what the writer contracts prove block by block; the composition of writer and reader contracts is checked by the bounded harness", "reads of existing bytes of an open file succeed", "sums are modulo 2^64; blocks have at most 2^28 rows; time.Now is arbitrary"},
		"C03": {"the file is well formed and its index holds true id ranges and statistics (contracts RWF, SWF); C02 proves the writer's statistics", "sroar.Bitmap is a set of uint64: Contains, Minimum and Maximum behave as documented (Minimum and Maximum of an empty set are unconstrained)", "reads of existing bytes of an open file succeed"},
		"C08": {"os.File Write, Seek and Sync and binary.Write behave as documented and do not fail (failures: C15)", "at most 2^27 rows per call and 2^31 blocks per file", "the writer was made by NewWriter with one of the eight encodings (writer invariant WI); rows are offered to one writer by one goroutine", "errors made outside the repository do not have the type *BlockFullError"},
		"C09": {"os.File Write, Seek and Sync and binary.Write behave as documented and do not fail (failures: C15)", "at most 2^27 rows per block and 2^31 blocks per file; the writer satisfies its invariant WI", "sroar ToBuffer returns some bytes; what they decode to is C06", "time.Now is arbitrary"},
		"C10": {"bit-vector queries cover all 2^64 values; delta coding is proved over mathematical integers with explicit wrapping"},
	}
	a = append(a, m[prop]...)
	sort.Strings(a)
	return a
}
