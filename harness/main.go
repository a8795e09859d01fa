// Command verifharness is compiled into /repo's module through a build overlay.  It runs the real code against an
// independent oracle and looks for a concrete input, history or fault that breaks a given property.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

type failure struct{ msg string }

// Ctx is one case.
type Ctx struct {
	rng        *rand.Rand
	dir        string
	idx        int
	log        []string
	nontrivial bool
	nfile      int
}

func (c *Ctx) fail(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }
func (c *Ctx) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	if len(c.log) < 400 {
		c.log = append(c.log, s)
	}
}
func (c *Ctx) file() string {
	c.nfile++
	return filepath.Join(c.dir, fmt.Sprintf("f%d.col", c.nfile))
}
func (c *Ctx) intn(n int) int       { return c.rng.Intn(n) }
func (c *Ctx) chance(p float64) bool { return c.rng.Float64() < p }

type replay struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"`
	What     string   `json:"what_failed"`
	Seed     int64    `json:"seed"`
	Case     int      `json:"case"`
	History  []string `json:"history"`
	Rerun    string   `json:"rerun"`
}

var (
	fProp     = flag.String("prop", "", "property")
	fSeed     = flag.Int64("seed", 1, "seed")
	fFrom     = flag.Int("from", 0, "first case")
	fN        = flag.Int("n", 1<<30, "number of cases")
	fSeconds  = flag.Float64("seconds", 20, "time budget")
	fScratch  = flag.String("scratch", "", "scratch directory")
	fReplay   = flag.String("replay", "", "replay file to write")
	fStats    = flag.String("stats", "", "statistics file to write")
	fChild    = flag.Bool("child", false, "internal")
	fVibecol  = flag.String("vibecol", "", "vibecol binary for C16")
	fVerbose  = flag.Bool("v", false, "print case histories")
	curCase   atomic.Int64
	caseStart atomic.Int64
)

var props = map[string]func(*Ctx){}

func caseSeed(seed int64, i int) int64 { return seed*1000003 + int64(i)*7919 + 12345 }

func writeReplay(r replay) {
	r.Rerun = fmt.Sprintf("harness -prop %s -seed %d -from %d -n 1 (see /verif/check --replay)", r.Property, r.Seed, r.Case)
	b, _ := json.MarshalIndent(r, "", " ")
	if *fReplay != "" {
		os.WriteFile(*fReplay, append(b, '\n'), 0o644)
	}
	fmt.Printf("FAIL %s case %d: %s\n", r.Property, r.Case, r.What)
}

func runCase(fn func(*Ctx), i int) (c *Ctx, f *failure) {
	dir := filepath.Join(*fScratch, "case")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	c = &Ctx{rng: rand.New(rand.NewSource(caseSeed(*fSeed, i))), dir: dir, idx: i}
	defer func() {
		if e := recover(); e != nil {
			if ff, ok := e.(failure); ok {
				f = &ff
				return
			}
			f = &failure{fmt.Sprintf("panic: %v\n%s", e, trimStack(string(debug.Stack())))}
		}
	}()
	resetHook()
	fn(c)
	return c, nil
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

const hangLimit = 90 * time.Second

func child(fn func(*Ctx)) {
	prog, err := os.Create(filepath.Join(*fScratch, "progress"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	go func() {
		for {
			time.Sleep(time.Second)
			s := caseStart.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > hangLimit {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "case did not finish within %v\n%s\n", hangLimit, buf[:n])
				os.Exit(4)
			}
		}
	}()
	start := time.Now()
	cases, nontriv := 0, 0
	var sample []string
	for i := *fFrom; i < *fFrom+*fN; i++ {
		if time.Since(start).Seconds() > *fSeconds && i > *fFrom {
			break
		}
		prog.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		caseStart.Store(time.Now().UnixNano())
		c, f := runCase(fn, i)
		caseStart.Store(0)
		if *fVerbose {
			fmt.Println(strings.Join(c.log, "\n"))
		}
		if f != nil {
			writeReplay(replay{Property: *fProp, Kind: "failing case on the real code", What: f.msg, Seed: *fSeed, Case: i, History: c.log})
			os.RemoveAll(filepath.Join(*fScratch, "case"))
			os.Exit(1)
		}
		cases++
		if c.nontrivial {
			nontriv++
			if len(sample) < 3 {
				sample = append(sample, strings.Join(c.log, "; "))
			}
		}
	}
	os.RemoveAll(filepath.Join(*fScratch, "case"))
	b, _ := json.Marshal(map[string]any{"cases": cases, "nontrivial": nontriv, "samples": sample})
	if *fStats != "" {
		os.WriteFile(*fStats, b, 0o644)
	}
	fmt.Printf("OK %s\n", b)
}

func main() {
	flag.Parse()
	fn := props[*fProp]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(9)
	}
	if *fChild {
		child(fn)
		return
	}
	own := false
	if *fScratch == "" {
		d, err := os.MkdirTemp("", "vh")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(9)
		}
		*fScratch = d
		own = true
	}
	args := append([]string{"-child", "-scratch", *fScratch}, os.Args[1:]...)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stdout = os.Stdout
	var eb tail
	cmd.Stderr = &eb
	err := cmd.Run()
	code := 0
	if err != nil {
		code = cmd.ProcessState.ExitCode()
		if code != 1 && code != 9 {
			pb, _ := os.ReadFile(filepath.Join(*fScratch, "progress"))
			n := 0
			fmt.Sscanf(string(pb), "%d", &n)
			writeReplay(replay{Property: *fProp, Kind: "the process running the real code died", What: fmt.Sprintf("exit status %d", code), Seed: *fSeed, Case: n, History: strings.Split(eb.String(), "\n")})
			code = 1
		} else {
			os.Stderr.WriteString(eb.String())
		}
	}
	if own {
		os.RemoveAll(*fScratch)
	}
	os.Exit(code)
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 20000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }
