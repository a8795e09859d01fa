package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc dump|run|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		pg, err := loadProg("/repo", "")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, k := range sortedKeys(pg.insts) {
			for _, fn := range pg.insts[k] {
				if len(os.Args) > 2 && strings.Contains(k, os.Args[2]) {
					fn.WriteTo(os.Stdout)
				} else if len(os.Args) == 2 {
					fmt.Println(k, len(fn.Blocks))
				}
			}
		}
		var _ *ssa.Function
	case "run":
		fs := flag.NewFlagSet("run", flag.ExitOnError)
		dir := fs.String("repo", "/repo", "")
		specs := fs.String("specs", "/verif/specs", "")
		only := fs.String("only", "", "")
		lim := fs.Duration("limit", 120*time.Second, "")
		workers := fs.Int("j", 8, "")
		fs.Parse(os.Args[2:])
		if f := os.Getenv("GOVC_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		pg, err := loadProg(*dir, *specs)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, prop := range fs.Args() {
			r := &Run{pg: pg, prop: prop, workers: *workers, perTask: *lim, only: *only, progress: true}
			r.run()
			n, bad := 0, 0
			for _, res := range append(r.results, r.failedInternal...) {
				for _, o := range res.obls {
					n++
					if o.Verdict != Proved {
						bad++
						fmt.Printf("OPEN %s | %s | %s | %s | %s %s\n", o.Task, o.Kind, o.Name, o.Pos, o.Verdict, o.Solver)
						if os.Getenv("GOVC_GOAL") != "" {
							fmt.Printf("     goal %s\n     path %v\n", o.Goal, o.Path)
						}
					}
				}
			}
			fmt.Printf("%s: %d obligations, %d open, dropped %v, missing %v, %.1fs, solver %v\n", prop, n, bad, sortedKeys(r.dropped), r.missing, r.wall.Seconds(), bySolver)
		}
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	}
}
