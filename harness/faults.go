package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	"vibe-lsm/pkg/col"
)

func init() { props["C15"] = c15 }

var errInjected = errors.New("injected fault")

type ioState struct {
	active  bool
	inHook  bool
	n       int // operations seen
	failAt  int // first operation to fail (-1: none)
	failLen int // number of operations to fail from there
	part    int // for writes: how many bytes are accepted before failing (-1: random-ish: half)
	kinds   map[string]bool
	fired   int // faults injected since last cleared
	trace   []string
	dirty   map[string]bool // file has writes not yet synced
	closed  map[string]bool
}

var io_ ioState

func resetHook() {
	io_ = ioState{failAt: -1, dirty: map[string]bool{}, closed: map[string]bool{}}
}

// hook sees every Write/WriteAt/Seek/Sync/Close/Truncate of the process (see os overlay).
func hook(op string, f *os.File, b []byte, off int64, whence int) (n int64, err error, handled bool) {
	s := &io_
	if !s.active {
		if op == "sync" {
			return 0, nil, true // scratch files need not reach the disk
		}
		return 0, nil, false
	}
	if s.inHook || filepath.Ext(f.Name()) != ".col" {
		return 0, nil, false
	}
	k := s.n
	s.n++
	fail := s.failAt >= 0 && k >= s.failAt && k < s.failAt+s.failLen && (s.kinds == nil || s.kinds[op])
	if len(s.trace) < 2000 {
		m := ""
		if fail {
			m = " FAILS"
		}
		s.trace = append(s.trace, fmt.Sprintf("%d:%s(%d)%s", k, op, len(b), m))
	}
	switch op {
	case "write", "writeat":
		s.dirty[f.Name()] = true
		if fail {
			s.fired++
			p := s.part
			if p < 0 {
				p = len(b) / 2
			}
			if p >= len(b) {
				p = len(b) - 1
			}
			if p > 0 && op == "write" {
				m, _ := syscall.Write(int(f.Fd()), b[:p])
				return int64(m), &os.PathError{Op: "write", Path: f.Name(), Err: errInjected}, true
			}
			return 0, &os.PathError{Op: "write", Path: f.Name(), Err: errInjected}, true
		}
	case "seek":
		if fail {
			s.fired++
			return 0, &os.PathError{Op: "seek", Path: f.Name(), Err: errInjected}, true
		}
	case "sync":
		if fail {
			s.fired++
			return 0, &os.PathError{Op: "sync", Path: f.Name(), Err: errInjected}, true
		}
		s.dirty[f.Name()] = false
		return 0, nil, true
	case "close":
		if fail {
			s.fired++
			s.inHook = true
			f.Close()
			s.inHook = false
			return 0, &os.PathError{Op: "close", Path: f.Name(), Err: errInjected}, true
		}
		s.closed[f.Name()] = true
	case "truncate":
		if fail {
			s.fired++
			return 0, &os.PathError{Op: "truncate", Path: f.Name(), Err: errInjected}, true
		}
	}
	return 0, nil, false
}

func init() { os.VerifHook = hook }

type step struct {
	kind string // block, finalize, close, fclose, swrite, sclose
	rows []row
}

func c15(c *Ctx) {
	simple := c.chance(0.4)
	e := uint32(c.intn(8))
	t := genTarget(c)
	if c.chance(0.5) {
		t = uint32(4096 * (1 + c.intn(3)))
	}
	var steps []step
	nb := 1 + c.intn(4)
	for i := 0; i < nb; i++ {
		n := 1 + c.intn(8)
		if simple {
			n = []int{1 + c.intn(10), 400, 1000, 1100}[c.intn(4)]
		} else if c.chance(0.2) {
			n = 240 + c.intn(300)
		}
		k := "block"
		if simple {
			k = "swrite"
		}
		rows := genRows(c, n)
		steps = append(steps, step{k, rows})
	}
	if simple {
		steps = append(steps, step{kind: "sclose"}, step{kind: "sclose"})
	} else if c.chance(0.5) {
		steps = append(steps, step{kind: "fclose"}, step{kind: "fclose"})
	} else {
		steps = append(steps, step{kind: "finalize"}, step{kind: "finalize"}, step{kind: "close"})
	}
	// count the operations, then fail some of them
	total := c.runFaults(simple, e, t, steps, -1, 0, 0, nil)
	if total == 0 {
		c.fail("harness error: no file operation was seen")
	}
	runs := 6
	kindSets := []map[string]bool{nil, nil, {"sync": true}, {"write": true}, {"seek": true}, {"close": true}}
	for k := 0; k < runs; k++ {
		at := c.intn(total)
		ln := 1
		ks := kindSets[c.intn(len(kindSets))]
		if c.chance(0.3) {
			ln = 1 + c.intn(30)
		}
		if ks != nil {
			ln = 1 << 30 // the first of that kind from there on, and all later ones of the same call
		}
		if c.chance(0.1) {
			at = total - 1 - c.intn(min(total, 40))
		}
		c.runFaults(simple, e, t, steps, at, ln, []int{0, -1, 1, 3, 1 << 20}[c.intn(5)], ks)
	}
}

func (c *Ctx) runFaults(simple bool, e, t uint32, steps []step, at, ln, part int, kinds map[string]bool) int {
	path := c.file()
	c.log = nil
	c.note("encoding %d target %d; fault at operation %d (for %d operations, kinds %v, partial write %d)", e, t, at, ln, kinds, part)
	resetHook()
	io_.active = true
	io_.failAt, io_.failLen, io_.part, io_.kinds = at, ln, part, kinds
	defer func() { io_.active = false; c.log = append(c.log, fmt.Sprint("operations: ", io_.trace)) }()
	call := func(name string, f func() error) error {
		io_.fired = 0
		io_.trace = append(io_.trace, "<"+name)
		err := f()
		io_.trace = append(io_.trace, ">")
		_, full := err.(*col.BlockFullError)
		c.note("%s -> %v (%d faults injected)", name, err, io_.fired)
		if io_.fired > 0 {
			// the fault is over once a call has met it
			io_.failAt = -1
			c.nontrivial = true
		}
		if err == nil || full {
			if io_.fired > 0 {
				c.fail("%s reported success (%v) although a file operation failed during the call", name, err)
			}
			if io_.dirty[path] && name != "NewWriter" && name != "NewSimpleWriter" && name != "SimpleWriter.Write" {
				c.fail("%s reported success with bytes written after the last sync", name)
			}
		}
		return err
	}
	var blocks [][]row
	verify := func(what string) {
		io_.active = false
		r, err := col.NewReader(path)
		if err != nil {
			c.fail("%s reported success, but the file cannot be opened: %v", what, err)
		}
		defer r.Close()
		c.checkRows(r, blocks)
		bm, err := r.GetGlobalIDBitmap()
		if err != nil {
			c.fail("GetGlobalIDBitmap: %v", err)
		}
		if !eqU(bm.ToArray(), idSet(blocks)) {
			c.fail("id set of the file %v, ids of the successfully written blocks %v", head(bm.ToArray()), head(idSet(blocks)))
		}
		c.checkAgg("aggregate from stored statistics", r.Aggregate(), statsOf(flat(blocks)), false)
	}
	if simple {
		var w *col.SimpleWriter
		if err := call("NewSimpleWriter", func() (err error) {
			w, err = col.NewSimpleWriter(path, col.WithEncoding(e), col.WithBlockSize(t))
			return
		}); err != nil {
			return io_.n
		}
		rows := 0
		for _, s := range steps {
			switch s.kind {
			case "swrite":
				before := w.TotalItems()
				pend := rows - int(before)
				err := call("SimpleWriter.Write", func() error { return w.Write(idsOf(s.rows), valsOf(s.rows)) })
				rows += len(s.rows)
				if err == nil && w.TotalItems() != before && io_.dirty[path] {
					c.fail("SimpleWriter.Write reported rows as written with bytes written after the last sync")
				}
				if int(w.TotalItems()) > rows {
					c.fail("TotalItems() = %d, only %d rows were submitted", w.TotalItems(), rows)
				}
				_ = pend
			case "sclose":
				wasClosed := w.IsClosed()
				if err := call("SimpleWriter.Close", w.Close); err == nil && !wasClosed {
					if !io_.closed[path] {
						c.fail("SimpleWriter.Close reported success without closing the file")
					}
					io_.active = false
					r, err := col.NewReader(path)
					if err != nil {
						c.fail("SimpleWriter.Close reported success, but the file cannot be opened: %v", err)
					}
					n := 0
					for i := uint64(0); i < r.BlockCount(); i++ {
						ids, vals, err := r.GetPairs(i)
						if err != nil {
							c.fail("SimpleWriter.Close reported success, but GetPairs(%d): %v", i, err)
						}
						var b []row
						for j := range ids {
							b = append(b, row{ids[j], vals[j]})
						}
						blocks = append(blocks, b)
						n += len(ids)
					}
					r.Close()
					if uint64(n) != w.TotalItems() {
						c.fail("TotalItems() = %d, the blocks of the file hold %d rows", w.TotalItems(), n)
					}
					verify("SimpleWriter.Close")
					io_.active = true
				}
			}
		}
		return io_.n
	}
	var w *col.Writer
	if err := call("NewWriter", func() (err error) {
		w, err = col.NewWriter(path, col.WithEncoding(e), col.WithBlockSize(t))
		return
	}); err != nil {
		return io_.n
	}
	defer func() { io_.active = false; w.Close() }()
	done := false
	for _, s := range steps {
		if done && s.kind != "close" {
			break
		}
		switch s.kind {
		case "block":
			err := call("WriteBlock", func() error { return w.WriteBlock(idsOf(s.rows), valsOf(s.rows)) })
			if bf, ok := err.(*col.BlockFullError); ok {
				blocks = append(blocks, s.rows[:bf.ItemsWritten])
			} else if err == nil {
				blocks = append(blocks, s.rows)
			}
		case "finalize":
			if call("Finalize", w.Finalize) == nil {
				verify("Finalize")
				io_.active = true
				done = true
			}
		case "fclose":
			if call("FinalizeAndClose", w.FinalizeAndClose) == nil {
				if !io_.closed[path] {
					c.fail("FinalizeAndClose reported success without closing the file")
				}
				verify("FinalizeAndClose")
				io_.active = true
				done = true
			} else if io_.closed[path] {
				done = true
			}
		case "close":
			if call("Close", w.Close) == nil && !io_.closed[path] {
				c.fail("Close reported success without closing the file")
			}
		}
	}
	return io_.n
}
