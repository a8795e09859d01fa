package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"vibe-lsm/pkg/col"
)

func init() { props["C16"] = c16 }

func (c *Ctx) cli(args ...string) (string, int) {
	cmd := exec.Command(*fVibecol, args...)
	cmd.Dir = c.dir
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	err := cmd.Run()
	code := 0
	if err != nil {
		code = cmd.ProcessState.ExitCode()
		if code < 0 {
			c.fail("vibecol could not be run or died: %v %s", err, er.String())
		}
	}
	c.note("vibecol %q -> exit %d, output %q", args, code, out.String())
	if code != 0 && out.Len() == 0 && er.Len() == 0 {
		c.fail("vibecol %q fails with status %d and no message", args, code)
	}
	if strings.Contains(er.String(), "panic:") {
		c.fail("vibecol %q panics: %s", args, er.String())
	}
	return out.String(), code
}

func c16(c *Ctx) {
	switch c.idx % 4 {
	case 0, 1:
		c16write(c)
	case 2:
		c16read(c)
	default:
		c16bad(c)
	}
}

func (c *Ctx) num(v string) string {
	if c.chance(0.1) {
		return []string{" ", "\t", "  "}[c.intn(3)] + v
	}
	if c.chance(0.1) {
		return v + []string{" ", "\n"}[c.intn(2)]
	}
	if c.chance(0.03) {
		return "000" + v
	}
	return v
}

func c16write(c *Ctx) {
	n := 1 + c.intn(8)
	if c.chance(0.15) {
		n = 200 + c.intn(900)
	}
	if c.chance(0.1) {
		n = []int{1014, 1015, 1016, 1013, 251, 247}[c.intn(6)] // page and target limits
	}
	rows := genRows(c, n)
	is, vs := make([]string, n), make([]string, n)
	for i, r := range rows {
		is[i], vs[i] = c.num(strconv.FormatUint(r.id, 10)), c.num(strconv.FormatInt(r.v, 10))
		if r.v < 0 && strings.HasPrefix(vs[i], "000") {
			vs[i] = strconv.FormatInt(r.v, 10)
		}
	}
	good := true
	junk := []string{"", "x", "1.5", "-1", "18446744073709551616", "0x10", "1 2", "+5", "1e3", "9223372036854775808", "-9223372036854775809", "1_000", "--3"}
	okU := func(s string) bool { _, err := strconv.ParseUint(strings.TrimSpace(s), 10, 64); return err == nil }
	okI := func(s string) bool { _, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64); return err == nil }
	switch c.intn(6) {
	case 0:
		k := c.intn(n)
		is[k] = junk[c.intn(len(junk))]
		good = okU(is[k])
		if good {
			u, _ := strconv.ParseUint(strings.TrimSpace(is[k]), 10, 64)
			rows[k].id = u
		}
	case 1:
		k := c.intn(n)
		vs[k] = junk[c.intn(len(junk))]
		good = okI(vs[k])
		if good {
			v, _ := strconv.ParseInt(strings.TrimSpace(vs[k]), 10, 64)
			rows[k].v = v
		}
	case 2:
		if c.chance(0.5) {
			is = append(is, "7")
		} else {
			vs = append(vs, "7")
		}
		good = false
	}
	path := c.file()
	if c.chance(0.05) {
		path = c.dir + "/no/such/dir.col"
		good = false
	}
	ids, vals := strings.Join(is, ","), strings.Join(vs, ",")
	if ids == "" || vals == "" {
		good = false
	}
	out, code := c.cli("write", "-o", path, "-ids="+ids, "-values="+vals)
	// does it fit one block of the default target?
	body := blockBytes(0, rows)
	fits := len(rows) == 1 || body+pad(64+body) <= 16384
	if !good || !fits {
		if code == 0 {
			c.fail("write succeeded (exit 0) although the arguments are unusable (parsable and equally many: %v, fit one block: %v)", good, fits)
		}
		if strings.Contains(out, "Wrote file") {
			c.fail("write reports success and exits %d", code)
		}
		return
	}
	c.nontrivial = true
	if code != 0 {
		c.fail("write of %d good pairs exits %d: %s", len(rows), code, out)
	}
	r, err := col.NewReader(path)
	if err != nil {
		c.fail("written file cannot be opened: %v", err)
	}
	defer r.Close()
	c.checkRows(r, [][]row{rows})
	c.readBack(path, [][]row{rows})
}

func (c *Ctx) readBack(path string, blocks [][]row) {
	rows := flat(blocks)
	dump, agg := c.chance(0.7), c.chance(0.7)
	args := []string{"read", "-f", path}
	if dump {
		args = append(args, "-dump")
	}
	if agg {
		args = append(args, "-agg")
	}
	out, code := c.cli(args...)
	if code != 0 {
		c.fail("read exits %d: %s", code, out)
	}
	lines := strings.Split(out, "\n")
	find := func(p string) (string, int) {
		for i, l := range lines {
			if strings.HasPrefix(l, p) {
				return strings.TrimSpace(l[len(p):]), i
			}
		}
		return "", -1
	}
	if g, i := find("Blocks:"); i < 0 || g != fmt.Sprint(len(blocks)) {
		c.fail("read prints block count %q, the file has %d", g, len(blocks))
	}
	if dump {
		_, i := find("ID\tValue")
		if i < 0 {
			c.fail("no dump header in %q", out)
		}
		i += 2
		for k, r := range rows {
			if i+k >= len(lines) || lines[i+k] != fmt.Sprintf("%d\t%d", r.id, r.v) {
				g := ""
				if i+k < len(lines) {
					g = lines[i+k]
				}
				c.fail("dump line %d is %q, row %d is (%d,%d)", k, g, k, r.id, r.v)
			}
		}
		if e := i + len(rows); e < len(lines) && strings.Contains(lines[e], "\t") {
			c.fail("dump prints more than the %d rows: %q", len(rows), lines[e])
		}
	}
	if agg {
		s := statsOf(rows)
		want := map[string]string{"Count:": fmt.Sprint(s.count), "Sum:": fmt.Sprint(s.sum)}
		if s.count > 0 {
			want["Min:"] = fmt.Sprint(s.min)
			want["Max:"] = fmt.Sprint(s.max)
			want["Average:"] = fmt.Sprintf("%.2f", avgOf(s))
		}
		for k, w := range want {
			if g, i := find(k); i < 0 || g != w {
				c.fail("read prints %s %q, the rows give %s", k, g, w)
			}
		}
	}
}

func c16read(c *Ctx) {
	b := genFile(c, genOpt{maxBlocks: 4, rows: smallRows, bigTarget: true})
	c.nontrivial = len(b.blocks) > 0
	c.readBack(b.path, b.blocks)
}

func c16bad(c *Ctx) {
	path := c.file()
	switch c.intn(4) {
	case 0: // missing
	default:
		raw := hostile(c, "envelope")
		if _, err := parseEnvelope(raw); err == nil {
			// openable: dumping must fail when a block is not readable
			os.WriteFile(path, raw, 0o644)
			env, _ := parseEnvelope(raw)
			bad := false
			if env.enc > 7 {
				return
			}
			for i := range env.entries {
				if _, _, over, err := decodeBlock(raw, env, i); err != nil {
					bad = true
				} else if over {
					return
				}
			}
			if bad {
				if out, code := c.cli("read", "-f", path, "-dump"); code == 0 {
					c.fail("dump of a file with an unreadable block exits 0: %q", out)
				}
			}
			return
		}
		os.WriteFile(path, raw, 0o644)
	}
	out, code := c.cli("read", "-f", path, "-agg", "-dump")
	if code == 0 {
		c.fail("read of a missing or invalid file exits 0: %q", out)
	}
	if strings.Contains(out, "Count:") {
		c.fail("read of a missing or invalid file prints an aggregate: %q", out)
	}
	c.nontrivial = true
	_ = math.MaxInt
	// no or unknown subcommand
	if _, code := c.cli(); code == 0 {
		c.fail("no subcommand exits 0")
	}
	if _, code := c.cli("frobnicate"); code == 0 {
		c.fail("unknown subcommand exits 0")
	}
}
