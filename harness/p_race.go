package main

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"
	"time"
)

// C23: what runs at the same time shares no data without synchronisation. The
// oracle is the race detector of Go, which judges the run by the order of its
// synchronisations and not by how its threads happened to meet, and reports
// nothing that is not a race.

var reRaceAt = regexp.MustCompile(`(?m)^\s+(main\.[^\s(]*(?:\([^)]*\)\.?[^\s(]*)?)\(`)

// raceSite names the function in which a report says the accesses were.
func raceSite(out string) string {
	k := strings.Index(out, "WARNING: DATA RACE")
	if k < 0 {
		return ""
	}
	s := out[k:]
	if m := reRaceAt.FindStringSubmatch(s); m != nil {
		return m[1]
	}
	return "?"
}

var _ = reg(&Prop{
	ID: "C23", Title: "Threads share no data without synchronisation",
	Rule:  "a case counts when the build with the race detector ran with at least two kinds of work at once (nodes, blockmap, reject, several trees or several offsets); distinct by the list of lumps and options",
	Quick: 1300, Thorough: 20000,
	Bins: []string{"vb", "vbrace"},
	Run: func(c *C) {
		det := c.P(70)
		var args []string
		if det {
			args = append(args, "-d")
		}
		multi := c.P(45)
		if multi {
			args = append(args, fmt.Sprintf("-nm=%d", c.Int(1, 3)))
		}
		if c.P(60) {
			args = append(args, fmt.Sprintf("-nt=%d", c.Int(1, 8)))
		}
		if c.P(40) {
			args = append(args, fmt.Sprintf("-bt=%d", c.Int(1, 8)))
		}
		all := genAllOpts(c.D, 0)
		args = append(args, all...)
		offs := c.P(50)
		if offs {
			args = append(args, pick(c.D, "-bo=2", "-bo=2", "-bo=2e=1", "-bo=2e=2", "-bo=2s", "-bo=2a?", "-bo=2a"))
		}
		if multi && c.P(60) {
			args = append(args, fmt.Sprintf("--roots=%d", c.Int(1, 9)))
		}
		if multi && c.P(30) {
			args = append(args, pick(c.D, "--speedtree=0", "--speedtree=1", "--stknode", "--ableist"))
		}
		if c.P(15) {
			args = append(args, pick(c.D, "-v", "-vv"))
		}
		if c.P(10) {
			args = append(args, "--nosymm")
		}
		var wad []byte
		var what string
		switch c.Pick(4) {
		case 0: // one level, many roots
			m := genNodeMap(c.D, false, c.P(30))
			wad, what = (&Wad{Lumps: m.Lumps()}).Bytes(nil), m.describe()
		case 1: // scrollers: lines are added and removed before and while building
			m := genNodeMap(c.D, false, false)
			for k := range m.Lines {
				if c.P(8) && !m.zeroLen(k) {
					m.Lines[k].Action = uint16(pick(c.D, 48, 48, 1048))
					m.Lines[k].Tag = uint16(pick(c.D, 2, 3, 5, 102))
				}
			}
			wad, what = (&Wad{Lumps: m.Lumps()}).Bytes(nil), m.describe()
		default:
			w := genWad(c.D, wadOpts{MaxLevels: 3, Messy: 20, Scripts: true, MaxCols: pick(c.D, 3, 5, 6), Invalid: 5})
			n := 0
			for _, it := range w.Items {
				if it.Kind == "level" && it.Valid {
					n++
				}
			}
			if n == 0 {
				c.Label("nothing to rebuild")
				return
			}
			wad, what = w.Bytes, w.describe()
		}
		if c.P(30) {
			var f rmbFile
			for k := c.Int(1, 3); k > 0; k-- {
				v := c.Pick(8)
				switch {
				case v < 4:
					f.global = append(f.global, genReach(c.D, 3, false))
				case v == 4:
					f.global = append(f.global, genRmbGroups(c.D, 3)...)
				default:
					f.global = append(f.global, rmbCmd{kind: pick(c.D, "DISTANCE", "LENGTH", "LINE", "REPORT"), d: [2]int{c.Int(1, 900)}})
				}
			}
			c.Write("in.rej", []byte(rmbText(c.D, &f, nil, "\n")))
			args = append(args, "-rm")
			c.Label("RMB")
		}
		in := c.Write("in.wad", wad)
		out := c.Path("race.wad")
		opt := RunOpt{Bin: "vbrace", Procs: c.Int(1, 8), Env: []string{"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0"}, Timeout: 120 * time.Second}
		r := c.RunOpt(opt, append(append([]string{}, args...), in, "-o", out)...)
		if s := raceSite(r.Out); s != "" {
			k := strings.Index(r.Out, "WARNING: DATA RACE")
			c.Failf("race: unsynchronised accesses in %s: %s\n%s", s, r.Cmd(), headTail(r.Out[k:], 2000))
		}
		c.okay(r)
		if det {
			c.must(append(append([]string{}, args...), in, "-o", c.Path("plain.wad"))...)
			if a, b := c.Read(out), c.Read(c.Path("plain.wad")); !bytes.Equal(a, b) {
				c.Failf("differs: built with the race detector, the output is another: %v: %s", args, lumpDiff(b, a))
			}
		}
		nodes, block, rej := true, true, true
		for _, a := range args {
			switch a {
			case "-n-":
				nodes = false
			case "-b-":
				block = false
			case "-r-", "-rz":
				rej = false
			}
		}
		kinds := 0
		for _, b := range []bool{nodes, block, rej, nodes && multi, block && offs} {
			if b {
				kinds++
			}
		}
		if multi {
			c.Label("multi-tree")
		}
		if offs {
			c.Label("several offsets")
		}
		if kinds > 1 {
			c.NonTrivial(fmt.Sprint(what, args))
			c.Sample("%s | %v", what, args)
		}
	},
})
