package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
)

// C22: what the command line means does not depend on how it is spelt:
// omitted options have their documented defaults, alternative spellings,
// joined options, overridden earlier values and the order of arguments make no
// difference to the bytes of the output.

// cliKey is one setting of the command line.
type cliKey struct {
	Grp   byte     // 'b', 'n', 'r' for sub-options, '-' for whole arguments
	Forms []string // spellings of its value, the first is the canonical one
	Omit  bool     // the value is the default: may be left out
	Other []string // spellings of other values (overridden by a later one)
}

func cliKeys(d *D, hexen bool) (ks []cliKey) {
	add := func(grp byte, omit bool, other string, forms ...string) {
		k := cliKey{Grp: grp, Forms: forms, Omit: omit}
		if other != "" {
			k.Other = strings.Fields(other)
		}
		ks = append(ks, k)
	}
	// blockmap
	switch d.Pick(12) {
	case 0, 1, 2:
		add('b', true, "o=0 o=1 o=3 o=9,9", "o=2", "o", "o+", "o=02")
	case 3, 4, 5:
		add('b', false, "o=1 o=3 o", "o=0", "o-", "o=0,0")
	case 6, 7, 8:
		add('b', false, "o=0 o=3 o+", "o=1", "o=8,8", "o=08,8")
	case 9, 10:
		x, y := d.Int(0, 127), d.Int(0, 127)
		add('b', false, "o- o=3 o=2", fmt.Sprintf("o=%d,%d", x, y), fmt.Sprintf("o=0%d,%03d", x, y))
	default:
		add('b', false, "o=2 o=1", "o=3")
	}
	switch d.Pick(3) {
	case 0:
		add('b', true, "r", "r-")
	case 1:
		add('b', false, "r-", "r", "r+")
	default:
		add('b', true, "")
	}
	switch d.Pick(5) {
	case 0:
		add('b', true, "", "s-a-", "s-", "a-", "a-s-", "ss-", "as-a-s-")
	case 1:
		add('b', false, "s-", "s", "s+", "a-s", "sa-", "s-s+", "aa-s")
	case 2:
		add('b', false, "s- a- s", "a", "a+", "sa", "as", "as-", "s-a", "a-a+", "as-s+")
	case 3:
		add('b', false, "", "s?")
		add('b', false, "", "a?")
		if d.P(40) {
			add('b', false, "s-", "s", "s+")
		}
	default:
		add('b', false, "", pick(d, "a?", "s?"))
	}
	switch d.Pick(4) {
	case 0:
		add('b', true, "z=0 z=2 z-", "z=1", "z", "z+", "z-z=1")
	case 1:
		add('b', false, "z=2 z", "z=0", "z-", "zz-")
	default:
		add('b', false, "z=0 z- z", "z=2", "z=002")
	}
	switch d.Pick(4) {
	case 0, 1:
		add('b', true, "e=1 e=2 e", "e=0", "e-")
	case 2:
		add('b', false, "e=0 e=2", "e=1", "e", "e+")
	default:
		add('b', false, "e=0 e", "e=2")
	}
	add('b', true, "t=7", "t=0", "t", "t+", "t-", "t=1", "t=3")
	// nodes
	m, roots := 0, false
	if d.P(20) {
		m, roots = d.Int(1, 3), d.P(50)
	}
	a := pick(d, 0, 0, 1, 2, 3, 4, 4)
	add('n', a == 0, "a=3 a=4 a=1 a=9", fmt.Sprintf("a=%d", a), fmt.Sprintf("a=0%d", a))
	switch {
	case a != 2 && a != 4 && !roots: // has no effect then
		add('n', true, "", "p=0", "p=1", "p=2")
	case d.P(40) && a == 2:
		add('n', true, "p=1 p=2 p=7", "p=0")
	case d.P(40):
		add('n', a == 4, "p=0 p=1 p=3", "p=2")
	default:
		p := d.Int(0, 2)
		add('n', a != 4 && p == 0 || a == 4 && p == 2, fmt.Sprintf("p=%d", (p+1)%3), fmt.Sprintf("p=%d", p))
	}
	switch d.Pick(4) {
	case 0:
		add('n', true, "i=1 i=2 i", "i=0", "i-")
	case 1:
		add('n', false, "i- i=2", "i=1")
	default:
		add('n', false, "i=1 i-", "i=2", "i", "i+")
	}
	add('n', m == 0, "m=1 m=0 m=3 m=8", fmt.Sprintf("m=%d", m))
	switch f := pick(d, "v", "v", "d", "x", "z", "D", "X", "Z", "z1", "Z9", "V"); {
	case (f == "v" || f == "V") && m == 0:
		add('n', true, "c=x c=D c=z3", "c=v", "c=V")
	case f == "v":
		add('n', true, "c=x c=D c=V", "c=v")
	case f == "z" || f == "Z":
		add('n', false, "c=x c=v", "c="+f, "c="+f+"6", "c="+f+"9c="+f+"6")
	default:
		add('n', false, "c=v c=x c=D", "c="+f)
	}
	switch d.Pick(5) {
	case 0:
		v := pick(d, "1", "5", "60", "400")
		add('n', false, "f=17 f=2", "f="+v, "f=0"+v)
	default:
		add('n', true, "f=3 f=99", "f=17")
	}
	switch d.Pick(4) {
	case 0:
		add('n', !hexen, "d=80 d+", "d=0", "d-")
	case 1:
		// the value is kept when the penalty is switched off: no other here
		add('n', hexen, "d-", "d=34", "d+", "d")
	case 2:
		v := pick(d, "1", "5", "100", "900")
		add('n', false, "d- d=34 d", "d="+v, "d=0"+v)
	default:
		add('n', true, "")
	}
	add('n', true, "t=5", "t=0", "t", "t+", "t-", "t=1", "t=3")
	// reject
	switch d.Pick(5) {
	case 0:
		add('r', false, "z-", "z", "z+")
	case 1, 2:
		add('r', true, "z", "z-")
	default:
		add('r', true, "")
	}
	switch s := d.Pick(5); s {
	case 0, 4:
		add('r', true, "s=1 s=2 s=3 s", "s=0", "s-")
	case 1:
		add('r', false, "s=0 s=3 s-", "s=1", "s", "s+")
	default:
		add('r', false, "s=0 s=1 s+", fmt.Sprintf("s=%d", s))
	}
	if d.P(40) {
		add('r', false, "g g+", "g-")
	} else {
		add('r', true, "g-", "g", "g+")
	}
	// long ones
	switch d.Pick(5) {
	case 0:
		add('-', true, "--detailnodes=2 --detailnodes-", "--detailnodes=0")
	case 1:
		add('-', false, "--detailnodes=0 --detailnodes+", "--detailnodes=1", "--detailnodes-")
	case 2:
		add('-', false, "--detailnodes=0 --detailnodes-", "--detailnodes=2", "--detailnodes+")
	case 3:
		add('-', false, "--detailnodes=0 --detailnodes=1", "--detailnodes=3")
	default:
		add('-', true, "")
	}
	add('-', true, "--sidecache-", "--sidecache=0", "--sidecache=1", "--sidecache=2", "--sidecache-", "--sidecache+")
	add('-', true, "--speedtree-", "--speedtree=0", "--speedtree=1", "--speedtree", "--speedtree-", "--speedtree+")
	add('-', true, "--stknode=1", "--stknode=0", "--stknode-")
	add('-', true, "", "--nosymm")
	add('-', true, "", "--hashlump")
	add('-', true, "", "-v", "-vv", "-vvv")
	if m == 0 {
		add('-', true, "", "--ableist", "--roots=3", "--roots=1")
	} else if roots {
		n := d.Int(1, 4)
		add('-', false, "--roots=7", fmt.Sprintf("--roots=%d", n), fmt.Sprintf("--roots=0%d", n))
	}
	if d.P(20) {
		add('-', false, "", "--unreversenodes")
	}
	if d.P(50) {
		x := [4]int{20, 10, 1, 25}
		def := d.P(30)
		if !def {
			for i := range x {
				if d.P(50) {
					x[i] = d.Int(0, 40)
				}
			}
		}
		var forms []string
		for k := 0; k < 4; k++ {
			var p []string
			for i := range x {
				v := fmt.Sprintf("%s%d=%d", pick(d, "x", "X"), i+1, x[i])
				if k == 0 {
					v = fmt.Sprintf("x%d=%d", i+1, x[i])
				} else if x[i] == [4]int{20, 10, 1, 25}[i] && d.P(40) {
					continue
				} else if d.P(50) {
					v = strings.ReplaceAll(v, "=", pick(d, " = ", "= ", "="))
				}
				p = append(p, v)
			}
			if k > 0 {
				shuffle(d, p)
			}
			if len(p) == 0 {
				continue
			}
			forms = append(forms, "--zenvar:"+strings.Join(p, pick(d, ",", ", ")))
		}
		forms[0] = strings.ReplaceAll(forms[0], " ", "")
		add('-', def, "", forms...)
	}
	return
}

func shuffle[T any](d *D, s []T) {
	for i := len(s) - 1; i > 0; i-- {
		j := i - d.Pick(i+1)
		s[i], s[j] = s[j], s[i]
	}
}

// merge interleaves sequences, each keeps its order.
func merge(d *D, seqs [][]string) (o []string) {
	for {
		n := 0
		for _, s := range seqs {
			n += len(s)
		}
		if n == 0 {
			return
		}
		k := d.Pick(n)
		for i, s := range seqs {
			if k < len(s) {
				o = append(o, s[0])
				seqs[i] = s[1:]
				break
			}
			k -= len(s)
		}
	}
}

// cliSpell spells the settings in some other way.
func cliSpell(d *D, ks []cliKey, off map[byte]bool) []string {
	var groups [][]string
	for _, g := range []byte("bnr") {
		if off[g] && (g == 'r' || d.P(50)) {
			s := []string{fmt.Sprintf("-%c-", g)}
			if g == 'r' && d.P(30) { // is final
				s = append(s, "-r")
			}
			groups = append(groups, s)
			continue
		}
		var seqs [][]string
		for _, k := range ks {
			if k.Grp != g {
				continue
			}
			var s []string
			if !k.Omit || (len(k.Forms) > 0 && d.P(30)) {
				if len(k.Other) > 0 && d.P(20) {
					s = append(s, k.Other[d.Pick(len(k.Other))])
				}
				s = append(s, k.Forms[d.Pick(len(k.Forms))])
			}
			seqs = append(seqs, s)
		}
		toks := merge(d, seqs)
		var args []string
		for i := 0; i < len(toks); {
			a := fmt.Sprintf("-%c", g)
			if d.P(10) {
				a += "+"
			}
			for n := pick(d, 1, 1, 2, 3, 9); n > 0 && i < len(toks); n-- {
				a += toks[i]
				i++
			}
			args = append(args, a)
		}
		ins := func(s string) {
			i := d.Pick(len(args) + 1)
			args = append(args[:i:i], append([]string{s}, args[i:]...)...)
		}
		if d.P(15) {
			ins(fmt.Sprintf("-%c", g))
		}
		if d.P(15) { // reported, and ignored
			ins(map[byte]string{
				'b': pick(d, "-bq", "-bo=5", "-b/s"),
				'n': pick(d, "-na=9", "-nc=q", "-nf=0", "-ni=7", "-nm=4", "-np=5", "-nq", "-na+"),
				'r': pick(d, "-rs=9", "-rq"),
			}[g])
		}
		if off[g] {
			args = append(args, fmt.Sprintf("-%c-", g))
		} else if g != 'r' && len(args) > 0 && d.P(15) {
			// switched off, and on again by a later one
			i := d.Pick(len(args))
			args = append(args[:i:i], append([]string{fmt.Sprintf("-%c-", g)}, args[i:]...)...)
		}
		groups = append(groups, args)
	}
	for _, k := range ks {
		if k.Grp == '-' && (!k.Omit || (len(k.Forms) > 0 && d.P(15))) {
			var s []string
			if len(k.Other) > 0 && d.P(20) {
				s = append(s, k.Other[d.Pick(len(k.Other))])
			}
			groups = append(groups, append(s, k.Forms[d.Pick(len(k.Forms))]))
		}
	}
	groups = append(groups, []string{pick(d, "-d", "-d+")})
	return merge(d, groups)
}

func runCli(c *C) {
	hexen := c.P(25)
	hp := 0
	if hexen {
		hp = 100
	}
	var w Wad
	var names []string
	w.Magic = "PWAD"
	for i := c.Int(1, 2); i > 0; i-- {
		n := fmt.Sprintf("MAP0%d", len(names)+1)
		names = append(names, n)
		m := genMap(c.D, n, MapOpts{Tri: 30, MaxCols: 4, MaxRows: 3, Hexen: hp, NoFar: true})
		if m.Hexen != hexen {
			c.Discard()
		}
		w.Lumps = append(w.Lumps, m.Lumps()...)
		if c.P(20) {
			w.Lumps = append(w.Lumps, L("FILLER", randBytes(c.sub(), 9)))
		}
	}
	data := w.Bytes(nil)
	in := c.Write("in.wad", data)

	ks := cliKeys(c.D, hexen)
	off := map[byte]bool{}
	if c.P(25) {
		off["bnr"[c.Pick(3)]] = true
	}
	// which levels to rebuild
	var sel [][]string
	cas := func(l []string) string {
		l = append([]string{}, l...)
		shuffle(c.D, l)
		for i := range l {
			l[i] = pick(c.D, l[i], strings.ToLower(l[i]), strings.ToLower(l[i][:1])+l[i][1:])
		}
		return strings.Join(l, "+")
	}
	if len(names) == 2 && c.P(40) {
		k := c.Pick(2)
		sel = [][]string{{"-m:" + names[k]}, {"-m:" + cas(names[k:k+1])}, {"-!m:" + cas(names[1-k:2-k])}, {"-m:" + cas([]string{names[k], "MAP09", "E1M1"})}}
	} else {
		sel = [][]string{{}, {"-m:" + cas(names)}, {"-!m:" + cas([]string{"MAP31", "MAP04"})}, {}}
	}

	// the canonical command line: one argument for each setting
	var can []string
	for _, k := range ks {
		if len(k.Forms) == 0 || off[k.Grp] {
			continue
		}
		if k.Grp != '-' {
			can = append(can, fmt.Sprintf("-%c%s", k.Grp, k.Forms[0]))
		} else if !k.Omit || strings.HasPrefix(k.Forms[0], "--d") || strings.HasPrefix(k.Forms[0], "--z") {
			can = append(can, k.Forms[0])
		}
	}
	for _, g := range []byte("bnr") {
		if off[g] {
			can = append(can, fmt.Sprintf("-%c-", g))
		}
	}
	can = append(can, "-d")
	can = append(can, sel[0]...)
	outA := c.Path("outa.wad")
	ra := c.must(append([]string{in, "-o", outA}, can...)...)
	want := c.Read(outA)

	for k := 0; k < 3; k++ {
		sp := cliSpell(c.D, ks, off)
		for _, s := range sel[c.Pick(len(sel))] {
			i := c.Pick(len(sp) + 1)
			sp = append(sp[:i:i], append([]string{s}, sp[i:]...)...)
		}
		ins := func(s ...string) {
			i := c.Pick(len(sp) + 1)
			if i > 0 && i < len(sp) && sp[i-1] == "-o" {
				i--
			}
			sp = append(sp[:i:i], append(s, sp[i:]...)...)
		}
		out := c.Path("outb.wad")
		os.Remove(out)
		if c.P(15) { // in place
			out = c.Write("same.wad", data)
			ins(out)
		} else {
			ins("-o", out)
			ins(in)
		}
		if c.P(5) {
			sp = append(sp, pick(c.D, "--cpuprofile", "--memprofile"), c.Path("prof"))
		}
		r := c.must(sp...)
		if b := c.Read(out); !bytes.Equal(b, want) {
			c.Failf("spelling: two spellings of the same command line differ: %s\n%s\n%s", lumpDiff(want, b), ra.Cmd(), r.Cmd())
		}
		c.Sample("%s  ==  %s", strings.Join(can, " "), strings.ReplaceAll(strings.Join(sp, " "), c.Dir, "."))
	}
	if c.P(15) {
		c.must(in, "-o", outA, "-d")
		if bytes.Equal(c.Read(outA), want) {
			c.Label("same as with default options")
		} else {
			c.Label("differs from default options")
		}
	}
	c.Label(fmt.Sprintf("%d level(s), hexen %v", len(names), hexen))
	c.NonTrivial(fmt.Sprint(can))
}

var _ = reg(&Prop{
	ID: "C22", Title: "The spelling of the command line makes no difference",
	Rule:  "all cases count; distinct by settings",
	Quick: 1500, Thorough: 25000,
	Run: runCli,
})
