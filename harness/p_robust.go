package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"regexp"
	"strings"
	"time"
)

// C17: malformed input ends in an error message or in a sound output, never in
// a runtime fault, a hang or a lost input file.

// corruptLumps changes the lumps of one level (name at index 0); it says what
// was done.
func corruptLevel(d *D, ls []Lump, hexen bool) ([]Lump, string) {
	recs := map[string]int{"THINGS": 10, "LINEDEFS": 14, "SIDEDEFS": 30, "VERTEXES": 4, "SECTORS": 26}
	if hexen {
		recs["THINGS"], recs["LINEDEFS"] = 20, 16
	}
	find := func(name string) int {
		for i, l := range ls {
			if i > 0 && l.Name == name {
				return i
			}
		}
		return -1
	}
	count := func(name string) int {
		if i := find(name); i >= 0 {
			return len(ls[i].Data) / recs[name]
		}
		return 0
	}
	name := pick(d, "LINEDEFS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS", "THINGS")
	i := find(name)
	if i < 0 {
		return ls, ""
	}
	b := append([]byte{}, ls[i].Data...)
	rec := recs[name]
	n := len(b) / rec
	what := ""
	switch k := d.Pick(12); {
	case k < 6 && n > 0: // a reference out of range
		r := d.Pick(n)
		var off, lim int
		switch name {
		case "LINEDEFS":
			f := d.Pick(4)
			off, lim = 2*f, count("VERTEXES")
			if f >= 2 {
				off, lim = rec-4+2*(f-2), count("SIDEDEFS")
			}
		case "SIDEDEFS":
			off, lim = 28, count("SECTORS")
		default:
			off, lim = 2*d.Pick(rec/2), 1
		}
		v := pick(d, lim, lim+1, 0x7fff, 0x8000, 0xfffe, 0xffff, 0, lim*2)
		binary.LittleEndian.PutUint16(b[r*rec+off:], uint16(v))
		what = fmt.Sprintf("%s %d +%d = %d (of %d)", name, r, off, v, lim)
	case k < 7:
		b = nil
		what = name + " empty"
	case k < 9 && len(b) > 0:
		b = b[:d.Pick(len(b))]
		what = fmt.Sprintf("%s cut to %d bytes", name, len(b))
	case k < 10:
		b = append(b, randBytes(d.sub(), d.Int(1, 40))...)
		what = fmt.Sprintf("%s now %d bytes", name, len(b))
	default:
		r := d.sub()
		for m := d.Int(1, 6); m > 0 && len(b) > 0; m-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		what = name + " with some bytes changed"
	}
	ls = append([]Lump{}, ls...)
	ls[i] = Lump{Name: ls[i].Name, Raw: ls[i].Raw, Data: b}
	return ls, what
}

// corruptFile changes the bytes of the wad file.
func corruptFile(d *D, b []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	n := int(binary.LittleEndian.Uint32(b[4:]))
	dir := int(binary.LittleEndian.Uint32(b[8:]))
	val := func() uint32 {
		return pick(d, 0, 1, 12, uint32(len(b)), uint32(len(b)-1), uint32(len(b)+1), 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, uint32(d.Int(0, len(b))))
	}
	switch d.Pick(7) {
	case 0:
		k := d.Int(0, len(b))
		return b[:k], fmt.Sprintf("file cut to %d of %d bytes", k, len(b))
	case 1:
		v := pick(d, uint32(n+1), uint32(n-1), 0, 1, 0x7fffffff, 0x80000000, 0xffffffff, uint32(n*2), 0x10000000, 0x0fffffff)
		binary.LittleEndian.PutUint32(b[4:], v)
		return b, fmt.Sprintf("lump count %d", v)
	case 2:
		v := val()
		binary.LittleEndian.PutUint32(b[8:], v)
		return b, fmt.Sprintf("directory at %d of %d", v, len(b))
	case 3:
		copy(b, pick(d, "WAD2", "\x00\x00\x00\x00", "PK\x03\x04", "pwad"))
		return b, "other signature"
	case 4, 5:
		if n == 0 {
			return b, ""
		}
		i := d.Pick(n)
		o := dir + 16*i + 4*d.Pick(2)
		v := val()
		binary.LittleEndian.PutUint32(b[o:], v)
		return b, fmt.Sprintf("entry %d: +%d = %d (file of %d)", i, (o-dir)%16, v, len(b))
	}
	i := d.Pick(n)
	nm := pick(d, "MAP01", "E1M1", "THINGS", "LINEDEFS", "SECTORS", "VERTEXES", "TEXTMAP", "ENDMAP", "BEHAVIOR", "", "\xff\xfe\x01")
	var raw [8]byte
	copy(raw[:], nm)
	copy(b[dir+16*i+8:], raw[:])
	return b, fmt.Sprintf("entry %d named %q", i, nm)
}

var reFrame = regexp.MustCompile(`(?m)^main\.([^\n]*)\(.*\n\t[^\n]*/([a-zA-Z_]+\.go:\d+)`)

// fault: whether the run ended in a fault of the program itself; where.
func fault(r *Res) string {
	for _, k := range []string{"runtime error", "fatal error", "all goroutines are asleep", "SIGSEGV", "programmer error", "concurrent map", "send on closed", "close of closed", "nil map", "interface conversion", "Sanity check", "rogrammer error"} {
		if strings.Contains(r.Out, k) {
			i := strings.Index(r.Out, k)
			e := min(len(r.Out), i+60)
			w := strings.SplitN(r.Out[i:e], "\n", 2)[0]
			if m := reFrame.FindStringSubmatch(r.Out[i:]); m != nil {
				w += " in " + m[1] + " " + m[2]
			}
			return w
		}
	}
	if strings.Contains(r.Out, "RMB options file contains syntax errors") {
		return "" // how the tool aborts then
	}
	if r.Exit == 2 && strings.Contains(r.Out, "panic: ") && strings.Contains(r.Out, "goroutine ") {
		i := strings.Index(r.Out, "panic: ")
		return strings.SplitN(r.Out[i:], "\n", 2)[0]
	}
	return ""
}

// refsOK: whether everything the rebuild needs from the level exists.
func refsOK(ls []Lump, hexen, verts, sides bool) bool {
	get := func(n string) (b []byte) {
		for i, l := range ls {
			if i > 0 && l.Name == n {
				b = l.Data
			}
		}
		return
	}
	lines, sd := get("LINEDEFS"), get("SIDEDEFS")
	nv, ns, nsec := len(get("VERTEXES"))/4, len(sd)/30, len(get("SECTORS"))/26
	rec := 14
	if hexen {
		rec = 16
	}
	w := func(b []byte, o int) int { return int(binary.LittleEndian.Uint16(b[o:])) }
	for o := 0; o+rec <= len(lines); o += rec {
		for k := 0; k < 2; k++ {
			if verts && w(lines, o+2*k) >= nv {
				return false
			}
			s := w(lines, o+rec-4+2*k)
			if sides && s != 0xffff && (s >= ns || w(sd, s*30+28) >= nsec) {
				return false
			}
		}
	}
	return true
}

// sound runs the tool; the outcome has to be an orderly one.
func (c *C) sound(what string, in string, out string, args ...string) *Res {
	before := c.Read(in)
	os.Remove(out)
	r := c.RunOpt(RunOpt{Timeout: 60 * time.Second}, args...)
	c.Note("corrupted: %s", what)
	if r.Timeout {
		c.Failf("hang: the run did not end: %s: %s", what, r.Cmd())
	}
	if f := fault(r); f != "" {
		c.Failf("fault: %s: %s: %s\n%s", f, what, r.Cmd(), headTail(r.Out, 1500))
	}
	now := c.Read(in)
	if (r.Exit != 0 || out != "") && !bytes.Equal(now, before) {
		c.Failf("input: exit status %d, and the input file was changed: %s: %s", r.Exit, what, r.Cmd())
	}
	if r.Exit != 0 && strings.TrimSpace(r.Out) == "" {
		c.Failf("silent: exit status %d without a message: %s: %s", r.Exit, what, r.Cmd())
	}
	if r.Exit == 0 {
		o := now
		if out != "" {
			o = c.Read(out)
		}
		if _, err := parseWad(o); err != nil {
			c.Failf("output: exit status 0, but the output is not a sound wad (%v): %s: %s", err, what, r.Cmd())
		}
	}
	return r
}

// runRobustFile: damage to the wad file itself.
func runRobustFile(c *C) {
	w := genWad(c.D, wadOpts{MaxLevels: 2, Invalid: 5, Messy: 30, Dups: true, Scripts: true})
	var what []string
	for k := pick(c.D, 0, 0, 1, 2); k > 0; k-- {
		i := c.Pick(len(w.Items))
		if it := &w.Items[i]; it.Kind == "level" {
			var s string
			if it.Lumps, s = corruptLevel(c.D, it.Lumps, it.Hexen); s != "" {
				what = append(what, it.Lumps[0].Name+": "+s)
			}
		}
	}
	w.build()
	b := w.Bytes
	for k := c.Int(1, 2); k > 0; k-- {
		if len(b) < 12 {
			break
		}
		n, dir := int(binary.LittleEndian.Uint32(b[4:])), int(binary.LittleEndian.Uint32(b[8:]))
		if n < 1 || n > 10000 || dir < 0 || dir+16*n > len(b) {
			break
		}
		var s string
		if b, s = corruptFile(c.D, b); s != "" {
			what = append(what, s)
		}
	}
	md := genWadMode(c.D, w, false)
	args := md.Args
	if c.P(30) {
		args = append(args, pick(c.D, "-nm=3", "-rs=2", "--nosymm", "-rg-", "-br", "-ni=2", "-nt=2"))
	}
	in := c.Write("in.wad", b)
	out := c.Path("out.wad")
	a := append(append([]string{}, args...), in)
	if c.P(30) {
		out = ""
	} else {
		a = append(a, "-o", out)
	}
	r := c.sound(strings.Join(what, "; "), in, out, a...)
	if r.Exit == 0 {
		c.Label("file: built in spite of it")
	} else {
		c.Labelf("file: refused with status %d", r.Exit)
	}
	c.NonTrivial(fmt.Sprint(w.describe(), what, args))
	c.Sample("%s | %s | %v", w.describe(), strings.Join(what, "; "), args)
}

// runRobustLevel: damage inside levels. A level that refers to something that
// is not there is kept as it is; the others are rebuilt.
func runRobustLevel(c *C) {
	w := genWad(c.D, wadOpts{MinLevels: 1, MaxLevels: 3, Invalid: 5, Messy: 30, Scripts: true})
	md := genWadMode(c.D, w, false)
	needS := !md.NoN || !md.NoR && !md.ZeroR
	needV := needS || !md.NoB
	if c.P(30) {
		x := pick(c.D, "-nm=3", "-rs=2", "--nosymm", "-rg-", "-br", "-ni=2", "-nt=2")
		md.Args = append(md.Args, x)
		switch {
		case x == "-br":
			md.NoB = false // whatever was asked for before
			needS, needV = true, true
		case x[:2] == "-n" && x != "-nosymm":
			md.NoN = false
			needS, needV = true, true
		}
		if strings.HasPrefix(x, "--") {
			needS = !md.NoN || !md.NoR && !md.ZeroR
		}
	}
	var what []string
	damaged := 0
	for i := range w.Items {
		it := &w.Items[i]
		if it.Kind != "level" || c.P(30) {
			continue
		}
		for k := c.Int(1, 2); k > 0; k-- {
			var s string
			if it.Lumps, s = corruptLevel(c.D, it.Lumps, it.Hexen); s != "" {
				what = append(what, it.Lumps[0].Name+": "+s)
				it.Loose = true
			}
		}
		if it.Valid && !refsOK(it.Lumps, it.Hexen, needV, needS) {
			it.Valid, it.Select = false, false
			damaged++
		}
	}
	w.build()
	in := c.Write("in.wad", w.Bytes)
	out := c.Path("out.wad")
	r := c.sound(strings.Join(what, "; "), in, out, append(append([]string{}, md.Args...), in, "-o", out)...)
	if w.selected() == 0 {
		if r.Exit == 0 {
			c.Failf("refusal: exit status 0 although no level can be rebuilt: %s: %v", strings.Join(what, "; "), md.Args)
		}
		c.Label("level: none left to rebuild")
	} else {
		if r.Exit != 0 {
			c.Failf("others: exit status %d although %d levels can be rebuilt: %s: %s\n%s", r.Exit, w.selected(), strings.Join(what, "; "), r.Cmd(), tail(r.Out, 600))
		}
		c.checkWad(w, md, c.Read(out))
		if damaged > 0 {
			c.Label("level: damaged ones kept, others rebuilt")
		} else {
			c.Label("level: rebuilt")
		}
	}
	if len(what) > 0 {
		c.NonTrivial(fmt.Sprint(w.describe(), what, md.Args))
		c.Sample("%s | %s | %v", w.describe(), strings.Join(what, "; "), md.Args)
	}
}

// runRobustRmb: RMB files.
func runRobustRmb(c *C) {
	m := genRejectMap(c.D, c.P(20))
	m.Name = "MAP01"
	n := len(m.Sectors)
	in := c.Write("in.wad", (&Wad{Lumps: m.Lumps()}).Bytes(nil))
	out := c.Path("out.wad")
	num := func() string {
		return pick(c.D, "0", "1", fmt.Sprint(n-1), fmt.Sprint(n), "-1", "-2147483648", "2147483647", "65535", "65536", "32768", "007")
	}
	list := func() string {
		if c.P(50) {
			return num()
		}
		s := "("
		for k := c.Int(1, 4); k > 0; k-- {
			s += pick(c.D, "", " ") + num() + pick(c.D, " ", ",", ", ")
		}
		return strings.TrimRight(s, ", ") + ")"
	}
	good := func() string {
		switch k := pick(c.D, "BLIND", "SAFE", "BAND BLIND", "BAND SAFE", "INCLUDE", "EXCLUDE", "VORTEX", "GROUP", "LENGTH", "DISTANCE", "LINE", "REPORT", "ASSERT", "NOPROCESS", "MAP", "#", "INVERT BLIND", "INVERT SAFE"); k {
		case "BLIND", "SAFE", "INVERT BLIND", "INVERT SAFE", "GROUP":
			return k + " " + num() + " " + list()
		case "BAND BLIND", "BAND SAFE":
			return k + " " + num() + " " + num() + " " + list()
		case "INCLUDE", "EXCLUDE", "VORTEX":
			return k + " " + list() + " " + list()
		case "ASSERT":
			return k + " " + list() + " " + list() + " " + num()
		case "NOPROCESS":
			return pick(c.D, "NOPROCESS", "NOPROCESS ext.wad", "NOPROCESS ext.wad MAP01", "NOPROCESS none.wad MAP02", "NOPROCESS in.wad MAP01")
		case "MAP":
			return pick(c.D, "MAP01", "E1M1", "MAP02")
		case "#":
			return pick(c.D, "# a comment", "", "   ", "#")
		default:
			return k + " " + num()
		}
	}
	bad := func() string {
		return pick(c.D, "XYZZY 1", "LENGTH", "LENGTH abc", "LENGTH 1x", "LENGTH 99999999999999999999", "BLIND 1", "BLIND", "INCLUDE (1 2", "INCLUDE 1", "INCLUDE (1)(2", "INCLUDE 1) 2", "EXCLUDE (1,x) 2", "LENGTH 3 4", "DISTANCE 5 6", "BAND", "BAND LENGTH 4", "BAND BLIND 1 2", "INVERT", "INVERT LENGTH 1", "GROUP x 1", "ASSERT 1 2", "ASSERT 1 2 x", "REPORT", "\x00\x01\x02", "LENGTH\x003", "\xff\xfe")
	}
	var lines []string
	broken := c.P(40)
	wild := !broken && c.P(30)
	for k := c.Int(1, 8); k > 0; k-- {
		lines = append(lines, good())
	}
	what := "RMB file with numbers out of range"
	if broken {
		what = "RMB file with a syntax error"
		i := c.Pick(len(lines) + 1)
		lines = append(lines[:i], append([]string{bad()}, lines[i:]...)...)
	} else if wild {
		what = "RMB file of scrambled words"
		var words []string
		for _, l := range lines {
			words = append(words, strings.Fields(l)...)
		}
		for k := c.Int(1, 6); k > 0; k-- {
			words = append(words, pick(c.D, bad(), "(", ")", ",", "\n", "\r\n", "\"", "INVERT", "BAND"))
		}
		c.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
		for i := range words {
			if c.P(30) {
				words[i] += "\n"
			}
		}
		lines = []string{strings.Join(words, " ")}
	}
	text := strings.Join(lines, pick(c.D, "\n", "\r\n"))
	if c.P(70) {
		text += "\n"
	}
	c.Write("in.rej", []byte(text))
	os.Remove(c.Path("ext.wad"))
	if strings.Contains(text, "ext.wad") && c.P(80) {
		o := genMap(c.D, "MAP01", MapOpts{Tri: 30, MaxCols: 3, MaxRows: 3})
		b := (&Wad{Lumps: o.Lumps()}).Bytes(nil)
		for k := c.Int(0, 2); k > 0 && len(b) > 200; k-- {
			b2, s := corruptFile(c.D, b)
			what += "; wad to take reject from: " + s
			b = b2
			break
		}
		c.Write("ext.wad", b)
	}
	args := []string{"-n-", "-b-", "-rm", fmt.Sprintf("-rs=%d", c.Int(0, 3))}
	what += ": " + fmt.Sprintf("%q", text)
	r := c.sound(what, in, out, append(args, in, "-o", out)...)
	switch {
	case broken && r.Exit == 0:
		c.Failf("syntax: the RMB file has a syntax error, but the run went on: %s", what)
	case broken:
		if _, err := os.Stat(out); err == nil {
			c.Failf("syntax: the RMB file has a syntax error, but an output file was written: %s", what)
		}
		c.Label("rmb: syntax error reported")
	case !wild && r.Exit != 0:
		c.Failf("syntax: a proper RMB file was refused with status %d: %s\n%s", r.Exit, what, tail(r.Out, 600))
	case r.Exit == 0:
		c.Label("rmb: accepted")
		lv := c.load(m, out, r)
		if got, want := len(lv.Lv.L["REJECT"]), (n*n+7)/8; got != want {
			c.Failf("output: REJECT is %d bytes instead of %d: %s", got, want, what)
		}
	default:
		c.Label("rmb: scrambled words refused")
	}
	c.NonTrivial(text)
	c.Sample("%q", text)
}

// runRobustArgs: command lines.
func runRobustArgs(c *C) {
	m := genMap(c.D, "MAP01", MapOpts{Tri: 30, MaxCols: 3, MaxRows: 3, Hexen: 30, NoFar: true})
	in := c.Write("in.wad", (&Wad{Lumps: m.Lumps()}).Bytes(nil))
	out := c.Path("out.wad")
	var args []string
	fatal := false
	num := func() string {
		return pick(c.D, "0", "1", "2", "3", "4", "9", "63", "64", "128", "999", "40000", "65536", "99999999999999999999", "-1", "-", "+", "x", "")
	}
	for k := c.Int(1, 6); k > 0; k-- {
		switch w := c.Pick(20); {
		case w < 4:
			args = append(args, "-b"+pick(c.D, "", "s", "a", "z", "e", "o", "r", "q", "so", "s?", "a?", "s?a?", "-", "+")+pick(c.D, "", "=", "-", "+")+num())
		case w < 8:
			args = append(args, "-n"+pick(c.D, "a", "p", "i", "c", "f", "d", "m", "w", "r", "", "-", "q", "c=", "c=v", "c=z", "c=Z", "c=q")+pick(c.D, "", "=")+num())
		case w < 10:
			args = append(args, pick(c.D, "-bt", "-nt", "-bt=", "-nt=")+pick(c.D, "", "0", "1", "2", "5", "-", "+", "x"))
		case w < 12:
			args = append(args, "-r"+pick(c.D, "z", "g", "m", "s", "", "-", "q")+pick(c.D, "", "=")+num())
		case w < 14:
			args = append(args, pick(c.D, "--detailnodes", "--sidecache", "--speedtree", "--roots", "--stknode")+pick(c.D, "", "=", "=", "=", "-", "+")+pick(c.D, "0", "1", "2", ""))
		case w < 15:
			args = append(args, pick(c.D, "--eject", "--ableist", "--nosymm", "--hashlump", "--unreversenodes", "--disableudmf", "-d", "-d-", "-v", "-vv", "-d=1"))
		case w < 16:
			args = append(args, "--zenvar:"+pick(c.D, "x1=1", "x1=0,x2=0,x3=0,x4=0", "y1=1,y2=7", "X1 = 5, x2=6", "x1=-3", "x1=2147483647,x2=2147483647"))
		case w < 17:
			args = append(args, "-m:"+pick(c.D, "map01", "MAP01+e1m1", "map01+map02+map01"))
		case w < 18:
			args = append(args, pick(c.D, "-", "--cpuprofile", "--memprofile", "-v-", "-!"))
			if l := args[len(args)-1]; l == "--cpuprofile" || l == "--memprofile" {
				args = append(args, c.Path("prof"))
			}
		default:
			// always refused
			args = append(args, pick(c.D, "-q", "--nosuch", "-m", "-m:", "-m:map01+", "-m:+map01", "-m:nolevel", "-!m:map", "--zenvar", "--zenvar:x9=1", "--zenvar:x1", "--zenvar:x1=a", "--detailnodes=4", "--sidecache=3", "--stknode=2", "--speedtree=7", "-ofile", "other.wad"))
			fatal = fatal || args[len(args)-1] != "-m:"
		}
	}
	// where a file name is due it takes the next one
	i := c.Pick(len(args) + 1)
	if i > 0 && strings.HasSuffix(args[i-1], "profile") {
		i--
	}
	args = append(args[:i:i], append([]string{in, "-o", out}, args[i:]...)...)
	if c.P(3) {
		args = append(args, pick(c.D, "--cpuprofile", "--memprofile"))
	}
	what := fmt.Sprintf("command line %q", args)
	r := c.sound(what, in, out, args...)
	if fatal && r.Exit == 0 {
		c.Failf("refusal: exit status 0 in spite of an argument that is wrong: %s", what)
	}
	if r.Exit == 0 {
		c.Label("args: accepted")
		b := c.load(m, out, r)
		if b.Lv == nil {
			c.Failf("output: the level is not there: %s", what)
		}
	} else {
		c.Label("args: refused")
	}
	c.NonTrivial(what)
	c.Sample("%s", strings.ReplaceAll(what, c.Dir, "."))
}

var _ = reg(&Prop{
	ID: "C17", Title: "Malformed input is refused or handled, never a crash",
	Rule:  "a case counts when something was corrupted; distinct by input, corruption and options",
	Quick: 12000, Thorough: 150000,
	Run: func(c *C) {
		switch k := c.Pick(10); {
		case k < 3:
			runRobustFile(c)
		case k < 6:
			runRobustLevel(c)
		case k < 8:
			runRobustRmb(c)
		default:
			runRobustArgs(c)
		}
	},
})
