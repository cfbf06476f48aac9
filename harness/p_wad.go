package main

import (
	"bytes"
	"fmt"
	"strings"
)

// Whole-wad properties: a generated wad with levels and other lumps, and a
// model of the directory that has to come out.

type wadItem struct {
	Kind   string // lump, level
	Lumps  []Lump // for a level: marker first
	Map    *Map
	Valid  bool
	Hexen  bool
	Select bool
	Loose  bool // what is in its lumps is not as in Map: not looked into
}

type wadCase struct {
	Items []wadItem
	Magic string
	Lay   *WadLayout
	Bytes []byte
}

type wadOpts struct {
	MaxLevels  int
	Invalid    int // percent of levels that miss a mandatory lump
	Messy      int // percent of levels with existing, shuffled, duplicate lumps
	Dups       bool
	Scripts    bool
	MaxCols    int
	LevelsOnly bool
	MinLevels  int
}

var lumpNames = []string{"PLAYPAL", "TEXTURE1", "D_RUNNIN", "P_START", "P_END", "DEMO1", "ENDOOM",
	"GL_MAP01", "TEXTMAP", "ENDMAP", "ZNODES", "MAPINFO", "MAP1", "E1M", "MAP100", "E0M1", "MAPXX", "map01", "AMAP01", "", "DEHACKED", "LONGNAME"}

func randBytes(r *rng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(splitmix(&r.s))
	}
	return b
}

func genLumpData(d *D) []byte {
	switch d.Pick(4) {
	case 0:
		return nil
	case 1:
		return randBytes(d.sub(), d.Int(1, 8))
	case 2:
		return make([]byte, d.Int(1, 200))
	}
	return randBytes(d.sub(), d.Int(1, 3000))
}

func genLevelName(d *D) string {
	switch d.Pick(3) {
	case 0:
		return fmt.Sprintf("MAP%02d", d.Int(1, 99))
	case 1:
		return fmt.Sprintf("E%dM%d", d.Int(1, 9), d.Int(0, 9))
	}
	return fmt.Sprintf("E%dM%02d", d.Int(1, 9), d.Int(10, 99))
}

func genLevelItem(d *D, o wadOpts, name string) wadItem {
	mo := MapOpts{Tri: 30, MaxCols: o.MaxCols, MaxRows: o.MaxCols, Hexen: 30, NoFar: true}
	if mo.MaxCols == 0 {
		mo.MaxCols, mo.MaxRows = 3, 3
	}
	m := genMap(d, name, mo)
	it := wadItem{Kind: "level", Map: m, Valid: true, Hexen: m.Hexen}
	ls := m.Lumps()
	if o.Scripts && m.Hexen && d.P(30) {
		ls = append(ls, L("SCRIPTS", randBytes(d.sub(), d.Int(0, 50))))
	}
	if d.P(o.Messy) {
		// lumps left by an earlier build, arbitrary content
		for _, n := range []string{"SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"} {
			for k := pick(d, 0, 1, 1); k > 0; k-- {
				ls = append(ls, L(n, genLumpData(d)))
			}
			if o.Dups && d.P(10) {
				ls = append(ls, L(n, genLumpData(d)))
			}
		}
		if o.Dups && d.P(15) {
			k := d.Int(1, 5)
			ls = append(ls, ls[k]) // an exact copy of a mandatory lump
		}
		if d.P(70) {
			d.Shuffle(len(ls)-1, func(i, j int) { ls[i+1], ls[j+1] = ls[j+1], ls[i+1] })
		}
	}
	if d.P(o.Invalid) {
		it.Valid = false
		for n := d.Int(1, 3); n > 0; n-- {
			victim := []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}[d.Pick(5)]
			var out []Lump
			for i, l := range ls {
				if i > 0 && l.Name == victim {
					continue
				}
				out = append(out, l)
			}
			ls = out
		}
		if d.P(15) {
			ls = ls[:1]
		}
	}
	it.Lumps = ls
	return it
}

func genWad(d *D, o wadOpts) *wadCase {
	w := &wadCase{Magic: pick(d, "PWAD", "IWAD")}
	other := func(afterLevel bool) {
		for k := pick(d, 0, 0, 1, 2, 3); k > 0; k-- {
			n := lumpNames[d.Pick(len(lumpNames))]
			if !afterLevel && d.P(15) {
				n = levelOrder[d.Pick(len(levelOrder))]
			}
			l := L(n, genLumpData(d))
			if len(n) > 0 && len(n) < 6 && d.P(10) {
				l.Raw[7] = byte(d.Int(1, 255)) // junk after the terminator
			}
			w.Items = append(w.Items, wadItem{Kind: "lump", Lumps: []Lump{l}})
			afterLevel = afterLevel && levelRank(n) >= 0
		}
	}
	if !o.LevelsOnly {
		other(false)
	}
	lo := max(1, o.MinLevels)
	n := d.Int(lo, max(lo, o.MaxLevels))
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		name := genLevelName(d)
		if used[name] && d.P(80) {
			name = fmt.Sprintf("MAP%02d", 10+i)
		}
		used[name] = true
		it := genLevelItem(d, o, name)
		w.Items = append(w.Items, it)
		if !o.LevelsOnly {
			other(true)
		}
	}
	lay := &WadLayout{DirFirst: d.P(30)}
	if d.P(30) {
		r := d.sub()
		lay.Gap = func(i int) []byte { return randBytes(&rng{r.s + uint64(i)}, r0(r.s, i)%5) }
	}
	zp := d.Pick(3)
	if zp > 0 {
		lay.ZeroPos = func(i int) uint32 {
			if zp == 1 {
				return 0
			}
			return uint32(0x7FFFFFFF - i)
		}
	}
	w.Lay = lay
	w.build()
	return w
}

func r0(s uint64, i int) int { x := s + uint64(i)*77; return int(splitmix(&x) >> 40) }

func (w *wadCase) build() {
	ww := &Wad{Magic: w.Magic}
	for _, it := range w.Items {
		ww.Lumps = append(ww.Lumps, it.Lumps...)
	}
	w.Bytes = ww.Bytes(w.Lay)
}

func (w *wadCase) describe() string {
	var s []string
	for _, it := range w.Items {
		if it.Kind == "lump" {
			s = append(s, it.Lumps[0].Name)
			continue
		}
		var n []string
		for _, l := range it.Lumps[1:] {
			n = append(n, l.Name)
		}
		v := ""
		if !it.Valid {
			v = " INVALID"
		}
		s = append(s, it.Lumps[0].Name+v+"("+strings.Join(n, " ")+")")
	}
	return w.Magic + " " + strings.Join(s, ", ")
}

// wadMode: what the command line asks for.
type wadMode struct {
	NoB, NoN, NoR, ZeroR, Eject bool
	Filter                      string
	Args                        []string
}

func genWadMode(d *D, w *wadCase, filters bool) wadMode {
	var m wadMode
	if filters || d.P(50) {
		m.NoB, m.NoN, m.NoR = d.P(50), d.P(50), d.P(50)
	}
	if !m.NoR && d.P(30) {
		m.ZeroR = true
	}
	if m.NoB {
		m.Args = append(m.Args, "-b-")
	} else if d.P(60) {
		m.Args = append(m.Args, "-bo=0")
	}
	if m.NoN {
		m.Args = append(m.Args, "-n-")
	} else {
		m.Args = append(m.Args, pick(d, "-na=0", "-na=4", "-nc=d", "-nc=x", "-nc=z"))
	}
	if m.NoR {
		m.Args = append(m.Args, "-r-")
	} else if m.ZeroR {
		m.Args = append(m.Args, "-rz")
	}
	if d.P(30) {
		m.Args = append(m.Args, "-d")
	}
	d.Shuffle(len(m.Args), func(i, j int) { m.Args[i], m.Args[j] = m.Args[j], m.Args[i] })
	sel := func(string) bool { return true }
	if filters && d.P(60) {
		var names []string
		for _, it := range w.Items {
			if it.Kind == "level" && d.P(50) {
				names = append(names, it.Lumps[0].Name)
			}
		}
		if d.P(30) {
			names = append(names, "MAP98")
		}
		if len(names) > 0 {
			inv := d.P(40)
			set := map[string]bool{}
			for i, n := range names {
				set[n] = true
				if d.P(50) {
					names[i] = strings.ToLower(n)
				}
			}
			m.Filter = "-m:" + strings.Join(names, "+")
			if inv {
				m.Filter = "-!m:" + strings.Join(names, "+")
			}
			m.Args = append(m.Args, m.Filter)
			sel = func(n string) bool { return set[n] != inv }
		}
	}
	if filters && d.P(25) {
		m.Eject = true
		m.Args = append(m.Args, "--eject")
	}
	for i := range w.Items {
		it := &w.Items[i]
		it.Select = it.Kind == "level" && it.Valid && sel(it.Lumps[0].Name)
	}
	return m
}

func (w *wadCase) selected() (n int) {
	for _, it := range w.Items {
		if it.Select {
			n++
		}
	}
	return
}

// sectorsOf: number of whole sector records in the level.
func (it *wadItem) sectors() int {
	if it.Loose {
		for _, l := range it.Lumps[1:] {
			if l.Name == "SECTORS" {
				return len(l.Data) / 26
			}
		}
	}
	return len(it.Map.Sectors)
}

// checkWad compares the output with the model of it.
func (c *C) checkWad(w *wadCase, md wadMode, outBytes []byte) *Wad {
	ow, err := parseWad(outBytes)
	if err != nil {
		c.Failf("container: output is not a valid wad: %v", err)
	}
	if ow.Magic != w.Magic {
		c.Failf("container: signature %s became %s", w.Magic, ow.Magic)
	}
	pos := 0
	next := func(what string) *Lump {
		if pos >= len(ow.Lumps) {
			c.Failf("container: output directory ends after %d entries, %s is missing", pos, what)
		}
		l := &ow.Lumps[pos]
		pos++
		return l
	}
	exact := func(l *Lump, where string) {
		g := next(where + " " + l.Name)
		if g.Raw != l.Raw {
			c.Failf("container: directory entry %d is %q where %q (%s) is expected", pos-1, g.Raw[:], l.Raw[:], where)
		}
		if !bytes.Equal(g.Data, l.Data) {
			c.Failf("container: lump %d %q (%s) changed: %d bytes, were %d bytes", pos-1, l.Name, where, len(g.Data), len(l.Data))
		}
	}
	isZeroReject := map[int]bool{}
	for i := range w.Items {
		it := &w.Items[i]
		if it.Kind == "lump" {
			if !md.Eject {
				exact(&it.Lumps[0], "lump outside levels")
			}
			continue
		}
		name := it.Lumps[0].Name
		if !it.Select {
			if md.Eject && it.Valid {
				continue
			}
			if md.Eject {
				// levels that cannot be rebuilt: nothing is promised with
				// --eject, they may be kept or left out
				if pos < len(ow.Lumps) && ow.Lumps[pos].Name == name && (i+1 >= len(w.Items) || nextLevelName(w, i) != name) {
					for k := range it.Lumps {
						exact(&it.Lumps[k], "level "+name+" that is not rebuilt")
					}
				}
				continue
			}
			for k := range it.Lumps {
				exact(&it.Lumps[k], "level "+name+" that is not rebuilt")
			}
			continue
		}
		exact(&it.Lumps[0], "marker")
		for _, n := range levelOrder {
			var cand []*Lump
			for k := 1; k < len(it.Lumps); k++ {
				if it.Lumps[k].Name == n {
					cand = append(cand, &it.Lumps[k])
				}
			}
			optional := n == "BEHAVIOR" || n == "SCRIPTS"
			if optional && len(cand) == 0 {
				continue
			}
			g := next("level " + name + " lump " + n)
			if g.Raw != rawName(n) {
				c.Failf("level lumps: directory entry %d is %q where lump %s of level %s is expected", pos-1, g.Raw[:], n, name)
			}
			rebuilt := false
			switch n {
			case "LINEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES":
				rebuilt = !md.NoN
			case "BLOCKMAP":
				rebuilt = !md.NoB
			case "REJECT":
				rebuilt = !md.NoR
			}
			if !rebuilt {
				if len(cand) == 0 {
					if len(g.Data) != 0 {
						c.Failf("level lumps: level %s had no %s, which is not to be rebuilt, now it is %d bytes", name, n, len(g.Data))
					}
					continue
				}
				ok := false
				for _, x := range cand {
					ok = ok || bytes.Equal(x.Data, g.Data)
				}
				if !ok {
					c.Failf("level lumps: %s of level %s must not change (%d bytes, was %d)", n, name, len(g.Data), len(cand[0].Data))
				}
				continue
			}
			switch n {
			case "REJECT":
				want := (it.sectors()*it.sectors() + 7) / 8
				if len(g.Data) != want {
					c.Failf("level lumps: REJECT of level %s is %d bytes, %d sectors need %d", name, len(g.Data), it.sectors(), want)
				}
				if md.ZeroR {
					isZeroReject[pos-1] = true
					for _, x := range g.Data {
						if x != 0 {
							c.Failf("level lumps: zero-filled REJECT of level %s holds byte %d", name, x)
						}
					}
				}
			case "BLOCKMAP":
				if len(g.Data) < 10 && !it.Loose {
					c.Failf("level lumps: BLOCKMAP of level %s was not built (%d bytes)", name, len(g.Data))
				}
			case "LINEDEFS":
				if len(g.Data) != len(it.Map.encLines()) && !it.Loose {
					c.Failf("level lumps: LINEDEFS of level %s is %d bytes, was %d", name, len(g.Data), len(it.Map.encLines()))
				}
			}
		}
		if it.Loose {
			continue
		}
		lv := &LevelLumps{Name: name, L: map[string][]byte{}}
		for j := pos - 1; j >= 0 && levelRank(ow.Lumps[j].Name) >= 0; j-- {
			lv.L[ow.Lumps[j].Name] = ow.Lumps[j].Data
		}
		if !md.NoN {
			bsp, err := decodeBSP(lv)
			if err != nil {
				c.Failf("level lumps: nodes of level %s: %v", name, err)
			}
			om, err := parseMap(lv, it.Hexen)
			if err != nil {
				c.Failf("level lumps: level %s: %v", name, err)
			}
			if bsp.Fmt == "empty" || len(bsp.Segs) == 0 {
				c.Failf("level lumps: no nodes were built for level %s", name)
			}
			if err := bsp.checkStructure(om); err != nil {
				c.Failf("level lumps: nodes of level %s: %v", name, err)
			}
		}
		if !md.NoB {
			bm, err := decodeBlockmap(lv.L["BLOCKMAP"])
			if err == nil {
				err = bm.checkGrid(it.Map, inBlockmap(it.Map))
			}
			if err != nil {
				c.Failf("level lumps: blockmap of level %s: %v", name, err)
			}
		}
	}
	if pos != len(ow.Lumps) {
		c.Failf("container: %d more entries in the output directory than expected, first %q", len(ow.Lumps)-pos, ow.Lumps[pos].Raw[:])
	}
	// nothing overlaps, except zero-filled rejects
	type reg struct{ a, b, i int }
	var rs []reg
	rs = append(rs, reg{0, 12, -1}, reg{int(ow.Dir), int(ow.Dir) + 16*len(ow.Lumps), -2})
	for i := range ow.Lumps {
		if len(ow.Lumps[i].Data) > 0 && !isZeroReject[i] {
			rs = append(rs, reg{int(ow.Lumps[i].Pos), int(ow.Lumps[i].Pos) + len(ow.Lumps[i].Data), i})
		}
	}
	for i := range rs {
		for j := i + 1; j < len(rs); j++ {
			if rs[i].a < rs[j].b && rs[j].a < rs[i].b {
				if rs[i].i == -2 && md.ZeroR || rs[i].i == -1 && md.ZeroR {
					continue
				}
				c.Failf("container: regions of entries %d and %d overlap", rs[i].i, rs[j].i)
			}
		}
	}
	return ow
}

func nextLevelName(w *wadCase, i int) string {
	for j := i + 1; j < len(w.Items); j++ {
		if w.Items[j].Kind == "level" {
			return w.Items[j].Lumps[0].Name
		}
	}
	return ""
}

// runWad runs the tool on the case with -o and returns the output; when no
// level can be rebuilt the tool has to refuse and the case ends.
func (c *C) runWad(w *wadCase, md wadMode) []byte {
	in := c.Write("in.wad", w.Bytes)
	out := c.Path("out.wad")
	r := c.Run(append(append([]string{}, md.Args...), in, "-o", out)...)
	if w.selected() == 0 {
		if r.Timeout || r.Crashed() {
			c.Failf("crash: on a wad without a level to rebuild: %s\n%s", r.Cmd(), headTail(r.Out, 1200))
		}
		if r.Exit == 0 {
			c.Failf("refusal: exit status 0 although no level could be rebuilt")
		}
		if !bytes.Equal(c.Read(in), w.Bytes) {
			c.Failf("refusal: input was modified")
		}
		return nil
	}
	c.okay(r)
	if !bytes.Equal(c.Read(in), w.Bytes) {
		c.Failf("input: the input file was modified although an output file was given")
	}
	return c.Read(out)
}

func wadProp(o wadOpts, filters bool) func(c *C) {
	return func(c *C) {
		w := genWad(c.D, o)
		md := genWadMode(c.D, w, filters)
		c.Note("wad: %s", w.describe())
		out := c.runWad(w, md)
		if out == nil {
			c.Label("nothing to rebuild")
			return
		}
		c.checkWad(w, md, out)
		inv, sel, messy := 0, w.selected(), 0
		for _, it := range w.Items {
			if it.Kind == "level" && !it.Valid {
				inv++
			}
			if it.Kind == "level" && len(it.Lumps) > 7 {
				messy++
			}
		}
		if inv > 0 {
			c.Label("with a level that cannot be rebuilt")
		}
		if sel > 1 {
			c.Label("several levels rebuilt")
		}
		if messy > 0 {
			c.Label("with lumps of an earlier build")
		}
		if md.ZeroR {
			c.Label("zero-filled reject")
		}
		if md.Eject {
			c.Label("eject")
		}
		if md.Filter != "" {
			c.Label("filtered")
		}
		if len(w.Items) > 1 || messy > 0 {
			c.NonTrivial(fmt.Sprint(w.describe(), md.Args))
			c.Sample("%s | %v", w.describe(), md.Args)
		}
	}
}

var _ = reg(&Prop{
	ID: "C01", Title: "WAD container fidelity",
	Rule:  "a case counts when the wad holds more than one item (levels, other lumps) or a level with lumps of an earlier build; distinct by full lump list and options",
	Quick: 4000, Thorough: 200000,
	Run: wadProp(wadOpts{MaxLevels: 4, Invalid: 12, Messy: 30, Scripts: true}, false),
})

var _ = reg(&Prop{
	ID: "C02", Title: "Level lumps are completed, deduplicated and ordered",
	Rule:  "a case counts when the wad holds more than one item (levels, other lumps) or a level with lumps of an earlier build; distinct by full lump list and options",
	Quick: 4000, Thorough: 200000,
	Run: wadProp(wadOpts{MaxLevels: 3, Invalid: 25, Messy: 90, Dups: true, Scripts: true}, false),
})

var _ = reg(&Prop{
	ID: "C04", Title: "Only the requested levels and lumps are rebuilt",
	Rule:  "a case counts when the wad holds more than one item (levels, other lumps) or a level with lumps of an earlier build; distinct by full lump list and options",
	Quick: 4000, Thorough: 200000,
	Run: wadProp(wadOpts{MaxLevels: 5, Invalid: 5, Messy: 70, Scripts: true}, true),
})
