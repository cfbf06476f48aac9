package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Shared parts of the properties about nodes.

type nodeOpts struct {
	A, P, M  int // -1 = option not given
	C        string
	Extra    []string
	Det      bool
	NoReject bool
	NoBlock  bool
}

func (o nodeOpts) nArg() string {
	s := "-n"
	if o.A >= 0 {
		s += fmt.Sprintf("a=%d", o.A)
	}
	if o.P >= 0 {
		s += fmt.Sprintf("p=%d", o.P)
	}
	if o.M > 0 {
		s += fmt.Sprintf("m=%d", o.M)
	}
	if o.C != "" {
		s += "c=" + o.C
	}
	return s
}

func (o nodeOpts) args() []string {
	var a []string
	if s := o.nArg(); s != "-n" {
		a = append(a, s)
	}
	if o.Det {
		a = append(a, "-d")
	}
	if o.NoReject {
		a = append(a, "-r-")
	}
	if o.NoBlock {
		a = append(a, "-b-")
	}
	return append(a, o.Extra...)
}

func (o nodeOpts) ext() bool { return strings.HasPrefix(o.C, "x") || strings.HasPrefix(o.C, "z") }

func genNodeOpts(d *D, multiPct int) nodeOpts {
	o := nodeOpts{A: pick(d, -1, 0, 1, 2, 3, 4), P: -1, NoReject: true}
	if (o.A == 2 || o.A == 4) && d.P(60) {
		o.P = d.Int(0, 2)
	}
	o.C = pick(d, "", "v", "d", "x", "z", "V", "D", "X", "Z", "z1", "Z9")
	if d.P(multiPct) {
		o.M = d.Int(1, 3)
		if d.P(30) {
			o.Extra = append(o.Extra, fmt.Sprintf("--roots=%d", d.Int(1, 6)))
		}
	}
	if d.P(20) {
		o.Extra = append(o.Extra, fmt.Sprintf("--detailnodes=%d", d.Int(0, 3)))
	}
	if d.P(15) {
		o.Extra = append(o.Extra, "--unreversenodes")
	}
	if d.P(15) {
		o.Extra = append(o.Extra, pick(d, "--stknode=1", "--sidecache=2", "--speedtree=0", "--speedtree=1"))
	}
	if d.P(10) {
		o.Extra = append(o.Extra, pick(d, "-nf=1", "-nf=60", "-nd=100", "-nd=0"))
		// sub-options of -n can be given in a further -n
	}
	o.NoBlock = d.P(70)
	return o
}

// built is the outcome of building one generated map.
type built struct {
	In, Out *Map
	W       *Wad
	Lv      *LevelLumps
	B       *BSP
	Res     *Res
	Args    []string
}

// must runs the tool, which has to succeed.
func (c *C) must(args ...string) *Res {
	r := c.Run(args...)
	c.okay(r)
	return r
}

func (c *C) okay(r *Res) {
	if r.Timeout {
		c.Failf("hang: the tool did not finish on a valid map: %s", r.Cmd())
	}
	if r.Exit != 0 {
		c.Failf("crash: exit status %d on a valid map: %s\n%s", r.Exit, r.Cmd(), headTail(r.Out, 1500))
	}
}

// buildMap writes m into a wad, runs the tool on it and reads the result.
func (c *C) buildMap(m *Map, args ...string) *built {
	w := &Wad{Lumps: m.Lumps()}
	in := c.Write("in.wad", w.Bytes(nil))
	out := c.Path("out.wad")
	a := append(append([]string{}, args...), in, "-o", out)
	r := c.must(a...)
	return c.load(m, out, r)
}

func (c *C) load(m *Map, out string, r *Res) *built {
	ow, err := parseWad(c.Read(out))
	if err != nil {
		c.Failf("output: not a valid wad: %v", err)
	}
	lv := ow.findLevel(m.Name)
	if lv == nil {
		c.Failf("output: level %s is missing", m.Name)
	}
	om, err := parseMap(lv, m.Hexen)
	if err != nil {
		c.Failf("output: %v", err)
	}
	return &built{In: m, Out: om, W: ow, Lv: lv, Res: r}
}

func (b *built) decode(c *C) *BSP {
	bsp, err := decodeBSP(b.Lv)
	if err != nil {
		c.Failf("nodes: cannot be decoded: %v", err)
	}
	b.B = bsp
	return bsp
}

type lineSide struct{ line, flip int }

// rendered: which sides of lines the documentation says get segs.
func rendered(m *Map) map[lineSide]bool {
	r := map[lineSide]bool{}
	for i := range m.Lines {
		l := &m.Lines[i]
		if m.zeroLen(i) {
			continue
		}
		if !m.Hexen && (l.Tag == 998 || l.Action == 1086) {
			continue
		}
		for f := 0; f < 2; f++ {
			s := m.sideOf(i, f)
			if s < 0 {
				continue
			}
			if strings.TrimRight(m.Sides[s].Lo, "\x00") == "BSPNOSEG" {
				continue
			}
			if !m.Hexen && (f == 0 && l.Action == 1085 || f == 1 && l.Action == 1084) {
				continue
			}
			r[lineSide{i, f}] = true
		}
	}
	return r
}

// checkCoverage: the segs of each rendered side form one unbroken chain along
// the line; nothing else has segs.
func (b *BSP) checkCoverage(m *Map, want map[lineSide]bool) (splits int, err error) {
	segs := map[lineSide][]int{}
	for j := range b.Segs {
		k := lineSide{b.Segs[j].Line, b.Segs[j].Flip}
		if !want[k] {
			return 0, fmt.Errorf("seg %d comes from side %d of linedef %d, which is not to be rendered", j, k.flip, k.line)
		}
		segs[k] = append(segs[k], j)
	}
	// iterate in a fixed order
	for i := range m.Lines {
		for f := 0; f < 2; f++ {
			k := lineSide{i, f}
			if !want[k] {
				continue
			}
			ix1, iy1, ix2, iy2 := m.xy(i)
			x1, y1, x2, y2 := float64(ix1), float64(iy1), float64(ix2), float64(iy2)
			if f == 1 {
				x1, y1, x2, y2 = x2, y2, x1, y1
			}
			js := segs[k]
			tol := 0.01
			if b.Fmt != "x" && b.Fmt != "z" {
				// every split rounds to whole units, pieces are split further
				tol = 1 + float64(len(js)-1)
			}
			if len(js) == 0 {
				return 0, fmt.Errorf("side %d of linedef %d (%g,%g)-(%g,%g) got no seg", f, i, x1, y1, x2, y2)
			}
			splits += len(js) - 1
			L := math.Hypot(x2-x1, y2-y1)
			along := func(v int) float64 { return ((b.X[v]-x1)*(x2-x1) + (b.Y[v]-y1)*(y2-y1)) / L }
			away := func(v int) float64 { return math.Abs((b.X[v]-x1)*(y2-y1)-(b.Y[v]-y1)*(x2-x1)) / L }
			sort.Slice(js, func(p, q int) bool { return along(b.Segs[js[p]].V1) < along(b.Segs[js[q]].V1) })
			cx, cy := x1, y1
			for _, j := range js {
				s := &b.Segs[j]
				if b.X[s.V1] != cx || b.Y[s.V1] != cy {
					return 0, fmt.Errorf("segs of side %d of linedef %d (%g,%g)-(%g,%g) leave a gap or overlap: seg %d starts at (%g,%g) where (%g,%g) is expected", f, i, x1, y1, x2, y2, j, b.X[s.V1], b.Y[s.V1], cx, cy)
				}
				if along(s.V2) <= along(s.V1) {
					return 0, fmt.Errorf("seg %d of side %d of linedef %d runs backwards", j, f, i)
				}
				maxDev(tolName(b.Fmt, "away"), away(s.V2)/tol)
				if away(s.V2) > tol {
					return 0, fmt.Errorf("seg %d of side %d of linedef %d ends %.3f units off its line", j, f, i, away(s.V2))
				}
				cx, cy = b.X[s.V2], b.Y[s.V2]
			}
			if cx != x2 || cy != y2 {
				return 0, fmt.Errorf("segs of side %d of linedef %d end at (%g,%g), the line at (%g,%g)", f, i, cx, cy, x2, y2)
			}
		}
	}
	return splits, nil
}

func tolName(f, s string) string { return s + "/" + f }
