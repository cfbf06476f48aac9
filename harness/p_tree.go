package main

import (
	"fmt"
	"math"
)

// C21: multi-tree. The documented order of trees: no protected line split, fewest subsectors, then the
// smallest difference between the heights of the two subtrees of the root, then
// the smallest height, then the fewest segs, then the earlier linedef.

type treeKey struct{ bad, ss, diff, height, segs int }

func (k treeKey) less(o treeKey) bool {
	if k.bad != o.bad {
		return k.bad < o.bad
	}
	if k.ss != o.ss {
		return k.ss < o.ss
	}
	if k.diff != o.diff {
		return k.diff < o.diff
	}
	if k.height != o.height {
		return k.height < o.height
	}
	return k.segs < o.segs
}

func (b *BSP) treeKey(prot map[lineSide]bool) treeKey {
	k := treeKey{ss: len(b.First), segs: len(b.Segs)}
	seen := map[lineSide]bool{}
	for j := range b.Segs {
		ls := lineSide{b.Segs[j].Line, b.Segs[j].Flip}
		if prot[ls] && seen[ls] {
			k.bad = 1
		}
		seen[ls] = true
	}
	if len(b.Nodes) == 0 {
		return k
	}
	var h func(i int) int
	h = func(i int) int {
		r := 0
		for s := 0; s < 2; s++ {
			if !b.Nodes[i].Leaf[s] {
				r = max(r, h(b.Nodes[i].Child[s]))
			}
		}
		return r + 1
	}
	root := &b.Nodes[len(b.Nodes)-1]
	var side [2]int
	for s := 0; s < 2; s++ {
		if !root.Leaf[s] {
			side[s] = h(root.Child[s]) + 1
		}
	}
	k.height = max(side[0], side[1])
	k.diff = side[0] - side[1]
	if k.diff < 0 {
		k.diff = -k.diff
	}
	return k
}

// lineKinds: rendered lines by kind, and whether lines of different kinds lie on
// one straight line.
func lineKinds(m *Map) (one, two []int, mixed bool) {
	want := rendered(m)
	for i := range m.Lines {
		f, b := want[lineSide{i, 0}], want[lineSide{i, 1}]
		if f && b {
			two = append(two, i)
		} else if f || b {
			one = append(one, i)
		}
	}
	for _, i := range one {
		for _, j := range two {
			if m.collinear(i, j) {
				return one, two, true
			}
		}
	}
	return one, two, false
}

func (m *Map) collinear(i, j int) bool {
	x1, y1, x2, y2 := m.xy(i)
	u1, v1, u2, v2 := m.xy(j)
	return (x2-x1)*(v1-y1) == (y2-y1)*(u1-x1) && (x2-x1)*(v2-y1) == (y2-y1)*(u2-x1)
}

type tree struct {
	args []string
	key  treeKey
	bsp  *BSP
	out  *Map
	lv   *LevelLumps
}

func (t *tree) same(o *tree) bool {
	for _, n := range []string{"NODES", "SEGS", "SSECTORS", "VERTEXES"} {
		if string(t.lv.L[n]) != string(o.lv.L[n]) {
			return false
		}
	}
	return true
}

// onRoot: the root's partition line runs along one of the lines.
func (t *tree) onRoot(m *Map, lines []int) bool {
	r := &t.bsp.Nodes[len(t.bsp.Nodes)-1]
	L := math.Hypot(float64(r.DX), float64(r.DY))
	for _, i := range lines {
		x1, y1, x2, y2 := m.xy(i)
		d := func(x, y int) float64 {
			return math.Abs(float64(r.DX)*float64(y)-float64(r.DX)*float64(r.Y)-float64(r.DY)*float64(x)+float64(r.DY)*float64(r.X)) / L
		}
		if d(x1, y1) < 1 && d(x2, y2) < 1 {
			return true
		}
	}
	return false
}

var _ = reg(&Prop{
	ID: "C21", Title: "Multi-tree keeps the best tree",
	Rule:  "a case counts when multi-tree chose between at least two different trees; distinct by options, kinds of lines and the trees' measures",
	Quick: 4000, Thorough: 60000,
	Fixed: []func(*C){runTreeLimits, runTreeLimits, runTreeLimits, runTreeLimits},
	Run: func(c *C) {
		d := c.D
		if c.Tier == "thorough" && d.Pick(300) == 299 {
			runTreeLimits(c)
			return
		}
		o := MapOpts{Tri: 30, MaxCols: pick(d, 2, 3, 4), MaxRows: pick(d, 2, 3, 4), Islands: true, Walls: d.P(40), NoFar: true}
		m := genMap(d, "MAP01", o)
		one, two, mixed := lineKinds(m)
		if len(one)+len(two) < 2 {
			c.Discard()
		}
		if d.P(30) {
			for k := d.Int(1, 5); k > 0; k-- {
				l := &m.Lines[d.Pick(len(m.Lines))]
				l.Tag, l.Action = uint16(pick(d, 900, 901, 997, 1000, 65535)), 0
			}
			c.Label("protected lines")
		}
		prot := protected(m)
		a := pick(d, -1, 0, 1, 2, 3, 4)
		p := -1
		if a == 2 || a == 4 {
			p = d.Int(-1, 2)
		}
		f := pick(d, "", "v", "d", "x", "z", "V", "D", "X", "Z")
		extra := []string{"-d", "-r-", "-b-"}
		if d.P(20) {
			extra = append(extra, pick(d, "--stknode=1", "--sidecache=2", "--speedtree=0", "--speedtree=1", "--ableist", "-nt=1", "-nt=3"))
		}
		in := c.Write("in.wad", (&Wad{Lumps: m.Lumps()}).Bytes(nil))
		build := func(mt, roots int) *tree {
			no := nodeOpts{A: a, P: p, M: mt, C: f, Extra: extra}
			args := no.args()
			if roots > 0 {
				args = append(args, fmt.Sprintf("--roots=%d", roots))
			}
			out := c.Path("out.wad")
			r := c.must(append(append([]string{}, args...), in, "-o", out)...)
			b := c.load(m, out, r)
			bsp := b.decode(c)
			if bsp.Fmt == "empty" {
				c.Discard()
			}
			return &tree{args, bsp.treeKey(prot), bsp, b.Out, b.Lv}
		}
		t0 := build(0, 0)
		if len(t0.bsp.Nodes) == 0 {
			c.Discard()
		}
		t1, t2, t3 := build(1, 0), build(2, 0), build(3, 0)
		if len(one) > 0 && !t1.onRoot(m, one) {
			c.Failf("kind: %v: the root's partition line does not run along a one-sided line", t1.args)
		}
		if len(two) > 0 && !t2.onRoot(m, two) {
			c.Failf("kind: %v: the root's partition line does not run along a two-sided line", t2.args)
		}
		if t0.bsp.Fmt == t3.bsp.Fmt && t0.key.less(t3.key) {
			c.Failf("worse: %v gives %v, the tree without multi-tree is better: %v", t3.args, t3.key, t0.key)
		}
		var want []*tree
		if len(one) > 0 {
			want = append(want, t1)
		}
		if len(two) > 0 {
			want = append(want, t2)
		}
		if !mixed {
			best := want[0]
			for _, t := range want[1:] {
				if t.key.less(best.key) {
					best = t
				}
			}
			ok := false
			for _, t := range want {
				ok = ok || t.key == best.key && t.same(t3)
			}
			if !ok {
				c.Failf("choice: m=3 gives %v, m=1 %v (%d lines), m=2 %v (%d lines): not the better one", t3.key, t1.key, len(one), t2.key, len(two))
			}
			c.Label("kinds apart")
		}
		if len(one) == 0 && !t1.same(t3) || len(two) == 0 && !t2.same(t3) {
			c.Failf("kind: without lines of the kind asked for every line is to be tried")
		}
		// the N best roots: more of them never make it worse
		mt := d.Int(1, 3)
		var prev *tree
		n, better := 1, 0
		for i := 0; i < 4; i++ {
			t := build(mt, n)
			if prev != nil && !t.same(prev) {
				if !t.key.less(prev.key) {
					c.Failf("roots: %v gives %v, which is not better than %v from fewer roots, and differs", t.args, t.key, prev.key)
				}
				better++
			}
			kind := append(append([]int{}, one...), two...)
			if mt == 1 && len(one) > 0 {
				kind = one
			}
			if mt == 2 && len(two) > 0 {
				kind = two
			}
			if !t.onRoot(m, kind) {
				c.Failf("kind: %v: the root's partition line does not run along a line of the kind", t.args)
			}
			prev = t
			n += d.Int(1, 1+n)
		}
		// slivers may come out differently along the other side of a line
		if d.P(50) && m.clearance() >= 4 {
			t, full := build(mt, 5000), []*tree{t1, t2, t3}[mt-1]
			if t.key != full.key {
				c.Failf("roots: %v tries every line and gives %v, %v gives %v", t.args, t.key, full.args, full.key)
			}
			c.Label("as many roots as lines")
		}
		c.Label("format " + t0.bsp.Fmt)
		if t0.key.bad > t3.key.bad {
			c.Label("protected lines split without multi-tree only")
		}
		if better > 0 {
			c.Label("more roots gave a better tree")
		}
		if t3.key != t0.key || t1.key != t2.key || better > 0 {
			c.NonTrivial(fmt.Sprint(t3.args, t0.key, t1.key, t2.key, t3.key, prev.key, len(one), len(two)))
			c.Sample("%s | %v | without %v, m=1 %v, m=2 %v, m=3 %v", m.describe(), t3.args, t0.key, t1.key, t2.key, t3.key)
		}
	},
})

// runTreeLimits: maps with about as many segs as the vanilla format has room
// for: a tree that fits is chosen over better ones that do not. A few pillars
// make the trees differ, rooms with walls of many pieces bring the number of
// segs to the limit.
func runTreeLimits(c *C) {
	d := c.D
	limit := 32768
	if d.P(12) {
		limit = 65536
	}
	inner, tilt, n := d.P(50), d.Int(3, 14), d.Int(4, 8)
	seed := 0
	prot := d.Int(0, 8) // protected lines
	walls := pick(d, 16, 24, 32)
	wide := d.P(50)               // the rooms are beside or above the pillars
	gen := func(total int) *Map { // segs of walls, about
		b := &mapBuilder{m: &Map{Name: "MAP01"}, d: d, vid: map[V]int{}}
		m := b.m
		out := b.sector()
		s := b.side(out)
		in := -1
		if inner {
			in = b.side(b.sector())
		}
		r := &rng{uint64(seed)}
		h := n*32 + 40
		for i := 0; i < n*n; i++ {
			cx, cy := -h+i%n*64+72, -h+i/n*64+72
			q := func(v int) int { return v + r.Intn(2*tilt+1) - tilt }
			p := []V{{q(cx - 20), q(cy - 20)}, {q(cx + 20), q(cy - 20)}, {q(cx + 20), q(cy + 20)}, {q(cx - 20), q(cy + 20)}}
			v0 := len(m.Verts)
			m.Verts = append(m.Verts, p...)
			for k := range p {
				l := Line{V1: v0 + k, V2: v0 + (k+1)%4, Flags: mlImpassable, Front: s, Back: -1}
				if inner {
					l.Flags, l.Back = mlTwoSided, in
				}
				m.Lines = append(m.Lines, l)
			}
		}
		for k := 0; k < prot; k++ {
			m.Lines[r.Intn(len(m.Lines))].Tag = 900
		}
		p := []V{{-h, -h}, {-h, h}, {h, h}, {h, -h}}
		for i := range p {
			b.line(b.v(p[i].X, p[i].Y), b.v(p[(i+1)%4].X, p[(i+1)%4].Y), out, -1, false)
		}
		// a stack of rooms, walls between them in many pieces
		room := [2]int{b.side(b.sector()), b.side(b.sector())}
		per := total / 2 / walls
		const w = 16000
		x0, y0 := -w/2, h+64
		if wide {
			x0, y0 = h+64, -walls*32
		}
		add := func(x1, y1, x2, y2, r, l int) {
			f := uint16(mlTwoSided)
			if l < 0 {
				f = mlImpassable
			}
			m.Lines = append(m.Lines, Line{V1: b.v(x1, y1), V2: b.v(x2, y2), Flags: f, Front: r, Back: l})
		}
		for k := 0; k <= walls+1; k++ {
			y := y0 + k*64
			if k <= walls {
				add(x0, y, x0, y+64, room[k%2], -1)
				add(x0+w, y+64, x0+w, y, room[k%2], -1)
			}
			if k == 0 {
				add(x0+w, y, x0, y, room[0], -1)
				continue
			}
			if k > walls {
				add(x0, y, x0+w, y, room[walls%2], -1)
				continue
			}
			pieces := per
			if k <= (total/2)%walls {
				pieces++
			}
			for i := 0; i < pieces; i++ {
				add(x0+i*w/pieces, y, x0+(i+1)*w/pieces, y, room[(k-1)%2], room[k%2])
			}
		}
		m.Things = []Thing{{Type: 1, Flags: 7, X: int16(-h + 10), Y: int16(-h + 10)}}
		return m
	}
	mode := pick(d, 3, 2-b2i(!inner))
	common := []string{"-r-", "-b-", "-d", fmt.Sprintf("--detailnodes=%d", d.Int(1, 2)), fmt.Sprintf("-na=%d", pick(d, 0, 0, 1, 4))}
	var m *Map
	var over func(t *tree, limit int) int
	run := func(f string, roots int) *tree {
		args := append(append([]string{}, common...), "-nc="+f, fmt.Sprintf("-nm=%d", mode), fmt.Sprintf("--roots=%d", roots))
		b := c.buildMap(m, args...)
		bsp := b.decode(c)
		return &tree{args, bsp.treeKey(protected(m)), bsp, b.Out, b.Lv}
	}
	// by how much a tree exceeds the limit
	over = func(t *tree, limit int) int {
		M := 0
		for _, k := range t.bsp.Count {
			M = max(M, k)
		}
		return max(len(t.bsp.Segs)-M-(limit-1), len(t.bsp.X)-limit)
	}
	fits := func(t *tree, limit int) bool {
		return t.bsp.Fmt != "empty" && len(t.bsp.First) < 32768 && over(t, limit) <= 0
	}
	// roots with which the best tree is better than before but larger, in small
	K := 3
search:
	for try := 0; try < 30; try++ {
		seed = d.Int(0, 1<<20)
		m = gen(4 * walls)
		prev := run("d", 1)
		last := run("d", 8)
		if !last.key.less(prev.key) || prev.key.segs >= last.key.segs {
			continue
		}
		for k := 2; k <= 8; k++ {
			t := run("d", k)
			if t.key.less(prev.key) && prev.key.segs < t.key.segs {
				c.Label("a better tree has more segs in small")
				K = k
				break search
			}
			prev = t
		}
	}
	total := limit + limit/(walls-1)
	for try := 0; try < 4; try++ {
		m = gen(total)
		lo, hi := over(run("d", K-1), limit), over(run("d", K), limit)
		if lo < hi && try < 2 {
			c.Label("a better tree has more segs")
		}
		if lo <= 0 && hi > 0 || lo >= hi && lo > -20 && lo < 20 {
			break
		}
		// moving M takes one wall's share out again
		by := (lo + hi + 1) / 2 * walls / (walls - 1)
		total -= (by + b2i(by > 0)) &^ 1
	}
	c.Labelf("limit %d", limit)
	best := run("d", K)
	var prev map[string]*tree
	ks := []int{K - 1, K}
	if K > 2 && d.P(10) {
		ks = []int{1, K - 1, K}
	}
	for _, k := range ks {
		v, V := run("v", k), run("V", k)
		for _, t := range []*tree{v, V} {
			if t.bsp.Fmt == "empty" {
				continue
			}
			err := t.bsp.checkStructure(t.out)
			if err != nil {
				c.Failf("structure: %v: %v", t.args, err)
			}
			if !fits(t, 65536) {
				c.Failf("limits: %v: nodes do not fit the vanilla format but are there", t.args)
			}
		}
		if (v.bsp.Fmt == "empty") != (V.bsp.Fmt == "empty") {
			c.Failf("limits: %v gives nodes %s, %v %s", v.args, v.bsp.Fmt, V.args, V.bsp.Fmt)
		}
		if !fits(v, 32768) && !v.same(V) {
			c.Failf("limits: no tree fits signed limits, but results of %v and %v differ", v.args, V.args)
		}
		if k == K {
			for _, x := range []struct {
				t     *tree
				limit int
			}{{v, 32768}, {V, 65536}} {
				if fits(best, x.limit) {
					if err := sameTree(best.bsp, x.t.bsp, true); err != nil {
						c.Failf("choice: the best tree fits, but %v gives another: %v", x.t.args, err)
					}
				} else if fits(x.t, x.limit) {
					c.Labelf("fits %d although the best tree doesn't", x.limit)
					if x.t.key.less(best.key) {
						c.Failf("choice: %v gives %v, better than the best of the same trees in %v: %v", x.t.args, x.t.key, best.args, best.key)
					}
				}
			}
		}
		for f, p := range prev {
			t, lim := v, 32768
			if f == "V" {
				t, lim = V, 65536
			}
			if !fits(p, lim) {
				continue
			}
			if !fits(t, lim) {
				c.Failf("choice: %v gives a tree that fits %d, %v, which tries more, one that doesn't (%d segs, %d vertices)", p.args, lim, t.args, len(t.bsp.Segs), len(t.bsp.X))
			}
			if p.key.less(t.key) {
				c.Failf("choice: %v gives %v, %v, which tries more, %v", p.args, p.key, t.args, t.key)
			}
		}
		prev = map[string]*tree{"v": v, "V": V}
	}
	c.NonTrivial(fmt.Sprint(limit, inner, mode, K, len(best.bsp.Segs), len(best.bsp.X)))
	c.Sample("%s | %v | %d over, chosen %v", m.describe(), best.args, over(best, limit), prev["v"].key)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
