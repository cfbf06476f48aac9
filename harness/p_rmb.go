package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
)

// C15: effects asked for in an RMB options file, against a model of what the
// RMB manual says about them. The table they start from is the one the tool
// builds itself for the same map (with the same groups, and with the lines
// that LINE makes solid really solid), so that only the effects are judged.

type rmbCmd struct {
	kind      string
	inv, band bool
	d         [2]int
	l         [2][]int
	s         []string // NOPROCESS
}

type rmbFile struct {
	global []rmbCmd
	own    map[string][]rmbCmd
	noise  []rmbCmd // for levels that are not in the wad
}

// rmbText writes the commands the way people do: shortened, lower case,
// comments, one or several sections for a level.
func rmbText(d *D, f *rmbFile, names []string, eol string) string {
	var sb strings.Builder
	word := func(full string, short int) string {
		if d.P(25) {
			full = full[:d.Int(short, len(full))]
		}
		if d.P(20) {
			full = strings.ToLower(full)
		}
		return full
	}
	list := func(l []int, last bool) string {
		var p []string
		for _, v := range l {
			p = append(p, fmt.Sprint(v))
		}
		sep := pick(d, " ", " ", ", ", ",")
		s := strings.Join(p, sep)
		bare := len(l) == 1 || last
		if !bare || d.P(60) {
			s = pick(d, "(", "( ") + s + pick(d, ")", " )")
		}
		return s
	}
	shortest := map[string]int{"BLIND": 3, "SAFE": 1, "INCLUDE": 3, "EXCLUDE": 2, "GROUP": 1, "LENGTH": 3, "DISTANCE": 2, "LINE": 2, "REPORT": 2, "VORTEX": 1, "ASSERT": 1, "NOPROCESS": 3, "INVERT": 3}
	one := func(k rmbCmd) {
		if d.P(10) {
			sb.WriteString(pick(d, "", "  ", "# remark", "#BLIND 0 1") + eol)
		}
		s := pick(d, "", "", "", "  ")
		if k.inv {
			s += word("INVERT", 3) + " "
		}
		if k.band {
			b := "BAND"
			if d.P(20) {
				b = "band"
			}
			s += b + " " + k.kind
		} else {
			s += word(k.kind, shortest[k.kind])
		}
		bracketEnd := true
		switch k.kind {
		case "BLIND", "SAFE":
			if k.band {
				s += fmt.Sprintf(" %d %d ", k.d[0], k.d[1])
			} else {
				s += fmt.Sprintf(" %d ", k.d[0])
			}
			t := list(k.l[0], true)
			bracketEnd = strings.HasSuffix(t, ")")
			s += t
		case "GROUP":
			t := list(k.l[0], true)
			bracketEnd = strings.HasSuffix(t, ")")
			s += fmt.Sprintf(" %d %s", k.d[0], t)
		case "INCLUDE", "EXCLUDE", "VORTEX":
			t := list(k.l[1], true)
			bracketEnd = strings.HasSuffix(t, ")")
			s += " " + list(k.l[0], false) + " " + t
		case "ASSERT":
			s += " " + list(k.l[0], false) + " " + list(k.l[1], false) + fmt.Sprintf(" %d", k.d[0])
		case "NOPROCESS":
			for _, a := range k.s {
				if strings.ContainsAny(a, " ") || d.P(30) {
					a = `"` + a + `"`
				}
				s += " " + a
			}
		default:
			s += fmt.Sprintf(" %d", k.d[0])
		}
		if bracketEnd && d.P(10) {
			s += " # BLIND 0 0"
		}
		sb.WriteString(s + eol)
	}
	for _, k := range f.global {
		one(k)
	}
	header := func(n string) {
		if d.P(25) {
			n = "MAP " + n
		}
		if d.P(15) {
			n = strings.ToLower(n)
		}
		sb.WriteString(n + eol)
	}
	if len(f.noise) > 0 && d.P(50) {
		header(pick(d, "MAP31", "E4M9"))
		for _, k := range f.noise {
			one(k)
		}
	}
	for _, n := range names {
		if len(f.own[n]) == 0 {
			continue
		}
		header(n)
		for _, k := range f.own[n] {
			if d.P(7) {
				header("MAP32")
				for _, k := range f.noise {
					one(k)
				}
				header(n)
			}
			one(k)
		}
	}
	return sb.String()
}

const (
	rmbSee = iota
	rmbHide
	rmbFree // what the manual says leaves it open
)

type rmbModel struct {
	n      int
	t      []byte
	parent []int // group of a sector
	dist   []int // in sectors; -1: no way
	dists  bool  // distances matter
	doors  int   // lines between sectors
}

const rmbFar = 1 << 20

func rmbGroups(n int, cmds []rmbCmd) []int {
	parent := make([]int, n)
	legal := make([]bool, n)
	for i := range parent {
		parent[i], legal[i] = i, true
	}
	for _, k := range cmds {
		if k.kind != "GROUP" || k.d[0] >= n || !legal[k.d[0]] {
			continue
		}
		for _, v := range k.l[0] {
			if v < n && v != k.d[0] && legal[v] {
				for i := range parent {
					if parent[i] == v {
						parent[i] = k.d[0]
					}
				}
				legal[v] = false
			}
		}
	}
	return parent
}

func newRmbModel(m *Map, base rejectLump, cmds []rmbCmd) *rmbModel {
	n := base.n
	r := &rmbModel{n: n, t: make([]byte, n*n), parent: rmbGroups(n, cmds), dist: make([]int, n*n)}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if base.hidden(i, j) {
				r.t[i*n+j] = rmbHide
			}
		}
	}
	adj := make([][]int, n)
	for i := range m.Lines {
		if m.between(i) {
			r.doors++
			a, b := r.parent[m.front(i)], r.parent[m.back(i)]
			if a != b {
				adj[a], adj[b] = append(adj[a], b), append(adj[b], a)
			}
		}
	}
	for s := 0; s < n; s++ {
		row := make([]int, n)
		for i := range row {
			row[i] = rmbFar
		}
		if r.parent[s] != s {
			continue
		}
		row[s] = 0
		for q := []int{s}; len(q) > 0; q = q[1:] {
			for _, a := range adj[q[0]] {
				if row[a] == rmbFar {
					row[a] = row[q[0]] + 1
					q = append(q, a)
				}
			}
		}
		copy(r.dist[s*n:], row)
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			r.dist[i*n+j] = r.dist[r.parent[i]*n+r.parent[j]]
		}
	}
	for _, k := range cmds {
		switch k.kind {
		case "BLIND", "SAFE":
			r.dists = r.dists || k.band || k.d[0] > 1
		case "LENGTH", "REPORT":
			r.dists = true
		}
	}
	return r
}

func (r *rmbModel) members(s int) (o []int) {
	for i, p := range r.parent {
		if p == r.parent[s] {
			o = append(o, i)
		}
	}
	return
}

// named: what a sector number stands for in INCLUDE, EXCLUDE and VORTEX, which
// are for single sectors too.
func (r *rmbModel) named(s int) []int {
	if r.parent[s] == s {
		return r.members(s)
	}
	return []int{s}
}

type rmbReach struct {
	kind   int // 1 normal, 2 inverse, 3 both; 4 band, 7 inverse band
	lo, hi int
}

func (b rmbReach) hides(dist int) byte {
	y := false
	switch b.kind {
	case 1:
		y = dist >= b.lo
	case 2:
		y = dist < b.hi
	case 3:
		if b.lo == b.hi {
			return rmbFree
		}
		if b.lo < b.hi {
			y = dist >= b.lo && dist < b.hi
		} else {
			y = dist < b.hi || dist >= b.lo
		}
	case 4:
		y = dist >= b.lo && dist < b.hi
	case 7:
		y = dist < b.lo || dist >= b.hi
	}
	if y {
		return rmbHide
	}
	return rmbSee
}

// apply works out what the table should be.
func (r *rmbModel) apply(cmds []rmbCmd) {
	n := r.n
	length := -1
	var own [2][]rmbReach
	own[0], own[1] = make([]rmbReach, n), make([]rmbReach, n)
	for _, k := range cmds {
		switch k.kind {
		case "LENGTH":
			length = k.d[0]
		case "BLIND", "SAFE":
			t := own[0]
			if k.kind == "SAFE" {
				t = own[1]
			}
			for _, s := range k.l[0] {
				if s >= n {
					continue
				}
				for _, i := range r.members(s) {
					b := &t[i]
					switch {
					case k.band && k.inv:
						*b = rmbReach{7, k.d[0], k.d[1]}
					case k.band:
						*b = rmbReach{4, k.d[0], k.d[1]}
					case b.kind >= 4:
					case k.inv:
						b.kind |= 2
						b.hi = k.d[0]
					default:
						b.kind |= 1
						b.lo = k.d[0]
					}
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			p := &r.t[i*n+j]
			dist := r.dist[i*n+j]
			if r.dists && dist == rmbFar && r.doors > 0 { // otherwise, all is visible by default
				*p = rmbHide
			}
			if length >= 0 && r.doors > 0 && dist > length && *p == rmbSee {
				*p = rmbHide
				if dist == 1 {
					*p = rmbFree
				}
			}
			for _, h := range [2]byte{own[0][i].hides(dist), own[1][j].hides(dist)} {
				if h == rmbHide || h == rmbFree && *p == rmbSee {
					*p = h
				}
			}
		}
	}
	r.vortexes(cmds)
	for _, what := range []string{"INCLUDE", "EXCLUDE"} {
		for _, k := range cmds {
			if k.kind != what {
				continue
			}
			for _, a := range k.l[0] {
				for _, b := range k.l[1] {
					if a >= n || b >= n {
						continue
					}
					for _, i := range r.named(a) {
						for _, j := range r.named(b) {
							r.t[i*n+j] = rmbSee
							if what == "EXCLUDE" {
								r.t[i*n+j] = rmbHide
							}
						}
					}
				}
			}
		}
	}
}

// vortexes: a pair that the manual says becomes visible must be; what follows
// only from applying its rules again and again may be.
func (r *rmbModel) vortexes(cmds []rmbCmd) {
	n := r.n
	var v [][2][]int
	for _, k := range cmds {
		if k.kind != "VORTEX" {
			continue
		}
		var x [2][]int
		for s := range x {
			for _, a := range k.l[s] {
				if a < n {
					x[s] = append(x[s], a)
				}
			}
		}
		v = append(v, x)
	}
	if len(v) == 0 {
		return
	}
	step := func(see func(i, j int) bool, set func(i, j int), far bool) {
		sees := func(a, b []int) bool {
			for _, i := range a {
				for _, j := range b {
					if see(i, j) {
						return true
					}
				}
			}
			return false
		}
		join := func(a, b []int) {
			for _, i := range a {
				for _, j := range b {
					for _, i := range r.named(i) {
						for _, j := range r.named(j) {
							set(i, j)
						}
					}
				}
			}
		}
		for p, x := range v {
			join(x[0], x[1])
			join(x[1], x[0])
			for q, y := range v {
				if p == q {
					continue
				}
				for s := range x {
					for t := range y {
						if sees(x[s], y[t]) {
							join(x[s], y[1-t])
							join(x[1-s], y[t])
							join(x[1-s], y[1-t])
							if far { // "conduits across lists, but not within the list"
								join(x[s], y[t])
							}
						}
					}
				}
			}
			for s := range x {
				for i := 0; i < n; i++ {
					if !sees([]int{i}, x[s]) {
						continue
					}
					for j := 0; j < n; j++ {
						if sees(x[1-s], []int{j}) {
							set(i, j)
							if far {
								for _, a := range r.members(i) {
									for _, b := range r.members(j) {
										set(a, b)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	start := append([]byte(nil), r.t...)
	low := append([]byte(nil), r.t...)
	step(func(i, j int) bool { return start[i*n+j] == rmbSee }, func(i, j int) { low[i*n+j] = rmbSee }, false)
	high := append([]byte(nil), r.t...)
	for more := true; more; {
		more = false
		step(func(i, j int) bool { return high[i*n+j] != rmbHide }, func(i, j int) {
			if high[i*n+j] == rmbHide {
				high[i*n+j] = rmbFree
				more = true
			}
		}, true)
	}
	for i := range r.t {
		if low[i] == rmbSee {
			r.t[i] = rmbSee
		} else {
			r.t[i] = high[i]
		}
	}
}

func (r *rmbModel) check(c *C, q rejectLump, what string, clear, sliver func(i, j int) bool) (free int) {
	for i := 0; i < r.n; i++ {
		for j := 0; j < r.n; j++ {
			switch r.t[i*r.n+j] {
			case rmbFree:
				free++
			case rmbSee:
				if q.hidden(i, j) {
					if !clear(i, j) {
						c.Discard()
					}
					c.Failf("hidden: sector %d should see sector %d (%d sectors away), but is hidden from it: %s", i, j, r.dist[i*r.n+j], what)
				}
			case rmbHide:
				if !q.hidden(i, j) {
					if sliver(i, j) {
						c.Discard()
					}
					c.Failf("visible: sector %d should not see sector %d (%d sectors away), but REJECT says it might: %s", i, j, r.dist[i*r.n+j], what)
				}
			}
		}
	}
	return
}

func genSectorList(d *D, n, most int) []int {
	l := []int{}
	for k := d.Int(1, most); k > 0; k-- {
		if d.P(3) {
			l = append(l, n+d.Int(0, 3)) // there is no such sector
		} else {
			l = append(l, d.Pick(n))
		}
	}
	return l
}

func genRmbGroups(d *D, n int) (o []rmbCmd) {
	for k := d.Int(1, 3); k > 0; k-- {
		o = append(o, rmbCmd{kind: "GROUP", d: [2]int{d.Pick(n)}, l: [2][]int{genSectorList(d, n, 4)}})
	}
	return
}

// genReaches: BLIND and SAFE; simple ones only know the distances 0 and 1.
func genReach(d *D, n int, simple bool) rmbCmd {
	k := rmbCmd{kind: pick(d, "BLIND", "SAFE"), inv: d.P(35)}
	k.l[0] = genSectorList(d, n, pick(d, 1, 3, 8))
	if simple {
		k.d[0] = d.Int(0, 1)
		return k
	}
	k.band = d.P(30)
	k.d[0], k.d[1] = d.Int(0, 5), d.Int(0, 7)
	if k.band && k.d[0] > k.d[1] {
		k.d[0], k.d[1] = k.d[1], k.d[0]
	}
	return k
}

type rmbCase struct {
	maps  []*Map
	names []string
	f     rmbFile
	eol   string
}

func (rc *rmbCase) cmds(name string, pickKind func(k string) bool) (o []rmbCmd) {
	for _, k := range append(append([]rmbCmd{}, rc.f.global...), rc.f.own[name]...) {
		if pickKind == nil || pickKind(k.kind) {
			o = append(o, k)
		}
	}
	return
}

func (c *C) rmbRun(maps []*Map, rej string, args []string, extra ...Lump) (*Res, func(m *Map) *built) {
	w := &Wad{}
	for _, m := range maps {
		w.Lumps = append(w.Lumps, m.Lumps()...)
	}
	in := c.Write("in.wad", w.Bytes(nil))
	os.Remove(c.Path("in.rej"))
	os.Remove(c.Path("in.rpt"))
	out := c.Path("out.wad")
	a := append([]string{"-n-", "-b-"}, args...)
	if rej != "" {
		c.Write("in.rej", []byte(rej))
		a = append(a, "-rm")
	}
	r := c.must(append(a, in, "-o", out)...)
	return r, func(m *Map) *built { return c.load(m, out, r) }
}

// line: how the effects read, for messages.
func rmbList(cmds []rmbCmd) string {
	var p []string
	for _, k := range cmds {
		s := k.kind
		if k.band {
			s = "BAND " + s
		}
		if k.inv {
			s = "INVERT " + s
		}
		switch k.kind {
		case "BLIND", "SAFE":
			if k.band {
				s += fmt.Sprint(" ", k.d[0], " ", k.d[1], " ", k.l[0])
			} else {
				s += fmt.Sprint(" ", k.d[0], " ", k.l[0])
			}
		case "GROUP":
			s += fmt.Sprint(" ", k.d[0], " ", k.l[0])
		case "NOPROCESS":
			s += fmt.Sprint(" ", k.s)
		case "ASSERT":
			s += fmt.Sprint(" ", k.l[0], " ", k.l[1], " ", k.d[0])
		case "INCLUDE", "EXCLUDE", "VORTEX":
			s += fmt.Sprint(" ", k.l[0], " ", k.l[1])
		default:
			s += fmt.Sprint(" ", k.d[0])
		}
		p = append(p, s)
	}
	return strings.Join(p, "; ")
}

func runRmbEffects(c *C) {
	selfref := c.P(20)
	dists := !selfref && c.P(60)
	nm := 1
	if c.P(15) {
		nm = 2
	}
	rc := &rmbCase{eol: pick(c.D, "\n", "\n", "\r\n")}
	rc.f.own = map[string][]rmbCmd{}
	for i := 0; i < nm; i++ {
		m := genRejectMap(c.D, selfref)
		m.Name = []string{pick(c.D, "MAP01", "E1M1"), "MAP07"}[i]
		rc.maps = append(rc.maps, m)
		rc.names = append(rc.names, m.Name)
	}
	n := len(rc.maps[0].Sectors)
	gen := func(n int) (o []rmbCmd) {
		for k := c.Int(1, 6); k > 0; k-- {
			switch w := c.Pick(12); {
			case w < 5:
				o = append(o, genReach(c.D, n, !dists))
			case w < 7:
				o = append(o, rmbCmd{kind: pick(c.D, "INCLUDE", "EXCLUDE"), l: [2][]int{genSectorList(c.D, n, 4), genSectorList(c.D, n, 4)}})
			case w < 9:
				for again := true; again; again = c.P(50) {
					v := rmbCmd{kind: "VORTEX", l: [2][]int{genSectorList(c.D, n, 2), genSectorList(c.D, n, 2)}}
					o = append(o, v)
					if c.P(50) { // and one of them sees little or is seen little
						k := genReach(c.D, n, !dists)
						k.l[0] = v.l[c.Pick(2)]
						o = append(o, k)
					}
				}
			case w < 10 && dists:
				o = append(o, rmbCmd{kind: "LENGTH", d: [2]int{c.Int(0, 6)}})
			case w < 11 && dists:
				o = append(o, rmbCmd{kind: "REPORT", d: [2]int{c.Int(0, 5)}})
			}
		}
		return
	}
	grouped := c.P(30)
	if c.P(40) {
		rc.f.global = gen(n)
		if grouped && c.P(30) {
			rc.f.global = append(rc.f.global, genRmbGroups(c.D, n)...)
		}
	}
	lines := map[string][]int{}
	for _, m := range rc.maps {
		n := len(m.Sectors)
		o := gen(n)
		if grouped && c.P(80) {
			o = append(o, genRmbGroups(c.D, n)...)
		}
		if !selfref && c.P(20) {
			for i := range m.Lines {
				if m.between(i) && c.P(15) {
					lines[m.Name] = append(lines[m.Name], i)
					o = append(o, rmbCmd{kind: "LINE", d: [2]int{i}})
				}
			}
		}
		c.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
		rc.f.own[m.Name] = o
	}
	if c.P(30) {
		rc.f.noise = append(gen(n), rmbCmd{kind: "BLIND", l: [2][]int{{0, 1, 2}}})
	}
	var args []string
	rs := c.Int(0, 3)
	if dists || len(lines) > 0 {
		rs = c.Int(2, 3)
	}
	args = append(args, fmt.Sprintf("-rs=%d", rs))
	if c.P(20) {
		args = append(args, "-rg-")
	}
	if c.P(30) {
		args = append(args, "--nosymm")
	}

	_, get := c.rmbRun(rc.maps, rmbText(c.D, &rc.f, rc.names, rc.eol), args)
	var got []rejectLump
	for _, m := range rc.maps {
		got = append(got, c.getReject(get(m)))
	}
	rpt, _ := os.ReadFile(c.Path("in.rpt"))

	// the tables without effects
	var solid []*Map
	slow := map[string]bool{}
	base := &rmbFile{own: map[string][]rmbCmd{}}
	isGroup := func(k string) bool { return k == "GROUP" }
	for _, k := range rc.f.global {
		if isGroup(k.kind) {
			base.global = append(base.global, k)
		}
	}
	for _, m := range rc.maps {
		m2 := m.clone()
		for _, i := range lines[m.Name] {
			m2.Lines[i].Flags &^= mlTwoSided
		}
		solid = append(solid, m2)
		for _, k := range rc.f.own[m.Name] {
			if isGroup(k.kind) {
				base.own[m.Name] = append(base.own[m.Name], k)
			}
		}
		slow[m.Name] = len(lines[m.Name]) > 0 // the way groups are dealt with depends on there being a LINE or LENGTH
		for _, k := range append(append([]rmbCmd{}, rc.f.global...), rc.f.own[m.Name]...) {
			slow[m.Name] = slow[m.Name] || k.kind == "LENGTH"
		}
		if slow[m.Name] {
			base.own[m.Name] = append(base.own[m.Name], rmbCmd{kind: "LINE", d: [2]int{60000}})
		}
	}
	_, get = c.rmbRun(solid, rmbText(c.D, base, rc.names, "\n"), args)
	wantRpt := ""
	for i, m := range solid {
		b := c.getReject(get(m))
		all := rc.cmds(m.Name, nil)
		r := newRmbModel(m, b, all)
		r.apply(all)
		what := fmt.Sprintf("%s %v", rmbList(all), args)
		// which slivers are seen depends on the order in which lines are tested
		var v *visMap
		free := r.check(c, got[i], what, func(a, z int) bool {
			if b.hidden(a, z) || !slow[m.Name] {
				return true
			}
			if v == nil {
				v = newVis(m, false, nil, 0)
				v.cast(c.sub(), 6000, 2.2, 2.0)
			}
			for _, a := range r.members(r.parent[a]) {
				for _, z := range r.members(r.parent[z]) {
					if v.vis[a*r.n+z] {
						return true
					}
				}
			}
			return false
		}, func(a, z int) bool { return slow[m.Name] && b.hidden(a, z) })
		var reps []int
		for _, k := range rc.f.own[m.Name] {
			if k.kind == "REPORT" {
				reps = append(reps, k.d[0])
			}
		}
		if len(reps) == 0 {
			for _, k := range rc.f.global {
				if k.kind == "REPORT" {
					reps = append(reps, k.d[0])
				}
			}
		}
		for _, dist := range reps {
			c.Label("REPORT")
			wantRpt += fmt.Sprintf("# %s All sectors with LOS distance>%d are reported%s", m.Name, dist, rc.eol)
			for a := 0; a < r.n; a++ {
				for z := a + 1; z < r.n; z++ {
					if r.dist[a*r.n+z] > dist && !got[i].hidden(a, z) && !got[i].hidden(z, a) {
						wantRpt += fmt.Sprintf("%d,%d%s", a, z, rc.eol)
					}
				}
			}
		}
		diff := 0
		for a := 0; a < r.n; a++ {
			for z := 0; z < r.n; z++ {
				if got[i].hidden(a, z) != b.hidden(a, z) {
					diff++
				}
			}
		}
		for _, k := range all {
			l := k.kind
			if k.band {
				l = "BAND " + l
			}
			if k.inv {
				l = "INVERT " + l
			}
			c.Label(l)
		}
		if diff > 0 {
			c.NonTrivial(fmt.Sprint(m.describe(), what))
			c.Sample("%s | %s: %d of %d pairs changed, %d left open by the manual", m.describe(), what, diff, r.n*r.n, free)
		}
	}
	head, body, _ := strings.Cut(string(rpt), rc.eol)
	// closing remark of the file, if any
	if at := strings.LastIndex(body, "# "); at >= 0 && !strings.Contains(body[at:], "All sectors") {
		body = body[:at]
	}
	if wantRpt != body || wantRpt != "" && !strings.HasPrefix(head, "# VigilantBSP ") {
		c.Failf("report: expected %q, got %q", wantRpt, string(rpt))
	}
}

// runRmbDistance: DISTANCE, in map units.
func runRmbDistance(c *C) {
	m := genRejectMap(c.D, false)
	n := len(m.Sectors)
	limit := pick(c.D, 40, 130, 300, 600, 1200, 3000)
	dc := rmbCmd{kind: "DISTANCE", d: [2]int{limit}}
	f, g := &rmbFile{own: map[string][]rmbCmd{}}, &rmbFile{own: map[string][]rmbCmd{}}
	f.own[m.Name] = []rmbCmd{dc}
	var groups []rmbCmd
	if c.P(30) {
		groups = genRmbGroups(c.D, n)
		f.own[m.Name] = append(f.own[m.Name], groups...)
		// with an effect on no line, so that visibility is shared in groups
		g.own[m.Name] = append(append([]rmbCmd{}, groups...), rmbCmd{kind: "LINE", d: [2]int{60000}})
	}
	args := []string{fmt.Sprintf("-rs=%d", c.Int(2, 3))}
	if c.P(20) {
		args = append(args, "-rg-")
	}
	if c.P(30) {
		args = append(args, "--nosymm")
	}
	_, get := c.rmbRun([]*Map{m}, rmbText(c.D, f, []string{m.Name}, "\n"), args)
	got := c.getReject(get(m))
	_, get = c.rmbRun([]*Map{m}, rmbText(c.D, g, []string{m.Name}, "\n"), args)
	base := c.getReject(get(m))
	r := newRmbModel(m, base, groups)
	what := fmt.Sprintf("%s %v", rmbList(f.own[m.Name]), args)
	// which lines lead out of a group
	out := make([][]int, n)
	for i := range m.Lines {
		if m.between(i) {
			a, b := r.parent[m.front(i)], r.parent[m.back(i)]
			out[a] = append(out[a], i)
			if a != b {
				out[b] = append(out[b], i)
			}
		}
	}
	v := newVis(m, false, nil, 0)
	if len(v.trans) == 0 {
		c.Discard()
	}
	v.maxLen, v.group = float64(limit)-4, r.parent
	v.cast(c.sub(), 6000, 2.2, 2.0)
	near := make([]bool, n*n) // of groups
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if v.vis[i*n+j] {
				near[r.parent[i]*n+r.parent[j]] = true
			}
		}
	}
	far, cut, more := 0, 0, 0
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			a, b := r.parent[i], r.parent[j]
			dist := r.dist[i*n+j]
			switch {
			case base.hidden(i, j):
				if !got.hidden(i, j) { // slivers, see there
					more++
				}
			case dist <= 1:
				if got.hidden(i, j) {
					c.Failf("hidden: sectors %d and %d are %d sectors apart, which is nearer than what DISTANCE applies to: %s", i, j, dist, what)
				}
			default:
				least := math.Inf(1)
				for _, p := range out[a] {
					for _, q := range out[b] {
						least = min(least, m.segGap(p, q))
					}
				}
				if dist > 2 && least > float64(limit)+1 {
					far++
					if !got.hidden(i, j) {
						c.Failf("visible: sectors %d and %d are %.1f apart, but can see each other: %s", i, j, least, what)
					}
				}
				if near[a*n+b] && got.hidden(i, j) {
					c.Failf("hidden: sectors %d and %d have a sight line of less than %d, or through one sector (%.1f), but are hidden from each other: %s", i, j, limit, v.how[i*n+j], what)
				}
				if got.hidden(i, j) {
					cut++
				}
			}
		}
	}
	if more > n {
		c.Failf("visible: %d pairs of sectors become visible because of DISTANCE: %s", more, what)
	}
	c.Label("DISTANCE")
	if len(groups) > 0 {
		c.Label("DISTANCE with GROUP")
	}
	if cut > 0 {
		c.NonTrivial(fmt.Sprint(m.describe(), what))
		c.Sample("%s | %s: %d pairs too far apart, %d hidden", m.describe(), what, far, cut)
	}
}

// segGap is the least distance between two lines of a map.
func (m *Map) segGap(p, q int) float64 {
	ax, ay, bx, by := m.xy(p)
	cx, cy, dx, dy := m.xy(q)
	d := func(px, py, x1, y1, x2, y2 int) float64 {
		vx, vy := float64(x2-x1), float64(y2-y1)
		t := (float64(px-x1)*vx + float64(py-y1)*vy) / (vx*vx + vy*vy)
		t = max(0, min(1, t))
		return math.Hypot(float64(px-x1)-t*vx, float64(py-y1)-t*vy)
	}
	return min(d(ax, ay, cx, cy, dx, dy), d(bx, by, cx, cy, dx, dy), d(cx, cy, ax, ay, bx, by), d(dx, dy, ax, ay, bx, by))
}

// runRmbGroup: what GROUP alone does.
func runRmbGroup(c *C) {
	m := genRejectMap(c.D, false)
	n := len(m.Sectors)
	f := &rmbFile{own: map[string][]rmbCmd{}}
	if c.P(30) {
		f.global = genRmbGroups(c.D, n)
	}
	f.own[m.Name] = genRmbGroups(c.D, n)
	args := []string{fmt.Sprintf("-rs=%d", c.Int(2, 3))}
	if c.P(20) {
		args = append(args, "-rg-")
	}
	if c.P(30) {
		args = append(args, "--nosymm")
	}
	slow := c.P(40) // an effect that does nothing here, but needs the general method
	if slow {
		f.own[m.Name] = append(f.own[m.Name], pick(c.D, rmbCmd{kind: "DISTANCE", d: [2]int{200000}}, rmbCmd{kind: "LINE", d: [2]int{60000}}))
	}
	_, get := c.rmbRun([]*Map{m}, rmbText(c.D, f, []string{m.Name}, "\n"), args)
	got := c.getReject(get(m))
	_, get = c.rmbRun([]*Map{m}, "", args)
	base := c.getReject(get(m))
	all := append(append([]rmbCmd{}, f.global...), f.own[m.Name]...)
	r := newRmbModel(m, base, all)
	what := fmt.Sprintf("%s %v", rmbList(all), args)
	sees := make([]bool, n*n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if !base.hidden(i, j) {
				sees[r.parent[i]*n+r.parent[j]] = true
			}
		}
	}
	// whether there is something wider than a sliver between groups: those may
	// get lost depending on the order in which lines are tested
	var v *visMap
	clear := func(a, b int) bool {
		if v == nil {
			v = newVis(m, false, nil, 0)
			v.cast(c.sub(), 6000, 2.2, 2.0)
		}
		for _, i := range r.members(a) {
			for _, j := range r.members(b) {
				if v.vis[i*n+j] {
					return true
				}
			}
		}
		return false
	}
	more := 0
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if got.hidden(i, j) != base.hidden(i, j) {
				more++
			}
			a, b := r.parent[i], r.parent[j]
			if !slow {
				if got.hidden(i, j) != base.hidden(i, j) {
					c.Failf("alone: GROUP without other options should change nothing, but sector %d sees %d is now %v: %s", i, j, !got.hidden(i, j), what)
				}
				continue
			}
			if got.hidden(i, j) != got.hidden(a, b) {
				c.Failf("group: sector %d sees %d is %v, but for their groups %d and %d it is %v: %s", i, j, !got.hidden(i, j), a, b, !got.hidden(a, b), what)
			}
			if sees[a*n+b] && got.hidden(i, j) && clear(a, b) {
				c.Failf("hidden: group %d should see group %d (as some of their sectors do without GROUP), but sector %d is hidden from %d: %s", a, b, i, j, what)
			}
			if !sees[a*n+b] && !got.hidden(i, j) && os.Getenv("VB_DEBUG") == "2" {
				c.Failf("visible: %d %d groups %d %d: %s", i, j, a, b, what)
			}
		}
	}
	c.Label("GROUP alone")
	if slow {
		c.Label("GROUP alone, general method")
	}
	if base.count() > 0 {
		c.NonTrivial(fmt.Sprint(m.describe(), what))
		c.Sample("%s | %s: %d pairs changed", m.describe(), what, more)
	}
}

// runRmbSource: NOPROCESS takes the table from somewhere else.
func runRmbSource(c *C) {
	m := genRejectMap(c.D, c.P(20))
	m.Name = pick(c.D, "MAP01", "E2M3")
	n := len(m.Sectors)
	size := (n*n + 7) / 8
	sub := c.sub()
	table := func(n int) []byte {
		b := make([]byte, n)
		dens := sub.Intn(3)
		for i := range b {
			b[i] = byte(sub.Intn(256))
			for k := 0; k < dens; k++ {
				b[i] &= byte(sub.Intn(256))
			}
		}
		return b
	}
	good := table(size)
	src := c.Pick(5)
	failing := c.P(30)
	wrong := good
	var cmd rmbCmd
	cmd.kind = "NOPROCESS"
	lumps := m.Lumps()
	setReject := func(ls []Lump, b []byte) []Lump {
		o := []Lump{}
		done := false
		for _, l := range ls {
			if l.Name == "REJECT" {
				if b != nil {
					o = append(o, L("REJECT", b))
				}
				done = true
				continue
			}
			if l.Name == "BLOCKMAP" && !done && b != nil {
				o = append(o, L("REJECT", b))
				done = true
			}
			o = append(o, l)
		}
		if !done && b != nil {
			o = append(o, L("REJECT", b))
		}
		return o
	}
	why := ""
	if failing {
		switch c.Pick(3) {
		case 0:
			k := c.Int(0, size*2)
			if k == size {
				k++
			}
			wrong = table(k)
			why = fmt.Sprintf("REJECT there is of %d bytes instead of %d", k, size)
		case 1:
			wrong = nil
			why = "there is no REJECT"
		default:
			why = "no such map or wad"
		}
	}
	missing := why == "no such map or wad"
	other := func(name string, b []byte) []Lump {
		o := genMap(c.D, name, MapOpts{Tri: 30, MaxCols: 3, MaxRows: 3})
		return setReject(o.Lumps(), b)
	}
	var inLumps []Lump
	extName := pick(c.D, "src.wad", "my src.wad", "SRC.WAD")
	ref := extName
	if c.P(40) {
		ref = c.Path(extName)
	}
	os.MkdirAll(c.Path("sub"), 0o755)
	os.Remove(c.Path(extName))
	hasExt := false
	switch src {
	case 0: // the level itself
		if missing {
			wrong, why = nil, "there is no REJECT"
		}
		inLumps = setReject(lumps, wrong)
	case 1: // same map in another wad
		cmd.s = []string{ref}
		inLumps = setReject(lumps, table(size))
		hasExt = true
	case 2: // other map in another wad
		cmd.s = []string{ref, "MAP09"}
		inLumps = setReject(lumps, table(size))
		hasExt = true
	case 3: // other map of the same wad, behind
		cmd.s = []string{pick(c.D, "in.wad", c.Path("in.wad")), "MAP09"}
		inLumps = setReject(lumps, table(size))
		if !missing {
			inLumps = append(inLumps, other("MAP09", wrong)...)
		}
	case 4: // other map of the same wad, in front
		cmd.s = []string{pick(c.D, "in.wad", c.Path("in.wad")), "E1M1"}
		if !missing {
			inLumps = append(inLumps, other("E1M1", wrong)...)
		}
		inLumps = append(inLumps, setReject(lumps, table(size))...)
	}
	if hasExt && !(missing && c.P(50)) {
		name := m.Name
		if src == 2 {
			name = "MAP09"
		}
		var ls []Lump
		if c.P(50) {
			ls = append(ls, other("MAP03", table(size))...)
		}
		if missing {
			name = "MAP08"
		}
		ls = append(ls, other(name, wrong)...)
		if c.P(50) {
			ls = append(ls, other("MAP30", table(size))...)
		}
		c.Write(extName, (&Wad{Lumps: ls}).Bytes(nil))
	}
	var cmds []rmbCmd
	for k := c.Int(0, 4); k > 0; k-- {
		switch w := c.Pick(4); w {
		case 0, 1:
			cmds = append(cmds, genReach(c.D, n, true))
		default:
			cmds = append(cmds, rmbCmd{kind: pick(c.D, "INCLUDE", "EXCLUDE"), l: [2][]int{genSectorList(c.D, n, 4), genSectorList(c.D, n, 4)}})
		}
	}
	if c.P(20) {
		cmds = append(cmds, genRmbGroups(c.D, n)...)
	}
	asserts := 0
	gb := rejectLump{n, good}
	for c.P(40) && asserts < 3 {
		asserts++
		a, b := c.Pick(n), c.Pick(n)
		v := 0
		if gb.hidden(a, b) {
			v = 1
		}
		k := rmbCmd{kind: "ASSERT", d: [2]int{v}, l: [2][]int{{a}, {b}}}
		for e := 0; e < n; e++ { // others that have the same value
			if gb.hidden(e, b) == gb.hidden(a, b) && e != a && len(k.l[0]) < 3 {
				k.l[0] = append(k.l[0], e)
			}
		}
		if why == "" && c.P(25) {
			if c.P(50) {
				k.d[0] = 1 - v
			} else if e := c.Pick(n); gb.hidden(a, e) != gb.hidden(a, b) {
				k.l[0], k.l[1] = []int{a}, append(k.l[1], e)
			} else {
				k.d[0] = 1 - v
			}
			why = "the assertion is not true"
		}
		cmds = append(cmds, k)
	}
	cmds = append(cmds, cmd)
	c.Shuffle(len(cmds), func(i, j int) { cmds[i], cmds[j] = cmds[j], cmds[i] })
	f := &rmbFile{own: map[string][]rmbCmd{}}
	cut := 0
	if c.P(30) {
		cut = c.Int(0, len(cmds))
	}
	f.global, f.own[m.Name] = cmds[:cut], cmds[cut:]
	// global options are for all levels; keep others out of it
	f.own["MAP09"], f.own["E1M1"] = nil, nil
	args := []string{fmt.Sprintf("-rs=%d", c.Int(0, 3)), "-m:" + strings.ToLower(m.Name)}
	if c.P(30) {
		args = append(args, "--nosymm")
	}
	var flow []string
	if c.P(40) {
		flow = pick(c.D, []string{"-n-", "-b"}, []string{"-n", "-b"}, []string{"-n", "-b-"}, []string{"-n-", "-b-", "-d"}, []string{"-n", "-b", "-d"})
	} else {
		flow = []string{"-n-", "-b-"}
	}
	in := c.Write("in.wad", (&Wad{Lumps: inLumps}).Bytes(nil))
	c.Write("in.rej", []byte(rmbText(c.D, f, []string{m.Name}, "\n")))
	out := c.Path("out.wad")
	a := append(append(append([]string{}, flow...), args...), "-rm", in, "-o", out)
	inPlace := c.P(20) && src != 3 && src != 4
	var res *Res
	if inPlace {
		a = append(append(append([]string{}, flow...), args...), "-rm", in)
		out = in
	}
	res = c.must(a...)
	got := c.getReject(c.load(m, out, res))
	base := gb
	all := append(append([]rmbCmd{}, f.global...), f.own[m.Name]...)
	what := fmt.Sprintf("%s %v", rmbList(all), a)
	if why != "" {
		what += " (rebuilt because " + why + ")"
		g := &rmbFile{own: map[string][]rmbCmd{}}
		for _, k := range all {
			if k.kind == "GROUP" {
				g.own[m.Name] = append(g.own[m.Name], k)
			}
		}
		_, get := c.rmbRun([]*Map{m}, rmbText(c.D, g, []string{m.Name}, "\n"), args)
		base = c.getReject(get(m))
		c.Label("NOPROCESS: built anew: " + strings.SplitN(why, " of ", 2)[0])
	} else {
		c.Labelf("NOPROCESS: source %d", src)
		if len(all) == 1 {
			for i, x := range got.b {
				if x != good[i] {
					c.Failf("copy: byte %d of REJECT is %#x, it should be %#x as in the table it is to be taken from: %s", i, x, good[i], what)
				}
			}
		}
	}
	r := newRmbModel(m, base, all)
	r.apply(all)
	r.check(c, got, what, func(i, j int) bool { return true }, func(i, j int) bool { return false })
	c.NonTrivial(fmt.Sprint(m.describe(), what))
	c.Sample("%s | %s", m.describe(), strings.ReplaceAll(what, filepath.Dir(in), "."))
}

var _ = reg(&Prop{
	ID: "C15", Title: "RMB effects apply as the manual says",
	Rule:  "a case counts when the effects changed the table (or the table came from elsewhere); distinct by map, effects and options",
	Quick: 10000, Thorough: 120000,
	Run: func(c *C) {
		switch k := c.Pick(10); {
		case k < 5:
			runRmbEffects(c)
		case k < 6:
			runRmbDistance(c)
		case k < 7:
			runRmbGroup(c)
		default:
			runRmbSource(c)
		}
	},
})
