package main

import (
	"math"
	"sort"
)

// Visibility between sectors, worked out by casting rays along the critical
// directions: any set of unobstructed lines can be moved until it touches two
// vertices.

type visLine struct {
	x1, y1, x2, y2 float64
	a, b           int // sectors in front of it and behind, or -1
	idx            int
}

type visMap struct {
	n      int
	solid  []visLine
	trans  []visLine
	pts    [][2]float64
	vis    []bool
	how    map[int][4]float64 // pair -> ray
	maxLen float64            // how far one sees, if not 0, ...
	group  []int              // ... except from line to line around one (group of) sector
	// scratch
	blocks []visBlock
	cross  []visCross
	walls  []visCross
	sel    func(a, b int)
}

type visBlock struct{ lo, hi float64 }
type visCross struct {
	t    float64
	a, b int
}

// newVis sets up the map. sameSector: whether lines with the same sector on
// both sides show that sector. solid: lines that block sight though two-sided.
func newVis(m *Map, sameSector bool, solid func(i int) bool, shrink float64) *visMap {
	v := &visMap{n: len(m.Sectors), how: map[int][4]float64{}}
	v.vis = make([]bool, v.n*v.n)
	seen := map[[2]float64]bool{}
	pt := func(x, y float64) {
		if k := [2]float64{x, y}; !seen[k] {
			seen[k] = true
			v.pts = append(v.pts, k)
		}
	}
	for i := range m.Lines {
		if m.zeroLen(i) {
			continue
		}
		l := &m.Lines[i]
		ix1, iy1, ix2, iy2 := m.xy(i)
		x1, y1, x2, y2 := float64(ix1), float64(iy1), float64(ix2), float64(iy2)
		L := math.Hypot(x2-x1, y2-y1)
		ux, uy := (x2-x1)/L*shrink, (y2-y1)/L*shrink
		if l.Flags&mlTwoSided == 0 || solid != nil && solid(i) {
			if L <= 2*shrink {
				continue
			}
			v.solid = append(v.solid, visLine{x1 + ux, y1 + uy, x2 - ux, y2 - uy, m.front(i), m.back(i), i})
			pt(x1+ux, y1+uy)
			pt(x2-ux, y2-uy)
			continue
		}
		if l.Front < 0 || l.Back < 0 {
			continue
		}
		f, b := m.front(i), m.back(i)
		if f == b && !sameSector {
			continue
		}
		v.trans = append(v.trans, visLine{x1 - ux, y1 - uy, x2 + ux, y2 + uy, f, b, i})
		pt(x1-ux, y1-uy)
		pt(x2+ux, y2+uy)
	}
	for i := 0; i < v.n; i++ {
		v.vis[i*v.n+i] = true
	}
	return v
}

func (v *visMap) around(run []visCross, i, j int) bool {
	s := v.group[run[i].b]
	if i >= j || v.group[run[i].a] == s || v.group[run[j].a] != s || v.group[run[j].b] == s {
		return false
	}
	for _, c := range run[i+1 : j] {
		if v.group[c.a] != s || v.group[c.b] != s {
			return false
		}
	}
	return true
}

// ray marks the sectors seen together along the line through p and q; what
// comes closer than eps counts as blocking, and not as a crossing.
func (v *visMap) ray(px, py, qx, qy, eps float64) {
	L := math.Hypot(qx-px, qy-py)
	if L == 0 {
		return
	}
	dx, dy := (qx-px)/L, (qy-py)/L
	v.cross, v.blocks = v.cross[:0], v.blocks[:0]
	walls := v.walls[:0]
	for i := range v.trans {
		l := &v.trans[i]
		s1 := dx*(l.y1-py) - dy*(l.x1-px)
		s2 := dx*(l.y2-py) - dy*(l.x2-px)
		if s1 > eps && s2 < -eps || s1 < -eps && s2 > eps {
			a1 := dx*(l.x1-px) + dy*(l.y1-py)
			a2 := dx*(l.x2-px) + dy*(l.y2-py)
			near, far := l.a, l.b
			if s1 < 0 {
				near, far = far, near
			}
			v.cross = append(v.cross, visCross{a1 + (a2-a1)*s1/(s1-s2), near, far})
		}
	}
	for i := range v.solid {
		l := &v.solid[i]
		s1 := dx*(l.y1-py) - dy*(l.x1-px)
		s2 := dx*(l.y2-py) - dy*(l.x2-px)
		if s1 > eps && s2 > eps || s1 < -eps && s2 < -eps {
			continue
		}
		a1 := dx*(l.x1-px) + dy*(l.y1-py)
		a2 := dx*(l.x2-px) + dy*(l.y2-py)
		if s1 > eps && s2 < -eps || s1 < -eps && s2 > eps {
			t := a1 + (a2-a1)*s1/(s1-s2)
			v.blocks = append(v.blocks, visBlock{t - eps, t + eps})
			// the sectors on both sides of the wall reach up to here
			near, far := l.a, l.b
			if s1 < 0 {
				near, far = far, near
			}
			if near >= 0 {
				walls = append(walls, visCross{t - eps*1.001, near, near})
			}
			if far >= 0 {
				walls = append(walls, visCross{t + eps*1.001, far, far})
			}
		} else {
			v.blocks = append(v.blocks, visBlock{min(a1, a2) - eps, max(a1, a2) + eps})
		}
	}
	for _, w := range walls {
		// unless another wall begins or ends at as good as the same place, so
		// that it is not clear which one comes first
		n := 0
		for _, b := range v.blocks {
			if math.Abs(b.lo-w.t) < 0.01*eps || math.Abs(b.hi-w.t) < 0.01*eps {
				n++
			}
		}
		if n == 1 {
			v.cross = append(v.cross, w)
		}
	}
	v.walls = walls
	sort.Slice(v.cross, func(i, j int) bool { return v.cross[i].t < v.cross[j].t })
	sort.Slice(v.blocks, func(i, j int) bool { return v.blocks[i].lo < v.blocks[j].lo })
	bi := 0
	reach := math.Inf(-1)
	var run []visCross
	flush := func() {
		for i := range run {
			for j := range run {
				if v.maxLen > 0 && math.Abs(run[i].t-run[j].t) > v.maxLen && !v.around(run, min(i, j), max(i, j)) {
					continue
				}
				for _, a := range [2]int{run[i].a, run[i].b} {
					for _, b := range [2]int{run[j].a, run[j].b} {
						if k := a*v.n + b; !v.vis[k] {
							v.vis[k] = true
							v.how[k] = [4]float64{px + dx*run[i].t, py + dy*run[i].t, px + dx*run[j].t, py + dy*run[j].t}
						}
					}
				}
			}
		}
		run = run[:0]
	}
	for _, c := range v.cross {
		cut := false
		for bi < len(v.blocks) && v.blocks[bi].lo <= c.t {
			cut = true
			reach = max(reach, v.blocks[bi].hi)
			bi++
		}
		if cut {
			flush()
		}
		if c.t <= reach {
			continue
		}
		run = append(run, c)
	}
	flush()
}

// cast shoots all critical rays (at most limit pairs of vertices, chosen by r).
func (v *visMap) cast(r *rng, limit int, delta, eps float64) {
	np := len(v.pts)
	total := np * (np - 1) / 2
	one := func(i, j int) {
		p, q := v.pts[i], v.pts[j]
		L := math.Hypot(q[0]-p[0], q[1]-p[1])
		if L < 1e-9 {
			return
		}
		nx, ny := -(q[1]-p[1])/L*delta, (q[0]-p[0])/L*delta
		for _, s := range [4][2]float64{{1, 1}, {1, -1}, {-1, 1}, {-1, -1}} {
			v.ray(p[0]+s[0]*nx, p[1]+s[0]*ny, q[0]+s[1]*nx, q[1]+s[1]*ny, eps)
		}
	}
	if total <= limit {
		for i := 0; i < np; i++ {
			for j := i + 1; j < np; j++ {
				one(i, j)
			}
		}
		return
	}
	for k := 0; k < limit; k++ {
		one(r.Intn(np), r.Intn(np))
	}
}
