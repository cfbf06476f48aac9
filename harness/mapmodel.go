package main

import (
	"encoding/binary"
	"fmt"
)

type V struct{ X, Y int }

type Line struct {
	V1, V2      int
	Flags       uint16
	Action      uint16 // 8 bit in Hexen
	Tag         uint16 // Doom only
	Args        [5]uint8
	Front, Back int // sidedef index or -1
}

type Side struct {
	XOff, YOff  int16
	Up, Lo, Mid string
	Sector      int
}

type Sector struct {
	Floor, Ceil         int16
	FloorTex, CeilTex   string
	Light, Special, Tag uint16
}

type Thing struct {
	X, Y, Angle, Type int16
	Flags             uint16
	TID, Z            int16
	Action            uint8
	Args              [5]uint8
}

type Map struct {
	Name    string
	Hexen   bool
	Verts   []V
	Lines   []Line
	Sides   []Side
	Sectors []Sector
	Things  []Thing
}

const (
	mlImpassable = 1
	mlTwoSided   = 4
)

func p16(b []byte, v int) []byte { return binary.LittleEndian.AppendUint16(b, uint16(v)) }
func pName(b []byte, s string) []byte {
	r := rawName(s)
	return append(b, r[:]...)
}

func (m *Map) encThings() (b []byte) {
	for _, t := range m.Things {
		if m.Hexen {
			b = p16(b, int(t.TID))
		}
		b = p16(p16(b, int(t.X)), int(t.Y))
		if m.Hexen {
			b = p16(b, int(t.Z))
		}
		b = p16(p16(p16(b, int(t.Angle)), int(t.Type)), int(t.Flags))
		if m.Hexen {
			b = append(b, t.Action)
			b = append(b, t.Args[:]...)
		}
	}
	return
}

func sideIdx(i int) int {
	if i < 0 {
		return 0xFFFF
	}
	return i
}

func (m *Map) encLines() (b []byte) {
	for _, l := range m.Lines {
		b = p16(p16(p16(b, l.V1), l.V2), int(l.Flags))
		if m.Hexen {
			b = append(b, uint8(l.Action))
			b = append(b, l.Args[:]...)
		} else {
			b = p16(p16(b, int(l.Action)), int(l.Tag))
		}
		b = p16(p16(b, sideIdx(l.Front)), sideIdx(l.Back))
	}
	return
}

func (m *Map) encSides() (b []byte) {
	for _, s := range m.Sides {
		b = p16(p16(b, int(s.XOff)), int(s.YOff))
		b = pName(pName(pName(b, s.Up), s.Lo), s.Mid)
		b = p16(b, s.Sector)
	}
	return
}

func (m *Map) encVerts() (b []byte) {
	for _, v := range m.Verts {
		b = p16(p16(b, v.X), v.Y)
	}
	return
}

func (m *Map) encSectors() (b []byte) {
	for _, s := range m.Sectors {
		b = p16(p16(b, int(s.Floor)), int(s.Ceil))
		b = pName(pName(b, s.FloorTex), s.CeilTex)
		b = p16(p16(p16(b, int(s.Light)), int(s.Special)), int(s.Tag))
	}
	return
}

// Lumps returns marker + mandatory lumps (+ BEHAVIOR for Hexen format).
func (m *Map) Lumps() []Lump {
	r := []Lump{L(m.Name, nil), L("THINGS", m.encThings()), L("LINEDEFS", m.encLines()),
		L("SIDEDEFS", m.encSides()), L("VERTEXES", m.encVerts()), L("SECTORS", m.encSectors())}
	if m.Hexen {
		r = append(r, L("BEHAVIOR", []byte("ACS\x00\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00")))
	}
	return r
}

func (m *Map) sectorOf(side int) int {
	if side < 0 || side >= len(m.Sides) {
		return -1
	}
	return m.Sides[side].Sector
}

func (m *Map) front(i int) int { return m.sectorOf(m.Lines[i].Front) }
func (m *Map) back(i int) int  { return m.sectorOf(m.Lines[i].Back) }

func (m *Map) xy(i int) (x1, y1, x2, y2 int) {
	l := &m.Lines[i]
	a, b := m.Verts[l.V1], m.Verts[l.V2]
	return a.X, a.Y, b.X, b.Y
}

func (m *Map) zeroLen(i int) bool {
	x1, y1, x2, y2 := m.xy(i)
	return x1 == x2 && y1 == y2
}

// pointSector: sector containing (x,y) by casting a ray; -1 = void. ok=false
// when rays in different directions disagree (map not closed there).
func (m *Map) pointSector(x, y float64) (int, bool) {
	a := m.rayX(x, y, 1)
	b := m.rayX(x, y, -1)
	c := m.rayY(x, y, 1)
	d := m.rayY(x, y, -1)
	if a != b || a != c || a != d {
		return -1, false
	}
	return a, true
}

func (m *Map) rayX(x, y float64, dir float64) int {
	best, sec := 1e18, -1
	for i := range m.Lines {
		ix1, iy1, ix2, iy2 := m.xy(i)
		x1, y1, x2, y2 := float64(ix1), float64(iy1), float64(ix2), float64(iy2)
		if (y1 > y) == (y2 > y) {
			continue
		}
		cx := x1 + (y-y1)*(x2-x1)/(y2-y1)
		dist := (cx - x) * dir
		if dist < 0 || dist >= best {
			continue
		}
		best = dist
		sec = m.sideSector(i, x, y)
	}
	return sec
}

func (m *Map) rayY(x, y float64, dir float64) int {
	best, sec := 1e18, -1
	for i := range m.Lines {
		ix1, iy1, ix2, iy2 := m.xy(i)
		x1, y1, x2, y2 := float64(ix1), float64(iy1), float64(ix2), float64(iy2)
		if (x1 > x) == (x2 > x) {
			continue
		}
		cy := y1 + (x-x1)*(y2-y1)/(x2-x1)
		dist := (cy - y) * dir
		if dist < 0 || dist >= best {
			continue
		}
		best = dist
		sec = m.sideSector(i, x, y)
	}
	return sec
}

// sideSector: sector of the side of line i that faces (x,y).
func (m *Map) sideSector(i int, x, y float64) int {
	ix1, iy1, ix2, iy2 := m.xy(i)
	dx, dy := float64(ix2-ix1), float64(iy2-iy1)
	// right side (front) when cross < 0
	if dx*(y-float64(iy1))-dy*(x-float64(ix1)) < 0 {
		return m.front(i)
	}
	return m.back(i)
}

func (m *Map) bounds() (xmin, ymin, xmax, ymax int) {
	xmin, ymin, xmax, ymax = 1<<30, 1<<30, -(1 << 30), -(1 << 30)
	for i := range m.Lines {
		x1, y1, x2, y2 := m.xy(i)
		xmin = min(xmin, x1, x2)
		xmax = max(xmax, x1, x2)
		ymin = min(ymin, y1, y2)
		ymax = max(ymax, y1, y2)
	}
	return
}

// parseMap decodes level lumps back into the model.
func parseMap(lv *LevelLumps, hexen bool) (*Map, error) {
	m := &Map{Name: lv.Name, Hexen: hexen}
	u := func(b []byte, o int) int { return int(binary.LittleEndian.Uint16(b[o:])) }
	s := func(b []byte, o int) int { return int(int16(binary.LittleEndian.Uint16(b[o:]))) }
	lsz := 14
	if hexen {
		lsz = 16
	}
	vb, lb, sb, cb := lv.L["VERTEXES"], lv.L["LINEDEFS"], lv.L["SIDEDEFS"], lv.L["SECTORS"]
	if len(vb)%4 != 0 || len(lb)%lsz != 0 || len(sb)%30 != 0 || len(cb)%26 != 0 {
		return nil, fmt.Errorf("level lump sizes not multiples of record size: VERTEXES %d LINEDEFS %d SIDEDEFS %d SECTORS %d", len(vb), len(lb), len(sb), len(cb))
	}
	for o := 0; o < len(vb); o += 4 {
		m.Verts = append(m.Verts, V{s(vb, o), s(vb, o+2)})
	}
	fix := func(i int) int {
		if i == 0xFFFF {
			return -1
		}
		return i
	}
	for o := 0; o < len(lb); o += lsz {
		l := Line{V1: u(lb, o), V2: u(lb, o+2), Flags: uint16(u(lb, o+4))}
		if hexen {
			l.Action = uint16(lb[o+6])
			copy(l.Args[:], lb[o+7:o+12])
			l.Front, l.Back = fix(u(lb, o+12)), fix(u(lb, o+14))
		} else {
			l.Action, l.Tag = uint16(u(lb, o+6)), uint16(u(lb, o+8))
			l.Front, l.Back = fix(u(lb, o+10)), fix(u(lb, o+12))
		}
		if l.V1 >= len(m.Verts) || l.V2 >= len(m.Verts) {
			return nil, fmt.Errorf("linedef %d refers to vertex %d/%d of %d", o/lsz, l.V1, l.V2, len(m.Verts))
		}
		m.Lines = append(m.Lines, l)
	}
	str := func(b []byte, o int) string { var r [8]byte; copy(r[:], b[o:]); return string(r[:]) }
	for o := 0; o < len(sb); o += 30 {
		m.Sides = append(m.Sides, Side{int16(s(sb, o)), int16(s(sb, o+2)), str(sb, o+4), str(sb, o+12), str(sb, o+20), u(sb, o+28)})
	}
	for o := 0; o < len(cb); o += 26 {
		m.Sectors = append(m.Sectors, Sector{int16(s(cb, o)), int16(s(cb, o+2)), str(cb, o+4), str(cb, o+12), uint16(u(cb, o+20)), uint16(u(cb, o+22)), uint16(u(cb, o+24))})
	}
	return m, nil
}
