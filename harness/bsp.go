package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"math"
)

// Decoder of every node format the tool can write, into one model.

type BSeg struct {
	V1, V2     int
	Line, Flip int
	Angle, Off int // only in formats that store them
}

type BNode struct {
	X, Y, DX, DY int
	Box          [2][4]int // right, left: top bottom left right
	Child        [2]int
	Leaf         [2]bool
}

type BSP struct {
	Fmt     string // v d x z
	X, Y    []float64
	Segs    []BSeg
	First   []int
	Count   []int
	Nodes   []BNode
	HasAO   bool // angle and offset are stored
	OrigV   int  // vertices taken from VERTEXES (extended formats)
	NewV    int
	ZLevel  []byte
	Decoded int
}

var deepSig = []byte("xNd4\x00\x00\x00\x00")

func u16(b []byte, o int) int { return int(binary.LittleEndian.Uint16(b[o:])) }
func s16(b []byte, o int) int { return int(int16(binary.LittleEndian.Uint16(b[o:]))) }
func u32(b []byte, o int) int { return int(binary.LittleEndian.Uint32(b[o:])) }

func nodesFormat(lv *LevelLumps) string {
	n := lv.L["NODES"]
	switch {
	case bytes.HasPrefix(n, deepSig):
		return "d"
	case bytes.HasPrefix(n, []byte("XNOD")) && len(lv.L["SEGS"]) == 0 && len(lv.L["SSECTORS"]) == 0:
		return "x"
	case bytes.HasPrefix(n, []byte("ZNOD")) && len(lv.L["SEGS"]) == 0 && len(lv.L["SSECTORS"]) == 0:
		return "z"
	case len(n) == 0 && len(lv.L["SEGS"]) == 0 && len(lv.L["SSECTORS"]) == 0:
		return "empty"
	}
	return "v"
}

func decodeBSP(lv *LevelLumps) (*BSP, error) {
	b := &BSP{Fmt: nodesFormat(lv)}
	vb := lv.L["VERTEXES"]
	if len(vb)%4 != 0 {
		return nil, fmt.Errorf("VERTEXES is %d bytes", len(vb))
	}
	for o := 0; o < len(vb); o += 4 {
		b.X = append(b.X, float64(s16(vb, o)))
		b.Y = append(b.Y, float64(s16(vb, o+2)))
	}
	nb, sb, ssb := lv.L["NODES"], lv.L["SEGS"], lv.L["SSECTORS"]
	switch b.Fmt {
	case "empty":
		return b, nil
	case "v":
		b.HasAO = true
		if len(nb)%28 != 0 || len(sb)%12 != 0 || len(ssb)%4 != 0 {
			return nil, fmt.Errorf("sizes not multiples of record size: NODES %d SEGS %d SSECTORS %d", len(nb), len(sb), len(ssb))
		}
		for o := 0; o < len(sb); o += 12 {
			b.Segs = append(b.Segs, BSeg{V1: u16(sb, o), V2: u16(sb, o+2), Angle: u16(sb, o+4), Line: u16(sb, o+6), Flip: u16(sb, o+8), Off: u16(sb, o+10)})
		}
		for o := 0; o < len(ssb); o += 4 {
			b.Count = append(b.Count, u16(ssb, o))
			b.First = append(b.First, u16(ssb, o+2))
		}
		for o := 0; o < len(nb); o += 28 {
			n := nodeHead(nb, o)
			for k := 0; k < 2; k++ {
				c := u16(nb, o+24+2*k)
				n.Leaf[k], n.Child[k] = c&0x8000 != 0, c&0x7FFF
			}
			b.Nodes = append(b.Nodes, n)
		}
	case "d":
		b.HasAO = true
		nb = nb[8:]
		if len(nb)%32 != 0 || len(sb)%16 != 0 || len(ssb)%6 != 0 {
			return nil, fmt.Errorf("deep: sizes not multiples of record size: NODES %d SEGS %d SSECTORS %d", len(nb), len(sb), len(ssb))
		}
		for o := 0; o < len(sb); o += 16 {
			b.Segs = append(b.Segs, BSeg{V1: u32(sb, o), V2: u32(sb, o+4), Angle: u16(sb, o+8), Line: u16(sb, o+10), Flip: u16(sb, o+12), Off: u16(sb, o+14)})
		}
		for o := 0; o < len(ssb); o += 6 {
			b.Count = append(b.Count, u16(ssb, o))
			b.First = append(b.First, u32(ssb, o+2))
		}
		for o := 0; o < len(nb); o += 32 {
			b.Nodes = append(b.Nodes, deepNode(nb, o))
		}
	case "x", "z":
		p := nb[4:]
		if b.Fmt == "z" {
			b.ZLevel = p[:min(2, len(p))]
			zr, err := zlib.NewReader(bytes.NewReader(p))
			if err != nil {
				return nil, fmt.Errorf("compressed nodes: %v", err)
			}
			if p, err = io.ReadAll(zr); err != nil {
				return nil, fmt.Errorf("compressed nodes: %v", err)
			}
		}
		pos := 0
		need := func(n int) error {
			if pos+n > len(p) {
				return fmt.Errorf("extended nodes end early: need %d bytes at %d of %d", n, pos, len(p))
			}
			return nil
		}
		if err := need(8); err != nil {
			return nil, err
		}
		b.OrigV, b.NewV = u32(p, 0), u32(p, 4)
		pos = 8
		if b.OrigV > len(b.X) {
			return nil, fmt.Errorf("extended nodes reuse %d vertices, VERTEXES has %d", b.OrigV, len(b.X))
		}
		b.X, b.Y = b.X[:b.OrigV:b.OrigV], b.Y[:b.OrigV:b.OrigV]
		if err := need(8 * b.NewV); err != nil {
			return nil, err
		}
		for i := 0; i < b.NewV; i++ {
			b.X = append(b.X, float64(int32(u32(p, pos)))/65536)
			b.Y = append(b.Y, float64(int32(u32(p, pos+4)))/65536)
			pos += 8
		}
		if err := need(4); err != nil {
			return nil, err
		}
		n := u32(p, pos)
		pos += 4
		if err := need(4 * n); err != nil {
			return nil, err
		}
		first := 0
		for i := 0; i < n; i++ {
			b.Count = append(b.Count, u32(p, pos))
			b.First = append(b.First, first)
			first += u32(p, pos)
			pos += 4
		}
		if err := need(4); err != nil {
			return nil, err
		}
		n = u32(p, pos)
		pos += 4
		if err := need(11 * n); err != nil {
			return nil, err
		}
		for i := 0; i < n; i++ {
			b.Segs = append(b.Segs, BSeg{V1: u32(p, pos), V2: u32(p, pos+4), Line: u16(p, pos+8), Flip: int(p[pos+10])})
			pos += 11
		}
		if err := need(4); err != nil {
			return nil, err
		}
		n = u32(p, pos)
		pos += 4
		if err := need(32 * n); err != nil {
			return nil, err
		}
		for i := 0; i < n; i++ {
			b.Nodes = append(b.Nodes, deepNode(p, pos))
			pos += 32
		}
		if pos != len(p) {
			return nil, fmt.Errorf("extended nodes: %d bytes after the last node", len(p)-pos)
		}
	}
	return b, nil
}

func nodeHead(b []byte, o int) (n BNode) {
	n.X, n.Y, n.DX, n.DY = s16(b, o), s16(b, o+2), s16(b, o+4), s16(b, o+6)
	for k := 0; k < 2; k++ {
		for i := 0; i < 4; i++ {
			n.Box[k][i] = s16(b, o+8+8*k+2*i)
		}
	}
	return
}

func deepNode(b []byte, o int) BNode {
	n := nodeHead(b, o)
	for k := 0; k < 2; k++ {
		c := u32(b, o+24+4*k)
		n.Leaf[k], n.Child[k] = c&0x80000000 != 0, c&0x7FFFFFFF
	}
	return n
}

// checkStructure: every reference in range, the tree is a tree rooted in the
// last node, subsectors partition the segs.
func (b *BSP) checkStructure(m *Map) error {
	nn, ns, nseg := len(b.Nodes), len(b.First), len(b.Segs)
	if ns == 0 {
		return fmt.Errorf("no subsectors")
	}
	seenN, seenS := make([]int, nn), make([]int, ns)
	if nn == 0 {
		if ns != 1 {
			return fmt.Errorf("no nodes but %d subsectors", ns)
		}
		seenS[0] = 1
	} else {
		stack := []int{nn - 1}
		seenN[nn-1] = 1
		for len(stack) > 0 {
			i := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			n := &b.Nodes[i]
			if n.DX == 0 && n.DY == 0 {
				return fmt.Errorf("node %d has a partition line of zero length", i)
			}
			for k := 0; k < 2; k++ {
				c := n.Child[k]
				if n.Leaf[k] {
					if c >= ns {
						return fmt.Errorf("node %d refers to subsector %d of %d", i, c, ns)
					}
					seenS[c]++
					if seenS[c] > 1 {
						return fmt.Errorf("subsector %d is reached twice", c)
					}
				} else {
					if c >= nn {
						return fmt.Errorf("node %d refers to node %d of %d", i, c, nn)
					}
					seenN[c]++
					if seenN[c] > 1 {
						return fmt.Errorf("node %d is reached twice", c)
					}
					stack = append(stack, c)
				}
			}
		}
	}
	for i, c := range seenN {
		if c == 0 {
			return fmt.Errorf("node %d is unreachable from the root (last) node of %d", i, nn)
		}
	}
	for i, c := range seenS {
		if c == 0 {
			return fmt.Errorf("subsector %d is unreachable", i)
		}
	}
	owner := make([]int, nseg)
	for i := range owner {
		owner[i] = -1
	}
	for i := range b.First {
		if b.Count[i] == 0 {
			return fmt.Errorf("subsector %d has no segs", i)
		}
		for j := b.First[i]; j < b.First[i]+b.Count[i]; j++ {
			if j >= nseg {
				return fmt.Errorf("subsector %d refers to seg %d of %d", i, j, nseg)
			}
			if owner[j] >= 0 {
				return fmt.Errorf("seg %d is in subsectors %d and %d", j, owner[j], i)
			}
			owner[j] = i
		}
	}
	for j, o := range owner {
		if o < 0 {
			return fmt.Errorf("seg %d is in no subsector", j)
		}
	}
	for j := range b.Segs {
		s := &b.Segs[j]
		if s.V1 >= len(b.X) || s.V2 >= len(b.X) {
			return fmt.Errorf("seg %d refers to vertex %d/%d of %d", j, s.V1, s.V2, len(b.X))
		}
		if s.Line >= len(m.Lines) {
			return fmt.Errorf("seg %d refers to linedef %d of %d", j, s.Line, len(m.Lines))
		}
		if s.Flip != 0 && s.Flip != 1 {
			return fmt.Errorf("seg %d has side %d", j, s.Flip)
		}
		if m.sideOf(s.Line, s.Flip) < 0 {
			return fmt.Errorf("seg %d is on side %d of linedef %d, which has no sidedef there", j, s.Flip, s.Line)
		}
		if b.X[s.V1] == b.X[s.V2] && b.Y[s.V1] == b.Y[s.V2] {
			return fmt.Errorf("seg %d (linedef %d side %d) has zero length", j, s.Line, s.Flip)
		}
	}
	return nil
}

func (m *Map) sideOf(line, flip int) int {
	if flip == 0 {
		return m.Lines[line].Front
	}
	return m.Lines[line].Back
}

func (m *Map) segSector(s *BSeg) int { return m.sectorOf(m.sideOf(s.Line, s.Flip)) }

func (b *BSP) segLen(s *BSeg) float64 { return math.Hypot(b.X[s.V2]-b.X[s.V1], b.Y[s.V2]-b.Y[s.V1]) }

// below calls f for each seg under a child.
func (b *BSP) below(leaf bool, c int, f func(j int)) {
	if leaf {
		for j := b.First[c]; j < b.First[c]+b.Count[c]; j++ {
			f(j)
		}
		return
	}
	n := &b.Nodes[c]
	b.below(n.Leaf[0], n.Child[0], f)
	b.below(n.Leaf[1], n.Child[1], f)
}

// locate walks the tree like an engine does.
// locate descends to the subsector of a point, and says how far from the
// nearest of the partition lines on the way the point is.
func (b *BSP) locate(x, y float64) (int, float64) {
	margin := math.Inf(1)
	if len(b.Nodes) == 0 {
		return 0, margin
	}
	i := len(b.Nodes) - 1
	for {
		n := &b.Nodes[i]
		k := 0
		d := float64(n.DX)*(y-float64(n.Y)) - float64(n.DY)*(x-float64(n.X))
		if d > 0 {
			k = 1
		}
		margin = min(margin, math.Abs(d)/math.Hypot(float64(n.DX), float64(n.DY)))
		if n.Leaf[k] {
			return n.Child[k], margin
		}
		i = n.Child[k]
	}
}

func (b *BSP) height() int {
	if len(b.Nodes) == 0 {
		return 0
	}
	var h func(i int) int
	h = func(i int) int {
		r := 0
		for k := 0; k < 2; k++ {
			if !b.Nodes[i].Leaf[k] {
				r = max(r, h(b.Nodes[i].Child[k]))
			}
		}
		return r + 1
	}
	return h(len(b.Nodes) - 1)
}
