package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
)

// Independent WAD reader/writer: shares no code with the program under test.

type Lump struct {
	Name string // trimmed of trailing NULs for comparison; raw kept in Raw
	Raw  [8]byte
	Data []byte
	Pos  uint32
}

type Wad struct {
	Magic string
	Lumps []Lump
	Size  int
	Dir   uint32
}

func rawName(s string) (r [8]byte) { copy(r[:], s); return }

func nameOf(r [8]byte) string {
	i := bytes.IndexByte(r[:], 0)
	if i < 0 {
		i = 8
	}
	return string(r[:i])
}

func L(name string, data []byte) Lump {
	return Lump{Name: name, Raw: rawName(name), Data: data}
}

// parseWad is strict: anything a port could not load is an error.
func parseWad(b []byte) (*Wad, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("wad is %d bytes long, shorter than its header", len(b))
	}
	w := &Wad{Magic: string(b[:4]), Size: len(b)}
	if w.Magic != "PWAD" && w.Magic != "IWAD" {
		return nil, fmt.Errorf("bad wad signature %q", w.Magic)
	}
	n := binary.LittleEndian.Uint32(b[4:])
	dir := binary.LittleEndian.Uint32(b[8:])
	w.Dir = dir
	if uint64(dir)+uint64(n)*16 > uint64(len(b)) {
		return nil, fmt.Errorf("directory [%d,+%d entries] outside file of %d bytes", dir, n, len(b))
	}
	for i := uint32(0); i < n; i++ {
		e := b[dir+i*16:]
		pos := binary.LittleEndian.Uint32(e)
		sz := binary.LittleEndian.Uint32(e[4:])
		var l Lump
		copy(l.Raw[:], e[8:16])
		l.Name = nameOf(l.Raw)
		l.Pos = pos
		if sz > 0 {
			if uint64(pos)+uint64(sz) > uint64(len(b)) {
				return nil, fmt.Errorf("lump %d %q [%d,+%d] outside file of %d bytes", i, l.Name, pos, sz, len(b))
			}
			l.Data = b[pos : pos+sz : pos+sz]
		}
		w.Lumps = append(w.Lumps, l)
	}
	return w, nil
}

func readWad(path string) (*Wad, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return parseWad(b)
}

type WadLayout struct {
	Magic    string
	DirFirst bool
	Gap      func(i int) []byte // junk written before lump i
	ZeroPos  func(i int) uint32 // FilePos of empty lumps
}

func (w *Wad) Bytes(lay *WadLayout) []byte {
	magic := w.Magic
	if magic == "" {
		magic = "PWAD"
	}
	if lay == nil {
		lay = &WadLayout{}
	}
	if lay.Magic != "" {
		magic = lay.Magic
	}
	pos := 12
	dirSize := 16 * len(w.Lumps)
	if lay.DirFirst {
		pos += dirSize
	}
	var body bytes.Buffer
	dir := make([]byte, 0, dirSize)
	for i := range w.Lumps {
		l := &w.Lumps[i]
		if lay.Gap != nil {
			body.Write(lay.Gap(i))
		}
		p := uint32(pos + body.Len())
		if len(l.Data) == 0 && lay.ZeroPos != nil {
			p = lay.ZeroPos(i)
		}
		dir = binary.LittleEndian.AppendUint32(dir, p)
		dir = binary.LittleEndian.AppendUint32(dir, uint32(len(l.Data)))
		dir = append(dir, l.Raw[:]...)
		body.Write(l.Data)
	}
	out := make([]byte, 0, 12+dirSize+body.Len())
	out = append(out, magic...)
	out = binary.LittleEndian.AppendUint32(out, uint32(len(w.Lumps)))
	if lay.DirFirst {
		out = binary.LittleEndian.AppendUint32(out, 12)
		out = append(out, dir...)
		out = append(out, body.Bytes()...)
	} else {
		out = binary.LittleEndian.AppendUint32(out, uint32(12+body.Len()))
		out = append(out, body.Bytes()...)
		out = append(out, dir...)
	}
	return out
}

// Level lump names, in the order level lumps are kept in a wad.
var levelOrder = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS",
	"SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}

func levelRank(n string) int {
	for i, s := range levelOrder {
		if s == n {
			return i
		}
	}
	return -1
}

// LevelLumps is one level found in a wad.
type LevelLumps struct {
	Name  string
	Index int // directory index of the marker
	Count int // lumps after the marker that belong to it
	L     map[string][]byte
	Names []string
}

// findLevel looks up the (only) level with that marker.
func (w *Wad) findLevel(name string) *LevelLumps {
	for i := range w.Lumps {
		if w.Lumps[i].Name != name {
			continue
		}
		lv := &LevelLumps{Name: name, Index: i, L: map[string][]byte{}}
		for j := i + 1; j < len(w.Lumps); j++ {
			nm := w.Lumps[j].Name
			if levelRank(nm) < 0 {
				break
			}
			if _, dup := lv.L[nm]; !dup {
				lv.L[nm] = w.Lumps[j].Data
			}
			lv.Names = append(lv.Names, nm)
			lv.Count++
		}
		return lv
	}
	return nil
}
