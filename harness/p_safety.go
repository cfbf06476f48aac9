package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// C03: whatever happens, the input file is not lost.

var straceOnce sync.Once
var straceOK bool

func haveStrace() bool {
	straceOnce.Do(func() {
		cmd := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=write", "-e", "inject=write:error=ENOSPC:when=1", "true")
		straceOK = cmd.Run() == nil
	})
	return straceOK
}

var uidOnce sync.Once
var uidOK bool

func haveUid() bool {
	uidOnce.Do(func() {
		cmd := exec.Command("true")
		ownGroup(cmd)
		setUid(cmd, 12345)
		uidOK = cmd.Run() == nil
	})
	return uidOK
}

// safeCase: a directory of its own holding only the input.
type safeCase struct {
	c        *C
	w        *wadCase
	dir, in  string
	opts     []string
	old, new []byte
}

func (s *safeCase) files() []string {
	es, err := os.ReadDir(s.dir)
	if err != nil {
		s.c.Infraf("%v", err)
	}
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	sort.Strings(r)
	return r
}

// outcome of an in-place run: what the input holds now and what else is there.
type safeState struct {
	In       string // old, new, damaged
	Temp     string // "", complete, partial
	TempName string
}

func (s *safeCase) state() safeState {
	var st safeState
	b, err := os.ReadFile(s.in)
	switch {
	case err != nil:
		s.c.Failf("lost: the input file is gone: %v", err)
	case bytes.Equal(b, s.old):
		st.In = "old"
	case bytes.Equal(b, s.new):
		st.In = "new"
	default:
		st.In = "damaged"
	}
	if bytes.Equal(b, s.old) && bytes.Equal(s.old, s.new) {
		st.In = "new"
	}
	for _, f := range s.files() {
		if f == filepath.Base(s.in) || strings.HasSuffix(f, ".rej") || strings.HasSuffix(f, ".rpt") {
			continue
		}
		t, _ := os.ReadFile(filepath.Join(s.dir, f))
		if bytes.Equal(t, s.new) {
			st.Temp, st.TempName = "complete", f
		} else if st.Temp == "" {
			st.Temp, st.TempName = "partial", f
		}
	}
	return st
}

func (s *safeCase) safe(st safeState, what string) {
	if st.In == "damaged" && st.Temp != "complete" {
		s.c.Failf("lost: %s: the input holds neither its old nor the new content and no temporary file holds the new one (temporary file: %q %s)", what, st.TempName, st.Temp)
	}
}

func newSafeCase(c *C, valid bool) *safeCase {
	w := genWad(c.D, wadOpts{MaxLevels: 2, Messy: 40, Scripts: true})
	if c.P(50) {
		w.Items = append(w.Items, wadItem{Kind: "lump", Lumps: []Lump{L("BIGLUMP", randBytes(c.sub(), c.Int(1, 300000)))}})
		w.build()
	}
	for i := range w.Items {
		w.Items[i].Select = w.Items[i].Kind == "level"
	}
	s := &safeCase{c: c, w: w, dir: c.Path("work")}
	if err := os.Mkdir(s.dir, 0o777); err != nil {
		c.Infraf("%v", err)
	}
	os.Chmod(s.dir, 0o777)
	s.in = filepath.Join(s.dir, "in.wad")
	s.old = w.Bytes
	s.opts = []string{"-d"}
	if c.P(50) {
		s.opts = append(s.opts, "-bo=0")
	}
	if c.P(50) {
		s.opts = append(s.opts, pick(c.D, "-nc=d", "-nc=x", "-nc=z", "-na=4", "-b-", "-rz", "-r-", "-n-"))
	}
	if valid {
		c.Write("ref.wad", s.old)
		out := c.Path("ref-out.wad")
		c.must(append(append([]string{}, s.opts...), c.Path("ref.wad"), "-o", out)...)
		s.new = c.Read(out)
		if !bytes.Equal(c.Read(c.Path("ref.wad")), s.old) {
			c.Failf("input: the input file was modified although an output file was given")
		}
		c.checkWad(w, wadModeOf(s.opts), s.new)
	}
	if err := os.WriteFile(s.in, s.old, 0o666); err != nil {
		c.Infraf("%v", err)
	}
	os.Chmod(s.in, 0o666)
	return s
}

func wadModeOf(args []string) (m wadMode) {
	for _, a := range args {
		switch a {
		case "-b-":
			m.NoB = true
		case "-n-":
			m.NoN = true
		case "-r-":
			m.NoR = true
		case "-rz":
			m.ZeroR = true
		}
	}
	m.Args = args
	return
}

func (s *safeCase) args(extra ...string) []string {
	return append(append(append([]string{}, s.opts...), s.in), extra...)
}

func (s *safeCase) nonzero(r *Res, why string) {
	if r.Timeout {
		s.c.Failf("hang: %s: the tool did not finish", why)
	}
	if r.Exit == 0 {
		s.c.Failf("status: %s, but the exit status is 0\n%s", why, headTail(r.Out, 600))
	}
}

// untouched: nothing in the directory changed.
func (s *safeCase) untouched(why string, files []string) {
	if b, err := os.ReadFile(s.in); err != nil || !bytes.Equal(b, s.old) {
		s.c.Failf("lost: %s, and the input file was changed", why)
	}
	if got := s.files(); strings.Join(got, " ") != strings.Join(files, " ") {
		s.c.Failf("litter: %s; files in the directory were %v, now %v", why, files, got)
	}
}

func safeInPlace(c *C) {
	s := newSafeCase(c, true)
	r := c.Run(s.args()...)
	c.okay(r)
	st := s.state()
	if st.In != "new" {
		c.Failf("in place: the input was to be replaced by the result, it is %s", st.In)
	}
	if st.Temp != "" {
		c.Failf("litter: temporary file %s (%s) left behind after success", st.TempName, st.Temp)
	}
}

func safeSameFile(c *C) {
	s := newSafeCase(c, false)
	out := ""
	rel := false
	switch c.Pick(5) {
	case 0:
		out = s.in
	case 1:
		out = filepath.Join(s.dir, "link.wad")
		os.Symlink(pick(c.D, "in.wad", s.in), out)
	case 2:
		out = filepath.Join(s.dir, "hard.wad")
		if err := os.Link(s.in, out); err != nil {
			c.Infraf("%v", err)
		}
	case 3:
		out = s.dir + "/./../work/in.wad"
	case 4:
		rel, out = true, pick(c.D, "in.wad", "./in.wad", "../work/in.wad")
	}
	fs := s.files()
	o := RunOpt{}
	a := append(append([]string{}, s.opts...), s.in, "-o", out)
	if rel {
		o.Dir = s.dir
	}
	if c.P(30) { // the other way round: input through the link
		a = append(append([]string{}, s.opts...), out, "-o", s.in)
	}
	r := c.RunOpt(o, a...)
	s.nonzero(r, "output is the same file as input")
	s.untouched("output is the same file as input", fs)
}

func safeBadInput(c *C) {
	s := newSafeCase(c, false)
	why := ""
	switch c.Pick(8) {
	case 0:
		why, s.old = "input is not a wad", randBytes(c.sub(), c.Int(0, 100))
	case 1:
		why, s.old = "input is shorter than a header", append([]byte{}, s.old[:c.Int(0, 11)]...)
	case 2:
		why, s.old = "wad has no lumps", append([]byte("PWAD"), make([]byte, 8)...)
	case 3:
		why = "directory lies outside the file"
		s.old = append([]byte{}, s.old...)
		binary.LittleEndian.PutUint32(s.old[8:], uint32(len(s.old)-c.Int(0, 15)))
	case 4:
		why = "wad was cut short"
		if s.w.Lay.DirFirst || len(s.old) < 13 {
			c.Discard()
		}
		s.old = append([]byte{}, s.old[:len(s.old)-1-c.Pick(len(s.old)-12)]...)
	case 5:
		why = "wad has no level"
		s.old = (&Wad{Magic: "PWAD", Lumps: []Lump{L("FOO", []byte("bar")), L("MAPXY", nil)}}).Bytes(nil)
	case 6:
		why = "RMB file has a syntax error"
		os.WriteFile(filepath.Join(s.dir, "in.rej"), []byte(pick(c.D, "EXCLUDE 1\nNONSENSE\n", "GROUP\n", "BLIND x 3\n", "LINE -\n")), 0o644)
		s.opts = []string{"-d", "-rm"}
	case 7:
		why = "data of a lump lies outside the file"
		s.old = append([]byte{}, s.old...)
		dir := int(binary.LittleEndian.Uint32(s.old[8:]))
		n := int(binary.LittleEndian.Uint32(s.old[4:]))
		// any non-empty lump
		for i := 0; i < n; i++ {
			switch nameOf([8]byte(s.old[dir+16*i+8:])) {
			case "SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP":
				continue // may be replaced without being read
			}
			if binary.LittleEndian.Uint32(s.old[dir+16*i+4:]) > 0 && c.P(40) {
				binary.LittleEndian.PutUint32(s.old[dir+16*i:], uint32(len(s.old)+c.Int(0, 5000)))
				n = -1
			}
		}
		if n >= 0 {
			c.Discard()
		}
	}
	os.WriteFile(s.in, s.old, 0o666)
	fs := s.files()
	var extra []string
	if c.P(30) {
		extra = []string{"-o", c.Path("out.wad")}
	}
	r := c.Run(s.args(extra...)...)
	s.nonzero(r, why)
	if r.Crashed() && !strings.Contains(why, "RMB") {
		c.Failf("crash: %s\n%s", why, headTail(r.Out, 1000))
	}
	s.untouched(why, fs)
	c.Label("refused: " + why)
}

func safeUnwritable(c *C) {
	s := newSafeCase(c, true)
	fs := s.files()
	k := c.Pick(5)
	if k >= 3 && !haveUid() {
		c.Label("cannot act as another user here")
		k = 2
	}
	switch k {
	case 0:
		r := c.Run(s.args("-o", "/dev/full")...)
		s.nonzero(r, "output device is full")
		s.untouched("output device is full", fs)
	case 1:
		r := c.Run(s.args("-o", c.Path("no/such/dir/out.wad"))...)
		s.nonzero(r, "output cannot be created")
		s.untouched("output cannot be created", fs)
	case 2:
		r := c.RunOpt(RunOpt{Prlimit: fmt.Sprintf("fsize=%d", c.Pick(len(s.new)))}, s.args()...)
		s.nonzero(r, "file size limit is too small")
		s.untouched("file size limit is too small", fs)
	case 3:
		os.Chmod(s.in, 0o444)
		r := c.RunOpt(RunOpt{Uid: 12345}, s.args()...)
		s.nonzero(r, "input is read only")
		s.untouched("input is read only", fs)
	case 4:
		os.Chmod(s.dir, 0o555)
		r := c.RunOpt(RunOpt{Uid: 12345}, s.args()...)
		os.Chmod(s.dir, 0o777)
		s.nonzero(r, "directory is read only")
		s.untouched("directory is read only", fs)
	}
}

func safeKill(c *C) {
	s := newSafeCase(c, true)
	d := time.Duration(c.Int(0, 15000)) * time.Microsecond
	r := c.RunOpt(RunOpt{Kill: d + 1}, s.args()...)
	st := s.state()
	s.safe(st, fmt.Sprintf("killed after %v", d))
	if r.Exit == 0 && st.In != "new" {
		c.Failf("status: exit status is 0 but the input is %s", st.In)
	}
	c.Labelf("killed: input %s, temporary file %q", st.In, st.Temp)
}

// safeFault injects an error or SIGKILL at the K-th system call of a kind.
func safeFault(c *C) {
	if !haveStrace() {
		c.Label("no fault injection: strace does not work here")
		safeKill(c)
		return
	}
	s := newSafeCase(c, true)
	kill := c.P(50)
	k := c.Int(1, pick(c.D, 12, 40, 90))
	var call, act string
	if kill {
		call = pick(c.D, "write", "write", "write", "copy_file_range", "close", "openat", "unlinkat", "pread64", "lseek", "fcntl")
		act = "signal=KILL"
	} else {
		call = pick(c.D, "write", "write", "pread64", "read", "copy_file_range", "openat", "close", "unlinkat")
		act = "error=" + pick(c.D, "EIO", "ENOSPC")
		if call == "openat" {
			act = "error=" + pick(c.D, "EACCES", "EMFILE")
		}
	}
	if call == "copy_file_range" || call == "unlinkat" {
		k = 1
	}
	when := fmt.Sprint(k)
	if !kill && c.P(60) {
		when += "+"
	}
	st := []string{}
	trace := call
	if call == "write" && c.P(60) {
		// make the copy over the input a sequence of writes
		trace += ",copy_file_range"
		st = append(st, "-e", "inject=copy_file_range:error=ENOSYS")
	}
	st = append([]string{"-e", "trace=" + trace}, append(st, "-e", fmt.Sprintf("inject=%s:%s:when=%s", call, act, when))...)
	what := fmt.Sprintf("%s at %s number %s", act, call, when)
	c.Note("fault: %s", strings.Join(st, " "))
	toOut := c.P(20)
	out := c.Path("out.wad")
	var extra []string
	if toOut {
		extra = []string{"-o", out}
	}
	r := c.RunOpt(RunOpt{Strace: st}, s.args(extra...)...)
	if r.Timeout {
		c.Failf("hang: %s: the tool did not finish", what)
	}
	state := s.state()
	if toOut {
		if state.In != "old" && !bytes.Equal(s.old, s.new) {
			c.Failf("lost: %s: the input was changed although an output file was given", what)
		}
		if r.Exit == 0 {
			if b := c.Read(out); !bytes.Equal(b, s.new) {
				c.Failf("status: %s: exit status is 0, but the output is not complete", what)
			}
		}
		c.Labelf("fault with -o: exit %d", r.Exit)
		return
	}
	s.safe(state, what)
	if r.Exit == 0 && state.In != "new" {
		c.Failf("status: %s: exit status is 0 but the input is %s", what, state.In)
	}
	if r.Exit == 0 && state.Temp != "" {
		c.Failf("litter: %s: exit status is 0 but temporary file %s is left", what, state.TempName)
	}
	// (exit status 2 is the Go runtime giving up over its own failed calls)
	if !kill && r.Exit == 1 && state.In == "old" && state.Temp != "" && (call == "write" || call == "pread64" || call == "copy_file_range") {
		c.Failf("litter: %s: temporary file %s (%s) left behind", what, state.TempName, state.Temp)
	}
	c.Labelf("fault %s at %s: input %s, temporary file %q", map[bool]string{true: "kill", false: "error"}[kill], call, state.In, state.Temp)
}

var _ = reg(&Prop{
	ID: "C03", Title: "The input is never lost",
	Rule:  "a case counts when it ran to its end; distinct by scenario, fault and wad",
	Quick: 4000, Thorough: 150000,
	Run: func(c *C) {
		names := []string{"in place", "same file", "bad input", "cannot write", "killed", "fault"}
		k := pick(c.D, 0, 1, 2, 3, 4, 5, 5, 5)
		[]func(*C){safeInPlace, safeSameFile, safeBadInput, safeUnwritable, safeKill, safeFault}[k](c)
		c.Label("scenario: " + names[k])
		c.NonTrivial(names[k] + strings.Join(c.notes, " "))
		c.Sample("%s: %s", names[k], strings.Join(c.notes, " | "))
	},
})
