package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/sim/proto"
)

// C08: equal inputs give byte-identical outputs.

// Around is what a run should not depend on.
type Around struct {
	Sched Sched         `json:"sched"`
	NoMap bool          `json:"nomap,omitempty"`
	Start int64         `json:"start,omitempty"` // s
	Tick  int64         `json:"tick,omitempty"`
	TZ    int           `json:"tz,omitempty"` // minutes
	Umask int           `json:"umask,omitempty"`
	Pid   int           `json:"pid,omitempty"`
	Tmp   string        `json:"tmp,omitempty"`
	Fifo  uint64        `json:"fifo,omitempty"`  // which inputs are FIFOs
	Order uint64        `json:"order,omitempty"` // in which order files were made
	Times uint64        `json:"times,omitempty"` // times of files that are newer than SOURCE_DATE_EPOCH
	Move  bool          `json:"move,omitempty"`
	SDE   string        `json:"sde,omitempty"` // where it should not matter
	Delay int64         `json:"delay,omitempty"`
	Env   []string      `json:"env,omitempty"`
	Clock []proto.Fault `json:"clock,omitempty"`
	Write int           `json:"write,omitempty"`
}

type sameCase struct {
	Sq    *sqCase    `json:"sq,omitempty"`
	Dir   *dirCase   `json:"dir,omitempty"`
	Go    *goRun     `json:"go,omitempty"`
	Wheel *wheelCase `json:"wheel,omitempty"`
	Img   *imgCase   `json:"img,omitempty"`
	A     Around     `json:"a"`
	B     Around     `json:"b"`
}

// tzFile is a time zone with a fixed offset.
func tzFile(min int) []byte {
	b := append([]byte("TZif"), make([]byte, 16)...)
	for _, n := range []uint32{0, 0, 0, 0, 1, 4} {
		b = binary.BigEndian.AppendUint32(b, n)
	}
	b = binary.BigEndian.AppendUint32(b, uint32(int32(min*60)))
	b = append(b, 0, 0)
	return append(b, "TST\x00"...)
}

func (c *sameCase) scenario(a Around) *proto.Scenario {
	n := 0
	var sc *proto.Scenario
	fifoOK := false
	free := false // SOURCE_DATE_EPOCH does not matter
	sde := int64(0)
	if c.Sq != nil {
		n++
		c.Sq.Faults = nil
		for _, f := range c.Sq.Forms {
			if strings.HasPrefix(f, "fifo") {
				panic("ill-formed case")
			}
		}
		sc = c.Sq.scenario()
		fifoOK, free = true, true
	}
	if c.Dir != nil {
		n++
		c.Dir.Faults = nil
		sc = c.Dir.scenario()
		v, err := strconv.ParseInt(c.Dir.SDE, 10, 64)
		if err != nil || v > 1600000000 {
			panic("ill-formed case")
		}
		sde = v
	}
	if c.Go != nil {
		n++
		c.Go.Faults = nil
		if c.Go.SDE > 1600000000 {
			panic("ill-formed case")
		}
		sc = c.Go.scenario("")
	}
	if c.Wheel != nil {
		n++
		sc = c.Wheel.scenario()
		sc.Dump = nil
		free = true
	}
	if c.Img != nil {
		n++
		c.Img.Faults = nil
		for _, f := range append([]string{c.Img.BaseF}, c.Img.Forms...) {
			if strings.HasPrefix(f, "fifo") {
				panic("ill-formed case")
			}
		}
		sc = c.Img.scenario()
		fifoOK, free = true, true
	}
	if n != 1 {
		panic("ill-formed case")
	}
	if a.Start != 0 {
		sc.Start = a.Start * 1e9
	}
	if sc.Start < 1650000000e9 {
		sc.Start = 1650000000e9
	}
	a.Sched.apply(sc)
	sc.NoMapRandom = a.NoMap
	if a.Tick > 0 {
		sc.Tick = a.Tick
	}
	sc.WriteMax = a.Write
	sc.Umask = uint32(a.Umask)
	sc.Pid = a.Pid
	if a.TZ != 0 {
		sc.FS = append(sc.FS, proto.Node{P: "/etc/zone", T: "f", M: 0o644, D: tzFile(a.TZ)})
		env(sc, "TZ=/etc/zone")
	}
	if a.Tmp != "" {
		sc.FS = append(sc.FS, proto.Node{P: a.Tmp, T: "d", M: 0o700})
		env(sc, "TMPDIR="+a.Tmp)
	}
	for _, e := range a.Env {
		env(sc, e)
	}
	if free && a.SDE != "" {
		env(sc, "SOURCE_DATE_EPOCH="+a.SDE)
	}
	for i := range sc.Children {
		sc.Children[i].Delay += a.Delay
	}
	for _, f := range a.Clock {
		if f.Kind != "clock" || f.Dur < -1e7*1e9 {
			panic("ill-formed case")
		}
		sc.Faults = append(sc.Faults, f)
	}
	count := map[string]int{}
	for _, s := range sc.Args {
		count[s]++
	}
	if a.Fifo != 0 && fifoOK {
		rr := NewRand("fifo", a.Fifo)
		for i := range sc.FS {
			if nd := &sc.FS[i]; strings.HasPrefix(nd.P, "/work/l") || nd.P == "/work/base.tar" {
				if rr.P(1, 2) && count[nd.P] < 2 {
					nd.T = "p"
				}
			}
		}
	}
	if a.Times != 0 {
		rr := NewRand("times", a.Times)
		for i := range sc.FS {
			nd := &sc.FS[i]
			switch {
			case c.Dir == nil && strings.HasPrefix(nd.P, "/work/"):
				nd.MT = int64(rr.PickI(1, 1000000000, 1650000000, 2000000000)) * 1e9
			case c.Dir != nil && strings.HasPrefix(nd.P, "/src") && nd.MT > sde*1e9 && nd.T != "h":
				// at or after the second that follows
				nd.MT = (sde+1)*1e9 + int64(rr.PickI(0, 1, 500000000, 1e9, 400000000000000000))
			}
		}
	}
	if a.Order != 0 {
		rr := NewRand("order", a.Order)
		rr.Shuffle(len(sc.FS), func(i, j int) { sc.FS[i], sc.FS[j] = sc.FS[j], sc.FS[i] })
		// directories keep their attributes only if they come first, hard links need their target
		rank := func(t string) int {
			switch t {
			case "d":
				return 0
			case "h":
				return 2
			}
			return 1
		}
		sort.SliceStable(sc.FS, func(i, j int) bool { return rank(sc.FS[i].T) < rank(sc.FS[j].T) })
		var hs []int
		for i, nd := range sc.FS {
			if nd.T == "h" {
				hs = append(hs, i)
			}
		}
		// links to links: put targets first
		for again := true; again; {
			again = false
			pos := map[string]int{}
			for _, i := range hs {
				pos[sc.FS[i].P] = i
			}
			for _, i := range hs {
				if j, ok := pos[sc.FS[i].L]; ok && j > i {
					sc.FS[i], sc.FS[j] = sc.FS[j], sc.FS[i]
					again = true
					break
				}
			}
		}
	}
	if a.Move {
		mv := func(s string) string {
			s = strings.Replace(s, "/work/", "/data/deep/", 1)
			if s == "/work" {
				s = "/data/deep"
			}
			if c.Dir != nil && (s == "/src" || strings.HasPrefix(s, "/src/")) {
				s = "/data/tree" + s[4:]
			}
			return s
		}
		for i := range sc.FS {
			nd := &sc.FS[i]
			nd.P = mv(nd.P)
			if nd.T == "h" || nd.L == "/src" {
				nd.L = mv(nd.L)
			}
		}
		if c.Dir != nil {
			sc.FS = append(sc.FS, proto.Node{P: "/data/src", T: "l", L: "/data/tree"})
		}
		for i := range sc.Args {
			if sc.Args[i] == "../src" || sc.Args[i] == "/work/../src" {
				sc.Args[i] = strings.Replace(sc.Args[i], "src", "tree", 1)
				if sc.Args[i][0] == '/' {
					sc.Args[i] = "/data/deep/../tree"
				}
				continue
			}
			sc.Args[i] = mv(sc.Args[i])
		}
		sc.Cwd = mv(sc.Cwd)
	}
	return sc
}

func diffBytes(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	s := fmt.Sprintf("lengths %d and %d, first difference at byte %d", len(a), len(b), i)
	ea, e1 := rdTar(a)
	eb, e2 := rdTar(b)
	if e1 == nil && e2 == nil {
		for k := 0; k < len(ea) || k < len(eb); k++ {
			var x, y string
			if k < len(ea) {
				x = dumpTE(ea[k : k+1])
			}
			if k < len(eb) {
				y = dumpTE(eb[k : k+1])
			}
			if x != y {
				return s + "\nfirst: " + trunc(x, 600) + "\nsecond: " + trunc(y, 600)
			}
		}
		s += "\n(same entries)"
	}
	return s
}

func checkSame(x *X, ci interface{}) *Violation {
	c := ci.(*sameCase)
	ra := x.Run(c.scenario(c.A))
	rb := x.Run(c.scenario(c.B))
	for _, r := range []*proto.Result{ra, rb} {
		if v := sane(r); v != nil {
			return v
		}
	}
	if (ra.Exit == 0) != (rb.Exit == 0) {
		return vio("outcome", "one run ends with %d, the other with %d:\n%s\n%s", ra.Exit, rb.Exit, trunc(string(ra.Stderr), 400), trunc(string(rb.Stderr), 400))
	}
	if ra.Exit != 0 {
		return nil
	}
	x.Probe("compared")
	if !bytes.Equal(ra.Stdout, rb.Stdout) {
		return vio("differ", "two runs on equal inputs give different outputs: %s", diffBytes(ra.Stdout, rb.Stdout))
	}
	return nil
}

func genAround(r *Rand) Around {
	a := Around{Sched: genSched(r), NoMap: r.P(1, 4)}
	a.Start = int64(1650000000 + r.N(2000000000))
	a.Tick = int64(r.PickI(1, 1000, 1000000, 1000000000))
	if r.P(2, 3) {
		a.TZ = r.PickI(-720, -300, 60, 345, 540, 840)
	}
	a.Umask = r.PickI(0o22, 0, 0o77, 0o2, 0o27, 0o7)
	a.Pid = r.PickI(0, 2, 4242, 99999, 4000000)
	if r.P(1, 2) {
		a.Tmp = r.Pick("/var/tmp/x", "/tmp/a b", "/t")
	}
	if r.P(1, 2) {
		a.Fifo = r.U64() | 1
	}
	if r.P(1, 2) {
		a.Order = r.U64() | 1
	}
	if r.P(1, 2) {
		a.Times = r.U64() | 1
	}
	a.Move = r.P(1, 3)
	a.SDE = r.Pick("", "", "0", "1600000000", "1234567890", "4000000000")
	if r.P(1, 2) {
		a.Delay = int64(r.PickI(1, 1000, 100000)) * 1e6
	}
	if r.P(1, 3) {
		a.Env = append(a.Env, r.Pick("LANG=de_DE.UTF-8", "LC_ALL=C", "HOME=/nonexistent", "USER=eve", "PYTHONHASHSEED=random", "PYTHONPATH=/opt/x", "HOSTNAME=h", "ZZ_MARK=1"))
	}
	for k := r.N(3); k > 0; k-- {
		a.Clock = append(a.Clock, proto.Fault{At: r.PickI(r.N(40), r.N(200), r.N(1000)), Kind: "clock", Dur: int64(r.Range(-10000000, 100000000)) * 1e9 / 3})
	}
	if r.P(1, 4) {
		a.Write = r.PickI(1, 7, 512, 1000)
	}
	return a
}

func genSame(r *Rand, i int) interface{} {
	c := &sameCase{}
	switch r.N(6) {
	case 0:
		s := genSquash(r, i).(*sqCase)
		s.Bases = nil
		for k := range s.Forms {
			s.Forms[k] = strings.TrimPrefix(s.Forms[k], "fifo")
		}
		c.Sq = s
	case 1:
		d := genDir(r, i).(*dirCase)
		d.SDE = r.Pick("1600000000", "1500000000", "1000000000", "1", "0")
		c.Dir = d
	case 2:
		c.Go = &goRun{Files: genBins(r), SDE: int64(r.PickI(1600000000, 1500000000, 1, 0))}
	case 3, 4:
		w := &wheelCase{}
		w.W, w.P = genGoodWheel(r)
		c.Wheel = w
	default:
		m := genImgCase(r, i).(*imgCase)
		if contains(badTags, m.Tag) {
			m.Tag = ""
		}
		m.BaseF = strings.Replace(m.BaseF, "fifo", "file", 1)
		for k := range m.Forms {
			m.Forms[k] = strings.TrimPrefix(m.Forms[k], "fifo")
		}
		c.Img = m
	}
	c.A = genAround(r)
	c.B = genAround(r)
	return c
}

func init() {
	properties["C08"] = &Property{
		ID: "C08", New: func() interface{} { return &sameCase{} }, Gen: genSame, Check: checkSame,
		Quick: 9000, Thorough: 250000,
		Rule:   "Workloads: each layer and image command on seeded inputs, run twice in two seeded environments that differ in schedule, map order, clock, clock speed and jumps during the run, time zone, umask, process id, temporary directory, directory listing and creation order, inode numbers, location of the inputs, modification times (of input archives; of files newer than SOURCE_DATE_EPOCH), sizes of reads and writes, pipe capacity, FIFO or file, delays of the tools, unrelated environment variables, and, where it should not matter, SOURCE_DATE_EPOCH; the two outputs are compared byte for byte.",
		Real:   []string{"the whole command line program, go-containerregistry, archive/tar, archive/zip"},
		Stub:   []string{"the kernel", "go and the byte compiler (whose output depends only on its input, SOURCE_DATE_EPOCH and PYTHONHASHSEED)"},
		Assume: []string{"the clock is not before SOURCE_DATE_EPOCH"},
	}
}
