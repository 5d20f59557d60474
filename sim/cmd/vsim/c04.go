package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"io"
	"strings"

	"verif/sim/proto"
)

// C04: every command either succeeds completely or fails cleanly.

// Damage is done to an input.
type Damage struct {
	File int    `json:"file"`
	Kind string `json:"kind"`
	At   int    `json:"at"`
	N    int    `json:"n,omitempty"`
}

type cleanCase struct {
	Sq     *sqCase       `json:"sq,omitempty"`
	Dir    *dirCase      `json:"dir,omitempty"`
	Go     *goRun        `json:"go,omitempty"`
	Out    string        `json:"out,omitempty"`
	Wheel  *wheelCase    `json:"wheel,omitempty"`
	Img    *imgCase      `json:"img,omitempty"`
	Get    *getCase      `json:"get,omitempty"`
	Insp   *inspCase     `json:"insp,omitempty"`
	Args   []string      `json:"args,omitempty"`
	Sched  Sched         `json:"sched"`
	Fifo   uint64        `json:"fifo,omitempty"`
	Write  int           `json:"write,omitempty"`
	Quota  int64         `json:"quota,omitempty"`
	Dmg    []Damage      `json:"dmg,omitempty"`
	Faults []proto.Fault `json:"faults,omitempty"`
}

// base is the scenario without anything that goes wrong.
func (c *cleanCase) base() *proto.Scenario {
	var scs []*proto.Scenario
	noFifo := func(fs ...string) {
		for _, f := range fs {
			if strings.HasPrefix(f, "fifo") {
				panic("ill-formed case")
			}
		}
	}
	if c.Sq != nil {
		noFifo(c.Sq.Forms...)
		c.Sq.Faults = nil
		scs = append(scs, c.Sq.scenario())
	}
	if c.Dir != nil {
		c.Dir.Faults = nil
		if c.Dir.SDE == "" {
			panic("ill-formed case")
		}
		scs = append(scs, c.Dir.scenario())
	}
	if c.Go != nil {
		c.Go.Faults = nil
		if c.Go.SDE > 1600000000 {
			panic("ill-formed case")
		}
		sc := c.Go.scenario(c.Out)
		sc.Dump = []string{"/work"}
		scs = append(scs, sc)
	}
	if c.Wheel != nil {
		sc := c.Wheel.scenario()
		sc.Dump = nil
		scs = append(scs, sc)
	}
	if c.Img != nil {
		noFifo(append([]string{c.Img.BaseF}, c.Img.Forms...)...)
		c.Img.Faults = nil
		scs = append(scs, c.Img.scenario())
	}
	if c.Get != nil {
		if c.Get.Lib {
			panic("ill-formed case")
		}
		c.Get.Faults = nil
		scs = append(scs, c.Get.scenario())
	}
	if c.Insp != nil {
		noFifo(c.Insp.Form)
		c.Insp.Faults, c.Insp.W = nil, nil
		scs = append(scs, c.Insp.scenario())
	}
	if len(c.Args) > 0 {
		sc := cli(c.Args...)
		addFile(sc, "/work/l0", mkTar([]TE{{N: "a", T: "f", M: 0o644, D: []byte("x")}}))
		addFile(sc, "/work/empty", nil)
		addFile(sc, "/work/junk", []byte("junk: [\n"))
		addFile(sc, "/work/foo-1.0-py3-none-any.whl", []byte("PK"))
		sc.FS = append(sc.FS, proto.Node{P: "/work/d", T: "d", M: 0o755}, proto.Node{P: "/work/d/f", T: "f", M: 0o644, D: []byte("y")}, proto.Node{P: "/work/lnk", T: "l", L: "lnk"})
		sc.Children = []proto.Child{{Name: "go", Files: []proto.Node{{P: "b", D: []byte("b")}}}}
		scs = append(scs, sc)
	}
	if len(scs) != 1 {
		panic("ill-formed case")
	}
	sc := scs[0]
	Sched{}.apply(sc)
	return sc
}

func (d Damage) do(b []byte) []byte {
	b = append([]byte{}, b...)
	if d.At < 0 || d.N < 0 {
		panic("ill-formed case")
	}
	if len(b) == 0 {
		return b
	}
	at := d.At % len(b)
	switch d.Kind {
	case "cut":
		return b[:at]
	case "flip":
		b[at] ^= 1 << (d.N % 8)
	case "set":
		b[at] = byte(d.N)
	case "zero":
		for i := at; i < len(b) && i < at+1+d.N%600; i++ {
			b[i] = 0
		}
	case "drop":
		e := at + 1 + d.N%600
		if e > len(b) {
			e = len(b)
		}
		return append(b[:at], b[e:]...)
	case "dup":
		e := at + 1 + d.N%600
		if e > len(b) {
			e = len(b)
		}
		return append(append(append([]byte{}, b[:e]...), b[at:e]...), b[e:]...)
	case "append":
		return append(b, bytes.Repeat([]byte{byte(d.At)}, 1+d.N%600)...)
	default:
		panic("ill-formed case")
	}
	return b
}

func inputNodes(sc *proto.Scenario) (out []int) {
	for i, n := range sc.FS {
		if strings.HasPrefix(n.P, "/work/") && n.T == "f" && len(n.D) > 0 {
			out = append(out, i)
		}
	}
	return out
}

func (c *cleanCase) scenario() *proto.Scenario {
	sc := c.base()
	c.Sched.apply(sc)
	sc.WriteMax = c.Write
	sc.Quota = c.Quota
	in := inputNodes(sc)
	for _, d := range c.Dmg {
		if len(in) == 0 || d.File < 0 {
			panic("ill-formed case")
		}
		n := &sc.FS[in[d.File%len(in)]]
		n.D = d.do(n.D)
	}
	if c.Fifo != 0 && (c.Sq != nil || c.Img != nil || c.Insp != nil) {
		rr := NewRand("fifo", c.Fifo)
		count := map[string]int{}
		for _, a := range sc.Args {
			count[a]++
		}
		for _, i := range in {
			if rr.P(1, 2) && count[sc.FS[i].P] < 2 {
				sc.FS[i].T = "p"
			}
		}
	}
	sc.Faults = c.Faults
	return sc
}

func (c *cleanCase) golden(x *X) (*proto.Result, *Violation) {
	sc := c.base()
	key, _ := json.Marshal(sc)
	b := x.memo(string(key), func() []byte {
		r := x.Run(sc)
		b, _ := json.Marshal(r)
		return b
	})
	var r proto.Result
	if json.Unmarshal(b, &r) != nil {
		infra("golden")
	}
	return &r, sane(&r)
}

// harmless faults do not change the result.
func harmless(fired string) bool {
	switch fired {
	case "errno:EINTR@read", "errno:EINTR@open", "errno:EINTR@write", "errno:EINTR@stdout", "errno:EINTR@piperead":
		return true
	}
	return strings.HasPrefix(fired, "short@") || strings.HasPrefix(fired, "clock@")
}

func checkClean(x *X, ci interface{}) *Violation {
	c := ci.(*cleanCase)
	if v := c.wellFormed(); v != "" {
		panic("ill-formed case: " + v)
	}
	g, v := c.golden(x)
	if v != nil {
		return v
	}
	r := x.Run(c.scenario())
	if v := sane(r); v != nil {
		return v
	}
	msg := trunc(string(r.Stderr), 600)
	if r.Exit != 0 && silent(r) {
		return vio("silent", "it fails (exit status %d) without a message", r.Exit)
	}
	if r.LiveProcs > 0 && r.Exit != 0 {
		x.Probe("children-left")
	}
	if len(c.Args) > 0 {
		if r.Exit == 0 && len(r.Stdout) == 0 && !strings.Contains(strings.Join(c.Args, " "), "-o") {
			return vio("nothing", "%q succeeds but writes nothing", c.Args)
		}
		return nil
	}
	ok := len(c.Dmg) == 0 && c.Quota == 0
	for k := range r.Fired {
		ok = ok && harmless(k)
	}
	if ok && r.Exit != 0 && g.Exit == 0 {
		return vio("disturbed", "nothing is wrong with its inputs, but it fails: %s", msg)
	}
	if r.Exit != 0 {
		x.Probe("failed")
		return nil
	}
	if len(c.Dmg) > 0 {
		x.Probe("accepted-damaged")
		if len(c.Dmg) == 1 && c.Dmg[0].Kind == "cut" && (c.Sq != nil || c.Img != nil) {
			sc := c.base()
			in := inputNodes(sc)
			n := sc.FS[in[c.Dmg[0].File%len(in)]]
			if at := c.Dmg[0].At % len(n.D); (c.Sq != nil || n.P == "/work/base.tar") && cutInEntry(n.D, at) {
				return vio("truncated", "%s is cut off after %d of %d bytes, in the middle of an entry, but it succeeds\nmessages: %s", n.P, at, len(n.D), msg)
			}
			x.Probe("cut-between")
		}
		if c.Get == nil && c.Insp == nil && c.Out == "" {
			if _, err := rdTar(r.Stdout); err != nil {
				return vio("malformed", "it succeeds on a damaged input, but its output is not well-formed: %v", err)
			}
		}
		return nil
	}
	if c.Insp != nil {
		for k := range r.Fired {
			if !harmless(k) && !hitStdout(r) {
				return nil // a failing candidate is passed over; C14 judges this
			}
		}
	}
	if g.Exit != 0 {
		return vio("accepted", "it succeeds with faults, but not without: %s", trunc(string(g.Stderr), 400))
	}
	x.Probe("same-result")
	if !bytes.Equal(r.Stdout, g.Stdout) {
		d := diffBytes(g.Stdout, r.Stdout)
		return vio("incomplete", "it succeeds, but its output differs from that of an undisturbed run: %s\nmessages: %s", d, msg)
	}
	if c.Out != "" {
		a, b := node(g.FS, outPath(c.Out)), node(r.FS, outPath(c.Out))
		if a == nil || b == nil || !bytes.Equal(a.D, b.D) {
			return vio("incomplete", "it succeeds, but the output file differs from that of an undisturbed run")
		}
	}
	return nil
}

// cutInEntry tells whether the first at bytes of a (maybe compressed) archive
// end within a header or within the content of a file.
func cutInEntry(d []byte, at int) bool {
	short := d[:at]
	if bytes.HasPrefix(d, []byte{0x1f, 0x8b}) {
		z, err := gzip.NewReader(bytes.NewReader(short))
		if err != nil {
			return false
		}
		whole, err := gunzip(d)
		if err != nil {
			return false
		}
		short, _ = io.ReadAll(z)
		d = whole
	}
	count := func(b []byte) (n int, err error) {
		t := tar.NewReader(bytes.NewReader(b))
		for ; ; n++ {
			if _, err := t.Next(); err == io.EOF {
				return n, nil
			} else if err != nil {
				return n, err
			}
			if _, err := io.Copy(io.Discard, t); err != nil {
				return n, err
			}
		}
	}
	all, err := count(d)
	if err != nil {
		return false
	}
	n, err := count(short)
	return err != nil && n < all
}

func hitStdout(r *proto.Result) bool {
	for k := range r.Fired {
		if strings.HasSuffix(k, "@stdout") {
			return true
		}
	}
	return false
}

func (c *cleanCase) wellFormed() string {
	if c.Wheel != nil {
		if c.Wheel.W == nil || len(c.Wheel.P.Compile) < 3 {
			return "wheel"
		}
		if _, _, why := c.Wheel.W.install(c.Wheel.P); why != "" {
			return why
		}
	}
	if c.Quota < 0 {
		return "quota"
	}
	return ""
}

var argWords = []string{"layer", "image", "python", "dir", "squash", "wheel", "gobuild", "build", "inspect", "getwheel", "l0", "d", "empty", "junk", "nonexistent", "lnk", "foo-1.0-py3-none-any.whl",
	"--", "-x", "--bogus", "--base=l0", "--base=junk", "--base", "-t", "--tag=a:b:c", "--tag=", "-e", "A=1", "--config.Env.append=x", "-E", "-c", "--config.Cmd=", "-w", "--prefix=usr", "--prefix=..", "--prefix-uid=x", "--prefix-uid=99999999999999999999", "--chown-uid=-1", "--chown-gid=5",
	"--platform-file=junk", "--platform-file=empty", "--platform-file=nonexistent", "--platform-file=d", "--interpreter=", "--interpreter=d", "--interpreter=./l0", "--imagefile=l0", "--imagefile=d", "--imagefile=", "--index-server=junk", "--index-server=", "--index-server=http://x.test/", "--output=o.tar", "--output=d", "--output=nonexistent/o", "./...", "", ".", "/", "é", "\x00\xff", "-", "---", "--=", "-\u20ac"}

func genClean(r *Rand, i int) interface{} {
	c := &cleanCase{Sched: genSched(r)}
	if r.P(1, 3) {
		c.Fifo = r.U64() | 1
	}
	if r.P(1, 4) {
		c.Write = r.PickI(1, 7, 512, 1000)
	}
	switch r.N(9) {
	case 0:
		s := genSquash(r, i).(*sqCase)
		s.Bases = nil
		for k := range s.Forms {
			s.Forms[k] = strings.TrimPrefix(s.Forms[k], "fifo")
		}
		c.Sq = s
	case 1:
		d := genDir(r, i).(*dirCase)
		d.SDE = r.Pick("1600000000", "1500000000", "1")
		c.Dir = d
	case 2:
		c.Go = &goRun{Files: genBins(r), SDE: int64(r.PickI(1600000000, 1500000000, 1)), Umask: 0o22}
		if r.P(1, 3) {
			c.Out = "out.tar"
		}
	case 3, 4:
		w := &wheelCase{}
		w.W, w.P = genGoodWheel(r)
		c.Wheel = w
	case 5, 6:
		m := genImgCase(r, i).(*imgCase)
		m.BaseF = strings.Replace(m.BaseF, "fifo", "file", 1)
		for k := range m.Forms {
			m.Forms[k] = strings.TrimPrefix(m.Forms[k], "fifo")
		}
		c.Img = m
	case 7:
		g := genGet(r, i).(*getCase)
		g.Lib = false
		c.Get = g
	default:
		p := genInsp(r, i).(*inspCase)
		p.W, p.Form = nil, ""
		c.Insp = p
	}
	return c
}

func genArgs(r *Rand) []string {
	var a []string
	if r.P(3, 4) {
		a = append(a, [][]string{{"layer", "dir"}, {"layer", "squash"}, {"layer", "wheel"}, {"layer", "gobuild"}, {"image", "build"}, {"python", "inspect"}, {"python", "getwheel"}, {"layer"}, {"python"}, {"image"}}[r.N(10)]...)
	}
	for k := r.N(6); k > 0; k-- {
		a = append(a, argWords[r.N(len(argWords))])
	}
	if len(a) == 0 {
		a = []string{""}
	}
	return a
}

var everyFault = merged(inputFaults, outFaults, writeFaults, toolFaults, map[string]faultSpec{
	"lseek":  {errnos: []int{eIO}, kinds: []string{"errno"}},
	"access": {errnos: []int{eIO, eACCES}, kinds: []string{"errno"}},
	"chmod":  {errnos: []int{eIO, eACCES}, kinds: []string{"errno"}},
	"getcwd": {errnos: []int{eNOENT, eACCES}, kinds: []string{"errno"}},
	"open":   {errnos: []int{eIO, eACCES, eMFILE, eNOENT, eINTR, eNOMEM}, kinds: []string{"errno", "errno", "sticky"}},
})

func init() {
	properties["C04"] = &Property{
		ID: "C04", New: func() interface{} { return &cleanCase{} }, Gen: genClean, Check: checkClean,
		Level: "fault_enumeration",
		Quick: 300, Thorough: 9000,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := ci.(*cleanCase)
			var out []interface{}
			with := func(f func(c *cleanCase)) {
				cc := *c
				f(&cc)
				out = append(out, &cc)
			}
			sc := c.scenario()
			sc.Trace = true
			g := x.Run(sc)
			// a fault at every system call
			n := 0
			for _, o := range g.Trace {
				if _, ok := everyFault[o.Name]; ok {
					n++
				}
			}
			max := 120
			if g.Exit != 0 {
				max = 10
			}
			for _, o := range g.Trace {
				if _, ok := everyFault[o.Name]; !ok || (n > max && !r.P(max, n) && o.Name != "stdout" && o.Name != "closew") || (n > 1000 && !r.P(max, n)) {
					continue
				}
				one := proto.Result{Trace: []proto.Op{o}}
				f := pickFault(r, &one, everyFault)
				if f == nil {
					continue
				}
				with(func(c *cleanCase) {
					c.Faults = []proto.Fault{*f}
					if r.P(1, 6) {
						if f2 := pickFault(r, g, everyFault); f2 != nil && f2.At != f.At {
							c.Faults = append(c.Faults, *f2)
						}
					}
				})
			}
			for k := 0; k < 3; k++ { // only harmless ones
				with(func(c *cleanCase) {
					for j := r.Range(1, 6); j > 0; j-- {
						if f := pickFault(r, g, everyFault); f != nil {
							if f.Kind != "short" {
								f.Kind, f.Errno = "errno", eINTR
								ok := false
								for _, o := range g.Trace {
									ok = ok || (o.I == f.At && (o.Name == "read" || o.Name == "open" || o.Name == "write" || o.Name == "stdout" || o.Name == "piperead"))
								}
								if !ok {
									continue
								}
							}
							c.Faults = append(c.Faults, *f)
						}
					}
				})
			}
			with(func(c *cleanCase) { c.Quota = int64(r.PickI(1, 100, 1000, 5000, 20000)) })
			if in := inputNodes(c.base()); len(in) > 0 && g.Exit == 0 {
				for k := 0; k < 14; k++ {
					with(func(c *cleanCase) {
						c.Dmg = nil
						for j := r.PickI(1, 1, 1, 2, 3); j > 0; j-- {
							c.Dmg = append(c.Dmg, Damage{File: r.N(8), Kind: r.Pick("cut", "flip", "flip", "set", "zero", "drop", "dup", "append"), At: r.N(1 << 20), N: r.N(1 << 12)})
						}
					})
				}
			}
			for k := 0; k < 6; k++ {
				cc := &cleanCase{Args: genArgs(r), Sched: genSched(r)}
				out = append(out, cc)
				sc := cc.scenario()
				sc.Trace = true
				if f := pickFault(r, x.Run(sc), merged(inputFaults, toolFaults)); f != nil {
					out = append(out, &cleanCase{Args: cc.Args, Sched: cc.Sched, Faults: []proto.Fault{*f}})
				}
			}
			return out
		},
		Rule:   "Workloads: every command on seeded inputs; for each, a fault is put on every system call of a recorded run in turn (errors, lasting errors, short transfers, interrupted calls; on inputs, standard output, temporary files, pipes, process creation; sampled for long runs), sometimes a second one, sets of harmless faults, a full disk, and damaged inputs (cut, flipped, overwritten, dropped, repeated, appended bytes); and arbitrary argument lists. Each run is compared with the undisturbed run of the same command.",
		Real:   []string{"the whole command line program, go-containerregistry, archive/tar, archive/zip, net/http, os/exec"},
		Stub:   []string{"the kernel", "go, python, docker, the network"},
		Assume: []string{"the user and group database can be read (archive/tar looks names up as far as it can)", "help texts are not a result", "a transfer is not cut below seven bytes where go-containerregistry looks at the first two bytes of a file with one read"},
	}
}
