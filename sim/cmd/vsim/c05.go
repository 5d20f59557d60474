package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"strings"

	"verif/sim/proto"
)

// C05: the --output file of gobuild.

type goRun struct {
	Files  []proto.Node  `json:"files,omitempty"` // what the compiler produces
	SDE    int64         `json:"sde"`
	Umask  int           `json:"umask,omitempty"`
	Sched  Sched         `json:"sched"`
	Quota  int64         `json:"quota,omitempty"`
	Faults []proto.Fault `json:"faults,omitempty"`
	Crash  string        `json:"crash,omitempty"`
	CSeed  uint64        `json:"cseed,omitempty"`
	Fail   bool          `json:"fail,omitempty"` // the compiler fails
	Pid    int           `json:"pid,omitempty"`
}

type outCase struct {
	Out  string       `json:"out"` // argument of --output
	Old  string       `json:"old,omitempty"`
	OldD []byte       `json:"oldd,omitempty"`
	OldF []proto.Node `json:"oldf,omitempty"`
	OldE string       `json:"olde,omitempty"` // a change made to an entry of the old layer
	OldI int          `json:"oldi,omitempty"`
	Runs []goRun      `json:"runs"`
}

func (g *goRun) scenario(out string) *proto.Scenario {
	sc := cli("layer", "gobuild")
	if out != "" {
		sc.Args = append(sc.Args, "--output="+out)
	}
	sc.Args = append(sc.Args, "./cmd/a")
	env(sc, fmt.Sprintf("SOURCE_DATE_EPOCH=%d", g.SDE))
	g.Sched.apply(sc)
	sc.Umask = uint32(g.Umask)
	for _, f := range g.Files {
		if f.P == "" || strings.Contains(f.P, "/") || f.M == 0 {
			panic("ill-formed case")
		}
	}
	files := append([]proto.Node{}, g.Files...)
	for i := range files {
		files[i].M = 0 // 777, without what the umask takes away
	}
	ch := proto.Child{Name: "go", Files: files}
	if g.Fail {
		ch.Exit, ch.After, ch.Stderr = 1, -1, []byte("build failed\n")
	}
	sc.Children = []proto.Child{ch}
	sc.Pid = g.Pid
	return sc
}

// plain is the layer that a run without faults writes to its output.
func (g *goRun) plain(x *X) []byte {
	gg := goRun{Files: g.Files, SDE: g.SDE, Umask: g.Umask}
	b, _ := json.Marshal(gg)
	return x.memo(string(b), func() []byte {
		r := x.Run(gg.scenario(""))
		if v := sane(r); v != nil || r.Exit != 0 {
			return nil
		}
		return r.Stdout
	})
}

// sameExceptTimes compares two layers; ok is false if one cannot be read.
func sameExceptTimes(a, b []byte) (same, ok bool) {
	for _, d := range []*[]byte{&a, &b} {
		if bytes.HasPrefix(*d, []byte{0x1f, 0x8b}) {
			u, err := gunzip(*d)
			if err != nil {
				return false, false
			}
			*d = u
		}
	}
	ea, err1 := rdTar(a)
	eb, err2 := rdTar(b)
	if err1 != nil || err2 != nil {
		return false, false
	}
	if len(ea) != len(eb) {
		return false, true
	}
	for i := range ea {
		p, q := ea[i], eb[i]
		p.MT, p.AT, p.CT, q.MT, q.AT, q.CT, p.F, q.F = 0, 0, 0, 0, 0, 0, 0, 0
		if fmt.Sprintf("%+v", p) != fmt.Sprintf("%+v", q) {
			return false, true
		}
	}
	return true, true
}

func outPath(out string) string {
	if path.IsAbs(out) {
		return path.Clean(out)
	}
	return path.Join("/work", out)
}

// absent: a file was made to look absent.
func absent(fs []proto.Fault) bool {
	for _, f := range fs {
		if f.Errno == 2 {
			return true
		}
	}
	return false
}

func node(fs []proto.Node, p string) *proto.Node {
	for i := range fs {
		if fs[i].P == p {
			return &fs[i]
		}
	}
	return nil
}

// edit changes an entry of a layer.
func (c *outCase) edit(b []byte) []byte {
	if c.OldE == "" || b == nil {
		return b
	}
	es, err := rdTar(b)
	if err != nil || len(es) == 0 {
		return b
	}
	e := &es[c.OldI%len(es)]
	switch c.OldE {
	case "mode":
		e.M ^= 0o010
	case "setuid":
		e.M |= 0o4000
	case "uid":
		e.U++
	case "gid":
		e.G++
	case "uname":
		e.UN = "other"
	case "gname":
		e.GN = ""
	case "xattr":
		e.X = map[string]string{"user.a": "1"}
	case "nothing":
	default:
		panic("ill-formed case")
	}
	return mkTar(es)
}

func checkOut(x *X, ci interface{}) *Violation {
	c := ci.(*outCase)
	if c.Out == "" || len(c.Runs) == 0 {
		panic("ill-formed case")
	}
	target := outPath(c.Out)
	fs := []proto.Node{{P: "/work", T: "d", M: 0o755}, {P: "/work/sub", T: "d", M: 0o755}, {P: "/tmp", T: "d", M: 0o1777}}
	if c.Old != "" {
		n := proto.Node{P: target, T: "f", M: 0o640, MT: 1400000000e9}
		switch c.Old {
		case "data":
			n.D = c.OldD
		case "layer", "gz":
			g := goRun{Files: c.OldF, SDE: 1300000000}
			n.D = c.edit(g.plain(x))
			if c.Old == "gz" {
				n.D = gz(n.D)
			}
		case "link":
			g := goRun{Files: c.OldF, SDE: 1300000000}
			fs = append(fs, proto.Node{P: "/work/real", T: "f", M: 0o644, MT: 1400000000e9, D: c.edit(g.plain(x))})
			n = proto.Node{P: target, T: "l", L: "/work/real"}
		default:
			panic("ill-formed case")
		}
		fs = append(fs, n)
	}
	for k := range c.Runs {
		g := &c.Runs[k]
		want := g.plain(x)
		if want == nil {
			return vio("golden", "run %d: the build does not work without faults", k)
		}
		sc := g.scenario(c.Out)
		sc.FS = fs
		sc.Faults = g.Faults
		sc.Crash = g.Crash
		sc.CrashSeed = g.CSeed
		sc.Quota = g.Quota
		sc.Dump = []string{"/work", "/tmp"}
		r := x.Run(sc)
		if v := sane(r); v != nil {
			return v
		}
		old, now := node(fs, target), node(r.FS, target)
		what := fmt.Sprintf("run %d (exit status %d, crashed %v)", k, r.Exit, r.Crashed)
		if r.Exit == 0 && len(r.Stdout) > 0 {
			return vio("stdout", "%s: with --output, %d bytes went to standard output", what, len(r.Stdout))
		}
		var oldD, nowD []byte
		if old != nil {
			oldD = old.D
			if old.T == "l" {
				oldD = node(fs, "/work/real").D
			}
		}
		if now != nil {
			nowD = now.D
			if now.T == "l" {
				if rl := node(r.FS, "/work/real"); rl != nil {
					nowD = rl.D
				}
			}
		}
		desc := func(b []byte) string {
			es, err := rdTar(b)
			if err != nil {
				return fmt.Sprintf("%d bytes, %v", len(b), err)
			}
			return fmt.Sprintf("%d bytes\n%s", len(b), dumpTE(es))
		}
		switch {
		case now == nil && old != nil:
			return vio("lost", "%s: the output file is gone; it held %s", what, desc(oldD))
		case now != nil && !bytes.Equal(nowD, want) && (old == nil || !bytes.Equal(nowD, oldD)):
			return vio("torn", "%s: the output file holds neither the old nor the new layer, but %s\nnew: %s", what, desc(nowD), desc(want))
		}
		same, ok := false, false
		if old != nil {
			same, ok = sameExceptTimes(oldD, want)
		}
		faulty := len(g.Faults) > 0 || g.Quota > 0 || g.Fail
		if r.Exit == 0 && !r.Crashed {
			if g.Fail {
				return vio("success", "%s: success although the compiler failed", what)
			}
			switch {
			case same && !absent(g.Faults):
				x.Probe("same")
				if !bytes.Equal(nowD, oldD) || now.T != old.T || (now.T == "f" && now.MT != old.MT) || (now.T == "f" && now.M != old.M) {
					return vio("touched", "%s: the output file was replaced although nothing but timestamps changed\n%s", what, desc(want))
				}
			case old != nil && !ok:
				// not a layer: either answer
			case same && bytes.Equal(nowD, oldD):
			case now == nil || !bytes.Equal(nowD, want):
				if now == nil {
					return vio("stale", "%s: success, but there is no output file", what)
				}
				return vio("stale", "%s: success, but the output file still holds %s\nnew: %s", what, desc(nowD), desc(want))
			default:
				x.Probe("replaced")
				if m := uint32(0o666 &^ g.Umask); now.M&0o777 != m && now.T == "f" && g.Crash == "" {
					return vio("mode", "%s: the output file has mode %o, expected %o", what, now.M, m)
				}
			}
		} else if !r.Crashed {
			if silent(r) {
				return vio("message", "%s without a message", what)
			}
			if !faulty && (old == nil || ok) {
				return vio("failed", "%s without a fault: %s", what, trunc(string(r.Stderr), 500))
			}
			x.Probe("failed")
		} else {
			x.Probe("crashed:" + g.Crash)
		}
		// residue
		if !r.Crashed && g.Crash == "" {
			stick := false
			for _, f := range g.Faults {
				if f.Kind == "sticky" || f.Kind == "errno" {
					stick = true // the fault may have hit the removal itself
				}
			}
			if !stick {
				for _, n := range r.FS {
					if node(fs, n.P) == nil && n.P != target {
						return vio("residue", "%s: left %s behind", what, n.P)
					}
				}
			}
		}
		fs = nil
		for _, n := range r.FS {
			n.I = 0
			fs = append(fs, n)
		}
		if node(fs, "/work") == nil {
			fs = append([]proto.Node{{P: "/work", T: "d", M: 0o755}}, fs...)
		}
		if node(fs, "/tmp") == nil {
			fs = append(fs, proto.Node{P: "/tmp", T: "d", M: 0o1777})
		}
	}
	return nil
}

func genBins(r *Rand) []proto.Node {
	var out []proto.Node
	for k := r.Range(1, 3); k > 0; k-- {
		out = append(out, proto.Node{P: fmt.Sprintf("bin%d", k), T: "f", M: 0o755, D: bytes.Repeat([]byte(fmt.Sprintf("ELF%d", r.N(3))), r.PickI(1, 200, 5000))})
		if r.P(1, 15) {
			out[len(out)-1].D = longData(r)
		}
	}
	return out
}

// alter makes a small difference.
func alter(r *Rand, fs []proto.Node) []proto.Node {
	out := append([]proto.Node{}, fs...)
	i := r.N(len(out))
	switch r.N(6) {
	case 5:
		out[i].D = out[i].D[:len(out[i].D)-1]
	case 0:
		d := append([]byte{}, out[i].D...)
		d[r.N(len(d))] ^= 1
		out[i].D = d
	case 1:
		out[i].D = []byte("y")
	case 2:
		out[i].P += "x"
	case 3:
		out[i].D = append(append([]byte{}, out[i].D...), 'x')
	default:
		out = append(out, proto.Node{P: "zz", T: "f", M: 0o755, D: []byte("zz")})
	}
	return out
}

func genOut(r *Rand, i int) interface{} {
	c := &outCase{Out: r.Pick("out.tar", "/work/out.tar", "sub/out", "./sub/../o", "out.tar")}
	fs := genBins(r)
	switch r.N(9) {
	case 0, 1, 2:
		c.Old, c.OldF = r.Pick("layer", "layer", "gz", "link"), fs
	case 3, 4:
		c.Old, c.OldF = r.Pick("layer", "layer", "gz", "link"), alter(r, fs)
	case 6:
		c.Old, c.OldF = r.Pick("layer", "layer", "gz", "link"), fs
		c.OldE, c.OldI = r.Pick("mode", "setuid", "uid", "gid", "uname", "gname", "xattr", "nothing"), r.N(12)
	case 5:
		c.Old, c.OldD = "data", []byte(r.Pick("", "not a layer", strings.Repeat("x", 3000), "\x1f\x8b garbage"))
	}
	n := r.Range(1, 3)
	for k := 0; k < n; k++ {
		g := goRun{Files: fs, SDE: 1500000000 + int64(k), Umask: r.PickI(0o22, 0o77, 0), Sched: genSched(r), Pid: r.PickI(4242, 4242, 77)}
		c.Runs = append(c.Runs, g)
		if r.P(1, 3) {
			fs = alter(r, fs)
		}
	}
	if c.Old == "data" {
		c.Runs = c.Runs[:1]
	}
	return c
}

var writeFaults = map[string]faultSpec{
	"openw":  {errnos: []int{eACCES, eNOSPC, eROFS, eMFILE, eIO}, kinds: []string{"errno", "sticky"}},
	"write":  {errnos: []int{eNOSPC, eIO, eDQUOT}, kinds: []string{"errno", "short", "sticky"}},
	"closew": {errnos: []int{eIO, eNOSPC, eDQUOT}, kinds: []string{"errno"}},
	"fsync":  {errnos: []int{eIO, eNOSPC}, kinds: []string{"errno"}},
	"rename": {errnos: []int{eIO, eACCES, eNOSPC}, kinds: []string{"errno"}},
	"unlink": {errnos: []int{eIO, eACCES}, kinds: []string{"errno"}},
	"mkdir":  {errnos: []int{eNOSPC, eACCES}, kinds: []string{"errno"}},
	"rmdir":  {errnos: []int{eIO, eACCES}, kinds: []string{"errno"}},
}

func merged(ms ...map[string]faultSpec) map[string]faultSpec {
	out := map[string]faultSpec{}
	for _, m := range ms {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}

func init() {
	properties["C05"] = &Property{
		ID: "C05", New: func() interface{} { return &outCase{} }, Gen: genOut, Check: checkOut,
		Level: "fault_enumeration",
		Quick: 250, Thorough: 2500,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := ci.(*outCase)
			// trace of the first run in this state
			k := r.N(len(c.Runs))
			var tr *proto.Result
			{
				t := *c
				t.Runs = append([]goRun{}, c.Runs[:k+1]...)
				tr = traceOut(x, &t)
			}
			if tr == nil {
				return nil
			}
			var out []interface{}
			with := func(f func(g *goRun)) {
				cc := *c
				cc.Runs = append([]goRun{}, c.Runs[:k+1]...)
				f(&cc.Runs[k])
				// afterwards, a run without faults
				g := c.Runs[k]
				g.SDE += 7
				if r.P(1, 3) {
					g.Files = alter(r, g.Files)
				}
				g.Sched = genSched(r)
				cc.Runs = append(cc.Runs, g)
				out = append(out, &cc)
			}
			// every system call from the end of the compiler on as a crash point, some before
			first := len(tr.Trace)
			for i, o := range tr.Trace {
				if o.Name == "wait" {
					first = i
				}
			}
			for i, o := range tr.Trace {
				if i < first && !r.P(1, 12) {
					continue
				}
				if i > first && len(tr.Trace)-first > 40 && !r.P(40, len(tr.Trace)-first) && (o.Name == "read" || !strings.HasPrefix(o.Path, "/work")) {
					continue
				}
				at := o.I
				kind := r.Pick("kill", "power", "power")
				n := 0
				if o.Name == "write" && r.P(1, 2) {
					n = r.N(o.N + 1)
				}
				seed := r.U64()
				with(func(g *goRun) {
					g.Crash, g.CSeed = kind, seed
					g.Faults = []proto.Fault{{At: at, Kind: "crash", N: n}}
				})
			}
			with(func(g *goRun) { g.Crash, g.CSeed = "power", r.U64() }) // power loss after the end
			for j := 0; j < 6; j++ {
				if f := pickFault(r, tr, merged(inputFaults, writeFaults)); f != nil {
					with(func(g *goRun) { g.Faults = []proto.Fault{*f} })
				}
			}
			q := int64(r.PickI(1, 512, 1500, 4000, 20000))
			with(func(g *goRun) { g.Quota = q })
			with(func(g *goRun) { g.Fail = true })
			return out
		},
		Rule:   "Workloads: an output file (absent, the same layer, a different layer, compressed, behind a symbolic link, not a layer) and one to three builds; for one of the builds every system call after the compiler (and a sample of those before) is a crash point in turn, as a kill or as a power loss that keeps, loses or tears unsynced writes, and read, write, sync, rename and space faults are injected; a run without faults follows each.",
		Real:   []string{"the whole command line program, archive/tar, go-containerregistry"},
		Stub:   []string{"the kernel, including which unsynced data a power loss destroys", "the Go compiler (writes given files)"},
		Assume: []string{"directory operations reach the disk in order; an fsync makes all earlier ones durable; data of a file is durable only after an fsync of it"},
	}
}

func traceOut(x *X, c *outCase) *proto.Result {
	// run all but the last through checkOut's logic by replaying the state
	var last *proto.Result
	y := &X{Sim: x.Sim, Prop: x.Prop, fired: map[string]int{}, probes: map[string]int{}, distinct: map[uint64]bool{}, scheds: map[uint64]bool{}, exits: map[string]int{}}
	y.onRun = func(sc *proto.Scenario, r *proto.Result) {
		if len(sc.Args) > 2 && strings.HasPrefix(sc.Args[2], "--output=") {
			last = r
		}
	}
	y.trace = true
	if checkOut(y, c) != nil {
		return nil
	}
	return last
}
