package main

import (
	"bytes"
	"fmt"
	"path"
	"strings"

	"verif/sim/proto"
)

// C01: squashing layers means the same as applying them in order.

type sqCase struct {
	Layers [][]TE        `json:"layers"`
	Forms  []string      `json:"forms"` // per layer: tar, gz, fifo, fifogz
	Bases  [][]TE        `json:"bases"`
	Sched  Sched         `json:"sched"`
	Faults []proto.Fault `json:"faults,omitempty"`
	Pipe   bool          `json:"pipe,omitempty"`
	Outs   bool          `json:"outs,omitempty"`
}

func (c *sqCase) scenario() *proto.Scenario {
	args := []string{"layer", "squash"}
	sc := cli()
	for i, l := range c.Layers {
		fn := fmt.Sprintf("/work/l%d", i)
		d := mkTar(l)
		form := "tar"
		if i < len(c.Forms) {
			form = c.Forms[i]
		}
		if strings.HasSuffix(form, "gz") {
			d = gz(d)
		}
		if strings.HasPrefix(form, "fifo") {
			sc.FS = append(sc.FS, proto.Node{P: fn, T: "p", M: 0o644, D: d})
		} else {
			addFile(sc, fn, d)
		}
		args = append(args, fn)
	}
	sc.Args = append(sc.Args, args...)
	c.Sched.apply(sc)
	sc.Faults = c.Faults
	return sc
}

var sqNames = []string{"a", "b", "c", "d", "e"}

// genLayers makes layers whose paths collide often.
func genPath(r *Rand, maxDepth int) string {
	n := 1 + r.N(maxDepth)
	var p []string
	for i := 0; i < n; i++ {
		switch {
		case r.P(1, 150):
			p = append(p, strings.Repeat("long", 30))
		case r.P(1, 80):
			p = append(p, r.Pick("é", "x y", "a.wh.c", "..d", "...", "-", "C", "a\nb", ".h", ".wh", "wh.a", "a\\", "*", strings.Repeat("n", 255)))
		case i < n-1 && r.P(3, 4):
			p = append(p, r.Pick("a", "b"))
		case i == n-1 && r.P(3, 5):
			p = append(p, r.Pick("c", "d", "e"))
		default:
			p = append(p, sqNames[r.N(len(sqNames)-r.N(3))])
		}
	}
	return path.Join(p...)
}

func genMeta(r *Rand, e *TE) {
	e.M = int64(r.PickI(0o644, 0o755, 0o600, 0o4755, 0o1777, 0o2750))
	e.U, e.G = r.PickI(0, 0, 1000, 2097152), r.PickI(0, 0, 1000, 65534)
	e.UN, e.GN = r.Pick("", "root", "alice"), r.Pick("", "root", "staff")
	e.MT = int64(r.PickI(0, 1, 1234567890, 1600000000)) * 1e9
	if r.P(1, 25) {
		e.MT = int64(r.PickI(-1, -86400, 4000000000, 8589934592, 1<<31)) * 1e9
	}
	if r.P(1, 12) {
		e.MT += 123456789
	}
	if r.P(1, 10) {
		e.X = map[string]string{r.Pick("user.k", "user.k", "!SCHILY.acl.access"): r.Pick("v", "w")}
	}
}

// longData is longer than buffers tend to be, and no two parts of it are equal.
func longData(r *Rand) []byte {
	d := make([]byte, r.PickI(4097, 32768, 33000, 65536, 70000, 140000))
	for i := range d {
		d[i] = byte(r.U64())
	}
	return d
}

func relLink(r *Rand, from string) string {
	switch r.N(7) {
	case 6:
		return r.Pick("", "/", "../") + genPath(r, 2) + "/../" + r.Pick(genPath(r, 1), "../"+genPath(r, 1), ".", genPath(r, 2))
	case 0:
		return "/" + genPath(r, 2)
	case 1:
		return "../" + genPath(r, 1)
	case 2:
		return "../../" + genPath(r, 1)
	case 3:
		if r.P(1, 3) {
			return r.Pick(".", "/", "..")
		}
		return genPath(r, 1)
	default:
		return genPath(r, 2)
	}
}

func genLayer(r *Rand, n int, wh bool, depth int) []TE {
	var es []TE
	var files []string
	for len(es) < n {
		e := TE{N: genPath(r, depth)}
		genMeta(r, &e)
		switch k := r.N(20); {
		case k < 7:
			e.T = "f"
			e.D = []byte(fmt.Sprintf("data-%d", r.N(1000)))
			if r.P(1, 15) {
				e.D = bytes.Repeat([]byte{byte(r.N(256))}, r.PickI(0, 511, 512, 513, 1500))
			}
			if r.P(1, 100) {
				e.D = longData(r)
			}
			if r.P(1, 20) {
				e.S = r.Pick("gnu", "pax")
				e.D = nil
				for k := r.N(14); k >= 0; k-- {
					e.D = append(e.D, bytes.Repeat([]byte{byte(r.PickI(0, 0, 'a'+k))}, r.PickI(1, 511, 512, 512, 512, 1024))...)
				}
				e.X, e.MT, e.U = nil, e.MT/1e9*1e9, e.U%2000000
				if e.MT < 0 || e.MT >= 1<<33*1e9 {
					e.MT = 0
				}
				if len(e.N) >= 90 || !ascii(e.N) {
					e.S = ""
				}
			}
			files = append(files, e.N)
		case k < 12:
			e.T = "d"
		case k < 14:
			e.T = "l"
			e.L = relLink(r, e.N)
			if r.P(1, 3) {
				files = append(files, e.N)
			}
		case k < 15:
			if r.P(2, 3) {
				e.T = "h"
				if len(files) > 0 && r.P(7, 8) {
					e.L = files[r.N(len(files))]
				} else {
					e.L = genPath(r, depth)
				}
				if r.P(1, 8) {
					e.L = "/" + e.L
				}
			} else {
				e.T = r.Pick("c", "b", "p")
				files = append(files, e.N)
				if e.T != "p" {
					e.J, e.K = int64(r.N(3)), int64(r.N(3))
				}
			}
		default:
			if !wh {
				continue
			}
			e = TE{T: "f", M: 0o644}
			p := genPath(r, depth)
			if r.P(1, 3) {
				e.N = path.Join(p, ".wh..wh..opq")
				if r.P(1, 20) {
					e.N = ".wh..wh..opq"
				}
			} else {
				e.N = path.Join(path.Dir(p), ".wh."+path.Base(p))
			}
			switch r.N(12) { // AUFS made its markers hard links to one file
			case 0:
				e.T, e.L = "h", r.Pick(".wh..wh.aufs", genPath(r, depth))
			case 1:
				e.D = []byte("x")
			}
		}
		if r.P(1, 12) {
			e.N = "./" + e.N
		}
		if e.S != "" && len(e.N) >= 80 {
			e.S = ""
		}
		if e.T == "d" && r.P(2, 3) {
			e.N += "/"
		}
		if len(e.N) < 100 && len(e.L) < 100 && e.X == nil && e.MT%1e9 == 0 && e.U < 2000000 {
			e.F = r.PickI(0, 0, 2, 4, 8)
		}
		if r.P(1, 60) && e.T != "h" {
			e.N = "x/../" + e.N
		}
		es = append(es, e)
	}
	if r.P(1, 10) { // a link to the parent of what a link leads to
		s, u, d := genPath(r, 1), genPath(r, 1), genPath(r, depth)
		es = append(es, TE{N: d, T: "d", M: 0o755}, TE{N: s, T: "l", M: 0o777, L: r.Pick("", "/") + d}, TE{N: u, T: "l", M: 0o777, L: s + "/../" + genPath(r, 1)})
		if r.P(2, 3) {
			e := TE{N: u + "/" + genPath(r, 1), T: r.Pick("f", "d")}
			genMeta(r, &e)
			es = append(es, e)
		}
	}
	if r.P(1, 6) {
		e := TE{N: r.Pick(".", "./"), T: "d"}
		genMeta(r, &e)
		es = append(es, e)
	}
	return es
}

func genBase(r *Rand, depth int) []TE {
	es := genLayer(r, r.Range(0, 10), false, depth)
	out := es[:0]
	for _, e := range es {
		if e.T == "l" && r.P(1, 2) {
			continue
		}
		out = append(out, e)
	}
	return out
}

func genSquash(r *Rand, i int) interface{} {
	c := &sqCase{Sched: genSched(r)}
	depth := r.Range(2, 3)
	n := r.Range(2, 4)
	if r.P(1, 12) {
		n = r.Range(5, 8)
	}
	for k := 0; k < n; k++ {
		c.Layers = append(c.Layers, genLayer(r, r.Range(1, 7), true, depth))
		c.Forms = append(c.Forms, r.Pick("tar", "tar", "gz", "fifo", "fifogz"))
	}
	for k := range c.Layers {
		if r.P(1, 10) { // git-archive starts an archive with a header named like this
			c.Layers[k] = append([]TE{{T: "g", N: r.Pick("pax_global_header", genPath(r, 2), "../x")}}, c.Layers[k]...)
		}
	}
	if r.P(1, 40) {
		l := c.Layers[r.N(n)]
		l[r.N(len(l))].N = r.Pick("../x", "/abs", "..", "a/../../b", "/a/b")
	}
	for k := 0; k < 12; k++ {
		c.Bases = append(c.Bases, genBase(r, depth))
	}
	return c
}

func ctxOK(es []TE) bool {
	for _, e := range es {
		if e.T == "g" {
			continue
		}
		if _, ok := cleanName(e.N); !ok {
			return false
		}
	}
	return true
}

func checkSquash(x *X, ci interface{}) *Violation {
	c := ci.(*sqCase)
	if len(c.Layers) < 2 {
		return nil
	}
	r := x.Run(c.scenario())
	if v := sane(r); v != nil {
		return v
	}
	outside := false
	for _, l := range c.Layers {
		if !ctxOK(l) {
			outside = true
		}
	}
	if outside {
		x.Probe("outside-root")
		if r.Exit == 0 {
			return vio("escape", "a layer with an entry outside of the root was accepted\n%s", dumpLayers(c))
		}
		return nil
	}
	// no base: is the sequence meaningful at all?
	alone := newTree()
	for _, l := range c.Layers {
		if alone.apply(l) != nil {
			break
		}
	}
	if r.Exit != 0 {
		if silent(r) {
			return vio("silent", "exit status %d without a message", r.Exit)
		}
		if len(c.Faults) > 0 {
			x.Probe("fault-reported")
			return nil
		}
		if alone.undo != nil {
			x.Probe("meaningless-rejected")
			return nil
		}
		return vio("rejected", "layers that can be applied were not squashed: %s\n%s", trunc(string(r.Stderr), 300), dumpLayers(c))
	}
	sq, err := rdTar(r.Stdout)
	if err != nil {
		return vio("malformed", "the squashed layer is not a well-formed archive: %v\n%s", err, dumpLayers(c))
	}
	bases := append([][]TE{nil}, c.Bases...)
	for bi, b := range bases {
		_ = mkTar(b)
		mk := func() *tree {
			t := newTree()
			t.inBase = true
			if t.apply(b) != nil {
				return nil
			}
			t.inBase = false
			t.walk(func(_ string, n *tino) { n.base = true })
			return t
		}
		want := mk()
		if want == nil {
			continue
		}
		for _, l := range c.Layers {
			if want.apply(l) != nil {
				break
			}
		}
		if want.undo != nil {
			x.Probe("base-meaningless")
			continue
		}
		got := mk()
		got.lenient = true
		aerr := got.apply(sq)
		if want.baseLinks > 0 || got.baseLinks > 0 {
			x.Probe("base-link-skipped")
			continue
		}
		if aerr != nil {
			if got.undo != nil {
				aerr = got.undo
			}
			return vio("unapplicable", "the squashed layer cannot be applied: %v\nbase:\n%s%ssquashed:\n%s", aerr, dumpTE(b), dumpLayers(c), dumpTE(sq))
		}
		x.Probe("compared")
		if d := want.diff(got, "after applying the layers in order", "after applying the squashed layer"); d != "" {
			return vio("not-equivalent", "%s\nbase %d:\n%s%ssquashed:\n%s", d, bi, dumpTE(b), dumpLayers(c), dumpTE(sq))
		}
	}
	return nil
}

func dumpLayers(c *sqCase) string {
	s := ""
	for i, l := range c.Layers {
		s += fmt.Sprintf("layer %d:\n%s", i, dumpTE(l))
	}
	return s
}

func init() {
	properties["C01"] = &Property{
		ID: "C01", New: func() interface{} { return &sqCase{} }, Gen: genSquash, Check: checkSquash,
		Quick: 8000, Thorough: 60000,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := ci.(*sqCase)
			if !r.P(1, 4) {
				return nil
			}
			sc := c.scenario()
			sc.Trace = true
			g := x.Run(sc)
			var out []interface{}
			for k := 0; k < 3; k++ {
				f := pickFault(r, g, inputFaults)
				if f == nil {
					continue
				}
				cc := *c
				cc.Faults = []proto.Fault{*f}
				out = append(out, &cc)
			}
			return out
		},
		Rule:   "Workloads: 2-4 seeded layers of colliding paths (files, directories, symbolic and hard links, devices, whiteouts, opaque whiteouts), each judged on 13 bases; variants inject one I/O fault at a seeded system call.",
		Real:   []string{"the whole command line program, the Go runtime's scheduler, archive and gzip code, go-containerregistry"},
		Stub:   []string{"the kernel (in-memory file system, FIFOs, clock)"},
		Assume: []string{"the reference model of applying a layer follows the OCI layer specification; histories whose meaning the specification leaves open (a link into the base followed while adding entries, hard links to missing files, removals below a non-directory, link loops) only have to end cleanly"},
	}
}
