package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"

	"verif/sim/proto"
)

// C02: layers loaded as a file system.

type fvCase struct {
	Layers  [][]TE         `json:"layers"`
	Forms   []string       `json:"forms"`
	Sched   Sched          `json:"sched"`
	Omit    bool           `json:"omit,omitempty"`
	Shared  []string       `json:"shared,omitempty"`
	Threads [][]proto.FSOp `json:"threads"`
	Faults  []proto.Fault  `json:"faults,omitempty"`
}

func (c *fvCase) scenario() *proto.Scenario {
	sq := &sqCase{Layers: c.Layers, Forms: c.Forms, Sched: c.Sched, Faults: c.Faults}
	sc := sq.scenario()
	sc.Prog = "fsview"
	arg := proto.FSViewArg{Omit: c.Omit, Shared: c.Shared, Threads: c.Threads, Layers: sc.Args[2:]}
	for _, t := range c.Threads {
		for _, o := range t {
			if strings.HasPrefix(o.Op, "s") && o.Op != "stat" && o.H >= len(c.Shared) || o.Op == "" || o.N == 0 && o.Op != "stat" {
				panic("ill-formed case")
			}
		}
	}
	sc.Args = nil
	sc.ProgArg, _ = json.Marshal(arg)
	return sc
}

func genFSView(r *Rand, i int) interface{} {
	c := &fvCase{Sched: genSched(r), Omit: r.P(1, 8)}
	n := r.Range(1, 3)
	var tr *tree
	for try := 0; try < 20; try++ {
		c.Layers, c.Forms = nil, nil
		for k := 0; k < n; k++ {
			l := genLayer(r, r.Range(1, 9), true, 3)
			if r.P(1, 3) {
				var b []byte
				for t := 0; t < 30; t++ {
					b = append(b, fmt.Sprintf("%03d.", t)...)
				}
				l = append(l, TE{N: "c/big", T: "f", M: 0o644, D: b})
			}
			c.Layers = append(c.Layers, l)
			c.Forms = append(c.Forms, r.Pick("tar", "gz", "fifo"))
		}
		tr = newTree()
		for _, l := range c.Layers {
			if tr.apply(l) != nil {
				break
			}
		}
		if tr.undo == nil || r.P(1, 10) {
			break
		}
	}
	var names, dirs, files []string
	tr.walk(func(p string, n *tino) {
		names = append(names, p)
		if n.t == "d" {
			dirs = append(dirs, p)
		}
		if n.t == "f" && len(n.data) > 0 {
			files = append(files, p)
		}
		if n.t == "l" {
			names = append(names, p, path.Join(p, r.Pick("a", "b", "c", "d")))
		}
	})
	if r.P(1, 30) {
		l := c.Layers[r.N(n)]
		l[r.N(len(l))].N = r.Pick("../x", "/abs", "..", "a/../../b", "/a/b")
	}
	if r.P(1, 2) {
		if len(files) > 0 {
			c.Shared = append(c.Shared, files[r.N(len(files))])
		}
		c.Shared = append(c.Shared, dirs[r.N(len(dirs))])
	}
	nt := r.Range(1, 4)
	for t := 0; t < nt; t++ {
		var ops []proto.FSOp
		for k := r.Range(2, 8); k > 0; k-- {
			op := proto.FSOp{Op: r.Pick("stat", "stat", "read", "read", "list", "list", "closed")}
			switch r.N(12) {
			case 0, 1:
				op.P = genPath(r, 3)
			case 2:
				op.P = r.Pick(".", "/a", "a/", "", "a//b", "../a", "./a", "a/../b")
			case 3:
				p := names[r.N(len(names))]
				op.P = path.Join(path.Dir(p), ".wh."+path.Base(p))
				if r.P(1, 3) {
					op.P = path.Join(p, ".wh..wh..opq")
				}
			default:
				op.P = names[r.N(len(names))]
			}
			if op.Op == "list" {
				op.N = r.PickI(-1, -1, 1, 2, 3)
			} else if op.Op == "closed" {
				op.N = 5
			} else if op.Op == "read" {
				op.N = r.PickI(1, 3, 100, 512)
			}
			if len(c.Shared) > 0 && r.P(1, 2) {
				op = proto.FSOp{Op: "slist", N: r.PickI(1, 1, 2, 2, 3, -1), H: len(c.Shared) - 1}
				if len(c.Shared) > 1 && r.P(1, 2) {
					op = proto.FSOp{Op: "sread", N: r.PickI(8, 12, 30), H: 0}
				}
				if r.P(1, 25) {
					op = proto.FSOp{Op: "sclose", N: 1, H: r.N(len(c.Shared))}
				}
			}
			ops = append(ops, op)
		}
		c.Threads = append(c.Threads, ops)
	}
	return c
}

// find looks a path up.  lnk is the entry itself, tgt what it leads to.
func (t *tree) find(p string) (lnk, tgt *tino, class string) {
	budget := 100
	var follow func(in, n *tino) (*tino, string)
	var walk func(from *tino, p string, last bool) (*tino, string)
	follow = func(in, n *tino) (*tino, string) {
		if n.t != "l" {
			return n, ""
		}
		if budget--; budget < 0 {
			return nil, "loop"
		}
		return walk(in, n.link, true)
	}
	walk = func(from *tino, p string, last bool) (*tino, string) {
		cur := from
		if strings.HasPrefix(p, "/") {
			cur = t.root
		}
		comps := strings.Split(p, "/")
		for len(comps) > 0 && (comps[len(comps)-1] == "" || comps[len(comps)-1] == ".") {
			comps = comps[:len(comps)-1]
		}
		for i, c := range comps {
			if c == "" || c == "." {
				continue
			}
			if cur.t != "d" {
				return nil, "notdir"
			}
			if c == ".." {
				cur = cur.parent
				continue
			}
			k := cur.kids[c]
			if k == nil {
				return nil, "notexist"
			}
			if k.t == "l" && (last || i < len(comps)-1) {
				var e string
				if k, e = follow(cur, k); e != "" {
					return nil, e
				}
			}
			cur = k
		}
		return cur, ""
	}
	lnk, class = walk(t.root, p, false)
	if class != "" {
		return nil, nil, class
	}
	budget = 100
	tgt, class = walk(t.root, p, true)
	return lnk, tgt, class
}

func (n *tino) info() os.FileInfo {
	e := TE{N: "x", T: n.t, M: n.meta.M, MT: n.meta.MT, D: n.data, L: n.link}
	return e.header().FileInfo()
}

func checkFSView(x *X, ci interface{}) *Violation {
	c := ci.(*fvCase)
	if len(c.Layers) < 1 {
		return nil
	}
	sc := c.scenario()
	r := x.Run(sc)
	if v := sane(r); v != nil {
		return v
	}
	var res proto.FSViewRes
	if err := json.Unmarshal(r.Prog, &res); err != nil {
		infra("fsview: %v", err)
	}
	dump := func() string { return dumpLayers(&sqCase{Layers: c.Layers}) }
	for _, l := range c.Layers {
		if !ctxOK(l) {
			x.Probe("outside-root")
			if res.LoadErr == "" {
				return vio("escape", "a layer with an entry outside of the root was accepted\n%s", dump())
			}
			return nil
		}
	}
	tr := newTree()
	for _, l := range c.Layers {
		if tr.apply(l) != nil {
			break
		}
	}
	if res.LoadErr != "" {
		if len(c.Faults) > 0 || tr.undo != nil {
			x.Probe("load-error")
			return nil
		}
		return vio("rejected", "layers that can be applied could not be loaded: %s\n%s", res.LoadErr, dump())
	}
	if tr.undo != nil {
		x.Probe("meaningless")
		return nil
	}
	x.Probe("compared")
	// whether directories exist that only removal markers are in is left open
	tr2 := newTree()
	tr2.whCreate = true
	for _, l := range c.Layers {
		if tr2.apply(l) != nil {
			x.Probe("meaningless")
			return nil
		}
	}
	shared := make([][]proto.FSOut, len(c.Shared))
	rest := make([]bool, len(c.Shared))
	for ti, t := range c.Threads {
		for oi, op := range t {
			o := res.Threads[ti][oi]
			if op.Op == "sread" || op.Op == "slist" || op.Op == "sclose" {
				if o.Err == "unopened" {
					if _, _, e := tr.find(c.Shared[op.H]); e == "" {
						return vio("open", "%q could not be opened\n%s", c.Shared[op.H], dump())
					}
					continue
				}
				mine := false // this thread has closed it
				for _, e := range t[:oi] {
					mine = mine || e.Op == "sclose" && e.H == op.H
				}
				anyone := false
				for _, tt := range c.Threads {
					for _, e := range tt {
						anyone = anyone || e.Op == "sclose" && e.H == op.H
					}
				}
				switch {
				case op.Op == "sclose":
					if o.Err != "" && o.Err != "closed" {
						return vio("close", "closing %q gives %q\n%s", c.Shared[op.H], o.Err, dump())
					}
				case mine && (o.Err == "" || o.Err == "eof" || len(o.Data)+len(o.Ents) > 0):
					return vio("closed", "%q could be used after it was closed\n%s", c.Shared[op.H], dump())
				case anyone && (mine || o.Err == "closed"):
					x.Probe("closed")
				default:
					rest[op.H] = rest[op.H] || op.Op == "slist" && op.N < 0 && o.Err == ""
					shared[op.H] = append(shared[op.H], o)
				}
				continue
			}
			if d := judgeFSOp(tr, op, o, c.Omit); d != "" && judgeFSOp(tr2, op, o, c.Omit) != "" {
				return vio("wrong-view", "thread %d operation %d: %s %q: %s\n%s", ti, oi, op.Op, op.P, d, dump())
			}
		}
	}
	for h, outs := range shared {
		if len(outs) == 0 {
			continue
		}
		_, tgt, e := tr2.find(c.Shared[h])
		if e != "" {
			return vio("wrong-view", "%q was opened although: %s\n%s", c.Shared[h], e, dump())
		}
		if tgt.t == "f" && !c.Omit {
			if d := judgeSharedRead(tgt.data, outs); d != "" {
				return vio("shared-read", "several goroutines reading %q through one handle: %s\n%s", c.Shared[h], d, dump())
			}
			x.Probe("shared-read")
		}
		if tgt.t == "d" {
			if d := judgeSharedList(tgt, outs, rest[h]); d != "" {
				return vio("shared-list", "several goroutines listing %q through one handle: %s\n%s", c.Shared[h], d, dump())
			}
			x.Probe("shared-list")
		}
	}
	return nil
}

func judgeSharedRead(want []byte, outs []proto.FSOut) string {
	var parts [][]byte
	eof := false
	total := 0
	for _, o := range outs {
		if o.Err == "eof" {
			eof = true
			continue
		}
		if o.Err != "" {
			return o.Err
		}
		if len(o.Data) > 0 {
			parts = append(parts, o.Data)
			total += len(o.Data)
		}
	}
	if total > len(want) {
		return fmt.Sprintf("%d bytes were read from a file of %d", total, len(want))
	}
	if eof && total < len(want) {
		return fmt.Sprintf("end of file after %d of %d bytes", total, len(want))
	}
	// the parts must tile a prefix
	var tile func(pos int, left [][]byte) bool
	tile = func(pos int, left [][]byte) bool {
		if len(left) == 0 {
			return true
		}
		tried := map[string]bool{}
		for i, p := range left {
			if tried[string(p)] || !bytes.HasPrefix(want[pos:], p) {
				continue
			}
			tried[string(p)] = true
			rest := append(append([][]byte{}, left[:i]...), left[i+1:]...)
			if tile(pos+len(p), rest) {
				return true
			}
		}
		return false
	}
	if !tile(0, parts) {
		return fmt.Sprintf("the pieces %q do not make up a beginning of %q", parts, want)
	}
	return ""
}

func judgeSharedList(d *tino, outs []proto.FSOut, rest bool) string {
	seen := map[string]int{}
	eof := rest
	for _, o := range outs {
		if o.Err == "eof" {
			eof = true
		} else if o.Err != "" {
			return o.Err
		}
		for _, e := range o.Ents {
			seen[e.Name]++
			if seen[e.Name] > 1 {
				return fmt.Sprintf("%q was listed twice", e.Name)
			}
			if k := d.kids[e.Name]; k == nil {
				return fmt.Sprintf("%q was listed but does not exist", e.Name)
			}
		}
	}
	var missing []string
	last := ""
	for n, k := range d.kids {
		if seen[n] == 0 && !k.optional() {
			missing = append(missing, n)
		}
		if seen[n] > 0 && n > last {
			last = n
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 && (eof || missing[0] < last) {
		return fmt.Sprintf("%q were not listed", missing)
	}
	return ""
}

func judgeFSOp(tr *tree, op proto.FSOp, o proto.FSOut, omit bool) string {
	if strings.Contains(o.Err, "no progress") || strings.HasPrefix(o.Err, "close:") {
		return o.Err
	}
	if !fs.ValidPath(op.P) {
		if o.Err != "invalid" || o.Stage != "open" {
			return fmt.Sprintf("an invalid path gave %q at %q", o.Err, o.Stage)
		}
		return ""
	}
	for _, comp := range strings.Split(op.P, "/") {
		if strings.HasPrefix(comp, ".wh.") && (o.Err == "" || o.Stage != "open") {
			return "a removal marker is visible as a file"
		}
	}
	_, tgt, class := tr.find(op.P)
	if class != "" {
		if o.Err == "" || o.Stage != "open" {
			return fmt.Sprintf("it was opened although: %s", class)
		}
		if class == "notexist" && o.Err != "notexist" {
			return fmt.Sprintf("a missing file is reported as %q", o.Err)
		}
		return ""
	}
	if o.Stage == "open" {
		if tgt.optional() {
			return ""
		}
		return fmt.Sprintf("it exists but could not be opened: %s", o.Err)
	}
	in := tgt.info()
	switch op.Op {
	case "closed":
		if o.Err != "" {
			return "after it was closed: " + o.Err
		}
	case "stat":
		if tgt.any {
			return ""
		}
		if o.Err != "" {
			return "stat: " + o.Err
		}
		if fs.FileMode(o.Mode) != in.Mode() || o.IsDir != in.IsDir() {
			return fmt.Sprintf("mode is %v, not %v", fs.FileMode(o.Mode), in.Mode())
		}
		if o.Size != in.Size() {
			return fmt.Sprintf("size is %d, not %d", o.Size, in.Size())
		}
		if o.MT != in.ModTime().UnixNano() {
			return fmt.Sprintf("mtime is %d, not %d", o.MT, in.ModTime().UnixNano())
		}
		if o.Name != path.Base(op.P) {
			return fmt.Sprintf("name is %q", o.Name)
		}
	case "read":
		if tgt.t == "d" {
			if o.Err == "" {
				return "a directory could be read as a file"
			}
			return ""
		}
		if omit && len(tgt.data) > 0 {
			if o.Err == "" {
				return "content that was not loaded could be read"
			}
			return ""
		}
		if o.Err != "" {
			return "read: " + o.Err
		}
		if !bytes.Equal(o.Data, tgt.data) {
			return fmt.Sprintf("content is %q, not %q", trunc(string(o.Data), 100), trunc(string(tgt.data), 100))
		}
	case "list":
		if tgt.t != "d" {
			if o.Err == "" {
				return "a non-directory could be listed"
			}
			return ""
		}
		if o.Err != "" {
			return "list: " + o.Err
		}
		have := map[string]proto.FSEnt{}
		prev := ""
		for _, e := range o.Ents {
			if e.Name <= prev {
				return fmt.Sprintf("listed %q after %q", e.Name, prev)
			}
			prev = e.Name
			have[e.Name] = e
			k := tgt.kids[e.Name]
			if k == nil {
				return fmt.Sprintf("%q is listed but does not exist", e.Name)
			}
			kin := k.info()
			if k.any {
				kin = nil
				if !e.IsDir {
					return fmt.Sprintf("%q is not listed as a directory", e.Name)
				}
				continue
			}
			if e.Err != "" {
				return fmt.Sprintf("%q: info: %s", e.Name, e.Err)
			}
			if fs.FileMode(e.Mode) != kin.Mode() || fs.FileMode(e.Type) != kin.Mode().Type() || e.IsDir != kin.IsDir() || e.Size != kin.Size() || e.MT != kin.ModTime().UnixNano() || e.IName != e.Name {
				return fmt.Sprintf("%q is listed as mode %v type %v size %d mtime %d name %q; it is mode %v size %d mtime %d", e.Name, fs.FileMode(e.Mode), fs.FileMode(e.Type), e.Size, e.MT, e.IName, kin.Mode(), kin.Size(), kin.ModTime().UnixNano())
			}
		}
		for n, k := range tgt.kids {
			if _, ok := have[n]; !ok && !k.optional() {
				return fmt.Sprintf("%q is not listed", n)
			}
		}
	}
	return ""
}

func init() {
	properties["C02"] = &Property{
		ID: "C02", New: func() interface{} { return &fvCase{} }, Gen: genFSView, Check: checkFSView,
		Quick: 6000, Thorough: 150000,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := ci.(*fvCase)
			var out []interface{}
			// another schedule
			cc := *c
			cc.Sched.Seed = r.U64()
			cc.Sched.Random = true
			cc.Sched.Yield = uint32(r.PickI(16, 128, 512))
			out = append(out, &cc)
			if r.P(1, 6) {
				sc := c.scenario()
				sc.Trace = true
				g := x.Run(sc)
				if f := pickFault(r, g, inputFaults); f != nil {
					cc := *c
					cc.Faults = []proto.Fault{*f}
					out = append(out, &cc)
				}
			}
			return out
		},
		Rule:   "Workloads: 1-3 seeded layers read by 1-4 goroutines through the io/fs interface (open, stat, chunked reads, paged listings, shared handles); every workload runs under two schedules with preemption at statement level; variants inject one I/O fault while the layers are loaded.",
		Real:   []string{"pkg/squash, pkg/fsutil, the Go runtime's scheduler, archive and gzip code, go-containerregistry"},
		Stub:   []string{"the kernel (in-memory file system, FIFOs, clock)", "the client (a generated multi-threaded reader)"},
		Assume: []string{"the reference model of applying a layer (see C01)", "whether a directory exists that only removal markers imply is left open"},
	}
}
