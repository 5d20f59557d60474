package main

import (
	"bytes"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"

	"verif/sim/proto"
)

// C03: the layer of a directory.

type dirCase struct {
	Nodes  []proto.Node  `json:"nodes"` // below /src
	Arg    string        `json:"arg"`
	Prefix string        `json:"prefix,omitempty"`
	PFlags []string      `json:"pflags,omitempty"` // uid uname gid gname of the prefix, "" = not given
	CFlags []string      `json:"cflags,omitempty"` // forced uid uname gid gname, "" = not given
	SDE    string        `json:"sde,omitempty"`    // "" = unset
	Start  int64         `json:"start"`
	Sched  Sched         `json:"sched"`
	Faults []proto.Fault `json:"faults,omitempty"`
	UID    int           `json:"uid,omitempty"`
}

func (c *dirCase) scenario() *proto.Scenario {
	sc := cli("layer", "dir")
	if c.Prefix != "" {
		sc.Args = append(sc.Args, "--prefix="+c.Prefix)
	}
	for i, n := range []string{"uid", "uname", "gid", "gname"} {
		if i < len(c.PFlags) && c.PFlags[i] != "" {
			sc.Args = append(sc.Args, "--prefix-"+n+"="+c.PFlags[i])
		}
		if i < len(c.CFlags) && c.CFlags[i] != "" {
			sc.Args = append(sc.Args, "--chown-"+n+"="+c.CFlags[i])
		}
	}
	sc.Args = append(sc.Args, c.Arg)
	sc.FS = append(sc.FS, proto.Node{P: "/src", T: "d", M: 0o755, MT: 1500000000e9}, proto.Node{P: "/work/srclink", T: "l", L: "/src"}, proto.Node{P: "/afile", T: "f", M: 0o644})
	sc.FS = append(sc.FS, c.Nodes...)
	if c.SDE != "" {
		env(sc, "SOURCE_DATE_EPOCH="+c.SDE)
	}
	if c.Start != 0 {
		sc.Start = c.Start
	}
	c.Sched.apply(sc)
	sc.Faults = c.Faults
	sc.UID, sc.GID = c.UID, c.UID
	return sc
}

var dirNames = []string{"a", "b", "a-b", "a.b", "a b", "Z", "é", "x.y", strings.Repeat("n", 101), "-", "_", "a+", "00", ".hidden", ".wh.x", "..x"}

func genNodes(r *Rand, root string, n int) []proto.Node {
	dirs := []string{root}
	used := map[string]bool{}
	var files []string
	var out []proto.Node
	for len(out) < n {
		d := dirs[r.N(len(dirs))]
		nm := dirNames[r.N(len(dirNames))]
		if r.P(1, 3) {
			nm = fmt.Sprintf("f%d", r.N(20))
		}
		p := path.Join(d, nm)
		if used[p] || len(p) > 240 {
			if r.P(1, 50) {
				break
			}
			continue
		}
		used[p] = true
		nd := proto.Node{P: p, U: r.PickI(0, 0, 1000, 1001, 5555, 3000000), G: r.PickI(0, 0, 1000, 1001, 7777)}
		nd.MT = int64(r.PickI(1, 1000000000, 1500000000, 1599999999, 1600000000, 1600000001, 1700000000, 2000000000)) * 1e9
		if r.P(1, 4) {
			nd.MT += int64(r.PickI(1, 400000000, 500000000, 600000000, 999999999))
		}
		nd.M = uint32(r.PickI(0o644, 0o755, 0o600, 0o4755, 0o2755, 0o444, 0o777, 0))
		switch k := r.N(12); {
		case k < 3:
			nd.T = "d"
			nd.M = uint32(r.PickI(0o755, 0o700, 0o1777, 0o2775))
			if r.P(1, 8) { // a file system of its own
				nd.J = int64(r.Range(2, 3))
			}
			dirs = append(dirs, p)
		case k < 8:
			nd.T = "f"
			nd.D = []byte(fmt.Sprintf("content of %s %d", p, r.N(1000)))
			if r.P(1, 5) {
				nd.D = bytes.Repeat([]byte("0123456789abcde\n"), r.PickI(0, 1, 32, 64, 2100, 5000))
			}
			files = append(files, p)
		case k < 9:
			nd.T = "l"
			nd.L = r.Pick("a", "../b", "/etc/passwd", "dangling", ".", strings.Repeat("long/", 30))
			files = append(files, p)
		case k < 11:
			if len(files) == 0 {
				continue
			}
			nd = proto.Node{P: p, T: "h", L: files[r.N(len(files))]}
		default:
			nd.T = r.Pick("p", "p", "p", "c", "b")
			if nd.T != "p" {
				nd.J, nd.K = int64(r.PickI(1, 8, 200)), int64(r.PickI(0, 3, 255))
			}
			files = append(files, p)
		}
		out = append(out, nd)
	}
	return out
}

func genDir(r *Rand, i int) interface{} {
	c := &dirCase{Sched: genSched(r), Arg: "/src", Start: 1650000000e9 + int64(r.N(2000000000))}
	c.Nodes = genNodes(r, "/src", r.Range(0, 14))
	if n := len(c.Nodes); n > 0 && r.P(1, 25) {
		if d := &c.Nodes[r.N(n)]; d.T == "p" || d.T == "f" {
			d.T, d.D = "s", nil
		}
	}
	switch r.N(8) {
	case 0:
		c.Arg = "../src"
	case 1:
		c.Arg = "/src/"
	case 2:
		c.Arg = r.Pick("/src/.", "/work/../src", "srclink", "srclink/", "/afile", "/nonexistent")
	}
	if r.P(1, 2) {
		c.Prefix = r.Pick("usr", "usr/local/bin", "a", "opt/x", "usr/", "./usr/local", "usr//bin")
		if r.P(1, 12) {
			c.Prefix = r.Pick("/usr", "/", "..", "../x", ".")
		}
		c.PFlags = []string{r.Pick("", "", "1234"), r.Pick("", "", "carol"), r.Pick("", "", "4321"), r.Pick("", "", "wheel")}
	}
	if r.P(1, 2) {
		c.CFlags = []string{r.Pick("", "0", "77", "-1"), r.Pick("", "root", "dave"), r.Pick("", "0", "88", "-5"), r.Pick("", "root", "grp")}
	}
	switch r.N(4) {
	case 0:
	case 1:
		c.SDE = r.Pick("abc", "0", "-5", "1600000000.5", "8999999999")
	default:
		c.SDE = r.Pick("1600000000", "1500000000", "1")
	}
	return c
}

var unames = map[int]string{0: "root", 1000: "alice", 1001: "bob"}
var gnames = map[int]string{0: "root", 1000: "users", 1001: "staff"}

// clamp: the latest time allowed, as an interval when it is the time of the run
func (c *dirCase) clamp(r *proto.Result) (lo, hi int64) {
	if n, err := strconv.ParseInt(c.SDE, 10, 64); err == nil && c.SDE != "" {
		if n > 9e9 {
			n = 9e9
		}
		return n * 1e9, n * 1e9
	}
	return c.Start, c.Start + r.SimNS + 1
}

// timeOK tells whether an archive time is a correct rendering of a file time.
func timeOK(got, mt, lo, hi int64) bool {
	sec := func(a, b int64) bool { // got is a in [a,b], possibly rounded to seconds
		return got >= a-1e9 && got <= b+5e8
	}
	if mt <= lo {
		if mt%1e9 == 0 {
			return got == mt
		}
		return sec(mt, mt)
	}
	if mt >= hi {
		if lo == hi {
			return got == lo
		}
		return sec(lo, hi)
	}
	return sec(lo, mt)
}

func checkDir(x *X, ci interface{}) *Violation {
	c := ci.(*dirCase)
	for _, n := range c.Nodes {
		if n.P == "" || n.T == "" || (n.MT == 0 && n.T != "h") || (n.T == "l" || n.T == "h") != (n.L != "") {
			panic("ill-formed case")
		}
	}
	if c.Arg == "" || c.Start == 0 {
		panic("ill-formed case")
	}
	r := x.Run(c.scenario())
	if v := sane(r); v != nil {
		return v
	}
	mutated := map[string]bool{}
	io := false
	for _, f := range c.Faults {
		for _, m := range f.Mut {
			mutated[m.Path] = true
		}
		if len(f.Mut) == 0 {
			io = true
		}
	}
	bad := ""
	pfx := ""
	if c.Prefix != "" {
		cl := path.Clean(c.Prefix)
		if strings.HasPrefix(cl, "/") || cl == ".." || strings.HasPrefix(cl, "../") {
			bad = "the prefix is not inside of the root"
		}
		pfx = cl
	}
	for _, n := range c.Nodes {
		if n.T == "s" && !mutated[n.P] {
			up := false
			for m := range mutated {
				up = up || strings.HasPrefix(n.P, m+"/")
			}
			if !up {
				bad = "a socket cannot be archived"
				x.Probe("socket")
			}
		}
	}
	if c.Arg == "/afile" || c.Arg == "/nonexistent" {
		bad = "the argument is not a directory"
	}
	if r.Exit != 0 {
		if silent(r) {
			return vio("silent", "exit status %d without a message", r.Exit)
		}
		if len(r.Stdout) != 0 {
			return vio("partial-output", "failed after writing %d bytes of a layer", len(r.Stdout))
		}
		if bad != "" || io || len(mutated) > 0 {
			x.Probe("clean-failure")
			return nil
		}
		return vio("rejected", "a readable directory was not archived: %s", trunc(string(r.Stderr), 300))
	}
	if bad != "" {
		return vio("accepted", "exit status 0 although %s", bad)
	}
	es, err := rdTar(r.Stdout)
	if err != nil {
		return vio("malformed", "the layer is not a well-formed archive: %v", err)
	}
	lo, hi := c.clamp(r)
	dump := func() string { return "\nlayer:\n" + dumpTE(es) }

	// what the files are
	byPath := map[string]proto.Node{}
	group := map[string]string{}
	for _, n := range c.Nodes {
		if n.T == "h" {
			t := n.L
			if g, ok := group[t]; ok {
				t = g
			}
			group[n.P] = t
			o, ok := byPath[t]
			if !ok {
				panic("ill-formed case")
			}
			o.P = n.P
			byPath[n.P] = o
			continue
		}
		group[n.P] = n.P
		byPath[n.P] = n
	}
	touched1 := func(p string) bool {
		for m := range mutated {
			if m == p || strings.HasPrefix(m, p+"/") || strings.HasPrefix(p, m+"/") {
				return true
			}
		}
		return false
	}
	hit := map[string]bool{} // inodes with a name that was touched
	for p, g := range group {
		if touched1(p) {
			hit[g] = true
		}
	}
	touched := func(p string) bool {
		g, ok := group[p]
		return touched1(p) || ok && hit[g]
	}
	seen := map[string]bool{}
	i := 0
	// the prefix
	if pfx != "" && pfx != "." {
		comps := strings.Split(pfx, "/")
		for k := range comps {
			want := strings.Join(comps[:k+1], "/")
			if i >= len(es) || path.Clean(es[i].N) != want || es[i].T != "d" {
				return vio("prefix", "entry %d is not the prefix directory %q%s", i, want, dump())
			}
			e := es[i]
			u, un, g, gn := 0, "root", 0, "root"
			get := func(j int) string {
				if j < len(c.PFlags) {
					return c.PFlags[j]
				}
				return ""
			}
			if s := get(0); s != "" {
				u, _ = strconv.Atoi(s)
			}
			if s := get(1); s != "" {
				un = s
			}
			if s := get(2); s != "" {
				g, _ = strconv.Atoi(s)
			}
			if s := get(3); s != "" {
				gn = s
			}
			if e.U != u || e.UN != un || e.G != g || e.GN != gn || e.M&0o7777 != 0o755 || len(e.D) > 0 {
				return vio("prefix", "the prefix directory %q has %v%s", want, e.meta(), dump())
			}
			if !timeOK(e.MT, 1<<63-1, lo, hi) {
				return vio("time", "the prefix directory %q has time %d; latest allowed %d..%d%s", want, e.MT, lo, hi, dump())
			}
			seen[want] = true
			i++
		}
	}
	first := map[string]string{}
	for ; i < len(es); i++ {
		e := es[i]
		name, ok := cleanName(e.N)
		if !ok {
			return vio("escape", "entry %q is outside of the root%s", e.N, dump())
		}
		if seen[name] {
			return vio("duplicate", "%q occurs twice%s", name, dump())
		}
		seen[name] = true
		rel := name
		if pfx != "" && pfx != "." {
			if !strings.HasPrefix(name, pfx+"/") {
				return vio("prefix", "%q is not below the prefix%s", name, dump())
			}
			rel = name[len(pfx)+1:]
		}
		if par := path.Dir(name); path.Dir(rel) != "." && !seen[par] {
			return vio("order", "%q comes before its directory%s", name, dump())
		}
		full := "/src/" + rel
		n, ok := byPath[full]
		if touched(full) {
			if e.T != "d" {
				first[group[full]] = name
			}
			if v := c.hadState(full, group, e); v != nil {
				return v
			}
			continue
		}
		if !ok {
			return vio("extra", "%q does not exist in the directory%s", rel, dump())
		}
		wantT := n.T
		f, linked := first[group[full]]
		if wantT != "d" {
			if linked {
				wantT = "h"
			} else {
				first[group[full]] = name
			}
		}
		if e.T != wantT {
			return vio("type", "%q is of type %s, not %s%s", name, e.T, wantT, dump())
		}
		switch wantT {
		case "h":
			if path.Clean(e.L) != f {
				return vio("link", "%q is a hard link to %q, not to %q%s", name, e.L, f, dump())
			}
		case "f":
			if !bytes.Equal(e.D, n.D) {
				return vio("content", "%q has %d bytes %q instead of %d bytes %q", name, len(e.D), trunc(string(e.D), 60), len(n.D), trunc(string(n.D), 60))
			}
		case "l":
			if e.L != n.L {
				return vio("link", "%q points to %q, not %q", name, e.L, n.L)
			}
		case "c", "b":
			if e.J != n.J || e.K != n.K {
				return vio("device", "%q is the device %d,%d, not %d,%d", name, e.J, e.K, n.J, n.K)
			}
		}
		wm := int64(n.M)
		if n.T == "l" {
			wm = e.M & 0o7777 // the mode of a link means nothing
		}
		u, un, g, gn := n.U, unames[n.U], n.G, gnames[n.G]
		get := func(j int) string {
			if j < len(c.CFlags) {
				return c.CFlags[j]
			}
			return ""
		}
		if s := get(0); s != "" && !strings.HasPrefix(s, "-") {
			u, _ = strconv.Atoi(s)
		}
		if s := get(1); s != "" {
			un = s
		}
		if s := get(2); s != "" && !strings.HasPrefix(s, "-") {
			g, _ = strconv.Atoi(s)
		}
		if s := get(3); s != "" {
			gn = s
		}
		if e.M&0o7777 != wm || e.U != u || e.G != g || e.UN != un || e.GN != gn {
			return vio("attributes", "%q has mode=%o owner %d(%s):%d(%s), expected mode=%o owner %d(%s):%d(%s)%s", name, e.M, e.U, e.UN, e.G, e.GN, wm, u, un, g, gn, dump())
		}
		if !timeOK(e.MT, n.MT, lo, hi) {
			return vio("time", "%q has time %d; the file's is %d, latest allowed %d..%d%s", name, e.MT, n.MT, lo, hi, dump())
		}
		if (e.AT != 0 && e.AT > hi+5e8) || (e.CT != 0 && e.CT > hi+5e8) {
			return vio("time", "%q has access/change time %d/%d; latest allowed %d..%d%s", name, e.AT, e.CT, lo, hi, dump())
		}
	}
	var miss []string
	for p := range byPath {
		rel := strings.TrimPrefix(p, "/src/")
		if !seen[path.Join(pfx, rel)] && !touched(p) {
			miss = append(miss, rel)
		}
	}
	sort.Strings(miss)
	if len(miss) > 0 {
		return vio("missing", "%q are missing from the layer%s", miss, dump())
	}
	x.Probe("compared")
	if len(mutated) > 0 {
		x.Probe("mutated-ok")
	}
	return nil
}

// hadState judges an entry for a name that somebody else changed during the run: what it says must
// have been so at some time.
func (c *dirCase) hadState(full string, group map[string]string, e TE) *Violation {
	links := map[string]bool{}
	var ever [][]byte
	var cur []byte
	exists := false
	for p, g := range group {
		if p != full && g == group[full] {
			return nil // has other names
		}
	}
	for _, n := range c.Nodes {
		if n.P == full {
			exists = true
			switch n.T {
			case "l":
				links[n.L] = true
			case "f":
				cur = n.D
				ever = append(ever, cur)
			}
		}
	}
	fs := append([]proto.Fault{}, c.Faults...)
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].At < fs[j].At })
	for _, f := range fs {
		for _, m := range f.Mut {
			if m.Path != full {
				if strings.HasPrefix(full, m.Path+"/") {
					return nil
				}
				continue
			}
			switch m.Op {
			case "symlink":
				links[m.To] = true
				exists = true
			case "write", "replace", "create":
				cur = m.Data
				ever = append(ever, cur)
				exists = true
			case "append":
				for _, b := range append([][]byte{}, ever...) {
					ever = append(ever, append(append([]byte{}, b...), m.Data...))
				}
			case "truncate":
				for _, b := range append([][]byte{}, ever...) {
					if m.N < len(b) {
						ever = append(ever, b[:m.N:m.N])
					}
				}
			case "mkdir":
				exists = true
			}
		}
	}
	if !exists {
		return vio("extra", "%q never existed", e.N)
	}
	switch e.T {
	case "l":
		if !links[e.L] {
			return vio("link", "%q points to %q, which it never did", e.N, e.L)
		}
	case "f":
	next:
		for i, b := range e.D {
			for _, v := range ever {
				if i < len(v) && v[i] == b {
					continue next
				}
			}
			return vio("content", "byte %d of %q is %q, which it never was", i, e.N, b)
		}
	}
	return nil
}

// racyMut changes something that the program is just going to look at.
func racyMut(r *Rand, nodes []proto.Node, g *proto.Result) *proto.Fault {
	var ops []proto.Op
	for _, o := range g.Trace {
		if strings.HasPrefix(o.Path, "/src/") && (o.Name == "readlink" || o.Name == "open" || o.Name == "read" || o.Name == "lstat" || o.Name == "stat" || o.Name == "close") {
			ops = append(ops, o)
		}
	}
	if len(ops) == 0 {
		return nil
	}
	o := ops[r.N(len(ops))]
	if r.P(1, 2) { // rather links
		for k := 0; k < 8 && o.Name != "readlink"; k++ {
			o = ops[r.N(len(ops))]
		}
	}
	p := path.Clean(o.Path)
	for _, n := range nodes {
		if n.P == p {
			m := genMut(r, []proto.Node{n}, "/src")
			return &proto.Fault{At: o.I, Kind: "mut", Mut: []proto.Mut{m}}
		}
	}
	return nil
}

func genMut(r *Rand, nodes []proto.Node, root string) proto.Mut {
	m := proto.Mut{Op: r.Pick("write", "truncate", "append", "remove", "create", "replace", "mkdir", "symlink")}
	var fs []proto.Node
	for _, n := range nodes {
		if n.T == "f" || n.T == "d" && (m.Op == "remove" || m.Op == "create" || m.Op == "mkdir") || n.T == "l" && (m.Op == "remove" || m.Op == "symlink") {
			fs = append(fs, n)
		}
	}
	m.Path = root + "/new"
	if len(fs) > 0 {
		n := fs[r.N(len(fs))]
		m.Path = n.P
		if m.Op == "create" || m.Op == "mkdir" {
			if n.T == "d" {
				m.Path = n.P + "/new"
			} else {
				m.Path = path.Dir(n.P) + "/new"
			}
		}
		switch m.Op {
		case "write":
			m.Data = bytes.Repeat([]byte{'X'}, len(n.D))
			if r.P(1, 2) {
				m.Data = bytes.Repeat([]byte{'Y'}, r.N(2*len(n.D)+3))
			}
		case "truncate":
			m.N = r.N(len(n.D) + 1)
		case "append":
			m.Data = bytes.Repeat([]byte{'Z'}, r.PickI(1, 100, 600))
		case "create", "replace":
			m.Data = []byte("new data")
		case "symlink":
			m.To = "elsewhere"
		}
	} else if m.Op != "create" && m.Op != "mkdir" {
		m.Op = "create"
	}
	return m
}

func init() {
	properties["C03"] = &Property{
		ID: "C03", New: func() interface{} { return &dirCase{} }, Gen: genDir, Check: checkDir,
		Quick: 5000, Thorough: 120000,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := ci.(*dirCase)
			if !r.P(1, 2) {
				return nil
			}
			sc := c.scenario()
			sc.Trace = true
			g := x.Run(sc)
			var out []interface{}
			if f := pickFault(r, g, inputFaults); f != nil {
				cc := *c
				cc.Faults = []proto.Fault{*f}
				out = append(out, &cc)
			}
			for k := 0; k < 2 && g.Ops > 0; k++ {
				cc := *c
				n := r.Range(1, 2)
				cc.Faults = nil
				for j := 0; j < n; j++ {
					if f := racyMut(r, c.Nodes, g); f != nil && r.P(1, 2) {
						cc.Faults = append(cc.Faults, *f)
						continue
					}
					cc.Faults = append(cc.Faults, proto.Fault{At: r.N(g.Ops), Kind: "mut", Mut: []proto.Mut{genMut(r, c.Nodes, "/src")}})
				}
				out = append(out, &cc)
			}
			if c.SDE == "" || r.P(1, 3) {
				// the clock jumps while the directory is read
				cc := *c
				cc.Faults = []proto.Fault{{At: r.N(g.Ops + 1), Kind: "clock", Dur: int64(r.PickI(-3600, 3600, 86400*400)) * 1e9}}
				if _, err := strconv.ParseInt(c.SDE, 10, 64); err == nil {
					out = append(out, &cc)
				}
			}
			return out
		},
		Rule:   "Workloads: seeded directory trees (files, directories, symbolic and hard links, FIFOs, odd names, owners, modes, times before and after the clamp), flags and clocks; variants inject one read fault, one or two modifications of the tree by somebody else at seeded system calls, or a clock jump.",
		Real:   []string{"the whole command line program, archive/tar, go-containerregistry"},
		Stub:   []string{"the kernel (in-memory file system, clock, another process that modifies the tree)"},
		Assume: []string{"times below a second may be rounded", "the mode of a symbolic link is not compared"},
	}
}
