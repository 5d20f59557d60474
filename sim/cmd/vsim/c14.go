package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"path"
	"strings"

	"verif/sim/proto"
)

// C14: the inspected platform is that of the interpreter asked for.

// Rep is what an interpreter reports about itself.
type Rep struct {
	Magic  []byte   `json:"magic"`
	Tags   []string `json:"tags"`
	V      []int    `json:"v"` // major, minor, micro, serial
	Level  string   `json:"level"`
	Scheme []string `json:"scheme"` // purelib, platlib, headers, scripts, data
	Break  string   `json:"break,omitempty"`
	N      int      `json:"n,omitempty"`
}

var schemeKeys = []string{"purelib", "platlib", "headers", "scripts", "data"}

func (p *Rep) text() []byte {
	if len(p.V) != 4 || len(p.Scheme) != 5 || len(p.Magic) == 0 || len(p.Tags) == 0 || p.Level == "" || p.V[0] < 2 {
		panic("ill-formed case")
	}
	vi := map[string]interface{}{"major": p.V[0], "minor": p.V[1], "micro": p.V[2], "serial": p.V[3], "releaselevel": p.Level}
	sch := map[string]interface{}{}
	for i, k := range schemeKeys {
		sch[k] = p.Scheme[i]
	}
	m := map[string]interface{}{"MagicNumberB64": base64.StdEncoding.EncodeToString(p.Magic), "Tags": p.Tags, "VersionInfo": vi, "Scheme": sch}
	switch p.Break {
	case "", "cut", "notjson", "empty", "trailing":
	case "notags":
		delete(m, "Tags")
	case "nomagic":
		delete(m, "MagicNumberB64")
	case "badmagic":
		m["MagicNumberB64"] = "a?" + m["MagicNumberB64"].(string)
	case "noversion":
		delete(m, "VersionInfo")
	case "noscheme":
		delete(m, "Scheme")
	case "nokey":
		delete(sch, schemeKeys[p.N%5])
	case "nullkey":
		sch[schemeKeys[p.N%5]] = nil
	case "relative":
		sch[schemeKeys[p.N%5]] = "lib/python"
	case "badtag":
		m["Tags"] = append([]string{"py3-any"}, p.Tags...)
	case "badtype":
		vi["major"] = "three"
	case "null":
		return []byte("null")
	default:
		panic("ill-formed case")
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic("ill-formed case")
	}
	switch p.Break {
	case "cut":
		b = b[:p.N%len(b)]
	case "notjson":
		b = []byte("Traceback (most recent call last):\n")
	case "empty":
		b = nil
	case "trailing":
		b = append(b, b...)
	}
	return b
}

// Prog is an interpreter.
type Prog struct {
	ID     string `json:"id"`
	Rep    *Rep   `json:"rep"`
	Exit   int    `json:"exit,omitempty"`
	Signal int    `json:"signal,omitempty"`
	Noise  bool   `json:"noise,omitempty"` // writes warnings to standard error
	Delay  int64  `json:"delay,omitempty"`
	Chunk  int    `json:"chunk,omitempty"`
}

func (p *Prog) good() bool { return p.Exit == 0 && p.Signal == 0 && p.Rep.Break == "" }

func (p *Prog) child(name string) proto.Child {
	c := proto.Child{Name: name, Stdout: p.Rep.text(), Exit: p.Exit, Signal: p.Signal, Delay: p.Delay, Chunk: p.Chunk}
	if p.Noise || p.Exit != 0 {
		c.Stderr = []byte("ImportError: no module named 'pip'\nsee above\n")
	}
	return c
}

type inspCase struct {
	Interp string        `json:"interp,omitempty"`
	Image  *Img          `json:"image,omitempty"`
	Host   []TE          `json:"host,omitempty"`
	Path   string        `json:"path"`
	Progs  []*Prog       `json:"progs"`
	Load   *dockFail     `json:"load,omitempty"`
	Rm     *dockFail     `json:"rm,omitempty"`
	Run    *dockFail     `json:"run,omitempty"`
	Absent bool          `json:"absent,omitempty"`
	Form   string        `json:"form,omitempty"`
	W      *Wheel        `json:"w,omitempty"` // install this for the platform
	Sched  Sched         `json:"sched"`
	Faults []proto.Fault `json:"faults,omitempty"`
}

func (c *inspCase) prog(id string) *Prog {
	for _, p := range c.Progs {
		if p == nil || p.Rep == nil || !strings.HasPrefix(p.ID, "python:") {
			panic("ill-formed case")
		}
		if p.ID == id {
			return p
		}
	}
	return nil
}

// machine is a place where interpreters can be looked up.
type machine struct {
	t    *tree
	path []string
	wd   string
}

func (m *machine) exe(p string) *tino {
	_, n, class := m.t.find(p)
	if class != "" || n == nil || n.t == "d" || n.meta.M&0o111 == 0 {
		return nil
	}
	return n
}

// look returns the places of an interpreter, the first one first.
func (m *machine) look(name string) []string {
	var out []string
	if strings.Contains(name, "/") {
		if !path.IsAbs(name) {
			name = path.Join(m.wd, name)
		}
		if m.exe(name) != nil {
			out = append(out, name)
		}
		return out
	}
	for _, d := range m.path {
		if !path.IsAbs(d) {
			d = path.Join(m.wd, d)
		}
		if p := path.Join(d, name); m.exe(p) != nil {
			out = append(out, p)
		}
	}
	return out
}

// shebangs are the console and graphical interpreter.
func (m *machine) shebangs(generic string) (console, gui string) {
	console, gui = generic, generic
	d, b := path.Split(generic)
	if strings.HasPrefix(b, "pythonw") {
		if p := path.Join(d, "python"+b[len("pythonw"):]); m.exe(p) != nil {
			console = p
		}
	}
	d, b = path.Split(console)
	if strings.HasPrefix(b, "python") && !strings.HasPrefix(b, "pythonw") {
		if p := path.Join(d, "pythonw"+b[len("python"):]); m.exe(p) != nil {
			gui = p
		}
	}
	return console, gui
}

func (c *inspCase) hostMachine() *machine {
	t := newTree()
	if err := t.apply(c.Host); err != nil || t.undo != nil {
		panic("ill-formed case")
	}
	m := &machine{t: t, wd: "/work"}
	for _, d := range strings.Split(c.Path, ":") {
		if !strings.HasPrefix(d, "/") {
			panic("ill-formed case")
		}
		m.path = append(m.path, d)
	}
	return m
}

func (c *inspCase) imageMachine() *machine {
	t := newTree()
	for _, l := range c.Image.Layers {
		if err := t.apply(l); err != nil || t.undo != nil {
			panic("ill-formed case")
		}
	}
	var cfg struct {
		Config struct {
			Env        []string
			WorkingDir string
		} `json:"config"`
	}
	if json.Unmarshal(c.Image.Cfg, &cfg) != nil {
		panic("ill-formed case")
	}
	m := &machine{t: t, wd: path.Clean("/" + cfg.Config.WorkingDir)}
	for _, kv := range cfg.Config.Env {
		if strings.HasPrefix(kv, "PATH=") && kv != "PATH=" {
			m.path = strings.Split(kv[5:], ":")
			break
		}
	}
	return m
}

func (c *inspCase) hostNodes() []proto.Node {
	var out []proto.Node
	for _, e := range c.Host {
		if e.T != "f" && e.T != "d" && e.T != "l" || strings.HasPrefix(e.N, "/") || isWhiteout(e.N) {
			panic("ill-formed case")
		}
		out = append(out, proto.Node{P: "/" + e.N, T: e.T, M: uint32(e.M), U: e.U, G: e.G, D: e.D, L: e.L})
	}
	return out
}

func (c *inspCase) world(sc *proto.Scenario) {
	sc.FS = append(sc.FS, c.hostNodes()...)
	env(sc, "PATH="+c.Path)
	for _, p := range c.Progs {
		sc.Children = append(sc.Children, p.child(p.ID))
	}
	c.Sched.apply(sc)
}

func (c *inspCase) scenario() *proto.Scenario {
	if c.prog("") != nil || len(c.Progs) == 0 {
		panic("ill-formed case")
	}
	sc := cli("python", "inspect")
	if c.Interp != "" {
		sc.Args = append(sc.Args, "--interpreter="+c.Interp)
	}
	c.world(sc)
	if c.Image != nil {
		if !strings.Contains(":"+c.Path+":", ":/usr/bin:") {
			panic("ill-formed case")
		}
		sc.Args = append(sc.Args, "--imagefile=img")
		b := c.Image.bytes()
		if c.Form == "fifo" {
			sc.FS = append(sc.FS, proto.Node{P: "/work/img", T: "p", M: 0o644, D: b})
		} else {
			addFile(sc, "/work/img", b)
		}
		if !c.Absent {
			for _, s := range []struct {
				sub string
				f   *dockFail
			}{{"load", c.Load}, {"rm", c.Rm}, {"run", c.Run}} {
				if s.f != nil {
					if s.f.Hang {
						panic("ill-formed case")
					}
					sc.Children = append(sc.Children, proto.Child{Name: "docker", Sub: s.sub, Exit: s.f.Exit, Signal: s.f.Signal, After: s.f.After, Delay: s.f.Delay})
				}
			}
			if c.Image.Break == "" {
				m := c.imageMachine()
				seen := map[string]bool{}
				add := func(p string) {
					n := m.exe(p)
					if n == nil || seen[p] {
						return
					}
					seen[p] = true
					if g := c.progOf(n); g != nil {
						k := g.child("docker")
						k.Entry = p
						sc.Children = append(sc.Children, k)
					}
				}
				for _, g := range m.look(c.interp()) {
					con, _ := m.shebangs(g)
					add(con)
				}
				m.t.walk(func(p string, n *tino) {
					if n.t != "d" {
						add("/" + strings.TrimPrefix(p, "/"))
					}
				})
				sc.Children = append(sc.Children, proto.Child{Name: "docker", Entry: "*", Exit: 127, Stderr: []byte("exec: no such file or directory\n")})
			}
			sc.Children = append(sc.Children, proto.Child{Name: "docker"})
		}
	}
	sc.Faults = c.Faults
	return sc
}

func (c *inspCase) interp() string {
	if c.Interp == "" {
		return "python3"
	}
	return c.Interp
}

func (c *inspCase) progOf(n *tino) *Prog {
	if n == nil || !strings.HasPrefix(string(n.data), "#!sim python:") {
		return nil
	}
	return c.prog(strings.TrimSpace(string(n.data[6:])))
}

var simUsers = map[int]string{0: "root", 1000: "alice", 1001: "bob"}
var simGroups = map[int]string{0: "root", 1000: "users", 1001: "staff"}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkInsp(x *X, ci interface{}) *Violation {
	c := ci.(*inspCase)
	sc := c.scenario()
	host := c.hostMachine()
	r := x.Run(sc)
	if v := sane(r); v != nil {
		return v
	}
	outFault := false
	for k := range r.Fired {
		outFault = outFault || strings.HasSuffix(k, "@stdout")
	}
	ctx := func() string {
		s := "\nhost:" + dumpTE(c.Host)
		if c.Image != nil {
			s += "\nimage config: " + string(c.Image.Cfg)
			for i, l := range c.Image.Layers {
				s += fmt.Sprintf("\nlayer %d:%s", i, dumpTE(l))
			}
		}
		return s
	}
	if r.Exit != 0 {
		if len(r.Stdout) != 0 && !outFault {
			return vio("output", "it failed (%s), but wrote a platform file:\n%s", trunc(string(r.Stderr), 300), trunc(string(r.Stdout), 500))
		}
		if silent(r) {
			return vio("silent", "it failed without a message%s", ctx())
		}
	}
	if !c.Absent && !c.Rm.fails() && len(c.Faults) == 0 && len(r.Images) > 0 {
		return vio("left", "images are left in Docker: %v", r.Images)
	}

	// what it should be
	why := ""
	open := false
	m := host
	if c.Image != nil {
		if c.Image.Break != "" {
			why = "the image is not consistent"
		} else {
			m = c.imageMachine()
		}
		switch {
		case c.Absent:
			why = "docker is missing"
		case c.Load.fails() || c.Run.fails():
			why = "docker fails"
		case c.Rm.fails():
			open = true
		}
	}
	var places []string
	if why == "" {
		places = m.look(c.interp())
		if len(places) == 0 {
			why = "the interpreter does not exist"
		}
	}
	var console, gui string
	var p *Prog
	if why == "" {
		console, gui = m.shebangs(places[0])
		p = c.progOf(m.exe(console))
		if p == nil {
			panic("ill-formed case")
		}
	}
	var got proto.PlatRes
	if r.Exit == 0 {
		if why != "" {
			return vio("accepted", "%s, but it succeeds%s\noutput:\n%s", why, ctx(), trunc(string(r.Stdout), 1000))
		}
		ps := cli()
		ps.Prog = "platfile"
		ps.ProgArg, _ = json.Marshal("/work/plat.yml")
		addFile(ps, "/work/plat.yml", r.Stdout)
		pr := x.Run(ps)
		if v := sane(pr); v != nil {
			return v
		}
		if json.Unmarshal(pr.Prog, &got) != nil {
			infra("platfile: %s", pr.Prog)
		}
		if got.Err != "" {
			return vio("unusable", "the platform file cannot be used: %s\n%s", got.Err, trunc(string(r.Stdout), 1000))
		}
		if len(c.Faults) > 0 && got.Console != console {
			// a lookup that meets an error may go on to the next place
			for _, g := range places[1:] {
				if c2, g2 := m.shebangs(g); c2 == got.Console || g == got.Console {
					console, gui = got.Console, g2
					p = c.progOf(m.exe(console))
					x.Probe("later-place")
					break
				}
			}
			if g := places[0]; g == got.Console {
				console, p = g, c.progOf(m.exe(g))
			}
			if p == nil {
				panic("ill-formed case")
			}
		}
		if got.Console != console {
			return vio("console", "the console interpreter is %q, not %q%s", got.Console, console, ctx())
		}
		if got.Gui != gui && !(len(c.Faults) > 0 && contains(places, got.Gui)) {
			return vio("graphical", "the graphical interpreter is %q, not %q%s", got.Gui, gui, ctx())
		}
	}
	if why == "" && !p.good() {
		why = "the interpreter fails or gives a bad report"
		x.Probe("bad-report")
	}
	var owner *tino
	if why == "" {
		for i, d := range p.Rep.Scheme {
			_, n, class := m.t.find(d)
			if class == "" {
				if n.t != "d" {
					panic("ill-formed case")
				}
				owner = n
				if c.Image != nil && n.any {
					open = true // the layers do not tell its owner
				}
				if i > 0 {
					x.Probe("later-scheme-directory")
				}
				break
			}
			if class == "loop" {
				open = true
			}
		}
		if owner == nil {
			why = "there is no scheme directory"
			x.Probe("no-scheme-directory")
		}
	}
	if owner != nil && c.Image == nil && (simUsers[owner.meta.U] == "" || simGroups[owner.meta.G] == "") {
		open = true
		x.Probe("unnamed-owner")
	}
	var comp []string // interpreters of the host that can compile for it
	if why == "" && c.Image != nil {
		for _, n := range []string{fmt.Sprintf("python%d.%d", p.Rep.V[0], p.Rep.V[1]), fmt.Sprintf("python%d", p.Rep.V[0]), "python"} {
			for i, pl := range host.look(n) {
				if i > 0 && len(c.Faults) == 0 {
					break
				}
				if hp := c.progOf(host.exe(pl)); hp != nil && hp.good() && string(hp.Rep.Magic) == string(p.Rep.Magic) {
					comp = append(comp, pl)
				}
			}
		}
		if len(comp) == 0 {
			why = "no interpreter of the host matches"
			x.Probe("no-host-match")
		}
	}
	if r.Exit != 0 {
		if why == "" && !open && len(c.Faults) == 0 {
			return vio("refused", "it should work, but fails: %s%s", trunc(string(r.Stderr), 800), ctx())
		}
		x.Probe("refused")
		return nil
	}
	if why != "" {
		return vio("accepted", "%s, but it succeeds (interpreter %s)%s\noutput:\n%s", why, console, ctx(), trunc(string(r.Stdout), 1000))
	}
	sch := []string{got.Pure, got.Plat, got.Headers, got.Scripts, got.Data}
	if !sameStrings(sch, p.Rep.Scheme) {
		return vio("scheme", "the scheme is %q, not %q", sch, p.Rep.Scheme)
	}
	if v := p.Rep.V; !got.HasVersion || got.Major != v[0] || got.Minor != v[1] || got.Micro != v[2] || got.Serial != v[3] || got.Level != p.Rep.Level {
		return vio("version", "the version is %d.%d.%d %s %d, not %v %s", got.Major, got.Minor, got.Micro, got.Level, got.Serial, v, p.Rep.Level)
	}
	if string(got.Magic) != string(p.Rep.Magic) {
		return vio("magic", "the magic number is %x, not %x", got.Magic, p.Rep.Magic)
	}
	if !sameStrings(got.Tags, p.Rep.Tags) {
		return vio("tags", "the tags are %q, not %q", got.Tags, p.Rep.Tags)
	}
	if c.Image == nil {
		comp = []string{console}
	}
	ok := false
	for _, k := range comp {
		ok = ok || sameStrings(got.Compile, []string{k, "-m", "compileall"})
	}
	if !ok {
		return vio("compiler", "the compiler is %q; these would do: %q%s", got.Compile, comp, ctx())
	}
	if !(c.Image != nil && owner.any) {
		u, g := owner.meta.UN, owner.meta.GN
		if c.Image == nil {
			u, g = simUsers[owner.meta.U], simGroups[owner.meta.G]
			if u == "" && got.UN == fmt.Sprint(owner.meta.U) {
				u = got.UN
			}
			if g == "" && got.GN == fmt.Sprint(owner.meta.G) {
				g = got.GN
			}
		}
		if got.UID != owner.meta.U || got.GID != owner.meta.G || got.UN != u || got.GN != g {
			return vio("owner", "the owner is %d(%s):%d(%s), not %d(%s):%d(%s)%s", got.UID, got.UN, got.GID, got.GN, owner.meta.U, u, owner.meta.G, g, ctx())
		}
	}
	if c.W != nil {
		pl := Plat{Console: console, Gui: got.Gui, Pure: sch[0], Plat: sch[1], Headers: sch[2], Scripts: sch[3], Data: sch[4], UID: got.UID, GID: got.GID, UN: got.UN, GN: got.GN, Compile: got.Compile}
		files, _, why := c.W.install(pl)
		if why != "" {
			return nil
		}
		x.Probe("installed")
		ws := cli("layer", "wheel", "--platform-file=plat.yml", c.W.File)
		c.world(ws)
		addFile(ws, "/work/plat.yml", r.Stdout)
		addFile(ws, "/work/"+c.W.File, c.W.bytes())
		wr := x.Run(ws)
		if v := sane(wr); v != nil {
			return v
		}
		if wr.Exit != 0 {
			return vio("unusable", "`layer wheel` fails with the platform file: %s\n%s", trunc(string(wr.Stderr), 500), trunc(string(r.Stdout), 1000))
		}
		return c.W.diffWheel(pl, files, wr.Stdout)
	}
	return nil
}

func genRep(r *Rand) *Rep {
	p := &Rep{Magic: []byte{byte(r.PickI(0x61, 0x6f, 0x55, 0)), 0x0d, 0x0d, 0x0a}, V: []int{3, r.PickI(8, 9, 10, 11), r.N(20), r.PickI(0, 0, 1)}, Level: r.Pick("final", "final", "candidate", "alpha", "beta")}
	if r.P(1, 12) {
		p.V[0], p.V[1] = 2, 7
	}
	v := fmt.Sprintf("%d%d", p.V[0], p.V[1])
	p.Tags = []string{"cp" + v + "-cp" + v + "-manylinux_2_31_x86_64", "cp" + v + "-abi3-linux_x86_64", "py3-none-any", "py" + v + "-none-any", "cp" + v + "-none-any"}[:r.Range(1, 5)]
	r.Shuffle(len(p.Tags), func(i, j int) { p.Tags[i], p.Tags[j] = p.Tags[j], p.Tags[i] })
	vs := fmt.Sprintf("python%d.%d", p.V[0], p.V[1])
	p.Scheme = []string{"/usr/lib/" + vs + "/site-packages", "/usr/lib64/" + vs + "/site-packages", "/usr/include/" + vs + "/", "/usr/bin", "/usr"}
	if r.P(1, 3) {
		p.Scheme = []string{r.Pick("/opt/lib", "/srv/a b", "/opt/lib/", "/srv/lnk"), r.Pick("/opt/lib", "/opt/lib64"), r.Pick("/opt/include/", "/srv/ünï"), r.Pick("/opt/bin", "/opt/bin/"), r.Pick("/", "/opt", "/opt/")}
	}
	return p
}

func genBreak(r *Rand, p *Rep) {
	p.Break = r.Pick("cut", "cut", "notjson", "empty", "trailing", "notags", "nomagic", "badmagic", "noversion", "noscheme", "nokey", "nullkey", "relative", "badtag", "badtype", "null")
	p.N = r.N(1 << 12)
}

var pyNames = []string{"python3", "python", "python3.9", "pythonw3", "pythonw", "python2", "python3.8", "python2.7", "pypy3", "python3.10"}

// genMachine generates what is on a machine.
func genMachine(r *Rand, c *inspCase, dirs []string, owner func() (int, int, string, string)) (es []TE) {
	mkdir := func(p string) {
		u, g, un, gn := owner()
		es = append(es, TE{N: p, T: "d", M: 0o755, U: u, G: g, UN: un, GN: gn})
	}
	have := map[string]bool{}
	for _, d := range dirs {
		if r.P(3, 4) {
			mkdir(d)
		}
	}
	for k := r.Range(1, 7); k > 0; k-- {
		n := dirs[r.N(len(dirs))] + "/" + pyNames[r.N(r.Range(1, len(pyNames)))]
		if have[n] {
			continue
		}
		have[n] = true
		g := c.Progs[r.N(len(c.Progs))]
		switch r.N(10) {
		case 0: // not executable
			es = append(es, TE{N: n, T: "f", M: 0o644, D: []byte("#!sim " + g.ID + "\n")})
		case 1:
			es = append(es, TE{N: n, T: "d", M: 0o755})
		case 2:
			es = append(es, TE{N: n, T: "l", M: 0o777, L: r.Pick("nowhere", path.Base(n), "/opt/lib", "../bin/nowhere")})
		case 3, 4:
			t := "opt/real/" + g.ID[len("python:"):]
			if !have[t] {
				have[t] = true
				es = append(es, TE{N: t, T: "f", M: 0o755, D: []byte("#!sim " + g.ID + "\n")})
			}
			l := "/" + t
			if r.P(1, 2) {
				l = strings.Repeat("../", strings.Count(n, "/")) + t
			}
			es = append(es, TE{N: n, T: "l", M: 0o777, L: l})
		default:
			es = append(es, TE{N: n, T: "f", M: int64(r.PickI(0o755, 0o755, 0o711, 0o744, 0o645)), D: []byte("#!sim " + g.ID + "\n")})
		}
	}
	for _, g := range c.Progs {
		for _, d := range g.Rep.Scheme {
			d = strings.Trim(d, "/")
			if d == "" || have[d] || contains(dirs, d) || r.P(1, 3) {
				continue
			}
			have[d] = true
			if d == "srv/lnk" {
				es = append(es, TE{N: d, T: "l", M: 0o777, L: r.Pick("/opt/lib", "../opt/lib64", "nowhere", "lnk")})
				continue
			}
			mkdir(d)
		}
	}
	return es
}

func genInsp(r *Rand, i int) interface{} {
	c := &inspCase{Sched: genSched(r)}
	c.Interp = r.Pick("", "", "", "python", "python3.9", "pythonw3", "pythonw", "/usr/bin/python3", "/usr/local/bin/pythonw3", "pypy3", "python3.8")
	for k := r.Range(1, 4); k > 0; k-- {
		p := &Prog{ID: fmt.Sprintf("python:%c", 'a'+k), Rep: genRep(r)}
		if len(c.Progs) > 0 && r.P(1, 2) {
			p.Rep.Magic = c.Progs[0].Rep.Magic
		} else if len(c.Progs) > 0 && r.P(1, 2) { // another build of the same version
			p.Rep.V, p.Rep.Level = c.Progs[0].Rep.V, c.Progs[0].Rep.Level
		}
		p.Noise = r.P(1, 4)
		if r.P(1, 3) {
			p.Delay = int64(r.N(1000000))
		}
		if r.P(1, 3) {
			p.Chunk = r.PickI(1, 7, 100)
		}
		c.Progs = append(c.Progs, p)
	}
	dirs := []string{"usr/bin", "usr/local/bin", "opt/bin"}
	c.Host = genMachine(r, c, dirs, func() (int, int, string, string) {
		if r.P(1, 8) { // ids without a name
			return r.PickI(1234, 1000), r.PickI(4321, 1000), "", ""
		}
		return r.PickI(0, 1000, 1001), r.PickI(0, 1000, 1001), "", ""
	})
	ps := []string{"/usr/bin", "/usr/local/bin", "/opt/bin", "/nowhere", "/usr/bin/"}
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	c.Path = strings.Join(ps, ":")
	if r.P(1, 8) {
		c.Interp = r.Pick("../usr/bin/python3", "./../usr/local/bin/pythonw", "../opt/bin/python")
	}
	if r.P(2, 3) {
		c.Image = genImg(r)
		c.Image.Layers = nil
		own := func() (int, int, string, string) {
			return r.PickI(0, 1000, 70000), r.PickI(0, 5, 3000000), r.Pick("", "root", "app"), r.Pick("", "root", "grp")
		}
		idirs := []string{"usr/bin", "usr/local/bin", "srv/app/bin"}
		c.Image.Layers = append(c.Image.Layers, genMachine(r, c, idirs, own))
		if r.P(1, 2) { // a layer that hides something
			var l []TE
			for _, e := range c.Image.Layers[0] {
				if strings.Contains(e.N, "python") && e.T != "d" && r.P(1, 4) {
					l = append(l, TE{N: path.Dir(e.N) + "/.wh." + path.Base(e.N), T: "f", M: 0o600})
				}
			}
			if r.P(1, 4) {
				l = append(l, TE{N: "usr/bin/.wh..wh..opq", T: "f", M: 0o600})
			}
			if r.P(1, 3) {
				l = append(l, TE{N: "usr/bin/python3", T: "f", M: 0o755, D: []byte("#!sim " + c.Progs[0].ID + "\n")})
			}
			c.Image.Layers = append(c.Image.Layers, l)
		}
		if r.P(1, 4) { // merged directories
			c.Image.Layers[0] = append([]TE{{N: "bin", T: "l", M: 0o777, L: r.Pick("usr/bin", "/usr/bin")}}, c.Image.Layers[0]...)
		}
		var cfg map[string]interface{}
		_ = json.Unmarshal(c.Image.Cfg, &cfg)
		m := map[string]interface{}{}
		ips := []string{"/usr/bin", "/usr/local/bin", "/bin", "srv/app/bin", "", "bin", "/usr/local/bin/"}
		r.Shuffle(len(ips), func(i, j int) { ips[i], ips[j] = ips[j], ips[i] })
		if r.P(9, 10) {
			m["Env"] = []string{"LANG=C", "XPATH=/opt", "PATH=" + strings.Join(ips[:r.Range(1, len(ips))], ":")}
		}
		if r.P(2, 3) {
			m["WorkingDir"] = r.Pick("/srv/app", "/usr", "srv/app", "/usr/bin", "/usr/bin/", "/")
		}
		m["Entrypoint"] = []string{"/init"}
		cfg["config"] = m
		c.Image.Cfg, _ = json.Marshal(cfg)
		if r.P(1, 5) {
			c.Interp = r.Pick("bin/python3", "./python3", "./bin/python", "/usr/bin/../bin/python3")
			if c.Interp[0] == '/' {
				c.Interp = "/bin/python3"
			}
		}
		c.Form = r.Pick("", "", "fifo")
		if r.P(1, 2) { // a host that can compile
			for _, p := range c.Progs {
				if r.P(1, 2) {
					n := fmt.Sprintf("usr/bin/python%d.%d", p.Rep.V[0], p.Rep.V[1])
					c.Host = append(c.Host, TE{N: n, T: "f", M: 0o755, D: []byte("#!sim " + p.ID + "\n")})
				}
			}
		}
	}
	if r.P(1, 3) {
		c.W, _ = genGoodWheel(r)
	}
	if r.P(3, 4) { // make it work
		c.help(r)
	}
	return c
}

// help adds what is missing.
func (c *inspCase) help(r *Rand) {
	defer func() {
		_ = recover() // no meaning; the check will tell
	}()
	m := c.hostMachine()
	if c.Image != nil {
		m = c.imageMachine()
	}
	add := func(e TE) {
		if c.Image != nil {
			c.Image.Layers[len(c.Image.Layers)-1] = append(c.Image.Layers[len(c.Image.Layers)-1], e)
		} else {
			c.Host = append(c.Host, e)
		}
	}
	if len(m.look(c.interp())) == 0 {
		d := "/usr/bin"
		n := c.interp()
		if strings.Contains(n, "/") {
			if d = path.Dir(n); !path.IsAbs(d) {
				d = path.Join(m.wd, d)
			}
			n = path.Base(n)
		} else if len(m.path) > 0 {
			if d = m.path[r.N(len(m.path))]; !path.IsAbs(d) {
				d = path.Join(m.wd, d)
			}
		}
		fn := path.Join(d, n)
		if l, _, class := m.t.find(fn); class == "notexist" && l == nil {
			add(TE{N: fn[1:], T: "f", M: 0o755, D: []byte("#!sim " + c.Progs[r.N(len(c.Progs))].ID + "\n")})
		}
	}
	if c.Image == nil {
		return
	}
	m = c.imageMachine()
	pl := m.look(c.interp())
	if len(pl) == 0 {
		return
	}
	con, _ := m.shebangs(pl[0])
	p := c.progOf(m.exe(con))
	h := c.hostMachine()
	n := fmt.Sprintf("python%d", p.Rep.V[0])
	if r.P(1, 2) {
		n += fmt.Sprintf(".%d", p.Rep.V[1])
	}
	if _, _, class := h.t.find("/opt/bin/" + n); class != "" {
		c.Host = append(c.Host, TE{N: "opt/bin/" + n, T: "f", M: 0o755, D: []byte("#!sim " + p.ID + "\n")})
	}
}

func init() {
	properties["C14"] = &Property{
		ID: "C14", New: func() interface{} { return &inspCase{} }, Gen: genInsp, Check: checkInsp,
		Quick: 1600, Thorough: 40000,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := ci.(*inspCase)
			out := []interface{}{c}
			with := func(f func(c *inspCase)) {
				cc := *c
				cc.Progs = nil
				for _, p := range c.Progs {
					pp := *p
					rep := *p.Rep
					pp.Rep = &rep
					cc.Progs = append(cc.Progs, &pp)
				}
				f(&cc)
				out = append(out, &cc)
			}
			for k := 0; k < 3; k++ {
				with(func(c *inspCase) {
					p := c.Progs[r.N(len(c.Progs))]
					switch r.N(5) {
					case 0:
						p.Exit = r.PickI(1, 2, 127)
					case 1:
						p.Signal = r.PickI(9, 11)
					default:
						genBreak(r, p.Rep)
					}
				})
			}
			if c.Image != nil {
				fail := func() *dockFail {
					d := &dockFail{After: r.PickI(-1, 0, 0, 1, 600)}
					if r.P(1, 2) {
						d.Exit = r.PickI(1, 125)
					} else {
						d.Signal = 9
					}
					return d
				}
				switch r.N(5) {
				case 0:
					with(func(c *inspCase) { c.Absent = true })
				case 1:
					with(func(c *inspCase) { c.Load = fail() })
				case 2:
					with(func(c *inspCase) { c.Rm = fail() })
				case 3:
					with(func(c *inspCase) { c.Run = fail() })
				default:
					with(func(c *inspCase) {
						im := *c.Image
						im.Break = r.Pick("badcfg", "nocfg", "noman", "badman", "garbage", "nolayer")
						c.Image = &im
					})
				}
			}
			sc := c.scenario()
			sc.Trace = true
			g := x.Run(sc)
			n := 6
			if g.Exit != 0 {
				n = 1
			}
			for k := 0; k < n; k++ {
				if f := pickFault(r, g, merged(toolFaults, inputFaults, outFaults)); f != nil {
					with(func(c *inspCase) { c.Faults = []proto.Fault{*f} })
				}
			}
			return out
		},
		Rule:   "Workloads: seeded hosts and images (interpreters in several directories of the search path, not executable ones, directories, symlinks within the root, dangling and looping ones, graphical siblings, removed and replaced by upper layers, merged directories, relative and empty search path elements, working directories; scheme directories that exist or not, with owners), interpreters with seeded reports; variants let an interpreter fail, be killed or report something cut, malformed or incomplete, let docker be missing or fail, damage the image, and inject faults into files, pipes, process creation and standard output. The platform file is read as `layer wheel` reads it and compared with a model of the lookup and with what the interpreter reported; some are used to install a wheel.",
		Real:   []string{"the whole command line program, go-containerregistry, os/exec, the YAML writer and reader"},
		Stub:   []string{"the kernel with processes and pipes", "python and docker"},
		Assume: []string{"a search path with absolute elements on the host", "scheme paths do not name files that are no directories"},
	}
}
