package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"

	"verif/sim/proto"
)

// C12: external tools.

type toolCase struct {
	Go    *goRun        `json:"go,omitempty"`
	Wheel *wheelCase    `json:"wheel,omitempty"`
	Lib   bool          `json:"lib,omitempty"` // through the library instead of the command
	Out   bool          `json:"out,omitempty"` // gobuild --output
	Pkgs  []string      `json:"pkgs,omitempty"`
	Tmp   string        `json:"tmp,omitempty"` // TMPDIR
	Keep  []proto.Node  `json:"keep,omitempty"`
	Env   []string      `json:"env,omitempty"`
	Fail  string        `json:"fail,omitempty"` // absent, exit, signal, hang
	Code  int           `json:"code,omitempty"`
	After int           `json:"after,omitempty"`
	Msg   string        `json:"msg,omitempty"`
	Say   string        `json:"say,omitempty"`   // the tool prints this
	Wait  int64         `json:"wait,omitempty"`  // the tool works so long
	Canc  int64         `json:"canc,omitempty"`  // the caller gives up after so many ns
	CancF bool          `json:"cancf,omitempty"` // the caller gives up at a system call (a fault)
	Spoil string        `json:"spoil,omitempty"` // what the tool leaves: unreadable, gone
	Fault []proto.Fault `json:"faults,omitempty"`
}

func (c *toolCase) tmp() string {
	if c.Tmp == "" {
		return "/tmp"
	}
	return path.Clean(c.Tmp)
}

func (c *toolCase) scenario() *proto.Scenario {
	var sc *proto.Scenario
	switch {
	case c.Go != nil:
		if len(c.Pkgs) == 0 {
			panic("ill-formed case")
		}
		out := ""
		if c.Out {
			out = "out.tar"
		}
		sc = c.Go.scenario(out)
		sc.Args = append(sc.Args[:len(sc.Args)-1], "--")
		sc.Args = append(sc.Args, c.Pkgs...)
		if c.Lib {
			arg := proto.LibArg{Pkgs: [][]string{c.Pkgs}, Threads: [][]proto.LibCall{{{Op: "go", Clamp: c.Go.SDE, Cancel: c.Canc, CancelF: c.CancF}}}}
			sc.Prog, sc.Args = "lib", nil
			sc.ProgArg, _ = json.Marshal(arg)
		}
	case c.Wheel != nil:
		if c.Wheel.Lib != nil || c.Wheel.Bad != "" {
			panic("ill-formed case")
		}
		sc = c.Wheel.scenario()
		if c.Lib {
			arg := proto.LibArg{
				Plats:   []proto.LibPlat{c.Wheel.P.lib()},
				Threads: [][]proto.LibCall{{{Op: "wheel", Path: "/work/" + c.Wheel.W.File, Hooks: []string{"scripts", "record"}, Cancel: c.Canc, CancelF: c.CancF}}},
			}
			sc.Prog, sc.Args = "lib", nil
			sc.ProgArg, _ = json.Marshal(arg)
		}
	default:
		panic("ill-formed case")
	}
	if (c.Canc > 0 || c.CancF) && !c.Lib {
		panic("ill-formed case")
	}
	for _, e := range c.Env {
		env(sc, e)
	}
	if c.Tmp != "" {
		env(sc, "TMPDIR="+c.Tmp)
		if c.tmp() != "/tmp" && !strings.HasPrefix(c.tmp(), "/absent") {
			for d := c.tmp(); d != "/"; d = path.Dir(d) {
				sc.FS = append([]proto.Node{{P: d, T: "d", M: 0o777}}, sc.FS...)
			}
		}
	}
	for _, n := range c.Keep {
		if n.P == "" || strings.HasPrefix(n.P, "/") || n.MT == 0 && n.T == "f" {
			panic("ill-formed case")
		}
		n.P = path.Join(c.tmp(), n.P)
		sc.FS = append(sc.FS, n)
	}
	ch := &sc.Children[0]
	ch.Delay = c.Wait
	ch.Stdout = []byte(c.Say)
	switch c.Fail {
	case "":
	case "absent":
		sc.Children = nil
	case "exit":
		if c.Code == 0 {
			panic("ill-formed case")
		}
		ch.Exit, ch.After, ch.Stderr = c.Code, c.After, []byte(c.Msg)
	case "signal":
		if c.Code == 0 {
			panic("ill-formed case")
		}
		ch.Signal, ch.After, ch.Stderr = c.Code, c.After, []byte(c.Msg)
	case "hang":
		if c.Canc == 0 {
			panic("ill-formed case")
		}
		ch.Hang, ch.After = true, c.After
	default:
		panic("ill-formed case")
	}
	sc.Faults = c.Fault
	sc.Dump = []string{c.tmp(), "/work"}
	return sc
}

// judgeGo compares a layer with what the compiler made.
func judgeGo(g *goRun, out []byte) *Violation {
	es, err := rdTar(out)
	if err != nil {
		return vio("malformed", "the layer is not a well-formed archive: %v", err)
	}
	dump := "\nlayer:\n" + dumpTE(es)
	want := map[string]*proto.Node{"usr": nil, "usr/local": nil, "usr/local/bin": nil}
	for i := range g.Files {
		want["usr/local/bin/"+g.Files[i].P] = &g.Files[i]
	}
	seen := map[string]bool{}
	for _, e := range es {
		n := path.Clean(e.N)
		w, ok := want[n]
		switch {
		case !ok:
			return vio("extra", "%q should not be there%s", n, dump)
		case seen[n]:
			return vio("twice", "%q occurs twice%s", n, dump)
		case path.Dir(n) != "." && !seen[path.Dir(n)]:
			return vio("order", "%q comes before its directory%s", n, dump)
		case e.U != 0 || e.G != 0 || e.UN != "root" || e.GN != "root":
			return vio("owner", "%q does not belong to root:root%s", n, dump)
		case e.MT > g.SDE*1e9:
			return vio("time", "%q has a time later than SOURCE_DATE_EPOCH%s", n, dump)
		case w == nil && (e.T != "d" || e.M&0o777 != 0o755):
			return vio("dir", "%q is not a directory with mode 755%s", n, dump)
		case w != nil && (e.T != "f" || !bytes.Equal(e.D, w.D) || e.M&0o7777 != 0o755):
			return vio("content", "%q is not the file that the compiler made%s", n, dump)
		}
		seen[n] = true
	}
	for n := range want {
		if !seen[n] {
			return vio("missing", "%q is not in the layer%s", n, dump)
		}
	}
	return nil
}

func nodesText(ns []proto.Node, below string) []string {
	var out []string
	for _, n := range ns {
		if n.P != below && !strings.HasPrefix(n.P, below+"/") {
			continue
		}
		if n.P == below {
			continue // the directory itself may change its time
		}
		s := fmt.Sprintf("%s %s %o %d:%d %q %s", n.P, n.T, n.M&0o7777, n.U, n.G, n.D, n.L)
		if n.T == "f" {
			s += fmt.Sprint(" ", n.MT)
		}
		if !contains(out, s) {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func lastEnv(env []string, key string) string {
	v := ""
	for _, e := range env {
		if strings.HasPrefix(e, key+"=") {
			v = e[len(key)+1:]
		}
	}
	return v
}

// removalFrom is the first system call of the removal of temporary files.
func (c *toolCase) removalFrom(r *proto.Result) int {
	for _, o := range r.Trace {
		if (o.Name == "unlink" || o.Name == "rmdir") && strings.HasPrefix(o.Path, c.tmp()+"/") {
			return o.I
		}
	}
	return 1 << 30
}

func checkTool(x *X, ci interface{}) *Violation {
	c := ci.(*toolCase)
	if c.Go != nil && c.Wheel != nil {
		panic("ill-formed case")
	}
	var files map[string]*WF
	if c.Wheel != nil {
		w := c.Wheel
		if w.W == nil || len(w.P.Compile) < 3 || w.P.Compile[2] != "compileall" || w.P.Console == "" && w.P.Gui == "" {
			panic("ill-formed case")
		}
		var why string
		if files, _, why = w.W.install(w.P); why != "" {
			panic("ill-formed case")
		}
		py := false
		for n := range files {
			py = py || strings.HasSuffix(n, ".py")
		}
		if !py {
			panic("ill-formed case")
		}
	}
	sc := c.scenario()
	sc.Trace = len(c.Fault) > 0
	r := x.Run(sc)
	if v := sane(r); v != nil {
		return v
	}
	exit, out, msg := r.Exit, r.Stdout, string(r.Stderr)
	if c.Lib {
		l := libRes(r)
		if l.Setup != "" {
			exit, msg = 1, l.Setup
		} else {
			o := l.Threads[0][0]
			out = o.Data
			if o.Err != "" {
				exit, msg, out = 1, o.Err, nil
			}
		}
	} else if c.Out {
		out = nil
		if n := node(r.FS, "/work/out.tar"); n != nil {
			out = n.D
		}
		if len(r.Stdout) > 0 {
			return vio("stdout", "output on standard output despite of --output")
		}
	}
	what := fmt.Sprintf("exit status %d, tool failure %q, faults %+v: %s", exit, c.Fail, c.Fault, trunc(msg, 400))
	if r.LiveProcs > 0 {
		return vio("process", "%d processes of the tool are still running; %s", r.LiveProcs, what)
	}
	gone := strings.HasPrefix(c.tmp(), "/absent")
	// nothing left behind
	before, after := nodesText(sc.FS, c.tmp()), nodesText(r.FS, c.tmp())
	excused := false
	for _, f := range c.Fault {
		if f.Kind == "sticky" || (f.Kind != "cancel" && f.At >= c.removalFrom(r)) {
			excused = true
		}
	}
	if strings.Join(before, "\n") != strings.Join(after, "\n") {
		if !excused {
			return vio("residue", "the temporary directory is not as before; %s\nbefore:\n%s\nafter:\n%s", what, trunc(strings.Join(before, "\n"), 800), trunc(strings.Join(after, "\n"), 800))
		}
		have := map[string]bool{}
		for _, n := range after {
			have[n] = true
		}
		for _, n := range before {
			if !have[n] {
				return vio("foreign", "a file of somebody else in the temporary directory was changed: %s; %s", n, what)
			}
		}
		if exit == 0 && !absent(c.Fault) {
			return vio("residue-success", "success although the temporary files could not be removed; %s\nafter:\n%s", what, trunc(strings.Join(after, "\n"), 800))
		}
		x.Probe("residue-excused")
	}
	if exit != 0 {
		if strings.TrimSpace(msg) == "" && r.Exit != 128+13 {
			return vio("message", "failure without a message; %s", what)
		}
		if len(out) > 0 && !anyOp(c.Fault, "stdout") && c.Fail != "" {
			return vio("output", "failure, but %d bytes of a layer were written; %s", len(out), what)
		}
		if c.Fail == "" && len(c.Fault) == 0 && c.Canc == 0 && !gone {
			return vio("failed", "failure without a fault; %s", what)
		}
		x.Probe("failed:" + c.Fail)
	} else {
		if c.Fail != "" {
			return vio("unnoticed", "success although the tool failed; %s", what)
		}
		if gone {
			return vio("unnoticed", "success although there is no temporary directory; %s", what)
		}
		var v *Violation
		if c.Go != nil {
			v = judgeGo(c.Go, out)
		} else if c.Lib {
			v = c.Wheel.W.sameContentExcept(c.Wheel.P, files, out, "INSTALLER", "RECORD")
		} else {
			v = c.Wheel.W.diffWheel(c.Wheel.P, files, out)
		}
		if v != nil {
			v.Detail += "\n" + what
			return v
		}
		x.Probe("ok")
	}
	// what the tool was told
	for _, run := range r.ChildRuns {
		if c.Go != nil {
			a := run.Argv
			if len(a) < 2+len(c.Pkgs) || a[1] != "build" {
				return vio("argv", "the compiler was called as %q", a)
			}
			if fmt.Sprint(a[len(a)-len(c.Pkgs):]) != fmt.Sprint(c.Pkgs) {
				return vio("argv", "the compiler was called as %q, without the packages %q", a, c.Pkgs)
			}
			flags := a[2 : len(a)-len(c.Pkgs)]
			if !contains(flags, "-trimpath") || flags[len(flags)-1] != "--" {
				return vio("argv", "the compiler was called as %q", a)
			}
			if lastEnv(run.Env, "GOOS") != "linux" || lastEnv(run.Env, "GOARCH") != "amd64" {
				return vio("env", "the compiler was called with %q", run.Env)
			}
			if run.Cwd != "" && run.Cwd != "/work" {
				return vio("cwd", "the compiler was called in %q", run.Cwd)
			}
		} else {
			if lastEnv(run.Env, "PYTHONHASHSEED") != "0" || lastEnv(run.Env, "SOURCE_DATE_EPOCH") == "" {
				return vio("env", "the compiler was called with %q", run.Env)
			}
			a := c.Wheel.P.Compile
			if len(run.Argv) < len(a) || fmt.Sprint(run.Argv[1:len(a)]) != fmt.Sprint(a[1:]) {
				return vio("argv", "the compiler was called as %q", run.Argv)
			}
			// what it imports: the installed libraries first, then what the user has
			dir := run.Argv[len(run.Argv)-1]
			want := dedup([]string{path.Join(dir, root(c.Wheel.P.Pure)), path.Join(dir, root(c.Wheel.P.Plat))})
			if u := lastEnv(sc.Env, "PYTHONPATH"); u != "" {
				want = append(want, strings.Split(u, ":")...)
			}
			if got := dedup(strings.Split(lastEnv(run.Env, "PYTHONPATH"), ":")); fmt.Sprint(got) != fmt.Sprint(dedup(want)) {
				return vio("env", "the compiler was called with PYTHONPATH %q, not %q", got, want)
			}
		}
		for _, e := range c.Env {
			k := e[:strings.Index(e, "=")]
			switch k {
			case "GOFLAGS", "CGO_ENABLED", "ZZ_MARK":
				if !contains(run.Env, e) {
					return vio("env", "%s was not passed on: %q", e, run.Env)
				}
			}
		}
	}
	if exit == 0 && len(r.ChildRuns) != 1 {
		return vio("calls", "the tool was called %d times", len(r.ChildRuns))
	}
	return nil
}

func dedup(s []string) (out []string) {
	for _, e := range s {
		if !contains(out, e) {
			out = append(out, e)
		}
	}
	return out
}

func contains(s []string, e string) bool {
	for _, t := range s {
		if t == e {
			return true
		}
	}
	return false
}

// anyOp: some fault may concern the output (its position is not known here).
func anyOp(fs []proto.Fault, _ string) bool { return len(fs) > 0 }

// sameContentExcept compares names and contents of the files of a layer.
func (w *Wheel) sameContentExcept(p Plat, files map[string]*WF, out []byte, skip ...string) *Violation {
	es, err := rdTar(out)
	if err != nil {
		return vio("malformed", "the layer is not a well-formed archive: %v", err)
	}
	seen := map[string]bool{}
	for _, e := range es {
		n := path.Clean(e.N)
		f := files[n]
		if f == nil {
			return vio("extra", "%q should not be there\nlayer:\n%s", n, dumpTE(es))
		}
		seen[n] = true
		if contains(skip, path.Base(n)) {
			continue
		}
		if f.Dir != (e.T == "d") || (!f.Dir && !bytes.Equal(e.D, f.D)) {
			return vio("content", "%q is not what it should be\nlayer:\n%s", n, dumpTE(es))
		}
	}
	for _, n := range mapKeys(files) {
		if !seen[n] {
			return vio("missing", "%q is not in the layer\n%s", n, dumpTE(es))
		}
	}
	return nil
}

func genTool(r *Rand, i int) interface{} {
	c := &toolCase{Lib: r.P(1, 3)}
	if r.P(1, 2) {
		c.Go = &goRun{Files: genBins(r), SDE: 1500000000, Umask: r.PickI(0o22, 0o77, 0), Sched: genSched(r)}
		c.Pkgs = [][]string{{"./cmd/a"}, {"./..."}, {"./a", "./b", "example.com/x"}, {"-x"}, {".", "--", "y"}}[r.N(5)]
		c.Out = !c.Lib && r.P(1, 4)
		if r.P(1, 3) {
			c.Env = append(c.Env, "GOOS="+r.Pick("windows", "darwin", ""))
		}
		if r.P(1, 3) {
			c.Env = append(c.Env, "GOARCH=arm64")
		}
		if r.P(1, 3) {
			c.Env = append(c.Env, "GOFLAGS=-tags=x")
		}
	} else {
		for {
			w := genWheelCase(r, i).(*wheelCase)
			w.Lib, w.Bad = nil, ""
			files, _, _ := w.W.install(w.P)
			py := false
			for n := range files {
				py = py || strings.HasSuffix(n, ".py")
			}
			if py {
				w.Delay = 0
				c.Wheel = w
				if r.P(1, 3) {
					c.Env = append(c.Env, "PYTHONPATH="+r.Pick("/opt/x", "/opt/x:/opt/y", "rel"))
				}
				break
			}
		}
	}
	if r.P(1, 4) {
		c.Env = append(c.Env, "ZZ_MARK=a=b c")
	}
	c.Tmp = r.Pick("", "", "/tmp", "/var/t", "/work/tmp", "/absent/t")
	if c.Tmp == "/absent/t" && r.P(2, 3) {
		c.Tmp = ""
	}
	if c.Tmp != "/absent/t" {
		for k := r.N(4); k > 0; k-- {
			c.Keep = append(c.Keep, proto.Node{P: fmt.Sprintf("%s%d", r.Pick("ocibuild-gobuild.", "ocibuild-pycompile.", "other"), k), T: "f", M: 0o600, D: []byte("keep"), MT: 1000000000e9})
		}
		if r.P(1, 4) {
			c.Keep = append(c.Keep, proto.Node{P: "ocibuild-dir", T: "d", M: 0o700}, proto.Node{P: "ocibuild-dir/x.pyc", T: "f", M: 0o600, D: []byte("keep"), MT: 1})
		}
	}
	if r.P(1, 3) {
		c.Say = r.Pick("Listing '/tmp'...\n", "x", "\x1f\x8b\x00", strings.Repeat("Compiling ...\n", 10000))
	}
	if r.P(1, 3) {
		c.Wait = int64(r.PickI(1, 1000, 60000, 3600000)) * 1e6
	}
	return c
}

func init() {
	properties["C12"] = &Property{
		ID: "C12", New: func() interface{} { return &toolCase{} }, Gen: genTool, Check: checkTool,
		Level: "fault_enumeration",
		Quick: 700, Thorough: 9000,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := ci.(*toolCase)
			if strings.HasPrefix(c.tmp(), "/absent") {
				return nil
			}
			var out []interface{}
			with := func(f func(c *toolCase)) {
				cc := *c
				f(&cc)
				out = append(out, &cc)
			}
			after := func() int { return r.PickI(-1, 1, 1, 2, 0) }
			with(func(c *toolCase) { c.Fail = "absent" })
			with(func(c *toolCase) {
				c.Fail, c.Code, c.After, c.Msg = "exit", r.PickI(1, 2, 127, 255), after(), r.Pick("", "boom\n", strings.Repeat("line\n", 3000))
			})
			with(func(c *toolCase) { c.Fail, c.Code, c.After = "signal", r.PickI(9, 11, 15, 2), after() })
			if c.Lib {
				with(func(c *toolCase) { c.Fail, c.After, c.Canc = "hang", after(), int64(r.PickI(1, 1000, 1000000))*1000 })
				with(func(c *toolCase) { c.Canc = int64(r.PickI(1, 10, 100, 1000, 100000)) * 1000 })
			}
			sc := c.scenario()
			sc.Trace = true
			g := x.Run(sc)
			table := merged(inputFaults, writeFaults, outFaults)
			for k := 0; k < 6; k++ {
				if f := pickFault(r, g, table); f != nil {
					with(func(c *toolCase) { c.Fault = []proto.Fault{*f} })
				}
			}
			// faults in the temporary directory
			tmp := *g
			tmp.Trace = nil
			for _, o := range g.Trace {
				if strings.HasPrefix(o.Path, c.tmp()) || strings.HasPrefix(o.Name, "pipe") || o.Name == "exec" || o.Name == "wait" {
					tmp.Trace = append(tmp.Trace, o)
				}
			}
			for k := 0; k < 8; k++ {
				if f := pickFault(r, &tmp, merged(table, toolFaults)); f != nil {
					with(func(c *toolCase) { c.Fault = []proto.Fault{*f} })
				}
			}
			if c.Lib && len(g.Trace) > 0 {
				for k := 0; k < 6; k++ {
					at := g.Trace[r.N(len(g.Trace))].I
					with(func(c *toolCase) { c.CancF, c.Fault = true, []proto.Fault{{At: at, Kind: "cancel"}} })
				}
			}
			return out
		},
		Rule:   "Workloads: builds of Go binaries and installs of wheels, through the command and through the library, with seeded temporary directories (with files of others in them), environments and arguments; variants make the tool fail in each way (cannot be started, exit status, signal, after part of its work), cancel the caller at a seeded time or system call (with a tool that hangs), and inject I/O faults at seeded system calls, biased to those in the temporary directory and around the child process.",
		Real:   []string{"the whole command line program, os/exec, dexec"},
		Stub:   []string{"the kernel including processes and pipes", "the Go tool and the byte compiler"},
		Assume: []string{"a temporary file may stay behind if its removal itself fails, but then the command must not report success"},
	}
}

var toolFaults = map[string]faultSpec{
	"exec":      {errnos: []int{eNOMEM, eAGAIN, eACCES}, kinds: []string{"errno"}},
	"pipe":      {errnos: []int{eMFILE}, kinds: []string{"errno"}},
	"piperead":  {errnos: []int{eIO}, kinds: []string{"errno", "short"}},
	"pipewrite": {errnos: []int{eIO}, kinds: []string{"errno", "short"}},
	"utimes":    {errnos: []int{eIO, eACCES}, kinds: []string{"errno"}},
}
