package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"

	"verif/sim/proto"
)

// C15: concurrent library calls.

type libCase struct {
	Stacks  [][]TE            `json:"stacks,omitempty"` // layer files
	GZ      bool              `json:"gz,omitempty"`
	Wheels  []*Wheel          `json:"wheels,omitempty"`
	Plats   []Plat            `json:"plats,omitempty"`
	Nodes   []proto.Node      `json:"nodes,omitempty"` // below /src
	Refs    [][]proto.LibRef  `json:"refs,omitempty"`
	Prefix  []proto.LibPrefix `json:"prefix,omitempty"`
	Owners  []proto.LibOwner  `json:"owners,omitempty"`
	Pkgs    [][]string        `json:"pkgs,omitempty"`
	Bins    [][]proto.Node    `json:"bins,omitempty"` // what the Go compiler makes of them
	Delay   int64             `json:"delay,omitempty"`
	SDE     string            `json:"sde,omitempty"`
	Threads [][]proto.LibCall `json:"threads"`
	Share   bool              `json:"share,omitempty"` // calls with the same options use the same hooks
	Sched   Sched             `json:"sched"`
}

func (c *libCase) scenario(threads [][]proto.LibCall) *proto.Scenario {
	sc := cli()
	sc.Prog = "lib"
	arg := proto.LibArg{Threads: threads, Refs: c.Refs, Prefixes: c.Prefix, Owners: c.Owners, Pkgs: c.Pkgs, Share: c.Share}
	for i, s := range c.Stacks {
		fn := fmt.Sprintf("/work/l%d", i)
		b := mkTar(s)
		if c.GZ {
			b = gz(b)
		}
		addFile(sc, fn, b)
		arg.Layers = append(arg.Layers, fn)
	}
	for i, w := range c.Wheels {
		if w == nil {
			panic("ill-formed case")
		}
		sc.FS = append(sc.FS, proto.Node{P: fmt.Sprintf("/work/w%d", i), T: "d", M: 0o755})
		addFile(sc, path.Join(fmt.Sprintf("/work/w%d", i), w.File), w.bytes())
	}
	for _, p := range c.Plats {
		if len(p.Compile) < 3 || p.Compile[2] != "compileall" {
			panic("ill-formed case")
		}
		arg.Plats = append(arg.Plats, proto.LibPlat{Console: p.Console, Gui: p.Gui, Pure: p.Pure, Plat: p.Plat, Headers: p.Headers, Scripts: p.Scripts, Data: p.Data,
			UID: p.UID, GID: p.GID, UN: p.UN, GN: p.GN, Compile: p.Compile})
		name := path.Base(p.Compile[0])
		have := false
		for _, ch := range sc.Children {
			have = have || ch.Name == name
		}
		if !have {
			sc.Children = append(sc.Children, proto.Child{Name: name, Delay: c.Delay})
		}
	}
	sc.FS = append(sc.FS, proto.Node{P: "/src", T: "d", M: 0o755, MT: 1500000000e9})
	for _, n := range c.Nodes {
		if n.P == "" || n.T == "" || (n.T == "l" || n.T == "h") != (n.L != "") {
			panic("ill-formed case")
		}
		sc.FS = append(sc.FS, n)
	}
	if len(c.Pkgs) != len(c.Bins) {
		panic("ill-formed case")
	}
	for i, p := range c.Pkgs {
		if len(p) == 0 {
			panic("ill-formed case")
		}
		sc.Children = append(sc.Children, proto.Child{Name: "go", Sub: p[0], Files: c.Bins[i], Delay: c.Delay})
	}
	if c.SDE != "" {
		env(sc, "SOURCE_DATE_EPOCH="+c.SDE)
	}
	for _, t := range threads {
		for _, k := range t {
			c.valid(k)
		}
	}
	sc.ProgArg, _ = json.Marshal(arg)
	c.Sched.apply(sc)
	sc.Dump = []string{"/tmp"}
	return sc
}

func (c *libCase) valid(k proto.LibCall) {
	ok := true
	for _, l := range k.L {
		ok = ok && l >= 0 && l < len(c.Stacks)
	}
	ok = ok && k.Prefix <= len(c.Prefix) && k.Owner <= len(c.Owners) && k.I >= 0 && k.Prefix >= 0 && k.Owner >= 0
	switch k.Op {
	case "dir":
		ok = ok && k.Clamp != 0 && k.Path != ""
	case "squash", "load":
		ok = ok && len(k.L) > 0
	case "equal":
		ok = ok && len(k.L) == 2
	case "wheel":
		ok = ok && k.I < len(c.Plats) && k.Path != "" && !(contains(k.Hooks, "record") && contains(k.Hooks, "recordurl"))
	case "go":
		ok = ok && k.I < len(c.Pkgs) && k.Clamp != 0
	case "refs":
		ok = ok && k.I < len(c.Refs) && k.Clamp != 0
	case "now":
	default:
		ok = false
	}
	if !ok {
		panic("ill-formed case")
	}
}

func outText(o proto.LibOut) string {
	e := ""
	if o.Err != "" {
		e = "error"
	}
	return fmt.Sprintf("%s equal=%v digest=%s %d bytes sha=%s", e, o.Equal, o.Digest, len(o.Data), sha(o.Data)[:12])
}

func checkLib(x *X, ci interface{}) *Violation {
	c := ci.(*libCase)
	if len(c.Threads) == 0 {
		panic("ill-formed case")
	}
	r := x.Run(c.scenario(c.Threads))
	if v := sane(r); v != nil {
		return v
	}
	l := libRes(r)
	if l.Setup != "" {
		return vio("setup", "good inputs cannot be opened: %s", l.Setup)
	}
	if len(l.Changed) > 0 {
		return vio("argument", "a call modified its arguments: %s", l.Changed[0])
	}
	for _, n := range r.FS {
		if n.P != "/tmp" {
			return vio("left", "%s is left behind", n.P)
		}
	}
	now := int64(0)
	memo := map[string]proto.LibOut{}
	for ti, t := range c.Threads {
		for k, call := range t {
			o := l.Threads[ti][k]
			if call.Op == "now" {
				if now == 0 {
					now = o.Now
				}
				if o.Now != now {
					return vio("now", "the time of the run differs between callers: %d and %d", now, o.Now)
				}
				if c.SDE != "" && fmt.Sprint(now/1e9) != c.SDE {
					return vio("now", "the time of the run is %d with SOURCE_DATE_EPOCH=%s", now, c.SDE)
				}
				continue
			}
			x.Probe(call.Op)
			key, _ := json.Marshal(call)
			alone, ok := memo[string(key)]
			if !ok {
				cc := *c
				cc.Sched = Sched{Seed: 1}
				r := x.Run(cc.scenario([][]proto.LibCall{{call}}))
				if v := sane(r); v != nil {
					return v
				}
				alone = libRes(r).Threads[0][0]
				memo[string(key)] = alone
			}
			if outText(alone) != outText(o) || !bytes.Equal(alone.Data, o.Data) {
				return vio("disturbed", "call %s of goroutine %d (number %d): %s %s; alone: %s %s%s", key, ti, k, outText(o), o.Err, outText(alone), alone.Err, diffLayers(alone.Data, o.Data))
			}
			if o.Err != "" {
				x.Probe("failing-call")
			}
		}
	}
	return nil
}

func diffLayers(a, b []byte) string {
	ea, err1 := rdTar(a)
	eb, err2 := rdTar(b)
	if err1 != nil || err2 != nil {
		return ""
	}
	return "\nalone:\n" + dumpTE(ea) + "with others:\n" + dumpTE(eb)
}

func genLib(r *Rand, i int) interface{} {
	c := &libCase{Sched: genSched(r), GZ: r.P(1, 4), Share: r.P(1, 2)}
	if c.Sched.Yield == 0 && r.P(2, 3) {
		c.Sched.Yield = uint32(r.PickI(20, 100, 400))
	}
	for k := r.Range(1, 3); k > 0; k-- {
		c.Stacks = append(c.Stacks, genStack(r))
	}
	w, p := genGoodWheel(r)
	c.Wheels, c.Plats = append(c.Wheels, w), append(c.Plats, p)
	if r.P(1, 2) {
		w2, p2 := genGoodWheel(r)
		if r.P(1, 2) {
			p2 = p
		}
		if _, _, why := w2.install(p); why == "" {
			c.Wheels = append(c.Wheels, w2)
		}
		if _, _, why := w.install(p2); why == "" {
			c.Plats = append(c.Plats, p2)
		}
	}
	c.Nodes = genNodes(r, "/src", r.Range(0, 8))
	for k := r.Range(1, 2); k > 0; k-- {
		var rs []proto.LibRef
		used := map[string]bool{}
		for j := r.Range(0, 7); j > 0; j-- {
			n := r.Pick("a", "b", "a-b", "a/x", "a/y", "c", "c/d", "c/d/e", "z", "b.py", "a.d")
			if used[n] {
				continue
			}
			used[n] = true
			rs = append(rs, proto.LibRef{N: n, T: r.Pick("f", "f", "d"), M: int64(r.PickI(0o644, 0o755)), MT: int64(r.PickI(5, 1600000000, 2000000000)) * 1e9, D: []byte(fmt.Sprint("data of ", n, r.N(100)))})
		}
		c.Refs = append(c.Refs, rs)
	}
	c.Prefix = []proto.LibPrefix{{Dir: r.Pick("usr/local/bin", "a/./b//c", "x/", "opt"), Mode: r.PickI(0, 0o700), Owner: proto.LibOwner{UID: r.N(5), GN: r.Pick("", "g")}}}
	c.Owners = []proto.LibOwner{{UID: r.PickI(-1, 0, 7), GID: r.PickI(-1, 0, 8), UN: r.Pick("", "u"), GN: r.Pick("", "g")}}
	c.Pkgs = [][]string{{"./cmd/a"}, {"./cmd/b", "./cmd/c"}}
	c.Bins = [][]proto.Node{genBins(r), genBins(r)}
	if r.P(1, 2) {
		c.Delay = int64(r.PickI(1, 1000, 100000)) * 1000
	}
	if r.P(1, 2) {
		c.SDE = r.Pick("1", "1600000000")
	}
	ops := []string{"dir", "squash", "load", "wheel", "go", "refs", "equal", "now"}
	if r.P(1, 2) { // many of the same
		o := ops[r.N(len(ops))]
		ops = []string{o, o, o, ops[r.N(len(ops))]}
	}
	call := func() proto.LibCall {
		k := proto.LibCall{Op: ops[r.N(len(ops))]}
		switch k.Op {
		case "dir":
			k.Path = r.Pick("/src", "/src", "/src/.", "/absent")
			k.Prefix, k.Owner = r.N(2), r.N(2)
			k.Clamp = int64(r.PickI(1, 1599999999, 1900000000))
		case "squash", "load":
			for j := r.Range(1, 3); j > 0; j-- {
				k.L = append(k.L, r.N(len(c.Stacks)))
			}
		case "equal":
			k.L = []int{r.N(len(c.Stacks)), r.N(len(c.Stacks))}
		case "wheel":
			k.I = r.N(len(c.Plats))
			j := r.N(len(c.Wheels))
			k.Path = path.Join(fmt.Sprintf("/work/w%d", j), c.Wheels[j].File)
			for _, h := range []string{"scripts", "requested", r.Pick("record", "recordurl")} {
				if r.P(2, 3) {
					k.Hooks = append(k.Hooks, h)
				}
			}
			if r.P(1, 3) {
				k.Clamp = int64(r.PickI(1000000000, 1600000000))
			}
		case "go":
			k.I = r.N(2)
			k.Clamp = int64(r.PickI(1, 1599999999))
		case "refs":
			k.I = r.N(len(c.Refs))
			k.Clamp = int64(r.PickI(1, 1599999999, 1900000000))
		}
		return k
	}
	var all []proto.LibCall
	for k := r.Range(1, 4); k > 0; k-- {
		all = append(all, call())
	}
	for t := r.PickI(1, 2, 2, 3, 4, 6); t > 0; t-- {
		var th []proto.LibCall
		for k := r.Range(1, 2); k > 0; k-- {
			th = append(th, all[r.N(len(all))])
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

func genStack(r *Rand) []TE {
	return genEq(r, 0).(*eqCase).A
}

func init() {
	properties["C15"] = &Property{
		ID: "C15", New: func() interface{} { return &libCase{} }, Gen: genLib, Check: checkLib,
		Quick: 7000, Thorough: 80000,
		Rule:   "Workloads: one to six goroutines, each with one or two calls out of: layer from a directory, squash, load as a file system, install a wheel (with each post-install hook), Go build, layer from file references, comparison, time of the run; the calls share layers, wheels, platforms (with their compiler), slices with spare capacity, and pointers. Each result is compared with that of the same call made alone in a fresh process; the arguments are compared with their state before. Schedules preempt at statements of the repository's code.",
		Real:   []string{"pkg/dir, pkg/squash, pkg/fsutil, pkg/gobuild, pkg/python/... and their dependencies"},
		Stub:   []string{"the kernel with processes", "the go command and the byte compiler"},
		Assume: []string{"a call that fails alone may fail with another message when made with others"},
	}
}
