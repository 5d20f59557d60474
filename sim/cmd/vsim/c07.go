package main

import (
	"encoding/json"
	"strings"

	"verif/sim/proto"
)

type wheelCase struct {
	W     *Wheel   `json:"w"`
	P     Plat     `json:"p"`
	Sched Sched    `json:"sched"`
	Umask int      `json:"umask,omitempty"`
	Start int64    `json:"start,omitempty"`
	Delay int64    `json:"delay,omitempty"`
	Chunk int      `json:"chunk,omitempty"`
	Env   []string `json:"env,omitempty"`
	Lib   *instOpt `json:"lib,omitempty"` // through the library
	Bad   string   `json:"bad,omitempty"` // what is wrong with the platform or the options
}

func (c *wheelCase) scenario() *proto.Scenario {
	if c.W == nil {
		panic("ill-formed case")
	}
	p := c.P
	switch c.Bad {
	case "":
	case "shebang":
		p.Console, p.Gui = "", ""
	case "purelib":
		p.Pure = strings.TrimLeft(p.Pure, "/")
	case "platlib":
		p.Plat = strings.TrimLeft(p.Plat, "/")
	case "headers":
		p.Headers = strings.TrimLeft(p.Headers, "/")
	case "scripts":
		p.Scripts = strings.TrimLeft(p.Scripts, "/")
	case "data":
		p.Data = strings.TrimLeft(p.Data, "/")
	case "hash":
		if c.Lib == nil || !c.Lib.Record {
			panic("ill-formed case")
		}
	default:
		panic("ill-formed case")
	}
	sc := wheelSc(c.W, c.W.bytes(), p)
	c.Sched.apply(sc)
	sc.Umask = uint32(c.Umask)
	if c.Start != 0 {
		sc.Start = c.Start
	}
	sc.Children[0].Delay = c.Delay
	sc.Children[0].Chunk = c.Chunk
	for _, e := range c.Env {
		env(sc, e)
	}
	sc.Dump = []string{"/tmp"}
	if o := c.Lib; o != nil {
		call := proto.LibCall{Op: "wheel", Path: "/work/" + c.W.File, Min: o.Min, Max: o.Max, Hash: o.Hash, Inst: o.Installer, URL: o.URL}
		if o.Scripts {
			call.Hooks = append(call.Hooks, "scripts")
		}
		if o.Requested != nil {
			call.Req = *o.Requested
			call.Hooks = append(call.Hooks, "req")
		}
		if o.Record {
			if c.Bad == "hash" {
				call.Hash = "sha257"
			}
			call.Hooks = append(call.Hooks, "rec")
		}
		sc.Prog, sc.Args = "lib", nil
		sc.ProgArg, _ = json.Marshal(proto.LibArg{Plats: []proto.LibPlat{p.lib()}, Threads: [][]proto.LibCall{{call}}})
	}
	return sc
}

func (p Plat) lib() proto.LibPlat {
	return proto.LibPlat{Console: p.Console, Gui: p.Gui, Pure: p.Pure, Plat: p.Plat, Headers: p.Headers, Scripts: p.Scripts, Data: p.Data,
		UID: p.UID, GID: p.GID, UN: p.UN, GN: p.GN, Compile: p.Compile}
}

func genOpt(r *Rand) *instOpt {
	o := &instOpt{Scripts: r.P(3, 4), Record: r.P(4, 5)}
	if o.Record {
		o.Hash = r.Pick("", "", "sha256", "sha384", "sha512")
		o.Installer = r.Pick("pip", "sim tool", "")
		if r.P(1, 2) {
			u := &proto.LibURL{URL: r.Pick("https://x.test/a.whl", "file:///a/b c", "git+ssh://x.test/r?a=b&c=<d>", "https://x.test/ü\"\\\n")}
			switch r.N(4) {
			case 0:
				u.Archive, u.Hash = true, r.Pick("", "sha256=00ff")
			case 1:
				u.Dir, u.Editable = true, r.P(1, 2)
			case 2:
				u.VCS, u.Rev, u.Commit = "git", r.Pick("", "v1.0"), "0123abcd"
			}
			o.URL = u
		}
	}
	if r.P(1, 2) {
		s := r.Pick("", "# by hand")
		o.Requested = &s
	}
	if r.P(1, 2) {
		o.Max = int64(r.PickI(315532900, 1550000000, 1600000002, 2000000000, 1600000001, 1700000001))
	}
	if r.P(1, 3) {
		o.Min = int64(r.PickI(400000000, 1600000002, 1900000000))
	}
	return o
}

func genWheelCase(r *Rand, i int) interface{} {
	c := &wheelCase{Sched: genSched(r)}
	c.W, c.P = genGoodWheel(r)
	c.Umask = r.PickI(0o22, 0o22, 0, 0o77, 0o2, 0o27)
	c.Start = int64(r.PickI(1000000000, 1600000000, 1800000000)) * 1e9
	if r.P(1, 3) {
		c.Delay = int64(r.PickI(1, 1000, 100000)) * 1e6
	}
	if r.P(1, 3) {
		c.Env = append(c.Env, "SOURCE_DATE_EPOCH="+r.Pick("0", "1234567890", "2000000000"))
	}
	if r.P(1, 3) {
		c.Env = append(c.Env, "PYTHONPATH=/opt/x")
	}
	if r.P(1, 4) {
		c.Env = append(c.Env, "PYTHONHASHSEED=random")
	}
	if r.P(1, 4) {
		for {
			c.Lib = genOpt(r)
			if _, _, why := c.W.installOpt(c.P, c.Lib); why == "" {
				break
			}
			c.W, c.P = genGoodWheel(r)
		}
	}
	if r.P(1, 20) {
		c.Bad = r.Pick("shebang", "purelib", "platlib", "headers", "scripts", "data", "hash")
		if c.Bad == "hash" && (c.Lib == nil || !c.Lib.Record) {
			c.Bad = ""
		}
	}
	return c
}

func (c *wheelCase) algo() string {
	if c.Lib != nil && c.Lib.Hash != "" {
		return c.Lib.Hash
	}
	return "sha256"
}

func checkWheel(x *X, ci interface{}) *Violation {
	c := ci.(*wheelCase)
	if c.W == nil || len(c.P.Compile) < 3 || c.P.Compile[2] != "compileall" {
		panic("ill-formed case")
	}
	files, _, why := c.W.install(c.P)
	if c.Lib != nil {
		files, _, why = c.W.installOpt(c.P, c.Lib)
	}
	if why != "" {
		panic("ill-formed case: " + why)
	}
	if c.P.Console == "" && c.P.Gui == "" || c.P.Pure == "" || c.P.Plat == "" || c.P.Headers == "" || c.P.Scripts == "" || c.P.Data == "" {
		panic("ill-formed case")
	}
	r := x.Run(c.scenario())
	if v := sane(r); v != nil {
		return v
	}
	out := r.Stdout
	if c.Bad != "" {
		x.Probe("bad-platform")
		if c.Lib != nil {
			if l := libRes(r); l.Setup == "" && l.Threads[0][0].Err == "" {
				return vio("accepted", "a bad platform or option (%s) is accepted", c.Bad)
			}
			return nil
		}
		if r.Exit == 0 || len(r.Stdout) > 0 || len(r.Stderr) == 0 {
			return vio("accepted", "a bad platform (%s): exit status %d, %d bytes of output, message %q", c.Bad, r.Exit, len(r.Stdout), trunc(string(r.Stderr), 500))
		}
		return nil
	}
	if c.Lib != nil {
		l := libRes(r)
		if l.Setup != "" || l.Threads[0][0].Err != "" {
			return vio("refused", "a valid wheel is refused: %s %s", l.Setup, trunc(l.Threads[0][0].Err, 1000))
		}
		out = l.Threads[0][0].Data
		x.Probe("library")
	}
	if r.Exit != 0 {
		return vio("refused", "a valid wheel is refused: %s", trunc(string(r.Stderr), 1000))
	}
	if v := c.W.diffWheelHash(c.P, files, out, c.algo()); v != nil {
		return v
	}
	if len(c.W.EPs) > 0 {
		x.Probe("entry-points")
	}
	for _, f := range files {
		if f.rec != nil {
			x.Probe("rewritten-script")
			break
		}
	}
	return nil
}

func init() {
	properties["C07"] = &Property{
		ID: "C07", New: func() interface{} { return &wheelCase{} }, Gen: genWheelCase, Check: checkWheel,
		Quick: 12000, Thorough: 250000,
		Rule:   "Workloads: seeded wheels (library files, data directories for each scheme key, scripts with each kind of first line, entry points, directory entries, shipped byte code, odd names, stored and deflated, DOS and UNIX times and modes) and platforms (schemes, owners, interpreters), run under seeded schedules, map orders, short reads, small pipes, umasks, clocks and compiler delays; each layer is compared entry by entry with a reference installer.",
		Real:   []string{"the whole command line program, archive/zip, archive/tar, go-containerregistry"},
		Stub:   []string{"the kernel", "the byte compiler (deterministic stand-in that honours -s, -p, SOURCE_DATE_EPOCH and PYTHONHASHSEED)"},
		Assume: []string{"wheels without two files for one install path", "the RECORD row of a rewritten script holds the hash of the script in the wheel, as pip writes it and the code documents"},
	}
}
