package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"verif/sim/proto"
)

// C11: images lent to Docker.

type dockFail struct {
	Nth    int   `json:"nth,omitempty"`
	Exit   int   `json:"exit,omitempty"`
	Signal int   `json:"signal,omitempty"`
	After  int   `json:"after,omitempty"`
	Hang   bool  `json:"hang,omitempty"`
	Delay  int64 `json:"delay,omitempty"`
}

type lendCase struct {
	Imgs   []*Img          `json:"imgs"`
	Calls  []proto.LibCall `json:"calls"`
	Load   *dockFail       `json:"load,omitempty"`
	Rm     *dockFail       `json:"rm,omitempty"`
	Run    *dockFail       `json:"run,omitempty"`
	Absent bool            `json:"absent,omitempty"`
	Pre    []string        `json:"pre,omitempty"`
	Coarse bool            `json:"coarse,omitempty"` // the clock does not tell close moments apart
	Other  *otherProc      `json:"other,omitempty"`  // a second process uses the same daemon
	Sched  Sched           `json:"sched"`
	Faults []proto.Fault   `json:"faults,omitempty"`
}

type otherProc struct {
	Pid   int   `json:"pid"`
	Later int64 `json:"later"`
}

func (im *Img) cfgSha() string {
	es, err := rdTar(im.bytes())
	if err != nil {
		panic("ill-formed case")
	}
	var man []struct{ Config string }
	for _, e := range es {
		if e.N == "manifest.json" {
			_ = json.Unmarshal(e.D, &man)
		}
	}
	for _, e := range es {
		if len(man) == 1 && e.N == man[0].Config {
			return sha(e.D)
		}
	}
	panic("ill-formed case")
}

func (c *lendCase) scenario() *proto.Scenario {
	if len(c.Imgs) == 0 || len(c.Calls) == 0 {
		panic("ill-formed case")
	}
	sc := cli()
	sc.Prog = "lib"
	arg := proto.LibArg{}
	for i, im := range c.Imgs {
		if im == nil || im.Break != "" {
			panic("ill-formed case")
		}
		fn := fmt.Sprintf("/work/img%d", i)
		addFile(sc, fn, im.bytes())
		arg.Images = append(arg.Images, fn)
	}
	cancelled := true
	for _, k := range c.Calls {
		if k.Op != "withimage" || k.I < 0 || k.I >= len(c.Imgs) || len(k.Name) < 2 {
			panic("ill-formed case")
		}
		cancelled = cancelled && k.Cancel > 0
		arg.Threads = append(arg.Threads, []proto.LibCall{k})
	}
	sc.ProgArg, _ = json.Marshal(arg)
	if !c.Absent {
		for _, s := range []struct {
			sub string
			f   *dockFail
		}{{"load", c.Load}, {"rm", c.Rm}, {"run", c.Run}} {
			if s.f == nil {
				continue
			}
			if s.f.Hang && (!cancelled || s.sub == "rm") {
				panic("ill-formed case")
			}
			sc.Children = append(sc.Children, proto.Child{Name: "docker", Sub: s.sub, Nth: s.f.Nth, Exit: s.f.Exit, Signal: s.f.Signal, After: s.f.After, Hang: s.f.Hang, Delay: s.f.Delay})
		}
		sc.Children = append(sc.Children, proto.Child{Name: "docker"})
	}
	sc.Images = c.Pre
	if c.Coarse {
		sc.Gran = 1e6
	}
	c.Sched.apply(sc)
	sc.Faults = c.Faults
	return sc
}

func (f *dockFail) fails() bool { return f != nil && (f.Exit != 0 || f.Signal != 0) }

func checkLend(x *X, ci interface{}) *Violation {
	c := ci.(*lendCase)
	sc := c.scenario()
	r := x.Run(sc)
	if v := sane(r); v != nil {
		return v
	}
	l := libRes(r)
	io := false // a fault other than a cancellation
	for _, f := range c.Faults {
		io = io || f.Kind != "cancel"
	}
	if l.Setup != "" {
		if !io {
			return vio("setup", "a good image cannot be opened: %s", l.Setup)
		}
		return nil
	}
	var hist strings.Builder
	for _, e := range r.Docker {
		fmt.Fprintf(&hist, "\n%d %s %s %v %s", e.Seq, e.Ev, e.Tag, e.OK, trunc(e.Note, 20))
	}
	h := "\nhistory of the Docker daemon:" + hist.String()
	for i, t := range l.Threads {
		h += fmt.Sprintf("\ncaller %d: called %d, error %q", i, t[0].Called, t[0].Err)
	}
	if r.LiveProcs > 0 {
		return vio("process", "%d docker processes are still running%s", r.LiveProcs, h)
	}
	for _, p := range c.Pre {
		if !contains(r.Images, p) {
			return vio("foreign", "the image %s of somebody else is gone%s", p, h)
		}
	}
	for _, e := range r.Docker {
		if (e.Ev == "load" || e.Ev == "rm") && contains(c.Pre, e.Tag) {
			return vio("foreign", "the image %s of somebody else was touched%s", e.Tag, h)
		}
	}
	left := map[string]bool{}
	for _, t := range r.Images {
		if !contains(c.Pre, t) {
			left[t] = true
		}
	}
	if c.Other != nil {
		// An independent process: another number, another moment, other random bits.
		if c.Other.Pid < 2 || c.Other.Later < 1e6 {
			panic("ill-formed case")
		}
		o := c.scenario()
		o.Pid, o.Start, o.Seed = c.Other.Pid, o.Start+r.SimNS+c.Other.Later, o.Seed+1
		if o.Pid == 4242 {
			o.Pid++
		}
		o.Faults = nil
		ro := x.Run(o)
		if v := sane(ro); v != nil {
			return v
		}
		tags := map[string]bool{}
		for _, t := range l.Threads {
			tags[t[0].Tag] = t[0].Tag != ""
		}
		for _, t := range libRes(ro).Threads {
			if tags[t[0].Tag] {
				return vio("shared-tag", "two processes that use the same daemon get the same tag %s%s", t[0].Tag, h)
			}
		}
		x.Probe("two-processes")
	}
	owner := map[string]int{}
	anyErr := false
	for i, t := range l.Threads {
		o := t[0]
		call := c.Calls[i]
		anyErr = anyErr || o.Err != ""
		cancel := call.Cancel > 0 || call.CancelF && len(c.Faults) > 0 || call.FnCancel
		switch {
		case o.Called > 1:
			return vio("twice", "the callback of caller %d ran %d times%s", i, o.Called, h)
		case o.Called == 0 && o.Err == "":
			return vio("silent", "caller %d got neither a callback nor an error%s", i, h)
		case o.Called == 1 && (call.FnErr || call.FnPanic) && o.Err == "":
			return vio("callback-error", "the error of the callback of caller %d was not reported%s", i, h)
		case o.Called == 1 && (call.FnErr || call.FnPanic) && !o.FnErr && !(call.FnRun && (c.Run != nil || cancel || io)):
			return vio("callback-error", "the error of the callback of caller %d was not reported%s", i, h)
		case o.Called == 1 && call.FnCancel && o.Err == "":
			return vio("callback-error", "the error of the callback of caller %d was not reported%s", i, h)
		case o.Called == 1 && call.FnRun && c.Run.fails() && c.Run.Nth == 0 && o.Err == "":
			return vio("callback-error", "the error of the callback of caller %d was not reported%s", i, h)
		case o.Err != "" && !call.FnErr && !call.FnPanic && !cancel && !io && !c.Absent && !c.Load.fails() && !c.Rm.fails() && !(call.FnRun && c.Run.fails()):
			return vio("error", "caller %d fails although nothing went wrong%s", i, h)
		case o.Called == 1 && c.Rm.fails() && c.Rm.Nth == 0 && o.Err == "":
			return vio("rm-error", "caller %d does not report that the image was not removed%s", i, h)
		}
		if o.Called == 0 {
			x.Probe("not-called")
			continue
		}
		x.Probe("called")
		if j, ok := owner[o.Tag]; ok {
			return vio("shared-tag", "callers %d and %d got the same tag %s%s", j, i, o.Tag, h)
		}
		owner[o.Tag] = i
		if contains(c.Pre, o.Tag) {
			return vio("shared-tag", "caller %d got a tag that was in use%s", i, h)
		}
		want := c.Imgs[call.I].cfgSha()
		loaded, entered, ended := false, false, false
		for _, e := range r.Docker {
			if e.Tag != o.Tag {
				continue
			}
			switch e.Ev {
			case "load":
				loaded = loaded || e.OK
			case "enter", "leave", "run":
				if !loaded {
					return vio("not-loaded", "the callback of caller %d ran without a successful load%s", i, h)
				}
				if !e.OK || e.Note != want {
					return vio("unavailable", "at %q of caller %d, its image is not there%s", e.Ev, i, h)
				}
				entered = entered || e.Ev == "enter"
				ended = ended || e.Ev == "leave"
			}
		}
		if !entered || !ended {
			return vio("events", "no events for the callback of caller %d%s", i, h)
		}
	}
	if len(left) > 0 {
		if !c.Rm.fails() && !io {
			return vio("left", "images %v are still there afterwards%s", sortedKeys(left), h)
		}
		if !anyErr {
			return vio("left-silent", "images %v are still there afterwards and nobody was told%s", sortedKeys(left), h)
		}
		x.Probe("left-excused")
	}
	return nil
}

func genLend(r *Rand, i int) interface{} {
	c := &lendCase{Sched: genSched(r)}
	for k := r.Range(1, 2); k > 0; k-- {
		c.Imgs = append(c.Imgs, genImg(r))
	}
	for k := r.PickI(1, 1, 2, 3, 4); k > 0; k-- {
		l := proto.LibCall{Op: "withimage", I: r.N(len(c.Imgs)), Name: r.Pick("xx", "xx", "inspect", "a/b")}
		l.FnErr = r.P(1, 6)
		l.FnPanic = r.P(1, 12)
		l.FnRun = r.P(1, 2)
		if r.P(1, 2) {
			l.FnWait = int64(r.PickI(1, 1000, 1000000)) * 1000
		}
		l.FnCancel = r.P(1, 8)
		c.Calls = append(c.Calls, l)
	}
	c.Coarse = r.P(1, 4)
	if r.P(1, 6) {
		c.Other = &otherProc{Pid: r.Range(2, 30000), Later: int64(r.PickI(1, 1000, 1000000)) * 1e6 * int64(r.Range(1, 999))}
	}
	for k := r.N(3); k > 0; k-- {
		c.Pre = append(c.Pre, r.Pick("busybox:latest", "ocibuild.local/xx:1.2", "ocibuild.local/xx:4242.1700000000000000000"))
	}
	if r.P(1, 2) {
		d := int64(r.PickI(1, 1000, 100000)) * 1e6
		if r.P(1, 2) {
			c.Load = &dockFail{Delay: d}
		}
		if r.P(1, 2) {
			c.Run = &dockFail{Delay: d}
		}
		if r.P(1, 2) {
			c.Rm = &dockFail{Delay: d}
		}
	}
	return c
}

func init() {
	properties["C11"] = &Property{
		ID: "C11", New: func() interface{} { return &lendCase{} }, Gen: genLend, Check: checkLend,
		Level: "fault_enumeration",
		Quick: 900, Thorough: 12000,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := ci.(*lendCase)
			var out []interface{}
			with := func(f func(c *lendCase)) {
				cc := *c
				cc.Calls = append([]proto.LibCall{}, c.Calls...)
				f(&cc)
				out = append(out, &cc)
			}
			fail := func(hang bool) *dockFail {
				d := &dockFail{}
				switch r.N(3) {
				case 0:
					d.Exit = r.PickI(1, 125)
				case 1:
					d.Signal = r.PickI(9, 15)
				default:
					if hang {
						d.Hang = true
					} else {
						d.Exit = 1
					}
				}
				d.After = r.PickI(-1, 0, 0, 1, 600, 4000)
				if len(c.Calls) > 1 && r.P(1, 2) && !d.Hang {
					d.Nth = r.Range(1, len(c.Calls))
				}
				return d
			}
			canc := func(c *lendCase) {
				for k := range c.Calls {
					c.Calls[k].Cancel = int64(r.PickI(1, 10, 100, 1000, 10000, 1000000)) * int64(r.Range(1, 999))
				}
			}
			with(func(c *lendCase) { c.Absent = true })
			with(func(c *lendCase) { c.Load = fail(false) })
			with(func(c *lendCase) { c.Load = fail(true); canc(c) })
			with(func(c *lendCase) { c.Rm = fail(false) })
			with(func(c *lendCase) { c.Run = fail(false) })
			with(func(c *lendCase) { c.Run = fail(true); canc(c) })
			for k := 0; k < 3; k++ {
				with(canc)
			}
			sc := c.scenario()
			sc.Trace = true
			g := x.Run(sc)
			for k := 0; k < 8 && len(g.Trace) > 0; k++ {
				at := g.Trace[r.N(len(g.Trace))].I
				which := r.N(len(c.Calls))
				with(func(c *lendCase) {
					for k := range c.Calls {
						c.Calls[k].CancelF = k == which || r.P(1, 2)
					}
					c.Faults = []proto.Fault{{At: at, Kind: "cancel"}}
				})
			}
			for k := 0; k < 4; k++ {
				if f := pickFault(r, g, merged(toolFaults, inputFaults)); f != nil {
					with(func(c *lendCase) { c.Faults = []proto.Fault{*f} })
				}
			}
			return out
		},
		Rule:   "Workloads: one to four goroutines that lend images to Docker at once, with callbacks that succeed, fail, run a container, wait, or cancel; variants make docker fail in each way (missing, load, run or rm failing at any point, hanging), cancel the context at a seeded time or at a seeded system call, and inject faults into pipes and process creation. The history of the simulated daemon is checked.",
		Real:   []string{"pkg/dockerutil, dexec, os/exec, go-containerregistry's image writer"},
		Stub:   []string{"the kernel with processes and pipes", "the docker command and daemon (accepts complete image archives only)"},
		Assume: []string{"the daemon does not finish a load after its client has ended"},
	}
}
