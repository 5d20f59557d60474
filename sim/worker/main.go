// The simulation worker.  These files are compiled, through the build
// overlay, into the repository's main package; they do nothing unless
// VERIF_SIM is set.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	zzp "github.com/datawire/ocibuild/zz_verif_proto"
)

type zzWorld struct {
	cancels  []context.CancelFunc
	sc       *zzp.Scenario
	k        *syscall.SimKernel
	res      zzp.Result
	started  int64
	inRun    bool
	sticky   []zzSticky
	byAt     map[int][]zzp.Fault
	initial  *syscall.SimInode
	childN   map[string]int
	docker   *zzDocker
	routeN   map[string]int
	ophash   uint64
	dials    int
	childLog []zzp.ChildRun
}

type zzSticky struct {
	name, path string
	errno      int
}

var zzW *zzWorld

func init() {
	if os.Getenv("VERIF_SIM") == "" {
		return
	}
	debug.SetMaxStack(48 << 20)
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	zzWarm()
	sc := new(zzp.Scenario)
	if err := json.Unmarshal(in, sc); err != nil {
		zzInfra("bad scenario: " + err.Error())
	}
	w := &zzWorld{sc: sc, childN: map[string]int{}, routeN: map[string]int{}, ophash: 14695981039346656037}
	zzW = w
	w.setup()
	w.run()
	panic("not reached")
}

// zzWarm fills the caches of the standard library that reading a scenario
// fills, so that what is in a scenario (a fault, say) does not change the state
// in which the program under test begins.
func zzWarm() {
	n := zzp.Node{P: "x", T: "f", D: []byte("x")}
	full := zzp.Scenario{
		Prog: "x", ProgArg: json.RawMessage("{}"), Args: []string{"x"}, Env: []string{"x"}, FS: []zzp.Node{n}, Dump: []string{"x"}, Images: []string{"x"}, Dial: []string{"x"},
		Faults:   []zzp.Fault{{At: 1, Mut: []zzp.Mut{{Op: "x", Data: []byte("x")}}}},
		Children: []zzp.Child{{Name: "x", Stdout: []byte("x"), Files: []zzp.Node{n}}},
		Routes:   []zzp.Route{{Path: "x", Replies: []zzp.Reply{{Status: 1, Headers: map[string]string{"x": "x"}, Body: []byte("x")}}}},
	}
	b, err := json.Marshal(full)
	if err != nil {
		zzInfra(err.Error())
	}
	for i := 0; i < 60; i++ {
		if err := json.Unmarshal(b, new(zzp.Scenario)); err != nil {
			zzInfra(err.Error())
		}
	}
}

func zzInfra(msg string) {
	syscall.SimOn = false
	runtime.SimStop()
	b, _ := json.Marshal(zzp.Result{Infra: msg})
	_, _ = os.Stdout.Write(b)
	syscall.Exit(0)
}

func (w *zzWorld) setup() {
	sc := w.sc
	os.Clearenv()
	for _, kv := range sc.Env {
		if i := strings.IndexByte(kv, '='); i > 0 {
			_ = os.Setenv(kv[:i], kv[i+1:])
		}
	}
	step := sc.StepMax
	if step == 0 {
		step = 2000000
	}
	limit := sc.SchedLimit
	if limit == 0 {
		limit = 1 << 50
	}
	start := sc.Start
	if start == 0 {
		start = 1600000000e9
	}
	cfg := runtime.SimConfig{
		Seed: sc.Seed, MapRandom: !sc.NoMapRandom, SchedRandom: sc.SchedRandom, SchedLimit: limit,
		YieldNum: sc.YieldNum, YieldSite: sc.YieldSite, StepMax: step, StartTime: start, Gran: sc.Gran,
		StepFn: func() { w.finish(func() { w.res.Hang = "step budget exceeded"; w.res.Exit = -1 }) },
	}
	// The wall clock has to be right while the file system is built.
	runtime.SimStart(cfg)
	k := syscall.NewSimKernel()
	w.k = k
	if sc.Tick != 0 {
		k.Tick = sc.Tick
	}
	if sc.PipeCap > 0 {
		k.PipeCap = sc.PipeCap
	}
	if sc.Quota > 0 {
		k.Quota = sc.Quota
	}
	k.DirSeed = sc.DirSeed
	k.KeepLog = sc.Crash == "power"
	tmp := k.MkdirAll("/tmp", 0o777)
	if sc.TmpDev {
		k.Mount(tmp, 1)
	}
	k.MkdirAll("/w", 0o755)
	k.PutFile("/etc/passwd", 0o644, []byte("root:x:0:0:root:/root:/bin/sh\nalice:x:1000:1000::/home/alice:/bin/sh\nbob:x:1001:1001::/home/bob:/bin/sh\n"))
	k.PutFile("/etc/group", 0o644, []byte("root:x:0:\nusers:x:1000:\nstaff:x:1001:\n"))
	k.PutNode("/dev/null", syscall.S_IFCHR|0o666)
	for _, c := range sc.Children {
		if !strings.Contains(c.Name, ":") { // others are named by the content of an executable
			k.PutFile("/usr/bin/"+c.Name, 0o755, []byte("#!sim\n"))
		}
	}
	for _, n := range sc.FS {
		zzPutNode(k, n)
	}
	p := k.Procs[0]
	p.UID, p.GID, p.Umask = sc.UID, sc.GID, sc.Umask
	if sc.Pid != 0 {
		p.Pid = sc.Pid
	}
	if sc.Cwd != "" {
		p.Cwd = sc.Cwd
	} else {
		p.Cwd = "/w"
	}
	w.byAt = map[int][]zzp.Fault{}
	for _, f := range sc.Faults {
		w.byAt[f.At] = append(w.byAt[f.At], f)
	}
	w.res.Fired = map[string]int{}
	w.docker = zzNewDocker(w)
	k.Exec = w.exec
	k.Hook = w.hook
	k.Trace = w.trace
	k.OnExit = func(code int) { w.finish(func() { w.res.Exit = code }) }
	k.OnSig = func(sig int) { w.finish(func() { w.res.Exit = 128 + sig; w.res.Signal = sig }) }
	k.OnCrash = func() { w.finish(func() { w.res.Exit = 137; w.res.Crashed = true }) }
	syscall.Sim = k
	if k.KeepLog {
		w.initial = zzCopyTree(k.Root, map[*syscall.SimInode]*syscall.SimInode{})
	}
	w.started = runtime.SimMono()
	w.installNet()
	// start over, so that building the file system does not shift the streams
	cfg.StartTime = runtime.SimWall()
	runtime.SimStart(cfg)
}

func zzPutNode(k *syscall.SimKernel, n zzp.Node) {
	var i *syscall.SimInode
	switch n.T {
	case "d":
		i = k.MkdirAll(n.P, 0o755)
		i.Mode = syscall.S_IFDIR | n.M&0o7777
		if n.J != 0 {
			k.Mount(i, uint64(n.J))
		}
	case "f":
		i = k.PutFile(n.P, n.M, n.D)
	case "l":
		i = k.PutSymlink(n.P, n.L)
	case "h":
		t := k.Lookup(n.L)
		if t == nil {
			zzInfra("hard link target missing: " + n.L)
		}
		k.PutLink(n.P, t)
		return
	case "p":
		i = k.PutNode(n.P, syscall.S_IFIFO|n.M)
		i.Data = n.D
	case "c", "b":
		m := uint32(syscall.S_IFCHR)
		if n.T == "b" {
			m = syscall.S_IFBLK
		}
		i = k.PutNode(n.P, m|n.M)
		i.Rdev = uint64(n.J)<<8 | uint64(n.K)
	case "s":
		i = k.PutNode(n.P, syscall.S_IFSOCK|n.M)
	default:
		zzInfra("bad node type " + n.T)
	}
	i.UID, i.GID = uint32(n.U), uint32(n.G)
	if n.MT != 0 {
		i.Mtime, i.Atime, i.Ctime = n.MT, n.MT, n.MT
	}
}

func (w *zzWorld) hook(op *syscall.SimOp) {
	if !w.inRun {
		return
	}
	if w.sc.ReadMax > 0 && op.Name == "read" {
		op.Limit = w.sc.ReadMax
	}
	if w.sc.WriteMax > 0 && (op.Name == "write" || op.Name == "stdout" || op.Name == "pipewrite") {
		op.Limit = w.sc.WriteMax
	}
	for _, s := range w.sticky {
		if s.name == op.Name && s.path == op.Path {
			op.Errno = syscall.Errno(s.errno)
		}
	}
	for _, f := range w.byAt[op.Index] {
		w.fire(op, f)
	}
}

func (w *zzWorld) fire(op *syscall.SimOp, f zzp.Fault) {
	key := f.Kind
	if f.Errno != 0 {
		key += ":" + zzErrno(f.Errno)
	}
	w.res.Fired[key+"@"+op.Name]++
	switch f.Kind {
	case "errno":
		op.Errno = syscall.Errno(f.Errno)
	case "sticky":
		op.Errno = syscall.Errno(f.Errno)
		w.sticky = append(w.sticky, zzSticky{op.Name, op.Path, f.Errno})
	case "partsticky": // transfer N bytes, then fail for good
		if f.N > 0 {
			op.Limit = f.N
		} else {
			op.Errno = syscall.Errno(f.Errno)
		}
		w.sticky = append(w.sticky, zzSticky{op.Name, op.Path, f.Errno})
	case "short":
		op.Limit = f.N
		if op.Limit < 1 {
			op.Limit = 1
		}
	case "crash":
		op.Crash = true
		op.Limit = f.N
	case "clock":
		runtime.SimJumpWall(f.Dur)
	case "delay":
		runtime.SimAdvance(f.Dur)
	case "cancel":
		for _, c := range w.cancels {
			go c()
		}
	case "mut":
		for _, m := range f.Mut {
			w.mutate(m)
		}
	default:
		zzInfra("bad fault kind " + f.Kind)
	}
}

func zzErrno(e int) string {
	switch syscall.Errno(e) {
	case syscall.EIO:
		return "EIO"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EINTR:
		return "EINTR"
	case syscall.EPIPE:
		return "EPIPE"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.ENOMEM:
		return "ENOMEM"
	case syscall.EACCES:
		return "EACCES"
	case syscall.ENOENT:
		return "ENOENT"
	case syscall.EROFS:
		return "EROFS"
	case syscall.EDQUOT:
		return "EDQUOT"
	case syscall.ESTALE:
		return "ESTALE"
	case syscall.EAGAIN:
		return "EAGAIN"
	}
	return fmt.Sprint(e)
}

func (w *zzWorld) mutate(m zzp.Mut) {
	k := w.k
	i := k.Lookup(m.Path)
	switch m.Op {
	case "write": // in place, same inode
		if i == nil || i.Mode&syscall.S_IFMT != syscall.S_IFREG {
			return
		}
		i.Data = append([]byte{}, m.Data...)
		i.Mtime = runtime.SimWall()
	case "replace": // rename of a new file over it
		k.Remove(m.Path)
		k.PutFile(m.Path, 0o644, append([]byte{}, m.Data...))
	case "truncate":
		if i == nil || i.Mode&syscall.S_IFMT != syscall.S_IFREG {
			return
		}
		n := m.N
		if n > len(i.Data) {
			n = len(i.Data)
		}
		i.Data = append([]byte{}, i.Data[:n]...)
		i.Mtime = runtime.SimWall()
	case "append":
		if i == nil || i.Mode&syscall.S_IFMT != syscall.S_IFREG {
			return
		}
		i.Data = append(append([]byte{}, i.Data...), m.Data...)
		i.Mtime = runtime.SimWall()
	case "remove":
		k.Remove(m.Path)
	case "create":
		if i == nil {
			k.PutFile(m.Path, 0o644, append([]byte{}, m.Data...))
		}
	case "mkdir":
		if i == nil {
			k.MkdirAll(m.Path, 0o755)
		}
	case "symlink":
		if i != nil {
			k.Remove(m.Path)
		}
		k.PutSymlink(m.Path, m.To)
	}
}

func (w *zzWorld) trace(op *syscall.SimOp) {
	if !w.inRun {
		return
	}
	h := w.ophash
	for _, s := range []string{op.Name, op.Path} {
		for j := 0; j < len(s); j++ {
			h = (h ^ uint64(s[j])) * 1099511628211
		}
	}
	h = (h ^ uint64(op.Proc)<<40 ^ uint64(uint32(op.Ret))) * 1099511628211
	h = (h ^ uint64(op.Err)) * 1099511628211
	w.ophash = h
	if w.sc.Trace && op.Index >= 0 {
		w.res.Trace = append(w.res.Trace, zzp.Op{I: op.Index, Name: op.Name, Path: op.Path, P2: op.Path2, N: op.N, Ret: op.Ret, Err: int(op.Err)})
	}
}

// run executes the program under test.
func (w *zzWorld) run() {
	k := w.k
	k.Ops = 0
	done := make(chan struct{})
	prog := w.sc.Prog
	syscall.SimOn = true
	w.inRun = true
	// Some library may have a ticker, so that there is always a next event.
	last := int64(-1)
	var watch func()
	watch = func() {
		if now := int64(k.Ops) + int64(runtime.SimGetStats().Steps); now != last { // it is doing something
			last = now
			time.AfterFunc(24*time.Hour, watch)
			return
		}
		buf := make([]byte, 16384)
		buf = buf[:runtime.Stack(buf, true)]
		w.finish(func() {
			w.res.Hang = "nothing happens for a day of simulated time\n" + regexp.MustCompile("0x[0-9a-f]+").ReplaceAllString(string(buf), "0x?")
			w.res.Exit = -1
		})
	}
	time.AfterFunc(24*time.Hour, watch)
	go func() {
		normal := false
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				w.finish(func() { w.res.Panic = fmt.Sprint(r) + "\n" + zzTop(st); w.res.Exit = 2 })
			}
			if !normal {
				// runtime.Goexit from a simulated exit: finish has been called
				close(done)
			}
		}()
		if prog == "cli" {
			os.Args = append([]string{"ocibuild"}, w.sc.Args...)
			main()
		} else {
			fn := zzProgs[prog]
			if fn == nil {
				zzInfra("no such program: " + prog)
			}
			out := fn(w, w.sc.ProgArg)
			b, err := json.Marshal(out)
			if err != nil {
				zzInfra(err.Error())
			}
			w.res.Prog = b
		}
		normal = true
		close(done)
	}()
	<-done
	w.finish(func() {})
}

func zzTop(st string) string {
	if len(st) > 4000 {
		st = st[:4000]
	}
	return st
}

func (w *zzWorld) finish(f func()) {
	if !w.inRun {
		// a second finish (e.g. the goroutine that ended through Goexit)
		select {}
	}
	w.inRun = false
	w.k.Hook, w.k.Trace = nil, nil
	f()
	k := w.k
	st := runtime.SimGetStats()
	w.res.SimNS = runtime.SimMono() - w.started
	syscall.SimOn = false
	runtime.SimStop()
	w.res.Stdout, w.res.Stderr = k.Stdout, k.Stderr
	if len(w.res.Stderr) > 8192 {
		w.res.Stderr = w.res.Stderr[:8192]
	}
	w.res.Ops = k.Ops
	w.res.Calls = k.Calls
	w.res.Decisions, w.res.SchedHash, w.res.Steps, w.res.Yields = st.Decisions, st.Hash, st.Steps, st.Yields
	if w.sc.Cover {
		w.res.Sites = runtime.SimSites()
	}
	w.res.OpHash = w.ophash
	w.res.OpenFDs = k.OpenFiles(0)
	sort.Strings(w.res.OpenFDs)
	for _, p := range k.Procs[1:] {
		w.res.Procs = append(w.res.Procs, strings.Join(p.Argv, " "))
		if !p.Exited {
			w.res.LiveProcs++
		}
	}
	w.res.ChildRuns = w.childLog
	w.res.Docker = w.docker.events
	w.res.Images = w.docker.list()
	w.res.Unknown = k.Unknown
	root := k.Root
	if w.sc.Crash == "power" { // at the crash, or right after the end of the program
		root = w.powerLoss()
	}
	for _, d := range w.sc.Dump {
		zzDump(root, d, &w.res.FS)
	}
	b, err := json.Marshal(&w.res)
	if err != nil {
		zzInfra(err.Error())
	}
	for len(b) > 0 {
		n, err := os.Stdout.Write(b)
		if err != nil {
			syscall.Exit(3)
		}
		b = b[n:]
	}
	syscall.Exit(0)
}

func zzLookup(root *syscall.SimInode, p string) *syscall.SimInode {
	i := root
	for _, c := range strings.Split(p, "/") {
		if c == "" {
			continue
		}
		if i.Entries == nil {
			return nil
		}
		i = i.Entries[c]
		if i == nil {
			return nil
		}
	}
	return i
}

func zzDump(root *syscall.SimInode, p string, out *[]zzp.Node) {
	i := zzLookup(root, p)
	if i == nil {
		return
	}
	n := zzp.Node{P: p, M: i.Mode & 0o7777, U: int(i.UID), G: int(i.GID), MT: i.Mtime, I: i.Ino}
	switch i.Mode & syscall.S_IFMT {
	case syscall.S_IFDIR:
		n.T = "d"
	case syscall.S_IFREG:
		n.T = "f"
		n.D = i.Data
	case syscall.S_IFLNK:
		n.T = "l"
		n.L = i.Target
	case syscall.S_IFIFO:
		n.T = "p"
	default:
		n.T = "c"
	}
	*out = append(*out, n)
	if n.T == "d" {
		names := make([]string, 0, len(i.Entries))
		for c := range i.Entries {
			names = append(names, c)
		}
		sort.Strings(names)
		for _, c := range names {
			zzDump(root, strings.TrimSuffix(p, "/")+"/"+c, out)
		}
	}
}
