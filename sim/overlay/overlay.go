// Package overlay generates the build overlay: the patched standard library
// (simulated kernel, seeded scheduler, simulated clock), the yield-point
// instrumented copy of the repository, and the simulation worker that is
// compiled into the repository's main package.
package overlay

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	file string
	old  string
	new  string
	n    int // expected number of matches
}

var edits = []edit{
	// --- runtime: deterministic start-up randomness
	{"runtime/os_linux.go", "			startupRandomData = (*[16]byte)(unsafe.Pointer(val))[:]", "			_ = val", 1},
	{"runtime/os_linux.go", "func getRandomData(r []byte) {\n", "func getRandomData(r []byte) {\n\tfor i := range r {\n\t\tr[i] = byte(i*7 + 13)\n\t}\n\tif true {\n\t\treturn\n\t}\n", 1},
	{"runtime/proc.go", "uint64(cputicks()), ^fastrandseed", "uint64(0x5eed), ^fastrandseed", 1},
	{"runtime/stubs.go", "func fastrand() uint32 {\n\tmp := getg().m\n", "func fastrand() uint32 {\n\tif simOn {\n\t\tif !simMapRandom {\n\t\t\treturn 0\n\t\t}\n\t\treturn uint32(simNext(&simState) >> 16)\n\t}\n\tmp := getg().m\n", 1},
	// --- runtime: no sysmon, seeded choice of the next goroutine
	{"runtime/proc.go", "	if GOARCH != \"wasm\" { // no threads on wasm yet, so no sysmon\n", "	if false {\n", 1},
	{"runtime/proc.go", "func runqget(pp *p) (gp *g, inheritTime bool) {\n", `func runqget(pp *p) (gp *g, inheritTime bool) {
	if simOn {
		h := pp.runqhead
		t := pp.runqtail
		n := t - h
		next := pp.runnext
		if next != 0 {
			n++
		}
		if n == 0 {
			return nil, false
		}
		r := simPick(n)
		if next != 0 {
			if r == 0 {
				pp.runnext = 0
				return next.ptr(), true
			}
			r--
		}
		// take element h+r, keep the order of the others
		gp := pp.runq[(h+r)%uint32(len(pp.runq))].ptr()
		for i := h + r; i != h; i-- {
			pp.runq[i%uint32(len(pp.runq))] = pp.runq[(i-1)%uint32(len(pp.runq))]
		}
		atomic.StoreRel(&pp.runqhead, h+1)
		return gp, false
	}
`, 1},
	{"runtime/proc.go", "	newg.startpc = fn.fn\n	if isSystemGoroutine", "	newg.startpc = fn.fn\n	newg.simproc = callergp.simproc\n	if isSystemGoroutine", 1},
	{"runtime/runtime2.go", "	gcAssistBytes int64\n}", "	gcAssistBytes int64\n	simproc       int32\n}", 1},
	// --- syscall: the simulated kernel
	{"syscall/syscall_linux.go", `//go:uintptrkeepalive
//go:nosplit
//go:norace
//go:linkname RawSyscall
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
`, `//go:uintptrescapes
//go:norace
//go:linkname RawSyscall
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if SimOn {
		return simSyscall(trap, a1, a2, a3, 0, 0, 0)
	}
`, 1},
	{"syscall/syscall_linux.go", `//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
`, `//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if SimOn {
		return simSyscall(trap, a1, a2, a3, 0, 0, 0)
	}
	return simReal3(trap, a1, a2, a3)
}

//go:uintptrkeepalive
//go:nosplit
func simReal3(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
`, 1},
	{"syscall/syscall_linux.go", `//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
`, `//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if SimOn {
		return simSyscall(trap, a1, a2, a3, a4, a5, a6)
	}
	return simReal6(trap, a1, a2, a3, a4, a5, a6)
}

//go:uintptrkeepalive
//go:nosplit
func simReal6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
`, 1},
	{"syscall/syscall_linux.go", "func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)\n", `func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)

func simRawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr) {
	if SimOn {
		r1, r2, _ = simSyscall(trap, a1, a2, a3, 0, 0, 0)
		return
	}
	return rawSyscallNoError(trap, a1, a2, a3)
}
`, 1},
	{"syscall/zsyscall_linux_amd64.go", "rawSyscallNoError(", "simRawSyscallNoError(", -1},
	{"syscall/time_fake.go", "const faketime = true", "const faketime = false", 1},
	{"syscall/exec_unix.go", "func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n", "func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n	if SimOn {\n		return simForkExec(argv0, argv, attr)\n	}\n", 1},
	// --- os
	{"os/proc.go", "	runtime_beforeExit(code)\n\n	syscall.Exit(code)\n", "	if syscall.SimOn {\n		syscall.SimExit(code)\n	}\n	runtime_beforeExit(code)\n\n	syscall.Exit(code)\n", 1},
	{"os/file_unix.go", "	if e == syscall.EPIPE && file.stdoutOrErr {\n", "	if e == syscall.EPIPE && file.stdoutOrErr {\n		if syscall.SimOn && !syscall.SimSigpipe() {\n			return\n		}\n", 1},
	{"os/file_unix.go", "	pollable := kind == kindOpenFile || kind == kindPipe || kind == kindNonBlock\n", "	pollable := kind == kindOpenFile || kind == kindPipe || kind == kindNonBlock\n	if syscall.SimOn {\n		pollable = false\n	}\n", 1},
	{"os/file_unix.go", "	runtime.SetFinalizer(f.file, (*file).close)\n	return f\n}", "	if !syscall.SimOn {\n		runtime.SetFinalizer(f.file, (*file).close)\n	}\n	return f\n}", 1},
	// --- net
	{"net/dial.go", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "var SimDial func(ctx context.Context, network, address string) (Conn, error)\n\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if SimDial != nil {\n		return SimDial(ctx, network, address)\n	}\n", 1},
	// copy_file_range/splice would bypass read/write
	{"os/readfrom_linux.go", "func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n", "func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n	if syscall.SimOn {\n		return 0, false, nil\n	}\n", 1},
}

// Generate writes the overlay into dir and returns the path of overlay.json.
func Generate(goroot, repo, verif, dir string) (string, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	repl := map[string]string{}
	put := func(target, name string, content []byte) error {
		fn := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(fn), 0o755); err != nil {
			return err
		}
		if old, err := os.ReadFile(fn); err != nil || !bytes.Equal(old, content) {
			if err := os.WriteFile(fn, content, 0o644); err != nil {
				return err
			}
		}
		repl[target] = fn
		return nil
	}

	// standard library
	files := map[string]string{}
	for _, e := range edits {
		src, ok := files[e.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", e.file))
			if err != nil {
				return "", err
			}
			src = string(b)
		}
		n := strings.Count(src, e.old)
		if (e.n >= 0 && n != e.n) || n == 0 {
			return "", fmt.Errorf("std patch for %s: %d matches of %q", e.file, n, e.old)
		}
		files[e.file] = strings.ReplaceAll(src, e.old, e.new)
	}
	names := make([]string, 0, len(files))
	for f := range files {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		src := files[f]
		if f == "os/readfrom_linux.go" && !strings.Contains(src, "\"syscall\"") {
			src = strings.Replace(src, "\"io\"\n", "\"io\"\n\t\"syscall\"\n", 1)
		}
		if err := put(filepath.Join(goroot, "src", f), "std/"+f, []byte(src)); err != nil {
			return "", err
		}
	}
	for target, src := range map[string]string{
		"runtime/zz_sim.go":    "runtime_zz_sim.go",
		"runtime/time_fake.go": "runtime_time_fake.go",
		"syscall/zz_sim.go":    "syscall_zz_sim.go",
	} {
		b, err := os.ReadFile(filepath.Join(verif, "sim", "std", src))
		if err != nil {
			return "", err
		}
		if err := put(filepath.Join(goroot, "src", target), "std/"+target, b); err != nil {
			return "", err
		}
	}

	// the repository, instrumented
	err := filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if info.IsDir() {
			if strings.HasPrefix(info.Name(), ".") && rel != "." || info.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out := Instrument(rel, src)
		if out == nil {
			return nil
		}
		return put(p, "repo/"+rel, out)
	})
	if err != nil {
		return "", err
	}

	// the worker
	ws, err := filepath.Glob(filepath.Join(verif, "sim", "worker", "*.go"))
	if err != nil {
		return "", err
	}
	for _, w := range ws {
		repl[filepath.Join(repo, "zz_verif_"+filepath.Base(w))] = w
	}

	repl[filepath.Join(repo, "zz_verif_proto", "proto.go")] = filepath.Join(verif, "sim", "proto", "proto.go")

	js, err := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	if err != nil {
		return "", err
	}
	fn := filepath.Join(dir, "overlay.json")
	return fn, os.WriteFile(fn, js, 0o644)
}

// Sites maps the numbers of the yield points to places.
var Sites = map[uint32]string{}

// Instrument inserts a yield point before every statement of every function
// body.  It keeps line numbers.  On anything it does not understand it
// returns nil, and the file is compiled as it is.
func Instrument(name string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return nil
		}
	}
	if strings.HasPrefix(filepath.Base(name), "main_aux") {
		return nil
	}
	type ins struct {
		off  int
		text string
	}
	var inserts []ins
	n := 0
	add := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			h := fnv.New32a()
			fmt.Fprintf(h, "%s#%d", name, n)
			n++
			Sites[h.Sum32()&(1<<18-1)] = fmt.Sprintf("%s:%d", name, fset.Position(s.Pos()).Line)
			inserts = append(inserts, ins{fset.Position(s.Pos()).Offset, fmt.Sprintf("zzrt.SimYield(%d); ", h.Sum32())})
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.BlockStmt:
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	if len(inserts) == 0 {
		return nil
	}
	// import: right after the package clause, on the same line
	inserts = append(inserts, ins{fset.Position(f.Name.End()).Offset, `; import zzrt "runtime"`})
	sort.SliceStable(inserts, func(i, j int) bool { return inserts[i].off < inserts[j].off })
	var out bytes.Buffer
	last := 0
	for _, i := range inserts {
		out.Write(src[last:i.off])
		out.WriteString(i.text)
		last = i.off
	}
	out.Write(src[last:])
	// does it still parse?
	if _, err := parser.ParseFile(token.NewFileSet(), name, out.Bytes(), 0); err != nil {
		return nil
	}
	return out.Bytes()
}
