package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	zzp "github.com/datawire/ocibuild/zz_verif_proto"
)

// The simulated programs.  They run in goroutines of their own that belong to
// a simulated process; their system calls go to the simulated kernel, but are
// never failed by the fault plan of the program under test.

type zzFD int

func (fd zzFD) Read(b []byte) (int, error) {
	for {
		n, err := syscall.Read(int(fd), b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return 0, err
		}
		if n == 0 {
			return 0, io.EOF
		}
		return n, nil
	}
}

func (fd zzFD) Write(b []byte) (int, error) {
	t := 0
	for len(b) > 0 {
		n, err := syscall.Write(int(fd), b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return t, err
		}
		t += n
		b = b[n:]
	}
	return t, nil
}

func zzWriteAll(fd int, b []byte, chunk int) bool {
	for len(b) > 0 {
		n := len(b)
		if chunk > 0 && n > chunk {
			n = chunk
		}
		if _, err := zzFD(fd).Write(b[:n]); err != nil {
			return false
		}
		if chunk > 0 {
			runtime.Gosched()
		}
		b = b[n:]
	}
	return true
}

func zzGetenv(env []string, key string) (string, bool) {
	for i := len(env) - 1; i >= 0; i-- {
		if strings.HasPrefix(env[i], key+"=") {
			return env[i][len(key)+1:], true
		}
	}
	return "", false
}

func (w *zzWorld) exec(p *syscall.SimProc) int {
	base := path.Base(p.Argv0)
	arg0 := p.Argv0
	if !path.IsAbs(arg0) {
		arg0 = path.Join(p.Cwd, arg0)
	}
	if i := w.k.LookupFollow(arg0); i != nil && strings.HasPrefix(string(i.Data), "#!sim ") {
		base = strings.TrimSpace(string(i.Data[6:]))
	}
	entry := zzEntry(p.Argv)
	w.childN[base]++
	n := w.childN[base]
	var cfg *zzp.Child
	has := func(sub string) bool {
		for _, a := range p.Argv[1:] {
			if a == sub {
				return true
			}
		}
		return false
	}
	subN := 0
	for i := range w.sc.Children {
		c := &w.sc.Children[i]
		if c.Entry != "" && (entry == "" || (c.Entry != "*" && c.Entry != entry)) {
			continue
		}
		if c.Name != base || (c.Sub != "" && !has(c.Sub)) {
			continue
		}
		if c.Nth != 0 {
			// counted among the invocations with this Sub
			if subN == 0 {
				key := base + "\x00" + c.Sub
				w.childN[key]++
				subN = w.childN[key]
			}
			if c.Nth != subN {
				continue
			}
		}
		cfg = c
		break
	}
	_ = n
	if cfg == nil {
		cfg = &zzp.Child{Name: base}
	}
	w.childLog = append(w.childLog, zzp.ChildRun{Argv: p.Argv, Env: zzInteresting(p.Env), Cwd: p.Cwd})
	if cfg.Exit != 0 || cfg.Signal != 0 || cfg.Hang {
		w.res.Fired[fmt.Sprintf("child:%s", zzKindOf(cfg))]++
	}
	if cfg.Delay > 0 {
		time.Sleep(time.Duration(cfg.Delay))
	}
	zzAlive(p)
	if cfg.After < 0 {
		return w.childEnd(p, cfg)
	}
	kind := cfg.Kind
	if kind == "" {
		switch {
		case base == "go":
			kind = "go"
		case base == "docker":
			kind = "docker"
		case strings.HasPrefix(base, "python") && has("compileall"):
			kind = "compileall"
		case strings.HasPrefix(base, "python"):
			kind = "python"
		default:
			kind = "raw"
		}
	}
	if kind == "go" || kind == "compileall" {
		zzWriteAll(1, cfg.Stdout, cfg.Chunk)
	}
	switch kind {
	case "go":
		return w.childGo(p, cfg)
	case "compileall":
		return w.childCompileall(p, cfg)
	case "docker":
		return w.docker.run(p, cfg)
	default: // python -c, raw
		zzWriteAll(1, cfg.Stdout, cfg.Chunk)
		return w.childEnd(p, cfg)
	}
}

// zzEntry is the entry point of a docker run.
func zzEntry(argv []string) string {
	for i, a := range argv {
		if a == "-c" {
			break
		}
		if strings.HasPrefix(a, "--entrypoint=") {
			return a[len("--entrypoint="):]
		}
		if a == "--entrypoint" && i+1 < len(argv) {
			return argv[i+1]
		}
	}
	return ""
}

// zzAlive ends the calling goroutine if its process was killed.
func zzAlive(p *syscall.SimProc) {
	select {
	case <-p.KillCh:
		runtime.Goexit()
	default:
	}
}

func zzKindOf(c *zzp.Child) string {
	switch {
	case c.Hang:
		return "hang"
	case c.Signal != 0:
		return "killed"
	default:
		return "exit"
	}
}

func zzInteresting(env []string) []string {
	var out []string
	for _, kv := range env {
		for _, k := range []string{"GOOS=", "GOARCH=", "SOURCE_DATE_EPOCH=", "PYTHONHASHSEED=", "PYTHONPATH=", "GOFLAGS=", "CGO_ENABLED=", "ZZ_MARK="} {
			if strings.HasPrefix(kv, k) {
				out = append(out, kv)
			}
		}
	}
	return out
}

func (w *zzWorld) childEnd(p *syscall.SimProc, c *zzp.Child) int {
	if len(c.Stderr) > 0 {
		zzWriteAll(2, c.Stderr, c.Chunk)
	}
	if c.Hang {
		<-p.KillCh
		runtime.Goexit()
	}
	if c.Signal != 0 {
		return c.Signal
	}
	return c.Exit << 8
}

// go build ... -o DIR -- PACKAGES
func (w *zzWorld) childGo(p *syscall.SimProc, c *zzp.Child) int {
	dir := ""
	for i, a := range p.Argv {
		if a == "-o" && i+1 < len(p.Argv) {
			dir = p.Argv[i+1]
		}
	}
	if goos, _ := zzGetenv(p.Env, "GOOS"); goos != "linux" {
		zzWriteAll(2, []byte("sim go: GOOS is not linux\n"), 0)
		return 2 << 8
	}
	if dir == "" {
		return 2 << 8
	}
	for i, f := range c.Files {
		if c.After > 0 && i >= c.After {
			break
		}
		fn := path.Join(dir, f.P)
		_ = os.MkdirAll(path.Dir(fn), 0o777)
		if err := os.WriteFile(fn, f.D, os.FileMode(0o777)); err != nil {
			zzWriteAll(2, []byte("sim go: "+err.Error()+"\n"), 0)
			return 1 << 8
		}
		if f.M != 0 {
			_ = os.Chmod(fn, os.FileMode(f.M))
		}
	}
	return w.childEnd(p, c)
}

// python -m compileall -s STRIP -p PREPEND DIR
func (w *zzWorld) childCompileall(p *syscall.SimProc, c *zzp.Child) int {
	strip, prepend, dir, legacy := "", "", "", false
	for i := 0; i < len(p.Argv); i++ {
		switch p.Argv[i] {
		case "-s":
			i++
			strip = p.Argv[i]
		case "-p":
			i++
			prepend = p.Argv[i]
		case "-m":
			i++
		case "-b":
			legacy = true
		default:
			if i > 0 {
				dir = p.Argv[i]
			}
		}
	}
	st := 0
	done := 0
	sde, hashBased := zzGetenv(p.Env, "SOURCE_DATE_EPOCH")
	hs, _ := zzGetenv(p.Env, "PYTHONHASHSEED")
	var walk func(d string) bool
	walk = func(d string) bool {
		es, err := os.ReadDir(d)
		if err != nil {
			zzWriteAll(2, []byte("Can't list "+d+"\n"), 0)
			st = 1
			return true
		}
		names := []string{}
		for _, e := range es {
			names = append(names, e.Name())
		}
		sort.Strings(names)
		for _, n := range names {
			fn := path.Join(d, n)
			fi, err := os.Stat(fn)
			if err != nil {
				continue
			}
			if fi.IsDir() {
				if n == "__pycache__" {
					continue
				}
				zzWriteAll(1, []byte("Listing '"+fn+"'...\n"), 0)
				if !walk(fn) {
					return false
				}
				continue
			}
			if !strings.HasSuffix(n, ".py") {
				continue
			}
			if c.After > 0 && done >= c.After {
				return false
			}
			done++
			src, err := os.ReadFile(fn)
			if err != nil {
				st = 1
				continue
			}
			if bytes.Contains(src, []byte("SYNTAX ERROR")) {
				zzWriteAll(1, []byte("*** Error compiling '"+fn+"'...\n"), 0)
				st = 1
				continue
			}
			shown := path.Join(prepend, strings.TrimPrefix(strings.TrimPrefix(fn, strip), "/"))
			out := zzp.Pyc(shown, src, hashBased, fi.ModTime().Unix())
			if hs != "0" {
				out = append(out, byte(runtime.SimRand()), byte(runtime.SimRand()))
			}
			_ = sde
			cache := path.Join(d, "__pycache__")
			pyc := path.Join(cache, strings.TrimSuffix(n, ".py")+".cpython-39.pyc")
			if legacy {
				pyc = fn + "c"
			} else {
				_ = os.Mkdir(cache, 0o777)
			}
			mode := (fi.Mode().Perm() | 0o200) & 0o666
			if err := os.WriteFile(pyc, out, mode); err != nil {
				st = 1
			}
		}
		return true
	}
	walk(dir)
	if e := w.childEnd(p, c); e != 0 {
		return e
	}
	return st << 8
}

// ---- docker ----

type zzDocker struct {
	w      *zzWorld
	events []zzp.DockerEvent
	tags   map[string]string // tag -> what was loaded
	seq    int
}

func zzNewDocker(w *zzWorld) *zzDocker {
	d := &zzDocker{w: w, tags: map[string]string{}}
	for _, t := range w.sc.Images {
		d.tags[t] = "preexisting"
	}
	return d
}

func (d *zzDocker) ev(ev, tag string, ok bool, note string) {
	d.seq++
	d.events = append(d.events, zzp.DockerEvent{Seq: d.seq, Ev: ev, Tag: tag, OK: ok, Note: note})
}

func (d *zzDocker) list() []string {
	var out []string
	for t := range d.tags {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

func (d *zzDocker) run(p *syscall.SimProc, c *zzp.Child) int {
	args := p.Argv[1:]
	if len(args) > 0 && args[0] == "image" {
		args = args[1:]
	}
	if len(args) == 0 {
		return 1 << 8
	}
	switch args[0] {
	case "load":
		var b []byte
		var err error
		if c.After > 0 {
			b, err = io.ReadAll(io.LimitReader(zzFD(0), int64(c.After)))
			d.ev("load", "", false, "died while reading")
			_ = err
			return d.w.childEnd(p, c)
		}
		b, err = io.ReadAll(zzFD(0))
		if err != nil {
			d.ev("load", "", false, err.Error())
			return 1 << 8
		}
		tags, sum, err := zzParseImage(b)
		if err != nil {
			d.ev("load", "", false, err.Error())
			zzWriteAll(2, []byte("Error processing tar file: "+err.Error()+"\n"), 0)
			if e := d.w.childEnd(p, c); e != 0 {
				return e
			}
			return 1 << 8
		}
		for _, t := range tags {
			d.tags[t] = sum
			d.ev("load", t, true, sum)
			zzWriteAll(1, []byte("Loaded image: "+t+"\n"), 0)
		}
		return d.w.childEnd(p, c)
	case "rm", "rmi":
		st := 0
		for _, t := range args[1:] {
			if strings.HasPrefix(t, "-") {
				continue
			}
			if c.Exit != 0 || c.Signal != 0 {
				d.ev("rm", t, false, "refused")
				continue
			}
			if _, ok := d.tags[t]; !ok {
				d.ev("rm", t, false, "no such image")
				zzWriteAll(2, []byte("Error: No such image: "+t+"\n"), 0)
				st = 1
				continue
			}
			delete(d.tags, t)
			d.ev("rm", t, true, "")
		}
		if e := d.w.childEnd(p, c); e != 0 {
			return e
		}
		return st << 8
	case "run":
		tag := ""
		for i, a := range args[1:] {
			if a == "-c" {
				break
			}
			if args[i] == "--entrypoint" {
				continue
			}
			if !strings.HasPrefix(a, "-") {
				tag = a
				break
			}
		}
		note, ok := d.tags[tag]
		d.ev("run", tag, ok, note)
		if !ok {
			zzWriteAll(2, []byte("Unable to find image '"+tag+"' locally\n"), 0)
			return 125 << 8
		}
		zzWriteAll(1, c.Stdout, c.Chunk)
		return d.w.childEnd(p, c)
	}
	d.ev("other", "", false, strings.Join(args, " "))
	return 1 << 8
}

// zzParseImage checks a docker image tarball and returns its tags.
func zzParseImage(b []byte) ([]string, string, error) {
	files := map[string][]byte{}
	tr := tar.NewReader(bytes.NewReader(b))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, "", err
		}
		c, err := io.ReadAll(tr)
		if err != nil {
			return nil, "", err
		}
		files[h.Name] = c
	}
	var man []struct {
		Config   string
		RepoTags []string
		Layers   []string
	}
	mb, ok := files["manifest.json"]
	if !ok {
		return nil, "", fmt.Errorf("no manifest.json")
	}
	if err := json.Unmarshal(mb, &man); err != nil {
		return nil, "", err
	}
	if len(man) != 1 {
		return nil, "", fmt.Errorf("%d images", len(man))
	}
	if _, ok := files[man[0].Config]; !ok {
		return nil, "", fmt.Errorf("no config")
	}
	var cfg struct {
		Rootfs struct {
			DiffIDs []string `json:"diff_ids"`
		} `json:"rootfs"`
	}
	if err := json.Unmarshal(files[man[0].Config], &cfg); err != nil {
		return nil, "", err
	}
	if len(cfg.Rootfs.DiffIDs) != len(man[0].Layers) {
		return nil, "", fmt.Errorf("%d layers, but %d digests", len(man[0].Layers), len(cfg.Rootfs.DiffIDs))
	}
	for i, l := range man[0].Layers {
		d, ok := files[l]
		if !ok {
			return nil, "", fmt.Errorf("missing layer %s", l)
		}
		if bytes.HasPrefix(d, []byte{0x1f, 0x8b}) {
			zr, err := gzip.NewReader(bytes.NewReader(d))
			if err != nil {
				return nil, "", err
			}
			if d, err = io.ReadAll(zr); err != nil {
				return nil, "", err
			}
		}
		s := sha256.Sum256(d)
		if cfg.Rootfs.DiffIDs[i] != "sha256:"+hex.EncodeToString(s[:]) {
			return nil, "", fmt.Errorf("layer %s does not have its digest", l)
		}
	}
	h := sha256.New()
	h.Write(files[man[0].Config])
	return man[0].RepoTags, hex.EncodeToString(h.Sum(nil)), nil
}
