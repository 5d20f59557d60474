package main

import (
	"archive/tar"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sync"
	"time"

	"github.com/datawire/dlib/dexec"
	"github.com/google/go-containerregistry/pkg/name"
	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/pkg/dockerutil"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/gobuild"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep376"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/pkg/reproducible"
	"github.com/datawire/ocibuild/pkg/squash"
	zzp "github.com/datawire/ocibuild/zz_verif_proto"
)

func init() { zzProgs["lib"] = zzLib }

// zzCatch turns a panic of the callback into its error.
func zzCatch(fn func() error) (err error) {
	defer func() {
		if p := recover(); p == errZZFn {
			err = errZZFn
		} else if p != nil {
			panic(p)
		}
	}()
	return fn()
}

var errZZFn = errors.New("the callback failed")

type zzShared struct {
	arg      *zzp.LibArg
	layers   []ociv1.Layer
	images   []ociv1.Image
	plats    []python.Platform
	refs     [][]fsutil.FileReference
	prefixes []*dir.Prefix
	owners   []*dir.Ownership
	pkgs     [][]string
	cmdlines [][]string

	mu    sync.Mutex
	hooks map[string]bdist.PostInstallHook
}

// snapshot describes the arguments, to see whether a call modified them.
func (s *zzShared) snapshot() []string {
	var out []string
	for i, rs := range s.refs {
		o := fmt.Sprintf("refs %d:", i)
		for _, r := range rs {
			if r == nil {
				o += " nil"
				continue
			}
			o += fmt.Sprintf(" %q(%v,%d,%v)", r.FullName(), r.Mode(), r.Size(), r.ModTime().UnixNano())
		}
		out = append(out, o)
	}
	for i, p := range s.prefixes {
		out = append(out, fmt.Sprintf("prefix %d: %+v", i, *p))
	}
	for i, p := range s.owners {
		out = append(out, fmt.Sprintf("owner %d: %+v", i, *p))
	}
	for i, p := range s.pkgs {
		out = append(out, fmt.Sprintf("pkgs %d: %q", i, p[:cap(p)]))
	}
	for i, p := range s.cmdlines {
		out = append(out, fmt.Sprintf("command line %d: %q", i, p[:cap(p)]))
	}
	for i, p := range s.plats {
		p.PyCompile = nil
		out = append(out, fmt.Sprintf("platform %d: %+v", i, p))
	}
	return out
}

func zzLib(w *zzWorld, raw json.RawMessage) interface{} {
	var arg zzp.LibArg
	if err := json.Unmarshal(raw, &arg); err != nil {
		zzInfra(err.Error())
	}
	s := &zzShared{arg: &arg}
	var res zzp.LibRes
	fail := func(err error) interface{} { res.Setup = err.Error(); return res }
	var err error
	if s.layers, err = zzLayers(arg.Layers); err != nil {
		return fail(err)
	}
	for _, p := range arg.Images {
		img, err := fsutil.OpenImage(p)
		if err != nil {
			return fail(err)
		}
		s.images = append(s.images, img)
	}
	spare := func(in []string) []string { // room behind the end, as append leaves it
		return append(make([]string, 0, len(in)+5), in...)
	}
	for _, p := range arg.Plats {
		cl := spare(p.Compile)
		s.cmdlines = append(s.cmdlines, cl)
		comp, err := python.ExternalCompiler(cl...)
		if err != nil {
			return fail(err)
		}
		s.plats = append(s.plats, python.Platform{
			ConsoleShebang: p.Console, GraphicalShebang: p.Gui,
			Scheme: python.Scheme{PureLib: p.Pure, PlatLib: p.Plat, Headers: p.Headers, Scripts: p.Scripts, Data: p.Data},
			UID:    p.UID, GID: p.GID, UName: p.UN, GName: p.GN, PyCompile: comp,
		})
	}
	for _, rs := range arg.Refs {
		var o []fsutil.FileReference
		for _, r := range rs {
			h := &tar.Header{Name: r.N, Typeflag: tar.TypeReg, Mode: r.M, Size: int64(len(r.D)), ModTime: time.Unix(0, r.MT), Uid: r.U, Linkname: r.L}
			switch r.T {
			case "d":
				h.Typeflag, h.Size = tar.TypeDir, 0
			case "l":
				h.Typeflag, h.Size = tar.TypeSymlink, 0
			}
			o = append(o, &fsutil.InMemFileReference{FileInfo: h.FileInfo(), MFullName: r.N, MContent: r.D})
		}
		s.refs = append(s.refs, o)
	}
	for _, p := range arg.Prefixes {
		s.prefixes = append(s.prefixes, &dir.Prefix{DirName: p.Dir, Mode: p.Mode, Ownership: dir.Ownership{UID: p.Owner.UID, GID: p.Owner.GID, UName: p.Owner.UN, GName: p.Owner.GN}})
	}
	for _, p := range arg.Owners {
		s.owners = append(s.owners, &dir.Ownership{UID: p.UID, GID: p.GID, UName: p.UN, GName: p.GN})
	}
	for _, p := range arg.Pkgs {
		s.pkgs = append(s.pkgs, spare(p))
	}
	before := s.snapshot()
	res.Threads = make([][]zzp.LibOut, len(arg.Threads))
	var wg sync.WaitGroup
	for ti := range arg.Threads {
		ti := ti
		res.Threads[ti] = make([]zzp.LibOut, len(arg.Threads[ti]))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ci, c := range arg.Threads[ti] {
				res.Threads[ti][ci] = s.call(w, c)
			}
		}()
	}
	wg.Wait()
	for i, a := range s.snapshot() {
		if a != before[i] {
			res.Changed = append(res.Changed, before[i]+" became "+a)
		}
	}
	return res
}

// hook makes a hook, or gives the one that the other calls with these options use.
func (s *zzShared) hook(c zzp.LibCall, h string) bdist.PostInstallHook {
	if !s.arg.Share {
		return s.newHook(c, h)
	}
	plat := 0
	if h == "scripts" {
		plat = c.I
	}
	key, _ := json.Marshal([]interface{}{plat, h, c.URL, c.Hash, c.Inst, c.Req})
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.hooks == nil {
		s.hooks = map[string]bdist.PostInstallHook{}
	}
	if s.hooks[string(key)] == nil {
		s.hooks[string(key)] = s.newHook(c, h)
	}
	return s.hooks[string(key)]
}

func (s *zzShared) newHook(c zzp.LibCall, h string) bdist.PostInstallHook {
	switch h {
	case "scripts":
		return entry_points.CreateScripts(s.plats[c.I])
	case "record":
		return recording_installs.Record("", "sim", nil)
	case "recordurl":
		return recording_installs.Record("sha512", "sim", &direct_url.DirectURL{URL: "https://x.test/a.whl", ArchiveInfo: &direct_url.ArchiveInfo{Hash: "sha256=00"}})
	case "rec":
		var u *direct_url.DirectURL
		if c.URL != nil {
			u = &direct_url.DirectURL{URL: c.URL.URL}
			if c.URL.Archive {
				u.ArchiveInfo = &direct_url.ArchiveInfo{Hash: c.URL.Hash}
			}
			if c.URL.Dir {
				u.DirInfo = &direct_url.DirInfo{Editable: c.URL.Editable}
			}
			if c.URL.VCS != "" {
				u.VCSInfo = &direct_url.VCSInfo{VCS: c.URL.VCS, RequestedRevision: c.URL.Rev, CommitID: c.URL.Commit}
			}
		}
		return recording_installs.Record(c.Hash, c.Inst, u)
	case "req":
		return pep376.RecordRequested(c.Req)
	case "requested":
		return pep376.RecordRequested("")
	}
	panic("no such hook")
}

func (s *zzShared) call(w *zzWorld, c zzp.LibCall) (out zzp.LibOut) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if c.Cancel > 0 {
		t := time.AfterFunc(time.Duration(c.Cancel), cancel)
		defer t.Stop()
	}
	if c.CancelF {
		w.cancels = append(w.cancels, cancel)
	}
	var clamp time.Time
	if c.Clamp != 0 {
		clamp = time.Unix(c.Clamp, 0)
	}
	var layers []ociv1.Layer
	for _, i := range c.L {
		layers = append(layers, s.layers[i])
	}
	var err error
	var layer ociv1.Layer
	switch c.Op {
	case "dir":
		var p *dir.Prefix
		var o *dir.Ownership
		if c.Prefix > 0 {
			p = s.prefixes[c.Prefix-1]
		}
		if c.Owner > 0 {
			o = s.owners[c.Owner-1]
		}
		layer, err = dir.LayerFromDir(c.Path, p, o, clamp)
	case "squash":
		layer, err = squash.Squash(layers)
	case "load":
		var v fs.FS
		v, err = squash.Load(layers, false)
		if err == nil {
			err = fs.WalkDir(v, ".", func(p string, d fs.DirEntry, err error) error {
				if err != nil {
					out.Data = append(out.Data, fmt.Sprintf("%s: %v\n", p, err)...)
					return nil
				}
				info, err := d.Info()
				if err != nil {
					out.Data = append(out.Data, fmt.Sprintf("%s: %v\n", p, err)...)
					return nil
				}
				out.Data = append(out.Data, fmt.Sprintf("%s %v %d\n", p, info.Mode(), info.Size())...)
				if info.Mode().IsRegular() {
					b, err := fs.ReadFile(v, p)
					out.Data = append(out.Data, fmt.Sprintf("%q %v\n", b, err)...)
				}
				return nil
			})
		}
	case "wheel":
		var hooks []bdist.PostInstallHook
		for _, h := range c.Hooks {
			hooks = append(hooks, s.hook(c, h))
		}
		var maxt time.Time
		if c.Clamp != 0 {
			maxt = clamp
		}
		if c.Max != 0 {
			maxt = time.Unix(c.Max, 0)
		}
		var mint time.Time
		if c.Min != 0 {
			mint = time.Unix(c.Min, 0)
		}
		layer, err = bdist.InstallWheel(ctx, s.plats[c.I], mint, maxt, c.Path, bdist.PostInstallHooks(hooks...))
	case "go":
		layer, err = gobuild.LayerFromGo(ctx, clamp, s.pkgs[c.I])
	case "refs":
		layer, err = fsutil.LayerFromFileReferences(s.refs[c.I], clamp)
	case "equal":
		out.Equal, err = fsutil.LayersEqualExceptTimestamps(layers[0], layers[1])
	case "now":
		out.Now = reproducible.Now().UnixNano()
	case "withimage":
		err = zzCatch(func() error {
			return dockerutil.WithImage(ctx, c.Name, s.images[c.I], func(ctx context.Context, tag name.Tag) error {
				out.Called++
				out.Tag = tag.String()
				note, ok := w.docker.tags[tag.String()]
				w.docker.ev("enter", tag.String(), ok, note)
				defer func() {
					note, ok := w.docker.tags[tag.String()]
					w.docker.ev("leave", tag.String(), ok, note)
				}()
				if c.FnRun {
					if err := dexec.CommandContext(ctx, "docker", "run", "--rm", tag.String()).Run(); err != nil {
						return err
					}
				}
				if c.FnWait > 0 {
					select {
					case <-time.After(time.Duration(c.FnWait)):
					case <-ctx.Done():
					}
				}
				if c.FnCancel {
					cancel()
				}
				if c.FnPanic {
					panic(errZZFn)
				}
				if c.FnErr {
					return errZZFn
				}
				return ctx.Err()
			})
		})
		out.FnErr = errors.Is(err, errZZFn)
	default:
		zzInfra("bad call " + c.Op)
	}
	if err == nil && layer != nil {
		var rd io.ReadCloser
		if rd, err = layer.Uncompressed(); err == nil {
			out.Data, err = io.ReadAll(rd)
			_ = rd.Close()
		}
		if err == nil {
			var h ociv1.Hash
			if h, err = layer.DiffID(); err == nil {
				out.Digest = h.Hex
			}
		}
	}
	if err != nil {
		out.Err = err.Error()
		if out.Err == "" {
			out.Err = "an error without a message"
		}
	}
	return out
}
