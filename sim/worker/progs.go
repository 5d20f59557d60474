package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sync"
	"syscall"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/squash"
	zzp "github.com/datawire/ocibuild/zz_verif_proto"
)

// zzProgs are the client programs that use the repository as a library.
var zzProgs = map[string]func(w *zzWorld, arg json.RawMessage) interface{}{
	"fsview": zzFSView,
}

func zzClass(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, io.EOF):
		return "eof"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	case errors.Is(err, fs.ErrInvalid):
		return "invalid"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	case errors.Is(err, syscall.ELOOP):
		return "loop"
	case errors.Is(err, syscall.ENOTDIR):
		return "notdir"
	case errors.Is(err, syscall.EISDIR):
		return "isdir"
	}
	return "other"
}

func zzLayers(paths []string) ([]ociv1.Layer, error) {
	var out []ociv1.Layer
	for _, p := range paths {
		l, err := fsutil.OpenLayer(p)
		if err != nil {
			return nil, err
		}
		out = append(out, l)
	}
	return out, nil
}

func zzFSView(w *zzWorld, raw json.RawMessage) interface{} {
	var arg zzp.FSViewArg
	if err := json.Unmarshal(raw, &arg); err != nil {
		zzInfra(err.Error())
	}
	var res zzp.FSViewRes
	layers, err := zzLayers(arg.Layers)
	if err != nil {
		res.LoadErr = err.Error()
		return res
	}
	vfs, err := squash.Load(layers, arg.Omit)
	if err != nil {
		res.LoadErr = err.Error()
		return res
	}
	shared := make([]fs.File, len(arg.Shared))
	for i, p := range arg.Shared {
		f, err := vfs.Open(p)
		if err == nil {
			shared[i] = f
		}
	}
	res.Threads = make([][]zzp.FSOut, len(arg.Threads))
	var wg sync.WaitGroup
	for ti := range arg.Threads {
		ti := ti
		res.Threads[ti] = make([]zzp.FSOut, len(arg.Threads[ti]))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for oi, op := range arg.Threads[ti] {
				res.Threads[ti][oi] = zzFSOp(vfs, shared, op)
			}
		}()
	}
	wg.Wait()
	return res
}

func zzFSOp(vfs fs.FS, shared []fs.File, op zzp.FSOp) (out zzp.FSOut) {
	if op.Op == "sread" || op.Op == "slist" {
		f := shared[op.H]
		if f == nil {
			out.Err = "unopened"
			return out
		}
		if op.Op == "sread" {
			buf := make([]byte, op.N)
			n, err := f.Read(buf)
			out.Data = buf[:n]
			out.Err = zzClass(err)
			return out
		}
		return zzListFile(f, op.N, true)
	}
	if op.Op == "sclose" {
		if f := shared[op.H]; f == nil {
			out.Err = "unopened"
		} else {
			out.Err = zzClass(f.Close())
		}
		return out
	}
	f, err := vfs.Open(op.P)
	if err != nil {
		out.Err = zzClass(err)
		out.Stage = "open"
		return out
	}
	if op.Op == "closed" {
		if err := f.Close(); err != nil {
			out.Err = "close:" + zzClass(err)
			return out
		}
		n, err := f.Read(make([]byte, op.N))
		if n != 0 || err == nil || errors.Is(err, io.EOF) {
			out.Err = fmt.Sprintf("read %d bytes, error %v", n, err)
		}
		if d, ok := f.(fs.ReadDirFile); ok {
			ents, err := d.ReadDir(op.N)
			if len(ents) != 0 || err == nil || errors.Is(err, io.EOF) {
				out.Err = fmt.Sprintf("listed %d entries, error %v", len(ents), err)
			}
		}
		return out
	}
	defer func() {
		if err := f.Close(); err != nil {
			out.Err = "close:" + zzClass(err)
		}
	}()
	switch op.Op {
	case "stat":
		info, err := f.Stat()
		if err != nil {
			out.Err = zzClass(err)
			out.Stage = "stat"
			return out
		}
		out.Name, out.Size, out.Mode, out.MT = info.Name(), info.Size(), uint32(info.Mode()), info.ModTime().UnixNano()
		out.IsDir = info.IsDir()
	case "read":
		buf := make([]byte, op.N)
		for {
			n, err := f.Read(buf)
			out.Data = append(out.Data, buf[:n]...)
			if errors.Is(err, io.EOF) {
				return out
			}
			if err != nil {
				out.Err = zzClass(err)
				out.Stage = "read"
				return out
			}
			if n == 0 {
				out.Err = "no progress"
				return out
			}
		}
	case "list":
		return zzListFile(f, op.N, false)
	}
	return out
}

type zzOwn struct{}

func (zzOwn) Name() string       { return "added by the caller" }
func (zzOwn) Size() int64        { return 0 }
func (zzOwn) Mode() fs.FileMode  { return 0 }
func (zzOwn) ModTime() time.Time { return time.Time{} }
func (zzOwn) IsDir() bool        { return false }
func (zzOwn) Sys() interface{}   { return nil }

func zzListFile(f fs.File, n int, once bool) (out zzp.FSOut) {
	d, ok := f.(fs.ReadDirFile)
	if !ok {
		out.Err = "no ReadDir"
		return out
	}
	for {
		ents, err := d.ReadDir(n)
		for _, e := range ents {
			o := zzp.FSEnt{Name: e.Name(), Type: uint32(e.Type()), IsDir: e.IsDir()}
			if info, err := e.Info(); err != nil {
				o.Err = zzClass(err)
			} else {
				o.Size, o.Mode, o.MT, o.IName = info.Size(), uint32(info.Mode()), info.ModTime().UnixNano(), info.Name()
			}
			out.Ents = append(out.Ents, o)
		}
		if n > 0 {
			_ = append(ents, fs.FileInfoToDirEntry(zzOwn{})) // the page is the caller's
		}
		if errors.Is(err, io.EOF) {
			if once {
				out.Err = "eof"
			}
			return out
		}
		if err != nil {
			out.Err = zzClass(err)
			out.Stage = "readdir"
			return out
		}
		if n <= 0 || once {
			return out
		}
		if len(ents) == 0 {
			out.Err = "no progress"
			return out
		}
	}
}
