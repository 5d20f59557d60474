package main

import (
	"context"
	"encoding/json"
	"errors"
	"sync"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"
	zzp "github.com/datawire/ocibuild/zz_verif_proto"
)

func init() { zzProgs["index"] = zzIndex }

func zzIndex(w *zzWorld, raw json.RawMessage) interface{} {
	var arg zzp.IndexArg
	if err := json.Unmarshal(raw, &arg); err != nil {
		zzInfra(err.Error())
	}
	var res zzp.IndexRes
	var py *pep440.Version
	if arg.Python != "" {
		v, err := pep440.ParseVersion(arg.Python)
		if err != nil {
			res.Setup = err.Error()
			return res
		}
		py = v
	}
	if i := arg.Info; i != nil {
		v, err := python.VersionInfo{Major: i.Major, Minor: i.Minor, Micro: i.Micro, ReleaseLevel: i.Level, Serial: i.Serial}.PEP440()
		if err != nil {
			res.Setup = err.Error()
			return res
		}
		py = v
	}
	var tags pep425.Installer
	for _, t := range arg.Tags {
		tag, err := pep425.ParseTag(t)
		if err != nil {
			res.Setup = err.Error()
			return res
		}
		tags = append(tags, tag)
	}
	client := simple_repo_api.NewClient(py, tags)
	client.BaseURL = arg.Base
	res.Threads = make([][]zzp.IndexOut, len(arg.Threads))
	var wg sync.WaitGroup
	for ti := range arg.Threads {
		ti := ti
		res.Threads[ti] = make([]zzp.IndexOut, len(arg.Threads[ti]))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for oi, call := range arg.Threads[ti] {
				res.Threads[ti][oi] = zzIndexCall(client, call)
			}
		}()
	}
	wg.Wait()
	return res
}

func zzIndexCall(client simple_repo_api.Client, call zzp.IndexCall) (out zzp.IndexOut) {
	ctx := context.Background()
	var link *pep503.FileLink
	if call.File != "" {
		list := func() ([]pep503.FileLink, error) { return client.ListPackageFiles(ctx, call.Pkg) }
		if call.Root {
			list = func() ([]pep503.FileLink, error) {
				pkgs, err := client.ListPackages(ctx)
				if err != nil {
					return nil, err
				}
				for _, p := range pkgs {
					if p.Text == call.Pkg {
						return p.ListFiles(ctx)
					}
				}
				return nil, errors.New("no such project")
			}
		}
		links, err := list()
		if err != nil {
			out.Err = err.Error()
			return out
		}
		for i := range links {
			if links[i].Text == call.File {
				link = &links[i]
				break
			}
		}
		if link == nil {
			out.Err = "not listed"
			return out
		}
	} else {
		spec, err := pep440.ParseSpecifier(call.Spec)
		if err != nil {
			out.SpecErr = err.Error()
			return out
		}
		link, err = client.SelectWheel(ctx, call.Pkg, spec)
		if err != nil {
			out.Err = err.Error()
			return out
		}
		if link == nil {
			return out
		}
	}
	out.Text, out.HRef = link.Text, link.HRef
	if call.Get {
		out.Got = true
		b, err := link.Get(ctx)
		if err != nil {
			out.GetErr = err.Error()
		} else {
			out.Data = b
		}
	}
	if call.Sig {
		b, err := link.GetSignature(ctx)
		switch {
		case errors.Is(err, pep503.ErrNoSignature):
			out.NoSig = true
		case err != nil:
			out.SigErr = err.Error()
		default:
			out.SigData = b
		}
	}
	return out
}
