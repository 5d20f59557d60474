package main

import (
	"encoding/json"
	"io"
	"os"

	"sigs.k8s.io/yaml"

	"github.com/datawire/ocibuild/pkg/python"
	zzp "github.com/datawire/ocibuild/zz_verif_proto"
)

func init() { zzProgs["platfile"] = zzPlatFile }

// zzPlatFile reads a platform file as `layer wheel` does.
func zzPlatFile(w *zzWorld, raw json.RawMessage) interface{} {
	var fn string
	if err := json.Unmarshal(raw, &fn); err != nil {
		zzInfra(err.Error())
	}
	var res zzp.PlatRes
	f, err := os.Open(fn)
	if err != nil {
		res.Err = err.Error()
		return res
	}
	defer f.Close()
	bs, err := io.ReadAll(f)
	if err != nil {
		res.Err = err.Error()
		return res
	}
	var p struct {
		python.Platform
		PyCompile []string
	}
	if err := yaml.Unmarshal(bs, &p, yaml.DisallowUnknownFields); err != nil {
		res.Err = err.Error()
		return res
	}
	res.Console, res.Gui = p.ConsoleShebang, p.GraphicalShebang
	res.Pure, res.Plat, res.Headers, res.Scripts, res.Data = p.Scheme.PureLib, p.Scheme.PlatLib, p.Scheme.Headers, p.Scheme.Scripts, p.Scheme.Data
	res.UID, res.GID, res.UN, res.GN = p.UID, p.GID, p.UName, p.GName
	if v := p.VersionInfo; v != nil {
		res.HasVersion = true
		res.Major, res.Minor, res.Micro, res.Level, res.Serial = v.Major, v.Minor, v.Micro, v.ReleaseLevel, v.Serial
	}
	res.Magic = p.MagicNumber
	for _, t := range p.Tags {
		res.Tags = append(res.Tags, t.String())
	}
	res.Compile = p.PyCompile
	return res
}
