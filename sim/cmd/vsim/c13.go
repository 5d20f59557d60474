package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"verif/sim/proto"
)

// C13: an image is its base plus the given layers, with the asked-for config.

// Img is an image archive.
type Img struct {
	Layers [][]TE          `json:"layers,omitempty"`
	Gz     bool            `json:"gz,omitempty"`
	Cfg    json.RawMessage `json:"cfg"` // without rootfs
	Tags   []string        `json:"tags,omitempty"`
	Old    bool            `json:"old,omitempty"` // names as docker save writes them
	Break  string          `json:"break,omitempty"`
}

func sha(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:]) }

func rawTar(es []TE) []byte { return mkTar(es) }

func (im *Img) bytes() []byte {
	var es []TE
	var cfg map[string]interface{}
	if json.Unmarshal(im.Cfg, &cfg) != nil || cfg == nil {
		panic("ill-formed case")
	}
	var ids []string
	var names []string
	seen := map[string]bool{}
	for i, l := range im.Layers {
		d := mkTar(l)
		ids = append(ids, "sha256:"+sha(d))
		if im.Gz {
			d = gz(d)
		}
		n := sha(d) + ".tar.gz"
		if im.Old {
			n = sha([]byte(fmt.Sprint(i))) + "/layer.tar"
		}
		names = append(names, n)
		if !seen[n] {
			es = append(es, TE{N: n, T: "f", M: 0o644, D: d})
		}
		seen[n] = true
	}
	if im.Break == "nolayer" && len(names) > 0 {
		keep := es[:0]
		for _, e := range es {
			if e.N != names[len(names)-1] {
				keep = append(keep, e)
			}
		}
		es = keep
	}
	if ids == nil {
		ids = []string{}
	}
	switch im.Break {
	case "fewids":
		if len(ids) > 0 {
			ids = ids[:len(ids)-1]
		}
	case "noids":
		ids = []string{}
	case "badid":
		if len(ids) > 0 {
			ids[0] = "sha256:zz"
		}
	}
	cfg["rootfs"] = map[string]interface{}{"type": "layers", "diff_ids": ids}
	cb, _ := json.Marshal(cfg)
	switch im.Break {
	case "badcfg":
		cb = cb[:len(cb)-3]
	case "emptycfg":
		cb = nil
	case "nullcfg":
		cb = []byte("null")
	}
	cn := sha(cb) + ".json"
	if !im.Old {
		cn = "sha256:" + sha(cb)
	}
	if im.Break != "nocfg" {
		es = append([]TE{{N: cn, T: "f", M: 0o644, D: cb}}, es...)
	}
	if names == nil {
		names = []string{}
	}
	man := []map[string]interface{}{{"Config": cn, "RepoTags": im.Tags, "Layers": names}}
	if im.Break == "twoimg" {
		man = append(man, man[0])
	}
	mb, _ := json.Marshal(man)
	switch im.Break {
	case "badman":
		mb = mb[:len(mb)-2]
	case "nullman":
		mb = []byte("null")
	case "emptyman":
		mb = []byte("[]")
	}
	if im.Break != "noman" {
		es = append(es, TE{N: "manifest.json", T: "f", M: 0o644, D: mb})
	}
	out := rawTar(es)
	switch im.Break {
	case "cut":
		out = out[:len(out)-1024-(len(mb)+511)/512*512]
	case "garbage":
		out = []byte("this is not an image")
	case "empty":
		out = nil
	}
	return out
}

type imgCase struct {
	Base   *Img          `json:"base,omitempty"`
	BaseF  string        `json:"basef,omitempty"` // file or fifo
	Layers [][]TE        `json:"layers"`
	Forms  []string      `json:"forms,omitempty"`
	Refs   []int         `json:"refs"` // order of the layers on the command line
	Tag    string        `json:"tag,omitempty"`
	Clear  bool          `json:"clear,omitempty"`
	Env    []string      `json:"env,omitempty"`
	Entry  []string      `json:"entry,omitempty"`
	Cmd    []string      `json:"cmd,omitempty"`
	Dir    string        `json:"dir,omitempty"`
	Short  bool          `json:"short,omitempty"` // short spellings
	Dmg    string        `json:"dmg,omitempty"`   // damage of layer DmgI
	DmgI   int           `json:"dmgi,omitempty"`
	DmgN   int           `json:"dmgn,omitempty"`
	Sched  Sched         `json:"sched"`
	Faults []proto.Fault `json:"faults,omitempty"`
}

func (c *imgCase) form(i int) string {
	if i < len(c.Forms) {
		return c.Forms[i]
	}
	return "tar"
}

func (c *imgCase) scenario() *proto.Scenario {
	sc := cli("image", "build")
	put := func(p string, d []byte, fifo bool) {
		if fifo {
			sc.FS = append(sc.FS, proto.Node{P: p, T: "p", M: 0o644, D: d})
		} else {
			addFile(sc, p, d)
		}
	}
	if c.Base != nil {
		put("/work/base.tar", c.Base.bytes(), c.BaseF == "fifo")
		sc.Args = append(sc.Args, "--base=/work/base.tar")
	}
	for i, l := range c.Layers {
		d := mkTar(l)
		f := c.form(i)
		if strings.HasSuffix(f, "gz") {
			d = gz(d)
			if c.Dmg != "" && c.DmgI == i {
				n := c.DmgN % len(d)
				switch c.Dmg {
				case "cut":
					d = d[:n]
				case "crc":
					d[len(d)-8+c.DmgN%4] ^= 1
				case "size":
					d[len(d)-4+c.DmgN%4] ^= 1
				}
			}
		}
		put(fmt.Sprintf("/work/l%d", i), d, strings.HasPrefix(f, "fifo"))
	}
	if c.Tag != "" {
		if c.Short {
			sc.Args = append(sc.Args, "-t", c.Tag)
		} else {
			sc.Args = append(sc.Args, "--tag="+c.Tag)
		}
	}
	if c.Clear {
		if c.Short {
			sc.Args = append(sc.Args, "-E")
		} else {
			sc.Args = append(sc.Args, "--config.Env.clear")
		}
	}
	for _, e := range c.Env {
		if c.Short {
			sc.Args = append(sc.Args, "-e", e)
		} else {
			sc.Args = append(sc.Args, "--config.Env.append="+e)
		}
	}
	for _, e := range c.Entry {
		sc.Args = append(sc.Args, "--config.Entrypoint="+e)
	}
	for _, e := range c.Cmd {
		if c.Short {
			sc.Args = append(sc.Args, "-c", e)
		} else {
			sc.Args = append(sc.Args, "--config.Cmd", e)
		}
	}
	if c.Dir != "" {
		if c.Short {
			sc.Args = append(sc.Args, "-w", c.Dir)
		} else {
			sc.Args = append(sc.Args, "--config.WorkingDir="+c.Dir)
		}
	}
	for _, i := range c.Refs {
		if i >= len(c.Layers) {
			panic("ill-formed case")
		}
		sc.Args = append(sc.Args, fmt.Sprintf("/work/l%d", i))
	}
	if len(c.Refs) == 0 {
		panic("ill-formed case")
	}
	c.Sched.apply(sc)
	sc.Faults = c.Faults
	return sc
}

// readImage takes an image archive apart.
type imageParts struct {
	Tags   []string
	Cfg    map[string]interface{}
	Layers [][]byte // uncompressed
}

func readImage(b []byte) (*imageParts, error) {
	es, err := rdTar(b)
	if err != nil {
		return nil, err
	}
	files := map[string][]byte{}
	for _, e := range es {
		if _, ok := files[e.N]; ok {
			return nil, fmt.Errorf("%s is in the archive twice", e.N)
		}
		files[e.N] = e.D
	}
	var man []struct {
		Config   string
		RepoTags []string
		Layers   []string
	}
	mb, ok := files["manifest.json"]
	if !ok {
		return nil, fmt.Errorf("no manifest.json")
	}
	if err := json.Unmarshal(mb, &man); err != nil || len(man) != 1 {
		return nil, fmt.Errorf("manifest.json: %v, %d images", err, len(man))
	}
	cb, ok := files[man[0].Config]
	if !ok {
		return nil, fmt.Errorf("no config %q", man[0].Config)
	}
	if !strings.Contains(man[0].Config, sha(cb)) {
		return nil, fmt.Errorf("the config's name %s is not its digest %s", man[0].Config, sha(cb))
	}
	p := &imageParts{Tags: man[0].RepoTags}
	if err := json.Unmarshal(cb, &p.Cfg); err != nil {
		return nil, fmt.Errorf("config: %v", err)
	}
	for _, l := range man[0].Layers {
		lb, ok := files[l]
		if !ok {
			return nil, fmt.Errorf("no layer %q", l)
		}
		if !strings.Contains(l, sha(lb)) {
			return nil, fmt.Errorf("the layer's name %s is not its digest", l)
		}
		if bytes.HasPrefix(lb, []byte{0x1f, 0x8b}) {
			if lb, err = gunzip(lb); err != nil {
				return nil, fmt.Errorf("layer %s: %v", l, err)
			}
		}
		p.Layers = append(p.Layers, lb)
	}
	return p, nil
}

func normJSON(v interface{}) interface{} {
	b, _ := json.Marshal(v)
	var o interface{}
	_ = json.Unmarshal(b, &o)
	return o
}

// judge compares an image with what was asked for.
func (c *imgCase) judge(out []byte) *Violation {
	p, err := readImage(out)
	if err != nil {
		return vio("malformed", "the image is not well-formed: %v", err)
	}
	var want [][]byte
	var cfg map[string]interface{}
	if c.Base != nil {
		for _, l := range c.Base.Layers {
			want = append(want, mkTar(l))
		}
		_ = json.Unmarshal(c.Base.Cfg, &cfg)
	}
	for _, i := range c.Refs {
		want = append(want, mkTar(c.Layers[i]))
	}
	if len(p.Layers) != len(want) {
		return vio("layers", "the image has %d layers, expected %d", len(p.Layers), len(want))
	}
	ids, _ := p.Cfg["rootfs"].(map[string]interface{})["diff_ids"].([]interface{})
	if len(ids) != len(want) {
		return vio("diffids", "the config lists %d layers, expected %d", len(ids), len(want))
	}
	for i := range want {
		if !bytes.Equal(p.Layers[i], want[i]) {
			return vio("layers", "layer %d of the image has other content than expected (%d and %d bytes)", i, len(p.Layers[i]), len(want[i]))
		}
		if ids[i] != "sha256:"+sha(want[i]) {
			return vio("diffids", "the config's digest of layer %d does not match", i)
		}
	}
	if c.Tag == "" && len(p.Tags) != 0 {
		return vio("tag", "unexpected tags %q", p.Tags)
	}
	if c.Tag != "" {
		full := func(s string) string { // the complete form of a tag
			if i := strings.Index(s, "/"); i < 0 || !strings.ContainsAny(s[:i], ".:") {
				if i < 0 {
					s = "library/" + s
				}
				s = "index.docker.io/" + s
			}
			if !strings.Contains(s[strings.LastIndex(s, "/"):], ":") {
				s += ":latest"
			}
			return s
		}
		if len(p.Tags) != 1 || full(p.Tags[0]) != full(c.Tag) {
			return vio("tag", "the image has tags %q, expected %q", p.Tags, c.Tag)
		}
	}
	// config
	if cfg == nil {
		cfg = map[string]interface{}{}
	}
	want2 := map[string]interface{}{}
	if m, ok := cfg["config"].(map[string]interface{}); ok {
		for k, v := range m {
			want2[k] = v
		}
	}
	strs := func(s []string) []interface{} {
		var o []interface{}
		for _, e := range s {
			o = append(o, e)
		}
		return o
	}
	var env []interface{}
	if e, ok := want2["Env"].([]interface{}); ok && !c.Clear {
		env = append(env, e...)
	}
	env = append(env, strs(c.Env)...)
	want2["Env"] = env
	if len(env) == 0 {
		delete(want2, "Env")
	}
	if len(c.Entry) > 0 {
		want2["Entrypoint"] = strs(c.Entry)
	}
	if len(c.Cmd) > 0 {
		want2["Cmd"] = strs(c.Cmd)
	}
	if c.Dir != "" {
		want2["WorkingDir"] = c.Dir
	}
	got2, _ := p.Cfg["config"].(map[string]interface{})
	if got2 == nil {
		got2 = map[string]interface{}{}
	}
	keys := map[string]bool{}
	for k := range want2 {
		keys[k] = true
	}
	for k := range got2 {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		if !reflect.DeepEqual(normJSON(want2[k]), normJSON(got2[k])) {
			a, _ := json.Marshal(want2[k])
			b, _ := json.Marshal(got2[k])
			return vio("config", "the image's config has %s = %s, expected %s", k, b, a)
		}
	}
	if c.Base != nil {
		for _, k := range []string{"architecture", "os", "author", "created", "docker_version", "os.version", "container"} {
			if !reflect.DeepEqual(cfg[k], p.Cfg[k]) && cfg[k] != nil {
				return vio("config", "the base's config has %s = %v, the image has %v", k, cfg[k], p.Cfg[k])
			}
		}
		bh, _ := cfg["history"].([]interface{})
		gh, _ := p.Cfg["history"].([]interface{})
		for i := range bh {
			if i >= len(gh) || !reflect.DeepEqual(histOf(bh[i]), histOf(gh[i])) {
				return vio("config", "entry %d of the base's history is changed", i)
			}
		}
	}
	return nil
}

func histOf(v interface{}) interface{} {
	m, ok := v.(map[string]interface{})
	if !ok {
		return v
	}
	o := map[string]interface{}{}
	for k, x := range m {
		if s, ok := x.(string); ok && strings.HasPrefix(s, "0001-01-01") {
			continue
		}
		o[k] = x
	}
	return o
}

// badTags are no names of images.
var badTags = []string{"IMG", "img:a b", "im g", "img@sha256:00", "img:" + strings.Repeat("x", 129)}

func checkImg(x *X, ci interface{}) *Violation {
	c := ci.(*imgCase)
	r := x.Run(c.scenario())
	if v := sane(r); v != nil {
		return v
	}
	bad := ""
	if c.Base != nil && c.Base.Break != "" {
		bad = "the base is broken (" + c.Base.Break + ")"
	}
	if c.Dmg != "" && strings.HasSuffix(c.form(c.DmgI), "gz") {
		for _, i := range c.Refs {
			if i == c.DmgI {
				bad = "a compressed layer is damaged (" + c.Dmg + ")"
			}
		}
	}
	if contains(badTags, c.Tag) {
		bad = fmt.Sprintf("%q is not a tag", c.Tag)
	}
	if r.Exit != 0 {
		if silent(r) {
			return vio("silent", "exit status %d without a message", r.Exit)
		}
		if bad == "" && len(c.Faults) == 0 {
			return vio("rejected", "no image was built from good inputs: %s", trunc(string(r.Stderr), 400))
		}
		x.Probe("failed")
		return nil
	}
	if bad != "" && c.Base != nil && c.Base.Break == "nolayer" && c.judge(r.Stdout) == nil {
		return nil // the same layer is there under another name
	}
	if bad != "" {
		return vio("accepted", "success although %s", bad)
	}
	x.Probe("built")
	return c.judge(r.Stdout)
}

func genImg(r *Rand) *Img {
	im := &Img{Gz: r.P(1, 2), Old: r.P(1, 3)}
	for k := r.Range(0, 3); k > 0; k-- {
		im.Layers = append(im.Layers, genLayer(r, r.Range(0, 3), true, 2))
	}
	if len(im.Layers) > 0 && r.P(1, 8) {
		im.Layers = append(im.Layers, im.Layers[0])
	}
	cfg := map[string]interface{}{"architecture": r.Pick("amd64", "arm64"), "os": "linux"}
	if r.P(1, 2) {
		cfg["created"] = "2020-01-02T03:04:05Z"
		cfg["author"] = "someone"
	}
	if r.P(1, 2) {
		var h []interface{}
		for range im.Layers {
			h = append(h, map[string]interface{}{"created": "2020-01-02T03:04:05Z", "created_by": fmt.Sprintf("RUN %d", r.N(9))})
		}
		if r.P(1, 3) {
			h = append(h, map[string]interface{}{"created": "2020-01-02T03:04:05Z", "created_by": "CMD x", "empty_layer": true})
		}
		cfg["history"] = h
	}
	m := map[string]interface{}{}
	if r.P(3, 4) {
		m["Env"] = []string{"PATH=/usr/bin:/bin", "LANG=C"}[:r.Range(1, 2)]
	}
	if r.P(1, 2) {
		m["Cmd"] = []string{"sh", "-c", "x"}
	}
	if r.P(1, 2) {
		m["Entrypoint"] = []string{"/init"}
	}
	if r.P(1, 2) {
		m["WorkingDir"] = "/srv"
	}
	if r.P(1, 2) {
		m["User"] = "1000:1000"
		m["Labels"] = map[string]string{"a": "1", "b": "<&>"}
		m["ExposedPorts"] = map[string]interface{}{"80/tcp": map[string]string{}}
		m["Volumes"] = map[string]interface{}{"/data": map[string]string{}}
		m["StopSignal"] = "SIGTERM"
		m["Shell"] = []string{"/bin/sh"}
		m["Healthcheck"] = map[string]interface{}{"Test": []string{"CMD", "true"}, "Interval": 1000000000}
	}
	if r.P(5, 6) {
		cfg["config"] = m
	}
	im.Cfg, _ = json.Marshal(cfg)
	if r.P(1, 2) {
		im.Tags = []string{"base:1"}
	}
	return im
}

func genImgCase(r *Rand, i int) interface{} {
	c := &imgCase{Sched: genSched(r)}
	if r.P(3, 4) {
		c.Base = genImg(r)
		c.BaseF = r.Pick("file", "file", "fifo")
	}
	for k := r.Range(1, 4); k > 0; k-- {
		if c.Base != nil && len(c.Base.Layers) > 0 && r.P(1, 10) {
			c.Layers = append(c.Layers, c.Base.Layers[0])
		} else {
			c.Layers = append(c.Layers, genLayer(r, r.Range(0, 3), true, 2))
		}
		c.Forms = append(c.Forms, r.Pick("tar", "tar", "gz", "fifo", "fifogz"))
		c.Refs = append(c.Refs, len(c.Refs))
	}
	r.Shuffle(len(c.Refs), func(i, j int) { c.Refs[i], c.Refs[j] = c.Refs[j], c.Refs[i] })
	if j := r.N(len(c.Refs)); r.P(1, 6) && !strings.HasPrefix(c.form(c.Refs[j]), "fifo") {
		c.Refs = append(c.Refs, c.Refs[j]) // the same layer twice
	}
	if r.P(1, 2) {
		c.Tag = r.Pick("img", "img:1", "example.com/x/y:2", "localhost:5000/zz", "u/img")
	}
	if r.P(1, 25) {
		c.Tag = badTags[r.N(len(badTags))]
	}
	c.Clear = r.P(1, 4)
	for k := r.N(4); k > 0 && r.P(2, 3); k-- {
		c.Env = append(c.Env, r.Pick("A=1", "PATH=/x", "B=a,b", "C=", "D=x y", "LANG=C", "E"))
	}
	for k := r.N(3); k > 0 && r.P(1, 2); k-- {
		c.Entry = append(c.Entry, r.Pick("/bin/e", "a,b", "-x", ""))
	}
	for k := r.N(3); k > 0 && r.P(1, 2); k-- {
		c.Cmd = append(c.Cmd, r.Pick("run", "a,b", "x y", "1"))
	}
	if r.P(1, 3) {
		c.Dir = r.Pick("/w", "rel", "/", "/w/", "a/../b", "C:\\x", "/with space")
	}
	c.Short = r.P(1, 2)
	return c
}

var imgBreaks = []string{"fewids", "noids", "badid", "badcfg", "emptycfg", "nocfg", "twoimg", "badman", "nullman", "emptyman", "noman", "cut", "garbage", "empty", "nolayer"}

func init() {
	properties["C13"] = &Property{
		ID: "C13", New: func() interface{} { return &imgCase{} }, Gen: genImgCase, Check: checkImg,
		Quick: 3000, Thorough: 40000,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := ci.(*imgCase)
			var out []interface{}
			if c.Base != nil && r.P(1, 3) {
				cc := *c
				b := *c.Base
				b.Break = imgBreaks[r.N(len(imgBreaks))]
				if len(b.Layers) == 0 && (b.Break == "fewids" || b.Break == "noids" || b.Break == "badid" || b.Break == "nolayer") {
					b.Break = "noman"
				}
				cc.Base = &b
				out = append(out, &cc)
			}
			if r.P(1, 3) {
				cc := *c
				cc.Dmg, cc.DmgI, cc.DmgN = r.Pick("cut", "crc", "size"), c.Refs[r.N(len(c.Refs))], r.N(1<<20)
				cc.Forms = append([]string{}, c.Forms...)
				for len(cc.Forms) <= cc.DmgI {
					cc.Forms = append(cc.Forms, "tar")
				}
				cc.Forms[cc.DmgI] = "gz"
				if cc.Dmg == "cut" && cc.DmgN%len(gz(mkTar(cc.Layers[cc.DmgI]))) < 2 {
					cc.Dmg = "crc"
				}
				out = append(out, &cc)
			}
			if r.P(1, 3) {
				sc := c.scenario()
				sc.Trace = true
				g := x.Run(sc)
				for k := 0; k < 3; k++ {
					if f := pickFault(r, g, merged(inputFaults, outFaults)); f != nil {
						cc := *c
						cc.Faults = []proto.Fault{*f}
						out = append(out, &cc)
					}
				}
			}
			return out
		},
		Rule:   "Workloads: an image archive (compressed or plain layers, both naming styles, with and without history and settings) as base or none, one to five layers in seeded order and form (repeated, equal to a base layer, from a FIFO), and every combination of the config flags; variants break the base's structure, damage a compressed layer, or inject a read or write fault.",
		Real:   []string{"the whole command line program, go-containerregistry, gzip and tar code"},
		Stub:   []string{"the kernel (in-memory file system, FIFOs, clock)"},
		Assume: []string{"settings that go-containerregistry's config type does not know are outside of the property; a plain layer file is taken as it is, so cutting it off cannot be noticed"},
	}
}
