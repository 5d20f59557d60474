package main

import (
	"archive/zip"
	"bytes"
	"compress/flate"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"path"
	"reflect"
	"sort"
	"strings"
	"time"

	"verif/sim/proto"
)

// Wheels, platforms, and the reference model of an installed wheel.

// WE is one entry of a wheel.
type WE struct {
	N     string `json:"n"`
	D     []byte `json:"d,omitempty"`
	A     uint32 `json:"a,omitempty"` // UNIX mode with type; 0: 0100644 or 040755
	T     int64  `json:"t"`           // seconds
	Dos   bool   `json:"dos,omitempty"`
	Store bool   `json:"store,omitempty"`
	OS    uint16 `json:"os,omitempty"` // 0: UNIX; 1: MS-DOS
}

func (e WE) dir() bool { return strings.HasSuffix(e.N, "/") }

type EP struct {
	Sec  string `json:"sec"`
	Name string `json:"name"`
	Mod  string `json:"mod"`
	Func string `json:"func"`
	Ext  string `json:"ext,omitempty"`
}

type Wheel struct {
	File  string     `json:"file"` // name of the file
	Dist  string     `json:"dist"` // {name}-{version}
	Ents  []WE       `json:"ents"`
	EPs   []EP       `json:"eps,omitempty"`
	EPT   int64      `json:"ept,omitempty"`
	Pure  string     `json:"pure,omitempty"` // Root-Is-Purelib
	WV    string     `json:"wv,omitempty"`   // Wheel-Version
	Algo  string     `json:"algo,omitempty"`
	RecAt int        `json:"recat,omitempty"`
	RecT  int64      `json:"rect,omitempty"`
	Rows  [][]string `json:"rows,omitempty"` // replaces the generated RECORD
	NoRec bool       `json:"norec,omitempty"`
	Sig   bool       `json:"sig,omitempty"` // with RECORD.jws
	P7s   bool       `json:"p7s,omitempty"`
	CRLF  bool       `json:"crlf,omitempty"`
	EPSty int        `json:"epsty,omitempty"` // spelling of entry_points.txt
}

func (w *Wheel) info() string { return w.Dist + ".dist-info" }
func (w *Wheel) data() string { return w.Dist + ".data" }

func recHash(algo string, d []byte) string {
	switch algo {
	case "", "sha256":
		s := sha256.Sum256(d)
		return "sha256=" + base64.RawURLEncoding.EncodeToString(s[:])
	case "sha384":
		s := sha512.Sum384(d)
		return "sha384=" + base64.RawURLEncoding.EncodeToString(s[:])
	case "sha512":
		s := sha512.Sum512(d)
		return "sha512=" + base64.RawURLEncoding.EncodeToString(s[:])
	}
	return algo + "=AAAA"
}

func (w *Wheel) epText() []byte {
	var sb strings.Builder
	for _, sec := range []string{"console_scripts", "gui_scripts", "other.group"} {
		n := 0
		for _, e := range w.EPs {
			if e.Sec != sec {
				continue
			}
			if n == 0 {
				fmt.Fprintf(&sb, "[%s]\n", sec)
			}
			n++
			ext := ""
			if e.Ext != "" {
				ext = " [" + e.Ext + "]"
			}
			if e.Name == "" || e.Mod == "" || e.Func == "" {
				panic("ill-formed case")
			}
			eq := " = "
			if w.EPSty&1 != 0 {
				eq = "="
			}
			if w.EPSty&2 != 0 {
				eq = "\t=   "
			}
			if w.EPSty&128 != 0 {
				eq += strings.Repeat(" ", 5000)
			}
			fmt.Fprintf(&sb, "%s%s%s:%s%s\n", e.Name, eq, e.Mod, e.Func, ext)
			if n%2 == 0 {
				sb.WriteString("# comment = x:y\n; other\n\n")
			}
		}
	}
	out := sb.String()
	if w.EPSty&32 != 0 { // groups that are none of the installer's business
		out = "; generated\n[some.plugins]\nmany =\n    one.two\n  # not this\n\n    three:four [five] six\nx = y = z\n[more.plugins]\n" + out + "[pytest11]\n\tfoo = foo.plugin\n\t\tand more [\n"
	}
	if w.EPSty&64 != 0 {
		out = "[DEFAULT]\n[empty]\n\n" + out
	}
	if w.EPSty&128 != 0 {
		long := "# " + strings.Repeat("long = x:y ", 6000)
		out = strings.Replace(out, "]\n", "]\n"+long+"\n", 1) + "[last.group]\n" + long[2:] + "\n"
	}
	if w.EPSty&8 != 0 {
		out = strings.TrimRight(out, "\n")
	}
	if w.EPSty&16 != 0 {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	return []byte(out)
}

// all returns every entry, in the order of the archive.
func (w *Wheel) all() []WE {
	es := append([]WE{}, w.Ents...)
	if len(w.EPs) > 0 {
		es = append(es, WE{N: w.info() + "/entry_points.txt", D: w.epText(), T: w.EPT})
	}
	nl := "\n"
	if w.CRLF {
		nl = "\r\n"
	}
	wv := w.WV
	if wv == "" {
		wv = "1.0"
	}
	es = append(es, WE{N: w.info() + "/WHEEL", D: []byte("Wheel-Version: " + wv + nl + "Generator: sim (" + strings.Repeat("1.0", 1+w.EPSty/128*25000) + ")" + nl + "Root-Is-Purelib: " + w.Pure + nl + "Tag: py3-none-any" + nl), T: w.RecT})
	if w.NoRec {
		return es
	}
	var rows [][]string
	if w.Rows != nil {
		rows = w.Rows
	} else {
		rows = w.rows(es)
	}
	var b bytes.Buffer
	cw := csv.NewWriter(&b)
	cw.UseCRLF = w.CRLF
	_ = cw.WriteAll(rows)
	rec := []WE{{N: w.info() + "/RECORD", D: b.Bytes(), T: w.RecT}}
	if w.Sig {
		rec = append(rec, WE{N: w.info() + "/RECORD.jws", D: []byte("{}"), T: w.RecT})
	}
	if w.P7s {
		rec = append(rec, WE{N: w.info() + "/RECORD.p7s", D: []byte("{}"), T: w.RecT})
	}
	at := w.RecAt
	if at > len(es) {
		at = len(es)
	}
	out := append([]WE{}, es[:at]...)
	out = append(out, rec...)
	return append(out, es[at:]...)
}

func (w *Wheel) rows(es []WE) [][]string {
	rows := [][]string{}
	for _, e := range es {
		if !e.dir() {
			rows = append(rows, []string{e.N, recHash(w.Algo, e.D), fmt.Sprint(len(e.D))})
		}
	}
	return append(rows, []string{w.info() + "/RECORD", "", ""})
}

func (w *Wheel) bytes() []byte {
	if w.Dist == "" || w.File == "" {
		panic("ill-formed case")
	}
	return mkZip(w.all())
}

func mkZip(es []WE) []byte {
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	zw.RegisterCompressor(zip.Deflate, func(o io.Writer) (io.WriteCloser, error) { return flate.NewWriter(o, 6) })
	for _, e := range es {
		if e.N == "" || e.T == 0 {
			panic("ill-formed case")
		}
		h := &zip.FileHeader{Name: e.N, Method: zip.Deflate}
		if e.Store {
			h.Method = zip.Store
		}
		t := time.Unix(e.T, 0).UTC()
		if e.Dos {
			if e.T%2 != 0 {
				panic("ill-formed case")
			}
			h.ModifiedDate = uint16(t.Day() + int(t.Month())<<5 + (t.Year()-1980)<<9)
			h.ModifiedTime = uint16(t.Second()/2 + t.Minute()<<5 + t.Hour()<<11)
		} else {
			h.Modified = t
		}
		a := e.A
		if a == 0 {
			a = 0o100644
			if e.dir() {
				a = 0o40755
			}
		}
		h.ExternalAttrs = a << 16
		if e.OS == 0 {
			h.CreatorVersion = 3 << 8
		}
		fw, err := zw.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		if !e.dir() {
			if _, err := fw.Write(e.D); err != nil {
				panic(err)
			}
		}
	}
	if err := zw.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}

type Plat struct {
	Console string   `json:"console,omitempty"`
	Gui     string   `json:"gui,omitempty"`
	Pure    string   `json:"pure"`
	Plat    string   `json:"plat"`
	Headers string   `json:"headers"`
	Scripts string   `json:"scripts"`
	Data    string   `json:"data"`
	UID     int      `json:"uid,omitempty"`
	GID     int      `json:"gid,omitempty"`
	UN      string   `json:"un,omitempty"`
	GN      string   `json:"gn,omitempty"`
	Compile []string `json:"compile"`
}

func q(s string) string { b, _ := json.Marshal(s); return string(b) }

func (p Plat) yaml() []byte {
	var sb strings.Builder
	if p.Console != "" {
		fmt.Fprintf(&sb, "ConsoleShebang: %s\n", q(p.Console))
	}
	if p.Gui != "" {
		fmt.Fprintf(&sb, "GraphicalShebang: %s\n", q(p.Gui))
	}
	fmt.Fprintf(&sb, "Scheme:\n  purelib: %s\n  platlib: %s\n  headers: %s\n  scripts: %s\n  data: %s\n", q(p.Pure), q(p.Plat), q(p.Headers), q(p.Scripts), q(p.Data))
	fmt.Fprintf(&sb, "UID: %d\nGID: %d\nUName: %s\nGName: %s\n", p.UID, p.GID, q(p.UN), q(p.GN))
	if p.Compile != nil {
		b, _ := json.Marshal(p.Compile)
		fmt.Fprintf(&sb, "PyCompile: %s\n", b)
	}
	return []byte(sb.String())
}

func defaultPlat() Plat {
	return Plat{Console: "/usr/bin/python3.9", Gui: "/usr/bin/pythonw3.9", Pure: "/usr/lib/python3.9/site-packages", Plat: "/usr/lib64/python3.9/site-packages",
		Headers: "/usr/include/site/python3.9/", Scripts: "/usr/bin", Data: "/usr", UN: "root", GN: "root", Compile: []string{"python3.9", "-m", "compileall"}}
}

func genPlat(r *Rand) Plat {
	p := defaultPlat()
	if r.P(1, 3) {
		p.Plat = p.Pure
	}
	if r.P(1, 4) {
		p.Pure = r.Pick("/opt/py/lib/", "/srv/app", "/")
		p.Plat = r.Pick(p.Pure, "/opt/py/lib64")
		p.Scripts = r.Pick("/opt/py/bin", "/usr/local/bin/", "/srv/app/bin")
		p.Data = r.Pick("/", "/opt/py", "/srv//data", "/usr/./share")
	}
	if r.P(1, 6) {
		p.Scripts = r.Pick("//opt/bin", "/opt/../usr/bin", "/opt/bin/.", "/../usr/bin")
	}
	if r.P(1, 10) {
		p.Pure = r.Pick("//opt/lib", "/usr/lib/../lib64", "/../x")
	}
	switch r.N(4) {
	case 0:
		p.Gui = ""
	case 1:
		p.Console, p.Gui = "", "/opt/bin/pythonw"
	case 2:
		p.Console = "/usr/bin/" + strings.Repeat("x", r.N(40)) + "python3"
	}
	if r.P(1, 2) {
		p.UID, p.GID, p.UN, p.GN = r.PickI(0, 1000, 65534, 3000000), r.PickI(0, 1000, 5), r.Pick("", "root", "app", "wébuser"), r.Pick("root", "grp", "")
	}
	p.Compile = [][]string{{"python3.9", "-m", "compileall"}, {"/usr/bin/python3.9", "-m", "compileall"}, {"python3.9", "-m", "compileall", "-q"}, {"python3.9", "-m", "compileall", "-b"}}[r.N(4)]
	return p
}

// WF is an installed file.
type WF struct {
	json bool
	Dir  bool
	D    []byte
	M    int64
	Tmin int64 // seconds
	Tmax int64
	rec  []string // hash and size for RECORD, if not those of D
}

func relPath(base, target string) string {
	b := strings.Split(strings.Trim(path.Clean("/"+base), "/"), "/")
	t := strings.Split(strings.Trim(path.Clean("/"+target), "/"), "/")
	if b[0] == "" {
		b = nil
	}
	for len(b) > 0 && len(t) > 0 && b[0] == t[0] {
		b, t = b[1:], t[1:]
	}
	return strings.Repeat("../", len(b)) + strings.Join(t, "/")
}

func launcher(shebang string, e EP) []byte {
	return []byte("#!" + shebang + `
# -*- coding: utf-8 -*-
import re
import sys
from ` + e.Mod + ` import ` + strings.SplitN(e.Func, ".", 2)[0] + `
if __name__ == '__main__':
    sys.argv[0] = re.sub(r'(-script\.pyw|\.exe)?$', '', sys.argv[0])
    sys.exit(` + e.Func + `())
`)
}

func root(p string) string { return strings.TrimPrefix(path.Clean("/"+p), "/") }

// install is the reference model of the installation of a valid wheel.  It
// returns "" and the installed files, or the reason why the wheel is outside
// of what the model covers.
func (w *Wheel) install(p Plat) (files map[string]*WF, newest int64, why string) {
	return w.installOpt(p, &instOpt{Scripts: true, Record: true, Installer: "ocibuild layer wheel"})
}

// instOpt is what a caller of the library chooses.
type instOpt struct {
	Scripts   bool          `json:"scripts,omitempty"`
	Record    bool          `json:"record,omitempty"`
	Hash      string        `json:"hash,omitempty"`
	Installer string        `json:"installer,omitempty"`
	URL       *proto.LibURL `json:"url,omitempty"`
	Requested *string       `json:"requested,omitempty"`
	Min       int64         `json:"min,omitempty"` // seconds
	Max       int64         `json:"max,omitempty"`
}

// urlJSON is the PEP 610 record.
func urlJSON(u *proto.LibURL) []byte {
	m := map[string]interface{}{"url": u.URL}
	if u.Archive {
		in := map[string]interface{}{}
		if u.Hash != "" {
			in["hash"] = u.Hash
		}
		m["archive_info"] = in
	}
	if u.Dir {
		in := map[string]interface{}{}
		if u.Editable {
			in["editable"] = true
		}
		m["dir_info"] = in
	}
	if u.VCS != "" {
		in := map[string]interface{}{"vcs": u.VCS, "commit_id": u.Commit}
		if u.Rev != "" {
			in["requested_revision"] = u.Rev
		}
		m["vcs_info"] = in
	}
	b, _ := json.Marshal(m)
	return b
}

// sameJSON: the two documents mean the same.
func sameJSON(a, b []byte) bool {
	var x, y interface{}
	return json.Unmarshal(a, &x) == nil && json.Unmarshal(b, &y) == nil && reflect.DeepEqual(x, y)
}

func (w *Wheel) installOpt(p Plat, o *instOpt) (files map[string]*WF, newest int64, why string) {
	files = map[string]*WF{}
	console, gui := p.Console, p.Gui
	if console == "" {
		console = gui
	}
	if gui == "" {
		gui = console
	}
	for _, e := range w.all() {
		if e.T > newest {
			newest = e.T
		}
	}
	last := newest + 1
	if o.Max != 0 {
		last = o.Max
	}
	site := root(p.Pure)
	if w.Pure != "true" {
		site = root(p.Plat)
	}
	put := func(name string, f *WF) {
		if o := files[name]; o != nil {
			if o.Dir && f.Dir {
				if f.Tmin < o.Tmin {
					o.Tmin = f.Tmin
				}
				if f.Tmax > o.Tmax {
					o.Tmax = f.Tmax
				}
				return
			}
			why = "collision at " + name
		}
		files[name] = f
	}
	for _, e := range w.all() {
		name := path.Clean(e.N)
		switch name {
		case w.info() + "/RECORD", w.info() + "/RECORD.jws", w.info() + "/RECORD.p7s", w.data():
			continue
		}
		t := e.T
		if o.Min != 0 {
			t = o.Min
		}
		if t > last {
			t = last
		}
		f := &WF{Dir: e.dir(), M: 0o644, Tmin: t, Tmax: t}
		if !f.Dir {
			f.D = e.D
			if e.A&0o170000 == 0o100000 && e.A&0o111 != 0 {
				f.M = 0o755
			}
		} else {
			f.M = 0o755
		}
		target := path.Join(site, name)
		if strings.HasPrefix(name, w.data()+"/") {
			parts := strings.SplitN(strings.TrimPrefix(name, w.data()+"/"), "/", 2)
			rest := ""
			if len(parts) > 1 {
				rest = parts[1]
			}
			if rest == "" && !f.Dir {
				return nil, 0, "bad data"
			}
			base, ok := map[string]string{"purelib": p.Pure, "platlib": p.Plat, "headers": p.Headers, "scripts": p.Scripts, "data": p.Data}[parts[0]]
			if !ok {
				return nil, 0, "bad data"
			}
			target = path.Join(root(base), rest)
			if parts[0] == "scripts" && !f.Dir && bytes.HasPrefix(e.D, []byte("#!python")) {
				sb, n := console, 8
				if bytes.HasPrefix(e.D, []byte("#!pythonw")) {
					sb, n = gui, 9
				}
				f.rec = []string{recHash("sha256", e.D), fmt.Sprint(len(e.D))}
				f.D = append([]byte("#!"+sb), e.D[n:]...)
				f.M = 0o755
			}
		}
		if target == "" { // the root itself
			continue
		}
		put(target, f)
	}
	if why != "" {
		return nil, 0, why
	}
	gen := func(name string, d []byte, m int64) {
		files[name] = &WF{D: d, M: m, Tmin: -1 << 62, Tmax: last}
	}
	for _, n := range mapKeys(files) {
		f := files[n]
		if f.Dir || !strings.HasSuffix(n, ".py") {
			continue
		}
		if bytes.Contains(f.D, []byte("SYNTAX ERROR")) {
			return nil, 0, "does not compile"
		}
		pyc := path.Join(path.Dir(n), "__pycache__", strings.TrimSuffix(path.Base(n), ".py")+".cpython-39.pyc")
		if contains(p.Compile, "-b") {
			pyc = n + "c"
		}
		gen(pyc, proto.Pyc("/"+n, f.D, true, 0), 0o644)
	}
	seen := map[string]bool{}
	for _, e := range w.EPs {
		if e.Sec != "console_scripts" && e.Sec != "gui_scripts" {
			continue
		}
		if !o.Scripts {
			break
		}
		n := path.Join(root(p.Scripts), e.Name)
		if seen[n] || files[n] != nil {
			return nil, 0, "collision at " + n
		}
		seen[n] = true
		sb := console
		if e.Sec == "gui_scripts" {
			sb = gui
		}
		gen(n, launcher(sb, e), 0o755)
	}
	di := path.Join(site, w.info())
	if o.Requested != nil {
		d := ""
		if *o.Requested != "" {
			d = *o.Requested + "\n"
		}
		gen(di+"/REQUESTED", []byte(d), 0o644)
	}
	if o.Record {
		gen(di+"/INSTALLER", []byte(o.Installer+"\n"), 0o644)
		if o.URL != nil {
			gen(di+"/direct_url.json", urlJSON(o.URL), 0o644)
			files[di+"/direct_url.json"].json = true
		}
		files[di+"/RECORD"] = &WF{M: 0o644, Tmin: -1 << 62, Tmax: last}
	}
	for n := range files {
		for d := path.Dir(n); d != "."; d = path.Dir(d) {
			if o := files[d]; o == nil {
				files[d] = &WF{Dir: true, M: 0o755, Tmin: -1 << 62, Tmax: last}
			} else if !o.Dir {
				return nil, 0, "collision at " + d
			}
		}
	}
	return files, newest, ""
}

func mapKeys(m map[string]*WF) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// diffWheel compares a layer with the model.
func (w *Wheel) diffWheel(p Plat, files map[string]*WF, out []byte) *Violation {
	return w.diffWheelHash(p, files, out, "sha256")
}

func (w *Wheel) diffWheelHash(p Plat, files map[string]*WF, out []byte, algo string) *Violation {
	es, err := rdTar(out)
	if err != nil {
		return vio("malformed", "the layer is not a well-formed archive: %v", err)
	}
	dump := "\nlayer:\n" + dumpTE(es)
	for _, e := range es { // how JSON is laid out is not prescribed
		if f := files[path.Clean(e.N)]; f != nil && f.json && sameJSON(f.D, e.D) {
			f.D = e.D
		}
	}
	seen := map[string]bool{}
	site := root(p.Pure)
	if w.Pure != "true" {
		site = root(p.Plat)
	}
	rec := path.Join(site, w.info(), "RECORD")
	for _, e := range es {
		n := path.Clean(e.N)
		if strings.HasPrefix(e.N, "/") || n == ".." || strings.HasPrefix(n, "../") {
			return vio("escape", "entry %q is outside of the root%s", e.N, dump)
		}
		if seen[n] {
			return vio("duplicate", "%q occurs twice%s", n, dump)
		}
		if d := path.Dir(n); d != "." && !seen[d] {
			return vio("order", "%q comes before its directory%s", n, dump)
		}
		seen[n] = true
		f := files[n]
		if f == nil {
			return vio("extra", "%q should not be there%s", n, dump)
		}
		if f.Dir != (e.T == "d") || (e.T != "d" && e.T != "f") {
			return vio("type", "%q has type %s%s", n, e.T, dump)
		}
		if e.M&0o7777 != f.M {
			return vio("mode", "%q has mode %o, expected %o%s", n, e.M, f.M, dump)
		}
		if e.U != p.UID || e.G != p.GID || e.UN != p.UN || e.GN != p.GN {
			return vio("owner", "%q belongs to %d:%d (%s:%s)%s", n, e.U, e.G, e.UN, e.GN, dump)
		}
		if e.MT < f.Tmin*1e9 && f.Tmin > -1<<61 || e.MT > f.Tmax*1e9 {
			return vio("time", "%q has time %d, expected %d..%d%s", n, e.MT, f.Tmin, f.Tmax, dump)
		}
		if n == rec {
			if v := w.diffRecord(files, site, e.D, algo); v != nil {
				return v
			}
			continue
		}
		if !f.Dir && !bytes.Equal(e.D, f.D) {
			return vio("content", "%q holds %q, expected %q", n, trunc(string(e.D), 400), trunc(string(f.D), 400))
		}
	}
	for _, n := range mapKeys(files) {
		if !seen[n] {
			return vio("missing", "%q is not in the layer%s", n, dump)
		}
	}
	return nil
}

func (w *Wheel) diffRecord(files map[string]*WF, site string, got []byte, algo string) *Violation {
	rows, err := csv.NewReader(bytes.NewReader(got)).ReadAll()
	if err != nil {
		return vio("record", "RECORD is malformed: %v\n%s", err, got)
	}
	want := map[string][]string{}
	for n, f := range files {
		if f.Dir {
			continue
		}
		row := []string{recHash(algo, f.D), fmt.Sprint(len(f.D))}
		switch {
		case f.rec != nil:
			row = f.rec
		case n == path.Join(site, w.info(), "RECORD") || strings.HasSuffix(n, ".pyc"):
			row = []string{"", ""}
		}
		want[relPath(site, n)] = row
	}
	have := map[string]bool{}
	for _, r := range rows {
		if len(r) != 3 {
			return vio("record", "RECORD row %q", r)
		}
		if have[r[0]] {
			return vio("record", "RECORD lists %q twice", r[0])
		}
		have[r[0]] = true
		e, ok := want[r[0]]
		if !ok {
			return vio("record", "RECORD lists %q, which is not installed\n%s", r[0], got)
		}
		if e[0] != r[1] || e[1] != r[2] {
			return vio("record", "RECORD says %q, expected %q", r, e)
		}
	}
	for n := range want {
		if !have[n] {
			return vio("record", "RECORD does not list %q\n%s", n, got)
		}
	}
	return nil
}

// wheelSc is a run of `layer wheel`.
func wheelSc(w *Wheel, raw []byte, p Plat) *proto.Scenario {
	sc := cli("layer", "wheel", "--platform-file=plat.yml", w.File)
	addFile(sc, "/work/plat.yml", p.yaml())
	addFile(sc, "/work/"+w.File, raw)
	sc.Children = []proto.Child{{Name: "python3.9"}}
	return sc
}

var wheelDirs = []string{"pkg", "pkg/sub", "other", "pkg-2", "pkg.data", "a b", "ünï"}

func genWheel(r *Rand) *Wheel {
	w := &Wheel{File: "foo-1.0-py3-none-any.whl", Dist: r.Pick("foo-1.0", "foo-1.0", "Foo.Bar-2.0.post1"), Pure: r.Pick("true", "true", "false", "False"), RecT: tm(r), CRLF: r.P(1, 4)}
	if r.P(1, 5) {
		w.Algo = r.Pick("sha384", "sha512")
	}
	w.WV = r.Pick("1.0", "1.0", "1.0", "1.9", "0.1")
	w.RecAt = r.N(8)
	w.Sig = r.P(1, 6)
	w.P7s = r.P(1, 8)
	ent := func(name string, d []byte) {
		e := WE{N: name, D: d, T: tm(r), Store: r.P(1, 3)}
		if r.P(1, 3) {
			e.Dos = true
			e.T &^= 1
		}
		e.A = uint32(r.PickI(0, 0o100644, 0o100755, 0o100700, 0o644, 0o755, 0o100600, 0o104755, 0o100654, 0o645))
		if r.P(1, 8) {
			e.OS = 1
		}
		w.Ents = append(w.Ents, e)
	}
	dirEnt := func(name string) {
		if r.P(1, 2) {
			w.Ents = append(w.Ents, WE{N: name + "/", T: tm(r), Store: true})
		}
	}
	used := map[string]bool{}
	name := func(d string) string {
		for {
			n := r.Pick("m%d.py", "m%d.py", "__init__%d.py", "data%d.txt", "x%d,y.py", "q\"%d\".txt", "w%d.pyw", "é%d.py", "lib%d.so", "s%d", strings.Repeat("long", 30)+"%d.py")
			n = fmt.Sprintf(n, r.N(6))
			if d != "" {
				n = d + "/" + n
			}
			if !used[n] {
				used[n] = true
				return n
			}
		}
	}
	body := func() []byte {
		if r.P(1, 50) {
			return longData(r)
		}
		n := r.PickI(0, 3, 20, 100, 1100)
		return []byte(strings.Repeat(fmt.Sprintf("line %d\n", r.N(1000)), n/7+r.N(2)))
	}
	for k := r.Range(0, 6); k > 0; k-- {
		d := r.Pick("", "pkg", "pkg/sub", "other", "pkg-2", "a b", "ünï", "pkg.py")
		if d != "" && !used[d] {
			used[d] = true
			dirEnt(d)
		}
		ent(name(d), body())
	}
	if r.P(1, 8) { // byte code that comes with the wheel
		ent("pkg/"+r.Pick("m1.pyc", "__pycache__/m1.cpython-39.pyc", "__pycache__/zz.cpython-39.pyc"), []byte("old byte code"))
	}
	if r.P(1, 12) { // another spelling of a name
		for i := range w.Ents {
			if r.P(1, 2) {
				w.Ents[i].N = r.Pick("./", "x/../", ".//") + w.Ents[i].N
			}
		}
	}
	ent(w.info()+"/METADATA", []byte("Metadata-Version: 2.1\nName: foo\nVersion: 1.0\n"))
	if r.P(1, 2) {
		dirEnt(w.data())
		for k := r.Range(1, 5); k > 0; k-- {
			key := r.Pick("purelib", "platlib", "headers", "scripts", "scripts", "data")
			if !used[key] {
				used[key] = true
				dirEnt(w.data() + "/" + key)
			}
			n := name(w.data() + "/" + key)
			if r.P(1, 4) {
				n = name(w.data() + "/" + key + "/sub")
			}
			d := body()
			if key == "scripts" {
				d = append([]byte(r.Pick("#!python\n", "#!pythonw\n", "#!python -E\n", "#!/bin/sh\n", "", "#!pytho", "#!python", "#!pythonw", "#!python3\n", " #!python\n")), d...)
			}
			ent(n, d)
		}
	}
	if r.P(1, 2) {
		w.EPT = tm(r)
		if r.P(1, 2) {
			w.EPSty = r.N(128)
			if r.P(1, 40) {
				w.EPSty |= 128
			}
		}
		for k := r.Range(1, 4); k > 0; k-- {
			e := EP{Sec: r.Pick("console_scripts", "console_scripts", "gui_scripts", "other.group"), Name: fmt.Sprintf(r.Pick("tool%d", "my-tool.%d", "T%d", "x y%d"), k), Mod: r.Pick("pkg", "pkg.m1", "a.b.c"), Func: r.Pick("main", "Cls.run", "a.b.c")}
			if r.P(1, 4) {
				e.Ext = r.Pick("extra", "e1,e2")
			}
			w.EPs = append(w.EPs, e)
		}
	}
	return w
}

func tm(r *Rand) int64 {
	return int64(r.PickI(315532800, 1500000000, 1600000001, 1600000003, 1700000001, 1580601600))
}

// genGoodWheel makes a wheel and platform that the model covers.
func genGoodWheel(r *Rand) (*Wheel, Plat) {
	for {
		w, p := genWheel(r), genPlat(r)
		if _, _, why := w.install(p); why == "" {
			return w, p
		}
	}
}
