package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"encoding/base64"
	"encoding/csv"
	"fmt"
	"path"
	"strings"

	"verif/sim/proto"
)

// tamperCase is a valid wheel with one thing wrong with it.
type tamperCase struct {
	wheelCase
	Kind string `json:"kind"` // "", one of tamperKinds, or flip, zero, cut
	I    int    `json:"i,omitempty"`
	S    string `json:"s,omitempty"`
	// damage of the file
	Pos    int           `json:"pos,omitempty"`
	Len    int           `json:"len,omitempty"`
	At     int           `json:"at,omitempty"` // >0: at this system call, else before the run
	Faults []proto.Fault `json:"faults,omitempty"`
}

var tamperKinds = []string{"content", "content", "shorter", "longer", "norow", "norow", "extra", "extra-dist-info", "absent", "hash", "hash", "swap", "size", "weak", "unknown-algo", "nohash", "nocolumn",
	"dup", "dup", "dup-spelled", "dup-spelled", "escape", "escape-dir", "hash-cut", "file-and-dir", "ep-value", "ep-file", "ifdir", "bad-data-key", "data-key-file", "two-dist-info", "no-dist-info", "wheel-version", "no-record", "no-wheel", "ep-name", "below-file", "empty-record"}

func encRows(rows [][]string) []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	_ = w.WriteAll(rows)
	return b.Bytes()
}

// tampered returns the bytes of the wheel; ok is false if the tampering does
// not apply to this wheel.
func (c *tamperCase) tampered() (raw []byte, ok bool) {
	w := c.W
	if w == nil || w.Dist == "" || w.Rows != nil || w.NoRec {
		panic("ill-formed case")
	}
	var es []WE
	var rec WE
	for _, e := range w.all() {
		if e.N == w.info()+"/RECORD" {
			rec = e
			continue
		}
		es = append(es, e)
	}
	if rec.N == "" {
		panic("ill-formed case")
	}
	var files []int // entries that are recorded
	for i, e := range es {
		if !e.dir() && e.N != w.info()+"/RECORD.jws" && e.N != w.info()+"/RECORD.p7s" {
			files = append(files, i)
		}
	}
	if len(files) == 0 {
		panic("ill-formed case")
	}
	var plain []WE
	for _, i := range files {
		plain = append(plain, es[i])
	}
	rows := w.rows(plain)
	k := c.I % len(files) // row number
	if k < 0 {
		panic("ill-formed case")
	}
	t := files[k] // entry number
	nt := rec.T
	addRow := func(n string, d []byte) {
		rows = append(rows[:len(rows)-1:len(rows)-1], []string{n, recHash(w.Algo, d), fmt.Sprint(len(d))}, rows[len(rows)-1])
	}
	add := func(n string, d []byte) {
		es = append(es, WE{N: n, D: d, T: nt})
		addRow(n, d)
	}
	switch c.Kind {
	case "content":
		if len(es[t].D) == 0 {
			return nil, false
		}
		d := append([]byte{}, es[t].D...)
		d[c.Pos%len(d)] ^= 1
		es[t].D = d
	case "shorter":
		if len(es[t].D) == 0 {
			return nil, false
		}
		es[t].D = es[t].D[:len(es[t].D)-1]
	case "longer":
		es[t].D = append(append([]byte{}, es[t].D...), '\n')
	case "norow":
		rows = append(rows[:k:k], rows[k+1:]...)
	case "extra":
		es = append(es, WE{N: c.S, D: []byte("import os\n"), T: nt})
	case "extra-dist-info":
		es = append(es, WE{N: w.info() + "/" + c.S, D: []byte("x\n"), T: nt})
	case "absent":
		addRow(c.S, []byte("x"))
	case "hash":
		h := []byte(rows[k][1])
		p := strings.IndexByte(rows[k][1], '=') + 1
		p += c.Pos % (len(h) - p - 1) // the last character carries fewer bits
		if h[p] == 'A' {
			h[p] = 'B'
		} else {
			h[p] = 'A'
		}
		rows[k] = []string{rows[k][0], string(h), rows[k][2]}
	case "hash-cut":
		h := rows[k][1]
		p := strings.IndexByte(h, '=') + 1
		rows[k] = []string{rows[k][0], h[:p+c.Pos%(len(h)-p)], rows[k][2]}
	case "swap":
		o := (k + 1) % len(files)
		if bytes.Equal(es[files[o]].D, es[t].D) {
			return nil, false
		}
		a, b := rows[k], rows[o]
		rows[k], rows[o] = []string{a[0], b[1], b[2]}, []string{b[0], a[1], a[2]}
	case "size":
		rows[k] = []string{rows[k][0], rows[k][1], fmt.Sprint(len(es[t].D) + 1)}
	case "weak":
		d := md5.Sum(es[t].D)
		h := "md5=" + base64.RawURLEncoding.EncodeToString(d[:])
		if c.Pos%2 == 0 {
			d := sha1.Sum(es[t].D)
			h = "sha1=" + base64.RawURLEncoding.EncodeToString(d[:])
		}
		rows[k] = []string{rows[k][0], h, rows[k][2]}
	case "unknown-algo":
		rows[k] = []string{rows[k][0], "sha999=" + strings.SplitN(rows[k][1], "=", 2)[1], rows[k][2]}
	case "nohash":
		rows[k] = []string{rows[k][0], "", rows[k][2]}
	case "nocolumn":
		for i := range rows { // every row, or one
			if i == k || c.Pos%2 == 0 {
				rows[i] = rows[i][:2]
			}
		}
	case "dup", "dup-spelled":
		e := es[t]
		e.D = append([]byte("# other\n"), e.D...)
		if c.Kind == "dup-spelled" {
			if c.Pos%2 == 0 {
				e.N = "./" + e.N
			} else {
				e.N = path.Dir(e.N) + "//" + path.Base(e.N)
			}
		}
		if c.Pos%4 < 2 {
			es = append(es, e)
		} else {
			es = append([]WE{e}, es...)
		}
	case "escape":
		n := strings.Repeat("../", 1+c.Pos%6) + "evil.py"
		if c.Pos%3 == 0 {
			n = "pkg/../" + n
		}
		if c.Pos%5 == 0 {
			n = w.data() + "/" + [...]string{"scripts", "data", "purelib"}[c.Pos%3] + "/../../" + n
		}
		add(n, []byte("evil\n"))
	case "escape-dir":
		n := strings.Repeat("../", 1+c.Pos%6) + "evil/"
		if c.Pos%2 == 0 {
			n = "pkg/../" + n
		}
		es = append(es, WE{N: n, T: nt})
	case "file-and-dir":
		e := WE{N: es[t].N + "/", T: nt}
		if c.Pos%2 == 0 {
			es = append(es, e)
		} else {
			es = append([]WE{e}, es...)
		}
	case "ifdir":
		es = append(es, WE{N: c.S, D: []byte("import os\n"), T: nt, A: 0o40755})
	case "bad-data-key":
		add(w.data()+"/"+c.S+"/x", []byte("x"))
	case "data-key-file":
		key := [...]string{"scripts", "data", "headers"}[c.Pos%3]
		for _, e := range es {
			if strings.HasPrefix(path.Clean(e.N)+"/", w.data()+"/"+key+"/") {
				return nil, false
			}
		}
		add(w.data()+"/"+key, []byte("x"))
	case "two-dist-info":
		add("zzz-9.dist-info/"+[...]string{"METADATA", "WHEEL", "RECORD"}[c.Pos%3], []byte("Wheel-Version: 1.0\n"))
	case "no-dist-info":
		for i := range es {
			es[i].N = strings.Replace(es[i].N, ".dist-info/", ".dist-inf/", 1)
		}
		for i := range rows {
			rows[i] = append([]string{strings.Replace(rows[i][0], ".dist-info/", ".dist-inf/", 1)}, rows[i][1:]...)
		}
		rec.N = strings.Replace(rec.N, ".dist-info/", ".dist-inf/", 1)
	case "wheel-version":
		for i := range es {
			if es[i].N == w.info()+"/WHEEL" {
				if c.S == "" {
					es[i].D = []byte("Root-Is-Purelib: true\n")
				} else {
					es[i].D = []byte("Wheel-Version: " + c.S + "\nRoot-Is-Purelib: true\n")
				}
				for j := range rows {
					if rows[j][0] == es[i].N {
						rows[j] = []string{es[i].N, recHash(w.Algo, es[i].D), fmt.Sprint(len(es[i].D))}
					}
				}
			}
		}
	case "no-wheel":
		for i := range es {
			if es[i].N == w.info()+"/WHEEL" {
				for j := range rows {
					if rows[j][0] == es[i].N {
						rows = append(rows[:j:j], rows[j+1:]...)
						break
					}
				}
				es = append(es[:i:i], es[i+1:]...)
				break
			}
		}
	case "no-record":
		return mkZip(es), true
	case "empty-record":
		rows = rows[len(rows)-1:]
	case "ep-name":
		if len(w.EPs) > 0 || c.S == "" {
			return nil, false
		}
		add(w.info()+"/entry_points.txt", []byte("["+[...]string{"console_scripts", "gui_scripts"}[c.Pos%2]+"]\n"+c.S+" = pkg:main\n"))
	case "ep-value":
		if len(w.EPs) > 0 || c.S == "" {
			return nil, false
		}
		add(w.info()+"/entry_points.txt", []byte("["+[...]string{"console_scripts", "gui_scripts"}[c.Pos%2]+"]\ntool = "+c.S+"\n"))
	case "ep-file":
		if len(w.EPs) > 0 || c.S == "" {
			return nil, false
		}
		add(w.info()+"/entry_points.txt", []byte(c.S))
	case "below-file":
		add(path.Clean(es[t].N)+"/x", []byte("x"))
	case "", "flip", "zero", "cut":
	default:
		panic("ill-formed case")
	}
	rec.D = encRows(rows)
	at := w.RecAt % (len(es) + 1)
	out := append(append(append([]WE{}, es[:at]...), rec), es[at:]...)
	return mkZip(out), true
}

func (c *tamperCase) damage(raw []byte) []byte {
	if len(raw) == 0 || c.Pos < 0 || c.Len < 0 {
		panic("ill-formed case")
	}
	b := append([]byte{}, raw...)
	p := c.Pos % len(b)
	switch c.Kind {
	case "flip":
		b[p] ^= 1 << (c.Len % 8)
	case "zero":
		for i := p; i < len(b) && i < p+c.Len; i++ {
			b[i] = 0
		}
	case "cut":
		b = b[:p]
	}
	return b
}

func checkTamper(x *X, ci interface{}) *Violation {
	c := ci.(*tamperCase)
	if c.W == nil || len(c.P.Compile) < 3 || c.P.Compile[2] != "compileall" || c.P.Console == "" && c.P.Gui == "" {
		panic("ill-formed case")
	}
	files, _, why := c.W.install(c.P)
	if why != "" {
		panic("ill-formed case: " + why)
	}
	raw, ok := c.tampered()
	if !ok {
		return nil
	}
	sc := c.scenario()
	set := func(b []byte) {
		for i := range sc.FS {
			if sc.FS[i].P == "/work/"+c.W.File {
				sc.FS[i].D = b
			}
		}
	}
	set(raw)
	sc.Faults = c.Faults
	phys := c.Kind == "flip" || c.Kind == "zero" || c.Kind == "cut"
	if phys {
		d := c.damage(raw)
		if bytes.Equal(d, raw) {
			return nil
		}
		if c.At > 0 {
			sc.Faults = append(sc.Faults, proto.Fault{At: c.At, Kind: "mut", Mut: []proto.Mut{{Op: "write", Path: "/work/" + c.W.File, Data: d}}})
		} else {
			set(d)
		}
	}
	r := x.Run(sc)
	if v := sane(r); v != nil {
		return v
	}
	if r.Exit != 0 {
		if len(r.Stdout) > 0 {
			return vio("output", "the command fails but wrote %d bytes", len(r.Stdout))
		}
		if silent(r) {
			return vio("message", "exit status %d without a message", r.Exit)
		}
		x.Probe("refused:" + c.Kind)
		return nil
	}
	if c.Kind == "" || phys {
		// the intact content is fine
		x.Probe("intact:" + c.Kind)
		return c.W.sameContent(c.P, files, r.Stdout)
	}
	es, _ := rdTar(r.Stdout)
	return vio("installed", "a wheel with a defect (%s %q, entry %d) was installed\nlayer:\n%s", c.Kind, c.S, c.I, dumpTE(es))
}

// sameContent compares names and contents of the files of a layer.
func (w *Wheel) sameContent(p Plat, files map[string]*WF, out []byte) *Violation {
	es, err := rdTar(out)
	if err != nil {
		return vio("malformed", "the layer is not a well-formed archive: %v", err)
	}
	site := root(p.Pure)
	if w.Pure != "true" {
		site = root(p.Plat)
	}
	seen := map[string]bool{}
	for _, e := range es {
		if e.T == "d" {
			continue
		}
		n := path.Clean(e.N)
		f := files[n]
		if f == nil || f.Dir || e.T != "f" || seen[n] {
			return vio("content", "the damaged wheel was installed with %q\nlayer:\n%s", n, dumpTE(es))
		}
		seen[n] = true
		if n == path.Join(site, w.info(), "RECORD") {
			if v := w.diffRecord(files, site, e.D, "sha256"); v != nil {
				return v
			}
			continue
		}
		if !bytes.Equal(e.D, f.D) {
			return vio("content", "the damaged wheel was installed: %q holds %q, expected %q", n, trunc(string(e.D), 300), trunc(string(f.D), 300))
		}
	}
	for _, n := range mapKeys(files) {
		if !files[n].Dir && !seen[n] {
			return vio("content", "the damaged wheel was installed without %q", n)
		}
	}
	return nil
}

func genTamper(r *Rand, i int) interface{} {
	c := &tamperCase{}
	c.wheelCase = *genWheelCase(r, i).(*wheelCase)
	c.Lib, c.Bad = nil, ""
	c.Kind = tamperKinds[i%len(tamperKinds)]
	c.I, c.Pos = r.N(1000), r.N(100000)
	switch c.Kind {
	case "extra", "ifdir", "absent":
		c.S = r.Pick("evil.py", "pkg/evil.py", "pkg/evil", c.W.data()+"/scripts/evil", c.W.data()+"/data/evil", "evil.pth", "pkg/__pycache__/evil.cpython-39.pyc", "new/dir/evil", ".evil", "RECORD", "RECORD.jws", "evil.dist-inf")
	case "extra-dist-info":
		c.S = r.Pick("top_level.txt", "LICENSE", "RECORD.sig", "INSTALLER", "sub/RECORD.jws", "REQUESTED", "direct_url.json", "record.jws")
	case "bad-data-key":
		c.S = r.Pick("bogus", "script", "Scripts", "include", "lib", "..data")
	case "wheel-version":
		c.S = r.Pick("2.0", "2", "10.1", "", "garbage", "1.x", "3.0.1")
	case "ep-value":
		c.S = r.Pick("pkg:main junk", "pkg", "pkg:", ":main", "pkg:main:x", "pkg main", "pkg:ma-in", "pkg:main()", "pkg:main [x] y", "pkg:main; import os", "/pkg:main", "pkg..m:main", "pkg:main.", "-:main")
	case "ep-file":
		g := r.Pick("console_scripts", "gui_scripts")
		c.S = r.Pick("tool = pkg:main\n", "["+g+"]\ntool\n", "["+g+"]\ntool pkg:main\n", "["+g+"\ntool = pkg:main\n", "["+g+"]\ntool = pkg:main\ntool = pkg:other\n", "["+g+"]\ntool = pkg:main\n[x]\ny=z\n["+g+"]\nmore = pkg:main\n",
			"["+g+"]\ntool = pkg:main\n  pkg:other\n", "["+g+"]\ntool = pkg:main\njunk\n", "# c\n["+g+"]\n[other]\na=b\nnothing\n", "junk\n["+g+"]\ntool = pkg:main\n")
	case "ep-name":
		c.S = r.Pick("../evil", "../../etc/evil", "a/b", "..", "/abs", "a/../../b", ".")
	}
	return c
}

func init() {
	properties["C06"] = &Property{
		ID: "C06", New: func() interface{} { return &tamperCase{} }, Gen: genTamper, Check: checkTamper,
		Quick: 5000, Thorough: 110000,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := *ci.(*tamperCase)
			c.Kind = ""
			c.S = ""
			sc := c.scenario()
			sc.Trace = true
			g := x.Run(sc)
			if g.Exit != 0 || g.Panic != "" || g.Hang != "" {
				cc := c
				return []interface{}{&cc}
			}
			var out []interface{}
			raw := c.W.bytes()
			for k := 0; k < 3; k++ {
				cc := c
				cc.Kind = r.Pick("flip", "flip", "zero", "cut")
				cc.Pos, cc.Len = r.N(len(raw)), r.PickI(1, 2, 3, 4, 5, 6, 7, 8, 64, 512)
				if k > 0 { // while the program runs
					cc.At = 1 + r.N(g.Ops)
				}
				out = append(out, &cc)
			}
			if f := pickFault(r, g, inputFaults); f != nil {
				cc := c
				cc.Faults = []proto.Fault{*f}
				out = append(out, &cc)
			}
			return out
		},
		Rule:   "Workloads: seeded valid wheels, each with one defect (changed content, rows of RECORD removed, added, changed or swapped, weak or unknown hashes, hidden, duplicate or escaping entries, wrong metadata); variants damage the stored file (bit flips, zeroed ranges, truncation) before the run or at a seeded system call during it, or inject a read fault.",
		Real:   []string{"the whole command line program, archive/zip, archive/tar, go-containerregistry"},
		Stub:   []string{"the kernel", "the byte compiler"},
		Assume: []string{"file modes and times in the zip directory are not covered by RECORD and so not compared after damage", "damage does not collide with the CRC-32 of the zip"},
	}
}
