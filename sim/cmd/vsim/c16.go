package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	"verif/sim/proto"
)

// C16: comparison of layers.

type eqCase struct {
	A      []TE          `json:"a"`
	B      []TE          `json:"b"`
	FA     string        `json:"fa"` // tar, gz
	FB     string        `json:"fb"`
	Dmg    string        `json:"dmg,omitempty"` // cut, flip, header
	DmgB   bool          `json:"dmgb,omitempty"`
	DmgAt  int           `json:"dmgat,omitempty"`
	Swap   bool          `json:"swap,omitempty"`
	N      int           `json:"n,omitempty"` // how many goroutines compare
	Sched  Sched         `json:"sched"`
	Faults []proto.Fault `json:"faults,omitempty"`
}

func (c *eqCase) data() (a, b []byte) {
	a, b = mkTar(c.A), mkTar(c.B)
	if c.Dmg == "header" { // damage of the archive itself, before compression
		d := &a
		if c.DmgB {
			d = &b
		}
		if c.DmgAt >= len(*d)-1024 || len(*d) <= 1024 {
			panic("ill-formed case")
		}
		// the checksum of the first header
		(*d)[148] ^= 1
	}
	if c.FA == "gz" {
		a = gz(a)
	}
	if c.FB == "gz" {
		b = gz(b)
	}
	d, f := &a, c.FA
	if c.DmgB {
		d, f = &b, c.FB
	}
	switch c.Dmg {
	case "", "header":
	case "cut":
		if f != "gz" || c.DmgAt <= 2 || c.DmgAt >= len(*d) {
			panic("ill-formed case")
		}
		*d = (*d)[:c.DmgAt]
	case "pcut": // of an archive without compression: within the header or the data of an entry
		if f == "gz" || c.DmgAt <= 0 || c.DmgAt >= len(*d) {
			panic("ill-formed case")
		}
		*d = (*d)[:c.DmgAt]
		if !cutInside(*d) {
			panic("ill-formed case")
		}
	case "flip": // of a compressed layer: somewhere behind the header
		if f != "gz" || c.DmgAt < 10 || c.DmgAt >= len(*d)*8 {
			panic("ill-formed case")
		}
		if c.DmgAt/8 < 10 {
			panic("ill-formed case")
		}
		(*d)[c.DmgAt/8] ^= 1 << (c.DmgAt % 8)
		if _, err := gunzip(*d); err == nil { // a bit without meaning
			panic("ill-formed case")
		}
	default:
		panic("ill-formed case")
	}
	return a, b
}

// cutInside tells whether the archive ends within an entry; one that ends between two entries (or
// between an extended header and its entry, which archive/tar does not tell apart) counts as complete.
func cutInside(b []byte) bool {
	r := tar.NewReader(bytes.NewReader(b))
	for {
		_, err := r.Next()
		if err == nil {
			_, err = io.Copy(io.Discard, r)
		}
		if err != nil {
			return !errors.Is(err, io.EOF)
		}
	}
}

func (c *eqCase) scenario() *proto.Scenario {
	a, b := c.data()
	sc := cli()
	sc.Prog = "lib"
	addFile(sc, "/work/a", a)
	addFile(sc, "/work/b", b)
	call := proto.LibCall{Op: "equal", L: []int{0, 1}}
	if c.Swap {
		call.L = []int{1, 0}
	}
	arg := proto.LibArg{Layers: []string{"/work/a", "/work/b"}}
	for k := 0; k <= c.N; k++ {
		arg.Threads = append(arg.Threads, []proto.LibCall{call})
	}
	sc.ProgArg, _ = json.Marshal(arg)
	c.Sched.apply(sc)
	sc.Faults = c.Faults
	return sc
}

func libRes(r *proto.Result) *proto.LibRes {
	var l proto.LibRes
	if json.Unmarshal(r.Prog, &l) != nil {
		infra("no result from the library client: %s", trunc(string(r.Prog), 300))
	}
	return &l
}

// sameEntries: equal in everything but times.
func sameEntries(a, b []TE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		p, q := a[i], b[i]
		p.MT, p.AT, p.CT, q.MT, q.AT, q.CT, p.F, q.F = 0, 0, 0, 0, 0, 0, 0, 0
		if fmt.Sprintf("%q", fmt.Sprintf("%+v", p)) != fmt.Sprintf("%q", fmt.Sprintf("%+v", q)) {
			return false
		}
	}
	return true
}

func checkEq(x *X, ci interface{}) *Violation {
	c := ci.(*eqCase)
	if len(c.A) == 0 || len(c.B) == 0 || c.N > 8 {
		panic("ill-formed case")
	}
	want := sameEntries(rt(c.A), rt(c.B))
	r := x.Run(c.scenario())
	if v := sane(r); v != nil {
		return v
	}
	l := libRes(r)
	faulty := len(c.Faults) > 0 || c.Dmg != ""
	desc := "\na:\n" + dumpTE(c.A) + "b:\n" + dumpTE(c.B)
	if l.Setup != "" {
		if !faulty {
			return vio("open", "a good layer cannot be opened: %s%s", l.Setup, desc)
		}
		x.Probe("error")
		return nil
	}
	for _, t := range l.Threads {
		o := t[0]
		switch {
		case o.Err != "" && !faulty:
			return vio("error", "comparing two good layers fails: %s%s", o.Err, desc)
		case o.Err != "":
			x.Probe("error")
			if o.Equal {
				return vio("error-equal", "an error together with the answer equal%s", desc)
			}
		case c.Dmg != "" && o.Equal:
			return vio("damaged-equal", "a damaged layer (%s at %d) compares equal%s", c.Dmg, c.DmgAt, desc)
		case o.Equal && !want:
			return vio("equal", "different layers compare equal%s", desc)
		case !o.Equal && want && c.Dmg == "":
			return vio("different", "layers that differ in nothing but times compare different%s", desc)
		case o.Equal:
			x.Probe("equal")
		default:
			x.Probe("different")
		}
	}
	return nil
}

// rt: what is really in the archive.
func rt(es []TE) []TE {
	o, err := rdTar(mkTar(es))
	if err != nil {
		panic("ill-formed case")
	}
	for i := range o {
		if len(o[i].D) == 0 {
			o[i].D = nil
		}
	}
	return o
}

// mutate makes one difference that matters.
func mutTE(r *Rand, es []TE) []TE {
	out := append([]TE{}, es...)
	i := r.N(len(out))
	e := &out[i]
	e.F = 0
	switch r.N(16) {
	case 0:
		e.N = strings.TrimSuffix(e.N, "/") + r.Pick("x", "_", "~")
	case 1:
		e.M ^= int64(1 << r.N(12))
	case 2:
		e.U ^= 1 << r.N(20)
	case 3:
		e.G ^= 1 << r.N(20)
	case 4:
		e.UN += "x"
	case 5:
		e.GN += "x"
	case 6:
		m := map[string]string{}
		for k, v := range e.X {
			m[k] = v + "y"
		}
		m[r.Pick("!SCHILY.acl.access", "!LIBARCHIVE.x", "user.k", "user.mtime", "mtime", "security.capability", "atime")] = r.Pick("z", "\x01\x02")
		e.X = m
	case 7:
		out = append(out[:i], out[i+1:]...)
	case 8:
		out = append(out, TE{N: "zz", T: "f", M: 0o644})
	case 9:
		j := r.N(len(out))
		out[i], out[j] = out[j], out[i]
	case 10, 11, 12:
		for k := range out {
			if out[(i+k)%len(out)].T == "f" {
				e = &out[(i+k)%len(out)]
				d := append([]byte{}, e.D...)
				if len(d) == 0 || r.P(1, 4) {
					d = append(d, byte(r.PickI(0, 'x')))
				} else if r.P(1, 4) {
					d = d[:len(d)-1]
				} else {
					d[r.PickI(len(d)-1, r.N(len(d)))] ^= byte(1 << r.N(8))
				}
				e.D = d
				break
			}
		}
	case 13:
		if e.L != "" {
			e.L += "x"
		} else {
			e.M ^= 0o100
		}
	case 14:
		if e.T == "c" || e.T == "b" {
			if r.P(1, 2) {
				e.J++
			} else {
				e.K++
			}
		} else {
			e.U++
		}
	default: // another type
		switch e.T {
		case "f":
			if len(e.D) == 0 {
				e.T = r.Pick("d", "p")
			} else {
				e.D = append(append([]byte{}, e.D...), e.D...)
			}
		case "l":
			e.T = "h"
		case "h":
			e.T = "l"
		case "c":
			e.T = "b"
		case "b":
			e.T = "c"
		case "p", "d":
			e.T = "f"
			e.N = strings.TrimSuffix(e.N, "/")
		}
	}
	return out
}

// retime changes nothing but times (and with them the archive format).
func retime(r *Rand, es []TE) []TE {
	out := append([]TE{}, es...)
	for i := range out {
		e := &out[i]
		if !r.P(2, 3) {
			continue
		}
		e.F = 0
		switch r.N(6) {
		case 0:
			e.MT = int64(r.PickI(1, 1234567891, 1700000000)) * 1e9
		case 1:
			e.MT = int64(r.PickI(1, 1234567891, 1700000000))*1e9 + int64(r.PickI(1, 500000000, 999999999))
		case 2:
			e.MT = -int64(r.PickI(1, 1000000000)) * 1e9
		case 3:
			e.AT = int64(r.PickI(1, 1234567891)) * 1e9
		case 4:
			e.CT = int64(r.PickI(1, 1234567891))*1e9 + int64(r.N(2))
		default:
			e.MT = 0
			e.AT, e.CT = 0, 0
			if len(e.N) < 100 && len(e.L) < 100 && e.X == nil && e.U < 2000000 && ascii(e.N+e.L+e.UN+e.GN) {
				e.F = r.PickI(0, 2, 4, 8)
			}
		}
	}
	return out
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func genEq(r *Rand, i int) interface{} {
	c := &eqCase{Sched: genSched(r), FA: r.Pick("tar", "gz"), FB: r.Pick("tar", "gz"), Swap: r.P(1, 2)}
	c.A = genLayer(r, r.Range(1, 6), r.P(1, 4), 3)
	for i := range c.A {
		e := &c.A[i]
		if r.P(1, 12) {
			e.N = strings.TrimSuffix(e.N, "/") + r.Pick("/"+strings.Repeat("n", 90)+"/"+strings.Repeat("m", 60), "ü", "/"+strings.Repeat("k", 200))
			e.F = 0
		}
		if e.T == "f" && r.P(1, 3) {
			e.D = make([]byte, r.PickI(0, 1, 511, 512, 513, 1023, 1024, 1025, 2048, 3000))
			for k := range e.D {
				e.D[k] = byte(k * 7)
			}
		}
		if r.P(1, 10) {
			e.UN = "wéb"
			e.F = 0
		}
	}
	c.B = retime(r, c.A)
	switch r.N(3) {
	case 0:
		c.B = append([]TE{}, c.A...)
	case 1:
		for k := r.Range(1, 2); k > 0 && len(c.B) > 0; k-- {
			c.B = mutTE(r, c.B)
		}
		if len(c.B) == 0 {
			c.B = []TE{{N: "only", T: "f", M: 0o644}}
		}
	}
	if r.P(1, 6) {
		c.N = r.Range(1, 3)
	}
	return c
}

func init() {
	properties["C16"] = &Property{
		ID: "C16", New: func() interface{} { return &eqCase{} }, Gen: genEq, Check: checkEq,
		Quick: 8000, Thorough: 80000,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := ci.(*eqCase)
			var out []interface{}
			if r.P(1, 2) {
				sc := c.scenario()
				sc.Trace = true
				g := x.Run(sc)
				for k := 0; k < 2; k++ {
					if f := pickFault(r, g, inputFaults); f != nil {
						cc := *c
						cc.Faults = []proto.Fault{*f}
						out = append(out, &cc)
					}
				}
			}
			if r.P(1, 2) {
				cc := *c
				cc.DmgB = r.P(1, 2)
				cc.Dmg = "pcut"
				k := r.N(len(cc.A))
				at := len(mkTar(cc.A[:k])) - 1024
				if n := len(mkTar(cc.A[:k+1])) - 1024; r.P(1, 3) {
					cc.DmgAt = at + 1 + r.N(n-at-1)
				} else {
					cc.DmgAt = at + r.Range(1, 511)
				}
				whole, other := cc.A, append([]TE{}, cc.A...)
				if k > 0 && r.P(1, 2) {
					other = other[:k]
				}
				if cc.DmgB {
					cc.A, cc.B, cc.FB = other, whole, ""
				} else {
					cc.A, cc.B, cc.FA = whole, other, ""
				}
				if cutInside(mkTar(whole)[:cc.DmgAt]) {
					out = append(out, &cc)
				}
			}
			if r.P(1, 2) {
				cc := *c
				cc.DmgB = r.P(1, 2)
				cc.Dmg = r.Pick("cut", "flip", "header")
				if cc.DmgB {
					cc.FB = "gz"
				} else {
					cc.FA = "gz"
				}
				cc.B = append([]TE{}, cc.A...)
				a, b := (&eqCase{A: cc.A, B: cc.B, FA: cc.FA, FB: cc.FB}).data()
				if cc.DmgB {
					a = b
				}
				switch cc.Dmg {
				case "cut":
					cc.DmgAt = 3 + r.N(len(a)-3)
					if r.P(1, 2) {
						cc.DmgAt = len(a) - 1 - r.N(12)
					}
				case "flip":
					cc.DmgAt = (10 + r.N(len(a)-10)) * 8
					if r.P(1, 2) {
						cc.DmgAt = (len(a) - 1 - r.N(8)) * 8
					}
					cc.DmgAt += r.N(8)
					if d := append([]byte{}, a...); true {
						d[cc.DmgAt/8] ^= 1 << (cc.DmgAt % 8)
						if _, err := gunzip(d); err == nil {
							return out
						}
					}
				}
				out = append(out, &cc)
			}
			return out
		},
		Rule:   "Workloads: pairs of seeded layers that are equal, differ only in times (and so in the archive format that stores them), or differ in one or two other ways, compressed or not, compared by one to four goroutines at once; variants damage one layer (truncation, bit flips, header checksum) or inject a read fault at a seeded system call.",
		Real:   []string{"pkg/fsutil comparison and opening of layers, archive/tar, compress/gzip, go-containerregistry"},
		Stub:   []string{"the kernel (files, read faults and sizes)"},
		Assume: []string{"an uncompressed archive that ends at an entry boundary is complete"},
	}
}
