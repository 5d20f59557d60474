package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"verif/sim/proto"
)

// TE is one entry of a layer archive, in a form that can be written to a
// replay file.
type TE struct {
	N  string            `json:"n"`
	T  string            `json:"t"` // f d l h c b p, g (a header for the whole archive, which is no file)
	M  int64             `json:"m,omitempty"`
	U  int               `json:"u,omitempty"`
	G  int               `json:"g,omitempty"`
	UN string            `json:"un,omitempty"`
	GN string            `json:"gn,omitempty"`
	MT int64             `json:"mt,omitempty"` // ns
	AT int64             `json:"at,omitempty"`
	CT int64             `json:"ct,omitempty"`
	D  []byte            `json:"d,omitempty"`
	L  string            `json:"l,omitempty"`
	X  map[string]string `json:"x,omitempty"`
	J  int64             `json:"j,omitempty"`
	K  int64             `json:"k,omitempty"`
	F  int               `json:"f,omitempty"` // tar format
	S  string            `json:"s,omitempty"` // stored with holes: gnu, pax
}

var typeflags = map[string]byte{"f": tar.TypeReg, "d": tar.TypeDir, "l": tar.TypeSymlink, "h": tar.TypeLink, "c": tar.TypeChar, "b": tar.TypeBlock, "p": tar.TypeFifo}

func tns(n int64) time.Time {
	if n == 0 {
		return time.Unix(0, 0)
	}
	return time.Unix(n/1e9, n%1e9)
}

func (e TE) header() *tar.Header {
	h := &tar.Header{
		Name: e.N, Typeflag: typeflags[e.T], Mode: e.M, Uid: e.U, Gid: e.G, Uname: e.UN, Gname: e.GN,
		ModTime: tns(e.MT), Linkname: e.L, Devmajor: e.J, Devminor: e.K, Format: tar.Format(e.F),
	}
	if e.AT != 0 {
		h.AccessTime = tns(e.AT)
		h.Format = tar.FormatPAX
	}
	if e.CT != 0 {
		h.ChangeTime = tns(e.CT)
		h.Format = tar.FormatPAX
	}
	if e.MT%1e9 != 0 {
		h.Format = tar.FormatPAX
	}
	if e.T == "f" {
		h.Size = int64(len(e.D))
	}
	if len(e.X) > 0 {
		h.PAXRecords = map[string]string{}
		for k, v := range e.X {
			if strings.HasPrefix(k, "!") { // some other record
				h.PAXRecords[k[1:]] = v
				continue
			}
			h.PAXRecords["SCHILY.xattr."+k] = v
		}
		h.Format = tar.FormatPAX
	}
	return h
}

// mkTar writes a layer archive.
func mkTar(es []TE) []byte {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for _, e := range es {
		if e.T == "g" {
			_ = w.Flush()
			if err := w.WriteHeader(&tar.Header{Name: e.N, Typeflag: tar.TypeXGlobalHeader, PAXRecords: map[string]string{"comment": "x"}}); err != nil {
				panic(err)
			}
			continue
		}
		if e.S != "" {
			e.sparse(&b, w)
			continue
		}
		if typeflags[e.T] == 0 || e.N == "" || (e.L == "") == (e.T == "l" || e.T == "h") {
			panic("ill-formed case")
		}
		h := e.header()
		err := w.WriteHeader(h)
		if err != nil && e.F != 0 { // this format cannot say that
			h.Format = tar.FormatUnknown
			err = w.WriteHeader(h)
		}
		if err != nil {
			panic(fmt.Sprintf("mkTar %q: %v", e.N, err))
		}
		if e.T == "f" {
			if _, err := w.Write(e.D); err != nil {
				panic(err)
			}
		}
	}
	_ = w.Close()
	return b.Bytes()
}

// sparse writes a file with holes where its content is zero.
func (e TE) sparse(b *bytes.Buffer, w *tar.Writer) {
	if e.T != "f" || e.N == "" || e.L != "" || len(e.X) > 0 || e.AT != 0 || e.CT != 0 || e.MT%1e9 != 0 || e.MT < 0 || e.U >= 2000000 || len(e.N) >= 90 || !ascii(e.N+e.UN+e.GN) {
		panic("ill-formed case")
	}
	var segs [][2]int
	var phys []byte
	for o := 0; o < len(e.D); o += 512 {
		end := o + 512
		if end > len(e.D) {
			end = len(e.D)
		}
		if len(bytes.Trim(e.D[o:end], "\x00")) == 0 {
			continue
		}
		if n := len(segs); n > 0 && segs[n-1][0]+segs[n-1][1] == o {
			segs[n-1][1] += end - o
		} else {
			segs = append(segs, [2]int{o, end - o})
		}
		phys = append(phys, e.D[o:end]...)
	}
	segs = append(segs, [2]int{len(e.D), 0})
	head := func(h *tar.Header, patch func(blk []byte)) {
		if err := w.WriteHeader(h); err != nil {
			panic(fmt.Sprintf("mkTar %q: %v", e.N, err))
		}
		blk := b.Bytes()[b.Len()-512:]
		patch(blk)
		copy(blk[148:156], "        ")
		sum := 0
		for _, c := range blk {
			sum += int(c)
		}
		copy(blk[148:156], fmt.Sprintf("%06o\x00 ", sum))
	}
	h := e.header()
	switch e.S {
	case "gnu":
		h.Format, h.Size = tar.FormatGNU, int64(len(phys))
		put := func(to []byte, n int) { copy(to, fmt.Sprintf("%011o\x00", n)) }
		entry := func(to []byte) {
			put(to[:12], segs[0][0])
			put(to[12:24], segs[0][1])
			segs = segs[1:]
		}
		head(h, func(blk []byte) {
			blk[156] = 'S'
			for k := 0; k < 4 && len(segs) > 0; k++ {
				entry(blk[386+24*k:])
			}
			if len(segs) > 0 {
				blk[482] = 1
			}
			put(blk[483:495], len(e.D))
		})
		for len(segs) > 0 {
			blk := make([]byte, 512)
			for k := 0; k < 21 && len(segs) > 0; k++ {
				entry(blk[24*k:])
			}
			if len(segs) > 0 {
				blk[504] = 1
			}
			b.Write(blk)
		}
	case "pax":
		recs := ""
		for _, kv := range [][2]string{{"GNU.sparse.major", "1"}, {"GNU.sparse.minor", "0"}, {"GNU.sparse.name", e.N}, {"GNU.sparse.realsize", fmt.Sprint(len(e.D))}} {
			r := " " + kv[0] + "=" + kv[1] + "\n"
			n := len(r) + 2
			if n >= 100 {
				n++
			}
			recs += fmt.Sprint(n) + r
		}
		head(&tar.Header{Name: "PaxHeaders.0/x", Typeflag: tar.TypeReg, Mode: 0o644, Size: int64(len(recs)), Format: tar.FormatUSTAR}, func(blk []byte) { blk[156] = 'x' })
		if _, err := w.Write([]byte(recs)); err != nil {
			panic(err)
		}
		m := fmt.Sprintf("%d\n", len(segs))
		for _, s := range segs {
			m += fmt.Sprintf("%d\n%d\n", s[0], s[1])
		}
		m += strings.Repeat("\x00", (512-len(m)%512)%512)
		phys = append([]byte(m), phys...)
		h.Name, h.Format, h.Size = "GNUSparseFile.0/x", tar.FormatUSTAR, int64(len(phys))
		head(h, func([]byte) {})
	default:
		panic("ill-formed case")
	}
	if _, err := w.Write(phys); err != nil {
		panic(err)
	}
}

func gz(b []byte) []byte {
	var o bytes.Buffer
	w, _ := gzip.NewWriterLevel(&o, 6)
	_, _ = w.Write(b)
	_ = w.Close()
	return o.Bytes()
}

func gunzip(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// rdTar reads a complete, well-formed archive.
func rdTar(b []byte) ([]TE, error) {
	if len(b) < 1024 || len(b)%512 != 0 {
		return nil, fmt.Errorf("not a complete archive: %d bytes", len(b))
	}
	rd := bytes.NewReader(b)
	r := tar.NewReader(rd)
	var out []TE
	for {
		h, err := r.Next()
		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		if h.Typeflag == tar.TypeXGlobalHeader {
			continue // about the archive, not a file
		}
		e := TE{N: h.Name, M: h.Mode, U: h.Uid, G: h.Gid, UN: h.Uname, GN: h.Gname, L: h.Linkname, D: d, J: h.Devmajor, K: h.Devminor, F: int(h.Format)}
		for k, v := range typeflags {
			if h.Typeflag == v {
				e.T = k
			}
		}
		if h.Typeflag == tar.TypeRegA || h.Typeflag == tar.TypeGNUSparse {
			e.T = "f"
		}
		if (e.T == "l" || e.T == "h") && h.Size != 0 {
			return nil, fmt.Errorf("%s: a link entry with a size of %d", h.Name, h.Size)
		}
		if e.T == "" {
			return nil, fmt.Errorf("%s: unexpected type %q", h.Name, h.Typeflag)
		}
		if !h.ModTime.IsZero() {
			e.MT = h.ModTime.UnixNano()
		}
		if !h.AccessTime.IsZero() {
			e.AT = h.AccessTime.UnixNano()
		}
		if !h.ChangeTime.IsZero() {
			e.CT = h.ChangeTime.UnixNano()
		}
		for k, v := range h.PAXRecords {
			if strings.HasPrefix(k, "SCHILY.xattr.") {
				if e.X == nil {
					e.X = map[string]string{}
				}
				e.X[strings.TrimPrefix(k, "SCHILY.xattr.")] = v
			} else if strings.Contains(k, ".") && !strings.HasPrefix(k, "GNU.sparse.") || k == "comment" {
				if e.X == nil {
					e.X = map[string]string{}
				}
				e.X["!"+k] = v
			}
		}
		out = append(out, e)
	}
	// a complete archive ends with two blocks of zeros
	if !bytes.Equal(b[len(b)-1024:], make([]byte, 1024)) {
		return nil, fmt.Errorf("the archive has no end-of-archive marker")
	}
	return out, nil
}

func dumpTE(es []TE) string {
	var sb strings.Builder
	for _, e := range es {
		fmt.Fprintf(&sb, "%s %s mode=%o %d:%d(%s:%s) mt=%d", e.T, e.N, e.M, e.U, e.G, e.UN, e.GN, e.MT)
		if e.L != "" {
			fmt.Fprintf(&sb, " -> %s", e.L)
		}
		if e.T == "f" {
			fmt.Fprintf(&sb, " %q", trunc(string(e.D), 60))
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

// cli makes the scenario of a run of the command line program.
func cli(args ...string) *proto.Scenario {
	return &proto.Scenario{
		Prog: "cli", Args: append([]string{}, args...),
		Env:   []string{"PATH=/usr/bin:/bin", "HOME=/root"},
		Cwd:   "/work",
		Umask: 0o22,
		FS: []proto.Node{
			{P: "/work", T: "d", M: 0o755},
			{P: "/tmp", T: "d", M: 0o1777},
		},
		Start: 1700000000e9,
		Tick:  1000,
	}
}

func env(sc *proto.Scenario, kv string) {
	k := kv[:strings.Index(kv, "=")+1]
	for i, e := range sc.Env {
		if strings.HasPrefix(e, k) {
			sc.Env[i] = kv
			return
		}
	}
	sc.Env = append(sc.Env, kv)
}

func addFile(sc *proto.Scenario, p string, d []byte) {
	sc.FS = append(sc.FS, proto.Node{P: p, T: "f", M: 0o644, D: d, MT: 1600000000e9})
}

// Sched is how a run is scheduled.
type Sched struct {
	Seed    uint64 `json:"seed,omitempty"`
	Random  bool   `json:"random,omitempty"`
	Yield   uint32 `json:"yield,omitempty"`
	Limit   uint64 `json:"limit,omitempty"`
	ReadMax int    `json:"readmax,omitempty"`
	PipeCap int    `json:"pipecap,omitempty"`
	DirSeed uint64 `json:"dirseed,omitempty"`
	TmpDev  bool   `json:"tmpdev,omitempty"`
}

func genSched(r *Rand) Sched {
	s := Sched{Seed: r.U64()}
	if r.P(1, 2) {
		s.Random = true
		if r.P(1, 2) {
			s.Yield = uint32(r.PickI(2, 8, 64, 512))
		}
	}
	if r.P(1, 3) {
		s.ReadMax = r.PickI(7, 64, 100, 511, 512, 513, 4096)
	}
	if r.P(1, 4) {
		s.PipeCap = r.PickI(1, 16, 512, 4096)
	}
	s.DirSeed = r.U64()
	s.TmpDev = r.P(1, 3)
	return s
}

func (s Sched) apply(sc *proto.Scenario) {
	sc.Seed = s.Seed
	sc.SchedRandom = s.Random
	sc.SchedLimit = s.Limit
	sc.YieldNum = s.Yield
	sc.ReadMax = s.ReadMax
	sc.PipeCap = s.PipeCap
	sc.DirSeed = s.DirSeed
	sc.TmpDev = s.TmpDev
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
