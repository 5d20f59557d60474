package main

import (
	"encoding/json"
	"fmt"
	"html"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"verif/sim/proto"
)

// C10: selection of a wheel.

// PV is a version (PEP 440).
type PV struct {
	E    int    `json:"e,omitempty"`
	R    []int  `json:"r"`
	PL   string `json:"pl,omitempty"` // a, b, rc
	PN   int    `json:"pn,omitempty"`
	Post int    `json:"post,omitempty"` // 1-based
	Dev  int    `json:"dev,omitempty"`  // 1-based
	L    string `json:"l,omitempty"`
	S    int    `json:"s,omitempty"` // spelling
}

func (v PV) valid() bool {
	if len(v.R) == 0 || v.E < 0 || v.Post < 0 || v.Dev < 0 || v.PN < 0 {
		return false
	}
	for _, n := range v.R {
		if n < 0 {
			return false
		}
	}
	return v.PL == "" && v.PN == 0 || v.PL == "a" || v.PL == "b" || v.PL == "rc"
}

func (v PV) String() string {
	var b strings.Builder
	if v.S&1 != 0 {
		b.WriteString("v")
	}
	if v.E > 0 {
		fmt.Fprintf(&b, "%d!", v.E)
	}
	for i, n := range v.R {
		if i > 0 {
			b.WriteString(".")
		}
		if v.S&2 != 0 && i > 0 {
			b.WriteString("0")
		}
		b.WriteString(strconv.Itoa(n))
	}
	sep := ""
	if v.S&4 != 0 {
		sep = "_"
	}
	if v.PL != "" {
		l := v.PL
		if v.S&8 != 0 {
			l = map[string]string{"a": "alpha", "b": "Beta", "rc": "c"}[l]
		}
		b.WriteString(sep + l)
		if v.PN > 0 || v.S&16 == 0 {
			fmt.Fprintf(&b, "%s%d", sep, v.PN)
		}
	}
	if v.Post > 0 {
		w := ".post"
		switch {
		case v.S&8 != 0:
			w = ".rev"
		case v.S&4 != 0:
			w = "_POST"
		}
		fmt.Fprintf(&b, "%s%d", w, v.Post-1)
	}
	if v.Dev > 0 {
		w := ".dev"
		if v.S&4 != 0 {
			w = "dev"
		}
		fmt.Fprintf(&b, "%s%d", w, v.Dev-1)
	}
	if v.L != "" {
		b.WriteString("+" + v.L)
	}
	return b.String()
}

func (v PV) public() PV { v.L = ""; return v }
func (v PV) pre() bool  { return v.PL != "" || v.Dev > 0 }

// key orders versions lexicographically.
func (v PV) key() []int {
	k := []int{v.E}
	for i := 0; i < 6; i++ {
		n := 0
		if i < len(v.R) {
			n = v.R[i]
		}
		k = append(k, n)
	}
	inf := 1 << 40
	switch {
	case v.PL == "" && v.Post == 0 && v.Dev > 0:
		k = append(k, -inf, 0)
	case v.PL == "":
		k = append(k, inf, 0)
	default:
		k = append(k, map[string]int{"a": 0, "b": 1, "rc": 2}[v.PL], v.PN)
	}
	if v.Post == 0 {
		k = append(k, -inf)
	} else {
		k = append(k, v.Post)
	}
	if v.Dev == 0 {
		k = append(k, inf)
	} else {
		k = append(k, v.Dev)
	}
	return k
}

func cmpPV(a, b PV) int {
	x, y := a.key(), b.key()
	for i := range x {
		if x[i] != y[i] {
			if x[i] < y[i] {
				return -1
			}
			return 1
		}
	}
	return cmpLocalPV(a.L, b.L)
}

func cmpLocalPV(a, b string) int {
	split := func(s string) []string {
		return strings.FieldsFunc(strings.ToLower(s), func(r rune) bool { return r == '.' || r == '_' })
	}
	x, y := split(a), split(b)
	for i := 0; i < len(x) || i < len(y); i++ {
		if i >= len(x) {
			return -1
		}
		if i >= len(y) {
			return 1
		}
		n, e1 := strconv.Atoi(x[i])
		m, e2 := strconv.Atoi(y[i])
		switch {
		case e1 == nil && e2 == nil && n != m:
			if n < m {
				return -1
			}
			return 1
		case e1 == nil && e2 == nil:
		case e1 == nil:
			return 1
		case e2 == nil:
			return -1
		case x[i] != y[i]:
			if x[i] < y[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func relOf(v PV) PV { return PV{E: v.E, R: v.R} }

// Clause is one clause of a specifier.
type Clause struct {
	Op string `json:"op"` // ~= == != <= >= < > ==* !=*
	V  PV     `json:"v"`
	Sp int    `json:"sp,omitempty"`
}

func (c Clause) String() string {
	op, star := c.Op, ""
	if strings.HasSuffix(op, "*") {
		op, star = strings.TrimSuffix(op, "*"), ".*"
	}
	s := op
	if c.Sp&1 != 0 {
		s += " "
	}
	s += c.V.String() + star
	if c.Sp&2 != 0 {
		s = " " + s + " "
	}
	return s
}

func (c Clause) valid() bool {
	if !c.V.valid() {
		return false
	}
	switch c.Op {
	case "~=":
		return len(c.V.R) >= 2 && c.V.L == ""
	case "==", "!=":
		return true
	case "==*", "!=*":
		return c.V.L == "" && c.V.Dev == 0
	case "<=", ">=", "<", ">":
		return c.V.L == ""
	}
	return false
}

func prefixPV(spec, v PV) bool {
	if spec.E != v.E {
		return false
	}
	at := func(r []int, i int) int {
		if i < len(r) {
			return r[i]
		}
		return 0
	}
	n := len(spec.R)
	if spec.PL != "" || spec.Post > 0 {
		if len(v.R) > n {
			n = len(v.R)
		}
	}
	for i := 0; i < n; i++ {
		if at(spec.R, i) != at(v.R, i) {
			return false
		}
	}
	if spec.PL == "" && spec.Post == 0 {
		return true
	}
	if spec.PL != v.PL || spec.PN != v.PN {
		return false
	}
	return spec.Post == 0 || spec.Post == v.Post
}

// match: 0 no, 1 yes, 2 open.
func (c Clause) match(v PV) int {
	yes := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	d := cmpPV(v.public(), c.V.public())
	sameRel := cmpPV(relOf(v), relOf(c.V)) == 0
	switch c.Op {
	case "==", "!=":
		m := d == 0 && (c.V.L == "" || cmpLocalPV(c.V.L, v.L) == 0)
		return yes(m == (c.Op == "=="))
	case "==*", "!=*":
		return yes(prefixPV(c.V, v) == (c.Op == "==*"))
	case "~=":
		return yes(d >= 0 && prefixPV(PV{E: c.V.E, R: c.V.R[:len(c.V.R)-1]}, v))
	case "<=":
		return yes(d <= 0)
	case ">=":
		return yes(d >= 0)
	case "<":
		if d < 0 && sameRel && !c.V.pre() && v.pre() {
			return 2 // PEP 440 says no; the test suite insists on yes
		}
		return yes(d < 0)
	case ">":
		if d > 0 && c.V.Post == 0 && v.Post > 0 && sameRel {
			if v.PL == c.V.PL && v.PN == c.V.PN && c.V.Dev == 0 {
				return 0
			}
			return 2 // is it a post-release "of the given version"?
		}
		return yes(d > 0)
	}
	panic("ill-formed case")
}

// matchPython is match for a requirement on the version of Python: where PEP
// 345 and PEP 440 differ, the result is 4 if only PEP 345 allows it, 5 if only
// PEP 440 does.
func (c Clause) matchPython(v PV) int {
	m := c.match(v)
	old := m
	switch c.Op {
	case "==", "!=":
		p := c.V
		ok := prefixPV(p, v) && cmpPV(v.public(), p.public()) >= 0
		if p.Dev != 0 || p.L != "" {
			ok = cmpPV(v.public(), p.public()) == 0
		} else if v.Dev != 0 || v.Post > 0 && p.Post == 0 || v.PL != "" && p.PL == "" {
			ok = false
		}
		old = 0
		if ok == (c.Op == "==") {
			old = 1
		}
	case ">":
		if cmpPV(v, c.V) > 0 {
			old = 1
		}
	}
	switch {
	case m == old || m == 2:
		return m
	case old == 1:
		return 4
	}
	return 5
}

// Cand is a wheel on the page.
type Cand struct {
	Dist  string   `json:"dist"`
	V     PV       `json:"v"`
	Build string   `json:"build,omitempty"`
	Tag   string   `json:"tag"`
	Yank  string   `json:"yank,omitempty"`
	Py    []Clause `json:"py,omitempty"`
	Sum   string   `json:"sum,omitempty"`
}

func (c Cand) file() string {
	s := c.Dist + "-" + c.V.String()
	if c.Build != "" {
		s += "-" + c.Build
	}
	return s + "-" + c.Tag + ".whl"
}

func specText(cs []Clause) string {
	var s []string
	for _, c := range cs {
		s = append(s, c.String())
	}
	return strings.Join(s, ",")
}

type selCase struct {
	Dist   string       `json:"dist"`
	Base   string       `json:"base"`
	Python *PV          `json:"python,omitempty"`
	Info   bool         `json:"info,omitempty"` // Python as sys.version_info
	Tags   []string     `json:"tags"`
	Cands  []Cand       `json:"cands,omitempty"`
	Junk   []string     `json:"junk,omitempty"`
	Specs  [][][]Clause `json:"specs"` // per thread, per call
	Get    bool         `json:"get,omitempty"`
	Perm   uint64       `json:"perm,omitempty"`
	Page   proto.Reply  `json:"page"`
	Dial   []string     `json:"dial,omitempty"`
	Sched  Sched        `json:"sched"`
}

func tagSet(t string) map[string]bool {
	p := strings.Split(t, "-")
	if len(p) != 3 {
		panic("ill-formed case")
	}
	out := map[string]bool{}
	for _, a := range strings.Split(p[0], ".") {
		for _, b := range strings.Split(p[1], ".") {
			for _, c := range strings.Split(p[2], ".") {
				out[a+"-"+b+"-"+c] = true
			}
		}
	}
	return out
}

func (c *selCase) rank(tag string) int {
	set := tagSet(tag)
	for i, t := range c.Tags {
		for k := range tagSet(t) {
			if set[k] {
				return i
			}
		}
	}
	return -1
}

func buildKey(s string) (int, string) {
	if s == "" {
		return -1, ""
	}
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	n, err := strconv.Atoi(s[:i])
	if err != nil {
		panic("ill-formed case")
	}
	return n, s[i:]
}

// winners: what may be selected from the given candidates; none means an error.
func (c *selCase) winners(cands []Cand, spec []Clause) (map[string]bool, bool) {
	ok := map[string]bool{}
	none := false
	asked := false
	for _, cl := range spec {
		asked = asked || cl.V.pre() && cl.Op != "!=" && cl.Op != "!=*"
	}
	for world := 0; world < 16; world++ {
		if world&2 != 0 && !asked {
			continue
		}
		var q []Cand
	next:
		for _, k := range cands {
			if c.rank(k.Tag) < 0 {
				continue
			}
			if c.Python != nil {
				for _, p := range k.Py {
					m := p.matchPython(*c.Python)
					for _, o := range k.Py {
						if m > 3 && (o.Op == "~=" || strings.HasSuffix(o.Op, "*")) {
							m = p.match(*c.Python) // PEP 345 has no such operators
						}
					}
					if m == 0 || m == 2 && world&4 == 0 || m == 4 && world&8 == 0 || m == 5 && world&8 != 0 {
						continue next
					}
				}
			}
			for _, cl := range spec {
				switch cl.match(k.V) {
				case 0:
					continue next
				case 2:
					if world&1 == 0 {
						continue next
					}
				}
			}
			q = append(q, k)
		}
		filter := func(f func(Cand) bool) {
			var r []Cand
			for _, k := range q {
				if f(k) {
					r = append(r, k)
				}
			}
			if len(r) > 0 {
				q = r
			}
		}
		filter(func(k Cand) bool { return k.Yank == "" })
		if world&2 == 0 {
			filter(func(k Cand) bool { return !k.V.pre() })
		}
		if len(q) == 0 {
			none = true
			continue
		}
		better := func(a, b Cand) int {
			if d := cmpPV(a.V, b.V); d != 0 {
				return d
			}
			if d := c.rank(b.Tag) - c.rank(a.Tag); d != 0 {
				return d
			}
			n, s := buildKey(a.Build)
			m, t := buildKey(b.Build)
			if n != m {
				return n - m
			}
			return strings.Compare(s, t)
		}
		best := q[0]
		for _, k := range q {
			if better(k, best) > 0 {
				best = k
			}
		}
		for _, k := range q {
			if better(k, best) == 0 {
				ok[k.file()] = true
			}
		}
	}
	return ok, none
}

func (c *selCase) content(i int) []byte {
	return []byte("wheel " + strconv.Itoa(i) + " " + c.Cands[i].file())
}

func (c *selCase) fileURL(i int) string {
	return fmt.Sprintf("http://files.test/p/%d/%s", i, url.PathEscape(c.Cands[i].file()))
}

func (c *selCase) anchor(i int) string {
	k := c.Cands[i]
	s := fmt.Sprintf(`<a href="%s`, c.fileURL(i))
	if k.Sum != "" {
		h := hashHex(k.Sum, c.content(i))
		if h == "" {
			panic("ill-formed case")
		}
		s += "#" + k.Sum + "=" + h
	}
	s += `"`
	if len(k.Py) > 0 {
		s += fmt.Sprintf(` data-requires-python="%s"`, html.EscapeString(specText(k.Py)))
	}
	switch k.Yank {
	case "":
	case "empty":
		s += ` data-yanked=""`
	default:
		s += fmt.Sprintf(` data-yanked="%s"`, html.EscapeString(k.Yank))
	}
	return s + ">" + html.EscapeString(k.file()) + "</a><br/>\n"
}

func (c *selCase) pageHTML(perm uint64) []byte {
	var lines []string
	for i := range c.Cands {
		lines = append(lines, c.anchor(i))
	}
	for i, j := range c.Junk {
		lines = append(lines, fmt.Sprintf("<a href=\"http://files.test/j/%d\">%s</a>\n", i, html.EscapeString(j)))
	}
	if perm != 0 {
		r := NewRand("perm", perm)
		r.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	}
	return []byte("<!DOCTYPE html>\n<html><body>\n" + strings.Join(lines, "") + "</body></html>\n")
}

func (c *selCase) scenario(perm uint64, page proto.Reply) *proto.Scenario {
	sc := cli()
	sc.Prog = "index"
	arg := proto.IndexArg{Base: c.Base, Tags: c.Tags}
	if c.Python != nil {
		if !c.Python.valid() {
			panic("ill-formed case")
		}
		arg.Python = c.Python.String()
		if p := c.Python; c.Info && len(p.R) == 3 && p.E == 0 && p.Post == 0 && p.Dev == 0 && p.L == "" {
			arg.Python = ""
			arg.Info = &proto.VersionInfo{Major: p.R[0], Minor: p.R[1], Micro: p.R[2], Serial: p.PN,
				Level: map[string]string{"": "final", "a": "alpha", "b": "beta", "rc": "candidate"}[p.PL]}
		}
	}
	for _, t := range c.Tags {
		tagSet(t)
	}
	mustURL(strings.TrimRight(c.Base, "/") + "/x")
	if c.Dist == "" || illegalDist(c.Dist) || len(c.Specs) == 0 {
		panic("ill-formed case")
	}
	for _, k := range c.Cands {
		if !k.V.valid() || k.Dist == "" || illegalDist(k.Dist) || strings.Contains(k.Dist+k.V.String()+k.Build, "-") {
			panic("ill-formed case")
		}
		tagSet(k.Tag)
		buildKey(k.Build)
		for _, p := range k.Py {
			if !p.valid() {
				panic("ill-formed case")
			}
		}
	}
	for _, t := range c.Specs {
		var calls []proto.IndexCall
		for _, s := range t {
			for _, cl := range s {
				if !cl.valid() {
					panic("ill-formed case")
				}
			}
			calls = append(calls, proto.IndexCall{Pkg: c.Dist, Spec: specText(s), Get: c.Get})
		}
		arg.Threads = append(arg.Threads, calls)
	}
	sc.ProgArg, _ = json.Marshal(arg)
	page.Body = c.pageHTML(perm)
	if page.Status == 0 {
		page.Status = 200
	}
	sc.Routes = []proto.Route{{Path: strings.TrimRight(c.Base, "/") + "/" + normProject(c.Dist), Replies: []proto.Reply{page}}}
	for i := range c.Cands {
		sc.Routes = append(sc.Routes, proto.Route{Path: c.fileURL(i), Replies: []proto.Reply{{Status: 200, Body: c.content(i)}}})
	}
	c.Sched.apply(sc)
	sc.SchedLimit = 0
	return sc
}

func idxRes(r *proto.Result) proto.IndexRes {
	var out proto.IndexRes
	if err := json.Unmarshal(r.Prog, &out); err != nil {
		infra("no result of the client: %v: %s", err, trunc(string(r.Stderr), 500))
	}
	return out
}

func checkSel(x *X, ci interface{}) *Violation {
	c := ci.(*selCase)
	texts := map[string]bool{}
	for _, k := range c.Cands {
		if !k.V.valid() || texts[k.file()] {
			panic("ill-formed case")
		}
		texts[k.file()] = true
	}
	sc := c.scenario(0, c.Page)
	for _, d := range c.Dial {
		if d != "" && d != "slow" && d != "refuse" && d != "unreach" {
			panic("ill-formed case")
		}
	}
	sc.Dial = c.Dial
	r := x.Run(sc)
	if v := sane(r); v != nil {
		return v
	}
	res := idxRes(r)
	if res.Setup != "" {
		return vio("setup", "%s", res.Setup)
	}
	h := harm(c.Page, r.Fired)
	refused := false
	for _, d := range c.Dial {
		refused = refused || d == "refuse" || d == "unreach"
	}
	if len(r.Requests) > 0 && len(c.Dial) == 0 && !strings.HasSuffix(r.Requests[0], "/"+normProject(c.Dist)) {
		return vio("request", "the project page is asked for as %q", r.Requests[0])
	}
	cuts := []int{len(c.Cands)}
	if h == 3 && c.Page.Flip == 0 {
		cuts = nil
		for i := range c.Cands {
			cuts = append(cuts, i)
		}
		cuts = append(cuts, len(c.Cands))
	}
	for ti, t := range c.Specs {
		for oi, spec := range t {
			o := res.Threads[ti][oi]
			if o.SpecErr != "" {
				return vio("specifier", "the specifier %q is refused: %s", specText(spec), o.SpecErr)
			}
			ok := map[string]bool{}
			none := false
			for _, n := range cuts {
				w, no := c.winners(c.Cands[:n], spec)
				for k := range w {
					ok[k] = true
				}
				none = none || no
			}
			var want []string
			for k := range ok {
				want = append(want, k)
			}
			sort.Strings(want)
			if o.Err == "" && o.Text == "" {
				return vio("nothing", "specifier %q: neither a wheel nor an error", specText(spec))
			}
			if o.Err != "" {
				if h == 1 || h == 2 || h == 3 || refused || none {
					if none {
						x.Probe("no-candidate")
					}
					continue
				}
				return vio("refused", "specifier %q: one of %q qualifies, but: %s", specText(spec), want, trunc(o.Err, 300))
			}
			if h == 1 {
				return vio("load", "specifier %q: the page could not be loaded, but %q is selected", specText(spec), o.Text)
			}
			if c.Page.Flip > 0 {
				continue
			}
			if !ok[o.Text] {
				return vio("choice", "specifier %q on %d candidates: %q is selected, but should be one of %q (or an error: %v)", specText(spec), len(c.Cands), o.Text, want, none)
			}
			x.Probe("selected")
			at := -1
			for i, k := range c.Cands {
				if k.file() == o.Text {
					at = i
				}
			}
			if strings.SplitN(o.HRef, "#", 2)[0] != c.fileURL(at) {
				return vio("href", "%q is said to be at %q instead of %q", o.Text, o.HRef, c.fileURL(at))
			}
			if c.Get && !refused && (o.GetErr != "" || string(o.Data) != string(c.content(at))) {
				return vio("get", "the download of %q fails: %s (%d bytes)", o.Text, o.GetErr, len(o.Data))
			}
		}
	}
	if c.Perm != 0 && h == 0 && !refused {
		r2 := x.Run(c.scenario(c.Perm, proto.Reply{Mode: "chunked", Chunk: 50}))
		if v := sane(r2); v != nil {
			return v
		}
		res2 := idxRes(r2)
		for ti, t := range c.Specs {
			for oi, spec := range t {
				a, b := res.Threads[ti][oi], res2.Threads[ti][oi]
				if a.Text != b.Text || (a.Err == "") != (b.Err == "") {
					return vio("order", "specifier %q: %q is selected, or %q if the links are in another order", specText(spec), a.Text+a.Err, b.Text+b.Err)
				}
			}
		}
		x.Probe("permuted")
	}
	return nil
}

func genPV(r *Rand, local bool) PV {
	v := PV{R: []int{r.N(3)}}
	for k := r.N(3); k > 0; k-- {
		v.R = append(v.R, r.PickI(0, 0, 1, 2, 10))
	}
	if r.P(1, 12) {
		v.E = 1
	}
	if r.P(1, 4) {
		v.PL, v.PN = r.Pick("a", "b", "rc"), r.PickI(0, 1, 2, 10)
	}
	if r.P(1, 6) {
		v.Post = r.PickI(1, 2, 3, 12)
	}
	if r.P(1, 6) {
		v.Dev = r.PickI(1, 2, 3)
	}
	if local && r.P(1, 8) {
		v.L = r.Pick("1", "2", "10", "cpu", "Abc", "abc.1", "cpu.2", "1.cpu")
	}
	return v
}

// kin is a version like v.
func kin(r *Rand, v PV) PV {
	v.R = append([]int{}, v.R...)
	v.S = 0
	v.L = ""
	switch r.N(8) {
	case 0:
		v.Post, v.Dev = 0, 0
		v.PL, v.PN = "", 0
	case 1:
		v.Post = r.PickI(0, 1, 2)
	case 2:
		v.Dev = r.PickI(0, 1, 2)
	case 3:
		if v.PL == "" {
			v.PL, v.PN = r.Pick("a", "b", "rc"), r.PickI(0, 1)
		} else {
			v.PL, v.PN = "", 0
		}
	case 4:
		v.R = append(v.R, 0)
	case 5:
		if len(v.R) > 1 {
			v.R = v.R[:len(v.R)-1]
		}
	case 6:
		v.R[r.N(len(v.R))]++
	}
	return v
}

func genClause(r *Rand, base []PV) Clause {
	var c Clause
	for {
		c = Clause{Op: r.Pick("~=", "==", "==", "!=", "!=", "<=", ">=", ">=", "<", ">", "==*", "!=*"), Sp: r.N(4)}
		c.V = genPV(r, false)
		if len(base) > 0 && r.P(3, 4) {
			c.V = base[r.N(len(base))]
			if r.P(2, 3) {
				c.V = kin(r, c.V)
			}
		}
		c.V.S = 0
		if r.P(1, 6) {
			c.V.S = r.N(32)
		}
		if c.valid() {
			return c
		}
	}
}

func genSel(r *Rand, i int) interface{} {
	c := &selCase{Sched: genSched(r), Base: r.Pick("http://idx.test/simple/", "http://idx.test/simple")}
	c.Dist = r.Pick("foo", "Foo_Bar", "foo.bar")
	tags := []string{"cp39-cp39-manylinux_2_17_x86_64", "cp39-cp39-manylinux2014_x86_64", "cp39-cp39-linux_x86_64", "cp39-abi3-linux_x86_64", "cp38-abi3-linux_x86_64", "cp39-none-any", "py39-none-any", "py3-none-any", "py38-none-any"}
	r.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
	c.Tags = tags[:r.Range(2, len(tags))]
	if r.P(1, 8) {
		c.Tags = append(c.Tags, "py2.py3-none-any")
	}
	if r.P(2, 3) {
		c.Python = &PV{R: []int{3, r.PickI(6, 7, 8, 9, 10), r.N(3)}}
		if r.P(1, 5) {
			c.Python.PL, c.Python.PN = r.Pick("a", "b", "rc"), r.PickI(1, 1, 2, 3)
		}
		c.Info = r.P(1, 2)
	}
	var vs []PV
	n := r.Range(1, 9)
	for k := 0; k < n; k++ {
		v := genPV(r, true)
		if len(vs) > 0 && r.P(2, 3) {
			l := v.L
			v = vs[r.N(len(vs))]
			if r.P(1, 2) {
				v = kin(r, v)
				v.L = l
			}
		}
		v.S = 0
		if r.P(1, 6) {
			v.S = r.N(32)
		}
		vs = append(vs, v)
		k := Cand{Dist: strings.ReplaceAll(c.Dist, "-", "_"), V: v, Tag: r.Pick(c.Tags...)}
		switch r.N(8) {
		case 0:
			k.Tag = r.Pick("cp27-cp27mu-linux_x86_64", "py2-none-any", "cp39-cp39-win_amd64", "cp311-none-any")
		case 1:
			k.Tag = r.Pick("py2.py3-none-any", "cp38.cp39-abi3.none-linux_x86_64.any", "cp39-cp39-manylinux_2_17_x86_64.manylinux2014_x86_64", "py38.py39-none-any")
		}
		if r.P(1, 3) {
			k.Build = r.Pick("1", "2", "10", "1a", "1b", "0", "2_local")
		}
		if r.P(1, 5) {
			k.Yank = r.Pick("empty", "broken", "a \"bad\" one")
		}
		if r.P(1, 4) {
			for m := r.Range(1, 2); m > 0; m-- {
				k.Py = append(k.Py, Clause{Op: r.Pick(">=", ">=", "<", ">=", "<", "!=*", "~=", ">", "<=", "==", "!="), V: PV{R: []int{3, r.PickI(6, 7, 8, 9, 10)}}, Sp: r.N(4)})
				if l := &k.Py[len(k.Py)-1]; c.Python != nil && l.Op != "!=*" && r.P(1, 5) {
					l.V = *c.Python
					l.V.R = append([]int{}, l.V.R...)
					if r.P(1, 2) {
						l.V.PL, l.V.PN = r.Pick("a", "b", "rc"), r.PickI(1, 2)
					}
				}
			}
		}
		k.Sum = r.Pick("", "sha256", "md5")
		dup := false
		for _, o := range c.Cands {
			dup = dup || o.file() == k.file()
		}
		if !dup {
			c.Cands = append(c.Cands, k)
		}
	}
	for k := r.N(3); k > 0; k-- {
		c.Junk = append(c.Junk, r.Pick(c.Dist+"-9.tar.gz", c.Dist+"-9.0.zip", "not a file", c.Dist+"-99-py3-none-any.whl.asc", c.Dist+"-99.whl", c.Dist+"-9.0-py3-none-any.egg", "x-99-y-py3-none-any.whl"))
	}
	for t := r.PickI(1, 1, 1, 2, 3); t > 0; t-- {
		var th [][]Clause
		for k := r.PickI(1, 1, 2); k > 0; k-- {
			spec := []Clause{}
			for m := r.PickI(0, 1, 1, 1, 2, 3); m > 0; m-- {
				spec = append(spec, genClause(r, vs))
			}
			th = append(th, spec)
		}
		c.Specs = append(c.Specs, th)
	}
	c.Get = r.P(1, 4)
	if r.P(1, 2) {
		c.Perm = 1 + r.U64()>>1
	}
	c.Page = genReplyWays(r)
	return c
}

func init() {
	properties["C10"] = &Property{
		ID: "C10", New: func() interface{} { return &selCase{} }, Gen: genSel, Check: checkSel,
		Quick: 18000, Thorough: 400000,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := ci.(*selCase)
			if !r.P(1, 2) {
				return nil
			}
			cc := *c
			cc.Perm = 0
			if r.P(1, 5) {
				cc.Dial = append(make([]string, r.N(2)), r.Pick("refuse", "unreach", "slow"))
			} else {
				hurt(r, &cc.Page, len(c.pageHTML(0)))
			}
			return []interface{}{&cc}
		},
		Rule:   "Workloads: seeded index pages of up to nine wheels (versions with every kind of segment in several spellings, close to each other; build numbers; plain and compressed tags; required Pythons; yanked files) and other links, specifiers built from versions close to those, platforms (ordered tags, Python version), one to three concurrent clients; each choice is compared with a reference selection and with that for the links in another order; variants add one network fault to the page.",
		Real:   []string{"SelectWheel, the simple API client, version, specifier, tag and metadata code, net/http client, golang.org/x/net/html"},
		Stub:   []string{"the kernel", "network connections and the index server"},
		Assume: []string{"a page whose transfer ends with the connection may be truncated unnoticed", "left open: whether '<V' includes pre-releases of V (PEP 440 says no, the test suite yes), and whether a specifier that names a pre-release asks for pre-releases in general"},
	}
}
