package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"html"
	"net/url"
	"path"
	"regexp"
	"strings"

	"verif/sim/proto"
)

// C09: downloads from an index server.

// Anchor is a link on an index page.
type Anchor struct {
	Text  string   `json:"text"`
	Deco  string   `json:"deco,omitempty"` // how the text is written: plain, entity, nested, space, comment
	File  int      `json:"file"`           // what it leads to
	Form  string   `json:"form,omitempty"` // abs, rel, root, proto, missing (no such file), nohref
	Sums  []string `json:"sums,omitempty"` // ALGO:good|bad|upper|other|text
	Attrs []string `json:"attrs,omitempty"`
	Upper bool     `json:"upper,omitempty"`
}

// WebFile is a file on the server.
type WebFile struct {
	URL   string      `json:"url"`
	D     []byte      `json:"d,omitempty"`
	Redir []string    `json:"redir,omitempty"` // URL answers by leading there, and so on
	Code  int         `json:"code,omitempty"`
	Reply proto.Reply `json:"reply"`
}

type getCase struct {
	Name   string        `json:"name"`
	Dist   string        `json:"dist"`
	Base   string        `json:"base"`
	Slash  bool          `json:"slash,omitempty"` // the page's proper URL ends with a slash; others lead there
	Page   WebFile       `json:"page"`            // D is not used
	Meta   string        `json:"meta,omitempty"`
	Junk   string        `json:"junk,omitempty"`
	Links  []Anchor      `json:"links,omitempty"`
	Files  []WebFile     `json:"files,omitempty"`
	Dial   []string      `json:"dial,omitempty"`
	Faults []proto.Fault `json:"faults,omitempty"`
	Sched  Sched         `json:"sched"`
	Lib    bool          `json:"lib,omitempty"`  // by the library instead of the command
	Asc    bool          `json:"asc,omitempty"`  // the files have signatures
	Root   string        `json:"root,omitempty"` // the library takes the project's page from the list of projects: abs, rel, root
}

func hashHex(algo string, d []byte) string {
	switch algo {
	case "md5":
		h := md5.Sum(d)
		return hex.EncodeToString(h[:])
	case "sha1":
		h := sha1.Sum(d)
		return hex.EncodeToString(h[:])
	case "sha224":
		h := sha256.Sum224(d)
		return hex.EncodeToString(h[:])
	case "sha256":
		h := sha256.Sum256(d)
		return hex.EncodeToString(h[:])
	case "sha384":
		h := sha512.Sum384(d)
		return hex.EncodeToString(h[:])
	case "sha512":
		h := sha512.Sum512(d)
		return hex.EncodeToString(h[:])
	}
	return ""
}

var webAlgos = []string{"md5", "sha1", "sha224", "sha256", "sha384", "sha512"}

func (a Anchor) fragment(d []byte) string {
	var s []string
	for _, k := range a.Sums {
		p := strings.SplitN(k, ":", 2)
		if len(p) != 2 {
			panic("ill-formed case")
		}
		h := hashHex(p[0], d)
		switch p[1] {
		case "good":
			if h == "" {
				panic("ill-formed case")
			}
		case "upper":
			h = strings.ToUpper(h)
		case "bad":
			h = hashHex(p[0], append([]byte("x"), d...))
		case "short":
			if len(h) < 8 {
				panic("ill-formed case")
			}
			h = h[:len(h)-2]
		case "empty":
			h = ""
		default:
			h = p[1]
		}
		s = append(s, p[0]+"="+h)
	}
	return strings.Join(s, "&")
}

// verdict of the checksums: 1 some are wrong, -1 it is open, 0 they are right.
func (a Anchor) sums() int {
	v := 0
	for _, k := range a.Sums {
		p := strings.SplitN(k, ":", 2)
		known := contains(webAlgos, p[0])
		switch {
		case !known && !regexp.MustCompile(`^[a-z]+$`).MatchString(p[0]), !known && p[0] != "egg":
			if v == 0 {
				v = -1
			}
		case !known:
		case p[1] == "upper":
			if v == 0 {
				v = -1
			}
		case p[1] != "good":
			v = 1
		}
	}
	return v
}

// strong: at least one checksum that the client must verify.
func (a Anchor) strong() bool {
	for _, k := range a.Sums {
		if p := strings.SplitN(k, ":", 2); contains(webAlgos, p[0]) {
			return true
		}
	}
	return false
}

func normProject(s string) string {
	return strings.ToLower(regexp.MustCompile(`[-_.]+`).ReplaceAllString(s, "-"))
}

func illegalDist(s string) bool { return regexp.MustCompile(`[^-A-Za-z0-9._]`).MatchString(s) }

func (c *getCase) pageURL() string {
	if illegalDist(c.Dist) {
		return strings.TrimRight(c.Base, "/") + "/page"
	}
	return strings.TrimRight(c.Base, "/") + "/" + normProject(c.Dist)
}

// final is the URL the page is finally served under.
func (c *getCase) final() string {
	if n := len(c.Page.Redir); n > 0 {
		return c.Page.Redir[n-1]
	}
	if c.Slash {
		return c.pageURL() + "/"
	}
	return c.pageURL()
}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil || u.Host == "" || u.Scheme != "http" || u.Path == "" || u.Fragment != "" {
		panic("ill-formed case")
	}
	return u
}

func (c *getCase) html() []byte {
	var b bytes.Buffer
	fin := mustURL(c.final())
	b.WriteString("<!DOCTYPE html>\n<html>\n  <head>\n")
	if c.Meta != "" {
		fmt.Fprintf(&b, "    <meta name=\"pypi:repository-version\" content=\"%s\">\n", html.EscapeString(c.Meta))
	}
	b.WriteString("    <title>Links</title>\n  </head>\n  <body>\n")
	b.WriteString(c.Junk)
	for _, a := range c.Links {
		if a.File < 0 || a.File >= len(c.Files) || a.Text == "" {
			panic("ill-formed case")
		}
		f := c.Files[a.File]
		href := ""
		target := mustURL(f.URL)
		switch a.Form {
		case "", "abs":
			href = f.URL
		case "proto":
			href = strings.TrimPrefix(f.URL, "http:")
		case "root":
			if target.Host != fin.Host {
				href = f.URL
			} else {
				href = target.RequestURI()
			}
		case "rel":
			if target.Host != fin.Host {
				href = f.URL
			} else {
				n := strings.Count(fin.EscapedPath(), "/") - 1
				href = strings.Repeat("../", n) + strings.TrimPrefix(target.RequestURI(), "/")
			}
		case "missing":
			href = f.URL + ".missing"
		case "nohref":
		default:
			panic("ill-formed case")
		}
		if fr := a.fragment(f.D); fr != "" {
			href += "#" + fr
		}
		tag := "a"
		if a.Upper {
			tag = "A"
		}
		fmt.Fprintf(&b, "    <%s", tag)
		if a.Form != "nohref" {
			fmt.Fprintf(&b, " href=\"%s\"", html.EscapeString(href))
		}
		for _, at := range a.Attrs {
			fmt.Fprintf(&b, " %s", at)
		}
		b.WriteString(">")
		switch a.Deco {
		case "", "plain":
			b.WriteString(html.EscapeString(a.Text))
		case "entity":
			for _, ch := range a.Text {
				fmt.Fprintf(&b, "&#%d;", ch)
			}
		case "nested":
			n := len(a.Text) / 2
			fmt.Fprintf(&b, "<b>%s</b>%s", html.EscapeString(a.Text[:n]), html.EscapeString(a.Text[n:]))
		case "comment":
			n := len(a.Text) / 2
			fmt.Fprintf(&b, "%s<!-- x -->%s", html.EscapeString(a.Text[:n]), html.EscapeString(a.Text[n:]))
		case "space":
			fmt.Fprintf(&b, "\n  %s\n", html.EscapeString(a.Text))
		default:
			panic("ill-formed case")
		}
		fmt.Fprintf(&b, "</%s><br/>\n", tag)
	}
	b.WriteString("  </body>\n</html>\n")
	return b.Bytes()
}

func (f WebFile) routes(d []byte) []proto.Route {
	var rs []proto.Route
	u := f.URL
	code := f.Code
	if code == 0 {
		code = 302
	}
	for _, to := range f.Redir {
		mustURL(to)
		rs = append(rs, proto.Route{Path: u, Replies: []proto.Reply{{Status: code, Headers: map[string]string{"Location": to}}}})
		u = to
	}
	rep := f.Reply
	rep.Body = d
	if rep.Status == 0 {
		rep.Status = 200
	}
	return append(rs, proto.Route{Path: u, Replies: []proto.Reply{rep}})
}

func (c *getCase) scenario() *proto.Scenario {
	mustURL(strings.TrimRight(c.Base, "/") + "/x")
	sc := cli("python", "getwheel", "--index-server="+c.Base, "--", c.Name)
	page := c.html()
	pf := c.Page
	pf.URL = c.pageURL()
	if c.Slash && len(pf.Redir) == 0 {
		pf.Redir = []string{pf.URL + "/"}
		pf.Code = 301
	}
	sc.Routes = pf.routes(page)
	seen := map[string]bool{}
	for _, r := range sc.Routes {
		seen[r.Path] = true
	}
	for _, f := range c.Files {
		for _, r := range f.routes(f.D) {
			if seen[r.Path] {
				panic("ill-formed case")
			}
			seen[r.Path] = true
			sc.Routes = append(sc.Routes, r)
		}
	}
	for _, d := range c.Dial {
		if d != "" && d != "slow" && d != "refuse" && d != "unreach" {
			panic("ill-formed case")
		}
	}
	if c.Asc {
		for _, f := range c.Files {
			sc.Routes = append(sc.Routes, proto.Route{Path: f.URL + ".asc", Replies: []proto.Reply{{Status: 200, Body: []byte("signature of " + f.URL)}}})
		}
	}
	if c.Root != "" {
		if !c.Lib || illegalDist(c.Dist) || seen[c.Base] || !strings.Contains(strings.TrimPrefix(c.Base, "http://"), "/") {
			panic("ill-formed case")
		}
		href := c.pageURL()
		switch u := mustURL(href); c.Root {
		case "abs":
		case "root":
			href = u.RequestURI()
		case "rel":
			if strings.HasSuffix(c.Base, "/") {
				href = normProject(c.Dist)
			} else {
				href = path.Base(c.Base) + "/" + normProject(c.Dist)
			}
		default:
			panic("ill-formed case")
		}
		var b strings.Builder
		b.WriteString("<!DOCTYPE html>\n<html><head>")
		if c.Meta != "" {
			fmt.Fprintf(&b, "<meta name=\"pypi:repository-version\" content=\"%s\">", html.EscapeString(c.Meta))
		}
		fmt.Fprintf(&b, "</head><body>\n<a href=\"other/\">%sx</a>\n<a href=\"%s\">%s</a>\n<a href=\"%sy\">y</a>\n</body></html>\n", c.Dist, html.EscapeString(href), html.EscapeString(c.Dist), html.EscapeString(href))
		sc.Routes = append(sc.Routes, proto.Route{Path: c.Base, Replies: []proto.Reply{{Status: 200, Body: []byte(b.String())}}})
	}
	if c.Lib {
		sc.Prog = "index"
		sc.ProgArg, _ = json.Marshal(proto.IndexArg{Base: c.Base, Tags: []string{"py3-none-any"}, Threads: [][]proto.IndexCall{{{Pkg: c.Dist, File: c.Name, Get: true, Sig: true, Root: c.Root != ""}}}})
	}
	sc.Dial = c.Dial
	sc.Faults = c.Faults
	c.Sched.apply(sc)
	sc.SchedLimit = 0
	return sc
}

// checkSig judges the signature of a file that has been downloaded.
func (c *getCase) checkSig(x *X, o proto.IndexOut) *Violation {
	if len(c.Dial) > 0 || harm(c.Page.Reply, nil) != 0 || c.Page.Reply.Cut != 0 {
		return nil
	}
	n, at := 0, Anchor{}
	for _, a := range c.Links {
		if a.Text == c.Name {
			n++
			at = a
		}
	}
	if n != 1 {
		return nil
	}
	said := ""
	for _, k := range at.Attrs {
		if strings.HasPrefix(k, "data-gpg-sig=") {
			if said != "" {
				return nil
			}
			said = k
		}
	}
	has := c.Asc
	if said == `data-gpg-sig="false"` {
		has = false
	}
	switch {
	case has && string(o.SigData) != "signature of "+c.Files[at.File].URL:
		return vio("signature", "what is given as signature of %s is %q (error %q, none: %v)", c.Files[at.File].URL, trunc(string(o.SigData), 100), o.SigErr, o.NoSig)
	case !has && len(o.SigData) > 0:
		return vio("signature", "%s has no signature, but %q is given as one", c.Files[at.File].URL, trunc(string(o.SigData), 100))
	case !has && said != `data-gpg-sig="true"` && !o.NoSig:
		return vio("signature", "%s has no signature, which is reported as %q", c.Files[at.File].URL, o.SigErr)
	}
	if has {
		x.Probe("signature")
	}
	return nil
}

// harm of one reply: 0 none; 1 the client must notice; 2 the outcome is open
// (an error or the right bytes); 3 the damage cannot be noticed.
func harm(p proto.Reply, fired map[string]int) int {
	switch {
	case p.Refuse:
		return 2
	case p.Status != 0 && p.Status != 200:
		return 1
	case p.Cut > 0 && p.Stall:
		return 2
	case p.Cut > 0 && p.Mode == "close" && !p.Gzip && p.Reset && fired["net:reset-mid"] > 0:
		return 1
	case p.Cut > 0 && p.Mode == "close" && !p.Gzip:
		return 3
	case p.Cut > 0:
		return 2 // perhaps nothing but the trailer is missing
	case p.Flip > 0:
		return 3
	}
	return 0
}

var filePattern = regexp.MustCompile(`^[A-Za-z0-9._]+-[0-9][0-9A-Za-z.+!]*(-[0-9]+[a-z]*)?-[a-z0-9.]+-[a-z0-9]+-[a-z0-9._]+\.whl$`)

// badNames are no file names of wheels.
var badNames = []string{"foo", "foo.whl", "foo-1.0.whl", "foo-1.0-py3-none.whl", "-1.0-py3-none-any.whl", "foo-1.0-py3-none-any.zip", "foo-1.0-py3-none-any", "foo-one-py3-none-any.whl", "foo-1.0-x1-py3-none-any.whl", "foo-1.0-1-2-py3-none-any.whl", "foo-1.0.tar.gz", "foo-1.0--none-any.whl", "foo-1..0-py3-none-any.whl"}

func checkGet(x *X, ci interface{}) *Violation {
	c := ci.(*getCase)
	if c.Name == "" || c.Dist == "" {
		panic("ill-formed case")
	}
	valid := filePattern.MatchString(c.Name) && strings.HasPrefix(c.Name, c.Dist+"-")
	bad := contains(badNames, c.Name)
	valid = valid && !bad
	if !valid && !illegalDist(c.Dist) && (!bad || c.Lib) {
		panic("ill-formed case")
	}
	r := x.Run(c.scenario())
	if v := sane(r); v != nil {
		return v
	}
	sig := map[string]bool{}
	if c.Lib {
		res := idxRes(r)
		if res.Setup != "" {
			infra("%s", res.Setup)
		}
		o := res.Threads[0][0]
		r.Exit, r.Stdout, r.Stderr = 0, o.Data, nil
		if e := o.Err + o.GetErr; e != "" {
			r.Exit, r.Stdout, r.Stderr = 1, nil, []byte(e)
		} else if v := c.checkSig(x, o); v != nil {
			return v
		}
		for _, a := range c.Links {
			if a.Text == c.Name {
				sig["GET "+c.Files[a.File].URL+".asc"] = true
			}
		}
	}
	if r.Exit != 0 && silent(r) {
		return vio("message", "status %d without a message", r.Exit)
	}
	outFault := len(c.Faults) > 0
	if r.Exit != 0 && len(r.Stdout) > 0 && !outFault {
		return vio("output", "it failed (%s) but wrote %d bytes", trunc(string(r.Stderr), 300), len(r.Stdout))
	}

	// requests
	pageReq := map[string]bool{"GET " + c.pageURL(): true}
	last := c.pageURL()
	pf := c.Page.Redir
	if c.Slash && len(pf) == 0 {
		pf = []string{c.final()}
	}
	for _, u := range pf {
		pageReq["GET "+u] = true
		last = u
	}
	_ = last
	fileReq := map[string]bool{}
	var cands []Anchor
	for _, a := range c.Links {
		if a.Text != c.Name {
			continue
		}
		cands = append(cands, a)
		u := c.Files[a.File].URL
		if a.Form == "missing" {
			u += ".missing"
		}
		fileReq["GET "+u] = true
		for _, t := range c.Files[a.File].Redir {
			fileReq["GET "+t] = true
		}
	}
	// damage that the protocol cannot show may turn another link into this one
	flipPage := c.Page.Reply.Flip > 0 || harm(c.Page.Reply, r.Fired) == 3
	asked := false
	reqs := r.Requests
	if c.Root != "" && len(reqs) > 0 {
		if reqs[0] != "GET "+c.Base {
			return vio("request", "the first request is %q instead of %q", reqs[0], "GET "+c.Base)
		}
		reqs = reqs[1:]
	}
	for i, q := range reqs {
		switch {
		case !valid:
			return vio("request", "a file that no index can have (%q) is asked for: %s", c.Name, q)
		case i == 0 && q != "GET "+c.pageURL():
			return vio("request", "the first request is %q instead of %q", q, "GET "+c.pageURL())
		case pageReq[q]:
		case fileReq[q]:
			asked = true
		case flipPage:
		case sig[q]:
		case c.Lib && strings.HasSuffix(q, ".missing.asc"):
		default:
			return vio("request", "%q is requested, which is neither the page nor the file", q)
		}
	}
	_ = asked
	if !valid {
		if r.Exit == 0 {
			return vio("success", "%q is not a wheel name, but the exit status is 0", c.Name)
		}
		return nil
	}

	// what is to be expected
	must := 0 // 0 must succeed, 1 must fail, 2 open
	worse := func(n int, why string) {
		if must == 0 || n == 1 {
			must = n
		}
		x.Probe(why)
	}
	for i, d := range c.Dial {
		if (d == "refuse" || d == "unreach") && i == 0 {
			worse(1, "no-connection")
		} else if d == "refuse" || d == "unreach" {
			worse(2, "no-connection")
		}
	}
	switch harm(c.Page.Reply, r.Fired) {
	case 1:
		worse(1, "page-error")
	case 2, 3:
		worse(2, "page-damage")
	}
	if strings.HasPrefix(c.Meta, "1.") || c.Meta == "1" || c.Meta == "" {
	} else if regexp.MustCompile(`^[0-9]+(\.[0-9]+)*$`).MatchString(c.Meta) {
		worse(1, "repository-version")
	} else {
		worse(2, "repository-version")
	}
	if len(c.Page.Redir) > 8 {
		worse(2, "redirects")
	}
	if len(cands) == 0 && flipPage {
		worse(2, "not-listed")
	} else if len(cands) == 0 {
		worse(1, "not-listed")
	}
	ok := map[string]bool{} // contents that are right
	allBad := len(cands) > 0
	for _, a := range cands {
		f := c.Files[a.File]
		bad := false
		switch a.sums() {
		case 1:
			bad = true
		case -1:
			worse(2, "odd-checksum")
		}
		switch a.Form {
		case "missing", "nohref":
			bad = true
		}
		if a.Deco == "space" {
			worse(2, "odd-text")
		}
		rep := f.Reply
		d := f.D
		switch harm(rep, r.Fired) {
		case 1:
			bad = true
		case 2:
			worse(2, "file-damage")
		case 3:
			if a.strong() {
				if rep.Flip > 0 && len(f.D) > 0 {
					bad = true
				} else {
					worse(2, "file-damage")
				}
			} else {
				worse(2, "file-damage")
				d = nil
			}
		}
		if len(f.Redir) > 8 {
			worse(2, "redirects")
		}
		if bad {
			x.Probe("bad-file")
			worse(2, "bad-file")
			continue
		}
		allBad = false
		if d == nil && len(f.D) > 0 {
			// damage that the protocol cannot show: any served bytes are fine
			if r.Exit == 0 && (rep.Flip > 0 && len(r.Stdout) == len(f.D) || rep.Flip == 0 && bytes.HasPrefix(f.D, r.Stdout)) {
				ok[string(r.Stdout)] = true
			}
			continue
		}
		ok[string(f.D)] = true
		if rep.Cut > 0 && rep.Mode == "close" && rep.Gzip && !a.strong() {
			ok[""] = true // nothing at all of the body came: an empty body has no coding
		}
	}
	if allBad {
		worse(1, "bad-file")
	}
	if outFault {
		// an interrupted or partial write is no reason to fail, anything else is
		for _, f := range c.Faults {
			if f.Kind == "short" || f.Errno == eINTR || f.Errno == eAGAIN {
				continue
			}
			worse(2, "stdout-fault")
			if r.Fired["errno"]+r.Fired["sticky"] > 0 && must != 1 {
				x.Probe("stdout-fault-fired")
			}
		}
	}
	if r.Exit == 0 {
		if must == 1 {
			return vio("success", "the file cannot be had (requests %q), but the exit status is 0 and %d bytes are written", r.Requests, len(r.Stdout))
		}
		if flipPage { // nothing vouches for the page
			for _, f := range c.Files {
				ok[string(f.D)] = true
			}
		}
		if !ok[string(r.Stdout)] {
			return vio("content", "exit status 0, but what is written (%d bytes, %s) is not the file", len(r.Stdout), sha(r.Stdout)[:12])
		}
		x.Probe("downloaded")
		return nil
	}
	if must == 0 {
		return vio("refused", "the file is there, but: %s", trunc(string(r.Stderr), 500))
	}
	return nil
}

func genReplyWays(r *Rand) proto.Reply {
	p := proto.Reply{Mode: r.Pick("", "", "chunked", "close")}
	if r.P(1, 4) {
		p.Chunk = r.PickI(1, 3, 17, 100, 1000)
	}
	if r.P(1, 4) {
		p.Gzip = true
	}
	if r.P(1, 6) {
		p.Delay = int64(r.PickI(1, 50, 900)) * 1e6
	}
	return p
}

func hurt(r *Rand, p *proto.Reply, size int) {
	switch r.N(6) {
	case 0:
		p.Refuse = true
	case 1:
		p.Status = r.PickI(400, 401, 403, 404, 410, 429, 500, 502, 503, 206, 204)
		if p.Status == 204 {
			p.Mode, p.Gzip = "", false
			p.Status = 404
		}
	case 2, 3:
		p.Cut = 1 + r.N(size+300)
		p.Reset = r.P(1, 3)
	case 4:
		p.Cut = 1 + r.N(size+300)
		p.Stall = true
	default:
		p.Flip = 1 + r.N(size+1)
		p.Chunk = 0
	}
}

func genName(r *Rand) (name, dist string) {
	dist = r.Pick("foo", "foo", "Foo", "foo_bar", "foo__bar", "Foo.Bar_baz", "foo._.bar", "x", "a1", "PyYAML", "zope.interface", "9lives")
	name = dist + "-" + r.Pick("1.0", "1.0", "1.0.post1", "2.0rc1", "1.0+cpu.1", "1!2.0", "0.1.dev3") + r.Pick("", "", "-1", "-2abc") + "-" +
		r.Pick("py3-none-any", "cp39-cp39-manylinux1_x86_64", "py2.py3-none-any", "cp310-abi3-manylinux_2_17_x86_64.manylinux2014_x86_64") + ".whl"
	return
}

func nearName(r *Rand, n string) string {
	switch r.N(6) {
	case 0:
		return n + ".asc"
	case 1:
		return strings.ToUpper(n[:1]) + n[1:] + "x"
	case 2:
		return "x" + n
	case 3:
		return strings.TrimSuffix(n, ".whl") + ".tar.gz"
	case 4:
		return strings.Replace(n, "-1.0", "-1.0.0", 1) + " "
	}
	return strings.Replace(n, "py3", "py2", 1) + "."
}

func genGet(r *Rand, i int) interface{} {
	c := &getCase{Sched: genSched(r)}
	c.Name, c.Dist = genName(r)
	if r.P(1, 25) {
		c.Dist = r.Pick("fo/o", "f%6fo", "foo?x", "foo#x", "föö", "..%2f", "foo bar", "../foo")
		c.Name = c.Dist + "-1.0-py3-none-any.whl"
	}
	c.Base = r.Pick("http://idx.test/simple/", "http://idx.test/simple", "http://idx.test:8080/simple/", "http://idx.test/", "http://idx.test", "http://idx.test/a/b/c/simple/", "http://idx.test/a%20b/simple/")
	c.Slash = r.P(1, 2)
	c.Meta = r.Pick("", "", "1.0", "1.0", "1.1", "1", "1.12")
	c.Page.Reply = genReplyWays(r)
	if r.P(1, 5) {
		for k := r.PickI(1, 1, 2, 3, 8); k > 0; k-- {
			c.Page.Redir = append(c.Page.Redir, fmt.Sprintf("http://%s/r%d/%s", r.Pick("idx.test", "mirror.test", "mirror.test:81"), k, r.Pick("", "p", "p/")))
		}
		c.Page.Code = r.PickI(301, 302, 303, 307, 308)
	}
	c.Lib = r.P(1, 3)
	c.Asc = r.P(1, 2)
	if c.Lib && !illegalDist(c.Dist) && c.Base != "http://idx.test" && r.P(1, 3) {
		c.Root = r.Pick("abs", "rel", "root")
	}
	if r.P(1, 40) {
		c.Lib, c.Dist, c.Name = false, "foo", badNames[r.N(len(badNames))]
	}
	n := r.Range(1, 5)
	for k := 0; k < n; k++ {
		a := Anchor{Text: c.Name, File: k}
		if k > 0 {
			a.Text = nearName(r, c.Name)
			if r.P(1, 3) {
				a.Text, _ = genName(r)
			}
		}
		a.Deco = r.Pick("", "", "", "entity", "nested", "comment")
		a.Form = r.Pick("abs", "rel", "rel", "root", "proto")
		a.Upper = r.P(1, 8)
		for j := r.PickI(0, 1, 1, 1, 2); j > 0; j-- {
			a.Sums = append(a.Sums, r.Pick(webAlgos...)+":good")
		}
		if r.P(1, 10) {
			a.Sums = append(a.Sums, "egg:foo")
		}
		for j := r.N(3); j > 0; j-- {
			a.Attrs = append(a.Attrs, r.Pick(`data-requires-python="&gt;=3.6"`, `data-yanked=""`, `data-gpg-sig="true"`, `data-gpg-sig="false"`, `rel=internal`, `data-yanked="bad build"`, `title='x "y"'`, `data-requires-python="garbage"`, `data-dist-info-metadata="sha256=00"`))
		}
		f := WebFile{URL: fmt.Sprintf("http://%s/%s/%d/%s", r.Pick("idx.test", "idx.test", "files.test"), r.Pick("files", "packages/ab/cd", "f", "pkg%2Fsub", "a%2bb+c"), k, url.PathEscape(a.Text)), Reply: genReplyWays(r)}
		f.D = make([]byte, r.PickI(0, 1, 10, 100, 100, 1000, 5000, 40000))
		if r.P(1, 15) {
			f.D = make([]byte, r.PickI(70000, 300000))
		}
		for j := range f.D {
			f.D[j] = byte(r.U64())
		}
		if r.P(1, 6) {
			for m := r.PickI(1, 1, 2, 3, 8); m > 0; m-- {
				f.Redir = append(f.Redir, fmt.Sprintf("http://%s/cdn%d-%d", r.Pick("cdn.test", "files.test"), k, m))
			}
			f.Code = r.PickI(301, 302, 303, 307, 308)
		}
		c.Links = append(c.Links, a)
		c.Files = append(c.Files, f)
	}
	r.Shuffle(len(c.Links), func(i, j int) { c.Links[i], c.Links[j] = c.Links[j], c.Links[i] })
	if r.P(1, 6) {
		c.Junk = r.Pick("<p>x<a>no link</a>", "<!-- <a href='x'>"+c.Name+"</a> -->", "<a name=top>top</a>", "<script>if (a<b) {}</script>", "&lt;a&gt;", "</body></html>")
	}
	return c
}

func (c *getCase) clone() *getCase {
	cc := *c
	cc.Links = append([]Anchor{}, c.Links...)
	cc.Files = append([]WebFile{}, c.Files...)
	return &cc
}

func (c *getCase) wanted() int {
	for i, a := range c.Links {
		if a.Text == c.Name {
			return i
		}
	}
	return -1
}

func init() {
	properties["C09"] = &Property{
		ID: "C09", New: func() interface{} { return &getCase{} }, Gen: genGet, Check: checkGet,
		Quick: 9000, Thorough: 200000,
		Variants: func(x *X, ci interface{}, r *Rand) []interface{} {
			c := ci.(*getCase)
			var out []interface{}
			w := c.wanted()
			if w < 0 {
				return nil
			}
			for k := 0; k < 2; k++ { // the network
				cc := c.clone()
				switch r.N(5) {
				case 0:
					hurt(r, &cc.Page.Reply, len(cc.html()))
				case 1:
					cc.Dial = append(make([]string, r.N(3)), r.Pick("refuse", "unreach", "slow"))
				default:
					f := cc.Links[w].File
					hurt(r, &cc.Files[f].Reply, len(cc.Files[f].D))
					if r.P(1, 2) && len(cc.Links[w].Sums) == 0 {
						cc.Links[w].Sums = []string{r.Pick(webAlgos...) + ":good"}
					}
				}
				out = append(out, cc)
			}
			{ // the page
				cc := c.clone()
				a := &cc.Links[w]
				switch r.N(7) {
				case 0:
					a.Sums = append(append([]string{}, a.Sums...), r.Pick(webAlgos...)+":"+r.Pick("bad", "short", "empty", "0", "upper"))
					r.Shuffle(len(a.Sums), func(i, j int) { a.Sums[i], a.Sums[j] = a.Sums[j], a.Sums[i] })
				case 1:
					a.Sums = append(append([]string{}, a.Sums...), r.Pick("blake2b", "sha3_256", "crc32", "SHA256")+":0123")
				case 2:
					a.Form = r.Pick("missing", "nohref")
				case 3:
					a.Deco = "space"
				case 4:
					cc.Links = append(cc.Links[:w], cc.Links[w+1:]...)
				case 5:
					cc.Meta = r.Pick("2.0", "2", "10.0", "99.1", "abc", "2.1.0")
				default:
					b := *a
					b.File = r.N(len(cc.Files))
					cc.Links = append(cc.Links, b)
				}
				out = append(out, cc)
			}
			if r.P(1, 3) && !c.Lib { // standard output
				sc := c.scenario()
				sc.Trace = true
				g := x.Run(sc)
				if f := pickFault(r, g, outFaults); f != nil && g.Exit == 0 {
					cc := c.clone()
					cc.Faults = []proto.Fault{*f}
					out = append(out, cc)
				}
			}
			return out
		},
		Rule:   "Workloads: seeded index pages (projects spelled in every way, several links with near names, relative, absolute and redirected links, checksums of every algorithm, repository versions, HTML written in many ways) and files, transferred by length, in chunks, until close, or compressed, in pieces of seeded sizes; variants add one network fault (refused or unreachable, reset before or within a reply, truncation, stall, damaged byte, error status), one defect of the page (wrong checksum, missing link or file, unsupported version) or a failing standard output.",
		Real:   []string{"the whole command line program, net/http client, golang.org/x/net/html"},
		Stub:   []string{"the kernel", "network connections and the index server"},
		Assume: []string{"damage to a file without a checksum, and truncation of a reply that ends with its connection, cannot be noticed", "checksums of algorithms that the program does not know are left open"},
	}
}
