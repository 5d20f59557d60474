package main

import (
	"bytes"
	"errors"
	"fmt"
	"path"
	"reflect"
	"sort"
	"strings"
)

// The reference model of what a stack of layers means: a tree to which
// archives are applied one after the other.

type meta struct {
	M      int64
	U, G   int
	UN, GN string
	MT     int64
	X      map[string]string
	J, K   int64
}

// tino is what a name refers to.
type tino struct {
	t      string // f d l c b p
	meta   meta
	any    bool // an implied directory: its attributes are not specified
	data   []byte
	link   string
	kids   map[string]*tino
	parent *tino
	base   bool // comes from the base
	hl     bool // was made by a hard link entry (attributes are those of the target)
}

var errUndefined = errors.New("no defined meaning")

type tree struct {
	root *tino
	undo error // why the result has no defined meaning
	// basePaths: links of the base that were followed
	inBase    bool
	whCreate  bool            // removal markers imply the directories they are in
	lenient   bool            // a removal below a non-directory removes nothing
	dirs      map[string]bool // names the current layer makes directories
	baseLinks int
}

func newTree() *tree {
	t := &tree{root: &tino{t: "d", any: true, kids: map[string]*tino{}}}
	t.root.parent = t.root
	return t
}

func (t *tree) undefined(format string, a ...interface{}) error {
	if t.undo == nil {
		t.undo = fmt.Errorf(format, a...)
	}
	return errUndefined
}

func cleanName(n string) (string, bool) {
	c := path.Clean(n)
	if strings.HasPrefix(c, "/") || c == ".." || strings.HasPrefix(c, "../") {
		return "", false
	}
	return c, true
}

// dir finds the directory p (cleaned, relative to the root or to from),
// following links inside the root.  With create, what is missing or not a
// directory becomes an implied directory.
func (t *tree) dir(from *tino, p string, create bool, depth int) (*tino, error) {
	if depth > 40 {
		return nil, t.undefined("too many links at %q", p)
	}
	cur := from
	if strings.HasPrefix(p, "/") {
		cur = t.root
	}
	comps := strings.Split(p, "/")
	for ci, c := range comps {
		switch c {
		case "", ".":
			continue
		case "..":
			cur = cur.parent
			continue
		}
		k := cur.kids[c]
		if create && (k == nil || k.t != "d" && k.t != "l") && contains(comps[ci:], "..") {
			return nil, t.undefined("the parent of the missing directory %q", c)
		}
		if k == nil {
			if !create {
				return nil, nil
			}
			k = &tino{t: "d", any: true, kids: map[string]*tino{}, parent: cur, base: t.inBase}
			cur.kids[c] = k
		}
		switch k.t {
		case "d":
			cur = k
		case "l":
			if k.base && !t.inBase {
				t.baseLinks++
			}
			up := contains(comps[ci:], "..")
			n, err := t.dir(cur, k.link, create && !up, depth+1)
			if err == nil && n == nil && create {
				err = t.undefined("the parent of a missing directory")
			}
			if err != nil || n == nil {
				return n, err
			}
			cur = n
		default:
			if !create {
				return nil, nil
			}
			if k.base && !t.inBase {
				t.baseLinks++
			}
			n := &tino{t: "d", any: true, kids: map[string]*tino{}, parent: cur, base: t.inBase}
			cur.kids[c] = n
			cur = n
		}
	}
	return cur, nil
}

func isWhiteout(n string) bool { return strings.HasPrefix(path.Base(n), ".wh.") }

func (e TE) meta() meta {
	m := meta{M: e.M & 0o7777, U: e.U, G: e.G, UN: e.UN, GN: e.GN, MT: e.MT, J: e.J, K: e.K}
	if len(e.X) > 0 {
		m.X = e.X
	}
	return m
}

// apply puts one layer on top.
func (t *tree) apply(es []TE) error {
	// paths this layer gives something other than a directory
	nondir := map[string]bool{}
	var names []string
	var files []TE
	for _, e := range es {
		if e.T != "g" {
			files = append(files, e)
		}
	}
	es = files
	for _, e := range es {
		n, ok := cleanName(e.N)
		if !ok {
			return fmt.Errorf("outside of the root: %q", e.N)
		}
		names = append(names, n)
		if e.T != "d" && !isWhiteout(n) {
			nondir[n] = true
		}
	}
	t.dirs = map[string]bool{}
	for i, e := range es {
		n := names[i]
		if isWhiteout(n) {
			continue
		}
		if e.T != "d" {
			n = path.Dir(n)
		}
		for ; n != "."; n = path.Dir(n) {
			t.dirs[n] = true
		}
	}
	for i := range es {
		n := names[i]
		if !isWhiteout(n) {
			continue
		}
		for p := path.Dir(n); p != "."; p = path.Dir(p) {
			if nondir[p] {
				return t.undefined("%q removes something below %q, which the same layer makes a non-directory", n, p)
			}
		}
		d, err := t.whDir(t.root, path.Dir(n), 0)
		if err != nil {
			return err
		}
		if d == nil {
			continue
		}
		b := strings.TrimPrefix(path.Base(n), ".wh.")
		if b == ".wh..opq" {
			d.kids = map[string]*tino{}
		} else {
			delete(d.kids, b)
		}
	}
	for i, e := range es {
		n := names[i]
		if isWhiteout(n) {
			continue
		}
		if n == "." {
			if e.T != "d" {
				return t.undefined("the root is not a directory")
			}
			t.root.any = false
			t.root.meta = e.meta()
			t.root.base = t.inBase
			continue
		}
		d, err := t.dir(t.root, path.Dir(n), true, 0)
		if err != nil {
			return err
		}
		b := path.Base(n)
		old := d.kids[b]
		if e.T == "h" {
			ln, ok := cleanName(strings.TrimPrefix(path.Clean("/"+e.L), "/"))
			if !ok {
				return t.undefined("hard link to %q", e.L)
			}
			td, err := t.dir(t.root, path.Dir(ln), false, 0)
			if err != nil {
				return err
			}
			if td == nil || td.kids[path.Base(ln)] == nil || td.kids[path.Base(ln)].t == "d" {
				return t.undefined("hard link to %q, which is not a file", e.L)
			}
			tgt := td.kids[path.Base(ln)]
			if tgt.base && !t.inBase {
				t.baseLinks++
			}
			if tgt == old {
				continue
			}
			d.kids[b] = tgt
			continue
		}
		if e.T == "d" && old != nil && old.t == "d" {
			old.any = false
			old.meta = e.meta()
			continue
		}
		nn := &tino{t: e.T, meta: e.meta(), parent: d, base: t.inBase}
		switch e.T {
		case "d":
			nn.kids = map[string]*tino{}
		case "f":
			nn.data = e.D
		case "l":
			nn.link = e.L
		}
		d.kids[b] = nn
	}
	return nil
}

// whDir finds the directory a removal marker is in, without changing anything.
func (t *tree) whDir(from *tino, p string, depth int) (*tino, error) {
	if depth > 40 {
		return nil, t.undefined("too many links at %q", p)
	}
	cur := from
	if strings.HasPrefix(p, "/") {
		cur = t.root
	}
	comps := strings.Split(p, "/")
	for ci, c := range comps {
		switch c {
		case "", ".":
			continue
		case "..":
			cur = cur.parent
			continue
		}
		k := cur.kids[c]
		if k == nil && contains(comps[ci:], "..") {
			return nil, t.undefined("the parent of the missing directory %q", c)
		}
		if k == nil {
			if !t.whCreate {
				return nil, nil
			}
			k = &tino{t: "d", any: true, kids: map[string]*tino{}, parent: cur, base: t.inBase}
			cur.kids[c] = k
		}
		switch k.t {
		case "d":
			cur = k
		case "l":
			if k.base && !t.inBase {
				t.baseLinks++
			}
			n, err := t.whDir(cur, k.link, depth+1)
			if err != nil || n == nil {
				return n, err
			}
			cur = n
		default:
			if t.lenient && depth == 0 && t.dirs[strings.Join(comps[:ci+1], "/")] {
				return nil, nil
			}
			if t.lenient {
				t.baseLinks++
				return nil, nil
			}
			return nil, t.undefined("a removal below the non-directory %q", p)
		}
	}
	return cur, nil
}

func (m meta) String() string {
	return fmt.Sprintf("mode=%o %d:%d %s:%s mtime=%d xattrs=%v dev=%d,%d", m.M, m.U, m.G, m.UN, m.GN, m.MT, m.X, m.J, m.K)
}

// walk visits every name in order.
func (t *tree) walk(f func(p string, n *tino)) {
	var rec func(p string, n *tino)
	rec = func(p string, n *tino) {
		f(p, n)
		if n.t != "d" {
			return
		}
		var ks []string
		for k := range n.kids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			rec(path.Join(p, k), n.kids[k])
		}
	}
	rec(".", t.root)
}

// optional tells whether n is an implied directory without content: whether it
// exists is not specified.
func (n *tino) optional() bool {
	if n.t != "d" || !n.any {
		return false
	}
	for _, c := range n.kids {
		if !c.optional() {
			return false
		}
	}
	return true
}

// diff says how two trees differ ("" if they do not).
func (t *tree) diff(u *tree, ta, ua string) string {
	an, bn := map[string]*tino{}, map[string]*tino{}
	t.walk(func(p string, n *tino) { an[p] = n })
	u.walk(func(p string, n *tino) { bn[p] = n })
	all := map[string]bool{}
	for p := range an {
		all[p] = true
	}
	for p := range bn {
		all[p] = true
	}
	for _, p := range sortedKeys(all) {
		a, b := an[p], bn[p]
		if (a == nil && b.optional()) || (b == nil && a.optional()) {
			continue
		}
		if a == nil {
			return fmt.Sprintf("%q exists (%s) %s but not %s", p, b.t, ua, ta)
		}
		if b == nil {
			return fmt.Sprintf("%q exists (%s) %s but not %s", p, a.t, ta, ua)
		}
		if a.t != b.t {
			return fmt.Sprintf("%q is of type %s %s but %s %s", p, a.t, ta, b.t, ua)
		}
		if !bytes.Equal(a.data, b.data) {
			return fmt.Sprintf("%q has content %q %s but %q %s", p, trunc(string(a.data), 80), ta, trunc(string(b.data), 80), ua)
		}
		if a.link != b.link {
			return fmt.Sprintf("%q points to %q %s but %q %s", p, a.link, ta, b.link, ua)
		}
		if !a.any && !b.any && !reflect.DeepEqual(a.meta, b.meta) {
			return fmt.Sprintf("%q has %v %s but %v %s", p, a.meta, ta, b.meta, ua)
		}
	}
	// the same names share the same file
	ga, gb := map[*tino][]string{}, map[*tino][]string{}
	for _, p := range sortedKeys(all) {
		if an[p] != nil && an[p].t == "f" {
			ga[an[p]] = append(ga[an[p]], p)
			gb[bn[p]] = append(gb[bn[p]], p)
		}
	}
	for _, p := range sortedKeys(all) {
		if an[p] != nil && an[p].t == "f" && !reflect.DeepEqual(ga[an[p]], gb[bn[p]]) {
			return fmt.Sprintf("the names of one file are %q %s but %q %s", ga[an[p]], ta, gb[bn[p]], ua)
		}
	}
	return ""
}
