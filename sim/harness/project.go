package main

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/internal/verifsim/simos"
)

// This file generates projects and packages as sequences of segments, so that
// what the tools should make of them follows from the segments and not from
// parsing.

type spec struct{ ns, name, ver string }

func (s spec) String() string { return "@" + s.ns + "/" + s.name + ":" + s.ver }

type segKind int

const (
	segText segKind = iota
	segPkg          // import of a package
	segTyp          // import or include of a file of the same tree
	segRes          // path of a resource
)

// seg is a piece of a Typst file: pre lit mid post, where lit is a string
// literal.
type seg struct {
	kind      segKind
	pre, lit  string
	mid, post string
	spec      spec   // segPkg
	as        int    // segPkg: 0 renamed already, 1 to be renamed, 2 may be renamed
	path      string // segTyp, segRes: value of the literal
	style     bool   // segRes: a citation style, which may be a built-in one
	cont      bool   // belongs to the segment before
}

type doc struct{ segs []seg }

// tree is a project or one version of a package.
type tree struct {
	docs  map[string]*doc   // Typst files by path
	data  map[string]string // other files by path
	links map[string]string // symbolic links to a file or directory beside them
	entry string
}

func newTree() *tree {
	return &tree{docs: map[string]*doc{}, data: map[string]string{}, links: map[string]string{}}
}

type pkgver struct {
	spec
	t      *tree
	broken string
	where  []string // packages directories that hold it
}

type world struct {
	root     string // project directory
	t        *tree
	pkgs     []*pkgver
	universe string // directory given by -universe; "" for none
	cache    string // cache directory
	xdg      bool   // cache is given by $XDG_CACHE_HOME
	home     string
	junk     []func(m *simos.Machine)
	offline  bool
	faulty   bool
	big      bool // many packages, versions and files
	small    bool
	names    []string // package names
	fonts    []fontDir
	fontsAt  string // directory the font directories are given relative to
}

func gp[T any](v ...T) T { return v[sim.Intn(sim.Gen, len(v))] }

func gc(num, den int) bool { return sim.Chance(sim.Gen, num, den) }

// resolve follows the links of a tree.
func (t *tree) resolve(p string) string {
	for n := 0; n < 10; n++ {
		if tgt, ok := t.links[p]; ok {
			p = path.Join(path.Dir(p), tgt)
			continue
		}
		changed := false
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			if tgt, ok := t.links[d]; ok {
				p = path.Join(path.Dir(d), tgt) + strings.TrimPrefix(p, d)
				changed = true
				break
			}
		}
		if !changed {
			return p
		}
	}
	return p
}

func (t *tree) doc(p string) *doc { return t.docs[t.resolve(p)] }

// file reports the bytes of a file of the tree as it is before any tool ran.
func (t *tree) file(p string) (string, bool) {
	r := t.resolve(p)
	if d, ok := t.docs[r]; ok {
		return d.orig(), true
	}
	s, ok := t.data[r]
	return s, ok
}

// relTo resolves a path as used in the file at.
func relTo(at, p string) string {
	if strings.HasPrefix(p, "/") {
		return strings.TrimPrefix(path.Clean(p), "/")
	}
	return path.Join(path.Dir(at), p)
}

func (d *doc) orig() string {
	var b strings.Builder
	for _, s := range d.segs {
		b.WriteString(s.pre + s.lit + s.mid + s.post)
	}
	return b.String()
}

// updated is the file with the newest version in each package import.
func (d *doc) updated(newest func(spec) string) string {
	var b strings.Builder
	for _, s := range d.segs {
		lit := s.lit
		if s.kind == segPkg {
			if v := newest(s.spec); v != s.spec.ver {
				lit = `"` + spec{s.spec.ns, s.spec.name, v}.String() + `"`
			}
		}
		b.WriteString(s.pre + lit + s.mid + s.post)
	}
	return b.String()
}

// A piece of expected text; an optional one may be left out.
type piece struct {
	s   string
	opt bool
}

// offline is what the file should become in the offline version.
func (d *doc) offline(w *world, libDir string, t *tree, at string) []piece {
	var out []piece
	for _, s := range d.segs {
		switch s.kind {
		case segPkg:
			pv := w.pkg(s.spec)
			entry := "?"
			if pv != nil {
				entry = pv.t.entry
			}
			out = append(out, piece{s: s.pre + `"/libs/` + s.spec.name + "/" + s.spec.ver + "/" + entry + `"` + s.mid})
			switch s.as {
			case 1:
				out = append(out, piece{s: " as " + s.spec.name})
			case 2:
				out = append(out, piece{s: " as " + s.spec.name, opt: true})
			}
			out = append(out, piece{s: s.post})
		case segTyp, segRes:
			lit := s.lit
			if strings.HasPrefix(s.path, "/") && libDir != "" {
				if _, ok := t.file(relTo(at, s.path)); ok || !s.style {
					lit = `"` + libDir + lit[1:]
				}
			}
			out = append(out, piece{s: s.pre + lit + s.mid + s.post})
		default:
			out = append(out, piece{s: s.pre + s.lit + s.mid + s.post})
		}
	}
	return out
}

func matchPieces(text string, ps []piece) bool {
	for _, p := range ps {
		if strings.HasPrefix(text, p.s) {
			text = text[len(p.s):]
		} else if !p.opt {
			return false
		}
	}
	return text == ""
}

func joinPieces(ps []piece) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(p.s)
	}
	return b.String()
}

// reach lists what is reachable in t from its entry, by the paths used.
type reach struct {
	docs    []string
	res     []string
	specs   map[string]spec
	missing []string // paths that lead to no file
	escapes bool
}

func (t *tree) reach(offline bool) *reach {
	r := &reach{specs: map[string]spec{}}
	seen := map[string]bool{}
	seenRes := map[string]bool{}
	var visit func(p string)
	visit = func(p string) {
		if seen[p] {
			return
		}
		seen[p] = true
		d := t.doc(p)
		if d == nil {
			if _, ok := t.file(p); !ok {
				r.missing = append(r.missing, p)
			}
			return
		}
		r.docs = append(r.docs, p)
		for _, s := range d.segs {
			switch s.kind {
			case segPkg:
				r.specs[s.spec.String()] = s.spec
			case segTyp:
				visit(relTo(p, s.path))
			case segRes:
				q := relTo(p, s.path)
				if _, ok := t.file(q); ok {
					if !seenRes[q] {
						r.res = append(r.res, q)
					}
					seenRes[q] = true
				} else if !s.style && offline {
					r.missing = append(r.missing, q)
				}
			}
		}
	}
	visit(t.entry)
	return r
}

func (w *world) pkg(s spec) *pkgver {
	for _, p := range w.pkgs {
		if p.spec == s && len(p.where) > 0 {
			return p
		}
	}
	return nil
}

// find is like pkg, for update-typ, which looks into every packages directory.
func (w *world) installed(s spec) *pkgver { return w.pkg(s) }

// newest returns the highest installed version of a package, or its own.
func (w *world) newest(s spec) string {
	best := s.ver
	for _, p := range w.pkgs {
		if p.ns == s.ns && p.name == s.name && len(p.where) > 0 && versionLess(best, p.ver) {
			best = p.ver
		}
	}
	return best
}

func versionLess(a, b string) bool {
	x, y := strings.Split(a, "."), strings.Split(b, ".")
	for i := 0; i < 3; i++ {
		m, _ := strconv.Atoi(x[i])
		n, _ := strconv.Atoi(y[i])
		if m != n {
			return m < n
		}
	}
	return false
}

// libs lists every package reachable from the given imports; broken tells
// whether one of them is missing or unusable.
func (w *world) libs(from map[string]spec, offline bool) (all []*pkgver, broken []string) {
	var todo []string
	specs := map[string]spec{}
	for k, s := range from {
		specs[k] = s
		todo = append(todo, k)
	}
	seen := map[string]bool{}
	for len(todo) > 0 {
		sort.Strings(todo)
		k := todo[0]
		todo = todo[1:]
		if seen[k] {
			continue
		}
		seen[k] = true
		p := w.pkg(specs[k])
		if p == nil {
			broken = append(broken, k+" is not installed")
			continue
		}
		if p.broken != "" {
			broken = append(broken, k+" "+p.broken)
			continue
		}
		all = append(all, p)
		r := p.t.reach(offline)
		for _, m := range r.missing {
			broken = append(broken, k+" lacks "+m)
		}
		for kk, s := range r.specs {
			specs[kk] = s
			todo = append(todo, kk)
		}
	}
	return all, broken
}

// --- generation ---

// quote writes a string literal; now and then with escapes.
func typstQuote(s string, escapes bool) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case escapes && (c == '.' || c == '/') && gc(1, 4):
			fmt.Fprintf(&b, `\u{%x}`, c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

var dirNames = []string{"sub", "sub/deep", "a b", "src", "chapters"}

func (w *world) anySpec() spec {
	if len(w.pkgs) == 0 {
		return spec{"preview", "tiny", "0.1.0"}
	}
	return w.pkgs[gi(len(w.pkgs))].spec
}

// filler is text that no tool may touch.
func (w *world) filler() string {
	s := w.anySpec()
	if gc(1, 1200) && (!w.small || gc(1, 2)) { // a long file
		p := gp("Some *text* and _more_ of it. ", "- item\n", "word ", "text é.\n\n", "// c\n", "#f(1)[x]\n")
		size := 4000 << gi(4)
		if w.small {
			size = 4000 << gi(3)
		}
		return "\n" + strings.Repeat(p, size/len(p)) + "\n"
	}
	switch gi(30) {
	case 0:
		return "Some *text* and _more_ of it.\n\n"
	case 1:
		return fmt.Sprintf("// #import \"%s\": x\n", s)
	case 2:
		return fmt.Sprintf("/* #import \"%s\" \n #include \"gone.typ\" */\n", s)
	case 3:
		return fmt.Sprintf("`#import \"%s\"` and `image(\"gone.png\")`\n", s)
	case 4:
		return fmt.Sprintf("```typ\n#import \"%s\": *\n#include \"gone.typ\"\n```\n", s)
	case 5:
		return fmt.Sprintf("#let s = \"#import \\\"%s\\\"\"\n", s)
	case 6:
		return fmt.Sprintf("#text(\"%s\")\n", s)
	case 7:
		return fmt.Sprintf("\\#import \"%s\"\n", s)
	case 8:
		return fmt.Sprintf("import \"%s\" is not code\n", s)
	case 9:
		return "= Heading <h1>\n\n- item\n+ numbered\n/ Term: text\n"
	case 10:
		return "Größe — 日本語 🎉 “quotes”\r\nsecond line\r\n"
	case 11:
		return "#let f(x, y: 2) = { let z = x; z + y }\n#f(1, y: 3)\n"
	case 12:
		return "#import mod: thing\n"
	case 13:
		return "#include \"zz\" + \".typ\"\n"
	case 14:
		return "#set page(width: 10cm, margin: (x: 1cm))\n#show heading: it => it.body\n"
	case 15:
		return "https://example.org/a?b=c and @ref and \\u{1f600}\n"
	case 16:
		return "#let = 3\n"
	case 17:
		return "unbalanced ] here\n"
	case 18:
		return "#if x { [yes] } else { [no] }\n#for i in range(3) { str(i) }\n"
	case 19:
		return "\t indented \x00 nul\n"
	case 20:
		return "#table(columns: 2, [a], [b])\n"
	case 21:
		return "#imagefoo(\"gone.png\") #my.image(\"gone.png\")\n"
	case 22:
		return strings.Repeat("Lorem ipsum dolor sit amet. ", 1+gi(60)) + "\n"
	case 23:
		return "invalid \xff\xfe bytes\n"
	case 24:
		return fmt.Sprintf("#let d = (imp: \"%s\", path: \"x.typ\")\n", s)
	case 25:
		return fmt.Sprintf("<lbl> ~ -- --- ... 'q' \"%s\"\n", s)
	case 26:
		return "\n\n"
	case 27:
		return "#context { here().page() }\n#return\n"
	case 28:
		return fmt.Sprintf("#raw(\"#import \\\"%s\\\"\", lang: \"typ\")\n", s)
	default:
		return "#{\n  let a = (1, 2)\n  a.at(0)\n}\n"
	}
}

// stmt wraps an import or include statement.
func stmtWrap() (string, string) {
	switch gi(24) {
	case 16, 17, 18, 19:
		w := gp([2]string{"*bold #", ";*\n"}, [2]string{"_#", "; emph_\n"}, [2]string{"== Title #", ";\n"}, [2]string{"+ item #", ";\n"},
			[2]string{"/ Term: #", ";\n"}, [2]string{"$ x + #", "; $\n"}, [2]string{"$ (a/(#", ";)) $\n"}, [2]string{"$ x^(#", ";) $\n"}, [2]string{"$ √(#", ";) $\n"}, [2]string{"#f[#", "]\n"},
			[2]string{"#f(x)[y #", "; z]\n"})
		return w[0], w[1]
	case 20, 21, 22, 23:
		w := gp([2]string{"#while false {\n  ", "\n}\n"}, [2]string{"#for i in range(2) {\n  ", "\n}\n"}, [2]string{"#if x [no] else {\n  ", "\n}\n"},
			[2]string{"#context {\n  ", "\n}\n"}, [2]string{"#(1, { ", " }, 2)\n"}, [2]string{"#(k: { ", " })\n"}, [2]string{"#(\"k\": { ", " })\n"},
			[2]string{"#let g = x => {\n  ", "\n}\n"}, [2]string{"#{ x = { ", " } }\n"}, [2]string{"#(-{ ", " })\n"}, [2]string{"#(1 + { ", " })\n"},
			[2]string{"#set text(..{ ", " })\n"}, [2]string{"#let f(x: { ", " }) = x\n"}, [2]string{"#({ ", " }).y\n"}, [2]string{"#{ return { ", " } }\n"},
			[2]string{"#{ (a, b) = { ", " } }\n"}, [2]string{"#let (a, b) = { ", " }\n"})
		return w[0], w[1]
	case 0:
		return "#{\n  ", "\n}\n"
	case 1:
		return "#let f(x) = {\n  let y = 1\n  ", "\n  y + x\n}\n"
	case 2:
		return "#[\n  text\n  #", "\n  more\n]\n"
	case 3:
		return "- item #", ";\n"
	case 4:
		return "#if true {\n  ", "\n} else {\n  [no]\n}\n"
	case 5:
		return "#show heading: it => {\n  ", "\n  it\n}\n"
	case 6:
		return "#{ ", "; [x] }\n"
	case 7:
		return "= Heading\n#", "\n== Sub\n"
	case 8:
		return "#", "\r\n"
	case 9:
		return "text #", "; and more\n"
	default:
		return "#", "\n"
	}
}

func exprWrap() (string, string) {
	switch gi(18) {
	case 12, 13, 14, 15, 16, 17:
		w := gp([2]string{"*#", "*\n"}, [2]string{"_#", " emph_\n"}, [2]string{"== Title #", "\n"}, [2]string{"+ #", "\n"}, [2]string{"/ T: #", "\n"},
			[2]string{"$ #", " $\n"}, [2]string{"$ x^(#", ") / 2 $\n"}, [2]string{"#(a: ", ")\n"}, [2]string{"#(1, ", ")\n"}, [2]string{"#(x + ", ")\n"},
			[2]string{"#{ x = ", " }\n"}, [2]string{"#while x { ", " }\n"}, [2]string{"#for x in (", ") [y]\n"}, [2]string{"#context ", "\n"},
			[2]string{"#{ return ", " }\n"}, [2]string{"#let (a, b) = (1, ", ")\n"}, [2]string{"#(\"k\": ", ")\n"}, [2]string{"#(-", ")\n"}, [2]string{"#(", ").y\n"})
		return w[0], w[1]
	case 0:
		return "#figure(\n  ", ",\n  caption: [A caption],\n)\n"
	case 1:
		return "#let d = ", "\n"
	case 2:
		return "#{\n  let d = ", "\n  d\n}\n"
	case 3:
		return "#align(center, ", ")\n"
	case 4:
		return "- #", "\n"
	case 5:
		return "#show: it => { ", "; it }\n"
	case 6:
		return "#table(..", ".flatten())\n"
	case 7:
		return "#f.with(x: ", ")\n"
	case 8:
		return "#box[#", "]\n"
	case 9:
		return "#[= T\n #", " ]\n"
	default:
		return "#", "\n"
	}
}

// pkgImport is an import of a package.
func (w *world) pkgImport(s spec) seg {
	g := seg{kind: segPkg, spec: s, lit: `"` + s.String() + `"`}
	pre, post := stmtWrap()
	sp := gp(" ", " ", "  ", " /* c \"@preview/x:9.9.9\" */ ", "\t")
	g.pre = pre + "import" + sp
	tail := ""
	switch gi(10) {
	case 0, 1, 2:
		g.as = 1
	case 3:
		tail = gp(" as x", " as my-name", "  as  y")
	case 4:
		tail = gp(": *", ":*", " : *")
		g.as = 2
	case 5:
		tail = gp(" as x: a, b", " as z: *")
	case 6:
		tail = gp(": (\n  a,\n  b as c,\n)", ": (a)")
		g.as = 2
	case 7:
		g.pre += gp("(", "( ")
		g.mid = gp(")", " )")
		if gc(1, 2) {
			tail = " as w"
		} else {
			g.as = 1
		}
	case 8:
		tail = gp(": a.b, c", ": a as b")
		g.as = 2
	default:
		tail = gp(": a", ": a, b as c", ": image", ": read, csv")
		g.as = 2
	}
	g.post = tail + post
	return g
}

// pathTo is a way to write the path to a file.
func pathTo(at, to string) string {
	if gc(1, 4) {
		return "/" + to
	}
	dir := path.Dir(at)
	p := ""
	if dir == "." {
		p = to
	} else {
		up := strings.Count(dir, "/") + 1
		rest := to
		for up > 0 && strings.HasPrefix(to, dir+"/") && rest == to {
			rest = strings.TrimPrefix(to, dir+"/")
			up = 0
		}
		p = strings.Repeat("../", up) + rest
	}
	switch gi(8) {
	case 0:
		p = "./" + p
	case 1:
		if i := strings.LastIndexByte(p, '/'); i > 0 && !strings.HasSuffix(p[:i], "..") {
			p = p[:i] + "/../" + path.Base(p[:i]) + p[i:]
		}
	case 2:
		if i := strings.IndexByte(p, '/'); i > 0 && p[:i] != "." && p[:i] != ".." {
			p = p[:i] + "//" + p[i+1:]
		}
	}
	return p
}

func (w *world) typRef(at, to string) seg {
	g := seg{kind: segTyp}
	g.path = pathTo(at, to)
	g.lit = typstQuote(g.path, gc(1, 10))
	if gc(1, 2) {
		pre, post := stmtWrap()
		g.pre = pre + "import "
		tail := gp("", " as m", ": *", ": a, b", ": (\n a,\n)")
		if gc(1, 10) {
			g.pre += "("
			g.mid = ")"
			tail = gp(" as m", ": *")
		}
		g.post = tail + post
		return g
	}
	if gc(1, 2) {
		pre, post := stmtWrap()
		g.pre, g.post = pre+"include ", post
	} else {
		pre, post := gp([2]string{"#let z = ", "\n"}, [2]string{"#box(", ")\n"}, [2]string{"#(", ")\n"},
			[2]string{"#figure([#", "], caption: [c])\n"}, [2]string{"#{ f(", ") }\n"}), ""
		g.pre, g.post = pre[0]+"include ", post+pre[1]
	}
	if gc(1, 10) {
		g.pre += "("
		g.mid = ")"
	}
	return g
}

// resRef is a call that names a resource.
func (w *world) resRef(t *tree, at string, names []string) []seg {
	pick := func() (string, string) {
		p := pathTo(at, names[gi(len(names))])
		return p, typstQuote(p, gc(1, 10))
	}
	p, lit := pick()
	g := seg{kind: segRes, path: p, lit: lit}
	pre, post := exprWrap()
	switch gi(12) {
	case 0:
		g.pre, g.post = pre+"image(", gp("", ", width: 50%", ", alt: \"gone.png\"")+")"+post
	case 1:
		g.pre, g.post = pre+"image(width: 5cm, ", ")"+post
	case 2:
		g.pre, g.post = pre+"plugin(", ")"+post
	case 3:
		g.pre, g.post = pre+"read(", gp("", ", encoding: none")+")"+post
	case 4:
		f := gp("csv", "json", "toml", "yaml", "xml", "cbor")
		g.pre, g.post = pre+f+"(", gp("", ",")+")"+post
	case 5:
		g.pre, g.post = pre+"image(\n  ", ",\n  height: 1em,\n)"+post
	case 6:
		g.pre, g.post = pre+"image((", "))"+post
	case 7: // several sources
		out := []seg{{kind: segRes, path: p, lit: lit, pre: gp("#bibliography((", "#bibliography(title: [R], (")}}
		for n := gi(3); n >= 0; n-- {
			p, lit := pick()
			out = append(out, seg{kind: segRes, path: p, lit: lit, pre: ", "})
		}
		out[len(out)-1].post = gp(")", ",)") + ")\n"
		return out
	case 8, 9: // a style
		st := seg{kind: segRes, style: true}
		if gc(1, 2) {
			st.path = gp("ieee", "apa", "chicago-author-date")
			st.lit = `"` + st.path + `"`
		} else {
			st.path, st.lit = pick()
		}
		switch gi(4) {
		case 0:
			g.pre, st.pre, st.post = "#bibliography(", ", style: ", ")\n"
			return []seg{g, st}
		case 1:
			g.pre, st.pre, st.post = "#bibliography(", ", title: \"gone.csl\", full: true, style: ", ")\n"
			return []seg{g, st}
		case 2:
			st.pre, g.pre, g.post = "#bibliography(style: ", ", ", ")\n"
			return []seg{st, g}
		default:
			st.pre, st.post = gp("#set bibliography(style: ", "#set bibliography(title: none, style: "), ")\n"
			return []seg{st}
		}
	default:
		g.pre, g.post = "#bibliography(", gp("", ", title: \"gone.bib\"", ", full: true")+")\n"
	}
	return []seg{g}
}

func (w *world) dataContent() string {
	switch gi(8) {
	case 0:
		return ""
	case 1:
		return "\x89PNG\r\n\x1a\n\x00\x01\xff" + strings.Repeat("\x00", gi(50))
	case 2:
		return "#import \"@preview/tiny:0.1.0\"\n#include \"gone.typ\"\n"
	case 3:
		return strings.Repeat("0123456789abcdef", 1+gi(200))
	case 4:
		if !w.small && gc(1, 10) {
			return strings.Repeat("0123456789\x00bcdef", 250<<gi(7)) // up to 256 KiB
		}
	}
	return fmt.Sprintf("data %d\n", gi(1000))
}

// fill makes the files of a tree. specs are the packages it may import.
func (w *world) fill(t *tree, nDocs int, imports func() (spec, bool), pkg bool) {
	var paths []string
	add := func(p string) {
		if _, ok := t.docs[p]; !ok {
			t.docs[p] = &doc{}
			paths = append(paths, p)
		}
	}
	base := gp("main.typ", "main.typ", "report.typ", "a b.typ", "größe.typ", "x.y.typ")
	if pkg {
		base = gp("lib.typ", "src/lib.typ", "src/lib.typ", "src/deep/x.typ")
	} else if gc(1, 3) {
		base = gp(dirNames...) + "/" + base
	}
	t.entry = base
	add(base)
	for i := 1; i < nDocs; i++ {
		p := fmt.Sprintf("%s%d%s", gp("c", "util", "part ", "é"), i, gp(".typ", ".typ", ".txt"))
		if gc(1, 2) {
			p = gp(dirNames...) + "/" + p
		}
		add(p)
	}
	var names []string
	for i := gi(4); i > 0; i-- {
		p := fmt.Sprintf("%s%d%s", gp("r", "img ", "data"), i, gp(".png", ".bib", ".wasm", ".csv", ".json", ".csl", ".typ"))
		if gc(1, 2) {
			p = gp("assets", "img", "sub", "src") + "/" + p
		}
		t.data[p] = w.dataContent()
		names = append(names, p)
	}
	targets := append([]string(nil), paths...)
	if gc(1, 5) {
		// a second name for a file, in the same directory
		p := paths[gi(len(paths))]
		l := path.Join(path.Dir(p), fmt.Sprintf("link%d.typ", gi(9)))
		if _, ok := t.docs[l]; !ok {
			t.links[l] = path.Base(p)
			targets = append(targets, l)
		}
	}
	if gc(1, 8) {
		// a second name for a directory
		p := paths[gi(len(paths))]
		if d := path.Dir(p); d != "." {
			l := path.Join(path.Dir(d), "lnkdir")
			t.links[l] = path.Base(d)
			targets = append(targets, l+"/"+path.Base(p))
		}
	}
	if len(names) > 0 && gc(1, 12) {
		// a Typst file that is also read as data
		names = append(names, paths[gi(len(paths))])
	}
	for i, p := range paths {
		d := t.docs[p]
		n := 1 + gi(5)
		if w.big && !pkg {
			n += gi(25)
		}
		for j := 0; j < n; j++ {
			switch k := gi(10); {
			case k < 3:
				d.segs = append(d.segs, seg{pre: w.filler()})
			case k < 6:
				s, ok := imports()
				if !ok {
					d.segs = append(d.segs, seg{pre: w.filler()})
					break
				}
				d.segs = append(d.segs, w.pkgImport(s))
			case k < 8:
				to := targets[gi(len(targets))]
				if w.faulty && gc(1, 60) {
					to = "gone.typ"
				}
				g := w.typRef(p, to)
				if w.faulty && gc(1, 60) {
					// close to a package, but no package: a path to no file
					g.path = gp("@preview/tiny", "@preview/tiny:0.1", "@preview/tiny:0.1.0.0", "@preview/tiny:0.1.x",
						"@preview/:0.1.0", "@/tiny:0.1.0", "@preview:0.1.0", "preview/tiny:0.1.0", "@preview/tiny:", "@preview/tiny@0.1.0",
						"@preview/tiny:0..1", "@preview/tiny:-1.0.0", "@pre view/tiny:0.1.0", "@preview/ti ny:0.1.0", "@preview/tiny: 0.1.0", "@preview/1tiny:0.1.0",
						"@preview/tiny/x:0.1.0", "@", "@@preview/tiny:0.1.0")
					g.lit = typstQuote(g.path, gc(1, 10))
				}
				d.segs = append(d.segs, g)
			default:
				if len(names) == 0 {
					d.segs = append(d.segs, seg{pre: w.filler()})
					break
				}
				from := names
				if w.faulty && gc(1, 80) {
					from = []string{"gone.png"}
				}
				for k, g := range w.resRef(t, p, from) {
					g.cont = k > 0
					d.segs = append(d.segs, g)
				}
			}
		}
		// make most files reachable
		if i > 0 && gc(4, 5) {
			from := t.docs[paths[gi(i)]]
			g := w.typRef(paths[indexOf(t, paths, from)], p)
			at := gi(len(from.segs) + 1)
			for at < len(from.segs) && from.segs[at].cont {
				at++
			}
			from.segs = append(from.segs[:at:at], append([]seg{g}, from.segs[at:]...)...)
		}
	}
	for _, p := range paths {
		d := t.docs[p]
		if gc(1, 20) {
			d.segs = append(d.segs, seg{pre: gp("#(", "#{", "#f(", "#let x = \"open", "/* open", "*open", "#[", "#import", "#include", "#import §: x", "#import (§)", "#include §", "#image(", "#image(§)", "#image§", "#import: x", "#bibliography(:", "#set", "#set text(", "#set §(x)")})
		} else if gc(1, 10) && len(d.segs) > 0 {
			// no newline at the end
			g := &d.segs[len(d.segs)-1]
			g.post = strings.TrimSuffix(g.post, "\n")
		}
	}
}

func indexOf(t *tree, paths []string, d *doc) int {
	for i, p := range paths {
		if t.docs[p] == d {
			return i
		}
	}
	return 0
}

// fontDir is a directory of fonts, relative to the current directory.
type fontDir struct {
	dir     string
	files   map[string]string
	dirs    []string // empty ones
	missing bool
}

func (f fontDir) names() []string {
	var ps []string
	for p := range f.files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

func genFonts(faulty bool) []fontDir {
	var out []fontDir
	for _, dir := range []string{gp("fonts", "assets/typefaces", "my fonts"), gp("fonts2", "typefaces/a/b")}[:1+gi(2)] {
		f := fontDir{dir: dir, files: map[string]string{}}
		for i := gi(4); i > 0; i-- {
			f.files[gp("a.ttf", "B.otf", "sub/b.otf", "sub/deep/c d.ttc", "LICENSE", ".hidden", "z/é.ttf")] = gp("", "\x00\x01font", strings.Repeat("glyph\xff", 1+gi(200)), "#import \"@preview/tiny:0.1.0\"\n")
		}
		if gi(4) == 0 {
			f.dirs = append(f.dirs, gp("empty", "sub/none"))
		}
		f.missing = faulty && gi(12) == 0
		out = append(out, f)
	}
	return out
}

// putFonts puts the fonts where the command line expects them.
func (w *world) putFonts(m *simos.Machine) {
	for _, f := range w.fonts {
		if f.missing {
			continue
		}
		d := path.Join(w.fontsAt, f.dir)
		m.Mk(d)
		for p, c := range f.files {
			m.Put(d+"/"+p, c)
		}
		for _, p := range f.dirs {
			m.Mk(d + "/" + p)
		}
	}
}

type worldOpts struct {
	offline bool
	maxPkgs int
	maxVers int
	maxDocs int
	faulty  bool // missing packages, broken manifests
	small   bool
}

var pkgNames = []string{"tiny", "latex-lookalike", "hallon", "x1", "under_score", "a", "b-2", "cetz", "cetz-plot", "codly", "ex", "zebraw", "tiny2", "universe"}
var versions = []string{"0.1.0", "0.1.2", "0.1.10", "0.2.0", "0.9.9", "0.10.0", "1.0.0", "1.2.3", "2.0.0", "10.0.0", "0.0.1", "1.10.0", "1.9.99", "0.0.100", "100.0.0", "0.300.7", "2.0.70000", "0.1.255", "0.1.256", "4294967295.0.1"}

func genWorld(o worldOpts) *world {
	w := &world{offline: o.offline, faulty: o.faulty, small: o.small, t: newTree()}
	w.home = gp("/home/u", "/home/u", "/root", "/home/ü s")
	w.cache = w.home + "/.cache"
	if gc(1, 4) {
		w.xdg = true
		w.cache = gp("/var/cache", w.home+"/xdg", "/c")
	}
	if !o.offline && gc(1, 3) {
		w.universe = gp("/srv/universe", w.home+"/packages", "/u")
	}
	w.root = gp("/work/proj", w.home+"/docs/my report", "/p", "/work/a/b/c")
	if !o.small && gc(1, 400) {
		w.big = true
		o.maxPkgs, o.maxVers, o.maxDocs = len(pkgNames), 12, 24
	}
	n := 1 + gi(o.maxPkgs)
	if gc(1, 15) {
		n = 0
	}
	for i := 0; i < n; i++ {
		name := pkgNames[i]
		w.names = append(w.names, name)
		ns := gp("preview", "preview", "preview", "local")
		if o.offline && gc(1, 20) {
			ns = "corp"
		}
		for v := 1 + gi(o.maxVers); v > 0; v-- {
			s := spec{ns, name, gp(versions...)}
			if w.pkg(s) != nil {
				continue
			}
			pv := &pkgver{spec: s, t: newTree()}
			switch {
			case ns == "local":
				pv.where = []string{"local"}
			case w.universe != "" && ns == "preview":
				pv.where = gp([]string{"universe"}, []string{"cache"}, []string{"cache", "universe"})
			default:
				pv.where = []string{"cache"}
			}
			w.pkgs = append(w.pkgs, pv)
			if o.offline && gc(1, 25) {
				// the same name and version in another namespace
				o := gp("preview", "local")
				if o != ns {
					w.pkgs = append(w.pkgs, &pkgver{spec: spec{o, name, s.ver}, t: newTree(), where: []string{map[string]string{"preview": "cache", "local": "local"}[o]}})
				}
			}
		}
	}
	imports := func() (spec, bool) {
		if len(w.pkgs) == 0 || gc(1, 40) && o.faulty {
			if !o.faulty {
				return spec{}, false
			}
			if len(w.pkgs) > 0 && gc(1, 2) {
				// a version that is not installed
				s := w.pkgs[0].spec
				return spec{s.ns, s.name, gp("0.0.9", "77.7.7")}, true
			}
			return spec{"preview", "absent", gp("0.0.9", "7.7.7")}, true
		}
		return w.pkgs[gi(len(w.pkgs))].spec, true
	}
	for _, p := range w.pkgs {
		maxDocs := 3
		if o.small {
			maxDocs = 2
		}
		w.fill(p.t, 1+gi(maxDocs), func() (spec, bool) {
			if gc(1, 2) {
				return spec{}, false
			}
			return imports()
		}, true)
		if o.faulty && gc(1, 50) {
			p.broken = gp("has no manifest", "has an invalid manifest", "has a manifest without package", "has no entrypoint file", "has a manifest without entrypoint")
		}
	}
	w.fill(w.t, 1+gi(o.maxDocs), imports, false)
	if o.offline && len(w.pkgs) > 0 && gc(1, 25) {
		// the project has files where a package is to be stored
		p := w.pkgs[gi(len(w.pkgs))]
		at := "libs/" + p.name + "/" + p.ver + "/" + gp(p.t.entry, "own.typ")
		if _, ok := w.t.docs[at]; !ok {
			w.t.docs[at] = &doc{segs: []seg{{pre: w.filler()}}}
			if gc(1, 3) {
				w.t.docs[at] = &doc{segs: append([]seg(nil), p.t.docs[p.t.entry].segs...)}
			}
			e := w.t.docs[w.t.entry]
			e.segs = append([]seg{w.typRef(w.t.entry, at)}, e.segs...)
		}
	}
	if o.offline && gc(1, 4) {
		w.fonts = genFonts(o.faulty)
	}
	return w
}

func (w *world) pkgDir(where string, s spec) string {
	switch where {
	case "local":
		return w.home + "/.local/share/typst/packages/local/" + s.name + "/" + s.ver
	case "universe":
		return w.universe + "/packages/preview/" + s.name + "/" + s.ver
	}
	return w.cache + "/typst/packages/" + s.ns + "/" + s.name + "/" + s.ver
}

// fileMode chooses the permissions of a file; they follow from its contents, so
// that worlds are the same without another choice.
func fileMode(p, data string) fs.FileMode {
	modes := []fs.FileMode{0o644, 0o644, 0o644, 0o600, 0o664, 0o640, 0o755, 0o666}
	return modes[hash(p, data)%uint64(len(modes))]
}

func (t *tree) put(m *simos.Machine, dir string) {
	for p, d := range t.docs {
		m.Put(dir+"/"+p, d.orig())
		m.Chmod(dir+"/"+p, fileMode(p, d.orig()))
	}
	for p, d := range t.data {
		m.Put(dir+"/"+p, d)
		m.Chmod(dir+"/"+p, fileMode(p, d))
	}
	for p, d := range t.links {
		m.PutLink(dir+"/"+p, d)
	}
}

// build makes a machine that holds the world.
func (w *world) build() *simos.Machine {
	m := simos.NewMachine()
	m.Mk("/tmp")
	m.Mk(w.root)
	m.Mk(w.home)
	w.t.put(m, w.root)
	for _, p := range w.pkgs {
		for i, where := range p.where {
			dir := w.pkgDir(where, p.spec)
			if i == 0 && (len(p.name)+len(p.ver))%4 == 0 {
				// installed as a symbolic link, as developers do
				real := w.home + "/src/" + p.ns + "-" + p.name + "-" + p.ver
				p.install(m, real)
				m.PutLink(dir, real)
				continue
			}
			p.install(m, dir)
		}
	}
	// things in the packages directories that are no versions
	for i, p := range w.pkgs {
		if i%3 == 1 {
			d := path.Dir(w.pkgDir(p.where[0], p.spec))
			m.Put(d+"/README.md", "readme")
			m.Mk(d + "/tmp-download")
			m.Put(d+"/1.2/typst.toml", "")
			m.PutLink(d+"/99.0.0", "gone")
			m.Put(d+"/98.0.0", "a file")
			m.Mk(d + "/.git")
		}
	}
	return m
}

func (p *pkgver) install(m *simos.Machine, dir string) {
	p.t.put(m, dir)
	entry := p.t.entry
	man := fmt.Sprintf("[package]\nname = %q\nversion = %q\nentrypoint = %q\nauthors = [\"A <a@b.c>\"]\nlicense = \"MIT\"\ndescription = \"d\"\nexclude = [\"x\"]\n", p.name, p.ver, entry)
	switch p.broken {
	case "has no manifest":
		return
	case "has an invalid manifest":
		man = "[package\nname ="
	case "has a manifest without package":
		man = "[template]\npath = \"t\"\nentrypoint = \"main.typ\"\n"
	case "has a manifest without entrypoint":
		man = fmt.Sprintf("[package]\nname = %q\nversion = %q\n", p.name, p.ver)
	case "has no entrypoint file":
		man = strings.Replace(man, strconv.Quote(entry), `"gone.typ"`, 1)
	}
	if len(p.name)%2 == 0 {
		man += "\n[tool.x]\ny = 1\n\n[template]\npath = \"template\"\nentrypoint = \"main.typ\"\nthumbnail = \"t.png\"\n"
	}
	m.Put(dir+"/typst.toml", man)
	m.Put(dir+"/LICENSE", "MIT")
}

// describe lists the world for traces.
func (w *world) describe() string {
	var b strings.Builder
	list := func(t *tree) {
		var ks []string
		for p := range t.docs {
			ks = append(ks, p)
		}
		sort.Strings(ks)
		for _, p := range ks {
			fmt.Fprintf(&b, "    %s: %q\n", p, t.docs[p].orig())
		}
		ks = nil
		for p, d := range t.data {
			ks = append(ks, fmt.Sprintf("    data %s (%d bytes)", p, len(d)))
		}
		for p, d := range t.links {
			ks = append(ks, fmt.Sprintf("    link %s -> %s", p, d))
		}
		sort.Strings(ks)
		for _, k := range ks {
			b.WriteString(k + "\n")
		}
	}
	fmt.Fprintf(&b, "  project %s, entry %s\n", w.root, w.t.entry)
	list(w.t)
	for _, f := range w.fonts {
		fmt.Fprintf(&b, "  fonts %s, missing %v, empty directories %q\n", f.dir, f.missing, f.dirs)
		for _, p := range f.names() {
			fmt.Fprintf(&b, "    %s (%d bytes)\n", p, len(f.files[p]))
		}
	}
	for _, p := range w.pkgs {
		fmt.Fprintf(&b, "  package %s in %v, entry %s %s\n", p.spec, p.where, p.t.entry, p.broken)
		list(p.t)
	}
	return b.String()
}
