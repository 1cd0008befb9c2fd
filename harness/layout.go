package main

import (
	"fmt"
	"math/rand/v2"
	"path"
	"strings"
)

// Spreading the components of a schema over several documents.

const xmlNS = "http://www.w3.org/XML/1998/namespace"

// Documents elsewhere, which are not read and not needed.
var externs = [][3]string{
	{"import", xmlNS, "http://www.w3.org/2001/xml.xsd"},
	{"import", xmlNS, ""},
	{"import", "urn:remote", "https://example.invalid/a.xsd"},
	{"import", "urn:nowhere", ""},
	{"import", "urn:remote", "http://127.0.0.1:1/types.xsd?a=b"},
	{"include", "", "http://127.0.0.1:1/main.xsd"},
}

// scatter assigns the components of s to several files and connects these by
// include (same namespace) and import (other namespaces) so that every
// reference can be resolved in every document.
func scatter(r *rand.Rand, s *Schema) {
	n := 2 + r.IntN(5)
	if r.IntN(20) == 0 {
		n = 7 + r.IntN(14)
	}
	spaces := 1
	if r.IntN(2) == 0 {
		spaces = 2 + r.IntN(2)
	}
	dirs := []string{"", "", "", "sub/", "sub/deep/", "a.b/", "with space/", "sub/deep/er/"}
	bases := []string{"main", "types", "common", "part", "a.b", "x-y", "Größe", "two words"}
	if n < 7 && r.IntN(2) == 0 { // few file names, in different directories
		r.Shuffle(len(bases), func(i, j int) { bases[i], bases[j] = bases[j], bases[i] })
		bases = bases[:2]
	}
	s.Files = nil
	used := map[string]bool{}
	none := spaces > 1 && r.IntN(3) == 0 // one of them is no namespace
	for i := 0; i < n; i++ {
		ns := ""
		if spaces > 1 && !(none && i%spaces == 0) {
			ns = fmt.Sprintf("urn:ns:%d", i%spaces)
		}
		p := ""
		for {
			p = dirs[r.IntN(len(dirs))] + bases[r.IntN(len(bases))] + fileExt(r)
			if !used[p] {
				break
			}
		}
		used[p] = true
		s.Files = append(s.Files, FileSpec{Path: p, NS: ns, Loc: map[int]string{}})
	}
	if spaces == 1 && r.IntN(2) == 0 {
		for i := range s.Files {
			s.Files[i].NS = "urn:only"
		}
	}
	for i := range s.Files {
		if r.IntN(6) == 0 {
			s.Files[i].Extern = append(s.Files[i].Extern, externs[r.IntN(len(externs))])
		}
	}
	for _, c := range s.Comps {
		c.File = r.IntN(n)
	}
	for _, c := range s.Comps {
		if c.Same {
			c.File = s.comp(c.Name).File
		}
	}
	inc := make([]map[int]bool, n)
	for i := range inc {
		inc[i] = map[int]bool{}
	}
	reach := func(from int) map[int]bool {
		seen := map[int]bool{}
		var walk func(int)
		walk = func(f int) {
			if seen[f] {
				return
			}
			seen[f] = true
			for g := range inc[f] {
				walk(g)
			}
		}
		walk(from)
		return seen
	}
	same := func(ns string) (out []int) {
		for i := range s.Files {
			if s.Files[i].NS == ns {
				out = append(out, i)
			}
		}
		return
	}
	// random edges inside of a namespace, cycles included
	for i := range s.Files {
		sib := same(s.Files[i].NS)
		for k := r.IntN(2); k > 0; k-- {
			if j := sib[r.IntN(len(sib))]; j != i {
				inc[i][j] = true
			}
		}
	}
	type need struct{ f, g int }
	var cross []need
	for _, c := range s.Comps {
		names := deps(c)
		for _, d := range sortedKeys(names) {
			g := s.comp(d).File
			if g == c.File {
				continue
			}
			if s.Files[g].NS != s.Files[c.File].NS {
				cross = append(cross, need{c.File, g})
				continue
			}
			for !reach(c.File)[g] {
				// directly, or through another file
				at := c.File
				if l := reach(c.File); len(l) > 1 && r.IntN(2) == 0 {
					for k := range s.Files {
						if l[k] && r.IntN(2) == 0 {
							at = k
						}
					}
				}
				if at != g {
					inc[at][g] = true
				}
			}
		}
	}
	imp := make([]map[string][]int, n)
	for i := range imp {
		imp[i] = map[string][]int{}
	}
	for _, x := range cross {
		ns := s.Files[x.g].NS
		ts := imp[x.f][ns]
		if len(ts) == 0 {
			sib := same(ns)
			ts = []int{sib[r.IntN(len(sib))]}
		}
		found := false
		for _, t := range ts {
			found = found || reach(t)[x.g]
		}
		if !found {
			if r.IntN(2) == 0 { // several documents of one namespace
				ts = append(ts, x.g)
			} else {
				inc[ts[r.IntN(len(ts))]][x.g] = true
			}
		}
		imp[x.f][ns] = ts
	}
	// imports nothing needs
	for i := range s.Files {
		if j := r.IntN(n); s.Files[j].NS != s.Files[i].NS && r.IntN(3) == 0 {
			if _, ok := imp[i][s.Files[j].NS]; !ok {
				imp[i][s.Files[j].NS] = []int{j}
			}
		}
	}
	for i := range s.Files {
		f := &s.Files[i]
		for j := range s.Files {
			if inc[i][j] {
				f.Includes = append(f.Includes, j)
			}
		}
		for _, ns := range sortedKeys(imp[i]) {
			f.Imports = append(f.Imports, imp[i][ns]...)
		}
		r.Shuffle(len(f.Imports), func(a, b int) { f.Imports[a], f.Imports[b] = f.Imports[b], f.Imports[a] })
		r.Shuffle(len(f.Includes), func(a, b int) { f.Includes[a], f.Includes[b] = f.Includes[b], f.Includes[a] })
		for _, j := range append(append([]int(nil), f.Includes...), f.Imports...) {
			loc := relPath(path.Dir(f.Path), s.Files[j].Path)
			switch r.IntN(8) {
			case 0:
				loc = "./" + loc
			case 2:
				loc = escapeLoc(r, loc)
			case 1:
				if d := path.Dir(s.Files[j].Path); d != "." {
					loc = relPath(path.Dir(f.Path), d) + "/../" + path.Base(d) + "/" + path.Base(s.Files[j].Path)
				}
			}
			f.Loc[j] = loc
		}
	}
	// files without a target namespace of their own, which take the one of
	// the files that include them
	bare := map[int]bool{}
	for i := range s.Files {
		bare[i] = s.Files[i].NS != "" && len(s.Files[i].Imports) == 0 && r.IntN(2) == 0
	}
	for _, f := range s.Files {
		for _, j := range f.Imports {
			bare[j] = false
		}
	}
	for again := true; again; {
		again = false
		for i, f := range s.Files {
			for _, j := range f.Includes {
				if bare[i] && !bare[j] {
					bare[i], again = false, true
				}
			}
		}
	}
	for i := range s.Files {
		s.Files[i].Bare = bare[i]
	}
}

// escapeLoc writes some characters of a location as escapes.
func escapeLoc(r *rand.Rand, loc string) string {
	var b strings.Builder
	for i := 0; i < len(loc); i++ {
		switch x := loc[i]; {
		case x == '/' || x == '.':
			b.WriteByte(x)
		case x == ' ' || x >= 0x80 || r.IntN(8) == 0:
			fmt.Fprintf(&b, "%%%02X", x)
		default:
			b.WriteByte(x)
		}
	}
	return b.String()
}

// scatterPx chooses the prefixes of one document.
func scatterPx(r *rand.Rand, s *Schema, f int) Prefixes {
	pool := []string{"xs", "xsd", "a", "b", "t", "tns", "ns1", "common", "x.y"}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	take := func() string { p := pool[0]; pool = pool[1:]; return p }
	px := Prefixes{NS: map[string]string{}}
	if s.Files[f].NS == "" || s.Files[f].Bare {
		px.XS = take()
	} else {
		switch r.IntN(3) {
		case 0:
			px.TNS = take()
		case 1:
			px.XS = take()
		default:
			px.XS, px.TNS = take(), take()
		}
	}
	importPx(r, s, f, &px, take)
	return px
}

// onePx chooses the prefixes of a schema in a single document.
func onePx(r *rand.Rand, s *Schema) Prefixes {
	if r.IntN(3) == 0 {
		if r.IntN(2) == 0 {
			s.Files[0].NS = "urn:t"
		}
		return randPrefixes(r, s, 0, false)
	}
	px := Prefixes{XS: []string{"xs", "xsd", ""}[r.IntN(3)]}
	if px.XS == "" || r.IntN(3) == 0 {
		s.Files[0].NS, px.TNS = "urn:t", "t"
	}
	return px
}

// importPx chooses the prefixes of imported namespaces.
func importPx(r *rand.Rand, s *Schema, f int, px *Prefixes, take func() string) {
	free := s.Files[f].NS != "" && !s.Files[f].Bare && px.XS != "" && px.TNS != ""
	for _, j := range s.Files[f].Imports {
		if s.Files[j].NS == "" { // names without a prefix have no namespace then
			free = false
			if px.XS == "" {
				px.XS = take()
			}
			if px.TNS == "" {
				px.TNS = take()
			}
		}
	}
	for _, j := range s.Files[f].Imports {
		if _, ok := px.NS[s.Files[j].NS]; ok {
			continue
		}
		switch {
		case s.Files[j].NS == "":
			px.NS[""] = ""
		case free && r.IntN(3) == 0:
			px.NS[s.Files[j].NS], free = "", false
		default:
			px.NS[s.Files[j].NS] = take()
		}
	}
	if r.IntN(3) == 0 {
		px.Local = rand.New(rand.NewPCG(r.Uint64(), 1))
	}
}

// fileExt is what the name of a schema document ends with.
func fileExt(r *rand.Rand) string {
	if r.IntN(6) > 0 {
		return ".xsd"
	}
	return []string{".XSD", ".xml", ".wsdl", ".xsd.xml", ".schema", ".d.xsd"}[r.IntN(6)]
}
