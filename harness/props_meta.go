package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/net/html/charset"
	"golang.org/x/text/encoding"
)

// Metamorphic monitors: two executions whose inputs differ only in something
// that must not matter are compared with each other.

// treeJSON is a canonical form of the exported parsed tree.
func treeJSON(tree []interface{}, docs bool) string {
	b, err := json.Marshal(tree)
	if err != nil {
		return "error: " + err.Error()
	}
	var l []any
	json.Unmarshal(b, &l)
	if len(l) != len(tree) {
		return "error: tree of odd shape"
	}
	var strip func(v any)
	strip = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			if !docs {
				delete(x, "Doc")
			}
			for _, k := range x {
				strip(k)
			}
		case []any:
			for _, k := range x {
				strip(k)
			}
		}
	}
	var out strings.Builder
	for i := range l {
		strip(l[i])
		j, _ := json.Marshal(l[i])
		fmt.Fprintf(&out, "%s %s\n", strings.TrimPrefix(reflect.TypeOf(tree[i]).String(), "*xgen."), j)
	}
	return out.String()
}

// genAll translates one schema document into every language and parses it in
// extract mode.
func genAll(c *Ctx, name string, text []byte) (out map[string]string, trees map[string]string, o Outcome) {
	out, trees = map[string]string{}, map[string]string{}
	in, od := filepath.Join(c.Dir, "in"), filepath.Join(c.Dir, "out")
	os.RemoveAll(in)
	os.RemoveAll(od)
	os.MkdirAll(in, 0o755)
	file := filepath.Join(in, name)
	if err := os.WriteFile(file, text, 0o644); err != nil {
		panic(err)
	}
	for _, lang := range langs {
		if o = translate(lang, file, in, od, ""); !o.ok() {
			return
		}
		c.count("translations", 1)
		b, err := os.ReadFile(filepath.Join(od, name+langExt[lang]))
		if err != nil {
			o.Err = err
			return
		}
		out[lang] = string(b)
		e := parse(newOptions(lang, file, in, od, "", true))
		if !e.ok() {
			return out, trees, e
		}
		trees[lang] = treeJSON(e.Opt.ProtoTree, true)
	}
	return
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %.300q versus %.300q", i+1, x, y)
		}
	}
	return "no difference"
}

// eachDoc calls f with every documentation slot of the model.
func eachDoc(s *Schema, f func(d *string)) {
	var cd func(c *ComplexDef)
	var at func(l []*AttrUse)
	var pt func(p *Particle)
	at = func(l []*AttrUse) {
		for _, a := range l {
			if !a.Group {
				f(&a.Doc)
			}
		}
	}
	pt = func(p *Particle) {
		if p == nil {
			return
		}
		if p.Elem != nil {
			f(&p.Elem.Doc)
			if p.Elem.Complex != nil {
				cd(p.Elem.Complex)
			}
		}
		for _, k := range p.Kids {
			pt(k)
		}
	}
	cd = func(c *ComplexDef) {
		pt(c.Particle)
		at(c.Attrs)
	}
	for _, c := range s.Comps {
		f(&c.Doc)
		if c.Complex != nil {
			cd(c.Complex)
		}
		if c.Elem != nil && c.Elem.Complex != nil {
			cd(c.Elem.Complex)
		}
		pt(c.Particle)
		at(c.Attrs)
	}
}

var docBits = []string{"*/", "/*", "//", `\`, "\\\n", "\n", "\r", "\t", "\u2028", "\u2029", "\u0085", "\u202e", "\ufeff", `"`, "'", "`", "${x}", "\n#define X 1", "??/\n", `\u000a`, `\u002a\u002f`, `\uuu000aclass X{}`, "<b>", "</b>", "&amp;", "&", "<", ">", "é", "日本語", "😀", "\n//go:embed x", "\nimport \"fmt\"", "\n// +build ignore", "@Deprecated", "<!-- x -->", "%s %d %!", "{{.}}", "$1", "\u00a0", "e\u0301", "\n\n", "  ", "\n}", "{", "*/ }", "\r\n", "TODO", "\n/**", "*", "]]", "#[derive(X)]", "#![x]", "\n@XmlType", "\nexport type X = 1;", "~", "^"}

func richDoc(r *rand.Rand) string {
	var b strings.Builder
	for i := 1 + r.IntN(8); i > 0; i-- {
		if r.IntN(2) == 0 {
			b.WriteString(words[r.IntN(len(words))] + " ")
		} else {
			b.WriteString(docBits[r.IntN(len(docBits))])
		}
	}
	if r.IntN(40) == 0 {
		b.WriteString(strings.Repeat(words[r.IntN(len(words))]+" ", 1+r.IntN(12000)))
	}
	return b.String()
}

// ---- C17 ----

var charsets = []string{"UTF-8", "utf-8", "UTF-16LE", "UTF-16BE", "UTF-16LE+decl", "UTF-16BE+decl", "ISO-8859-1", "windows-1252", "windows-1251", "KOI8-R", "ISO-8859-15", "US-ASCII", "ISO-8859-5", "windows-1250", "macintosh",
	"ISO-8859-2", "ISO-8859-3", "ISO-8859-4", "ISO-8859-6", "ISO-8859-7", "ISO-8859-8", "ISO-8859-9", "ISO-8859-10", "ISO-8859-13", "ISO-8859-14", "ISO-8859-16", "iso-8859-1", "latin1",
	"Windows-1253", "windows-1254", "windows-1255", "windows-1256", "windows-1257", "windows-1258", "windows-874", "IBM866", "KOI8-U", "x-mac-cyrillic", "us-ascii"}

// charsetText is a text of characters of the upper half of some encoding.
func charsetText(r *rand.Rand) string {
	for {
		label := charsets[r.IntN(len(charsets))]
		e, _ := charset.Lookup(label)
		if e == nil || strings.HasPrefix(strings.ToUpper(label), "UTF") {
			continue
		}
		var out strings.Builder
		for i := 1 + r.IntN(12); i > 0; i-- {
			t, err := e.NewDecoder().String(string([]byte{byte(0xa0 + r.IntN(0x60))}))
			c := []rune(t)
			if err == nil && len(c) == 1 && c[0] != utf8.RuneError && unicode.IsLetter(c[0]) {
				out.WriteRune(c[0])
			}
		}
		return out.String()
	}
}

func encodeText(label, text string) []byte {
	if strings.HasPrefix(label, "UTF-16") {
		if strings.HasSuffix(label, "+decl") {
			text = `<?xml version="1.0" encoding="UTF-16"?>` + text
		}
		be := strings.Contains(label, "BE")
		var out []byte
		for _, u := range utf16Encode("\ufeff" + text) {
			if be {
				out = append(out, byte(u>>8), byte(u))
			} else {
				out = append(out, byte(u), byte(u>>8))
			}
		}
		return out
	}
	text = `<?xml version="1.0" encoding="` + label + `"?>` + "\n" + text
	if strings.EqualFold(label, "UTF-8") {
		return []byte(text)
	}
	e, _ := charset.Lookup(label)
	if l := strings.ToUpper(label); strings.HasPrefix(l, "ISO-8859") || l == "LATIN1" || l == "US-ASCII" {
		// what is looked up may be a larger encoding
		var b strings.Builder
		for _, r := range text {
			t, err := e.NewEncoder().String(string(r))
			if r > 0x7f && (l == "US-ASCII" || err == nil && t[0] < 0xa0) {
				fmt.Fprintf(&b, "&#%d;", r)
			} else {
				b.WriteRune(r)
			}
		}
		text = b.String()
	}
	b, err := encoding.HTMLEscapeUnsupported(e.NewEncoder()).String(text)
	if err != nil {
		panic(err)
	}
	return []byte(b)
}

func utf16Encode(s string) (out []uint16) {
	for _, r := range s {
		if r >= 0x10000 {
			r -= 0x10000
			out = append(out, uint16(0xd800+r>>10), uint16(0xdc00+r&0x3ff))
		} else {
			out = append(out, uint16(r))
		}
	}
	return
}

var prefixPool = []string{"xs", "xsd", "s", "XSD", "a.b", "_p", "x-s", "größe", "schema", "int", "string", "type", "p1"}

// randPrefixes chooses the prefixes of a file, narrow those of ASCII letters.
func randPrefixes(r *rand.Rand, s *Schema, f int, narrow bool) Prefixes {
	px := Prefixes{NS: map[string]string{}}
	var pool []string
	for _, p := range prefixPool {
		if p != "größe" || !narrow {
			pool = append(pool, p)
		}
	}
	ns := s.Files[f].NS
	if s.Files[f].Bare {
		ns = ""
	}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	take := func() string { p := pool[0]; pool = pool[1:]; return p }
	def := r.IntN(3) // who gets the default namespace
	if ns == "" {
		px.XS = take()
	} else {
		switch def {
		case 0:
			px.XS, px.TNS = "", take()
		case 1:
			px.XS, px.TNS = take(), ""
		default:
			px.XS, px.TNS = take(), take()
		}
		if r.IntN(3) == 0 {
			px.AltTNS = append(px.AltTNS, take())
		}
	}
	if r.IntN(3) == 0 {
		px.AltXS = append(px.AltXS, take())
	}
	importPx(r, s, f, &px, take)
	px.R = r
	return px
}

var padded = map[string]bool{"name": true, "ref": true, "type": true, "base": true, "itemType": true, "use": true, "minOccurs": true, "maxOccurs": true, "memberTypes": true}

// variant writes a file of the schema with arbitrary prefixes, in an arbitrary
// style and encoding, which it describes as well.
func variant(c *Ctx, s *Schema, f int) ([]byte, string) {
	b := func(pct int) bool { return c.R.IntN(100) < pct }
	label := ""
	if b(50) {
		label = charsets[c.R.IntN(len(charsets))]
	}
	narrow := label != "" && !strings.HasPrefix(strings.ToUpper(label), "UTF") // a name can't be written with character references
	px := randPrefixes(c.R, s, f, narrow)
	st := &Style{R: c.R, NoIndent: b(30), CRLF: b(30), Comments: b(50), PIs: b(50), ShuffleAttrs: b(50), SingleQuotes: b(50),
		LongEmpty: b(50), CDATA: b(30), CharRefs: b(30), Trailer: b(30), AttrSpace: b(30), DocType: b(20)}
	tree := build(s, f, px)
	if b(40) {
		for _, n := range allNodes(tree) {
			for i := range n.Attrs {
				if padded[n.Attrs[i][0]] && b(15) {
					pad := []string{" ", "\t", "\n", "  ", ""}
					n.Attrs[i][1] = pad[c.R.IntN(5)] + strings.ReplaceAll(n.Attrs[i][1], " ", " "+pad[c.R.IntN(5)]) + pad[c.R.IntN(5)]
				}
				if a := n.Attrs[i]; (a[0] == "schemaLocation" || a[0] == "namespace" && n.Name == "import") && b(15) {
					pad := []string{" ", "\t", "\n", "  ", ""}
					n.Attrs[i][1] = pad[c.R.IntN(5)] + a[1] + pad[c.R.IntN(5)]
				}
			}
			if b(5) {
				n.attr("xmlns:unused"+fmt.Sprint(c.R.IntN(3)), "urn:unused")
			}
		}
	}
	if narrow {
		st.CDATA = false
	}
	if label == "" {
		st.BOM = b(30)
		if b(40) {
			st.Decl = []string{`<?xml version="1.0"?>`, `<?xml version='1.0' standalone='yes'?>`, `<?xml version="1.0" encoding="utf-8" ?>`, `<?xml version="1.0" encoding="UTF-8" standalone="no"?>`}[c.R.IntN(4)]
		}
	}
	text := []byte(st.write(px, tree))
	if label != "" {
		text = encodeText(label, string(text))
	}
	c.count("variants", 1)
	c.shape(fmt.Sprint(len(s.Files) > 1, label, st.BOM, st.CRLF, st.CDATA, st.CharRefs, st.Comments, st.PIs, px.XS == "", px.TNS == "", len(px.AltXS), len(px.AltTNS), s.Files[f].NS == "", st.Decl))
	return text, label
}

// runC17Files is runC17 for a schema in several files.
func runC17Files(c *Ctx) {
	s := modelSchema(c.R, c.I, nil)
	scatter(c.R, s)
	if c.R.IntN(2) == 0 {
		s.Noise = c.R.Uint64()
	}
	ref := renderAll(s, func(f int) Prefixes { return scatterPx(c.R, s, f) }, &Style{})
	c.sample(ref[s.Files[0].Path])
	in := filepath.Join(c.Dir, "in")
	files := map[string]string{}
	var want map[string]string
	for v := 0; v < 3; v++ {
		desc := ""
		texts := map[string]string{}
		if v == 0 {
			texts = ref
			for p, t := range ref {
				files["reference/"+p] = t
			}
		} else {
			for f := range s.Files {
				t, label := variant(c, s, f)
				texts[s.Files[f].Path] = string(t)
				files["variant/"+s.Files[f].Path] = string(t)
				desc += fmt.Sprintf(" %q", label)
			}
		}
		os.RemoveAll(in)
		writeFiles(in, texts)
		got := map[string]string{}
		for _, lang := range langs {
			od := filepath.Join(c.Dir, "out")
			os.RemoveAll(od)
			if o := translateDir(lang, in, od, ""); !o.ok() {
				c.violate(files, "%s: valid schemas in several files (encodings%s): %s", lang, desc, o)
				return
			}
			c.count("translations", len(s.Files))
			for p, x := range snapshot(od) {
				got[p] = x
			}
			for _, f := range s.Files {
				e := parse(newOptions(lang, filepath.Join(in, f.Path), in, od, "", true))
				if !e.ok() {
					c.violate(files, "%s: %s of valid schemas in several files (encodings%s): %s", lang, f.Path, desc, e)
					return
				}
				got["tree of "+f.Path+" "+lang] = treeJSON(e.Opt.ProtoTree, true)
			}
		}
		if v == 0 {
			want = got
			continue
		}
		for _, p := range sortedKeys(want) {
			if got[p] != want[p] {
				c.violate(files, "lexical variants (encodings%s) of schemas in several files change %s: %s", desc, p, firstDiff(want[p], got[p]))
				return
			}
		}
		if len(got) != len(want) {
			c.violate(files, "lexical variants (encodings%s) of schemas in several files change what is written", desc)
			return
		}
	}
}

func runC17(c *Ctx) {
	if c.I%4 == 3 {
		runC17Files(c)
		return
	}
	s := modelSchema(c.R, c.I, nil)
	s.Files[0].NS = []string{"", "urn:t", "http://example.org/ns/"}[c.R.IntN(3)]
	eachDoc(s, func(d *string) {
		if c.R.IntN(4) == 0 {
			*d = richDoc(c.R)
		}
		if c.R.IntN(4) == 0 {
			*d += " " + charsetText(c.R)
		}
	})
	for _, comp := range s.Comps {
		if comp.Simple == nil {
			continue
		}
		for i, f := range comp.Simple.Facets {
			if f.Name == "enumeration" && len(f.Value) > 3 && unicode.IsLetter(rune(f.Value[0])) && c.R.IntN(8) == 0 {
				comp.Simple.Facets[i].Value = f.Value + charsetText(c.R)
			}
		}
	}
	if c.R.IntN(2) == 0 {
		s.Noise = c.R.Uint64()
	}
	base := Prefixes{XS: "xs"}
	if s.Files[0].NS != "" {
		base.TNS = "tns"
	}
	ref := (&Style{}).write(base, build(s, 0, base))
	c.sample(ref)
	want, wantTrees, o := genAll(c, "schema.xsd", []byte(ref))
	if !o.ok() {
		c.violate(map[string]string{"schema.xsd": ref}, "valid schema: %s", o)
		return
	}
	for v := 0; v < 4; v++ {
		text, label := variant(c, s, 0)
		got, gotTrees, o := genAll(c, "schema.xsd", text)
		files := map[string]string{"reference/schema.xsd": ref, "variant/schema.xsd": string(text)}
		if !o.ok() {
			c.violate(files, "a lexical variant (%q) of a valid schema: %s", label, o)
			return
		}
		for _, lang := range langs {
			if got[lang] != want[lang] {
				files["reference/out"+langExt[lang]] = want[lang]
				files["variant/out"+langExt[lang]] = got[lang]
				c.violate(files, "%s: a lexical variant (%q) changes the output: %s", lang, label, firstDiff(want[lang], got[lang]))
				return
			}
			if gotTrees[lang] != wantTrees[lang] {
				c.violate(files, "%s: a lexical variant (%q) changes the parsed tree: %s", lang, label, firstDiff(wantTrees[lang], gotTrees[lang]))
				return
			}
		}
	}
}

// ---- C16 ----

// stripComments removes comments by the lexical rules of the language and
// returns the remaining lines.
func stripComments(lang, src string) string {
	if lang == "Java" {
		src = javaUnescape(src)
	}
	var out []rune
	rs := []rune(src)
	n := len(rs)
	at := func(i int) rune {
		if i < n {
			return rs[i]
		}
		return 0
	}
	for i := 0; i < n; {
		r := rs[i]
		switch {
		case r == '/' && at(i+1) == '/':
			for i < n {
				if rs[i] == '\n' || rs[i] == '\r' && lang != "Go" && lang != "Rust" || lang == "TypeScript" && (rs[i] == 0x2028 || rs[i] == 0x2029) {
					// a backslash continues the comment in C
					j := i - 1
					for j > 0 && (rs[j] == ' ' || rs[j] == '\t' || rs[j] == '\r') {
						j--
					}
					if !(lang == "C" && rs[j] == '\\') {
						break
					}
				}
				i++
			}
		case r == '/' && at(i+1) == '*':
			depth := 1
			i += 2
			for i < n && depth > 0 {
				if rs[i] == '*' && at(i+1) == '/' {
					depth--
					i += 2
				} else if lang == "Rust" && rs[i] == '/' && at(i+1) == '*' {
					depth++
					i += 2
				} else {
					i++
				}
			}
			out = append(out, ' ')
		case r == '"' || r == '\'' && lang != "Rust" || r == '`' && (lang == "Go" || lang == "TypeScript"):
			out = append(out, r)
			i++
			for i < n && rs[i] != r && !(rs[i] == '\n' && r != '`') {
				if rs[i] == '\\' && !(lang == "Go" && r == '`') {
					out = append(out, rs[i])
					i++
				}
				if i < n {
					out = append(out, rs[i])
					i++
				}
			}
			if i < n {
				out = append(out, rs[i])
				i++
			}
		default:
			out = append(out, r)
			i++
		}
	}
	var lines []string
	for _, l := range strings.FieldsFunc(string(out), func(r rune) bool { return r == '\n' || r == '\r' }) {
		if l = strings.TrimSpace(l); l != "" {
			lines = append(lines, l)
		}
	}
	return strings.Join(lines, "\n")
}

// javaUnescape performs the translation of unicode escapes that precedes the
// lexical analysis of Java.
func javaUnescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			i++
			continue
		}
		if i+1 < len(s) && s[i+1] == '\\' {
			b.WriteString(`\\`)
			i += 2
			continue
		}
		j := i + 1
		for j < len(s) && s[j] == 'u' {
			j++
		}
		if j == i+1 {
			b.WriteByte('\\')
			i++
			continue
		}
		v, k := rune(0), 0
		for ; k < 4 && j+k < len(s); k++ {
			d := strings.IndexByte("0123456789abcdef", s[j+k]|0x20)
			if s[j+k] >= '0' && s[j+k] <= '9' {
				d = int(s[j+k] - '0')
			}
			if d < 0 {
				break
			}
			v = v*16 + rune(d)
		}
		if k < 4 {
			b.WriteString(" <malformed unicode escape> \n")
			i = j
			continue
		}
		b.WriteRune(v)
		i = j + 4
	}
	return b.String()
}

func alnum(s string) string {
	var b strings.Builder
	for _, r := range s {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// textWords is the text as a sequence of words, each followed by a space.
func textWords(s string) string {
	s = strings.Map(func(r rune) rune {
		switch {
		case unicode.IsLetter(r) || unicode.IsDigit(r):
			return r
		case r == '\ufeff' || unicode.Is(unicode.Cf, r):
			return -1
		}
		return ' '
	}, s)
	return " " + strings.Join(strings.Fields(s), " ") + " "
}

// annotator inserts annotations with unique marks into a document.
type annotator struct {
	r    *rand.Rand
	px   Prefixes
	n    int
	mark string
}

// endOf is the end tag for a start tag.
func endOf(open string) string {
	return "</" + strings.FieldsFunc(open[1:], func(r rune) bool { return r == ' ' || r == '>' })[0] + ">"
}

// annotation returns an annotation and the text of its documentation.
func (a *annotator) annotation() (*Node, []string) {
	ann := el("annotation")
	var texts []string
	xs := func(n string) string { return q(a.px.XS, n) }
	for i := 1 + a.r.IntN(2); i > 0; i-- {
		if a.r.IntN(4) == 0 { // application information
			ann.add(&Node{Raw: "<" + xs("appinfo") + ` source="urn:x">` +
				[]string{"ghost", "<f:ghost xmlns:f=\"urn:f\" name=\"ghost\" type=\"" + xs("int") + "\"/>", "<" + xs("element") + ` name="ghost" type="` + xs("int") + `"/>`, "<ghost xmlns=\"\"><documentation>ghost</documentation></ghost>", "<" + xs("documentation") + ">ghost</" + xs("documentation") + ">"}[a.r.IntN(5)] +
				"</" + xs("appinfo") + ">"})
			continue
		}
		a.n++
		t := fmt.Sprintf("%s%dq ", a.mark, a.n) + richDoc(a.r)
		texts = append(texts, t)
		at := []string{"", ` xml:lang="en"`, ` source="urn:y"`, ` xmlns:h="http://www.w3.org/1999/xhtml"`, ` xmlns=""`}[a.r.IntN(5)]
		if a.px.XS == "" && at == ` xmlns=""` {
			at = ""
		}
		raw := escText(strings.ReplaceAll(t, "\r", "\x00"))
		raw = strings.ReplaceAll(raw, "\x00", "&#13;")
		if a.r.IntN(3) == 0 { // markup inside
			f := strings.SplitAfter(raw, " ")
			opens := []string{"<p>", "<h:b xmlns:h=\"urn:h\">", "<" + xs("element") + ` name="ghost">`, "<" + xs("documentation") + ">", "<" + xs("complexType") + ` name="ghost">`, "<" + xs("appinfo") + ">", "<" + xs("schema") + ">", "<name type=\"x\">"}
			if a.r.IntN(2) == 0 { // around the rest of the text
				open := opens[a.r.IntN(len(opens))]
				raw = f[0] + open + " " + strings.Join(f[1:], "") + endOf(open)
			} else { // around words, beside and inside of each other
				var b strings.Builder
				var stack []string
				b.WriteString(f[0])
				for _, w := range f[1:] {
					for a.r.IntN(3) == 0 && len(stack) > 0 {
						b.WriteString(endOf(stack[len(stack)-1]) + " ")
						stack = stack[:len(stack)-1]
					}
					switch {
					case a.r.IntN(6) == 0 && len(stack) < 3:
						stack = append(stack, opens[a.r.IntN(len(opens))])
						b.WriteString(stack[len(stack)-1])
					case a.r.IntN(12) == 0:
						b.WriteString("<br/> ")
					}
					b.WriteString(w)
				}
				for ; len(stack) > 0; stack = stack[:len(stack)-1] {
					b.WriteString(endOf(stack[len(stack)-1]))
				}
				raw = b.String()
			}
		}
		if a.r.IntN(6) == 0 {
			raw = "<!-- ghost -->" + raw + "<?ghost?>"
		}
		ann.add(&Node{Raw: "<" + xs("documentation") + at + ">" + raw + "</" + xs("documentation") + ">"})
	}
	return ann, texts
}

// annotateTree puts annotations and foreign attributes everywhere and returns
// the texts of the documentation of the nodes below the root.
func annotateTree(c *Ctx, a *annotator, tree *Node, pct int) map[*Node][]string {
	docOf := map[*Node][]string{}
	for _, n := range allNodes(tree) {
		if n.Name == "schema" {
			for i := c.R.IntN(3); i > 0; i-- {
				ann, _ := a.annotation()
				k := c.R.IntN(len(n.Kids) + 1)
				n.Kids = append(n.Kids[:k:k], append([]*Node{ann}, n.Kids[k:]...)...)
			}
		} else if c.R.IntN(100) < pct {
			ann, t := a.annotation()
			n.Kids = append([]*Node{ann}, n.Kids...)
			docOf[n] = t
		}
		if c.R.IntN(100) < pct/2 {
			k := []string{"name", "type", "ref", "base", "use", "maxOccurs", "minOccurs", "value", "memberTypes", "itemType", "schemaLocation", "hint"}[c.R.IntN(12)]
			v := []string{"ghost", "unbounded", "required", "int", "9", "optional"}[c.R.IntN(6)]
			at := [2]string{"fo:" + k, v}
			if c.R.IntN(2) == 0 {
				n.Attrs = append([][2]string{at}, n.Attrs...)
			} else {
				n.Attrs = append(n.Attrs, at)
			}
		}
		if c.R.IntN(100) < 3 && n.Name != "schema" {
			n.attr("id", fmt.Sprint("id", c.R.IntN(1000000)))
		}
	}
	tree.attr("xmlns:fo", "urn:foreign")
	return docOf
}

// runC16Files is runC16 for a schema in several files.
func runC16Files(c *Ctx) {
	s := modelSchema(c.R, c.I, func(g *GenCfg) { g.Docs = false })
	eachDoc(s, func(d *string) { *d = "" })
	scatter(c.R, s)
	if c.R.IntN(2) == 0 {
		s.Noise = c.R.Uint64()
	}
	pxs := make([]Prefixes, len(s.Files))
	for f := range s.Files {
		pxs[f] = scatterPx(c.R, s, f)
	}
	in, od := filepath.Join(c.Dir, "in"), filepath.Join(c.Dir, "out")
	files := map[string]string{}
	var want map[string]string
	for v := 0; v < 3; v++ {
		a := &annotator{r: c.R, mark: "zq"}
		texts := map[string]string{}
		for f := range s.Files {
			tree := build(s, f, pxs[f])
			p, st, in := s.Files[f].Path, &Style{}, "reference/"
			if v > 0 && c.R.IntN(4) > 0 {
				a.px = pxs[f]
				annotateTree(c, a, tree, []int{5, 30, 80}[c.R.IntN(3)])
			}
			if v > 0 {
				st.R, in = c.R, "variant/"
			}
			texts[p] = st.write(pxs[f], tree)
			files[in+p] = texts[p]
		}
		if v == 0 {
			c.sample(texts[s.Files[0].Path])
		} else {
			c.count("variants", 1)
			c.count("annotations", a.n)
		}
		os.RemoveAll(in)
		writeFiles(in, texts)
		got := map[string]string{}
		for _, lang := range langs {
			os.RemoveAll(od)
			if o := translateDir(lang, in, od, ""); !o.ok() {
				c.violate(files, "%s: annotated schemas in several files: %s", lang, o)
				return
			}
			c.count("translations", len(s.Files))
			for p, x := range snapshot(od) {
				if strings.HasPrefix(x, "f:") {
					x = stripComments(lang, x[2:])
				}
				got[p] = x
			}
			for _, f := range s.Files {
				e := parse(newOptions(lang, filepath.Join(in, f.Path), in, od, "", true))
				if !e.ok() {
					c.violate(files, "%s: %s of annotated schemas in several files: %s", lang, f.Path, e)
					return
				}
				got["tree of "+f.Path+" "+lang] = treeJSON(e.Opt.ProtoTree, false)
			}
		}
		if v == 0 {
			want = got
			continue
		}
		for _, p := range sortedKeys(got) {
			if got[p] != want[p] {
				c.violate(files, "annotations in schemas in several files change %s: %s", p, firstDiff(want[p], got[p]))
				return
			}
		}
	}
}

func runC16(c *Ctx) {
	if c.I%6 == 5 {
		runC16Files(c)
		return
	}
	s := modelSchema(c.R, c.I, func(g *GenCfg) { g.Docs = false })
	eachDoc(s, func(d *string) { *d = "" })
	if c.R.IntN(2) == 0 {
		s.Noise = c.R.Uint64()
	}
	m := expect(s)
	px := Prefixes{XS: []string{"xs", "xsd", ""}[c.R.IntN(3)]}
	if px.XS == "" {
		s.Files[0].NS, px.TNS = "urn:t", "t"
	}
	ref := (&Style{}).write(px, build(s, 0, px))
	c.sample(ref)
	want, _, o := genAll(c, "schema.xsd", []byte(ref))
	if !o.ok() {
		c.violate(map[string]string{"schema.xsd": ref}, "valid schema: %s", o)
		return
	}
	wantTree := map[string]string{}
	for _, lang := range langs {
		e := parse(newOptions(lang, filepath.Join(c.Dir, "in", "schema.xsd"), "", "", "", true))
		wantTree[lang] = treeJSON(e.Opt.ProtoTree, false)
	}
	for v := 0; v < 2; v++ {
		tree := build(s, 0, px)
		a := &annotator{r: c.R, px: px, mark: "zq"}
		pct := []int{5, 30, 80}[c.R.IntN(3)]
		docOf := annotateTree(c, a, tree, pct)
		// what documentation belongs to which declaration
		docs := map[string][]string{}
		maybe := map[string][]string{} // documentation that may be there as well
		var walk func(n *Node)
		walk = func(n *Node) {
			name := ""
			for _, at := range n.Attrs {
				if at[0] == "name" {
					name = at[1]
				}
			}
			if name != "" && n.Name == "element" {
				for _, k := range n.Kids {
					if k.Name == "complexType" {
						docs[dkey(name)] = append(append([]string(nil), docOf[n]...), docOf[k]...)
					}
				}
			}
			for _, k := range n.Kids {
				walk(k)
			}
		}
		for _, n := range tree.Kids {
			walk(n)
			if n.Name == "element" && n.val("name") != "" && n.val("name") == local(n.val("type")) {
				// one declaration for the element and its type
				maybe[dkey(n.val("name"))] = append(maybe[dkey(n.val("name"))], alnum(strings.Join(docOf[n], "")))
				continue
			}
			for _, at := range n.Attrs {
				if at[0] == "name" && docs[dkey(at[1])] == nil {
					docs[dkey(at[1])] = docOf[n]
					for _, k := range n.Kids {
						if k.Name == "simpleType" {
							maybe[dkey(at[1])] = append(maybe[dkey(at[1])], alnum(strings.Join(docOf[k], "")))
						}
					}
				}
			}
		}
		text := (&Style{R: c.R}).write(px, tree)
		c.count("variants", 1)
		c.count("annotations", a.n)
		files := map[string]string{"reference/schema.xsd": ref, "variant/schema.xsd": text}
		got, _, o := genAll(c, "schema.xsd", []byte(text))
		if !o.ok() {
			c.violate(files, "an annotated schema: %s", o)
			return
		}
		for _, lang := range langs {
			files["reference/out"+langExt[lang]] = want[lang]
			files["variant/out"+langExt[lang]] = got[lang]
			if w, g := stripComments(lang, want[lang]), stripComments(lang, got[lang]); w != g {
				c.violate(files, "%s: annotations change the code: %s", lang, firstDiff(w, g))
				return
			}
			e := parse(newOptions(lang, filepath.Join(c.Dir, "in", "schema.xsd"), "", "", "", true))
			if g := treeJSON(e.Opt.ProtoTree, false); g != wantTree[lang] {
				c.violate(files, "%s: annotations change the parsed tree: %s", lang, firstDiff(wantTree[lang], g))
				return
			}
			f, err := observe(lang, got[lang])
			if err != nil {
				c.violate(files, "%s: the output for an annotated schema cannot be read: %v", lang, err)
				return
			}
			for i := range f.Decls {
				od := &f.Decls[i]
				x := m.find(od.Ident)
				if x == nil {
					continue // C05
				}
				text := alnum(od.Doc)
				rest := text
				for _, d := range docs[dkey(x.Name)] {
					c.count("documentation located", 1)
					if w := textWords(od.Doc); !strings.Contains(w, textWords(d)) {
						c.violate(files, "%s: the comment of %s alters the words of its documentation %.200q: %.300q", lang, x.Name, d, od.Doc)
						return
					}
					if !strings.Contains(rest, alnum(d)) {
						c.violate(files, "%s: the comment of %s lacks its documentation %.200q: %.300q", lang, x.Name, d, od.Doc)
						return
					}
					rest = strings.Replace(rest, alnum(d), "", 1)
				}
				for _, d := range maybe[dkey(x.Name)] {
					rest = strings.Replace(rest, d, "", 1)
				}
				for k := 1; k <= a.n; k++ {
					if strings.Contains(rest, fmt.Sprintf("%s%dq", a.mark, k)) {
						c.violate(files, "%s: the comment of %s has documentation of something else: %.300q", lang, x.Name, od.Doc)
						return
					}
				}
				c.shape(fmt.Sprint(lang, x.Kind, x.Anon, len(docs[dkey(x.Name)]), pct))
			}
		}
	}
}

// ---- C18 ----

// deps returns the names of the components that c refers to.
func deps(c *Comp) map[string]bool {
	out := map[string]bool{}
	t := func(r TypeRef) {
		if r.Name != "" {
			out[r.Name] = true
		}
	}
	var sd func(d *SimpleDef)
	sd = func(d *SimpleDef) {
		if d == nil {
			return
		}
		t(d.Base)
		for _, m := range d.Members {
			t(m)
		}
		for _, i := range d.Inline {
			sd(i)
		}
	}
	at := func(l []*AttrUse) {
		for _, a := range l {
			if a.Ref || a.Group {
				out[a.Name] = true
				continue
			}
			t(a.Type)
			sd(a.Simple)
		}
	}
	var cd func(d *ComplexDef)
	var pt func(p *Particle)
	elem := func(e *ElemDecl) {
		if e.Ref {
			out[e.Name] = true
			return
		}
		t(e.Type)
		sd(e.Simple)
		cd(e.Complex)
	}
	pt = func(p *Particle) {
		if p == nil {
			return
		}
		if p.Elem != nil {
			elem(p.Elem)
		}
		if p.Group != "" {
			out[p.Group] = true
		}
		for _, k := range p.Kids {
			pt(k)
		}
	}
	cd = func(d *ComplexDef) {
		if d == nil {
			return
		}
		t(d.Base)
		pt(d.Particle)
		at(d.Attrs)
	}
	sd(c.Simple)
	cd(c.Complex)
	pt(c.Particle)
	at(c.Attrs)
	if c.Elem != nil {
		elem(c.Elem)
	}
	if c.Attr != nil {
		at([]*AttrUse{c.Attr})
	}
	return out
}

// closure of a set of components under deps.
func (s *Schema) closure(names ...string) map[string]bool {
	set := map[string]bool{}
	for len(names) > 0 {
		n := names[0]
		names = names[1:]
		if set[n] {
			continue
		}
		set[n] = true
		for d := range deps(s.comp(n)) {
			names = append(names, d)
		}
	}
	return set
}

// runC18Files is runC18 for a schema in several files: the order of components
// and of includes and imports changes, and a file gets unrelated components.
func runC18Files(c *Ctx) {
	cfg := fullCfg()
	s, used := newSchemaUsed(c.R, cfg, nil)
	scatter(c.R, s)
	for _, x := range s.Comps {
		cfg.TwinOf = append(cfg.TwinOf, x.Name)
	}
	s2, _ := newSchemaUsed(c.R, cfg, used)
	pxs := make([]Prefixes, len(s.Files))
	for f := range s.Files {
		pxs[f] = scatterPx(c.R, s, f)
	}
	in, od := filepath.Join(c.Dir, "in"), filepath.Join(c.Dir, "out")
	files := map[string]string{}
	want := map[string]map[string]*ODecl{}
	for v := 0; v < 4; v++ {
		kind := []string{"as it is", "permuted", "reversed", "unrelated components added"}[v]
		t := &Schema{Comps: append([]*Comp(nil), s.Comps...), Files: append([]FileSpec(nil), s.Files...)}
		switch v {
		case 1:
			c.R.Shuffle(len(t.Comps), func(i, j int) { t.Comps[i], t.Comps[j] = t.Comps[j], t.Comps[i] })
			for f := range t.Files {
				inc, imp := append([]int(nil), t.Files[f].Includes...), append([]int(nil), t.Files[f].Imports...)
				c.R.Shuffle(len(inc), func(i, j int) { inc[i], inc[j] = inc[j], inc[i] })
				c.R.Shuffle(len(imp), func(i, j int) { imp[i], imp[j] = imp[j], imp[i] })
				t.Files[f].Includes, t.Files[f].Imports = inc, imp
			}
		case 2:
			for i, x := range s.Comps {
				t.Comps[len(t.Comps)-1-i] = x
			}
		case 3:
			f := c.R.IntN(len(t.Files))
			for _, x := range s2.Comps {
				x.File = f
			}
			t.Comps = nil
			for _, x := range s.Comps {
				for c.R.IntN(3) == 0 && len(s2.Comps) > 0 {
					t.Comps = append(t.Comps, s2.Comps[0])
					s2.Comps = s2.Comps[1:]
				}
				t.Comps = append(t.Comps, x)
			}
			t.Comps = append(t.Comps, s2.Comps...)
		}
		if c.R.IntN(2) == 0 {
			t.Noise = c.R.Uint64()
		}
		texts := renderAll(t, func(f int) Prefixes { return pxs[f] }, &Style{})
		for p, x := range texts {
			if v == 0 {
				files["reference/"+p] = x
			} else {
				files["variant/"+p] = x
			}
		}
		if v == 0 {
			c.sample(texts[s.Files[0].Path])
		} else {
			c.count("variants", 1)
		}
		os.RemoveAll(in)
		writeFiles(in, texts)
		for _, lang := range langs {
			os.RemoveAll(od)
			if o := translateDir(lang, in, od, ""); !o.ok() {
				c.violate(files, "%s: schemas in several files, %s: %s", lang, kind, o)
				return
			}
			c.count("translations", len(s.Files))
			for _, f := range s.Files {
				p := f.Path + langExt[lang]
				b, err := os.ReadFile(filepath.Join(od, p))
				if err != nil {
					c.violate(files, "schemas in several files, %s: no output %s", kind, p)
					return
				}
				o, err := observe(lang, string(b))
				if err != nil {
					c.violate(files, "schemas in several files, %s: %s cannot be read: %v", kind, p, err)
					return
				}
				by := map[string]*ODecl{}
				for i := range o.Decls {
					d := &o.Decls[i]
					d.Doc = strings.TrimPrefix(d.Doc, strings.TrimPrefix(genMark, "// ")+"\n")
					by[dkey(d.Ident)] = d
				}
				if v == 0 {
					want[p] = by
					continue
				}
				for _, k := range sortedKeys(want[p]) {
					c.count("declarations compared", 1)
					d := want[p][k]
					e := by[k]
					if e == nil {
						c.violate(files, "schemas in several files, %s: %s is not declared in %s any more", kind, d.Ident, p)
						return
					}
					if !reflect.DeepEqual(d, e) {
						a, _ := json.Marshal(d)
						b, _ := json.Marshal(e)
						c.violate(files, "schemas in several files, %s: the declaration of %s in %s changes\nfrom %s\nto   %s", kind, d.Ident, p, a, b)
						return
					}
				}
				if v != 3 && len(by) != len(want[p]) {
					c.violate(files, "schemas in several files, %s: %d declarations in %s, %d before", kind, len(by), p, len(want[p]))
					return
				}
				c.shape(fmt.Sprint("files ", lang, v, len(f.Includes), len(f.Imports), len(by)))
			}
		}
	}
}

func runC18(c *Ctx) {
	if c.I%6 == 5 {
		runC18Files(c)
		return
	}
	cfg := fullCfg()
	if c.I%3 == 0 {
		cfg.MaxSimple, cfg.MaxComplex, cfg.MaxElem, cfg.MaxAttr, cfg.MaxGroup, cfg.MaxAttrGroup = 2, 2, 2, 1, 1, 1
	}
	s, used := newSchemaUsed(c.R, cfg, nil)
	for _, d := range expect(s).Decls { // unrelated components named like local ones
		for _, x := range d.Members {
			if n := norm(x.Name); !x.Ref && !reserved[n] && !notGlobal[n] {
				cfg.NamePool = append(cfg.NamePool, x.Name)
			}
		}
	}
	for _, x := range s.Comps {
		cfg.TwinOf = append(cfg.TwinOf, x.Name)
	}
	s2, _ := newSchemaUsed(c.R, cfg, used)
	px := Prefixes{XS: "xs"}
	run := func(t *Schema) (text string, obs map[string]*OFile, outs map[string]string, o Outcome) {
		if c.R.IntN(2) == 0 {
			t.Noise = c.R.Uint64()
		}
		text = (&Style{}).write(px, build(t, 0, px))
		obs = map[string]*OFile{}
		outs, _, o = genAll(c, "schema.xsd", []byte(text))
		if !o.ok() {
			return
		}
		for _, lang := range langs {
			f, err := observe(lang, outs[lang])
			if err != nil {
				o.Err = fmt.Errorf("%s: %v", lang, err)
				return
			}
			for i := range f.Decls { // the mark of the file is not part of the first declaration
				f.Decls[i].Doc = strings.TrimPrefix(f.Decls[i].Doc, strings.TrimPrefix(genMark, "// ")+"\n")
			}
			obs[lang] = f
		}
		return
	}
	ref, refObs, refOut, o := run(s)
	c.sample(ref)
	if !o.ok() {
		c.violate(map[string]string{"schema.xsd": ref}, "valid schema: %s", o)
		return
	}
	for v := 0; v < 5; v++ {
		t := &Schema{Files: s.Files}
		kind := ""
		switch v {
		case 0:
			kind = "permuted"
			t.Comps = append(t.Comps, s.Comps...)
		case 1:
			kind = "one component with what it refers to"
			set := s.closure(s.Comps[c.R.IntN(len(s.Comps))].Name)
			for _, x := range s.Comps {
				if set[x.Name] {
					t.Comps = append(t.Comps, x)
				}
			}
		case 2:
			kind = "unrelated components removed"
			set := map[string]bool{}
			for _, x := range s.Comps {
				if c.R.IntN(2) == 0 {
					for n := range s.closure(x.Name) {
						set[n] = true
					}
				}
			}
			for _, x := range s.Comps {
				if set[x.Name] {
					t.Comps = append(t.Comps, x)
				}
			}
		case 3:
			kind = "unrelated components added"
			for _, x := range s.Comps {
				for c.R.IntN(3) == 0 && len(s2.Comps) > 0 {
					t.Comps = append(t.Comps, s2.Comps[0])
					s2.Comps = s2.Comps[1:]
				}
				t.Comps = append(t.Comps, x)
			}
			t.Comps = append(t.Comps, s2.Comps...)
			// everything s2 needs must be there
			// (s2.Comps was consumed in order, all of it is included)
		case 4:
			kind = "reversed"
			for i := len(s.Comps) - 1; i >= 0; i-- {
				t.Comps = append(t.Comps, s.Comps[i])
			}
		}
		if v == 0 || v == 2 && c.R.IntN(2) == 0 {
			c.R.Shuffle(len(t.Comps), func(i, j int) { t.Comps[i], t.Comps[j] = t.Comps[j], t.Comps[i] })
		}
		text, obs, outs, o := run(t)
		files := map[string]string{"reference/schema.xsd": ref, "variant/schema.xsd": text}
		c.count("variants", 1)
		if !o.ok() {
			c.violate(files, "%s: %s", kind, o)
			return
		}
		tm := expect(t)
		for _, lang := range langs {
			files["reference/out"+langExt[lang]] = refOut[lang]
			files["variant/out"+langExt[lang]] = outs[lang]
			by := map[string]*ODecl{}
			for i := range obs[lang].Decls {
				d := &obs[lang].Decls[i]
				by[dkey(d.Ident)] = d
			}
			for i := range refObs[lang].Decls {
				d := &refObs[lang].Decls[i]
				x := tm.By[dkey(d.Ident)]
				if x == nil {
					continue
				}
				c.count("declarations compared", 1)
				e := by[dkey(d.Ident)]
				if e == nil {
					c.violate(files, "%s: %s: %s is not declared any more", lang, kind, d.Ident)
					return
				}
				if !reflect.DeepEqual(d, e) {
					a, _ := json.Marshal(d)
					b, _ := json.Marshal(e)
					c.violate(files, "%s: %s: the declaration of %s changes\nfrom %s\nto   %s", lang, kind, d.Ident, a, b)
					return
				}
				c.shape(fmt.Sprint(lang, v, shape(x)))
			}
			if ds := diffsOf(compareFile(lang, tm, obs[lang], nil, nil), aDecl); len(ds) > 0 {
				c.violate(files, "%s: %s", kind, ds[0].Msg)
				return
			}
		}
	}
}

func init() {
	register(&Driver{ID: "C16", Level: "exploration", Method: "metamorphic monitor", Rule: "schemas with and without annotations x 5 languages; distinct = kind of declaration and its documentation",
		Quick: 2000, Deep: 60000, Run: runC16, MinN: []string{"variants", "documentation located"}})
	register(&Driver{ID: "C17", Level: "exploration", Method: "metamorphic monitor", Rule: "lexical variants of schemas x 5 languages; distinct = combinations of lexical choices",
		Quick: 2000, Deep: 60000, Run: runC17, MinN: []string{"variants"}})
	register(&Driver{ID: "C18", Level: "exploration", Method: "metamorphic monitor", Rule: "schemas and permutations, restrictions, extensions of them x 5 languages; distinct = structurally different declarations per variation",
		Quick: 2000, Deep: 60000, Run: runC18, MinN: []string{"variants", "declarations compared"}})
}
