package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math/big"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// C14: the generated Go packages are compiled into a program that decodes
// generated instance documents and encodes what it got; the document that
// comes out is compared with the document that went in.

// inode is an element of an instance document.
type inode struct {
	Name  string
	Attrs []ival
	Kids  []*inode
	Val   ival
}

type ival struct{ Name, Text, Kind string }

type instGen struct {
	r    *rand.Rand
	s    *Schema
	size int
	big  bool
	m    *XModel
}

type tooDeep struct{}

var intRange = map[string][2]string{
	"byte": {"-128", "127"}, "unsignedByte": {"0", "255"}, "short": {"-32768", "32767"}, "unsignedShort": {"0", "65535"},
	"int": {"-2147483648", "2147483647"}, "unsignedInt": {"0", "4294967295"}, "long": {"-9223372036854775808", "9223372036854775807"},
	"unsignedLong": {"0", "18446744073709551615"}, "integer": {"-9223372036854775808", "9223372036854775807"},
	"negativeInteger": {"-9223372036854775808", "-1"}, "nonPositiveInteger": {"-9223372036854775808", "0"},
	"nonNegativeInteger": {"0", "9223372036854775807"}, "positiveInteger": {"1", "9223372036854775807"},
}

// builtin makes a value of a built-in type.
func (g *instGen) builtin(b string) (string, string) {
	word := func() string { return words[g.r.IntN(len(words))] }
	n := func(k int) int { return g.r.IntN(k) }
	if lim, ok := intRange[b]; ok {
		lo, _ := new(big.Int).SetString(lim[0], 10)
		hi, _ := new(big.Int).SetString(lim[1], 10)
		switch n(6) {
		case 0:
			return lim[0], "num"
		case 1:
			return lim[1], "num"
		}
		v := big.NewInt(int64(n(200) - 100))
		if n(2) == 0 {
			v = new(big.Int).SetUint64(g.r.Uint64() >> uint(n(64)))
			if n(2) == 0 {
				v.Neg(v)
			}
		}
		if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
			width := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
			v.Add(lo, v.Mod(v, width))
		}
		return v.String(), "num"
	}
	switch b {
	case "boolean":
		return []string{"true", "false", "1", "0"}[n(4)], "bool"
	case "decimal", "double":
		return fmt.Sprintf("%s%d.%d", []string{"", "-"}[n(2)], n(1000000), n(1000000)), "num"
	case "float":
		return fmt.Sprintf("%s%d.%d", []string{"", "-"}[n(2)], n(1000), n(100)), "float32"
	case "dateTime":
		return fmt.Sprintf("20%02d-0%d-1%dT0%d:30:15%s", n(100), 1+n(9), n(10), n(10), []string{"", "Z", "+02:00", ".125"}[n(4)]), ""
	case "date":
		return fmt.Sprintf("20%02d-0%d-1%d", n(100), 1+n(9), n(10)), ""
	case "time":
		return fmt.Sprintf("0%d:30:15", n(10)), ""
	case "duration":
		return fmt.Sprintf("P%dDT%dH", n(30), n(24)), ""
	case "gDay":
		return fmt.Sprintf("---1%d", n(10)), ""
	case "gMonth":
		return fmt.Sprintf("--0%d", 1+n(9)), ""
	case "gMonthDay":
		return fmt.Sprintf("--0%d-1%d", 1+n(9), n(10)), ""
	case "gYear":
		return fmt.Sprintf("19%02d", n(100)), ""
	case "gYearMonth":
		return fmt.Sprintf("19%02d-0%d", n(100), 1+n(9)), ""
	case "hexBinary":
		return strings.Repeat(fmt.Sprintf("%02X", n(256)), 1+n(5)), ""
	case "base64Binary":
		return []string{"QUJD", "QQ==", "QUI=", "AAECAwQF"}[n(4)], ""
	case "anyURI":
		return "http://example.org/" + word() + "?a=1&b=" + word(), ""
	case "language":
		return []string{"en", "de-DE", "x-klingon"}[n(3)], ""
	case "NMTOKENS", "IDREFS", "ENTITIES":
		return word() + " " + word(), ""
	case "ID", "IDREF", "NCName", "Name", "NMTOKEN", "ENTITY", "QName", "NOTATION":
		return word() + fmt.Sprint(n(100)), ""
	case "token":
		return []string{"007", word(), word() + " & " + word(), "<" + word() + ">", "\"'", "true", "1.50"}[n(7)], ""
	}
	t := []string{"007", word(), word() + " & " + word(), "<" + word() + ">", "]]>", "\"'", "  " + word() + "  ", "1.50", "größe", "привет", "a\tb", "a\nb", "true", "日本", "\U0001F600", word() + "."}[n(16)]
	if strings.TrimSpace(t) == "" {
		t = word()
	}
	return t, ""
}

func (g *instGen) simple(t TypeRef, d *SimpleDef) (string, string) {
	if d == nil {
		if t.Builtin != "" {
			return g.builtin(t.Builtin)
		}
		return g.simple(TypeRef{}, g.s.comp(t.Name).Simple)
	}
	var en []string
	for _, f := range d.Facets {
		if f.Name == "enumeration" {
			en = append(en, f.Value)
		}
	}
	switch d.Variety {
	case "list":
		var l []string
		for i := 1 + g.r.IntN(3); i > 0; i-- {
			var v string
			if len(d.Inline) > 0 {
				v, _ = g.simple(TypeRef{}, d.Inline[0])
			} else {
				v, _ = g.simple(d.Base, nil)
			}
			l = append(l, strings.Join(strings.Fields(v), "-"))
		}
		return strings.Join(l, " "), ""
	case "union":
		k := g.r.IntN(len(d.Members) + len(d.Inline))
		if k < len(d.Members) {
			return g.simple(d.Members[k], nil)
		}
		return g.simple(TypeRef{}, d.Inline[k-len(d.Members)])
	}
	if len(en) > 0 {
		_, kind := g.simple(d.Base, nil)
		v := en[g.r.IntN(len(en))]
		if kind != "" { // the sign is not part of the value
			v = strings.TrimPrefix(v, "+")
		}
		return v, kind
	}
	return g.simple(d.Base, nil)
}

// zeroish values of optional attributes are not carried (known finding).
func zeroish(v ival) bool {
	if v.Kind == "" {
		return v.Text == ""
	}
	if v.Kind == "bool" {
		return v.Text == "false" || v.Text == "0"
	}
	r, ok := new(big.Rat).SetString(v.Text)
	return !ok || r.Sign() == 0
}

func (g *instGen) attrs(n *inode, as []*AttrUse) {
	for _, a := range as {
		if a.Group {
			g.attrs(n, g.s.comp(a.Name).Attrs)
			continue
		}
		if a.Use == "prohibited" || a.Use != "required" && g.r.IntN(3) == 0 {
			continue
		}
		d := a
		if a.Ref {
			d = g.s.comp(a.Name).Attr
		}
		v := ival{Name: a.Name}
		fixed := ""
		for _, x := range append(append([][2]string{}, a.Extra...), d.Extra...) {
			if x[0] == "fixed" {
				fixed = x[1]
			}
		}
		switch {
		case a.XML:
			v.Text = "en"
		case d.Simple != nil:
			v.Text, v.Kind = g.simple(TypeRef{}, d.Simple)
		case d.Type.zero():
			v.Text, v.Kind = g.builtin("string")
		default:
			v.Text, v.Kind = g.simple(d.Type, nil)
		}
		if fixed != "" {
			v.Text = fixed
		}
		if a.Use != "required" && zeroish(v) {
			continue
		}
		n.Attrs = append(n.Attrs, v)
	}
}

func (g *instGen) complex(n *inode, c *ComplexDef, depth int) {
	if depth > 40 || g.size > 400 {
		panic(tooDeep{})
	}
	switch c.Deriv {
	case "simpleExt":
		b := g.s.comp(c.Base.Name)
		if b != nil && b.Kind == "complexType" {
			g.complex(n, b.Complex, depth)
		} else {
			n.Val.Text, n.Val.Kind = g.simple(c.Base, nil)
		}
	case "complexExt":
		g.complex(n, g.s.comp(c.Base.Name).Complex, depth)
	}
	g.attrs(n, c.Attrs)
	g.particle(n, c.Particle, depth)
}

// times picks how often a particle occurs.
func (g *instGen) times(p *Particle, depth int) int {
	lo, hi := 1, 1
	if p.Min != "" {
		fmt.Sscan(p.Min, &lo)
	}
	switch p.Max {
	case "":
	case "unbounded":
		hi = lo + 3
	default:
		fmt.Sscan(p.Max, &hi)
	}
	if hi < lo {
		hi = lo
	}
	if hi > lo+3 {
		hi = lo + 3
	}
	if depth > 6 || g.size > 120 {
		return lo
	}
	return lo + g.r.IntN(hi-lo+1)
}

func (g *instGen) particle(n *inode, p *Particle, depth int) {
	if p == nil {
		return
	}
	for i := g.times(p, depth); i > 0; i-- {
		switch p.Kind {
		case "sequence", "all":
			for _, k := range p.Kids {
				g.particle(n, k, depth)
			}
		case "choice":
			k := g.r.IntN(len(p.Kids))
			if depth > 6 { // the alternative that ends a recursion soonest
				for j, x := range p.Kids {
					if x.Min == "0" || x.Kind == "any" || x.Elem != nil && !x.Elem.Ref && x.Elem.Complex == nil && g.s.comp(x.Elem.Type.Name) == nil {
						k = j
					}
				}
			}
			g.particle(n, p.Kids[k], depth)
		case "group":
			g.particle(n, g.s.comp(p.Group).Particle, depth)
		case "element":
			g.size++
			c := &inode{Name: p.Elem.Name}
			g.element(c, p.Elem, depth+1)
			n.Kids = append(n.Kids, c)
		}
	}
}

func (g *instGen) element(n *inode, e *ElemDecl, depth int) {
	if e.Ref {
		e = g.s.elem(e.Name).Elem
	}
	switch {
	case e.Complex != nil:
		g.complex(n, e.Complex, depth)
	case e.Simple != nil:
		n.Val.Text, n.Val.Kind = g.simple(TypeRef{}, e.Simple)
	case e.Type.zero():
		n.Val.Text, n.Val.Kind = g.builtin("string")
	case e.Type.Builtin == "" && g.s.comp(e.Type.Name).Kind == "complexType":
		g.complex(n, g.s.comp(e.Type.Name).Complex, depth)
	default:
		n.Val.Text, n.Val.Kind = g.simple(e.Type, nil)
	}
}

// instance makes a document whose root is called name, nil if none of
// moderate size was found.
func (g *instGen) instance(name string, e *ElemDecl) (n *inode) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(tooDeep); !ok {
				panic(p)
			}
			n = nil
		}
	}()
	g.size = 0
	n = &inode{Name: name}
	g.element(n, e, 0)
	return n
}

func (n *inode) write(b *strings.Builder, r *rand.Rand, indent string) {
	b.WriteString(indent + "<" + n.Name)
	for _, i := range r.Perm(len(n.Attrs)) {
		b.WriteString(" " + n.Attrs[i].Name + "=\"" + escInst(n.Attrs[i].Text, true) + "\"")
	}
	if len(n.Kids) == 0 {
		if n.Val.Text == "" {
			b.WriteString("/>")
			return
		}
		b.WriteString(">" + escInst(n.Val.Text, false) + "</" + n.Name + ">")
		return
	}
	b.WriteString(">")
	for _, k := range n.Kids {
		k.write(b, r, indent+strings.Repeat(" ", r.IntN(2)))
		b.WriteString("\n")
	}
	b.WriteString("</" + n.Name + ">")
}

func escInst(s string, attr bool) string {
	s = strings.NewReplacer("&", "&amp;", "<", "&lt;", "]]>", "]]&gt;", "\r", "&#13;").Replace(s)
	if attr {
		s = strings.NewReplacer("\"", "&quot;", "\n", "&#10;", "\t", "&#9;").Replace(s)
	}
	return s
}

// readInst parses a document into nodes; text kinds are unknown.
func readInst(s string) (*inode, error) {
	dec := xml.NewDecoder(strings.NewReader(s))
	root := &inode{}
	stack := []*inode{root}
	for {
		t, err := dec.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		top := stack[len(stack)-1]
		switch t := t.(type) {
		case xml.StartElement:
			n := &inode{Name: t.Name.Local}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
					continue
				}
				nm := a.Name.Local
				if a.Name.Space != "" {
					nm = "xml:" + nm
				}
				n.Attrs = append(n.Attrs, ival{Name: nm, Text: a.Value})
			}
			top.Kids = append(top.Kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.Val.Text += string(t)
		}
	}
	if len(root.Kids) != 1 || len(stack) != 1 {
		return nil, fmt.Errorf("%d root elements", len(root.Kids))
	}
	return root.Kids[0], nil
}

func sameVal(in, out ival) bool {
	if in.Text == out.Text {
		return true
	}
	switch in.Kind {
	case "num":
		a, ok1 := new(big.Rat).SetString(strings.TrimSpace(in.Text))
		b, ok2 := new(big.Rat).SetString(out.Text)
		return ok1 && ok2 && a.Cmp(b) == 0
	case "float32":
		var a, b float32
		_, e1 := fmt.Sscan(in.Text, &a)
		_, e2 := fmt.Sscan(out.Text, &b)
		return e1 == nil && e2 == nil && a == b
	case "bool":
		return (in.Text == "true" || in.Text == "1") == (out.Text == "true") && (out.Text == "true" || out.Text == "false")
	}
	return false
}

// compareInst returns what was lost, altered or added.
func compareInst(path string, in, out *inode) string {
	path += "/" + in.Name
	if in.Name != out.Name {
		return fmt.Sprintf("%s comes back as %s", path, out.Name)
	}
	oa := map[string]ival{}
	for _, a := range out.Attrs {
		if _, dup := oa[a.Name]; dup {
			return fmt.Sprintf("%s: attribute %s comes back twice", path, a.Name)
		}
		oa[a.Name] = a
	}
	for _, a := range in.Attrs {
		o, ok := oa[a.Name]
		if !ok {
			return fmt.Sprintf("%s: attribute %s=%q is lost", path, a.Name, a.Text)
		}
		if !sameVal(a, o) {
			return fmt.Sprintf("%s: attribute %s=%q comes back as %q", path, a.Name, a.Text, o.Text)
		}
		delete(oa, a.Name)
	}
	for n, a := range oa {
		return fmt.Sprintf("%s: attribute %s=%q comes back, which the document did not have", path, n, a.Text)
	}
	if len(in.Kids) == 0 && !(len(out.Kids) > 0 && in.Val.Text == "") {
		if !sameVal(in.Val, out.Val) {
			return fmt.Sprintf("%s: text %q comes back as %q", path, in.Val.Text, out.Val.Text)
		}
	} else if strings.TrimSpace(out.Val.Text) != "" {
		return fmt.Sprintf("%s: text %q comes back, which the document did not have", path, out.Val.Text)
	}
	group := func(n *inode) map[string][]*inode {
		m := map[string][]*inode{}
		for _, k := range n.Kids {
			m[k.Name] = append(m[k.Name], k)
		}
		return m
	}
	gi, go_ := group(in), group(out)
	for _, name := range sortedKeys(gi) {
		a, b := gi[name], go_[name]
		if len(a) != len(b) {
			return fmt.Sprintf("%s: %d elements %s come back as %d", path, len(a), name, len(b))
		}
		for i := range a {
			if d := compareInst(path, a[i], b[i]); d != "" {
				return d
			}
		}
	}
	for _, name := range sortedKeys(go_) {
		if len(gi[name]) > 0 {
			continue
		}
		// an absent element of simple type is written with its zero value
		o := go_[name]
		if len(o) == 1 && len(o[0].Kids) == 0 && len(o[0].Attrs) == 0 && (o[0].Val.Text == "" || o[0].Val.Text == "0" || o[0].Val.Text == "false") {
			continue
		}
		return fmt.Sprintf("%s: element %s comes back, which the document did not have", path, name)
	}
	return ""
}

const rtMain = `package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"os"
%s)

type task struct {
	Pkg        int
	Root, Doc  string
}

var make_ = map[string]func() any{
%s}

func run(t task) (out string, err string) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Sprint("panic: ", p)
		}
	}()
	f := make_[fmt.Sprint(t.Pkg, " ", t.Root)]
	if f == nil {
		return "", "no type"
	}
	v := f()
	if e := xml.Unmarshal([]byte(t.Doc), v); e != nil {
		return "", "decoding: " + e.Error()
	}
	var b bytes.Buffer
	enc := xml.NewEncoder(&b)
	if e := enc.EncodeElement(v, xml.StartElement{Name: xml.Name{Local: t.Root}}); e != nil {
		return "", "encoding: " + e.Error()
	}
	enc.Close()
	return b.String(), ""
}

func main() {
	var ts []task
	if err := json.NewDecoder(os.Stdin).Decode(&ts); err != nil {
		panic(err)
	}
	var res [][2]string
	for _, t := range ts {
		o, e := run(t)
		res = append(res, [2]string{o, e})
	}
	json.NewEncoder(os.Stdout).Encode(res)
}
`

type rtTask struct {
	Pkg       int
	Root, Doc string
}

type rtUnit struct {
	s     *Schema
	text  string
	code  string
	roots map[string]string // document element -> Go type
	insts []*inode
	docs  []string
}

func rtEnv(env *Env) []string {
	return append(os.Environ(), "GOCACHE="+filepath.Join(env.Scratch, "gocache"), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off")
}

func goBuild(env *Env, dir string) (string, bool) {
	cmd := exec.Command("go", "build", "-o", "prog", ".")
	cmd.Dir = dir
	cmd.Env = rtEnv(env)
	out, err := cmd.CombinedOutput()
	return string(out), err == nil
}

func setupRT(env *Env) error {
	dir := filepath.Join(env.Scratch, "warm")
	writeFiles(dir, map[string]string{"go.mod": "module rt\n\ngo 1.20\n", "main.go": fmt.Sprintf(rtMain, "", "") + "\nvar _ = time.Now\n"})
	b, _ := os.ReadFile(filepath.Join(dir, "main.go"))
	writeFiles(dir, map[string]string{"main.go": strings.Replace(string(b), "\t\"os\"\n", "\t\"os\"\n\t\"time\"\n", 1)})
	if out, ok := goBuild(env, dir); !ok {
		return fmt.Errorf("go build: %s", out)
	}
	return nil
}

func rtCfg(r *rand.Rand) GenCfg {
	cfg := fullCfg()
	cfg.InlineLists, cfg.XMLApart = false, true
	cfg.CapTypes, cfg.Unions = true, false
	cfg.SameComplex = true
	cfg.MaxGroup, cfg.MaxAttrGroup = 0, 0
	cfg.Builtins = nil
	for _, b := range builtinNames() {
		switch b {
		case "QName", "time", "xml:lang", "xml:space", "xml:base", "xml:id":
			continue
		}
		cfg.Builtins = append(cfg.Builtins, b)
	}
	return cfg
}

// eachComplex visits every complex type definition.
func (s *Schema) eachComplex(f func(d *ComplexDef)) {
	var part func(p *Particle)
	def := func(d *ComplexDef) {
		if d != nil {
			f(d)
			part(d.Particle)
		}
	}
	part = func(p *Particle) {
		if p == nil {
			return
		}
		if p.Elem != nil {
			if d := p.Elem.Complex; d != nil {
				f(d)
				part(d.Particle)
			}
		}
		for _, k := range p.Kids {
			part(k)
		}
	}
	for _, c := range s.Comps {
		def(c.Complex)
		if c.Elem != nil {
			def(c.Elem.Complex)
		}
	}
}

// avoidKnown takes recorded findings out of a schema: repeated elements of
// type unsignedByte are []byte in Go, values of list types cannot be character
// data, and lists are not split into items.
func avoidKnown(s *Schema) {
	for _, c := range s.Comps {
		if c.Simple != nil && c.Simple.Variety == "list" && builtinTable[s.expandSimple("", c.Simple).Builtin][0] != "string" {
			c.Simple.Base, c.Simple.Inline = TypeRef{Builtin: "NMTOKEN"}, nil
		}
	}
	isByte := func(e *ElemDecl) bool {
		t, _ := s.elemType(e)
		return t.Builtin == "unsignedByte"
	}
	for _, c := range s.Comps {
		if c.Kind == "element" && c.Elem.Complex == nil && isByte(c.Elem) {
			c.Elem.Type, c.Elem.Simple = TypeRef{Builtin: "unsignedShort"}, nil
		}
	}
	s.eachComplex(func(d *ComplexDef) {
		for _, l := range leaves(d.Particle, false) {
			if e := l.P.Elem; e != nil && !e.Ref && e.Complex == nil && isByte(e) {
				dup := 0
				for _, m := range leaves(d.Particle, false) {
					if m.P.Elem != nil && m.P.Elem.Name == e.Name {
						dup++
					}
				}
				if l.Plural || dup > 1 {
					e.Type, e.Simple = TypeRef{Builtin: "unsignedShort"}, nil
				}
			}
		}
		if d.Deriv == "simpleExt" && (s.expand(d.Base).Decl == "") && strings.HasPrefix(builtinTable[s.expand(d.Base).Builtin][0], "[]") {
			d.Base = TypeRef{Builtin: "string"}
		}
	})
}

func runC14(c *Ctx) {
	const n = 20
	dir := filepath.Join(c.Dir, "m")
	var us []*rtUnit
	var imports, makers strings.Builder
	for k := 0; k < n; k++ {
		u := &rtUnit{s: newSchema(c.R, rtCfg(c.R)), roots: map[string]string{}}
		avoidKnown(u.s)
		pkg := fmt.Sprintf("p%d", k)
		ids := map[string]string{}
		ns := ""
		take := func(code string) bool {
			u.code += "// ---- file ----\n" + code
			f, err := observe("Go", code)
			if err != nil {
				c.violate(map[string]string{"schema.xsd": u.text, "out.go": code}, "generated file is not Go: %v", err)
				return false
			}
			for _, d := range f.Decls {
				ids[dkey(d.Ident)] = d.Ident
			}
			return true
		}
		if c.R.IntN(3) == 0 {
			// several documents that make one package
			scatter(c.R, u.s)
			texts := renderAll(u.s, func(f int) Prefixes { return scatterPx(c.R, u.s, f) }, &Style{})
			in, od := filepath.Join(c.Dir, "sin"), filepath.Join(c.Dir, "sout")
			os.RemoveAll(in)
			os.RemoveAll(od)
			writeFiles(in, texts)
			for _, p := range sortedKeys(texts) {
				u.text += "<!-- " + p + " -->\n" + texts[p]
			}
			if o := translateDir("Go", in, od, pkg); !o.ok() {
				c.violate(map[string]string{"schema.xsd": u.text}, "valid schema: %s", o)
				return
			}
			for i, f := range u.s.Files {
				b, err := os.ReadFile(filepath.Join(od, f.Path+".go"))
				if err != nil {
					c.violate(map[string]string{"schema.xsd": u.text}, "no output: %v", err)
					return
				}
				if !take(string(b)) {
					return
				}
				ns = f.NS
				writeFiles(dir, map[string]string{fmt.Sprintf("%s/f%d.go", pkg, i): string(b)})
			}
			c.count("packages of several files", 1)
		} else {
			px := Prefixes{XS: []string{"xs", "xsd"}[c.R.IntN(2)]}
			if c.R.IntN(3) == 0 {
				ns = "urn:one"
				u.s.Files[0].NS, px.TNS = ns, "tns"
			}
			tree := build(u.s, 0, px)
			if c.R.IntN(2) == 0 {
				noise(c.R, tree)
			}
			u.text = (&Style{}).write(px, tree)
			code, o := genText(c, "Go", "schema.xsd", u.text, pkg)
			if !o.ok() {
				c.violate(map[string]string{"schema.xsd": u.text}, "valid schema: %s", o)
				return
			}
			if !take(code) {
				return
			}
			writeFiles(dir, map[string]string{pkg + "/f0.go": code})
		}
		code := u.code
		m := expect(u.s)
		for _, d := range m.Decls {
			c.shape(shape(d))
		}
		g := &instGen{r: c.R, s: u.s, m: m}
		for _, comp := range u.s.Comps {
			var e *ElemDecl
			switch comp.Kind {
			case "element":
				e = comp.Elem
			case "complexType":
				e = &ElemDecl{Name: comp.Name, Type: TypeRef{Name: comp.Name}}
			default:
				continue
			}
			id, ok := ids[dkey(comp.Name)]
			if !ok {
				c.violate(map[string]string{"schema.xsd": u.text, "out.go": code}, "no Go type for %s %s", comp.Kind, comp.Name)
				return
			}
			for i := 0; i < 3; i++ {
				in := g.instance(comp.Name, e)
				if in == nil {
					continue
				}
				u.roots[comp.Name] = id
				var b strings.Builder
				in.write(&b, c.R, "")
				if ns != "" && c.R.IntN(2) == 0 {
					i := strings.IndexAny(b.String(), " />")
					d := b.String()[:i] + " xmlns=\"" + ns + "\"" + b.String()[i:]
					b.Reset()
					b.WriteString(d)
				}
				u.insts = append(u.insts, in)
				u.docs = append(u.docs, b.String())
			}
		}
		use := false
		for _, name := range sortedKeys(u.roots) {
			use = true
			fmt.Fprintf(&makers, "\t%q: func() any { return new(p%d.%s) },\n", fmt.Sprint(k, " ", name), k, u.roots[name])
		}
		if use {
			fmt.Fprintf(&imports, "\t\"rt/p%d\"\n", k)
		} else {
			fmt.Fprintf(&imports, "\t_ \"rt/p%d\"\n", k)
		}
		us = append(us, u)
	}
	writeFiles(dir, map[string]string{"go.mod": "module rt\n\ngo 1.20\n", "main.go": fmt.Sprintf(rtMain, imports.String(), makers.String())})
	c.sample(us[0].text)
	out, ok := goBuild(c.Env, dir)
	c.count("Go packages built", n)
	if !ok {
		if m := regexp.MustCompile(`p(\d+)/f\d+\.go:`).FindStringSubmatch(out); m != nil {
			k := 0
			fmt.Sscan(m[1], &k)
			c.violate(map[string]string{"schema.xsd": us[k].text, "out.go": us[k].code}, "the generated package does not build: %s", out)
			return
		}
		panic("go build: " + out)
	}
	var ts []rtTask
	var src [][2]int
	for k, u := range us {
		for i := range u.insts {
			ts = append(ts, rtTask{k, u.insts[i].Name, u.docs[i]})
			src = append(src, [2]int{k, i})
		}
	}
	js, _ := json.Marshal(ts)
	cmd := exec.Command(filepath.Join(dir, "prog"))
	cmd.Dir = dir
	cmd.Stdin = bytes.NewReader(js)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	tm := time.AfterFunc(2*time.Minute, func() { cmd.Process.Kill() })
	err := cmd.Run()
	tm.Stop()
	var res [][2]string
	if err != nil || json.Unmarshal(so.Bytes(), &res) != nil || len(res) != len(ts) {
		all := map[string]string{}
		for k, u := range us {
			all[fmt.Sprintf("s%d.xsd", k)] = u.text
		}
		c.violate(all, "the program made of the generated packages failed: %v %s", err, tailOf(se.String()))
		return
	}
	for i, rs := range res {
		u := us[src[i][0]]
		in := u.insts[src[i][1]]
		c.count("documents", 1)
		files := map[string]string{"schema.xsd": u.text, "out.go": u.code, "document.xml": ts[i].Doc, "encoded.xml": rs[0]}
		if rs[1] != "" {
			c.violate(files, "%s: %s", in.Name, rs[1])
			continue
		}
		back, err := readInst(rs[0])
		if err != nil {
			c.violate(files, "%s: the encoded document is not XML: %v", in.Name, err)
			continue
		}
		c.count("elements compared", countNodes(in))
		if d := compareInst("", in, back); d != "" {
			c.violate(files, "%s", d)
		}
	}
}

func countNodes(n *inode) int {
	k := 1
	for _, x := range n.Kids {
		k += countNodes(x)
	}
	return k
}

func tailOf(s string) string {
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

func init() {
	register(&Driver{ID: "C14", Level: "exploration", Method: "generated programs run on generated documents",
		Rule:  "random valid schemas (20 per case), up to 3 documents per global element and complex type, decoded and encoded by the compiled generated code; distinct = structurally different declarations",
		Quick: 400, Deep: 1500, Run: runC14, Root: true, Setup: setupRT, Timeout: 300,
		MinN:   []string{"documents", "elements compared"},
		Assume: []string{}})
}
