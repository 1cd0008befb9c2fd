package main

import (
	"fmt"
	"math/rand/v2"
	"path"
	"strings"
)

// Rendering of the model as XSD text. build makes a plain element tree,
// Style.write serialises it; the two are separate so that the same tree can be
// written in many lexically different ways.

const xsdNS = "http://www.w3.org/2001/XMLSchema"

type Node struct {
	Name  string // local name in the XSD namespace
	Attrs [][2]string
	Kids  []*Node
	Text  string // character content (documentation)
	Raw   string // written verbatim instead of everything else
}

func (n *Node) attr(k, v string) *Node { n.Attrs = append(n.Attrs, [2]string{k, v}); return n }

// val is the value of an attribute.
func (n *Node) val(k string) string {
	for _, a := range n.Attrs {
		if a[0] == k {
			return a[1]
		}
	}
	return ""
}

func (n *Node) add(k ...*Node) *Node { n.Kids = append(n.Kids, k...); return n }

// Prefixes chooses how names are qualified in one document.
type Prefixes struct {
	XS  string            // prefix bound to the XSD namespace, "" = default namespace
	TNS string            // prefix bound to the target namespace; "" = none needed/default
	NS  map[string]string // other namespaces -> prefix
	// further prefixes of the XSD and the target namespace, used at random
	AltXS, AltTNS []string
	R             *rand.Rand
	Local         *rand.Rand // declares some prefixes inside of the schema
}

func (px Prefixes) xs() string  { return px.alt(px.XS, px.AltXS) }
func (px Prefixes) tns() string { return px.alt(px.TNS, px.AltTNS) }

func (px Prefixes) alt(p string, more []string) string {
	if px.R != nil && len(more) > 0 {
		if i := px.R.IntN(len(more) + 1); i > 0 {
			return more[i-1]
		}
	}
	return p
}

type builder struct {
	s  *Schema
	f  int
	px Prefixes
}

func el(name string) *Node { return &Node{Name: name} }

func q(prefix, name string) string {
	if prefix == "" {
		return name
	}
	return prefix + ":" + name
}

// qn is the qualified name of a global component as written in this document.
func (b *builder) qn(name string) string {
	c := b.s.comp(name)
	ns := b.s.Files[c.File].NS
	if ns == b.s.Files[b.f].NS {
		return q(b.px.tns(), name)
	}
	return q(b.px.NS[ns], name)
}

func (b *builder) ref(t TypeRef) string {
	if t.Builtin != "" {
		return q(b.px.xs(), t.Builtin)
	}
	return b.qn(t.Name)
}

func doc(n *Node, d string) *Node {
	if d != "" {
		n.add(el("annotation").add(&Node{Name: "documentation", Text: d}))
	}
	return n
}

// build renders file f of the schema.
func build(s *Schema, f int, px Prefixes) *Node {
	b := &builder{s, f, px}
	root := el("schema")
	if px.XS == "" {
		root.attr("xmlns", xsdNS)
	} else {
		root.attr("xmlns:"+px.XS, xsdNS)
	}
	for _, p := range px.AltXS {
		root.attr(xmlnsAttr(p), xsdNS)
	}
	fs := s.Files[f]
	if fs.NS != "" && !fs.Bare {
		if px.TNS == "" {
			root.attr("xmlns", fs.NS)
		} else {
			root.attr("xmlns:"+px.TNS, fs.NS)
		}
		for _, p := range px.AltTNS {
			root.attr(xmlnsAttr(p), fs.NS)
		}
		root.attr("targetNamespace", fs.NS)
	}
	declared := map[string]bool{}
	for _, i := range fs.Imports {
		if ns := s.Files[i].NS; ns != "" && !declared[ns] {
			declared[ns] = true
			root.attr(xmlnsAttr(px.NS[ns]), ns)
		}
	}
	loc := func(i int) string {
		if l, ok := fs.Loc[i]; ok {
			return l
		}
		return relPath(path.Dir(fs.Path), s.Files[i].Path)
	}
	for _, i := range fs.Includes {
		root.add(el("include").attr("schemaLocation", loc(i)))
	}
	for _, i := range fs.Imports {
		n := el("import")
		if s.Files[i].NS != "" {
			n.attr("namespace", s.Files[i].NS)
		}
		root.add(n.attr("schemaLocation", loc(i)))
	}
	for _, x := range fs.Extern {
		n := el(x[0])
		if x[1] != "" {
			n.attr("namespace", x[1])
		}
		if x[2] != "" {
			n.attr("schemaLocation", x[2])
		}
		root.add(n)
	}
	for _, c := range s.Comps {
		if c.File == f {
			root.add(b.comp(c))
		}
	}
	if px.Local != nil {
		bound := map[string]string{}
		var free []string // prefixes that names of elements and attributes do without
		for _, a := range root.Attrs {
			if p, ok := strings.CutPrefix(a[0], "xmlns"); ok {
				p = strings.TrimPrefix(p, ":")
				bound[p] = a[1]
				if a[1] != xsdNS && p != "" {
					free = append(free, p)
				}
			}
		}
		for _, n := range root.Kids {
			if n.Name != "include" && n.Name != "import" {
				localPrefixes(px.Local, n, bound, free)
			}
		}
	}
	if s.Noise != 0 {
		noise(rand.New(rand.NewPCG(s.Noise, uint64(f))), root)
	}
	return root
}

// localPrefixes declares prefixes of some names where the names are used. They
// can be new ones, or stand for something else in the rest of the schema.
func localPrefixes(r *rand.Rand, n *Node, bound map[string]string, free []string) {
	here := map[string]string{}
	for k, v := range bound {
		here[k] = v
	}
	var add [][2]string
	if r.IntN(3) == 0 {
		for i := r.IntN(2); i >= 0; i-- {
			all := sortedKeys(bound)
			ns := bound[all[r.IntN(len(all))]]
			p := fmt.Sprintf("q%d", 1+r.IntN(3))
			if len(free) > 0 && len(n.Kids) == 0 && r.IntN(3) == 0 {
				p = free[r.IntN(len(free))]
			}
			if len(add) == 0 || add[0][0] != xmlnsAttr(p) {
				add = append(add, [2]string{xmlnsAttr(p), ns})
				here[p] = ns
			}
		}
	}
	// every prefix of a name that means the same here
	name := func(v string) string {
		p, local, ok := strings.Cut(v, ":")
		if !ok {
			p, local = "", v
		}
		ns, ok := bound[p]
		if !ok || p == "xml" {
			return v // has no namespace
		}
		var same []string
		for _, k := range sortedKeys(here) {
			if here[k] == ns {
				same = append(same, k)
			}
		}
		if here[p] == ns && r.IntN(2) == 0 {
			return v
		}
		return q(same[r.IntN(len(same))], local)
	}
	lost := false
	for _, a := range n.Attrs {
		switch a[0] {
		case "type", "ref", "base", "itemType", "memberTypes":
			for _, v := range strings.Fields(a[1]) {
				p, _, ok := strings.Cut(v, ":")
				if !ok {
					p = ""
				}
				found := false
				for _, ns := range here {
					found = found || ns == bound[p]
				}
				lost = lost || bound[p] != "" && !found
			}
		}
	}
	if lost { // by the new declarations
		add, here = nil, bound
	}
	for i, a := range n.Attrs {
		switch a[0] {
		case "type", "ref", "base", "itemType", "memberTypes":
			vs := strings.Fields(a[1])
			for k := range vs {
				vs[k] = name(vs[k])
			}
			n.Attrs[i][1] = strings.Join(vs, " ")
		}
	}
	n.Attrs = append(n.Attrs, add...)
	for _, k := range n.Kids {
		localPrefixes(r, k, here, free)
	}
}

func xmlnsAttr(p string) string {
	if p == "" {
		return "xmlns"
	}
	return "xmlns:" + p
}

func relPath(dir, target string) string {
	d, t := strings.Split(path.Clean(dir), "/"), strings.Split(path.Clean(target), "/")
	if d[0] == "." {
		d = d[1:]
	}
	for len(d) > 0 && len(t) > 1 && d[0] == t[0] {
		d, t = d[1:], t[1:]
	}
	return strings.Repeat("../", len(d)) + strings.Join(t, "/")
}

func (b *builder) comp(c *Comp) *Node {
	switch c.Kind {
	case "simpleType":
		return b.simple(doc(el("simpleType").attr("name", c.Name), c.Doc), c.Simple)
	case "complexType":
		return b.complex(doc(el("complexType").attr("name", c.Name), c.Doc), c.Complex)
	case "element":
		n := b.elemAttrs(el("element").attr("name", c.Name), c.Elem)
		return b.elemBody(doc(n, c.Doc), c.Elem)
	case "attribute":
		n := el("attribute").attr("name", c.Name)
		if !c.Attr.Type.zero() {
			n.attr("type", b.ref(c.Attr.Type))
		}
		doc(n, c.Doc)
		if c.Attr.Simple != nil {
			n.add(b.simple(el("simpleType"), c.Attr.Simple))
		}
		return n
	case "group":
		return doc(el("group").attr("name", c.Name), c.Doc).add(b.particle(c.Particle))
	case "attributeGroup":
		n := doc(el("attributeGroup").attr("name", c.Name), c.Doc)
		b.attrs(n, c.Attrs)
		return n
	}
	panic(c.Kind)
}

func (b *builder) simple(n *Node, d *SimpleDef) *Node {
	switch d.Variety {
	case "restriction":
		r := el("restriction").attr("base", b.ref(d.Base))
		for _, f := range d.Facets {
			r.add(el(f.Name).attr("value", f.Value))
		}
		return n.add(r)
	case "list":
		l := el("list")
		if len(d.Inline) > 0 {
			l.add(b.simple(el("simpleType"), d.Inline[0]))
		} else {
			l.attr("itemType", b.ref(d.Base))
		}
		return n.add(l)
	case "union":
		u := el("union")
		var m []string
		for _, t := range d.Members {
			m = append(m, b.ref(t))
		}
		if len(m) > 0 {
			u.attr("memberTypes", strings.Join(m, " "))
		}
		for _, i := range d.Inline {
			u.add(b.simple(el("simpleType"), i))
		}
		return n.add(u)
	}
	panic(d.Variety)
}

func (b *builder) complex(n *Node, c *ComplexDef) *Node {
	doc(n, c.Doc)
	body := n
	if c.Deriv != "" {
		ct := "complexContent"
		if c.Deriv == "simpleExt" {
			ct = "simpleContent"
		}
		k := "extension"
		if c.Deriv == "complexRestr" {
			k = "restriction"
		}
		body = el(k).attr("base", b.ref(c.Base))
		n.add(el(ct).add(body))
	}
	if c.Particle != nil {
		body.add(b.particle(c.Particle))
	}
	b.attrs(body, c.Attrs)
	if c.AnyAttr {
		body.add(el("anyAttribute"))
	}
	return n
}

func (b *builder) particle(p *Particle) *Node {
	n := el(p.Kind)
	occ := func() {
		if p.Min != "" {
			n.attr("minOccurs", p.Min)
		}
		if p.Max != "" {
			n.attr("maxOccurs", p.Max)
		}
	}
	switch p.Kind {
	case "element":
		e := p.Elem
		if e.Ref {
			n.attr("ref", b.qn(e.Name))
			occ()
			return doc(n, e.Doc)
		}
		n.attr("name", e.Name)
		b.elemAttrs(n, e)
		occ()
		return b.elemBody(doc(n, e.Doc), e)
	case "group":
		n.attr("ref", b.qn(p.Group))
		occ()
		return n
	}
	occ()
	for _, k := range p.Kids {
		n.add(b.particle(k))
	}
	return n
}

func (b *builder) elemAttrs(n *Node, e *ElemDecl) *Node {
	if !e.Type.zero() {
		n.attr("type", b.ref(e.Type))
	}
	for _, x := range e.Extra {
		n.attr(x[0], x[1])
	}
	return n
}

func (b *builder) elemBody(n *Node, e *ElemDecl) *Node {
	if e.Complex != nil {
		n.add(b.complex(el("complexType"), e.Complex))
	}
	if e.Simple != nil {
		n.add(b.simple(el("simpleType"), e.Simple))
	}
	return n
}

func (b *builder) attrs(n *Node, as []*AttrUse) {
	for _, a := range as {
		if a.Group {
			n.add(el("attributeGroup").attr("ref", b.qn(a.Name)))
			continue
		}
		x := el("attribute")
		if a.XML {
			x.attr("ref", a.Name)
		} else if a.Ref {
			x.attr("ref", b.qn(a.Name))
		} else {
			x.attr("name", a.Name)
			if !a.Type.zero() {
				x.attr("type", b.ref(a.Type))
			}
		}
		if a.Use != "" {
			x.attr("use", a.Use)
		}
		for _, e := range a.Extra {
			x.attr(e[0], e[1])
		}
		doc(x, a.Doc)
		if a.Simple != nil {
			x.add(b.simple(el("simpleType"), a.Simple))
		}
		n.add(x)
	}
}

// noise adds what valid schemas contain without any effect on the declared
// types: identity constraints, notations, wildcards, derivation controls.
func noise(r *rand.Rand, root *Node) {
	p := func(pct int) bool { return r.IntN(100) < pct }
	pick := func(l ...string) string { return l[r.IntN(len(l))] }
	id := 0
	name := func() string { id++; return fmt.Sprint("ghost", id) }
	for _, n := range allNodes(root) {
		has := map[string]bool{}
		for _, a := range n.Attrs {
			has[a[0]] = true
		}
		add := func(k, v string) {
			if !has[k] {
				n.attr(k, v)
				has[k] = true
			}
		}
		top := false
		for _, k := range root.Kids {
			top = top || k == n
		}
		switch n.Name {
		case "schema":
			for _, k := range []string{"elementFormDefault", "attributeFormDefault"} {
				if p(30) {
					add(k, pick("qualified", "unqualified"))
				}
			}
			if p(20) {
				add("version", "1.0")
			}
			if p(20) {
				add("blockDefault", pick("#all", "extension"))
			}
			if p(20) {
				add("xml:lang", "en")
			}
			if p(20) {
				k := len(n.Kids)
				for k > 0 && n.Kids[k-1].Name != "include" && n.Kids[k-1].Name != "import" && p(75) {
					k--
				}
				n.Kids = append(n.Kids[:k:k], append([]*Node{el("notation").attr("name", name()).attr("public", "image/gif")}, n.Kids[k:]...)...)
			}
		case "element":
			if has["ref"] {
				break
			}
			if p(10) && top {
				add("abstract", pick("true", "false"))
			}
			if p(8) && top {
				add("substitutionGroup", "ghost")
			}
			if p(8) {
				add("block", pick("#all", "substitution"))
			}
			if p(8) {
				add("nillable", pick("true", "false", "1"))
			}
			if p(6) && !top {
				add("form", pick("qualified", "unqualified"))
			}
			if p(5) && top {
				add("final", pick("#all", "extension", "restriction"))
			}
			switch local(n.val("type")) {
			case "string", "int", "integer", "long", "decimal", "token", "normalizedString":
				if p(12) {
					add("default", "7")
				}
			}
			for p(8) {
				kind := pick("unique", "key", "keyref")
				x := el(kind).attr("name", name())
				if kind == "keyref" {
					x.attr("refer", "ghost1")
				}
				x.add(el("selector").attr("xpath", ".//ghost"))
				x.add(el("field").attr("xpath", "@ghost"))
				n.add(x)
			}
		case "complexType":
			if p(10) && has["name"] {
				add("abstract", pick("true", "false"))
			}
			if p(10) {
				add("mixed", "false")
			}
			if p(10) && has["name"] {
				add("final", pick("#all", "extension", "restriction"))
			}
		case "simpleType":
			if p(10) && has["name"] {
				add("final", pick("#all", "list", "union", "restriction"))
			}
		case "attribute":
			if p(10) && has["name"] && !top {
				add("form", pick("qualified", "unqualified"))
			}
		case "attributeGroup":
			if p(15) && has["name"] {
				n.add(el("anyAttribute").attr("namespace", "##other").attr("processContents", "lax"))
			}
		case "sequence", "choice":
			if p(8) {
				k := r.IntN(len(n.Kids) + 1)
				n.Kids = append(n.Kids[:k:k], append([]*Node{el("any").attr("namespace", "##other").attr("minOccurs", "0").attr("maxOccurs", pick("1", "unbounded")).attr("processContents", "skip")}, n.Kids[k:]...)...)
			}
			if p(5) { // nothing inside
				n.add(el(pick("sequence", "choice")).attr("minOccurs", "0").attr("maxOccurs", pick("1", "unbounded")))
			}
		case "minLength", "maxLength", "length", "minInclusive", "maxInclusive", "totalDigits", "whiteSpace":
			if p(20) {
				add("fixed", "true")
			}
		}
	}
}

// Style is a lexical presentation. The zero style is plain and indented.
type Style struct {
	R            *rand.Rand // nil: no random choices
	NoIndent     bool
	CRLF         bool
	Decl         string // XML declaration line
	Comments     bool
	PIs          bool
	ShuffleAttrs bool
	SingleQuotes bool
	LongEmpty    bool // <a></a> instead of <a/>
	CDATA        bool
	CharRefs     bool
	BOM          bool
	Trailer      bool // comment and whitespace after the root
	AttrSpace    bool
	DocType      bool
}

func escText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func (st *Style) chance(pct int) bool { return st.R != nil && st.R.IntN(100) < pct }

func (st *Style) attrVal(v string) string {
	var b strings.Builder
	for _, r := range v {
		switch {
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == '"':
			b.WriteString("&quot;")
		case r == '\'':
			b.WriteString("&apos;")
		case r == '\n' || r == '\t' || r == '\r':
			fmt.Fprintf(&b, "&#%d;", r)
		case st.CharRefs && st.chance(15):
			if st.chance(50) {
				fmt.Fprintf(&b, "&#%d;", r)
			} else {
				fmt.Fprintf(&b, "&#x%X;", r)
			}
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (st *Style) write(px Prefixes, root *Node) string {
	var b strings.Builder
	nl := "\n"
	if st.CRLF {
		nl = "\r\n"
	}
	if st.BOM {
		b.WriteString("\uFEFF")
	}
	if st.Decl != "" {
		b.WriteString(st.Decl + nl)
	}
	if st.DocType {
		b.WriteString("<!DOCTYPE " + q(px.XS, "schema") + ">" + nl)
	}
	if st.Comments {
		b.WriteString("<!-- a comment <element name=\"ghost\"/> -->" + nl)
	}
	var w func(n *Node, depth int)
	w = func(n *Node, depth int) {
		ind := strings.Repeat("  ", depth)
		if st.NoIndent {
			ind = ""
		}
		b.WriteString(ind)
		if n.Raw != "" {
			b.WriteString(n.Raw)
			if !st.NoIndent {
				b.WriteString(nl)
			}
			return
		}
		name := q(px.xs(), n.Name)
		b.WriteString("<" + name)
		at := append([][2]string(nil), n.Attrs...)
		if st.ShuffleAttrs && st.R != nil {
			st.R.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
		}
		for _, a := range at {
			sep := " "
			if st.AttrSpace && st.chance(30) {
				sep = nl + "    "
			}
			qt := `"`
			if st.SingleQuotes && st.chance(50) {
				qt = "'"
			}
			eq := "="
			if st.AttrSpace && st.chance(20) {
				eq = " = "
			}
			v := st.attrVal(a[1])
			b.WriteString(sep + a[0] + eq + qt + v + qt)
		}
		if len(n.Kids) == 0 && n.Text == "" {
			if st.LongEmpty && st.chance(50) {
				b.WriteString(">" + []string{"", "<!--ghost-->", "<?ghost?>"}[st.R.IntN(3)] + "</" + name + []string{"", " "}[st.R.IntN(2)] + ">")
			} else {
				b.WriteString("/>")
			}
			if !st.NoIndent {
				b.WriteString(nl)
			}
			return
		}
		b.WriteString(">")
		if n.Text != "" {
			t := escText(strings.ReplaceAll(n.Text, "\r", "\x00"))
			t = strings.ReplaceAll(t, "\x00", "&#13;")
			if st.CRLF {
				t = strings.ReplaceAll(t, "\n", "\r\n")
			}
			if st.CDATA && !strings.Contains(n.Text, "]]>") && !strings.Contains(n.Text, "\r") && st.chance(70) {
				t = "<![CDATA[" + n.Text + "]]>"
			} else if st.CharRefs && st.chance(50) {
				var c strings.Builder
				for _, r := range n.Text {
					if r > 127 || st.chance(10) || r == '\r' || r == '<' || r == '&' || r == '>' {
						fmt.Fprintf(&c, "&#x%x;", r)
					} else {
						c.WriteRune(r)
					}
				}
				t = c.String()
			}
			if k := strings.IndexByte(t, ' '); k >= 0 && st.Comments && !strings.HasPrefix(t, "<!") && st.chance(30) {
				t = t[:k] + "<!-- ghost -->" + t[k:]
			}
			b.WriteString(t)
		} else {
			if !st.NoIndent {
				b.WriteString(nl)
			}
			for _, k := range n.Kids {
				if st.Comments && st.chance(15) {
					b.WriteString(ind + "  <!-- <complexType name='ghost'> " + k.Name + " -->")
				}
				if st.PIs && st.chance(10) {
					b.WriteString("<?ghost name=\"x\" type=\"y\"?>")
				}
				w(k, depth+1)
			}
			b.WriteString(ind)
		}
		b.WriteString("</" + name + ">")
		if !st.NoIndent {
			b.WriteString(nl)
		}
	}
	w(root, 0)
	if st.Trailer {
		b.WriteString(nl + "<!-- end -->" + nl + nl)
	}
	return b.String()
}

// renderAll renders every file of the schema in the plain style.
func renderAll(s *Schema, px func(f int) Prefixes, st *Style) map[string]string {
	out := map[string]string{}
	for i := range s.Files {
		p := px(i)
		out[s.Files[i].Path] = st.write(p, build(s, i, p))
	}
	return out
}

func plainPx(int) Prefixes { return Prefixes{XS: "xs"} }
