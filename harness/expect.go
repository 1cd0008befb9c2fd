package main

import (
	"fmt"
	"slices"
	"strings"
	"unicode"
)

// What a correct translation of the model must contain, independent of the
// target language.

// XType is a fully expanded type: n list layers around a built-in or around a
// named structured declaration (complex type, union, group, attributeGroup).
type XType struct {
	Lists   int
	Builtin string
	Decl    string
	Inline  bool // the outer list is an anonymous type of an element or attribute
}

func (t XType) String() string {
	s := t.Builtin
	if t.Decl != "" {
		s = "decl:" + t.Decl
	}
	return strings.Repeat("list of ", t.Lists) + s
}

// XMember is one expected member of a declaration.
type XMember struct {
	Cat      string // attrgroup attr group elem union
	Name     string
	Ref      bool // declared by reference
	Type     XType
	Direct   bool // the type is a built-in named right at the use
	Plural   bool
	Optional bool // attributes only
	Doc      string
}

// XDecl is one expected declaration.
type XDecl struct {
	Kind    string // simple list union complex group attrgroup element attribute
	Name    string
	Doc     string
	File    int
	Anon    bool // named after the element that contains it
	Members []XMember
	Type    XType // simple, list (item), element, attribute
	Direct  bool
	Deriv   string // simpleExt: Base is the value type; complexExt: Base is the parent
	Base    XType
	BaseRef TypeRef
	Enums   []string
	NestDoc bool // something inside carries documentation too
}

// XModel is the expectation for a whole schema.
type XModel struct {
	S     *Schema
	Decls []*XDecl
	By    map[string]*XDecl // by dkey of the name
	Loose map[string]*XDecl // by normalised name; nil: ambiguous
}

// find returns the declaration an observed identifier stands for.
func (m *XModel) find(ident string) *XDecl {
	if d := m.By[dkey(ident)]; d != nil {
		return d
	}
	return m.Loose[norm(ident)]
}

// dkey identifies a declaration by its name or identifier: like norm, but
// the case of letters counts except where identifiers are capitalised.
func dkey(s string) string {
	var b strings.Builder
	start := true
	for _, r := range s {
		switch r {
		case '-', '_':
			start = false
			continue
		case '.', ':':
			start = true
			continue
		}
		if start {
			r = unicode.ToUpper(r)
		}
		start = false
		b.WriteRune(r)
	}
	return b.String()
}

func norm(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch r {
		case '-', '_', '.', ':':
			continue
		}
		b.WriteRune(unicode.ToLower(r))
	}
	return b.String()
}

func title(s string) string {
	for i, r := range s {
		return string(unicode.ToUpper(r)) + s[i+len(string(r)):]
	}
	return s
}

// ident is the documented naming convention: parts between ':' and '.' are
// capitalised and joined, hyphens dropped; Go and Rust type names also drop
// underscores.
func ident(lang, name string) string {
	var out string
	for _, p := range strings.Split(name, ":") {
		for _, q := range strings.Split(p, ".") {
			out += title(q)
		}
	}
	out = strings.ReplaceAll(out, "-", "")
	if lang == "Go" || lang == "Rust" {
		out = strings.ReplaceAll(out, "_", "")
	}
	return out
}

func local(name string) string {
	if i := strings.IndexByte(name, ':'); i >= 0 {
		return name[i+1:]
	}
	return name
}

// expand follows simple type definitions down to a built-in or a structured
// declaration.
func (s *Schema) expand(t TypeRef) XType {
	if t.Builtin != "" {
		return XType{Builtin: t.Builtin}
	}
	c := s.comp(t.Name)
	if c == nil {
		panic("model: dangling type " + t.Name)
	}
	if c.Kind == "complexType" {
		return XType{Decl: c.Name}
	}
	return s.expandSimple(c.Name, c.Simple)
}

func (s *Schema) expandSimple(name string, d *SimpleDef) XType {
	switch d.Variety {
	case "restriction":
		return s.expand(d.Base)
	case "list":
		var it XType
		if len(d.Inline) > 0 {
			it = s.expandSimple("", d.Inline[0])
		} else {
			it = s.expand(d.Base)
		}
		it.Lists++
		return it
	}
	if len(d.Members) == 0 { // union of anonymous member types only
		return XType{Decl: name}
	}
	return XType{Decl: name}
}

func (s *Schema) elemType(e *ElemDecl) (t XType, direct bool) {
	if e.Ref {
		c := s.elem(e.Name)
		t, _ := s.elemType(c.Elem)
		return t, false
	}
	switch {
	case e.Complex != nil:
		return XType{Decl: e.Name}, false
	case e.Simple != nil:
		return s.expandMember(e.Simple), e.Simple.directBase()
	case e.Type.zero():
		return XType{Builtin: "anyType"}, true
	}
	return s.expand(e.Type), e.Type.Builtin != ""
}

func (s *Schema) attrType(a *AttrUse) (XType, bool) {
	if a.Ref {
		c := s.comp(a.Name)
		t, _ := s.attrType(c.Attr)
		return t, false
	}
	switch {
	case a.XML:
		return XType{Builtin: a.Name}, true
	case a.Simple != nil:
		return s.expandMember(a.Simple), a.Simple.directBase()
	case a.Type.zero():
		return XType{Builtin: "anySimpleType"}, true
	}
	return s.expand(a.Type), a.Type.Builtin != ""
}

// expandMember is the type of an element or attribute with an anonymous type.
func (s *Schema) expandMember(d *SimpleDef) XType {
	t := s.expandSimple("", d)
	t.Inline = d.Variety == "list"
	return t
}

// directBase says whether an anonymous type names a built-in right away.
func (d *SimpleDef) directBase() bool {
	if len(d.Inline) > 0 {
		d = d.Inline[0]
	}
	return d.Base.Builtin != ""
}

// inlineList says whether a member has an anonymous list type: it is a list of
// the items' type, as if it could occur more than once.
func inlineList(ref bool, d *SimpleDef) bool { return !ref && d != nil && d.Variety == "list" }

func expect(s *Schema) *XModel {
	m := &XModel{S: s, By: map[string]*XDecl{}, Loose: map[string]*XDecl{}}
	for _, c := range s.Comps {
		if c.Same {
			continue
		}
		d := &XDecl{Name: c.Name, Doc: c.Doc, File: c.File}
		switch c.Kind {
		case "simpleType":
			switch c.Simple.Variety {
			case "restriction":
				d.Kind = "simple"
				d.Type = s.expand(c.Simple.Base)
				d.Direct = c.Simple.Base.Builtin != ""
				for _, f := range c.Simple.Facets {
					if f.Name == "enumeration" {
						d.Enums = append(d.Enums, f.Value)
					}
				}
			case "list":
				d.Kind = "list"
				d.Type = s.expandSimple("", c.Simple)
				d.Direct = len(c.Simple.Inline) == 0 && c.Simple.Base.Builtin != ""
			case "union":
				d.Kind = "union"
				for _, t := range c.Simple.Members {
					n := t.Builtin
					if n == "" {
						n = t.Name
					}
					d.Members = append(d.Members, XMember{Cat: "union", Name: n, Type: s.expand(t), Direct: t.Builtin != ""})
				}
			}
		case "complexType":
			m.complex(d, c.Complex)
		case "element":
			if c.Elem.Complex != nil {
				m.complex(d, c.Elem.Complex)
				if d.Doc == "" {
					d.Doc = c.Elem.Complex.Doc
				}
			} else {
				d.Kind = "element"
				d.Type, d.Direct = s.elemType(c.Elem)
			}
		case "attribute":
			d.Kind = "attribute"
			d.Type, d.Direct = s.attrType(c.Attr)
		case "group":
			d.Kind = "group"
			m.particle(d, c.Particle)
		case "attributeGroup":
			d.Kind = "attrgroup"
			m.attrs(d, c.Attrs)
		default:
			panic(c.Kind)
		}
		m.add(d)
	}
	return m
}

func (m *XModel) add(d *XDecl) {
	if m.By[dkey(d.Name)] != nil {
		panic(fmt.Sprintf("model: name clash %q", d.Name))
	}
	m.By[dkey(d.Name)] = d
	if _, ok := m.Loose[norm(d.Name)]; ok {
		m.Loose[norm(d.Name)] = nil
	} else {
		m.Loose[norm(d.Name)] = d
	}
	m.Decls = append(m.Decls, d)
}

func (m *XModel) complex(d *XDecl, c *ComplexDef) {
	d.Kind = "complex"
	m.attrs(d, c.Attrs)
	m.particle(d, c.Particle)
	switch c.Deriv {
	case "simpleExt":
		d.Deriv = "simpleExt"
		d.Base = m.S.expand(c.Base)
		d.BaseRef = c.Base
		if d.Base.Decl != "" && m.S.comp(c.Base.Name).Kind == "complexType" {
			d.Deriv = "complexExt" // extends a complex type with simple content
		}
	case "complexExt":
		d.Deriv = "complexExt"
		d.Base = m.S.expand(c.Base)
		d.BaseRef = c.Base
	}
}

func (m *XModel) attrs(d *XDecl, as []*AttrUse) {
	for _, a := range as {
		if a.Doc != "" {
			d.NestDoc = true
		}
		if a.Group {
			d.Members = append(d.Members, XMember{Cat: "attrgroup", Name: a.Name, Ref: true, Type: XType{Decl: a.Name}})
			continue
		}
		t, direct := m.S.attrType(a)
		list := inlineList(a.Ref, a.Simple)
		if list {
			t.Lists--
		}
		d.Members = append(d.Members, XMember{Cat: "attr", Name: a.Name, Ref: a.Ref, Type: t, Direct: direct, Plural: list, Optional: a.Use != "required", Doc: a.Doc})
	}
}

func (m *XModel) particle(d *XDecl, p *Particle) {
	for _, l := range leaves(p, false) {
		if l.P.Kind == "group" {
			if i := slices.IndexFunc(d.Members, func(x XMember) bool { return x.Cat == "group" && x.Name == l.P.Group }); i >= 0 {
				d.Members[i].Plural = d.Members[i].Plural || l.Plural
				continue
			}
			d.Members = append(d.Members, XMember{Cat: "group", Name: l.P.Group, Ref: true, Type: XType{Decl: l.P.Group}, Plural: l.Plural})
			continue
		}
		e := l.P.Elem
		if e.Doc != "" {
			d.NestDoc = true
		}
		if e.Complex != nil && !e.Ref {
			sub := &XDecl{Name: e.Name, File: d.File, Anon: true, Doc: e.Doc}
			if sub.Doc == "" {
				sub.Doc = e.Complex.Doc
			}
			if e.Complex.Doc != "" {
				d.NestDoc = true
			}
			m.complex(sub, e.Complex)
			m.add(sub)
			if sub.NestDoc {
				d.NestDoc = true
			}
		}
		t, direct := m.S.elemType(e)
		if inlineList(e.Ref, e.Simple) {
			t.Lists--
			l.Plural = true
		}
		merged := false
		for i := range d.Members {
			if d.Members[i].Cat == "elem" && d.Members[i].Name == e.Name && d.Members[i].Type == t {
				d.Members[i].Plural = d.Members[i].Plural || l.Plural
				merged = true
			}
		}
		if !merged {
			d.Members = append(d.Members, XMember{Cat: "elem", Name: e.Name, Ref: e.Ref, Type: t, Direct: direct, Plural: l.Plural, Doc: e.Doc})
		}
	}
}
