package main

import "strings"

// Abstract schema model. Everything the oracles know about a schema comes from
// this model (never from the code under test): it is what the generator built
// and what the renderer wrote out as XSD text.

// TypeRef refers to a type: a built-in of XML Schema or a global type.
type TypeRef struct {
	Builtin string `json:",omitempty"`
	Name    string `json:",omitempty"` // global simple or complex type
}

func (t TypeRef) zero() bool { return t.Builtin == "" && t.Name == "" }

// Facet of a restriction.
type Facet struct{ Name, Value string }

// SimpleDef is a simple type definition.
type SimpleDef struct {
	Variety string // "restriction", "list", "union"
	Base    TypeRef
	Facets  []Facet      `json:",omitempty"`
	Members []TypeRef    `json:",omitempty"`
	Inline  []*SimpleDef `json:",omitempty"` // inline list item / union members
}

// ComplexDef is a complex type definition.
type ComplexDef struct {
	Deriv    string // "", "simpleExt", "complexExt", "complexRestr"
	Base     TypeRef
	Particle *Particle  `json:",omitempty"`
	Attrs    []*AttrUse `json:",omitempty"`
	AnyAttr  bool       `json:",omitempty"`
	Doc      string     `json:",omitempty"`
}

// Particle of a content model.
type Particle struct {
	Kind     string      // sequence choice all element group any
	Min, Max string      `json:",omitempty"`
	Kids     []*Particle `json:",omitempty"`
	Elem     *ElemDecl   `json:",omitempty"`
	Group    string      `json:",omitempty"`
}

// ElemDecl is a local element declaration or reference (or the body of a
// global one).
type ElemDecl struct {
	Name    string
	Ref     bool        `json:",omitempty"`
	Type    TypeRef     `json:",omitempty"`
	Complex *ComplexDef `json:",omitempty"`
	Simple  *SimpleDef  `json:",omitempty"`
	Doc     string      `json:",omitempty"`
	Extra   [][2]string `json:",omitempty"` // further XML attributes
}

// AttrUse is an attribute use, or an attributeGroup reference.
type AttrUse struct {
	Name   string
	Ref    bool        `json:",omitempty"`
	Group  bool        `json:",omitempty"` // <attributeGroup ref=Name>
	XML    bool        `json:",omitempty"` // <attribute ref=Name>, an attribute of the XML namespace
	Type   TypeRef     `json:",omitempty"`
	Simple *SimpleDef  `json:",omitempty"`
	Use    string      `json:",omitempty"`
	Doc    string      `json:",omitempty"`
	Extra  [][2]string `json:",omitempty"`
}

// Comp is a global schema component.
type Comp struct {
	Kind     string // simpleType complexType element attribute group attributeGroup
	Name     string
	Doc      string      `json:",omitempty"`
	Simple   *SimpleDef  `json:",omitempty"`
	Complex  *ComplexDef `json:",omitempty"`
	Elem     *ElemDecl   `json:",omitempty"`
	Attr     *AttrUse    `json:",omitempty"`
	Particle *Particle   `json:",omitempty"` // group
	Attrs    []*AttrUse  `json:",omitempty"` // attributeGroup
	Same     bool        `json:",omitempty"` // element with the name of its type: both are one declaration
	File     int         // which file of the layout declares it
}

// Schema is a set of components spread over one or more files.
type Schema struct {
	Comps []*Comp
	Files []FileSpec
	Noise uint64 // not 0: documents carry what has no effect on the declared types
}

// FileSpec describes one schema document.
type FileSpec struct {
	Extern   [][3]string `json:",omitempty"` // include/import, namespace, location: nothing that is needed
	Path     string      // relative to the input directory
	NS       string      // target namespace, "" for none
	Bare     bool        `json:",omitempty"` // does not say the namespace: takes it from the files that include it
	Includes []int       `json:",omitempty"`
	Imports  []int       `json:",omitempty"`
	// LocHint overrides the schemaLocation written for a file index.
	Loc map[int]string `json:",omitempty"`
}

func (s *Schema) comp(name string) *Comp {
	for _, c := range s.Comps {
		if c.Name == name && !c.Same {
			return c
		}
	}
	return nil
}

// elem is the global element of this name.
func (s *Schema) elem(name string) *Comp {
	for _, c := range s.Comps {
		if c.Name == name && c.Kind == "element" {
			return c
		}
	}
	return nil
}

// leaf particles in document order with the effective plurality: the element
// or group reference may occur more than once if it or any enclosing model
// group of the same content model may.
type leaf struct {
	P      *Particle
	Plural bool
}

func maxPlural(max string) bool {
	switch strings.TrimLeft(max, "+0") {
	case "", "1":
		return false
	}
	return true
}

func leaves(p *Particle, plural bool) (out []leaf) {
	if p == nil {
		return nil
	}
	pl := plural || maxPlural(p.Max)
	switch p.Kind {
	case "element", "group":
		return []leaf{{p, pl}}
	case "any":
		return nil
	}
	for _, k := range p.Kids {
		out = append(out, leaves(k, pl)...)
	}
	return
}
