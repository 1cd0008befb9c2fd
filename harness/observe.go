package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strconv"
	"strings"
)

// What the generated file says, read back by parsers of our own (go/parser for
// Go). Anything these grammars do not accept is reported as malformed output.

type OType struct {
	Lists int
	Ptr   bool
	Name  string // innermost type name
	Raw   string
}

type OMember struct {
	Ident    string
	Cat      string // attr elem value base plain
	Type     OType
	Optional int // 0 no, 1 yes, -1 the language does not say
	Wire     string
	HasWire  bool
	Req      string
}

type ODecl struct {
	Ident     string
	Kind      string // alias struct enum
	Type      OType  // alias
	Extends   OType
	HasExt    bool
	XMLName   string
	ClassWire string // Java: name given on the class annotation
	Members   []OMember
	Enums     [][2]string
	Doc       string
}

type OFile struct {
	Lang    string
	Package string
	Imports []string
	Decls   []ODecl
}

var langs = []string{"Go", "TypeScript", "C", "Java", "Rust"}
var langExt = map[string]string{"Go": ".go", "TypeScript": ".ts", "C": ".h", "Java": ".java", "Rust": ".rs"}

const genMark = "// Code generated by xgen. DO NOT EDIT."

func observe(lang, src string) (f *OFile, err error) {
	if !strings.HasPrefix(src, genMark) {
		return nil, fmt.Errorf("output does not start with the generated-code marker")
	}
	switch lang {
	case "Go":
		return observeGo(src)
	case "TypeScript":
		return observeTS(src)
	case "C":
		return observeC(src)
	case "Java":
		return observeJava(src)
	case "Rust":
		return observeRust(src)
	}
	return nil, fmt.Errorf("language %q", lang)
}

// ---- Go ----

func goType(e ast.Expr) (t OType) {
	t.Raw = types.ExprString(e)
	for {
		switch x := e.(type) {
		case *ast.StarExpr:
			t.Ptr = true
			e = x.X
			continue
		case *ast.ArrayType:
			if x.Len == nil {
				t.Lists++
				e = x.Elt
				continue
			}
		}
		break
	}
	t.Name = types.ExprString(e)
	return
}

func observeGo(src string) (*OFile, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "out.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	of := &OFile{Lang: "Go", Package: f.Name.Name}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		of.Imports = append(of.Imports, p)
	}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			return nil, fmt.Errorf("unexpected declaration in Go output")
		}
		if gd.Tok == token.IMPORT {
			continue
		}
		if gd.Tok != token.TYPE {
			return nil, fmt.Errorf("unexpected %s declaration in Go output", gd.Tok)
		}
		for _, sp := range gd.Specs {
			ts := sp.(*ast.TypeSpec)
			od := ODecl{Ident: ts.Name.Name, Kind: "alias"}
			if gd.Doc != nil {
				od.Doc = gd.Doc.Text()
			}
			if st, ok := ts.Type.(*ast.StructType); ok {
				od.Kind = "struct"
				for _, fl := range st.Fields.List {
					om := OMember{Cat: "plain", Optional: -1, Type: goType(fl.Type)}
					tag := ""
					if fl.Tag != nil {
						raw, err := strconv.Unquote(fl.Tag.Value)
						if err != nil {
							return nil, fmt.Errorf("bad tag %s", fl.Tag.Value)
						}
						tag = reflect.StructTag(raw).Get("xml")
						om.HasWire = true
					}
					parts := strings.Split(tag, ",")
					om.Wire = parts[0]
					if l, ok := strings.CutPrefix(om.Wire, "http://www.w3.org/XML/1998/namespace "); ok {
						om.Wire = "xml:" + l
					} else if strings.HasPrefix(om.Wire, "xml:") {
						om.Wire = "no namespace, " + om.Wire // encoding/xml does not decode it
					}
					for _, o := range parts[1:] {
						switch o {
						case "attr":
							om.Cat, om.Optional = "attr", 0
						case "chardata":
							om.Cat = "value"
						}
					}
					for _, o := range parts[1:] {
						if o == "omitempty" {
							om.Optional = 1
						}
					}
					if om.Cat == "plain" && om.Wire != "" {
						om.Cat = "elem"
					}
					if len(fl.Names) == 0 {
						om.Cat = "base"
						om.Ident = om.Type.Name
						od.Members = append(od.Members, om)
						continue
					}
					for _, n := range fl.Names {
						om.Ident = n.Name
						if n.Name == "XMLName" && om.Type.Name == "xml.Name" {
							od.XMLName = om.Wire
							continue
						}
						od.Members = append(od.Members, om)
					}
				}
			} else {
				od.Type = goType(ts.Type)
			}
			of.Decls = append(of.Decls, od)
		}
	}
	return of, nil
}

// ---- line oriented languages ----

type lines struct {
	l []string
	i int
}

func splitLines(src string) *lines {
	src = strings.ReplaceAll(src, "\r\n", "\n")
	return &lines{l: strings.Split(src, "\n")}
}

// next returns the next non-blank line, gathering // comments.
func (p *lines) next() (line, doc string, ok bool) {
	for p.i < len(p.l) {
		s := strings.TrimSpace(p.l[p.i])
		p.i++
		if s == "" {
			continue
		}
		if strings.HasPrefix(s, "//") {
			doc += strings.TrimPrefix(strings.TrimPrefix(s, "//"), " ") + "\n"
			continue
		}
		return s, doc, true
	}
	return "", doc, false
}

const idRe = `[\p{L}_$][\p{L}\p{N}\p{M}_$]*`

var (
	tsType  = regexp.MustCompile(`^export type (` + idRe + `)\s*=\s*(.+);$`)
	tsClass = regexp.MustCompile(`^export class (` + idRe + `)(?:\s+extends\s+(` + idRe + `))?\s*\{$`)
	tsEnum  = regexp.MustCompile(`^export enum (` + idRe + `)\s*\{$`)
	tsField = regexp.MustCompile(`^(` + idRe + `): (.+);$`)
	tsEnumE = regexp.MustCompile(`^(` + idRe + `|'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*") = ('(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"|[-+0-9.eE]+|[-+]?Infinity|NaN),$`)
	tsOK    = regexp.MustCompile(`^` + idRe + `$`)
)

func tsTypeOf(s string) (t OType, optional int, err error) {
	optional = 0
	t.Raw = s
	s = strings.TrimSpace(s)
	if strings.HasSuffix(s, "| null") {
		optional = 1
		s = strings.TrimSpace(strings.TrimSuffix(s, "| null"))
	}
	for strings.HasPrefix(s, "Array<") && strings.HasSuffix(s, ">") {
		t.Lists++
		s = s[6 : len(s)-1]
	}
	if !tsOK.MatchString(s) {
		return t, 0, fmt.Errorf("not a TypeScript type: %q", t.Raw)
	}
	t.Name = s
	return
}

func observeTS(src string) (*OFile, error) {
	p := splitLines(src)
	of := &OFile{Lang: "TypeScript"}
	for {
		l, doc, ok := p.next()
		if !ok {
			return of, nil
		}
		if m := tsType.FindStringSubmatch(l); m != nil {
			t, _, err := tsTypeOf(m[2])
			if err != nil {
				return nil, err
			}
			of.Decls = append(of.Decls, ODecl{Ident: m[1], Kind: "alias", Type: t, Doc: doc})
			continue
		}
		if m := tsEnum.FindStringSubmatch(l); m != nil {
			d := ODecl{Ident: m[1], Kind: "enum", Doc: doc}
			for {
				l, _, ok := p.next()
				if !ok {
					return nil, fmt.Errorf("unterminated enum %s", d.Ident)
				}
				if l == "}" {
					break
				}
				em := tsEnumE.FindStringSubmatch(l)
				if em == nil {
					return nil, fmt.Errorf("bad enum member %q", l)
				}
				d.Enums = append(d.Enums, [2]string{em[1], em[2]})
			}
			of.Decls = append(of.Decls, d)
			continue
		}
		m := tsClass.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("unexpected line %q", l)
		}
		d := ODecl{Ident: m[1], Kind: "struct", Doc: doc}
		if m[2] != "" {
			d.HasExt = true
			d.Extends = OType{Name: m[2], Raw: m[2]}
		}
		for {
			l, _, ok := p.next()
			if !ok {
				return nil, fmt.Errorf("unterminated class %s", d.Ident)
			}
			if l == "}" {
				break
			}
			fm := tsField.FindStringSubmatch(l)
			if fm == nil {
				return nil, fmt.Errorf("bad class member %q", l)
			}
			t, opt, err := tsTypeOf(fm[2])
			if err != nil {
				return nil, err
			}
			om := OMember{Ident: fm[1], Cat: "plain", Type: t, Optional: opt}
			if fm[1] == "Value" {
				om.Cat = "value"
			}
			d.Members = append(d.Members, om)
		}
		of.Decls = append(of.Decls, d)
	}
}

// ---- C ----

var (
	cName   = `(` + idRe + `)`
	cTypeRe = `((?:unsigned |signed |long )?` + idRe + `)`
	cField  = regexp.MustCompile(`^` + cTypeRe + ` ` + cName + `(\[\])?;(?: // (attr|attr, optional))?$`)
	cEnd    = regexp.MustCompile(`^\} ` + cName + `;$`)
	cTypdef = regexp.MustCompile(`^typedef ` + cTypeRe + ` ` + cName + `(\[\])?;$`)
)

func cType(base, arr string) (t OType) {
	t.Name, t.Raw = base, base+arr
	if arr != "" {
		t.Lists = 1
	}
	return
}

func observeC(src string) (*OFile, error) {
	p := splitLines(src)
	of := &OFile{Lang: "C"}
	for {
		l, doc, ok := p.next()
		if !ok {
			return of, nil
		}
		if m := cTypdef.FindStringSubmatch(l); m != nil {
			of.Decls = append(of.Decls, ODecl{Ident: m[2], Kind: "alias", Type: cType(m[1], m[3]), Doc: doc})
			continue
		}
		if l != "typedef struct {" {
			return nil, fmt.Errorf("unexpected line %q", l)
		}
		d := ODecl{Kind: "struct", Doc: doc}
		for {
			l, _, ok := p.next()
			if !ok {
				return nil, fmt.Errorf("unterminated struct")
			}
			if m := cEnd.FindStringSubmatch(l); m != nil {
				d.Ident = m[1]
				break
			}
			fm := cField.FindStringSubmatch(l)
			if fm == nil {
				return nil, fmt.Errorf("bad struct member %q", l)
			}
			om := OMember{Ident: fm[2], Cat: "plain", Type: cType(fm[1], fm[3]), Optional: -1}
			switch fm[4] {
			case "attr":
				om.Cat, om.Optional = "attr", 0
			case "attr, optional":
				om.Cat, om.Optional = "attr", 1
			}
			d.Members = append(d.Members, om)
		}
		of.Decls = append(of.Decls, d)
	}
}

// ---- Java ----

var (
	jClass = regexp.MustCompile(`^public class (` + idRe + `)(?:\s+extends\s+(\S+))?\s*\{$`)
	jField = regexp.MustCompile(`^protected (\S+) (` + idRe + `);$`)
	jAnno  = regexp.MustCompile(`^@(XmlAttribute|XmlElement|XmlValue|XmlAccessorType)(?:\((.*)\))?$`)
	jPkg   = regexp.MustCompile(`^package (\S+);$`)
	jImp   = regexp.MustCompile(`^import (\S+);$`)
	jName  = regexp.MustCompile(`(?:^|, )name = "([^"]*)"`)
)

func jType(s string) (t OType, err error) {
	t.Raw = s
	for strings.HasPrefix(s, "List<") && strings.HasSuffix(s, ">") {
		t.Lists++
		s = s[5 : len(s)-1]
	}
	if !tsOK.MatchString(s) {
		return t, fmt.Errorf("not a Java type: %q", t.Raw)
	}
	t.Name = s
	return
}

type janno struct{ kind, args string }

func observeJava(src string) (*OFile, error) {
	p := splitLines(src)
	of := &OFile{Lang: "Java"}
	var pend []janno
	var pdoc string
	for {
		l, doc, ok := p.next()
		if !ok {
			if len(pend) > 0 {
				return nil, fmt.Errorf("dangling annotation")
			}
			return of, nil
		}
		pdoc += doc
		if m := jPkg.FindStringSubmatch(l); m != nil && of.Package == "" && len(of.Decls) == 0 {
			of.Package = m[1]
			pdoc = ""
			continue
		}
		if m := jImp.FindStringSubmatch(l); m != nil && len(of.Decls) == 0 && len(pend) == 0 {
			of.Imports = append(of.Imports, m[1])
			continue
		}
		if m := jAnno.FindStringSubmatch(l); m != nil {
			pend = append(pend, janno{m[1], m[2]})
			continue
		}
		m := jClass.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("unexpected line %q", l)
		}
		d := ODecl{Ident: m[1], Kind: "struct", Doc: pdoc}
		pdoc = ""
		if m[2] != "" {
			t, err := jType(m[2])
			if err != nil {
				return nil, err
			}
			d.HasExt, d.Extends = true, t
		}
		for _, a := range pend {
			if a.kind != "XmlAccessorType" {
				if nm := jName.FindStringSubmatch(a.args); nm != nil {
					d.ClassWire = nm[1]
				}
			}
		}
		pend = nil
		var fa []janno
		for {
			l, _, ok := p.next()
			if !ok {
				return nil, fmt.Errorf("unterminated class %s", d.Ident)
			}
			if l == "}" {
				break
			}
			if m := jAnno.FindStringSubmatch(l); m != nil {
				fa = append(fa, janno{m[1], m[2]})
				continue
			}
			fm := jField.FindStringSubmatch(l)
			if fm == nil {
				return nil, fmt.Errorf("bad class member %q", l)
			}
			t, err := jType(fm[1])
			if err != nil {
				return nil, err
			}
			om := OMember{Ident: fm[2], Cat: "plain", Type: t, Optional: -1}
			for _, a := range fa {
				nm := jName.FindStringSubmatch(a.args)
				switch a.kind {
				case "XmlAttribute":
					om.Cat = "attr"
					om.Optional = 1
					if strings.Contains(jName.ReplaceAllString(a.args, ""), "required = true") {
						om.Optional = 0
					}
				case "XmlElement":
					if nm != nil {
						om.Cat = "elem"
					}
				case "XmlValue":
					om.Cat = "value"
				}
				if nm != nil {
					om.Wire, om.HasWire = nm[1], true
				}
			}
			fa = nil
			d.Members = append(d.Members, om)
		}
		if len(fa) > 0 {
			return nil, fmt.Errorf("dangling annotation in class %s", d.Ident)
		}
		of.Decls = append(of.Decls, d)
	}
}

// ---- Rust ----

var (
	rStruct = regexp.MustCompile(`^pub struct (` + idRe + `) \{$`)
	rField  = regexp.MustCompile(`^pub (` + idRe + `): (\S+),$`)
	rAttr   = regexp.MustCompile(`^#\[serde\((?:rename = "([^"]*)"|(flatten))\)\]$`)
)

var rustPreamble = map[string]bool{
	"#[macro_use]": true, "extern crate serde_derive;": true, "extern crate serde;": true,
	"extern crate serde_xml_rs;": true, "use serde_xml_rs::from_reader;": true,
}

func rType(s string) (t OType, opt int, err error) {
	t.Raw = s
	if strings.HasPrefix(s, "Option<") && strings.HasSuffix(s, ">") {
		opt = 1
		s = s[7 : len(s)-1]
	}
	for strings.HasPrefix(s, "Vec<") && strings.HasSuffix(s, ">") {
		t.Lists++
		s = s[4 : len(s)-1]
	}
	if !tsOK.MatchString(s) {
		return t, 0, fmt.Errorf("not a Rust type: %q", t.Raw)
	}
	t.Name = s
	return
}

func observeRust(src string) (*OFile, error) {
	p := splitLines(src)
	of := &OFile{Lang: "Rust"}
	var pdoc string
	derive := false
	for {
		l, doc, ok := p.next()
		if !ok {
			if derive {
				return nil, fmt.Errorf("dangling derive")
			}
			return of, nil
		}
		pdoc += doc
		if rustPreamble[l] && len(of.Decls) == 0 && !derive {
			of.Imports = append(of.Imports, l)
			pdoc = ""
			continue
		}
		if strings.HasPrefix(l, "#[derive(") && strings.HasSuffix(l, ")]") {
			derive = true
			continue
		}
		m := rStruct.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("unexpected line %q", l)
		}
		if !derive {
			return nil, fmt.Errorf("struct %s without derive", m[1])
		}
		derive = false
		d := ODecl{Ident: m[1], Kind: "struct", Doc: pdoc}
		pdoc = ""
		var wire string
		var has, flat bool
		for {
			l, _, ok := p.next()
			if !ok {
				return nil, fmt.Errorf("unterminated struct %s", d.Ident)
			}
			if l == "}" {
				break
			}
			if am := rAttr.FindStringSubmatch(l); am != nil {
				wire, has, flat = am[1], am[2] == "", am[2] != ""
				continue
			}
			fm := rField.FindStringSubmatch(l)
			if fm == nil {
				return nil, fmt.Errorf("bad struct member %q", l)
			}
			t, opt, err := rType(fm[2])
			if err != nil {
				return nil, err
			}
			om := OMember{Ident: fm[1], Cat: "plain", Type: t, Optional: opt, Wire: wire, HasWire: has}
			if flat {
				om.Cat = "base"
			} else if wire == "$value" {
				om.Cat = "value"
			}
			d.Members = append(d.Members, om)
			wire, has, flat = "", false, false
		}
		of.Decls = append(of.Decls, d)
	}
}
