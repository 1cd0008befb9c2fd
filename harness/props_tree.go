package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"

	"github.com/xuri/xgen"
)

// C21: the exported tree against the schema model.

// accTypes are the names under which the tree may record a type: the language
// type of a built-in, or the name of any definition on the way to it.
func (s *Schema) accTypes(t TypeRef, lang string) map[string]bool {
	out := map[string]bool{}
	s.accInto(t, lang, out)
	return out
}

func (s *Schema) accInto(t TypeRef, lang string, out map[string]bool) {
	if t.Builtin != "" {
		out[builtinTable[t.Builtin][langIndex(lang)]] = true
		return
	}
	out[t.Name] = true
	if c := s.comp(t.Name); c != nil && c.Kind == "simpleType" && c.Simple.Variety == "restriction" {
		s.accInto(c.Simple.Base, lang, out)
	}
}

// accSimple: types of an anonymous simple type, and whether it is a list.
func (s *Schema) accSimple(d *SimpleDef, lang string) (map[string]bool, bool) {
	switch d.Variety {
	case "list":
		if len(d.Inline) > 0 {
			a, _ := s.accSimple(d.Inline[0], lang)
			return a, true
		}
		return s.accTypes(d.Base, lang), true
	case "union":
		return map[string]bool{"": true, builtinTable["anySimpleType"][langIndex(lang)]: true}, false
	}
	return s.accTypes(d.Base, lang), false
}

func (s *Schema) accElem(e *ElemDecl, lang string) (acc map[string]bool, list bool) {
	switch {
	case e.Ref:
		acc, _ = s.accElem(s.elem(e.Name).Elem, lang)
		acc[e.Name] = true
		return acc, false
	case e.Complex != nil:
		return map[string]bool{e.Name: true}, false
	case e.Simple != nil:
		return s.accSimple(e.Simple, lang)
	case e.Type.zero():
		return s.accTypes(TypeRef{Builtin: "anyType"}, lang), false
	}
	return s.accTypes(e.Type, lang), false
}

func (s *Schema) accAttr(a *AttrUse, lang string) (acc map[string]bool, list bool) {
	switch {
	case a.Ref:
		acc, _ = s.accAttr(s.comp(a.Name).Attr, lang)
		acc[a.Name] = true
		return acc, false
	case a.XML:
		return s.accTypes(TypeRef{Builtin: a.Name}, lang), false
	case a.Simple != nil:
		return s.accSimple(a.Simple, lang)
	case a.Type.zero():
		return s.accTypes(TypeRef{Builtin: "anySimpleType"}, lang), false
	}
	return s.accTypes(a.Type, lang), false
}

// TNode is one expected component of the tree; Types lists what its type may
// be called.
type TNode struct {
	Kind, Name, Doc      string
	Types                map[string]bool
	Plural, Optional     bool
	List, Union          bool
	Enum                 []string
	MemberTypes          map[string]map[string]bool
	AnyBase              bool
	Elems, Attrs, Groups []TNode
	AGroups              []string
	GroupRefs            bool
	nested               bool
}

func sameList(a, b []string) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

// treeModel lists the components that the tree of file f must have, in the
// order of the document (anonymous types right before their owner).
func treeModel(s *Schema, f int, lang string) (out []TNode) {
	var complexNode func(name, doc string, d *ComplexDef, anon bool) TNode
	attrs := func(l []*AttrUse) (as []TNode, gs []string) {
		for _, a := range l {
			if a.Group {
				gs = append(gs, a.Name)
				continue
			}
			t, list := s.accAttr(a, lang)
			as = append(as, TNode{Kind: "Attribute", Name: a.Name, Doc: a.Doc, Types: t, Plural: list, Optional: a.Use != "required"})
		}
		return
	}
	parts := func(n *TNode, p *Particle) {
		for _, l := range leaves(p, false) {
			if l.P.Kind == "group" {
				if i := slices.IndexFunc(n.Groups, func(x TNode) bool { return x.Name == l.P.Group }); i >= 0 {
					n.Groups[i].Plural = n.Groups[i].Plural || l.Plural
					continue
				}
				n.Groups = append(n.Groups, TNode{Kind: "Group", Name: l.P.Group, Plural: l.Plural})
				continue
			}
			e := l.P.Elem
			if e.Complex != nil && !e.Ref {
				out = append(out, complexNode(e.Name, e.Doc, e.Complex, true))
			}
			t, list := s.accElem(e, lang)
			merged := false
			for i := range n.Elems {
				x := &n.Elems[i]
				if x.Name == e.Name && reflect.DeepEqual(x.Types, t) {
					x.Plural, merged = x.Plural || l.Plural || list, true
				}
			}
			if !merged {
				n.Elems = append(n.Elems, TNode{Kind: "Element", Name: e.Name, Doc: e.Doc, Types: t, Plural: l.Plural || list})
			}
		}
	}
	complexNode = func(name, doc string, d *ComplexDef, anon bool) TNode {
		n := TNode{Kind: "ComplexType", Name: name, Doc: doc, nested: anon}
		parts(&n, d.Particle)
		n.Attrs, n.AGroups = attrs(d.Attrs)
		n.Types = map[string]bool{"": true}
		switch d.Deriv {
		case "simpleExt":
			n.Types = s.accTypes(d.Base, lang)
		case "complexExt":
			n.Types = map[string]bool{d.Base.Name: true}
		case "complexRestr":
			n.Types[d.Base.Name] = true
		}
		return n
	}
	for _, c := range s.Comps {
		if c.File != f {
			continue
		}
		n := TNode{Name: c.Name, Doc: c.Doc}
		switch c.Kind {
		case "simpleType":
			n.Kind = "SimpleType"
			switch c.Simple.Variety {
			case "restriction":
				n.Types = s.accTypes(c.Simple.Base, lang)
			case "list":
				n.List = true
				n.Types, _ = s.accSimple(c.Simple, lang)
			case "union":
				n.Union = true
				n.MemberTypes = map[string]map[string]bool{}
				for _, t := range c.Simple.Members {
					n.MemberTypes[t.Builtin+t.Name] = s.accTypes(t, lang)
				}
			}
			for _, x := range c.Simple.Facets {
				if x.Name == "enumeration" {
					n.Enum = append(n.Enum, x.Value)
				}
			}
		case "complexType":
			n = complexNode(c.Name, c.Doc, c.Complex, false)
		case "element":
			if c.Elem.Complex != nil {
				n = complexNode(c.Name, c.Doc, c.Elem.Complex, false)
				break
			}
			n.Kind = "Element"
			n.Types, n.Plural = s.accElem(c.Elem, lang)
		case "attribute":
			n.Kind = "Attribute"
			n.Types, n.Plural = s.accAttr(c.Attr, lang)
			n.Optional = true
		case "group":
			n.Kind = "Group"
			parts(&n, c.Particle)
		case "attributeGroup":
			n.Kind = "AttributeGroup"
			n.Attrs, n.AGroups = attrs(c.Attrs)
		}
		out = append(out, n)
	}
	return
}

func keysOf(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, fmt.Sprintf("%q", k))
	}
	sort.Strings(l)
	return strings.Join(l, " or ")
}

// compareTree reports how the tree differs from the expected components.
func compareTree(want []TNode, tree []interface{}) (ds []string) {
	bad := func(format string, a ...any) { ds = append(ds, fmt.Sprintf(format, a...)) }
	typ := func(where, got string, w map[string]bool) {
		if !w[got] {
			bad("%s: type %q instead of %s", where, got, keysOf(w))
		}
	}
	flag := func(where, what string, got, w bool) {
		if got != w {
			bad("%s: %s is %v instead of %v", where, what, got, w)
		}
	}
	doc := func(where, got, w string) {
		if strings.TrimSpace(got) != w {
			bad("%s: documentation %q instead of %q", where, got, w)
		}
	}
	attrs := func(where string, got []xgen.Attribute, w []TNode) {
		var a, b []string
		for _, x := range got {
			a = append(a, x.Name)
		}
		for _, x := range w {
			b = append(b, x.Name)
		}
		if !sameList(a, b) {
			bad("%s: attributes %q instead of %q", where, a, b)
			return
		}
		for i, x := range got {
			p := where + "/@" + x.Name
			typ(p, x.Type, w[i].Types)
			flag(p, "Optional", x.Optional, w[i].Optional)
			flag(p, "Plural", x.Plural, w[i].Plural)
			doc(p, x.Doc, w[i].Doc)
		}
	}
	elems := func(where string, got []xgen.Element, w []TNode) {
		var a, b []string
		for _, x := range got {
			a = append(a, x.Name)
		}
		for _, x := range w {
			b = append(b, x.Name)
		}
		if !sameList(a, b) {
			bad("%s: elements %q instead of %q", where, a, b)
			return
		}
		for i, x := range got {
			p := where + "/" + x.Name
			typ(p, x.Type, w[i].Types)
			flag(p, "Plural", x.Plural, w[i].Plural)
			doc(p, x.Doc, w[i].Doc)
		}
	}
	groups := func(where string, got []xgen.Group, w []TNode) {
		var a, b []string
		for _, x := range got {
			a = append(a, fmt.Sprint(x.Name, " plural:", x.Plural))
			if x.Ref != x.Name {
				bad("%s: group reference to %q is called %q", where, x.Ref, x.Name)
			}
		}
		for _, x := range w {
			b = append(b, fmt.Sprint(x.Name, " plural:", x.Plural))
		}
		if !sameList(a, b) {
			bad("%s: groups %q instead of %q", where, a, b)
		}
	}
	agroups := func(where string, got []xgen.AttributeGroup, w []string) {
		var a []string
		for _, x := range got {
			a = append(a, x.Name)
			if x.Ref != x.Name {
				bad("%s: attribute group reference to %q is called %q", where, x.Ref, x.Name)
			}
		}
		if !sameList(a, w) {
			bad("%s: attribute groups %q instead of %q", where, a, w)
		}
	}
	by := map[string]*TNode{}
	var order []string
	for i := range want {
		by[want[i].Kind+" "+want[i].Name] = &want[i]
		if !want[i].nested {
			order = append(order, want[i].Kind+" "+want[i].Name)
		}
	}
	seen := map[string]bool{}
	var got []string
	for _, v := range tree {
		kind := strings.TrimPrefix(reflect.TypeOf(v).String(), "*xgen.")
		name := ""
		if rv := reflect.ValueOf(v); rv.Kind() == reflect.Ptr && !rv.IsNil() && rv.Elem().Kind() == reflect.Struct {
			if f := rv.Elem().FieldByName("Name"); f.IsValid() {
				name = f.String()
			}
		}
		where := kind + " " + name
		w := by[where]
		if w == nil {
			bad("unexpected component: %s %q", kind, name)
			continue
		}
		if seen[where] {
			bad("%s %q is there twice", kind, name)
			continue
		}
		seen[where] = true
		if !w.nested {
			got = append(got, where)
		}
		switch x := v.(type) {
		case *xgen.SimpleType:
			doc(where, x.Doc, w.Doc)
			flag(where, "List", x.List, w.List)
			flag(where, "Union", x.Union, w.Union)
			if !w.Union {
				typ(where, x.Base, w.Types)
			}
			if !sameList(x.Restriction.Enum, w.Enum) {
				bad("%s: enumeration %q instead of %q", where, x.Restriction.Enum, w.Enum)
			}
			for _, k := range sortedKeys(x.MemberTypes) {
				if t := w.MemberTypes[k]; t == nil {
					bad("%s: unexpected member type %q", where, k)
				} else {
					typ(where+" member "+k, x.MemberTypes[k], t)
				}
			}
			for _, k := range sortedKeys(w.MemberTypes) {
				if _, ok := x.MemberTypes[k]; !ok {
					bad("%s: member type %q is missing", where, k)
				}
			}
		case *xgen.ComplexType:
			doc(where, x.Doc, w.Doc)
			typ(where+" base", x.Base, w.Types)
			elems(where, x.Elements, w.Elems)
			attrs(where, x.Attributes, w.Attrs)
			groups(where, x.Groups, w.Groups)
			agroups(where, x.AttributeGroup, w.AGroups)
		case *xgen.Element:
			doc(where, x.Doc, w.Doc)
			typ(where, x.Type, w.Types)
			flag(where, "Plural", x.Plural, w.Plural)
		case *xgen.Attribute:
			doc(where, x.Doc, w.Doc)
			typ(where, x.Type, w.Types)
			flag(where, "Plural", x.Plural, w.Plural)
			flag(where, "Optional", x.Optional, w.Optional)
		case *xgen.Group:
			doc(where, x.Doc, w.Doc)
			elems(where, x.Elements, w.Elems)
			groups(where, x.Groups, w.Groups)
		case *xgen.AttributeGroup:
			doc(where, x.Doc, w.Doc)
			attrs(where, x.Attributes, w.Attrs)
			agroups(where, x.AttributeGroup, w.AGroups)
		}
	}
	for _, k := range sortedKeys(by) {
		if !seen[k] {
			bad("missing component: %s", k)
		}
	}
	if len(ds) == 0 && !sameList(got, order) {
		bad("global components in the order %q instead of %q", got, order)
	}
	return
}

// treeCase makes one schema, in one file or in several.
func treeCase(c *Ctx) (s *Schema, texts map[string]string) { return treeCaseOf(c, nil) }

func treeCaseOf(c *Ctx, tweak func(*GenCfg)) (s *Schema, texts map[string]string) {
	s = modelSchema(c.R, c.I, func(g *GenCfg) {
		if tweak != nil {
			tweak(g)
		}
		if c.I%3 == 1 {
			g.EnumPct = 70
		}
	})
	if c.I%4 == 3 {
		scatter(c.R, s)
		texts = renderAll(s, func(f int) Prefixes { return scatterPx(c.R, s, f) }, &Style{})
		return
	}
	px := onePx(c.R, s)
	tree := build(s, 0, px)
	if c.I%2 == 0 {
		noise(c.R, tree)
	}
	texts = map[string]string{s.Files[0].Path: (&Style{}).write(px, tree)}
	return
}

func diff2(a, b map[string]string) string {
	var l []string
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			l = append(l, k+" is gone")
		} else if v != a[k] {
			l = append(l, k+" is changed")
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			l = append(l, k+" is new")
		}
	}
	return strings.Join(l, ", ")
}

func runC21(c *Ctx) {
	s, texts := treeCase(c)
	in := filepath.Join(c.Dir, "in")
	writeFiles(in, texts)
	files := map[string]string{}
	for p, t := range texts {
		files["in/"+p] = t
	}
	c.sample(texts[s.Files[0].Path])
	outDirs := []string{filepath.Join(c.Dir, "out"), "", in, filepath.Join(c.Dir, "in", "x")}
	for _, lang := range langs {
		for f := range s.Files {
			path := filepath.Join(in, s.Files[f].Path)
			want := treeModel(s, f, lang)
			before := snapshot(c.Dir)
			var first string
			for k := 0; k < 2; k++ {
				opt := newOptions(lang, path, in, filepath.Join(c.Dir, "out"), "", true)
				if k == 1 { // options about the output do not matter
					opt = newOptions(lang, path, []string{in, "", "/nowhere"}[c.R.IntN(3)], outDirs[c.R.IntN(len(outDirs))], "pkg", true)
					if c.R.IntN(2) == 0 {
						opt = &xgen.Options{FilePath: path, Lang: lang, Extract: true}
					}
				}
				o := parse(opt)
				c.count("trees", 1)
				if !o.ok() {
					c.violate(files, "%s: extracting %s: %s", lang, s.Files[f].Path, o)
					return
				}
				if k == 0 {
					if ds := compareTree(want, opt.ProtoTree); len(ds) > 0 {
						c.violate(files, "%s: tree of %s: %s", lang, s.Files[f].Path, strings.Join(ds[:min(4, len(ds))], "\n"))
						return
					}
					c.count("components", len(want))
					first = treeJSON(opt.ProtoTree, true)
				} else if t := treeJSON(opt.ProtoTree, true); t != first {
					c.violate(files, "%s: the tree of %s depends on the output options: %s", lang, s.Files[f].Path, firstDiff(first, t))
					return
				}
			}
			if d := diff2(before, snapshot(c.Dir)); d != "" {
				c.violate(files, "%s: extracting %s changed files: %s", lang, s.Files[f].Path, d)
				return
			}
			od := filepath.Join(c.Dir, "gen")
			opt := newOptions(lang, path, in, od, "", false)
			o := parse(opt)
			os.RemoveAll(od)
			c.count("trees", 1)
			if !o.ok() {
				c.violate(files, "%s: translating %s: %s", lang, s.Files[f].Path, o)
				return
			}
			if ds := compareTree(want, opt.ProtoTree); len(ds) > 0 {
				c.violate(files, "%s: tree of %s in generating mode: %s", lang, s.Files[f].Path, strings.Join(ds[:min(4, len(ds))], "\n"))
				return
			}
			if t := treeJSON(opt.ProtoTree, true); len(s.Files) == 1 && t != first {
				c.violate(files, "%s: generating mode leaves another tree: %s", lang, firstDiff(first, t))
				return
			}
		}
	}
	for _, d := range expect(s).Decls {
		c.shape(fmt.Sprint(len(s.Files) > 1, shape(d)))
	}
}

func init() {
	register(&Driver{ID: "C21", Level: "exploration", Method: "reference-model monitor over the exported tree",
		Rule:  "random schemas, in one file and in several, x 5 languages x extract and generating mode; distinct = structurally different components",
		Quick: 5000, Deep: 120000, Run: runC21, MinN: []string{"trees", "components"}})
}
