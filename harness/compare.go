package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Comparison of what a generated file says (OFile) with what the model demands
// (XModel). Every difference carries the aspect it belongs to, so that each
// property reports its own.

// Diff aspects.
const (
	aDecl    = "declarations" // C05
	aMember  = "members"      // C06
	aWire    = "names"        // C07
	aPlural  = "cardinality"  // C08
	aOpt     = "optionality"  // C09
	aBuiltin = "builtin"      // C10
	aRef     = "resolution"   // C11
	aDerive  = "derivation"   // C12
	aEnum    = "enumeration"  // C22
)

type Diff struct{ Aspect, Msg string }

type comparer struct {
	lang  string
	m     *XModel
	f     *OFile
	only  func(*XDecl) bool // which model declarations this file must have
	known map[string]*ODecl // observed, by dkey (all files)
	loose map[string]*ODecl // the same, by normalised ident; nil: ambiguous
	diffs []Diff
}

func (c *comparer) find(name string) *ODecl {
	if d := c.known[dkey(name)]; d != nil {
		return d
	}
	return c.loose[norm(name)]
}

func (c *comparer) d(aspect, format string, a ...any) {
	c.diffs = append(c.diffs, Diff{aspect, c.lang + ": " + fmt.Sprintf(format, a...)})
}

// snake is the documented field naming of the Rust output.
func rustField(name string) string {
	id := ""
	for _, p := range strings.Split(name, ":") {
		for _, q := range strings.Split(p, ".") {
			id += title(q)
		}
	}
	return strings.ToLower(strings.ReplaceAll(id, "-", ""))
}

// tableType splits a language type of the built-in table into list layers and
// a base name.
func tableType(lang, s string) (lists int, base string) {
	switch lang {
	case "Go":
		for strings.HasPrefix(s, "[]") {
			lists, s = lists+1, s[2:]
		}
	case "TypeScript":
		for strings.HasPrefix(s, "Array<") {
			lists, s = lists+1, s[6:len(s)-1]
		}
	case "C":
		for strings.HasSuffix(s, "[]") {
			lists, s = lists+1, s[:len(s)-2]
		}
	case "Java":
		for strings.HasPrefix(s, "List<") {
			lists, s = lists+1, s[5:len(s)-1]
		}
	case "Rust":
		for strings.HasPrefix(s, "Vec<") {
			lists, s = lists+1, s[4:len(s)-1]
		}
	}
	return lists, s
}

var langBuiltin = map[string]map[string]bool{}

func init() {
	for i, l := range langs {
		m := map[string]bool{}
		for _, row := range builtinTable {
			_, b := tableType(l, row[i])
			m[b] = true
		}
		langBuiltin[l] = m
	}
}

// resolved is an observed type after following simple aliases and wrappers.
type resolved struct {
	Lists   int
	Builtin string
	Decl    string // model name of a structured declaration
	Dangle  string
	Via     []string // simple declarations followed
}

func (r resolved) String() string {
	s := r.Builtin
	if r.Decl != "" {
		s = "declaration " + r.Decl
	}
	if r.Dangle != "" {
		s = "undeclared " + r.Dangle
	}
	s = strings.Repeat("list of ", r.Lists) + s
	if len(r.Via) > 0 {
		s += " (via " + strings.Join(r.Via, ", ") + ")"
	}
	return s
}

func (c *comparer) resolve(t OType) (r resolved) {
	r.Lists = t.Lists
	for i := 0; i < 50; i++ {
		if langBuiltin[c.lang][t.Name] {
			if od := c.find(t.Name); od == nil || t.Name != od.Ident {
				r.Builtin = t.Name
				return
			}
		}
		x := c.m.find(t.Name)
		od := c.find(t.Name)
		if od == nil || (od.Ident != t.Name && !(c.lang == "Rust" && x != nil && (x.Kind == "element" || x.Kind == "attribute"))) {
			r.Dangle = t.Name
			return
		}
		if x == nil {
			r.Decl = "?" + t.Name
			return
		}
		switch x.Kind {
		case "complex", "union", "group", "attrgroup":
			r.Decl = x.Name
			return
		}
		r.Via = append(r.Via, x.Name)
		switch {
		case od.Kind == "alias":
			t = od.Type
		case od.Kind == "enum":
			// enumerations of TypeScript: strings or numbers
			b := "string"
			for _, e := range od.Enums {
				if e[1] != "" && e[1][0] != '\'' && e[1][0] != '"' {
					b = "number"
				}
			}
			if len(od.Enums) == 0 || b == "string" {
				b = langType("TypeScript", c.m, x.Type)
			}
			r.Builtin = b
			return
		case len(od.Members) == 1:
			t = od.Members[0].Type
		default:
			r.Decl = "?" + t.Name
			return
		}
		r.Lists += t.Lists
	}
	r.Dangle = "(cyclic) " + t.Name
	return
}

// langType is the base language type of a built-in.
func langType(lang string, m *XModel, t XType) string {
	if t.Builtin == "" {
		return ""
	}
	_, b := tableType(lang, builtinTable[t.Builtin][langIndex(lang)])
	return b
}

// checkType compares an observed type with the expectation. plural is an extra
// list layer required by cardinality (0/1); -1 when cardinality says nothing.
func (c *comparer) checkType(where string, ot OType, want XType, plural bool, aspect string, direct bool) {
	r := c.resolve(ot)
	wantLists := want.Lists
	wantBase := ""
	if want.Decl == "" {
		n, b := tableType(c.lang, builtinTable[want.Builtin][langIndex(c.lang)])
		wantLists += n
		wantBase = b
	}
	typeLists := wantLists
	if plural {
		wantLists++
	}
	if r.Dangle != "" {
		c.d(aRef, "%s has type %q, which is not declared (expected %s)", where, r.Dangle, want)
		if direct {
			c.d(aBuiltin, "%s has type %q, which is not declared (expected %s)", where, r.Dangle, want)
		}
		return
	}
	for _, via := range r.Via {
		if x := c.m.find(via); x != nil && x.Type.Lists == 0 {
			c.d(aRef, "%s has type %s, which does not reduce %s to its built-in base", where, ot.Raw, via)
		}
	}
	if r.Decl != want.Decl || r.Builtin != wantBase {
		if !(c.lang == "TypeScript" && r.Builtin == "string" && wantBase == "any" && len(r.Via) > 0) {
			a := aspect
			c.d(a, "%s has type %s, expected %s %s", where, r, want, wantBase)
			return
		}
	}
	got := r.Lists
	if c.lang == "C" { // arrays of arrays are flattened
		if got > 1 {
			got = 1
		}
		if wantLists > 1 {
			wantLists = 1
		}
		if typeLists > 1 {
			typeLists = 1
		}
	}
	if got == wantLists {
		return
	}
	if c.lang == "TypeScript" && plural && tsScalar[wantBase] && want.Lists == 0 && got == typeLists {
		// recorded finding: repeated members of TypeScript's own scalar types
		// are not arrays (fixed by the project's golden test).
		return
	}
	if c.lang == "TypeScript" && want.Inline && tsScalar[wantBase] && got == wantLists-1 {
		return // the same finding, for an anonymous list
	}
	if plural || got == wantLists+1 || got > typeLists {
		c.d(aPlural, "%s has %d list layer(s), expected %d (%s)", where, got, wantLists, ot.Raw)
		if plural {
			return
		}
	}
	c.d(aspect, "%s has %d list layer(s), expected %d (%s)", where, got, wantLists, ot.Raw)
}

var tsScalar = map[string]bool{"boolean": true, "number": true, "string": true, "Uint8Array": true}

// memberIdent is the identifier a member must have.
func memberIdent(lang string, x XMember) string {
	switch {
	case lang == "Rust":
		return rustField(x.Name)
	case x.Cat == "attr":
		return ident(lang, x.Name) + "Attr"
	}
	return ident(lang, x.Name)
}

func sameIdent(lang, want, got string) bool {
	if lang != "Rust" {
		return want == got
	}
	w, g := strings.ReplaceAll(want, "_", ""), strings.ReplaceAll(got, "_", "")
	if w == g || w+"attr" == g {
		return got == strings.ToLower(got)
	}
	return false
}

func looseIdent(lang, want, got string) bool {
	w, g := norm(want), norm(got)
	return w == g || lang == "Rust" && w+"attr" == g
}

func compatible(lang, xcat, ocat string) bool {
	if ocat == "value" || ocat == "base" {
		return false
	}
	if ocat == "plain" {
		return true
	}
	switch xcat {
	case "attr":
		return ocat == "attr"
	case "elem":
		return ocat == "elem"
	}
	return ocat != "attr"
}

// hasCat says whether the language marks this category on the member.
func hasCat(lang string, d *XDecl, cat string) bool {
	switch lang {
	case "Go":
		return cat == "attr" || cat == "elem" && d.Kind == "complex"
	case "C":
		return cat == "attr"
	case "Java":
		return cat == "attr" || cat == "elem"
	}
	return false
}

func (c *comparer) decl(d *XDecl, od *ODecl) {
	where := d.Kind + " " + d.Name
	// name of the declaration
	if want := ident(c.lang, d.Name); od.Ident != want {
		c.d(aWire, "%s is declared as %q, expected %q", where, od.Ident, want)
	}
	switch d.Kind {
	case "simple", "list", "element", "attribute":
		c.simpleDecl(where, d, od)
		return
	}
	if od.Kind != "struct" {
		c.d(aDecl, "%s is generated as %s", where, od.Kind)
		return
	}
	if c.lang == "Go" {
		if od.XMLName != "" && od.XMLName != d.Name {
			c.d(aWire, "%s: XMLName is %q", where, od.XMLName)
		}
		if od.XMLName == "" && od.Ident != d.Name {
			c.d(aWire, "%s: no XMLName although the identifier is %q", where, od.Ident)
		}
	}
	c.members(where, d, od)
}

func (c *comparer) simpleDecl(where string, d *XDecl, od *ODecl) {
	aspect := aRef
	if d.Direct {
		aspect = aBuiltin
	}
	if c.lang == "TypeScript" && d.Kind == "simple" && len(d.Enums) > 0 {
		if od.Kind != "enum" {
			c.d(aDecl, "%s is generated as %s, expected an enumeration", where, od.Kind)
			c.d(aEnum, "%s is generated as %s, expected an enumeration", where, od.Kind)
			return
		}
		c.enum(where, d, od)
		return
	}
	switch c.lang {
	case "Go", "TypeScript", "C":
		if od.Kind != "alias" {
			c.d(aDecl, "%s is generated as %s, expected a type alias", where, od.Kind)
			return
		}
		c.checkType(where, od.Type, d.Type, false, aspect, d.Direct)
	case "Java", "Rust":
		if od.Kind != "struct" || len(od.Members) != 1 || od.HasExt {
			c.d(aDecl, "%s is not generated as a one-field wrapper (%d fields)", where, len(od.Members))
			return
		}
		m := od.Members[0]
		c.checkType(where, m.Type, d.Type, false, aspect, d.Direct)
		want := ident(c.lang, d.Name)
		if c.lang == "Rust" {
			want = rustField(d.Name)
		}
		if !sameIdent(c.lang, want, m.Ident) {
			c.d(aWire, "%s: field %q, expected %q", where, m.Ident, want)
		}
		wire := m.Wire
		if c.lang == "Java" {
			wire = od.ClassWire
		}
		if wire != d.Name {
			c.d(aWire, "%s: serialized name %q", where, wire)
		}
		if m.Optional == 1 {
			c.d(aOpt, "%s: wrapped value is optional", where)
		}
	}
}

func unquoteTS(s string) (string, bool) {
	if len(s) >= 2 && (s[0] == '\'' || s[0] == '"') && s[len(s)-1] == s[0] {
		s = s[1 : len(s)-1]
		s = strings.NewReplacer(`\u2028`, "\u2028", `\u2029`, "\u2029", `\\`, `\`, `\'`, `'`, `\"`, `"`, `\n`, "\n", `\r`, "\r", `\t`, "\t").Replace(s)
		return s, true
	}
	return s, false
}

func (c *comparer) enumNumeric(d *XDecl) bool {
	return langType("TypeScript", c.m, d.Type) == "number" && d.Type.Lists == 0
}

// tsNumber is a canonical form of a number, in XSD or TypeScript spelling.
func tsNumber(s string) string {
	s = strings.Replace(s, "Infinity", "INF", 1)
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
	return "?" + s
}

func (c *comparer) enum(where string, d *XDecl, od *ODecl) {
	var got []string
	names := map[string]bool{}
	for _, e := range od.Enums {
		name, _ := unquoteTS(e[0])
		if names[name] {
			c.d(aEnum, "%s: two members are called %s", where, e[0])
		}
		names[name] = true
		v, quoted := unquoteTS(e[1])
		got = append(got, v)
		if c.enumNumeric(d) == quoted {
			c.d(aEnum, "%s: member %s is bound to %s", where, e[0], e[1])
		}
	}
	if c.enumNumeric(d) {
		bad := len(got) != len(d.Enums)
		for i := 0; !bad && i < len(got); i++ {
			bad = tsNumber(got[i]) != tsNumber(d.Enums[i])
		}
		if bad {
			c.d(aEnum, "%s: values %q, expected %q", where, got, d.Enums)
		}
		return
	}
	if strings.Join(got, "\x00") != strings.Join(d.Enums, "\x00") || len(got) != len(d.Enums) {
		c.d(aEnum, "%s: values %q, expected %q", where, got, d.Enums)
	}
}

func (c *comparer) members(where string, d *XDecl, od *ODecl) {
	used := make([]bool, len(od.Members))
	last := map[string]int{}
	first := len(c.diffs)
	// the value/base of a derivation
	valueAt, baseAt := -1, -1
	for i, m := range od.Members {
		switch m.Cat {
		case "value":
			if c.lang != "TypeScript" || d.Deriv == "simpleExt" && i == len(od.Members)-1 {
				if valueAt >= 0 {
					c.d(aDerive, "%s: two value members", where)
				}
				valueAt = i
				used[i] = true
			}
		case "base":
			if baseAt >= 0 {
				c.d(aDerive, "%s: two embedded bases", where)
			}
			baseAt = i
			used[i] = true
		}
	}
	for _, x := range d.Members {
		want := memberIdent(c.lang, x)
		hit := -1
		for pass := 0; pass < 2 && hit < 0; pass++ {
			for i, m := range od.Members {
				if used[i] || !compatible(c.lang, x.Cat, m.Cat) {
					continue
				}
				if pass == 0 && sameIdent(c.lang, want, m.Ident) || pass == 1 && looseIdent(c.lang, want, m.Ident) {
					if hit < 0 || c.lang == "Rust" && m.Wire == x.Name && od.Members[hit].Wire != x.Name {
						hit = i
					}
				}
			}
		}
		mw := fmt.Sprintf("%s: %s %s", where, x.Cat, x.Name)
		if hit < 0 {
			c.d(aMember, "%s is missing (%s)", mw, memberList(od))
			continue
		}
		used[hit] = true
		m := od.Members[hit]
		if !sameIdent(c.lang, want, m.Ident) {
			c.d(aWire, "%s is named %q, expected %q", mw, m.Ident, want)
		}
		if x.Cat != "union" {
			if p, ok := last[x.Cat]; ok && hit < p {
				c.d(aMember, "%s is out of document order (%s)", mw, memberList(od))
			}
			last[x.Cat] = hit
		}
		// serialized name
		if x.Cat == "attr" || x.Cat == "elem" {
			ok := true
			switch c.lang {
			case "Go":
				ok = m.Wire == x.Name || !m.HasWire && d.Kind == "group"
			case "Java", "Rust":
				ok = m.Wire == x.Name
			}
			if !ok {
				c.d(aWire, "%s: serialized name %q", mw, m.Wire)
			}
			if hasCat(c.lang, d, x.Cat) && m.Cat != x.Cat {
				c.d(aWire, "%s is serialized as %s", mw, m.Cat)
			}
		} else if c.lang == "Rust" && x.Cat != "union" && m.Wire != x.Name {
			c.d(aWire, "%s: serialized name %q", mw, m.Wire)
		}
		// optionality
		if x.Cat == "attr" && m.Optional >= 0 {
			want := 0
			if x.Optional {
				want = 1
			}
			if m.Optional != want {
				c.d(aOpt, "%s: optional=%v, expected %v", mw, m.Optional == 1, x.Optional)
			}
		} else if x.Cat != "attr" && m.Optional == 1 && c.lang == "Go" {
			c.d(aOpt, "%s carries omitempty", mw)
		}
		aspect := aRef
		if x.Direct {
			aspect = aBuiltin
		}
		t := m.Type
		if c.lang == "Rust" && x.Cat == "attrgroup" && t.Lists == 1 {
			t.Lists = 0 // Rust wraps attribute groups in Vec
		}
		c.checkType(mw, t, x.Type, x.Plural, aspect, x.Direct)
	}
	for i, m := range od.Members {
		if !used[i] {
			if m.Cat == "value" || m.Cat == "base" {
				c.d(aDerive, "%s: unexpected %s member %s", where, m.Cat, m.Ident)
			} else {
				c.d(aMember, "%s: unexpected member %s (%s)", where, m.Ident, memberList(od))
			}
		}
	}
	if d.Deriv != "" {
		// the members of a derived type are those the derivation adds
		for _, x := range c.diffs[first:] {
			if x.Aspect == aMember {
				x.Aspect = aDerive
				c.diffs = append(c.diffs, x)
			}
		}
	}
	c.derive(where, d, od, valueAt, baseAt)
}

func memberList(od *ODecl) string {
	var l []string
	for _, m := range od.Members {
		l = append(l, m.Cat+" "+m.Ident)
	}
	return "has: " + strings.Join(l, ", ")
}

func (c *comparer) derive(where string, d *XDecl, od *ODecl, valueAt, baseAt int) {
	if c.lang == "C" { // bases are not represented in C (documented TODO)
		return
	}
	hasExt := od.HasExt || baseAt >= 0
	ext := od.Extends
	if baseAt >= 0 {
		ext = od.Members[baseAt].Type
	}
	switch d.Deriv {
	case "":
		if hasExt {
			c.d(aDerive, "%s: unexpected base %s", where, ext.Raw)
		}
		if valueAt >= 0 {
			c.d(aDerive, "%s: unexpected value member", where)
		}
	case "simpleExt":
		if hasExt {
			c.d(aDerive, "%s: simple content is generated as inheritance from %s", where, ext.Raw)
			return
		}
		if valueAt < 0 {
			c.d(aDerive, "%s: no value member for simple content", where)
			return
		}
		if m := od.Members[valueAt]; m.Optional == 1 && c.lang != "Go" {
			c.d(aDerive, "%s: optional value member", where)
		}
		n := len(c.diffs)
		c.checkType(where+": value", od.Members[valueAt].Type, d.Base, false, aDerive, false)
		for _, x := range c.diffs[n:] {
			if x.Aspect != aDerive {
				continue
			}
			if d.BaseRef.Builtin != "" {
				x.Aspect = aBuiltin
			} else {
				x.Aspect = aRef
			}
			c.diffs = append(c.diffs, x)
			break
		}
	case "complexExt":
		if valueAt >= 0 {
			c.d(aDerive, "%s: unexpected value member", where)
		}
		if !hasExt {
			c.d(aDerive, "%s: base %s is missing", where, d.Base.Decl)
			return
		}
		r := c.resolve(ext)
		if r.Dangle != "" {
			c.d(aRef, "%s: base %q is not declared", where, r.Dangle)
			c.d(aDerive, "%s: base %q is not declared", where, r.Dangle)
			return
		}
		if r.Decl != d.Base.Decl || r.Lists != 0 {
			c.d(aDerive, "%s: base is %s, expected %s", where, r, d.Base.Decl)
		}
	}
}

func (c *comparer) run() []Diff {
	seen := map[string]int{}
	for i := range c.f.Decls {
		od := &c.f.Decls[i]
		d := c.m.find(od.Ident)
		k := dkey(od.Ident)
		if d != nil {
			k = dkey(d.Name)
		}
		seen[k]++
		if d == nil {
			// name counters make duplicates such as Foo2
			c.d(aDecl, "unexpected declaration %s", od.Ident)
			continue
		}
		if !c.only(d) {
			c.d(aDecl, "declaration %s belongs to another file", od.Ident)
			continue
		}
		if seen[k] > 1 {
			c.d(aDecl, "%s is declared twice", od.Ident)
			continue
		}
		c.decl(d, od)
	}
	for _, d := range c.m.Decls {
		if c.only(d) && seen[dkey(d.Name)] == 0 {
			c.d(aDecl, "%s %s is not declared", d.Kind, d.Name)
		}
	}
	c.order()
	return c.diffs
}

// order: declarations of global components follow the order of the schema. In
// TypeScript a class follows the class that it extends, so that a base may be
// declared earlier than its place in the schema.
func (c *comparer) order() {
	pos := map[string]int{}
	for i := range c.f.Decls {
		k := dkey(c.f.Decls[i].Ident)
		if x := c.m.find(c.f.Decls[i].Ident); x != nil {
			k = dkey(x.Name)
		}
		pos[k] = i
	}
	base := map[string]bool{}
	if c.lang == "TypeScript" {
		for _, d := range c.m.Decls {
			if d.Deriv != "complexExt" || !c.only(d) {
				continue
			}
			base[dkey(d.Base.Decl)] = true
			p, ok := pos[dkey(d.Name)]
			if q, have := pos[dkey(d.Base.Decl)]; ok && have && q > p {
				c.d(aDecl, "%s is declared before its base %s", d.Name, d.Base.Decl)
			}
		}
	}
	lastName, last := "", -1
	for _, d := range c.m.Decls {
		if d.Anon || !c.only(d) || base[dkey(d.Name)] {
			continue
		}
		p, ok := pos[dkey(d.Name)]
		if !ok {
			continue
		}
		if p < last {
			c.d(aDecl, "%s is declared before %s, against the order of the schema", d.Name, lastName)
		}
		last, lastName = p, d.Name
	}
}

// compareFile compares one generated file with the part of the model that it
// must contain. all lists the observed files of the whole schema (for
// resolving references across files).
func compareFile(lang string, m *XModel, f *OFile, all []*OFile, only func(*XDecl) bool) []Diff {
	c := &comparer{lang: lang, m: m, f: f, only: only, known: map[string]*ODecl{}, loose: map[string]*ODecl{}}
	if only == nil {
		c.only = func(*XDecl) bool { return true }
	}
	for _, g := range append([]*OFile{f}, all...) {
		for i := range g.Decls {
			d := &g.Decls[i]
			if c.known[dkey(d.Ident)] == nil {
				c.known[dkey(d.Ident)] = d
			}
			if o, ok := c.loose[norm(d.Ident)]; !ok {
				c.loose[norm(d.Ident)] = d
			} else if o != nil && o.Ident != d.Ident {
				c.loose[norm(d.Ident)] = nil
			}
		}
	}
	return c.run()
}

func diffsOf(ds []Diff, aspects ...string) (out []Diff) {
	for _, d := range ds {
		for _, a := range aspects {
			if d.Aspect == a {
				out = append(out, d)
			}
		}
	}
	return
}

// shape is a name-free description of a declaration, used to count how many
// structurally different declarations a run observed.
func shape(d *XDecl) string {
	var b strings.Builder
	b.WriteString(d.Kind + "/" + d.Deriv + "/" + typeShape(d.Type) + "/" + fmt.Sprint(len(d.Enums)) + ":")
	for _, m := range d.Members {
		fmt.Fprintf(&b, "%s,%v,%v,%v,%s;", m.Cat, m.Ref, m.Plural, m.Optional, typeShape(m.Type))
	}
	return b.String()
}

func typeShape(t XType) string {
	if t.Decl != "" {
		return fmt.Sprint(t.Lists, "D")
	}
	return fmt.Sprint(t.Lists, t.Builtin)
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func isUpperFirst(s string) bool {
	for _, r := range s {
		return unicode.IsUpper(r)
	}
	return false
}
