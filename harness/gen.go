package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"unicode"
)

// builtinRow is the documented correspondence between XML Schema built-in
// types and the target languages (README/doc comment table of the project):
// Go, TypeScript, C, Java, Rust. It is the specification C10 checks against.
var builtinTable = map[string][5]string{
	"anyType":            {"string", "string", "char", "String", "String"},
	"anySimpleType":      {"string", "string", "char", "String", "String"},
	"ENTITIES":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
	"ENTITY":             {"string", "string", "char", "String", "String"},
	"ID":                 {"string", "string", "char", "String", "String"},
	"IDREF":              {"string", "string", "char", "String", "String"},
	"IDREFS":             {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
	"NCName":             {"string", "string", "char", "String", "String"},
	"NMTOKEN":            {"string", "string", "char", "String", "String"},
	"NMTOKENS":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
	"NOTATION":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
	"Name":               {"string", "string", "char", "String", "String"},
	"QName":              {"xml.Name", "any", "char", "String", "String"},
	"anyURI":             {"string", "string", "char", "QName", "String"},
	"base64Binary":       {"string", "Uint8Array", "char[]", "List<Byte>", "String"},
	"boolean":            {"bool", "boolean", "bool", "Boolean", "bool"},
	"byte":               {"int8", "any", "char[]", "Byte", "u8"},
	"date":               {"string", "string", "char", "String", "u8"},
	"dateTime":           {"string", "string", "char", "String", "u8"},
	"decimal":            {"float64", "number", "float", "Float", "f64"},
	"double":             {"float64", "number", "float", "Float", "f64"},
	"duration":           {"string", "string", "char", "String", "String"},
	"float":              {"float32", "number", "float", "Float", "f64"},
	"gDay":               {"string", "string", "char", "String", "String"},
	"gMonth":             {"string", "string", "char", "String", "String"},
	"gMonthDay":          {"string", "string", "char", "String", "String"},
	"gYear":              {"string", "string", "char", "String", "String"},
	"gYearMonth":         {"string", "string", "char", "String", "String"},
	"hexBinary":          {"string", "Uint8Array", "char[]", "List<Byte>", "String"},
	"int":                {"int", "number", "int", "Integer", "i32"},
	"integer":            {"int", "number", "int", "Integer", "i32"},
	"language":           {"string", "string", "char", "String", "String"},
	"long":               {"int64", "number", "int", "Long", "i64"},
	"negativeInteger":    {"int", "number", "int", "Integer", "i32"},
	"nonNegativeInteger": {"int", "number", "int", "Integer", "u32"},
	"normalizedString":   {"string", "string", "char", "String", "String"},
	"nonPositiveInteger": {"int", "number", "int", "Integer", "i32"},
	"positiveInteger":    {"int", "number", "int", "Integer", "u32"},
	"short":              {"int16", "number", "int", "Integer", "i16"},
	"string":             {"string", "string", "char", "String", "String"},
	"time":               {"time.Time", "string", "char", "String", "String"},
	"token":              {"string", "string", "char", "String", "String"},
	"unsignedByte":       {"uint8", "any", "char", "Byte", "u8"},
	"unsignedInt":        {"uint32", "number", "unsigned int", "Integer", "u32"},
	"unsignedLong":       {"uint64", "number", "unsigned int", "Long", "u64"},
	"unsignedShort":      {"uint16", "number", "unsigned int", "Short", "u16"},
	"xml:lang":           {"string", "string", "char", "String", "String"},
	"xml:space":          {"string", "string", "char", "String", "String"},
	"xml:base":           {"string", "string", "char", "String", "String"},
	"xml:id":             {"string", "string", "char", "String", "String"},
}

func langIndex(lang string) int {
	for i, l := range langs {
		if l == lang {
			return i
		}
	}
	panic(lang)
}

func builtinNames() (out []string) {
	for k := range builtinTable {
		if !strings.HasPrefix(k, "xml:") {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

// GenCfg switches the features the generator may use.
type GenCfg struct {
	MaxSimple, MaxComplex, MaxElem, MaxAttr, MaxGroup, MaxAttrGroup int
	Builtins                                                        []string
	Refs, InlineSimple, InlineComplex, Lists, Unions, Ext           bool
	InlineLists, XMLApart                                           bool
	Docs, Untyped, Enums, DupChoice, AttrElemSame, Separators       bool
	Unicode, Keywords, BuiltinLocalNames                            bool
	CapTypes                                                        bool // type names are upper camel case without separators
	Acyclic                                                         bool // a type never contains itself except through a list
	BaseFirst                                                       bool // extension bases are declared before their extensions
	ForwardSimpleBase                                               bool
	NoPluralTop                                                     bool
	Shuffle, XMLAttrs                                               bool
	TwinOf                                                          []string // names that others may differ from in case only
	EnumPct                                                         int      // chance of an enumeration (0: 35)
	TwinPct                                                         int      // chance of such a name (0: 6)
	UnionTwins                                                      bool     // unions of types that differ in case only
	SameElems                                                       bool     // elements with the names of their types
	SameComplex                                                     bool     // of complex types only
	NestAttrGroups                                                  bool
	CaseTwins                                                       bool     // names that differ in case only
	Compile                                                         bool     // global names include keywords
	NamePool                                                        []string // preferred global names
	HugePct                                                         int      // chance of a schema that is large in one respect
}

func fullCfg() GenCfg {
	return GenCfg{MaxSimple: 5, MaxComplex: 5, MaxElem: 4, MaxAttr: 2, MaxGroup: 2, MaxAttrGroup: 2,
		Builtins: builtinNames(), Refs: true, InlineSimple: true, InlineLists: true, InlineComplex: true, Lists: true, Unions: true,
		Ext: true, Docs: true, Untyped: true, Enums: true, DupChoice: true, AttrElemSame: true, Separators: true,
		Unicode: true, Keywords: true, BuiltinLocalNames: true, Shuffle: true, XMLAttrs: true, ForwardSimpleBase: true, CaseTwins: true, SameElems: true, NestAttrGroups: true, HugePct: 3}
}

type gen struct {
	r         *rand.Rand
	cfg       GenCfg
	s         *Schema
	used      map[string]bool
	anonDepth int
	big       bool     // more of everything
	huge      string   // much more of one thing
	budget    int      // of what nests more deeply
	globals   []string // global names so far
	// names of the complex types and elements that are still to come
	laterTypes, laterElems []string
}

var words = strings.Fields(`account address agent amount audit balance batch binding body branch bucket buyer cabin cargo carrier
 channel chapter city client code color column contact content contract country course credit currency customer delivery
 department detail device digest discount document domain driver edge editor engine entry event family feature field figure
 filter flight folder format frame garden gateway header holder house image index invoice issue item journal label ledger
 letter level library line link location market matrix member message metric model module network node note offer office
 option order origin owner packet page parcel partner party patch path payment period person phone photo place plan player
 point policy port price printer product profile project quota quote range rate reader record region report request result
 review river role route sample schedule section segment seller sensor server service session shape share shelf signal
 size source stage station status stock store stream street student subject summary supplier table target task team tenant
 ticket title topic total track trade train transfer unit update user vendor version vessel volume wallet window worker zone`)

var wordsUni = []string{"größe", "привет", "élan", "ñandu", "ölfarbe", "заказ"}
var kwNames = strings.Fields(`type match ref use in loop fn move self where yield async static for if struct enum trait impl abstract final class import package func var default switch public private interface void new delete as break const continue crate dyn else extern false let mod mut pub return super true unsafe while await become box do macro override priv typeof unsized virtual try gen union raw case chan defer fallthrough go goto map range select assert boolean byte catch char double extends finally float implements instanceof int long native protected short strictfp synchronized this throw throws transient volatile auto inline register restrict signed sizeof typedef unsigned any constructor declare function get is keyof module namespace never readonly require set symbol unique undefined with debugger export null arguments eval nil len string error iota main init record sealed permits var open exports`)
var builtinLocal = []string{"date", "time", "language", "name", "duration", "string", "token", "ID", "id", "decimal", "boolean", "int", "Name"}

// names that never serve as global names: they would shadow something the
// target languages or the built-in table define.
var reserved = map[string]bool{}

func init() {
	for k := range builtinTable {
		reserved[norm(k)] = true
	}
	for _, k := range strings.Fields("value list any object array number self option vec void null undefined byte char bool float long short xmlname string integer character schema content text type class map set error attr uint8array override") {
		reserved[k] = true
	}
}

// local names that only occur locally
var notGlobal = map[string]bool{}

func init() {
	for _, l := range [][]string{kwNames, builtinLocal, wordsUni} {
		for _, n := range l {
			notGlobal[norm(n)] = true
		}
	}
}

func (g *gen) p(pct int) bool { return g.r.IntN(100) < pct }

func (g *gen) word() string { return words[g.r.IntN(len(words))] }

func (g *gen) rawName(capFirst bool) string {
	if g.huge == "names" && g.p(30) {
		n := g.word()
		for i := g.r.IntN(40); i > 0; i-- {
			if g.cfg.Compile && len(n) > 160 { // classes of Java are files
				break
			}
			n += title(g.word())
			if g.cfg.Separators && !capFirst && g.p(15) {
				n += []string{"-", "_", "."}[g.r.IntN(3)] + g.word()
			}
		}
		if capFirst || g.p(35) {
			n = title(n)
		}
		return n
	}
	if g.cfg.Unicode && !capFirst && g.p(3) {
		return wordsUni[g.r.IntN(len(wordsUni))] + g.word()
	}
	a, b := g.word(), g.word()
	n := ""
	switch k := g.r.IntN(10); {
	case k < 3:
		n = a
	case k < 7:
		n = a + title(b)
	case k < 8 && g.cfg.Separators:
		sep := func() string { return []string{"-", "_", "."}[g.r.IntN(3)] }
		n = a + sep() + b
		switch g.r.IntN(8) {
		case 0, 1:
			n += sep() + g.word()
		case 2:
			s := sep()
			n = a + s + "and" + s + b
		case 3:
			n = a + sep() + sep() + b
		case 4:
			n += sep()
		case 5:
			n = a + sep() + strings.ToUpper(b[:3]) + sep() + fmt.Sprint(1+g.r.IntN(9))
		}
	case k < 9:
		n = a + fmt.Sprint(1+g.r.IntN(20))
	default:
		n = strings.ToUpper(a[:3]) + title(b)
	}
	if capFirst {
		n = strings.NewReplacer("-", "", "_", "", ".", "").Replace(n)
		return title(n)
	}
	if g.p(35) {
		n = title(n)
	}
	return n
}

func (g *gen) globalName(isType bool) string {
	for {
		n := g.rawName(isType && g.cfg.CapTypes)
		if len(g.cfg.NamePool) > 0 && g.p(50) {
			n = g.pick(g.cfg.NamePool)
		}
		if g.cfg.Compile && g.p(5) {
			n = g.pick(kwNames)
		}
		k := norm(n)
		if g.cfg.CaseTwins && len(g.globals) > 0 && g.p(max(6, g.cfg.TwinPct)) {
			if t := caseTwin(g.r, g.pick(g.globals)); t != "" && (!(isType && g.cfg.CapTypes) || t == ident("Go", t)) && !g.used["="+dkey(t)] && !reserved[norm(t)] {
				g.used["="+dkey(t)] = true
				g.globals = append(g.globals, t)
				return t
			}
		}
		if g.used[k] || reserved[k] || strings.HasSuffix(k, "attr") {
			continue
		}
		g.used[k] = true
		g.used["="+dkey(n)] = true
		g.globals = append(g.globals, n)
		return n
	}
}

// caseTwin returns a name that differs from n in the case of one letter, and
// whose identifier differs too.
func caseTwin(r *rand.Rand, n string) string {
	rs := []rune(n)
	for try := 0; try < 10 && len(rs) > 1; try++ {
		i := 1 + r.IntN(len(rs)-1)
		if rs[i-1] == '.' || rs[i-1] == '-' || rs[i-1] == '_' || rs[i] > 127 {
			continue
		}
		o := append([]rune(nil), rs...)
		if unicode.IsUpper(o[i]) {
			o[i] = unicode.ToLower(o[i])
		} else {
			o[i] = unicode.ToUpper(o[i])
		}
		if o[i] != rs[i] {
			return string(o)
		}
	}
	return ""
}

// localName is unique among taken (normalised).
func (g *gen) localName(taken map[string]bool) string {
	for i := 0; ; i++ {
		n := g.rawName(false)
		if g.cfg.Keywords && g.p(6) {
			n = kwNames[g.r.IntN(len(kwNames))]
		} else if g.cfg.BuiltinLocalNames && g.p(6) {
			n = builtinLocal[g.r.IntN(len(builtinLocal))]
		}
		k := norm(n)
		if taken[k] || k == "value" || strings.HasSuffix(k, "attr") || k == "xmlname" {
			continue
		}
		// a member is never named like a global declaration
		if g.used[k] {
			continue
		}
		taken[k], taken["grp "+k] = true, true
		return n
	}
}

func (g *gen) builtin() TypeRef {
	return TypeRef{Builtin: g.cfg.Builtins[g.r.IntN(len(g.cfg.Builtins))]}
}

func (g *gen) doc() string {
	if !g.cfg.Docs || !g.p(25) {
		return ""
	}
	n := g.much("doc", 1+g.r.IntN(6), 1500)
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, g.word())
	}
	return title(strings.Join(w, " ")) + "."
}

// simpleNames / complexNames are the types known so far.
func (g *gen) names(kind string, ok func(*Comp) bool) (out []string) {
	for _, c := range g.s.Comps {
		if c.Kind == kind && (ok == nil || ok(c)) {
			out = append(out, c.Name)
		}
	}
	return
}

func (g *gen) pick(l []string) string { return l[g.r.IntN(len(l))] }

// simpleTypeRef picks a built-in or a known simple type.
func (g *gen) simpleTypeRef(restrOnly bool) TypeRef {
	if g.p(45) {
		n := g.names("simpleType", func(c *Comp) bool { return !restrOnly || c.Simple.Variety == "restriction" })
		if len(n) > 0 {
			return TypeRef{Name: g.pick(n)}
		}
	}
	return g.builtin()
}

var numericFacets = []string{"minInclusive", "maxInclusive", "minExclusive", "maxExclusive", "totalDigits", "fractionDigits"}
var stringFacets = []string{"minLength", "maxLength", "length", "pattern", "whiteSpace"}

func numeric(b string) bool {
	row, ok := builtinTable[b]
	return ok && row[1] == "number" || b == "byte" || b == "unsignedByte"
}

func (g *gen) facets(base TypeRef) (out []Facet) {
	t := g.s.expand(base)
	seen := map[string]bool{}
	for i := g.r.IntN(4); i > 0; i-- {
		f := stringFacets[g.r.IntN(len(stringFacets))]
		if numeric(t.Builtin) {
			f = append(numericFacets, "pattern", "whiteSpace")[g.r.IntN(8)]
		}
		if seen[f] && f != "pattern" {
			continue
		}
		seen[f] = true
		v := fmt.Sprint(1 + g.r.IntN(30))
		if f == "pattern" {
			v = "[a-z0-9]{1,8}"
		} else if f == "whiteSpace" {
			v = "collapse"
		}
		out = append(out, Facet{f, v})
	}
	return
}

var oddEnums = []string{"a b", "1", "2.5", "-1", "+x", "it's", `say "hi"`, `back\slash`, "1a", "é", "a.b", "a/b", "x-y", "#", "", "NaN", "Infinity", "class", "__proto__", "$", "日本", "a,b", "0x1F", "01", "a\u2028b", "}", "//", "/*", "`",
	"null", "undefined", "true", "false", "None", "nil", "default", "any", "string", "xs:string", "unbounded", "${x}", "%s", "%d", "\\n", "\\u0041", "&", "<", ">", "&amp;", "]]>", "\u200b", "\U0001F600", "e\u0301",
	strings.Repeat("longvalue", 12), strings.Repeat("x", 256), strings.Repeat("é-1.", 100)}

// values of xs:string, whose white space counts
var spaceEnums = []string{" ", "  ", " lead", "trail ", "two  spaces", " both ", "\t", "\n", "\r", "tab\tstop", "line\nbreak", "carriage\rreturn", "both\r\nof them", "paragraph\u2029x", strings.Repeat("very long value ", 40), "\u00a0", "end\u00a0", "a", "A", "ab", "aB", "AB"}

var oddDecimals = []string{"2.50", ".5", "7.", "-.25", "+1.0", "-0.001", "00.10", "0", "0.0", "1000000000000000000000", "123456789.125"}

var oddFloats = []string{"INF", "-INF", "NaN", "1E3", "1e3", "-1.5e-7", "+.5E+2", "00.5", "7.", "0", "-0", "1e0"}

// enums makes distinct values for a string-like or numeric base.
func (g *gen) enums(base string) (out []Facet) {
	num := numeric(base)
	signs := []string{"", "", "", "+", "-", "00"}
	if strings.HasPrefix(base, "unsigned") || base == "nonNegativeInteger" || base == "positiveInteger" {
		signs[4] = ""
	} else if base == "negativeInteger" || base == "nonPositiveInteger" {
		signs = []string{"-", "-0"}
	}
	seen := map[string]bool{}
	odd := g.p(30)
	defer func() {
		for i := range out {
			if num {
				sign := signs[g.r.IntN(len(signs))]
				if i == 0 {
					sign = strings.TrimRight(sign, "0")
				}
				out[i].Value = sign + out[i].Value
				was := out[i].Value
				switch base {
				case "decimal":
					if odd && g.p(60) {
						out[i].Value = oddDecimals[g.r.IntN(len(oddDecimals))]
					}
				case "float", "double":
					if odd && g.p(60) && !g.cfg.XMLApart {
						out[i].Value = oddFloats[g.r.IntN(len(oddFloats))]
					}
				}
				if seen["="+out[i].Value] {
					out[i].Value = was
				}
				seen["="+out[i].Value] = true
			} else if odd && g.p(60) {
				v := oddEnums[g.r.IntN(len(oddEnums))]
				if base == "string" && g.p(20) {
					v = spaceEnums[g.r.IntN(len(spaceEnums))]
				}
				if g.p(25) { // what the member for another one may be called
					v = "Enum" + out[g.r.IntN(len(out))].Value
				}
				if !seen["="+v] && !seen[v] {
					seen["="+v] = true
					out[i].Value = v
				}
			}
		}
	}()
	if num {
		n := g.r.IntN(50)
		for i := g.much("enums", g.some(5), 400); i > 0; i-- {
			out = append(out, Facet{"enumeration", fmt.Sprint(n + i*7 + 1)})
		}
		return
	}
	for i := g.much("enums", g.some(5), 400); i > 0; i-- {
		w := g.word()
		if g.huge == "enums" && seen[w] {
			w += " " + g.word()
		}
		if len(out) > 0 && g.p(12) { // another case of an earlier one
			w = out[g.r.IntN(len(out))].Value
			w = []string{strings.ToUpper(w), strings.ToLower(w), title(w), w + "s"}[g.r.IntN(4)]
		}
		if seen[w] {
			continue
		}
		seen[w] = true
		out = append(out, Facet{"enumeration", w})
	}
	return
}

// listDef is a list of an atomic type.
func (g *gen) listDef() *SimpleDef {
	d := &SimpleDef{Variety: "list", Base: g.simpleTypeRef(true)}
	for b := g.s.expand(d.Base).Builtin; b == "NMTOKENS" || b == "IDREFS" || b == "ENTITIES"; b = g.s.expand(d.Base).Builtin {
		d.Base = g.simpleTypeRef(true) // items of lists are atomic
	}
	if g.p(20) {
		d.Inline = []*SimpleDef{{Variety: "restriction", Base: d.Base, Facets: g.facets(d.Base)}}
		d.Base = TypeRef{}
	}
	return d
}

// inlineSimple is an anonymous restriction or list.
func (g *gen) inlineSimple() *SimpleDef {
	if g.cfg.InlineLists && g.p(20) {
		return g.listDef()
	}
	d := &SimpleDef{Variety: "restriction", Base: g.simpleTypeRef(true)}
	if g.cfg.Enums && g.p(max(40, g.cfg.EnumPct)) {
		d.Base = TypeRef{Builtin: "string"}
		if g.p(25) {
			d.Base.Builtin = []string{"int", "decimal", "integer", "short", "double", "float"}[g.r.IntN(6)]
		}
		d.Facets = g.enums(d.Base.Builtin)
	} else {
		d.Facets = g.facets(d.Base)
	}
	return d
}

func (g *gen) simpleDef() *SimpleDef {
	k := g.r.IntN(10)
	switch {
	case k < 2 && g.cfg.Lists:
		return g.listDef()
	case k < 4 && g.cfg.Unions:
		d := &SimpleDef{Variety: "union"}
		seen := map[string]bool{}
		for i := g.much("union", g.some(3), 60); i > 0; i-- {
			t := g.simpleTypeRef(true)
			if key := norm(t.Builtin + t.Name); !seen[key] {
				seen[key] = true
				d.Members = append(d.Members, t)
			}
			if g.cfg.UnionTwins && t.Name != "" {
				for _, n := range g.names("simpleType", func(c *Comp) bool { return c.Simple.Variety == "restriction" }) {
					if norm(n) == norm(t.Name) && !seen["="+n] && n != t.Name {
						seen["="+n], seen["="+t.Name] = true, true
						d.Members = append(d.Members, TypeRef{Name: n})
					}
				}
			}
		}
		if g.p(25) {
			b := g.builtin()
			d.Inline = []*SimpleDef{{Variety: "restriction", Base: b, Facets: g.facets(b)}}
		}
		return d
	}
	d := &SimpleDef{Variety: "restriction", Base: g.simpleTypeRef(true)}
	if g.cfg.Enums && g.p(max(35, g.cfg.EnumPct)) {
		if k := g.p(70); k && g.p(12) {
			d.Base = TypeRef{Builtin: []string{"decimal", "double", "float"}[g.r.IntN(3)]}
		} else if k {
			d.Base = TypeRef{Builtin: "string"}
		}
		t := g.s.expand(d.Base)
		if t.Builtin == "string" || t.Builtin == "token" || t.Builtin == "NMTOKEN" || numeric(t.Builtin) && t.Builtin != "byte" && t.Builtin != "unsignedByte" {
			d.Facets = g.enums(t.Builtin)
		} else {
			d.Facets = g.facets(d.Base)
		}
	} else {
		d.Facets = g.facets(d.Base)
	}
	return d
}

func (g *gen) attrUse(taken map[string]bool) *AttrUse {
	a := &AttrUse{Use: []string{"", "required", "optional", "required"}[g.r.IntN(4)], Doc: g.doc()}
	if g.p(3) {
		a.Use = "prohibited"
	}
	if g.cfg.Refs && g.p(12) {
		var av []string
		for _, n := range g.names("attribute", nil) {
			if !taken["attr "+norm(n)] {
				av = append(av, n)
			}
		}
		if len(av) > 0 {
			a.Name, a.Ref = g.pick(av), true
			taken["attr "+norm(a.Name)] = true
			taken[norm(a.Name)] = true
			return a
		}
	}
	if n := "xml:" + []string{"lang", "space", "base", "id"}[g.r.IntN(4)]; g.cfg.XMLAttrs && g.p(5) && !taken[norm(n)] && !(g.cfg.XMLApart && taken[norm(local(n))]) {
		if g.cfg.XMLApart {
			taken[norm(local(n))] = true
		}
		taken[norm(n)] = true
		a.Name, a.XML = n, true
		return a
	}
	a.Name = g.localName(taken)
	switch k := g.r.IntN(100); {
	case k < 20 && g.cfg.InlineSimple:
		a.Simple = g.inlineSimple()
	case k < 26 && g.cfg.Untyped:
	default:
		a.Type = g.simpleTypeRef(false)
	}
	if a.Use != "prohibited" && g.p(10) {
		t := TypeRef{Builtin: "string"}
		if a.Simple != nil {
			t = a.Simple.Base
			if a.Simple.Variety == "list" {
				t = TypeRef{Builtin: "NOTATION"}
			}
			for _, f := range a.Simple.Facets {
				if f.Name == "enumeration" {
					t = TypeRef{Builtin: "NOTATION"}
				}
			}
		} else if !a.Type.zero() {
			t = a.Type
		}
		if b := g.s.expand(t).Builtin; numeric(b) && b != "negativeInteger" && b != "nonPositiveInteger" || b == "string" || b == "token" {
			a.Extra = append(a.Extra, [2]string{[]string{"default", "fixed"}[g.r.IntN(2)], "7"})
			if a.Extra[0][0] == "default" && a.Use == "required" {
				a.Extra = nil
			}
		}
	}
	return a
}

func (g *gen) attrList(taken map[string]bool, n int, groups bool) (out []*AttrUse) {
	for i := 0; i < n; i++ {
		if groups && g.p(15) {
			var av []string
			for _, n := range g.names("attributeGroup", nil) {
				if !taken["grp "+norm(n)] {
					av = append(av, n)
				}
			}
			if len(av) > 0 {
				nm := g.pick(av)
				taken["grp "+norm(nm)], taken[norm(nm)] = true, true
				out = append(out, &AttrUse{Name: nm, Group: true})
				continue
			}
		}
		out = append(out, g.attrUse(taken))
	}
	return
}

// oddBounds are values of maxOccurs: only the first three of them allow one
// occurrence at most.
var oddBounds = []string{"01", "+1", "001", "02", "+2", "007", "+10", "16", "100", "255", "256", "1000", "32768", "65535", "65536",
	"2147483647", "2147483648", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551617", "99999999999999999999999"}

func (g *gen) occurs(p *Particle, allowPlural bool) {
	switch k := g.r.IntN(100); {
	case k < 45:
	case k < 60:
		p.Min = "0"
	case k < 68:
		p.Min, p.Max = []string{"0", "1"}[g.r.IntN(2)], "1"
	case k < 70 && allowPlural: // numbers in other spellings, and large ones
		p.Max = oddBounds[g.r.IntN(len(oddBounds))]
		p.Min = []string{"", "0", "1"}[g.r.IntN(3)]
	case k < 85 && allowPlural:
		p.Min = []string{"", "0", "1", "2"}[g.r.IntN(4)]
		p.Max = "unbounded"
	case k < 95 && allowPlural:
		p.Max = fmt.Sprint(2 + g.r.IntN(9))
		p.Min = []string{"", "0", "2"}[g.r.IntN(3)]
	}
}

func (g *gen) element(taken map[string]bool, inPlural bool, depth int, self string) *Particle {
	p := &Particle{Kind: "element"}
	g.occurs(p, true)
	e := &ElemDecl{Doc: g.doc()}
	p.Elem = e
	plural := inPlural || maxPlural(p.Max)
	if g.cfg.Refs && g.p(12) {
		var av []string
		for _, n := range g.names("element", nil) {
			if !taken["ref "+norm(n)] {
				av = append(av, n)
			}
		}
		if !g.cfg.Acyclic || plural {
			for _, n := range g.laterElems {
				if !taken["ref "+norm(n)] {
					av = append(av, n)
				}
			}
		}
		if len(av) > 0 {
			e.Name, e.Ref = g.pick(av), true
			taken["ref "+norm(e.Name)] = true
			taken["grp "+norm(e.Name)] = true
			taken[norm(e.Name)] = true
			return p
		}
	}
	k := g.r.IntN(100)
	switch {
	case k < 12 && g.cfg.InlineComplex && depth < 3 || k < 30 && g.cfg.InlineComplex && g.huge == "anonymous" && depth < 9 && g.budget > 0:
		g.budget--
		for e.Name = g.globalName(false); taken[norm(e.Name)]; {
			e.Name = g.globalName(false)
		}
		taken[norm(e.Name)] = true
		e.Complex = g.complexDef(depth+1, e.Name, true)
	case k < 24 && g.cfg.InlineSimple:
		e.Name = g.localName(taken)
		e.Simple = g.inlineSimple()
	case k < 28 && g.cfg.Untyped:
		e.Name = g.localName(taken)
	case k < 50:
		e.Name = g.localName(taken)
		av := g.names("complexType", nil)
		if !g.cfg.Acyclic || plural {
			if self != "" {
				av = append(av, self)
			}
			av = append(av, g.laterTypes...)
		}
		if len(av) > 0 {
			e.Type = TypeRef{Name: g.pick(av)}
		} else {
			e.Type = g.builtin()
		}
	default:
		e.Name = g.localName(taken)
		e.Type = g.simpleTypeRef(false)
	}
	if g.p(6) {
		e.Extra = append(e.Extra, [2]string{[]string{"nillable", "form", "id"}[g.r.IntN(3)], "true"})
		if e.Extra[0][0] == "form" {
			e.Extra[0][1] = "qualified"
		}
	}
	return p
}

// hugeKinds are the respects in which a schema can be large.
var hugeKinds = []string{"enums", "chain", "derived", "names", "doc", "members", "nest", "anonymous", "attributes", "union", "components"}

// much is n, or a number up to max where the schema is large in that respect.
func (g *gen) much(kind string, n, max int) int {
	if g.huge == kind && g.p(60) {
		return max/8 + g.r.IntN(max-max/8)
	}
	return n
}

// some is a number from 1 to n, more in big schemas.
func (g *gen) some(n int) int {
	if g.big && g.p(40) {
		n *= 3
	}
	return 1 + g.r.IntN(n)
}

func (g *gen) modelGroup(taken map[string]bool, depth, edepth int, inPlural, top, inGroupDef bool, self string) *Particle {
	p := &Particle{}
	switch k := g.r.IntN(100); {
	case k < 6 && top:
		p.Kind = "all"
		for i := 1 + g.r.IntN(3); i > 0; i-- {
			e := g.element(taken, false, edepth, self)
			if maxPlural(e.Max) {
				e.Max, e.Min = "", ""
				if g.cfg.Acyclic && g.s.comp(e.Elem.Type.Name) == nil && e.Elem.Type.Name != "" {
					e.Elem.Type = g.builtin()
				}
				if g.cfg.Acyclic && e.Elem.Ref && g.s.comp(e.Elem.Name) == nil {
					continue
				}
			}
			p.Kids = append(p.Kids, e)
		}
		return p
	case k < 68:
		p.Kind = "sequence"
	default:
		p.Kind = "choice"
	}
	if !(inGroupDef && top) {
		g.occurs(p, true)
	}
	pl := inPlural || maxPlural(p.Max)
	n, groupPct := g.some(4), 8
	if top && edepth == 0 {
		n = g.much("members", n, 80)
	}
	nest, nestPct := 3, 18
	if g.huge == "nest" {
		nest, nestPct = 14, 30
		n = min(n, 3)
	}
	if inGroupDef && g.big {
		groupPct = 30
	}
	for i := 0; i < n; i++ {
		switch k := g.r.IntN(100); {
		case k < nestPct && depth < nest && (depth < 3 || g.budget > 0):
			g.budget--
			p.Kids = append(p.Kids, g.modelGroup(taken, depth+1, edepth, pl, false, inGroupDef, self))
		case k < nestPct+groupPct:
			var av []string
			for _, n := range g.names("group", nil) {
				if !taken["grp "+norm(n)] {
					av = append(av, n)
				}
			}
			if len(av) > 0 {
				nm := g.pick(av)
				taken["grp "+norm(nm)], taken[norm(nm)] = true, true
				q := &Particle{Kind: "group", Group: nm}
				g.occurs(q, true)
				p.Kids = append(p.Kids, q)
				continue
			}
			fallthrough
		case k < nestPct+4+groupPct:
			p.Kids = append(p.Kids, &Particle{Kind: "any", Min: "0"})
			fallthrough
		default:
			p.Kids = append(p.Kids, g.element(taken, pl, edepth, self))
		}
	}
	if g.cfg.DupChoice && p.Kind == "choice" && g.p(25) {
		// the same element or group again in another branch
		for _, i := range g.r.Perm(len(p.Kids)) {
			k := p.Kids[i]
			q := &Particle{Kind: k.Kind}
			if k.Kind == "element" && (k.Elem.Ref || !k.Elem.Type.zero()) {
				e := *k.Elem
				e.Doc = ""
				q.Elem = &e
			} else if k.Kind == "group" {
				q.Group = k.Group
			} else {
				continue
			}
			g.occurs(q, true)
			if g.p(40) { // in a model group of its own
				q = &Particle{Kind: "sequence", Kids: []*Particle{q}}
				g.occurs(q, true)
			}
			p.Kids = append(p.Kids, q)
			break
		}
	}
	return p
}

// complexDef makes the definition of the type called self (anonymous: the type
// of the element called self, which nothing can refer to).
func (g *gen) complexDef(depth int, self string, anon bool) *ComplexDef {
	c := &ComplexDef{}
	taken := map[string]bool{norm(self): true}
	if anon {
		self = ""
	}
	k := g.r.IntN(100)
	switch {
	case k < 15 && g.cfg.Ext:
		c.Deriv = "simpleExt"
		c.Base = g.simpleTypeRef(true)
		if g.p(20) {
			av := g.names("complexType", func(x *Comp) bool { return x.Complex.Deriv == "simpleExt" && x.Name != self })
			if len(av) > 0 {
				c.Base = TypeRef{Name: g.pick(av)}
				g.inherit(taken, c.Base.Name)
			}
		}
		c.Attrs = g.attrList(taken, g.much("attributes", g.some(4)-1, 90), true)
		return c
	case (k < 40 || g.huge == "derived" && k < 95) && g.cfg.Ext:
		av := g.names("complexType", func(x *Comp) bool { return x.Complex.Deriv != "simpleExt" && x.Name != self })
		if len(av) > 0 && g.p(20) {
			// a restriction repeats what it keeps of its base
			c.Deriv = "complexRestr"
			c.Base = TypeRef{Name: g.pick(av)}
			b := g.s.comp(c.Base.Name).Complex
			if b.Particle != nil && !hasAnon(b.Particle) && g.p(80) {
				c.Particle = copyParticle(b.Particle)
			}
			for _, a := range b.Attrs {
				if g.p(60) {
					x := *a
					c.Attrs = append(c.Attrs, &x)
				}
			}
			return c
		}
		if len(av) > 0 {
			c.Deriv = "complexExt"
			c.Base = TypeRef{Name: g.pick(av)}
			if g.huge == "derived" && g.p(90) {
				c.Base.Name = av[len(av)-1]
			}
			// members must not clash with inherited ones
			g.inherit(taken, c.Base.Name)
		}
	}
	if g.p(85) || c.Deriv == "" {
		c.Particle = g.modelGroup(taken, 0, depth, false, true, false, self)
	}
	taken2 := taken
	if g.cfg.AttrElemSame && g.p(15) {
		taken2 = map[string]bool{} // an attribute may share its name with an element
		for k := range taken {
			if strings.HasPrefix(k, "grp ") {
				taken2[k] = true
			}
		}
		if c.Deriv != "" {
			g.inherit(taken2, c.Base.Name)
		}
	}
	c.Attrs = g.attrList(taken2, g.much("attributes", g.some(4)-1, 90), true)
	c.AnyAttr = g.p(5)
	return c
}

func hasAnon(p *Particle) bool {
	if p.Elem != nil && p.Elem.Complex != nil {
		return true
	}
	for _, k := range p.Kids {
		if hasAnon(k) {
			return true
		}
	}
	return false
}

func copyParticle(p *Particle) *Particle {
	x := *p
	x.Kids = nil
	for _, k := range p.Kids {
		x.Kids = append(x.Kids, copyParticle(k))
	}
	return &x
}

func (g *gen) inherit(taken map[string]bool, base string) {
	for base != "" {
		taken[norm(base)] = true
		taken["ref "+norm(base)] = true
		b := g.s.comp(base).Complex
		for _, a := range b.Attrs {
			taken[norm(a.Name)] = true
			if g.cfg.XMLApart {
				taken[norm(local(a.Name))] = true
			}
			taken["attr "+norm(a.Name)] = true
			taken["grp "+norm(a.Name)] = true
		}
		for _, l := range leaves(b.Particle, false) {
			if l.P.Elem != nil {
				taken[norm(l.P.Elem.Name)] = true
				taken["ref "+norm(l.P.Elem.Name)] = true
				taken["grp "+norm(l.P.Elem.Name)] = true
			} else {
				taken[norm(l.P.Group)] = true
				taken["grp "+norm(l.P.Group)] = true
			}
		}
		base = b.Base.Name
		if base != "" && g.s.comp(base).Kind != "complexType" {
			base = ""
		}
	}
}

// newSchema generates a one-file schema.
func newSchema(r *rand.Rand, cfg GenCfg) *Schema {
	s, _ := newSchemaUsed(r, cfg, nil)
	return s
}

// newSchemaUsed generates a schema with no global name of used, and returns
// the names that are used afterwards.
func newSchemaUsed(r *rand.Rand, cfg GenCfg, used map[string]bool) (*Schema, map[string]bool) {
	if used == nil {
		used = map[string]bool{}
	}
	g := &gen{r: r, cfg: cfg, s: &Schema{}, used: used, globals: append([]string(nil), cfg.TwinOf...)}
	g.big = g.p(12)
	g.budget = 60
	if cfg.HugePct > 0 && g.p(cfg.HugePct) {
		g.huge = hugeKinds[r.IntN(len(hugeKinds))]
	}
	n := func(max int) int {
		if max == 0 {
			return 0
		}
		if g.big {
			max += max / 2
			if max < 4 {
				max = 4
			}
		}
		return g.r.IntN(max + 1)
	}
	if f := n; g.huge == "components" {
		n = func(max int) int { return 10 * f(max) }
	}
	add := func(c *Comp) { g.s.Comps = append(g.s.Comps, c) }
	ns := n(cfg.MaxSimple)
	if ns > 0 && g.huge == "union" {
		ns += 10 + g.r.IntN(30)
	}
	for i := ns; i > 0; i-- {
		add(&Comp{Kind: "simpleType", Name: g.globalName(true), Doc: g.doc(), Simple: g.simpleDef()})
	}
	if cfg.MaxSimple > 0 && g.huge == "chain" {
		base := g.simpleTypeRef(true)
		for i := 5 + g.r.IntN(60); i > 0; i-- {
			c := &Comp{Kind: "simpleType", Name: g.globalName(true), Doc: g.doc(), Simple: &SimpleDef{Variety: "restriction", Base: base}}
			add(c)
			base = TypeRef{Name: c.Name}
		}
	}
	for i := n(cfg.MaxAttr); i > 0; i-- {
		a := g.attrUse(map[string]bool{})
		for a.Ref || a.Group || a.XML {
			a = g.attrUse(map[string]bool{})
		}
		c := &Comp{Kind: "attribute", Name: g.globalName(false), Doc: a.Doc}
		a.Name, a.Use, a.Doc = c.Name, "", ""
		c.Attr = a
		add(c)
	}
	for i := n(cfg.MaxAttrGroup); i > 0; i-- {
		c := &Comp{Kind: "attributeGroup", Name: g.globalName(true), Doc: g.doc()}
		c.Attrs = g.attrList(map[string]bool{}, g.some(3), g.cfg.NestAttrGroups)
		add(c)
	}
	nc := n(cfg.MaxComplex)
	if nc == 0 {
		nc = 1
	}
	if g.huge == "derived" {
		nc += 8 + g.r.IntN(16)
	}
	ng, ne := n(cfg.MaxGroup), n(cfg.MaxElem)
	for i := 0; i < nc; i++ {
		g.laterTypes = append(g.laterTypes, g.globalName(true))
	}
	for i := 0; i < ne; i++ {
		g.laterElems = append(g.laterElems, g.globalName(false))
	}
	for nc+ng+ne > 0 {
		if g.cfg.SameElems && g.p(6) {
			if av := g.names("complexType", nil); len(av) > 0 {
				if !g.cfg.SameComplex && g.p(30) {
					av = append(av, g.names("simpleType", func(c *Comp) bool { return c.Simple.Variety != "union" })...)
				}
				if n := g.pick(av); g.s.elem(n) == nil {
					add(&Comp{Kind: "element", Name: n, Elem: &ElemDecl{Name: n, Type: TypeRef{Name: n}}, Same: true})
				}
			}
		}
		k := g.r.IntN(nc + ng + ne)
		switch {
		case k < nc:
			nc--
			name := g.laterTypes[0]
			g.laterTypes = g.laterTypes[1:]
			c := &Comp{Kind: "complexType", Name: name, Doc: g.doc()}
			c.Complex = g.complexDef(0, name, false)
			add(c)
		case k < nc+ng:
			ng--
			name := g.globalName(true)
			c := &Comp{Kind: "group", Name: name, Doc: g.doc()}
			c.Particle = g.modelGroup(map[string]bool{norm(name): true}, 0, 0, false, true, true, "")
			add(c)
		default:
			ne--
			name := g.laterElems[0]
			c := &Comp{Kind: "element", Name: name, Doc: g.doc()}
			e := &ElemDecl{Name: name}
			switch k := g.r.IntN(100); {
			case k < 40 && cfg.InlineComplex:
				e.Complex = g.complexDef(0, name, true)
			case k < 50 && cfg.InlineSimple:
				e.Simple = g.inlineSimple()
			case k < 54 && cfg.Untyped:
			case k < 80:
				if av := g.names("complexType", nil); len(av) > 0 {
					e.Type = TypeRef{Name: g.pick(av)}
				} else {
					e.Type = g.builtin()
				}
			default:
				e.Type = g.simpleTypeRef(false)
			}
			c.Elem = e
			g.laterElems = g.laterElems[1:]
			add(c)
		}
	}
	if cfg.Shuffle {
		g.r.Shuffle(len(g.s.Comps), func(i, j int) { g.s.Comps[i], g.s.Comps[j] = g.s.Comps[j], g.s.Comps[i] })
	}
	g.s.Files = []FileSpec{{Path: "schema.xsd"}}
	return g.s, g.used
}
