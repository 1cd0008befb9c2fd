package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"unicode"

	"github.com/xuri/xgen"
)

// Properties decided by comparing generated files with the reference model.

// modelCase is one random schema.
func modelSchema(r *rand.Rand, i int, tweak func(*GenCfg)) *Schema {
	cfg := fullCfg()
	if i%3 == 0 { // small schemas isolate constructs
		cfg.MaxSimple, cfg.MaxComplex, cfg.MaxElem, cfg.MaxAttr, cfg.MaxGroup, cfg.MaxAttrGroup = 2, 2, 2, 1, 1, 1
	}
	if tweak != nil {
		tweak(&cfg)
	}
	return newSchema(r, cfg)
}

func modelRun(aspects []string, tweak func(*GenCfg), extra func(c *Ctx, s *Schema, text string)) func(c *Ctx) {
	return func(c *Ctx) {
		s := modelSchema(c.R, c.I, tweak)
		m := expect(s)
		px := onePx(c.R, s)
		tree := build(s, 0, px)
		if c.I%2 == 0 {
			noise(c.R, tree)
		}
		text := (&Style{}).write(px, tree)
		c.sample(text)
		for _, lang := range langs {
			out, o := genText(c, lang, "schema.xsd", text, "")
			files := map[string]string{"schema.xsd": text, "out" + langExt[lang]: out}
			if !o.ok() {
				c.violate(files, "%s: valid schema: %s", lang, o)
				continue
			}
			f, err := observe(lang, out)
			if err != nil {
				c.violate(files, "%s: generated file cannot be read: %v", lang, err)
				continue
			}
			ds := compareFile(lang, m, f, nil, nil)
			c.count("declarations", len(f.Decls))
			for _, d := range f.Decls {
				c.count("members", len(d.Members))
			}
			hit := diffsOf(ds, aspects...)
			if len(hit) > 0 {
				var l []string
				for j, d := range hit {
					if j < 4 {
						l = append(l, d.Msg)
					}
				}
				c.violate(files, "%s", strings.Join(l, "\n"))
			}
		}
		if extra != nil {
			extra(c, s, text)
		}
		for _, d := range m.Decls {
			c.shape(shape(d))
		}
	}
}

// treeEnums compares the values that the parsed components list.
func treeEnums(c *Ctx, s *Schema, text string) {
	in := filepath.Join(c.Dir, "in")
	writeFiles(in, map[string]string{"schema.xsd": text})
	lang := langs[c.R.IntN(len(langs))]
	o := parse(newOptions(lang, filepath.Join(in, "schema.xsd"), in, filepath.Join(c.Dir, "out"), "", true))
	c.count("trees", 1)
	files := map[string]string{"schema.xsd": text}
	if !o.ok() {
		c.violate(files, "%s: extracting: %s", lang, o)
		return
	}
	want := map[string][]string{}
	for _, n := range treeModel(s, 0, lang) {
		if n.Kind == "SimpleType" {
			want[n.Name] = n.Enum
			c.count("enumeration values", len(n.Enum))
		}
	}
	for _, v := range o.Opt.ProtoTree {
		if t, ok := v.(*xgen.SimpleType); ok && !sameList(t.Restriction.Enum, want[t.Name]) {
			c.violate(files, "%s: tree: values of %s are %q instead of %q", lang, t.Name, t.Restriction.Enum, want[t.Name])
		}
	}
}

// clashes gives a component that nothing refers to the name of another one but
// for a separator or the case of the first letter. Both are to be declared, under two names, and nothing else
// changes.
func clashes(c *Ctx, s *Schema, text string) {
	if c.I%4 != 0 {
		return
	}
	used := map[string]bool{}
	keys := map[string]int{}
	for _, x := range s.Comps {
		for n := range deps(x) {
			used[n] = true
		}
		if x.Same {
			used[x.Name] = true
		}
	}
	for _, d := range expect(s).Decls {
		keys[norm(d.Name)]++
	}
	var av []*Comp
	for _, x := range s.Comps {
		if !used[x.Name] && keys[norm(x.Name)] == 1 {
			av = append(av, x)
		}
	}
	if len(av) == 0 {
		return
	}
	b := av[c.R.IntN(len(av))]
	var as []string
	for _, x := range s.Comps {
		if r := []rune(x.Name); x != b && len(r) > 1 && keys[norm(x.Name)] == 1 && keys[norm(x.Name)+"2"] == 0 {
			as = append(as, x.Name)
		}
	}
	if len(as) == 0 {
		return
	}
	a := as[c.R.IntN(len(as))]
	px := Prefixes{XS: "xs"}
	if s.Files[0].NS != "" {
		px.TNS = "t"
	}
	before := (&Style{}).write(px, build(s, 0, px))
	r := []rune(a)
	k := 1 + c.R.IntN(len(r)-1)
	old := b.Name
	how := c.R.IntN(4)
	switch {
	case how == 0 && r[0] < 128 && unicode.IsLetter(r[0]):
		b.Name = string(r[0]^32) + string(r[1:])
	case how == 1 && (unicode.IsUpper(r[k]) || unicode.IsDigit(r[k])):
		b.Name = string(r[:k]) + "." + string(r[k:])
	default:
		b.Name = string(r[:k]) + "-" + string(r[k:])
	}
	if b.Elem != nil {
		b.Elem.Name = b.Name
	}
	if b.Attr != nil {
		b.Attr.Name = b.Name
	}
	if c.R.IntN(2) == 0 { // either of them may come first
		i, j := slices.IndexFunc(s.Comps, func(x *Comp) bool { return x.Name == a && !x.Same }), slices.Index(s.Comps, b)
		if s.Comps[i].Kind == b.Kind {
			s.Comps[i], s.Comps[j] = s.Comps[j], s.Comps[i]
		}
	}
	after := (&Style{}).write(px, build(s, 0, px))
	for _, lang := range langs {
		files := map[string]string{"before.xsd": before, "schema.xsd": after}
		var got [2]map[string]int
		for v, text := range []string{before, after} {
			out, o := genText(c, lang, "schema.xsd", text, "")
			files[[]string{"before", "out"}[v]+langExt[lang]] = out
			if !o.ok() {
				c.violate(files, "%s: valid schema: %s", lang, o)
				return
			}
			f, err := observe(lang, out)
			if err != nil {
				c.violate(files, "%s: generated file cannot be read: %v", lang, err)
				return
			}
			got[v] = map[string]int{}
			for _, d := range f.Decls {
				got[v][d.Ident]++
			}
		}
		c.count("clashing names", 1)
		var more, less []string
		for _, n := range sortedKeys(got[1]) {
			if got[1][n] > 1 && got[0][n] < 2 {
				c.violate(files, "%s: %s (%q, %q) is declared %d times", lang, n, a, b.Name, got[1][n])
				return
			}
			if got[0][n] == 0 {
				more = append(more, n)
			}
		}
		for _, n := range sortedKeys(got[0]) {
			if got[1][n] == 0 {
				less = append(less, n)
			}
		}
		c.shape(fmt.Sprint("clash ", lang, how, b.Kind, s.comp(a).Kind))
		// Spellings that differ beside another separator need not clash
		// (x.-y is not x.y in Go): the second one may have its own name.
		if len(more) != 1 || len(less) != 1 || norm(more[0]) != norm(a)+"2" && norm(more[0]) != norm(a) {
			c.violate(files, "%s: renaming %q to %q, which is another spelling of %q, replaces the declarations %q with %q", lang, old, b.Name, a, less, more)
			return
		}
	}
}

// sharedNames refers to simple types of one local name in several namespaces.
func sharedNames(c *Ctx, _ *Schema, _ string) {
	if c.I%5 != 0 {
		return
	}
	pool := []string{"Code", "Kind", "amount", "unit-price", "flag_"}
	bs := []string{"string", "int", "boolean", "double", "short", "long", "unsignedInt", "float", "decimal", "unsignedShort", "date"}
	n := 2 + c.R.IntN(3)
	texts := map[string]string{}
	base := map[string]string{} // prefix:name -> built-in type
	var refs []string
	imports, prefixes := "", ""
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("p%d", i)
		file := []string{"", "sub/", "deep/er/"}[c.R.IntN(3)] + fmt.Sprintf("f%d.xsd", i)
		var decls []string
		var have []string
		for _, k := range c.R.Perm(len(pool))[:1+c.R.IntN(len(pool))] {
			b := bs[c.R.IntN(len(bs))]
			t := "xs:" + b
			if len(have) > 0 && c.R.IntN(3) == 0 {
				h := have[c.R.IntN(len(have))]
				t, b = "me:"+h, base[p+":"+h]
			}
			base[p+":"+pool[k]] = b
			have = append(have, pool[k])
			refs = append(refs, p+":"+pool[k])
			decls = append(decls, fmt.Sprintf(`<xs:simpleType name="%s"><xs:restriction base="%s"/></xs:simpleType>`, pool[k], t))
		}
		c.R.Shuffle(len(decls), func(i, j int) { decls[i], decls[j] = decls[j], decls[i] })
		texts[file] = fmt.Sprintf(`<xs:schema xmlns:xs="%s" targetNamespace="urn:%s" xmlns:me="urn:%s">%s</xs:schema>`, xsdNS, p, p, strings.Join(decls, "\n"))
		imports += fmt.Sprintf(`<xs:import namespace="urn:%s" schemaLocation="%s"/>`, p, file)
		prefixes += fmt.Sprintf(` xmlns:%s="urn:%s"`, p, p)
	}
	var wants []string
	members, attrs := "", ""
	for i := 0; i < 3+c.R.IntN(6); i++ {
		r := refs[c.R.IntN(len(refs))]
		if c.R.IntN(3) == 0 {
			attrs += fmt.Sprintf(`<xs:attribute name="m%d" type="%s" use="required"/>`, i, r)
		} else {
			members += fmt.Sprintf(`<xs:element name="m%d" type="%s"/>`, i, r)
		}
		wants = append(wants, r)
	}
	texts["main.xsd"] = fmt.Sprintf(`<xs:schema xmlns:xs="%s" targetNamespace="urn:main"%s>%s<xs:complexType name="Holder"><xs:sequence>%s</xs:sequence>%s</xs:complexType></xs:schema>`, xsdNS, prefixes, imports, members, attrs)
	in, od := filepath.Join(c.Dir, "shared"), filepath.Join(c.Dir, "sharedout")
	writeFiles(in, texts)
	for _, lang := range langs {
		os.RemoveAll(od)
		files := map[string]string{}
		for k, v := range texts {
			files["in/"+k] = v
		}
		if o := translate(lang, filepath.Join(in, "main.xsd"), in, od, ""); !o.ok() {
			c.violate(files, "%s: names shared by namespaces: %s", lang, o)
			return
		}
		b, err := os.ReadFile(filepath.Join(od, "main.xsd"+langExt[lang]))
		if err != nil {
			c.violate(files, "%s: names shared by namespaces: %v", lang, err)
			return
		}
		files["out"+langExt[lang]] = string(b)
		f, err := observe(lang, string(b))
		if err != nil {
			c.violate(files, "%s: generated file cannot be read: %v", lang, err)
			return
		}
		seen := 0
		for _, d := range f.Decls {
			for _, m := range d.Members {
				var k int
				if _, err := fmt.Sscanf(norm(strings.TrimSuffix(m.Ident, "Attr")), "m%d", &k); err != nil || k >= len(wants) {
					continue
				}
				seen++
				c.count("references into namespaces", 1)
				c.shape(fmt.Sprint("shared ", lang, base[wants[k]], m.Type.Lists))
				_, w := tableType(lang, builtinTable[base[wants[k]]][langIndex(lang)])
				if m.Type.Name != w {
					c.violate(files, "%s: m%d of type %s is %q, expected %q", lang, k, wants[k], m.Type.Name, w)
					return
				}
			}
		}
		if seen != len(wants) {
			c.violate(files, "%s: %d members of %d", lang, seen, len(wants))
			return
		}
	}
}

func init() {
	for _, x := range []struct {
		id, aspect string
	}{{"C05", aDecl}, {"C06", aMember}, {"C07", aWire}, {"C08", aPlural}, {"C09", aOpt}, {"C10", aBuiltin}, {"C11", aRef}, {"C12", aDerive}, {"C22", aEnum}} {
		var extra func(c *Ctx, s *Schema, text string)
		var tweak func(*GenCfg)
		minN := []string{"translations", "declarations"}
		if x.id == "C05" {
			extra, minN = clashes, append(minN, "clashing names")
		}
		if x.id == "C11" {
			extra, minN = sharedNames, append(minN, "references into namespaces")
		}
		if x.id == "C22" {
			tweak = func(g *GenCfg) {
				g.EnumPct = 85
				g.MaxSimple += 2
			}
			extra, minN = treeEnums, append(minN, "enumeration values")
		}
		register(&Driver{ID: x.id, Method: "reference-model monitor over generated files", Level: "exploration",
			Rule:  fmt.Sprintf("random valid schemas x 5 languages, aspect %s; distinct = structurally different declarations", x.aspect),
			Quick: 6000, Deep: 150000, Run: modelRun([]string{x.aspect}, tweak, extra), MinN: minN})
	}
}
