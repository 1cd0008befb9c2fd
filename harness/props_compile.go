package main

import (
	"context"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"
)

// C15: generated files are put before the compilers of their languages.

// ---- Go ----

var goImp struct {
	sync.Mutex
	fset *token.FileSet
	imp  types.Importer
}

// checkGo type-checks one generated file as a package of its own.
func checkGo(src string) (errs []string) {
	goImp.Lock()
	defer goImp.Unlock()
	if goImp.imp == nil {
		goImp.fset = token.NewFileSet()
		goImp.imp = importer.ForCompiler(goImp.fset, "source", nil)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "out.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return []string{err.Error()}
	}
	conf := types.Config{Importer: goImp.imp, Error: func(err error) { errs = append(errs, err.Error()) }, GoVersion: "go" + strings.TrimPrefix(runtimeGo(), "go")}
	conf.Check("p", fset, []*ast.File{f}, nil)
	return
}

func runtimeGo() string {
	v := strings.TrimPrefix(runtime.Version(), "go")
	p := strings.Split(v, ".")
	if len(p) > 2 {
		p = p[:2]
	}
	return strings.Join(p, ".")
}

// ---- C ----

var cFieldLine = regexp.MustCompile(`^\t(.+?) ([^ ]+?)(\[\])?;( // attr(, optional)?)?$`)
var cAliasLine = regexp.MustCompile(`^typedef (.+?) ([^ ]+?)(\[\])?;$`)
var cStructEnd = regexp.MustCompile(`^} ([^ ]+);$`)

// orderC rearranges a generated header so that the order of declarations and
// the completeness of types (which C output does not care for) play no role:
// structures are declared first, members become pointers to their type.
// Everything else is left to the compiler to judge.
func orderC(src string) string {
	var fwd, alias, structs []string
	lines := strings.Split(src, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		switch {
		case l == "typedef struct {":
			var body []string
			j := i + 1
			for ; j < len(lines) && strings.HasPrefix(lines[j], "\t"); j++ {
				if m := cFieldLine.FindStringSubmatch(lines[j]); m != nil {
					body = append(body, fmt.Sprintf("\t%s *%s;", m[1], m[2]))
				} else {
					body = append(body, lines[j])
				}
			}
			if j < len(lines) {
				if m := cStructEnd.FindStringSubmatch(lines[j]); m != nil {
					fwd = append(fwd, fmt.Sprintf("typedef struct xgen_%d %s;", i, m[1]))
					structs = append(structs, fmt.Sprintf("struct xgen_%d {\n%s\n};", i, strings.Join(body, "\n")))
					i = j
					continue
				}
			}
			structs = append(structs, l)
		case strings.HasPrefix(l, "typedef "):
			m := cAliasLine.FindStringSubmatch(l)
			if m == nil {
				alias = append(alias, l)
				break
			}
			if m[1] == m[2] { // the declaration of something by itself
				alias = append(alias, l)
				break
			}
			n := "*"
			if m[3] == "" {
				n = ""
			}
			alias = append(alias, fmt.Sprintf("typedef %s %s%s;", m[1], n, m[2]))
		default:
			structs = append(structs, l)
		}
	}
	// aliases of aliases come after them
	var sorted []string
	known := map[string]bool{}
	for len(alias) > 0 {
		var rest []string
		for _, a := range alias {
			m := cAliasLine.FindStringSubmatch(a)
			need := ""
			if m != nil {
				for _, b := range alias {
					if k := cAliasLine.FindStringSubmatch(b); k != nil && b != a && strings.TrimPrefix(k[2], "*") == m[1] && !known[m[1]] {
						need = b
					}
				}
			}
			if need == "" {
				sorted = append(sorted, a)
				if m != nil {
					known[strings.TrimPrefix(m[2], "*")] = true
				}
			} else {
				rest = append(rest, a)
			}
		}
		if len(rest) == len(alias) {
			sorted = append(sorted, rest...)
			break
		}
		alias = rest
	}
	return strings.Join(fwd, "\n") + "\n" + strings.Join(sorted, "\n") + "\n" + strings.Join(structs, "\n") + "\n"
}

// ---- the compilers ----

type toolEnv struct {
	rustArgs []string
	javaStub string
}

func tools(env *Env) toolEnv {
	t := toolEnv{javaStub: filepath.Join(env.Scratch, "jstub", "classes")}
	deps := filepath.Join(env.Scratch, "rsdeps", "vt", "target", "debug", "deps")
	t.rustArgs = []string{"--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-A", "warnings", "-L", "dependency=" + deps}
	for _, x := range [][2]string{{"serde", "libserde-*.rmeta"}, {"serde_derive", "libserde_derive-*.so"}, {"serde_xml_rs", "libserde_xml_rs-*.rmeta"}} {
		if m, _ := filepath.Glob(filepath.Join(deps, x[1])); len(m) > 0 {
			t.rustArgs = append(t.rustArgs, "--extern", x[0]+"="+m[0])
		}
	}
	return t
}

func runTool(dir string, limit time.Duration, name string, args ...string) (out string, ok bool, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "LC_ALL=C.UTF-8")
	b, e := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return string(b), false, fmt.Errorf("%s: no answer in %v", name, limit)
	}
	if e != nil {
		if _, is := e.(*exec.ExitError); !is {
			return string(b), false, e
		}
	}
	return string(b), e == nil, nil
}

const serdeVersion = "1.0.229"

// setupCompile prepares the runtime libraries that generated files name.
func setupCompile(env *Env) error {
	// Java: annotations by name
	js := filepath.Join(env.Scratch, "jstub")
	ann := map[string]string{
		"XmlAccessType":   "public enum XmlAccessType { FIELD, NONE, PROPERTY, PUBLIC_MEMBER }",
		"XmlAccessorType": "public @interface XmlAccessorType { XmlAccessType value() default XmlAccessType.PUBLIC_MEMBER; }",
		"XmlAttribute":    `public @interface XmlAttribute { String name() default "##default"; boolean required() default false; String namespace() default "##default"; }`,
		"XmlElement":      `public @interface XmlElement { String name() default "##default"; boolean required() default false; boolean nillable() default false; String namespace() default "##default"; }`,
		"XmlSchemaType":   `public @interface XmlSchemaType { String name(); }`,
		"XmlType":         `public @interface XmlType { String name() default "##default"; }`,
		"XmlValue":        `public @interface XmlValue { }`,
	}
	var srcs []string
	for n, t := range ann {
		p := "src/javax/xml/bind/annotation/" + n + ".java"
		writeFiles(js, map[string]string{p: "package javax.xml.bind.annotation;\n" + t + "\n"})
		srcs = append(srcs, p)
	}
	os.MkdirAll(filepath.Join(js, "classes"), 0o755)
	if out, ok, err := runTool(js, 5*time.Minute, "javac", append([]string{"-proc:none", "-d", "classes"}, srcs...)...); !ok {
		return fmt.Errorf("javac: %v %s", err, out)
	}
	// Rust: serde from the registry cache, a stand-in for serde_xml_rs
	rs := filepath.Join(env.Scratch, "rsdeps")
	home, _ := os.UserHomeDir()
	cache, _ := filepath.Glob(filepath.Join(home, ".cargo/registry/cache/*/serde-"+serdeVersion+".crate"))
	if len(cache) == 0 {
		return fmt.Errorf("serde %s is not in the registry cache", serdeVersion)
	}
	dir := filepath.Dir(cache[0])
	crates := filepath.Join(rs, "crates")
	os.MkdirAll(crates, 0o755)
	for _, c := range []string{"serde-" + serdeVersion, "serde_core-" + serdeVersion, "serde_derive-" + serdeVersion, "syn-3.0.9", "quote-1.0.47", "proc-macro2-1.0.107", "unicode-ident-1.0.27"} {
		if out, ok, err := runTool(crates, time.Minute, "tar", "xzf", filepath.Join(dir, c+".crate")); !ok {
			return fmt.Errorf("%s: %v %s", c, err, out)
		}
		writeFiles(crates, map[string]string{c + "/.cargo-checksum.json": `{"files":{}}`})
	}
	writeFiles(filepath.Join(rs, "vt"), map[string]string{
		".cargo/config.toml": fmt.Sprintf("[source.crates-io]\nreplace-with = \"v\"\n[source.v]\ndirectory = %q\n", crates),
		"Cargo.toml":         fmt.Sprintf("[package]\nname = \"vt\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nserde = \"=%s\"\nserde_derive = \"=%s\"\nserde_xml_rs = { path = \"xr\" }\n", serdeVersion, serdeVersion),
		"src/lib.rs":         "\n",
		"xr/Cargo.toml":      fmt.Sprintf("[package]\nname = \"serde_xml_rs\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nserde = \"=%s\"\n", serdeVersion),
		"xr/src/lib.rs":      "pub fn from_reader<R: std::io::Read, T: serde::de::DeserializeOwned>(_: R) -> Result<T, String> { Err(String::new()) }\n",
	})
	cmd := exec.Command("cargo", "build", "--offline")
	cmd.Dir = filepath.Join(rs, "vt")
	cmd.Env = append(os.Environ(), "CARGO_HOME="+filepath.Join(rs, "home"))
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("cargo: %v %s", err, out)
	}
	return nil
}

type unit struct {
	text string
	out  map[string]string
	rust bool
}

func runC15(c *Ctx) {
	const n = 24
	var us []*unit
	dir := filepath.Join(c.Dir, "b")
	for k := 0; k < n; k++ {
		cfg := fullCfg()
		u := &unit{rust: c.R.IntN(2) == 0}
		if c.R.IntN(3) == 0 {
			cfg.MaxSimple, cfg.MaxComplex, cfg.MaxElem, cfg.MaxAttr, cfg.MaxGroup, cfg.MaxAttrGroup = 2, 2, 2, 1, 1, 1
		}
		cfg.Compile = true
		if u.rust {
			cfg.Acyclic = true
			cfg.AttrElemSame = false
		}
		s := newSchema(c.R, cfg)
		if c.R.IntN(2) == 0 {
			eachDoc(s, func(d *string) {
				if c.R.IntN(3) == 0 {
					*d = cleanXML(richDoc(c.R))
				}
			})
		}
		px := onePx(c.R, s)
		tree := build(s, 0, px)
		if c.R.IntN(2) == 0 {
			noise(c.R, tree)
		}
		u.text = (&Style{}).write(px, tree)
		u.out = map[string]string{}
		for _, lang := range langs {
			pkg := ""
			if lang == "Java" {
				pkg = fmt.Sprintf("p%d", k)
			}
			out, o := genText(c, lang, "schema.xsd", u.text, pkg)
			if !o.ok() {
				c.violate(map[string]string{"schema.xsd": u.text}, "%s: valid schema: %s", lang, o)
				return
			}
			u.out[lang] = out
		}
		for _, d := range expect(s).Decls {
			c.shape(shape(d))
		}
		us = append(us, u)
	}
	c.sample(us[0].text)
	bad := func(k int, lang, msg string) {
		if len(msg) > 900 {
			msg = msg[:900]
		}
		c.violate(map[string]string{"schema.xsd": us[k].text, "out" + langExt[lang]: us[k].out[lang]}, "%s: the generated file is rejected: %s", lang, strings.TrimSpace(msg))
	}
	tl := tools(c.Env)
	// Go
	for k, u := range us {
		if errs := checkGo(u.out["Go"]); len(errs) > 0 {
			bad(k, "Go", strings.Join(errs, "\n"))
		}
		c.count("Go files", 1)
	}
	batch := func(lang, pattern, name string, args []string, ext string) {
		re := regexp.MustCompile(pattern)
		var list []string
		for k, u := range us {
			src := u.out[lang]
			if lang == "Java" {
				src = regexp.MustCompile(`(?m)^public class `).ReplaceAllString(src, "class ")
			}
			p := fmt.Sprintf("s%d%s", k, ext)
			writeFiles(dir, map[string]string{p: src})
			list = append(list, p)
		}
		out, ok, err := runTool(dir, 5*time.Minute, name, append(args, list...)...)
		if err != nil {
			panic(err)
		}
		c.count(lang+" files", len(us))
		if ok {
			return
		}
		found := false
		ls := strings.Split(out, "\n")
		seen := map[int]bool{}
		for i, l := range ls {
			if m := re.FindStringSubmatch(l); m != nil {
				k := 0
				fmt.Sscan(m[1], &k)
				if k < len(us) && !seen[k] {
					seen[k], found = true, true
					bad(k, lang, strings.Join(ls[i:min(i+6, len(ls))], "\n"))
				}
			}
		}
		if !found {
			panic(fmt.Sprintf("%s: %s", name, out))
		}
	}
	batch("TypeScript", `s(\d+)\.ts[(:]`, "tsc", []string{"--noEmit", "--pretty", "false", "--target", "es2020", "--lib", "es2020", "--moduleDetection", "force"}, ".ts")
	os.MkdirAll(filepath.Join(dir, "jout"), 0o755)
	batch("Java", `s(\d+)\.java:`, "javac", []string{"-encoding", "UTF-8", "-proc:none", "-Xlint:none", "-nowarn", "-cp", tl.javaStub, "-d", "jout"}, ".java")
	for k, u := range us {
		writeFiles(dir, map[string]string{fmt.Sprintf("s%d.h", k): orderC(u.out["C"])})
		out, ok, err := runTool(dir, time.Minute, "clang", "-x", "c", "-std=c2x", "-fsyntax-only", "-w", fmt.Sprintf("s%d.h", k))
		if err != nil {
			panic(err)
		}
		c.count("C files", 1)
		if !ok {
			bad(k, "C", out)
		}
		if !u.rust {
			continue
		}
		writeFiles(dir, map[string]string{fmt.Sprintf("s%d.rs", k): u.out["Rust"]})
		out, ok, err = runTool(dir, 2*time.Minute, "rustc", append(append([]string{}, tl.rustArgs...), "--crate-name", fmt.Sprintf("s%d", k), "-o", fmt.Sprintf("s%d.rmeta", k), fmt.Sprintf("s%d.rs", k))...)
		if err != nil {
			panic(err)
		}
		c.count("Rust files", 1)
		if !ok {
			bad(k, "Rust", out)
		}
	}
}

// cleanXML drops what an XML document cannot contain.
func cleanXML(s string) string {
	return strings.Map(func(r rune) rune {
		if r == 0xFFFD || r < 0x20 && r != '\t' && r != '\n' && r != '\r' || r == 0xFFFE || r == 0xFFFF {
			return -1
		}
		return r
	}, s)
}

func init() {
	register(&Driver{ID: "C15", Level: "exploration", Method: "compilers of the target languages as oracles",
		Rule:  "random valid schemas (24 per case) x 5 languages, judged by go/types, tsc, javac, clang and rustc; distinct = structurally different declarations",
		Quick: 64, Deep: 1500, Run: runC15, Root: true, Setup: setupCompile, Timeout: 600,
		MinN: []string{"Go files", "TypeScript files", "Java files", "C files", "Rust files"},
		Assume: []string{"C: order of declarations and completeness of types are not judged; Java: public classes of one file are judged without 'public', JAXB is a stand-in with the annotations' names; Rust: serde is real, serde_xml_rs a stand-in",
			"Rust is judged on schemas without recursive types and without an attribute and an element of the same name in one type (recorded findings)"}})
}
