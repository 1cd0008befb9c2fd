package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// ---- C19 ----

// spell writes the path to (relative to the working directory wd) in another
// way. dir tells that it is an existing directory.
func (c *Ctx) spell(wd, to string, existing bool) string {
	abs := filepath.Join(wd, to)
	forms := []string{to, to, "./" + to, abs, "deco/../" + to, ".//" + to, "../" + filepath.Base(wd) + "/" + to, "./deco/.././" + to,
		filepath.Dir(wd) + "/./" + filepath.Base(wd) + "//" + to, abs + "/../" + filepath.Base(to)}
	s := forms[c.R.IntN(len(forms))]
	if strings.HasSuffix(s, "/../"+filepath.Base(to)) && !existing {
		s = abs
	}
	switch c.R.IntN(6) {
	case 0:
		s += "/"
	case 1:
		s += "/."
	case 2:
		s += "//"
	}
	return s
}

func runC19(c *Ctx) {
	cfg := fullCfg()
	cfg.MaxSimple, cfg.MaxComplex, cfg.MaxElem, cfg.MaxAttr, cfg.MaxGroup, cfg.MaxAttrGroup = 3, 2, 2, 1, 1, 1
	s := newSchema(c.R, cfg)
	scatter(c.R, s)
	wd := filepath.Join(c.Dir, "w d")
	inName := []string{"in", "in dir", "in.d", "schemas/v1.2", "out", "ünder", "in.xsd"}[c.R.IntN(7)]
	outName := []string{"o", "gen out", "o.d", "a/b/c", "xgen_out", inName + "_out", "gén", ".hidden/x", "o.go"}[c.R.IntN(9)]
	// names that are easily confused
	extra := map[string]string{}
	if c.R.IntN(2) == 0 {
		one := (&Style{}).write(Prefixes{XS: "xs"}, el("schema").attr("xmlns:xs", xsdNS).add(el("element").attr("name", "lone").attr("type", "xs:int")))
		for _, n := range []string{"same.xsd", "same.xml", "same", "sub/same.xsd", "sub/sub/same.xsd", "same.xsd.xsd", ".dot.xsd", "..two.xsd", "a.b/same.xsd", "a.b.same.xsd", "UPPER.XSD", "-dash.xsd", "ends.go", "q'uote.xsd", "new\nline.xsd", "%s.xsd", "*.xsd", "same.go.xsd"} {
			if c.R.IntN(3) == 0 {
				extra[n] = one
			}
		}
	}
	texts := renderAll(s, func(f int) Prefixes { return scatterPx(c.R, s, f) }, &Style{})
	for p, t := range extra {
		texts[p] = t
	}
	paths := sortedKeys(texts)
	precious := map[string]string{"precious.go": "precious", "same.xsd.go": "precious", "deco/x": "precious", "main.xsd.go": "precious", "sub/main.xsd.go": "precious", "in2/other.xsd": "<x/>", "types.xsd.ts": "precious"}
	for k := 0; k < 4; k++ {
		lang := langs[c.R.IntN(len(langs))]
		ext := langExt[lang]
		os.RemoveAll(wd)
		writeFiles(wd, precious)
		writeFiles(filepath.Join(wd, inName), texts)
		for _, p := range sortedKeys(extra) { // the same contents by a link
			if c.R.IntN(8) > 0 {
				continue
			}
			at, to := filepath.Join(wd, inName, p), filepath.Join(wd, "deco", fmt.Sprint("linked", len(p)))
			os.Remove(at)
			writeFiles(filepath.Dir(to), map[string]string{filepath.Base(to): texts[p]})
			mk := os.Symlink
			if c.R.IntN(3) == 0 {
				mk = os.Link
			}
			if err := mk(to, at); err != nil {
				panic(err)
			}
			c.count("linked schemas", 1)
		}
		single := c.R.IntN(3) == 0
		one := paths[c.R.IntN(len(paths))]
		if single && strings.HasSuffix(outName, ".go") {
			// An output file named with its extension leaves no room for the
			// outputs of imported files (recorded finding); extra files import
			// nothing.
			if extra[one] == "" {
				single = false
			}
		}
		pre := c.R.IntN(4) == 0 && !(single && strings.HasSuffix(outName, ".go")) // output directory with other content
		if pre {
			writeFiles(filepath.Join(wd, outName), map[string]string{"old": "old", "sub/old.go": "old"})
		}
		outRoot := outName // where the outputs are
		if c.R.IntN(8) == 0 && !pre && !single && !strings.Contains(outName, "/") {
			outRoot = "real out"
			os.Mkdir(filepath.Join(wd, outRoot), 0o755)
			if err := os.Symlink(outRoot, filepath.Join(wd, outName)); err != nil {
				panic(err)
			}
		}
		viaLib := c.R.IntN(2) == 0
		oneDir := false // library only: a file below the input directory
		if single && viaLib && c.R.IntN(2) == 0 {
			oneDir = true
		}
		dispIn := c.spell(wd, inName, true)
		if c.R.IntN(8) == 0 { // through a link
			if err := os.Symlink(inName, filepath.Join(wd, "lnk")); err != nil {
				panic(err)
			}
			if !strings.Contains(inName, "/") {
				dispIn = []string{"lnk", "./lnk", "lnk/", filepath.Join(wd, "lnk")}[c.R.IntN(4)]
				oneDir = false
			}
		}
		if single && !oneDir {
			if !strings.Contains(dispIn, "lnk") {
				dispIn = c.spell(wd, inName, true)
			}
			dispIn = strings.TrimRight(dispIn, "/.")
			if dispIn == "" || strings.HasSuffix(dispIn, "..") {
				dispIn = inName
			}
			dispIn += "/" + one
		}
		dispOut := c.spell(wd, outName, false)
		if single && !oneDir {
			// the name of the file without extension
			dispOut = strings.TrimRight(dispOut, "/.")
			if !strings.HasSuffix(dispOut, filepath.Base(outName)) {
				dispOut = outName
			}
		}
		before := snapshot(c.Dir)
		desc := ""
		var o Outcome
		exit := 0
		out := ""
		if viaLib {
			cwd, _ := os.Getwd()
			if err := os.Chdir(wd); err != nil {
				panic(err)
			}
			switch {
			case oneDir:
				o = translate(lang, filepath.Join(c.spell(wd, inName, true), one), dispIn, dispOut, "")
				desc = fmt.Sprintf("library, %s of input %q to %q", one, dispIn, dispOut)
			default:
				o = translateDir(lang, dispIn, dispOut, "")
				desc = fmt.Sprintf("library, input %q to %q", dispIn, dispOut)
			}
			os.Chdir(cwd)
			if !o.ok() {
				exit, out = 1, o.String()
			}
		} else {
			exit, out, _ = c.cli(wd, nil, "-i", dispIn, "-o", dispOut, "-l", lang)
			desc = fmt.Sprintf("command, -i %q -o %q", dispIn, dispOut)
		}
		desc = lang + ": " + desc
		files := map[string]string{}
		for p, t := range texts {
			files["in/"+strings.ReplaceAll(p, "\n", "?")] = t
		}
		if exit != 0 {
			c.violate(files, "%s fails: %s", desc, out)
			return
		}
		after := snapshot(c.Dir)
		root := filepath.Join("w d", outRoot)
		want := map[string]bool{} // files that must have been written
		may := map[string]bool{}  // files that may have been written (imported ones)
		switch {
		case !single:
			for _, p := range paths {
				want[filepath.Join(root, withExt(p, ext))] = true
			}
		case oneDir:
			want[filepath.Join(root, withExt(one, ext))] = true
			for _, p := range paths {
				may[filepath.Join(root, withExt(p, ext))] = true
			}
		default:
			want[withExt(root, ext)] = true
		}
		c.count("runs", 1)
		c.count("files written", len(want))
		for p := range before {
			if after[p] != before[p] && !want[p] && !may[p] {
				c.violate(files, "%s: %q was there before and has been changed or removed (%.60q, %.60q)", desc, p, before[p], after[p])
				return
			}
		}
		for p := range want {
			if !strings.HasPrefix(after[p], "f:"+genMark) {
				c.violate(files, "%s: no output at %q (%.60q), written: %q", desc, p, after[p], added(before, after))
				return
			}
		}
		for _, p := range added(before, after) {
			switch {
			case want[p] || may[p]:
			case after[p] == "d" && isParent(p, want, may):
			case single && !oneDir && strings.HasPrefix(p, root+string(filepath.Separator)):
				// imported by the file, below the output path
			case single && !oneDir && after[p] == "d" && p == root:
			default:
				c.violate(files, "%s: %q (%.60q) should not have been written", desc, p, after[p])
				return
			}
		}
		// what was written is what a plain run writes
		plain := filepath.Join(c.Dir, "plain")
		os.RemoveAll(plain)
		for p := range want {
			src := one
			if !single {
				for _, q := range paths {
					if filepath.Join(root, withExt(q, ext)) == p {
						src = q
					}
				}
			}
			if o := translate(lang, filepath.Join(wd, inName, src), filepath.Join(wd, inName), plain, ""); !o.ok() {
				c.violate(files, "%s: plain run: %s", desc, o)
				return
			}
			b, _ := os.ReadFile(filepath.Join(plain, withExt(src, ext)))
			if "f:"+string(b) != after[p] {
				c.violate(files, "%s: %q differs from a plain run of %q: %s", desc, p, src, firstDiff(string(b), after[p][2:]))
				return
			}
			break // one per run is enough, C13 compares all
		}
		os.RemoveAll(plain)
		c.shape(fmt.Sprint(lang, dispIn, dispOut, single, viaLib, pre, len(paths)))
	}
}

// withExt adds the extension unless the name has it.
func withExt(p, ext string) string {
	if strings.HasSuffix(p, ext) {
		return p
	}
	return p + ext
}

func added(before, after map[string]string) (out []string) {
	for _, p := range sortedKeys(after) {
		if _, ok := before[p]; !ok {
			out = append(out, p)
		}
	}
	return
}

func isParent(p string, sets ...map[string]bool) bool {
	for _, s := range sets {
		for q := range s {
			if strings.HasPrefix(q, p+string(filepath.Separator)) {
				return true
			}
		}
	}
	return false
}

func init() {
	register(&Driver{ID: "C19", Level: "exploration", Rule: "directory trees of schemas, spelled in many ways, translated by the library and the command between two snapshots of the file system; distinct = combinations of paths",
		Quick: 1000, Deep: 30000, Run: runC19, MinN: []string{"runs", "files written"}})
}
