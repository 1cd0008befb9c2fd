package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/xuri/xgen"
)

// ---- C13 ----

// translateDir does what the command does for a directory.
func translateDir(lang, in, od, pkg string) (o Outcome) {
	files, err := xgen.GetFileList(in)
	if err != nil {
		return Outcome{Err: err}
	}
	for _, f := range files {
		if o = translate(lang, f, in, od, pkg); !o.ok() {
			return
		}
	}
	return
}

func runC13(c *Ctx) {
	cfg := fullCfg()
	if c.I%3 == 0 {
		cfg.MaxSimple, cfg.MaxComplex, cfg.MaxElem, cfg.MaxAttr, cfg.MaxGroup, cfg.MaxAttrGroup = 3, 2, 2, 1, 1, 1
	}
	s := newSchema(c.R, cfg)
	scatter(c.R, s)
	if c.R.IntN(2) == 0 {
		s.Noise = c.R.Uint64()
	}
	in := filepath.Join(c.Dir, "in")
	if c.R.IntN(4) == 0 { // locations that do not depend on where they are written
		for i := range s.Files {
			for _, j := range append(append([]int(nil), s.Files[i].Includes...), s.Files[i].Imports...) {
				if c.R.IntN(2) == 0 {
					s.Files[i].Loc[j] = []string{"", "file://"}[c.R.IntN(2)] + in + "/" + s.Files[j].Path
				}
			}
		}
	}
	m := expect(s)
	texts := renderAll(s, func(f int) Prefixes { return scatterPx(c.R, s, f) }, &Style{})
	writeFiles(in, texts)
	var paths []string
	for i := range s.Files {
		paths = append(paths, s.Files[i].Path)
		c.count("include and import statements", len(s.Files[i].Includes)+len(s.Files[i].Imports))
	}
	c.sample(texts[paths[0]] + "\n-- and " + strings.Join(paths[1:], ", "))
	cliLang := langs[c.R.IntN(len(langs))]
	for _, lang := range langs {
		ext := langExt[lang]
		files := map[string]string{}
		for p, t := range texts {
			files["in/"+p] = t
		}
		all := filepath.Join(c.Dir, "all")
		os.RemoveAll(all)
		if o := translateDir(lang, in, all, ""); !o.ok() {
			c.violate(files, "%s: a valid set of schemas: %s", lang, o)
			return
		}
		c.count("translations", len(paths))
		dirOut := snapshot(all)
		for p, x := range dirOut {
			if strings.HasPrefix(x, "f:") {
				files["out/"+p] = x[2:]
			}
		}
		if want, got := strings.Join(expectedOutputs(paths, ext), "\n"), strings.Join(regularFiles(dirOut), "\n"); want != got {
			c.violate(files, "%s: the outputs of the directory are %q, expected %q", lang, got, want)
			return
		}
		obs := make([]*OFile, len(paths))
		var all2 []*OFile
		for i, p := range paths {
			f, err := observe(lang, dirOut[filepath.FromSlash(p)+ext][2:])
			if err != nil {
				c.violate(files, "%s: output of %s cannot be read: %v", lang, p, err)
				return
			}
			obs[i] = f
			all2 = append(all2, f)
		}
		for i, p := range paths {
			ds := compareFile(lang, m, obs[i], all2, func(d *XDecl) bool { return d.File == i })
			c.count("declarations", len(obs[i].Decls))
			if len(ds) > 0 {
				var l []string
				for j, d := range ds {
					if j < 4 {
						l = append(l, d.Aspect+": "+d.Msg)
					}
				}
				c.violate(files, "%s: in the output of %s\n%s", lang, p, strings.Join(l, "\n"))
				return
			}
		}
		// every file alone
		for _, p := range paths {
			alone := filepath.Join(c.Dir, "alone")
			os.RemoveAll(alone)
			if o := translate(lang, filepath.Join(in, p), in, alone, ""); !o.ok() {
				c.violate(files, "%s: %s alone: %s", lang, p, o)
				return
			}
			c.count("translations", 1)
			snap := snapshot(alone)
			own := filepath.FromSlash(p) + ext
			if snap[own] == "" {
				c.violate(files, "%s: %s alone gives no output of its own: %v", lang, p, regularFiles(snap))
				return
			}
			for q, x := range snap {
				if x != dirOut[q] {
					if strings.HasPrefix(x, "f:") {
						files["alone/"+q] = x[2:]
					}
					c.violate(files, "%s: %s translated alone gives another %s than the directory: %s", lang, p, q, firstDiff(dirOut[q], x))
					return
				}
			}
		}
		if lang == cliLang && c.I%3 == 0 {
			exit, out, _ := c.cli(c.Dir, nil, "-i", "in", "-o", "clio", "-l", lang)
			if exit != 0 {
				c.violate(files, "the command fails on a directory: %d %q", exit, out)
				return
			}
			snap := snapshot(filepath.Join(c.Dir, "clio"))
			for q, x := range dirOut {
				if snap[q] != x || len(snap) != len(dirOut) {
					c.violate(files, "the command gives another %s than the library: %s", q, firstDiff(x, snap[q]))
					return
				}
			}
		}
	}
	for _, d := range m.Decls {
		k := 0
		for dep := range deps(s.Comps[0]) {
			if s.comp(dep).File != s.Comps[0].File {
				k++
			}
		}
		c.shape(fmt.Sprint(shape(d), len(paths), k))
	}
}

func expectedOutputs(paths []string, ext string) (out []string) {
	for _, p := range paths {
		out = append(out, filepath.FromSlash(p)+ext)
	}
	sort.Strings(out)
	return
}

func regularFiles(snap map[string]string) (out []string) {
	for p, x := range snap {
		if x != "d" {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return
}

func init() {
	register(&Driver{ID: "C13", Level: "exploration", Rule: "schemas scattered over 2-6 documents with random include/import graphs x 5 languages; distinct = structurally different declarations per number of files",
		Quick: 600, Deep: 20000, Run: runC13, MinN: []string{"translations", "declarations", "include and import statements"}})
}
