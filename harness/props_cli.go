package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// C20: the command line.

type cliRun struct {
	exit           int
	stdout, stderr string
}

func (c *Ctx) command(dir string, args ...string) (r cliRun) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.Bin, args...)
	cmd.Dir = dir
	var a, b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &a, &b
	err := cmd.Run()
	c.count("command runs", 1)
	r.stdout, r.stderr = a.String(), b.String()
	if err != nil {
		r.exit = -1
		if e, ok := err.(*exec.ExitError); ok {
			r.exit = e.ExitCode()
		}
	}
	return
}

// flagForms spells one flag.
func (c *Ctx) flagForm(name, value string) []string {
	switch c.R.IntN(4) {
	case 0:
		return []string{"-" + name, value}
	case 1:
		return []string{"--" + name, value}
	case 2:
		return []string{"-" + name + "=" + value}
	}
	return []string{"--" + name + "=" + value}
}

func (c *Ctx) mix(groups [][]string) (args []string) {
	c.R.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	for _, g := range groups {
		args = append(args, g...)
	}
	return
}

var rePkgGo = regexp.MustCompile(`(?m)^package (\S+)$`)
var rePkgJava = regexp.MustCompile(`(?m)^package (\S+);$`)

func runC20(c *Ctx) {
	wd := filepath.Join(c.Dir, "wd")
	cfg := fullCfg()
	cfg.MaxSimple, cfg.MaxComplex, cfg.MaxElem, cfg.MaxAttr, cfg.MaxGroup, cfg.MaxAttrGroup = 3, 2, 2, 1, 1, 1
	s := newSchema(c.R, cfg)
	if c.R.IntN(2) == 0 {
		scatter(c.R, s)
	}
	texts := renderAll(s, func(f int) Prefixes { return scatterPx(c.R, s, f) }, &Style{})
	if len(s.Files) == 1 {
		texts = map[string]string{"schema.xsd": (&Style{}).write(Prefixes{XS: "xs"}, build(s, 0, Prefixes{XS: "xs"}))}
	}
	writeFiles(filepath.Join(wd, "in"), texts)
	os.MkdirAll(filepath.Join(wd, "empty"), 0o755)
	writeFiles(wd, map[string]string{"bad.xsd": "<xs:schema", "-odd": "x", "Go": "x", "schema": "x"})
	paths := sortedKeys(texts)
	files := map[string]string{}
	for p, t := range texts {
		files["in/"+p] = t
	}
	before := snapshot(wd)
	lang := langs[c.R.IntN(len(langs))]
	ext := langExt[lang]

	// successful runs
	for k := 0; k < 4; k++ {
		input, one := "in", ""
		switch c.R.IntN(6) {
		case 0, 1:
			one = paths[c.R.IntN(len(paths))]
			input = "in/" + one
		case 2:
			input = filepath.Join(wd, "in")
		case 3:
			input = "in/"
		case 4:
			if c.R.IntN(4) == 0 {
				input = "empty"
			}
		}
		groups := [][]string{c.flagForm("i", input), c.flagForm("l", lang)}
		outName, pkg := "xgen_out", "schema"
		switch c.R.IntN(5) {
		case 0, 1:
		case 2:
			groups = append(groups, c.flagForm("o", ""))
		default:
			outName = []string{"gen", "a/b", "gen out", "xgen", "schema.d"}[c.R.IntN(5)]
			o := outName
			if c.R.IntN(3) == 0 {
				o = filepath.Join(wd, outName)
			} else if one == "" && c.R.IntN(3) == 0 {
				o += "/"
			}
			groups = append(groups, c.flagForm("o", o))
		}
		switch c.R.IntN(5) {
		case 0, 1:
		case 2:
			groups = append(groups, c.flagForm("p", ""))
		default:
			pkg = []string{"model", "pkgzz", "schema", "com.example.zz", "Go", "o", "main", "xml", "model_v2", "Model", "xgen_out", "modèle", c.word()}[c.R.IntN(13)]
			if lang == "Go" && strings.Contains(pkg, ".") {
				pkg = "pkgzz" // no identifier of Go
			}
			groups = append(groups, c.flagForm("p", pkg))
		}
		args := c.mix(groups)
		switch c.R.IntN(6) {
		case 0: // the last one counts
			args = append([]string{"-l", "Rust", "-i", "nowhere", "-l=C"}, args...)
		case 1:
			args = append(args, "-h=false", "--v=false")
		case 2:
			args = append(args, "--")
		}
		desc := fmt.Sprintf("xgen %q", args)
		r := c.command(wd, args...)
		if r.exit != 0 || strings.TrimSpace(r.stdout) != "done" {
			c.violate(files, "%s: exit status %d, output %q %q", desc, r.exit, r.stdout, r.stderr)
			return
		}
		after := snapshot(wd)
		want := map[string]string{}
		for k, v := range before {
			want[k] = v
		}
		lib := filepath.Join(c.Dir, "lib")
		os.RemoveAll(lib)
		libIn, list := filepath.Join(wd, "in"), paths
		if input == "empty" {
			list = nil
		}
		if one != "" {
			libIn, list = filepath.Join(wd, "in", one), []string{one}
		}
		for _, p := range list {
			if o := translate(lang, filepath.Join(wd, "in", p), libIn, filepath.Join(lib, outName), pkg); !o.ok() {
				c.violate(files, "the library does not translate %s: %s", p, o)
				return
			}
		}
		for p, v := range snapshot(lib) {
			want[p] = v
		}
		if d := diff2(want, after); d != "" {
			c.violate(files, "%s: not the files that the library writes: %s", desc, d)
			return
		}
		for p, v := range after {
			if _, ok := before[p]; ok || !strings.HasPrefix(v, "f:") {
				continue
			}
			c.count("files written", 1)
			got := ""
			switch lang {
			case "Go":
				if m := rePkgGo.FindStringSubmatch(v); m != nil {
					got = m[1]
				}
			case "Java":
				if m := rePkgJava.FindStringSubmatch(v); m != nil {
					got = m[1]
				}
			default:
				if strings.Contains(v, "pkgzz") || strings.Contains(v, "com.example.zz") {
					c.violate(files, "%s: the package name is in the %s output", desc, lang)
					return
				}
				continue
			}
			if got != pkg {
				c.violate(files, "%s: the output %s is in package %q instead of %q", desc, p, got, pkg)
				return
			}
		}
		top := strings.SplitN(outName, "/", 2)[0]
		os.RemoveAll(filepath.Join(wd, top))
		os.RemoveAll(filepath.Join(wd, top+ext))
		c.shape(fmt.Sprint(lang, len(groups), outName == "xgen_out", pkg == "schema", one == "", args[0]))
	}
	if d := diff2(before, snapshot(wd)); d != "" {
		c.Out.Err = "harness: " + d
		return
	}

	// help and version
	for k := 0; k < 3; k++ {
		var groups [][]string
		if c.R.IntN(2) == 0 {
			groups = append(groups, c.flagForm("i", []string{"in", "nowhere"}[c.R.IntN(2)]))
		}
		if c.R.IntN(2) == 0 {
			groups = append(groups, c.flagForm("l", []string{lang, "Cobol"}[c.R.IntN(2)]))
		}
		if c.R.IntN(2) == 0 {
			groups = append(groups, c.flagForm("o", "gen"))
		}
		help := c.R.IntN(2) == 0
		f := "v"
		if help {
			f = "h"
		}
		groups = append(groups, []string{[]string{"-" + f, "--" + f, "-" + f + "=true", "--" + f + "=1"}[c.R.IntN(4)]})
		args := c.mix(groups)
		r := c.command(wd, args...)
		desc := fmt.Sprintf("xgen %q", args)
		if r.exit != 0 || !strings.Contains(r.stdout, "version") {
			c.violate(files, "%s: exit status %d, output %q %q", desc, r.exit, r.stdout, r.stderr)
			return
		}
		for _, w := range []string{"-i ", "-o ", "-p ", "-l ", "-h ", "-v "} {
			if help && !strings.Contains(r.stdout, w) {
				c.violate(files, "%s: the help does not mention %s: %q", desc, w, r.stdout)
				return
			}
		}
		if strings.Contains(r.stdout, "done") {
			c.violate(files, "%s: went on: %q", desc, r.stdout)
			return
		}
		if d := diff2(before, snapshot(wd)); d != "" {
			c.violate(files, "%s: changed files: %s", desc, d)
			return
		}
		c.count("help and version runs", 1)
	}

	// wrong uses
	for k := 0; k < 6; k++ {
		in, l, o := c.flagForm("i", "in"), c.flagForm("l", lang), c.flagForm("o", "gen")
		var args []string
		kind := ""
		switch c.R.IntN(8) {
		case 0:
			kind = "no input"
			args = c.mix([][]string{l, o})
		case 1:
			kind = "empty input"
			args = c.mix([][]string{c.flagForm("i", ""), l, o})
		case 2:
			kind = "no language"
			args = c.mix([][]string{in, o})
		case 3:
			kind = "empty language"
			args = c.mix([][]string{in, o, c.flagForm("l", "")})
		case 4:
			kind = "unsupported language"
			bad := []string{"go", "GO", "golang", "c", "C++", "c#", "java", "JAVA", "rust", "typescript", "Typescript", "TS", "Python", "Go ", " Go", "Go,C", "Gо", "FileWithExtension", "\n", "true", "Java2"}
			args = c.mix([][]string{in, o, c.flagForm("l", bad[c.R.IntN(len(bad))])})
		case 5:
			kind = "missing input"
			args = c.mix([][]string{c.flagForm("i", []string{"nowhere", "in/nowhere.xsd", "nowhere/", "in/" + paths[0] + "/x"}[c.R.IntN(4)]), l, o})
		case 6:
			kind = "unknown flag"
			args = c.mix([][]string{in, o, l, {[]string{"-x", "--input=in", "-package", "---i", "-lang=Go"}[c.R.IntN(5)]}})
			if strings.HasPrefix(args[0], "-odd") {
				continue
			}
		case 7:
			kind = "malformed input"
			args = c.mix([][]string{c.flagForm("i", "bad.xsd"), l, o})
		}
		r := c.command(wd, args...)
		desc := fmt.Sprintf("%s: xgen %q", kind, args)
		if r.exit == 0 || r.exit < 0 || strings.Contains(r.stdout, "done") {
			c.violate(files, "%s: exit status %d, output %q %q", desc, r.exit, r.stdout, r.stderr)
			return
		}
		if strings.TrimSpace(r.stdout+r.stderr) == "" || strings.Contains(r.stderr, "goroutine ") {
			c.violate(files, "%s: no message: %q %q", desc, r.stdout, r.stderr)
			return
		}
		if d := diff2(before, snapshot(wd)); d != "" {
			c.violate(files, "%s: changed files: %s", desc, d)
			return
		}
		c.count("rejected uses", 1)
		c.shape(fmt.Sprint(kind, args[0]))
	}
	c.sample(fmt.Sprintf("inputs %q, language %s", paths, lang))
}

func init() {
	register(&Driver{ID: "C20", Level: "exploration", Rule: "random command lines (order, spelling, repetition, defaults, wrong uses) on random schema trees; distinct = combinations of flags, defaults and kinds of error",
		Quick: 1500, Deep: 20000, Run: runC20, MinN: []string{"command runs", "files written", "rejected uses", "help and version runs"}})
}

// word is an identifier of no language in particular.
func (c *Ctx) word() string {
	w := "w"
	for k := c.R.IntN(8); k >= 0; k-- {
		w += string("abcdefghijklmnopqrstuvwxyz0123456789_"[c.R.IntN(37)])
	}
	return w
}
