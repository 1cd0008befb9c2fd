package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/xuri/xgen"
)

// Running the code under test.

// Outcome of one translation.
type Outcome struct {
	Err   error
	Panic string
	Opt   *xgen.Options
}

func (o Outcome) String() string {
	if o.Panic != "" {
		return "panic: " + strings.SplitN(o.Panic, "\n", 2)[0]
	}
	if o.Err != nil {
		return "error: " + o.Err.Error()
	}
	return "success"
}

func (o Outcome) ok() bool { return o.Err == nil && o.Panic == "" }

func newOptions(lang, file, inDir, outDir, pkg string, extract bool) *xgen.Options {
	return &xgen.Options{
		FilePath: file, InputDir: inDir, OutputDir: outDir, Lang: lang, Package: pkg, Extract: extract,
		IncludeMap: map[string]bool{}, LocalNameNSMap: map[string]string{}, NSSchemaLocationMap: map[string]string{},
		ParseFileList: map[string]bool{}, ParseFileMap: map[string][]interface{}{}, ProtoTree: []interface{}{},
		RemoteSchema: map[string][]byte{},
	}
}

func parse(opt *xgen.Options) (o Outcome) {
	o.Opt = opt
	defer func() {
		if p := recover(); p != nil {
			o.Panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	o.Err = xgen.NewParser(opt).Parse()
	return
}

func translate(lang, file, inDir, outDir, pkg string) Outcome {
	return parse(newOptions(lang, file, inDir, outDir, pkg, false))
}

// writeFiles writes a file set under dir.
func writeFiles(dir string, files map[string]string) {
	for p, s := range files {
		f := filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
}

// genText translates one schema text and returns the output. name is the file
// name to use.
func genText(c *Ctx, lang, name, text, pkg string) (out string, o Outcome) {
	in, od := filepath.Join(c.Dir, "in"), filepath.Join(c.Dir, "out")
	writeFiles(in, map[string]string{name: text})
	defer os.RemoveAll(od)
	o = translate(lang, filepath.Join(in, name), in, od, pkg)
	c.count("translations", 1)
	if !o.ok() {
		return
	}
	b, err := os.ReadFile(filepath.Join(od, name+langExt[lang]))
	if err != nil {
		o.Err = fmt.Errorf("no output file: %v", err)
		return
	}
	return string(b), o
}

// snapshot of a directory tree: path -> "d" / "l:target" / "f:content".
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		r, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			m[r] = "d"
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[r] = "l:" + t
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				m[r] = "unreadable"
			} else {
				m[r] = "f:" + string(b)
			}
		default:
			m[r] = "special"
		}
		return nil
	})
	return m
}
