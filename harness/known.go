package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// Known findings: genuine defects that are recorded, not repaired.
// known_findings.txt lists them with the exact input that fails; the check of
// the property translates that input again and prints a KNOWN-FINDING line
// while it still fails. The workloads of the checks do not produce these
// inputs, so that whatever they report is something else.

type knownResult struct {
	Name, Text, Err string
	Fails           bool
}

// witness tells how to see that an input fails.
type witness struct {
	Kind  string // output, compile, roundtrip, command
	Lang  string
	File  string // document to translate, schema.xsd if empty
	Match string // what is seen in the output, the diagnostics, ... while the defect is there
	Lost  string // output: what is not seen while the defect is there
	Root  string // roundtrip: document element of document.xml
	Type  string // roundtrip: Go type
	Args  []string
}

var knownLine = regexp.MustCompile(`^known: property=(\S+) witness=(\S+) (.+)$`)

func runKnown(prop string, env *Env) (out []knownResult) {
	root := filepath.Dir(env.Harness)
	list, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return []knownResult{{Name: "list", Err: err.Error()}}
	}
	for _, l := range strings.Split(string(list), "\n") {
		m := knownLine.FindStringSubmatch(strings.TrimSpace(l))
		if m == nil || m[1] != prop {
			continue
		}
		k := knownResult{Name: m[2], Text: m[3]}
		saw, match, err := runWitness(env, filepath.Join(root, m[2]), filepath.Join(env.Scratch, "known", filepath.Base(m[2])))
		if err != nil {
			k.Err = err.Error()
		} else if k.Fails = match; !match && os.Getenv("XV_ALL") != "" {
			fmt.Printf("  %s does not fail: %s\n", k.Name, saw)
		}
		out = append(out, k)
	}
	return
}

func runWitness(env *Env, dir, scratch string) (saw string, match bool, err error) {
	var w witness
	b, err := os.ReadFile(filepath.Join(dir, "witness.json"))
	if err != nil {
		return
	}
	if err = json.Unmarshal(b, &w); err != nil {
		return
	}
	re, err := regexp.Compile(w.Match)
	if err != nil {
		return
	}
	files := map[string]string{}
	for p, x := range snapshot(dir) {
		if strings.HasPrefix(x, "f:") && p != "witness.json" {
			files["in/"+filepath.ToSlash(p)] = x[2:]
		}
	}
	os.MkdirAll(scratch, 0o755)
	writeFiles(scratch, files)
	file := w.File
	if file == "" {
		file = "schema.xsd"
	}
	args := w.Args
	if args == nil {
		args = []string{"-i", "in/" + file, "-o", "out", "-l", w.Lang, "-p", "p0"}
	}
	cmd := exec.Command(env.Bin, args...)
	cmd.Dir = scratch
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	tm := time.AfterFunc(time.Minute, func() { cmd.Process.Kill() })
	e := cmd.Run()
	tm.Stop()
	if w.Kind == "command" {
		saw = fmt.Sprintf("%v\n%s\n%s", e, log.String(), strings.Join(regularFiles(snapshot(scratch)), "\n"))
		return saw, re.MatchString(saw), nil
	}
	if e != nil {
		return fmt.Sprintf("%v %s", e, log.String()), false, nil
	}
	p := filepath.Join(scratch, "out"+langExt[w.Lang])
	b, e = os.ReadFile(p)
	if e != nil {
		return e.Error(), false, nil
	}
	code := string(b)
	switch w.Kind {
	case "output":
		return code, re.MatchString(code) && (w.Lost == "" || !strings.Contains(code, w.Lost)), nil
	case "compile":
		saw = diagnose(env, w.Lang, code, filepath.Join(scratch, "b"))
		return saw + "\n" + code, re.MatchString(saw), nil
	case "roundtrip":
		saw, err = roundtripOne(env, code, files["in/document.xml"], w.Root, w.Type, filepath.Join(scratch, "m"))
		return saw + "\n" + code, err == nil && re.MatchString(saw), err
	}
	return "", false, fmt.Errorf("kind %q", w.Kind)
}

// diagnose returns what the compiler of a language says about a file.
func diagnose(env *Env, lang, code, dir string) string {
	tl := tools(env)
	f := "s0" + langExt[lang]
	writeFiles(dir, map[string]string{f: code})
	var out string
	switch lang {
	case "Go":
		return strings.Join(checkGo(code), "\n")
	case "TypeScript":
		out, _, _ = runTool(dir, 2*time.Minute, "tsc", "--noEmit", "--pretty", "false", "--target", "es2020", "--lib", "es2020", "--moduleDetection", "force", f)
	case "Java":
		out, _, _ = runTool(dir, 2*time.Minute, "javac", "-encoding", "UTF-8", "-proc:none", "-nowarn", "-cp", tl.javaStub, "-d", ".", f)
	case "C":
		out, _, _ = runTool(dir, 2*time.Minute, "clang", "-x", "c", "-std=c2x", "-fsyntax-only", "-w", f)
	case "Rust":
		out, _, _ = runTool(dir, 2*time.Minute, "rustc", append(append([]string{}, tl.rustArgs...), "-o", "s0.rmeta", f)...)
	}
	return out
}

// roundtripOne decodes and encodes one document with the generated package.
func roundtripOne(env *Env, code, doc, root, typ, dir string) (string, error) {
	writeFiles(dir, map[string]string{"go.mod": "module rt\n\ngo 1.20\n", "p0/f0.go": code,
		"main.go": fmt.Sprintf(rtMain, "\t\"rt/p0\"\n", fmt.Sprintf("\t%q: func() any { return new(p0.%s) },\n", "0 "+root, typ))})
	if out, ok := goBuild(env, dir); !ok {
		return "does not build: " + out, nil
	}
	in, err := readInst(doc)
	if err != nil {
		return "", err
	}
	js, _ := json.Marshal([]rtTask{{0, root, doc}})
	cmd := exec.Command(filepath.Join(dir, "prog"))
	cmd.Stdin = bytes.NewReader(js)
	so, err := cmd.Output()
	if err != nil {
		return "", err
	}
	var res [][2]string
	if err := json.Unmarshal(so, &res); err != nil {
		return "", err
	}
	if res[0][1] != "" {
		return res[0][1], nil
	}
	back, err := readInst(res[0][0])
	if err != nil {
		return err.Error(), nil
	}
	d := compareInst("", in, back)
	if d == "" {
		d = "same; " + res[0][0]
	}
	return d, nil
}

func subCommand(name string, args []string) {
	switch name {
	case "translate":
		subTranslate(args[0])
	}
}
