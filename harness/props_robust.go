package main

import (
	"bytes"
	"context"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"golang.org/x/net/html/charset"
)

// C01: every input ends in a result. C02: success means complete.

func robustText(c *Ctx) (text, kind string) {
	r := c.R
	switch r.IntN(8) {
	case 0, 1, 2:
		return soup(r), "soup"
	case 3, 4, 5:
		s := modelSchema(r, c.I, nil)
		px := Prefixes{XS: "xs"}
		root := build(s, 0, px)
		mutateTree(r, root, 1+r.IntN(8))
		return (&Style{R: r}).write(px, root), "tree mutation"
	case 6:
		s := modelSchema(r, 0, nil)
		px := Prefixes{XS: "xs"}
		return mutateBytes(r, (&Style{}).write(px, build(s, 0, px)), 1+r.IntN(4)), "byte mutation"
	}
	return randomBytes(r), "bytes"
}

// deepText nests or chains one construct n times.
func deepText(kind, n int) string {
	head := `<xs:schema xmlns:xs="` + xsdNS + `">`
	tail := `</xs:schema>`
	rep := func(open, mid, shut string) string {
		return head + strings.Repeat(open, n) + mid + strings.Repeat(shut, n) + tail
	}
	var b strings.Builder
	switch kind {
	case 0:
		return rep(`<xs:element name="e"><xs:complexType><xs:sequence>`, "", `</xs:sequence></xs:complexType></xs:element>`)
	case 1:
		return rep(`<xs:simpleType><xs:restriction>`, "", `</xs:restriction></xs:simpleType>`)
	case 2:
		return rep(`<xs:sequence maxOccurs="2"><xs:choice>`, "", `</xs:choice></xs:sequence>`)
	case 3:
		return rep(`<xs:annotation><xs:documentation>`, "x", `</xs:documentation></xs:annotation>`)
	case 4:
		return rep(`<xs:group name="g"><xs:attributeGroup name="h">`, "", `</xs:attributeGroup></xs:group>`)
	case 5: // chain of restrictions, last first
		b.WriteString(head)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, `<xs:simpleType name="T%d"><xs:restriction base="T%d"/></xs:simpleType>`, i, i+1)
		}
		fmt.Fprintf(&b, `<xs:simpleType name="T%d"><xs:restriction base="xs:int"/></xs:simpleType>`, n)
	case 6: // ring of restrictions
		b.WriteString(head)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, `<xs:simpleType name="T%d"><xs:restriction base="T%d"/></xs:simpleType><xs:element name="e%d" type="T%d"/>`, i, (i+1)%n, i, i)
		}
	case 7: // rings of everything else
		b.WriteString(head)
		for i := 0; i < n; i++ {
			j := (i + 1) % n
			fmt.Fprintf(&b, `<xs:complexType name="C%d"><xs:complexContent><xs:extension base="C%d"><xs:sequence><xs:group ref="G%d"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType><xs:group name="G%d"><xs:sequence><xs:group ref="G%d"/></xs:sequence></xs:group><xs:element name="E%d" type="E%d"/><xs:attribute name="A%d" type="A%d"/><xs:simpleType name="U%d"><xs:union memberTypes="U%d"/></xs:simpleType><xs:simpleType name="L%d"><xs:list itemType="L%d"/></xs:simpleType><xs:attributeGroup name="AG%d"><xs:attributeGroup ref="AG%d"/></xs:attributeGroup>`, i, j, i, i, j, i, j, i, j, i, j, i, j, i, j)
		}
	case 8: // unclosed
		return head + strings.Repeat("<xs:complexType>", n)
	}
	b.WriteString(tail)
	return b.String()
}

const deepKinds = 9

// graph writes a set of files that include and import each other in any way.
func robustGraph(c *Ctx) map[string]string {
	r := c.R
	files := map[string]string{}
	n := 1 + r.IntN(5)
	dense := r.IntN(6) == 0
	if dense {
		n = 12 + r.IntN(6)
	}
	dirs := []string{"", "", "sub/", "sub/deep/", "a.b/"}
	var paths []string
	for i := 0; i < n; i++ {
		d := ""
		if !dense {
			d = dirs[r.IntN(len(dirs))]
		}
		paths = append(paths, fmt.Sprintf("%sf%d.xsd", d, i))
	}
	for i, p := range paths {
		root := el("schema").attr("xmlns:xs", xsdNS).attr("targetNamespace", fmt.Sprintf("urn:%d", i%3))
		for k := 0; k < 3; k++ {
			root.attr(fmt.Sprintf("xmlns:n%d", k), fmt.Sprintf("urn:%d", k))
		}
		if r.IntN(3) == 0 {
			root.attr("xmlns", "urn:0")
		}
		link := func(j int) {
			loc := relPath(filepath.Dir(p), paths[j])
			switch r.IntN(20) {
			case 0:
				loc = "missing.xsd"
			case 1:
				loc = "."
			case 2:
				loc = "./" + loc
			case 3:
				loc = "../" + loc
			}
			k := el("include").attr("schemaLocation", loc)
			if r.IntN(2) == 0 {
				k = el("import").attr("namespace", fmt.Sprintf("urn:%d", j%3)).attr("schemaLocation", loc)
			}
			if r.IntN(15) == 0 {
				k.Attrs = k.Attrs[:len(k.Attrs)-1]
			}
			root.add(k)
		}
		if dense {
			for j := i + 1; j < n; j++ {
				link(j)
			}
			if r.IntN(2) == 0 {
				link(0)
			}
		} else {
			for k := r.IntN(4); k > 0; k-- {
				link(r.IntN(n))
			}
		}
		ref := func() string {
			return fmt.Sprintf("%s%s%d", []string{"", "n0:", "n1:", "n2:"}[r.IntN(4)], []string{"S", "C", "E", "X"}[r.IntN(4)], r.IntN(n))
		}
		root.add(el("simpleType").attr("name", fmt.Sprintf("S%d", i)).add(el("restriction").attr("base", ref())))
		ct := el("sequence")
		for k := r.IntN(4); k > 0; k-- {
			if r.IntN(3) == 0 {
				ct.add(el("element").attr("ref", ref()))
			} else {
				ct.add(el("element").attr("name", soupNames[r.IntN(len(soupNames))]).attr("type", ref()))
			}
		}
		root.add(el("complexType").attr("name", fmt.Sprintf("C%d", i)).add(ct))
		root.add(el("element").attr("name", fmt.Sprintf("E%d", i)).attr("type", ref()))
		if r.IntN(8) == 0 {
			mutateTree(r, root, 2)
		}
		t := (&Style{}).write(Prefixes{XS: "xs"}, root)
		if r.IntN(25) == 0 {
			t = mutateBytes(r, t, 2)
		}
		files[p] = t
	}
	return files
}

// cli runs the command. exit is -1 when it was ended by a signal.
func (c *Ctx) cli(dir string, env []string, args ...string) (exit int, out string, timedOut bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.Bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	c.count("command runs", 1)
	out = b.String()
	if ctx.Err() != nil {
		return -1, out, true
	}
	if err == nil {
		return 0, out, false
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode(), out, false
	}
	panic(err)
}

func crashed(exit int, out string) bool {
	return exit != 0 && exit != 1 || strings.Contains(out, "goroutine ") || strings.Contains(out, "panic:")
}

const c01Files = 400

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func runC01(c *Ctx) {
	in, od := filepath.Join(c.Dir, "in"), filepath.Join(c.Dir, "out")
	files := map[string]string{}
	kind := ""
	switch {
	case c.I < deepKinds*2:
		n := []int{60, 1500}[c.I%2]
		if c.I/2 >= 5 && c.I/2 <= 7 {
			n = []int{1, 250}[c.I%2]
		}
		files["deep.xsd"] = deepText(c.I/2, n)
		kind = fmt.Sprintf("deep%d", c.I/2)
	case c.R.IntN(5) == 0:
		files = robustGraph(c)
		kind = "graph"
	default:
		files["soup.xsd"], kind = robustText(c)
		if c.R.IntN(3) == 0 {
			files["other.xsd"] = soup(c.R)
		}
	}
	writeFiles(in, files)
	for _, p := range sortedKeys(files) {
		c.sample(files[p])
	}
	c.count(kind, 1)
	ls := langs
	if c.I%4 != 0 {
		ls = []string{langs[c.R.IntN(len(langs))]}
	}
	mask := ""
	try := func(lang, file string, extract bool) {
		o := newOptions(lang, filepath.Join(in, file), in, od, "", extract)
		if c.R.IntN(6) == 0 {
			o.IncludeMap, o.LocalNameNSMap, o.NSSchemaLocationMap, o.ParseFileList, o.ParseFileMap, o.ProtoTree, o.RemoteSchema = nil, nil, nil, nil, nil, nil, nil
		}
		t0 := cpuTime()
		r := parse(o)
		dt := cpuTime() - t0
		c.count("translations", 1)
		switch {
		case dt > 100*time.Millisecond:
			c.count("translations over 0.1 s of processor time", 1)
		case dt > 10*time.Millisecond:
			c.count("translations over 10 ms of processor time", 1)
		}
		size := 0
		for _, t := range files {
			size += len(t)
		}
		switch {
		case dt > 15*time.Second:
			c.violate(files, "%s extract=%v %s (%s): %v of processor time for %d bytes of schema", lang, extract, file, kind, dt, size)
		case r.Err != nil && strings.Contains(r.Err.Error(), "too many open files"):
			c.violate(files, "%s extract=%v %s (%s): %d schema files, yet the translation runs out of %d open files: %v", lang, extract, file, kind, len(files), c01Files, r.Err)
		case r.Panic != "":
			f := map[string]string{"panic.txt": r.Panic}
			for k, v := range files {
				f[k] = v
			}
			c.violate(f, "%s extract=%v %s (%s): %s", lang, extract, file, kind, r)
		case r.Err != nil:
			c.count("errors returned", 1)
			mask += "e"
		default:
			c.count("successes", 1)
			mask += "s"
		}
	}
	for _, p := range sortedKeys(files) {
		for _, l := range ls {
			try(l, p, false)
		}
		try(ls[0], p, true)
	}
	if c.I%40 == 7 {
		lang := langs[c.R.IntN(len(langs))]
		exit, out, late := c.cli(c.Dir, nil, "-i", in, "-o", filepath.Join(c.Dir, "clio"), "-l", lang)
		if late {
			c.violate(files, "the command does not end: -l %s", lang)
		} else if crashed(exit, out) {
			c.violate(files, "the command crashed (exit %d): -l %s\n%s", exit, lang, out)
		}
	}
	key := kind + mask
	for _, p := range sortedKeys(files) {
		key += fmt.Sprint(h64(files[p]))
	}
	c.shape(key)
}

// wellFormed: what Go's own XML decoder says about the text.
func wellFormed(text []byte) bool {
	d := xml.NewDecoder(bytes.NewReader(text))
	d.CharsetReader = charset.NewReaderLabel
	for {
		_, err := d.Token()
		if err == io.EOF {
			return true
		}
		if err != nil {
			return false
		}
	}
}

func init() {
	register(&Driver{ID: "C01", Level: "exploration", Rule: "hostile files (XSD tag soup, mutated valid schemas, corrupted bytes, deep nesting and cycles, file graphs) translated in monitored worker processes; distinct = different inputs",
		Quick: 12000, Deep: 400000, Run: runC01, MinN: []string{"translations", "errors returned", "successes", "command runs"}, Timeout: 40, NoFile: c01Files})
}

// ---- C02

// mustFail reports a translation that claims success although it cannot have
// been complete.
func (c *Ctx) mustFail(o Outcome, files map[string]string, format string, a ...any) {
	c.count("translations", 1)
	c.count("faults", 1)
	if o.ok() {
		c.violate(files, "reported success: "+format, a...)
		return
	}
	if o.Err != nil {
		c.count("errors returned", 1)
		if o.Err.Error() == "" {
			c.violate(files, "empty error message: "+format, a...)
		}
	} else {
		c.violate(files, "%s instead of an error: %s", o, fmt.Sprintf(format, a...))
	}
}

func c02Truncate(c *Ctx) {
	var text string
	for i := 0; ; i++ {
		s := modelSchema(c.R, 0, nil)
		px := Prefixes{XS: []string{"xs", ""}[c.R.IntN(2)]}
		st := &Style{R: c.R, Comments: true, PIs: true, NoIndent: true, Trailer: c.R.IntN(2) == 0, CDATA: true}
		if c.R.IntN(2) == 0 {
			st.Decl = `<?xml version="1.0" encoding="UTF-8"?>`
		}
		text = st.write(px, build(s, 0, px))
		if len(text) < 1500 || i > 40 {
			break
		}
	}
	lang := langs[c.I%len(langs)]
	extract := c.R.IntN(3) == 0
	in, od := filepath.Join(c.Dir, "in"), filepath.Join(c.Dir, "out")
	full := ""
	for k := len(text); k >= 0; k-- {
		writeFiles(in, map[string]string{"t.xsd": text[:k]})
		o := parse(newOptions(lang, filepath.Join(in, "t.xsd"), in, od, "", extract))
		b, _ := os.ReadFile(filepath.Join(od, "t.xsd"+langExt[lang]))
		if k == len(text) {
			full = string(b)
		}
		if !wellFormed([]byte(text[:k])) {
			c.mustFail(o, map[string]string{"t.xsd": text[:k]}, "%s extract=%v: document of %d bytes cut after %d", lang, extract, len(text), k)
		} else if !o.ok() {
			c.count("well-formed prefixes refused", 1)
		} else if k == len(text) && full == "" && !extract {
			c.violate(map[string]string{"t.xsd": text}, "%s: success without output", lang)
		}
		if len(c.Out.V) > 2 {
			return
		}
	}
	c.shape("truncate" + lang + text)
}

func c02Corrupt(c *Ctx) {
	s := modelSchema(c.R, 0, nil)
	px := Prefixes{XS: "xs"}
	text := (&Style{R: c.R, Comments: true}).write(px, build(s, 0, px))
	in, od := filepath.Join(c.Dir, "in"), filepath.Join(c.Dir, "out")
	for k := 0; k < 40; k++ {
		t := mutateBytes(c.R, text, 1+c.R.IntN(3))
		lang := langs[c.R.IntN(len(langs))]
		writeFiles(in, map[string]string{"t.xsd": t})
		o := parse(newOptions(lang, filepath.Join(in, "t.xsd"), in, od, "", c.R.IntN(4) == 0))
		if !wellFormed([]byte(t)) {
			c.mustFail(o, map[string]string{"t.xsd": t}, "%s: the document is not well-formed", lang)
			c.shape("corrupt" + t)
		}
	}
}

var badOccurs = []string{"many", "2x", "1.5", "1e3", "Unbounded", "UNBOUNDED", "unbound", "unboundedx", "one", "0x2", "--1", "1 2", "a", "∞", "1,000", "+", "-"}

// c02Occurs: a maxOccurs that is not a number at any place.
func c02Occurs(c *Ctx) {
	for k := 0; k < 12; k++ {
		s := modelSchema(c.R, c.I, nil)
		px := Prefixes{XS: "xs"}
		root := build(s, 0, px)
		var cand []*Node
		var walk func(n *Node, top bool)
		walk = func(n *Node, top bool) {
			switch n.Name {
			case "element":
				if !top {
					cand = append(cand, n)
				}
			case "sequence", "choice", "all":
				cand = append(cand, n)
			case "group":
				if !top {
					cand = append(cand, n)
				}
			}
			for _, x := range n.Kids {
				walk(x, n == root)
			}
		}
		walk(root, true)
		if len(cand) == 0 {
			continue
		}
		n := cand[c.R.IntN(len(cand))]
		bad := badOccurs[c.R.IntN(len(badOccurs))]
		set := false
		for i := range n.Attrs {
			if n.Attrs[i][0] == "maxOccurs" {
				n.Attrs[i][1] = bad
				set = true
			}
		}
		if !set {
			n.attr("maxOccurs", bad)
		}
		text := (&Style{}).write(px, root)
		lang := langs[c.R.IntN(len(langs))]
		_, o := genText(c, lang, "t.xsd", text, "")
		c.mustFail(o, map[string]string{"t.xsd": text}, "%s: <%s maxOccurs=%q>", lang, n.Name, bad)
		c.shape("occurs" + n.Name + bad + lang)
	}
}

// c02Deps: a file needed to resolve a name cannot be read as a schema.
func c02Deps(c *Ctx) {
	head := func(extra string) string {
		return `<xs:schema xmlns:xs="` + xsdNS + `" targetNamespace="urn:a" xmlns:a="urn:a" xmlns:b="urn:b"` + extra + `>`
	}
	uses := []string{
		`<xs:element name="e" type="P:Target"/>`,
		`<xs:complexType name="c"><xs:sequence><xs:element name="e" type="P:Target"/></xs:sequence></xs:complexType>`,
		`<xs:complexType name="c"><xs:attribute name="e" type="P:Target"/></xs:complexType>`,
		`<xs:simpleType name="c"><xs:restriction base="P:Target"/></xs:simpleType>`,
		`<xs:complexType name="c"><xs:simpleContent><xs:extension base="P:Target"/></xs:simpleContent></xs:complexType>`,
		`<xs:simpleType name="c"><xs:list itemType="P:Target"/></xs:simpleType>`,
		`<xs:complexType name="c"><xs:sequence><xs:element ref="P:Target"/></xs:sequence></xs:complexType>`,
		`<xs:complexType name="c"><xs:attribute ref="P:Target"/></xs:complexType>`,
	}
	faults := []string{"missing", "truncated", "malformed", "dir", "unreadable", "badoccurs", "binary"}
	for rep := 0; rep < 6; rep++ {
		use := uses[c.R.IntN(len(uses))]
		fault := faults[c.R.IntN(len(faults))]
		if fault == "unreadable" && os.Getuid() == 0 {
			fault = "missing"
		}
		imp := c.R.IntN(2) == 0
		depth := c.R.IntN(3)
		in, od := filepath.Join(c.Dir, fmt.Sprint("in", rep)), filepath.Join(c.Dir, fmt.Sprint("out", rep))
		files := map[string]string{}
		link := func(to string, imp bool) string {
			if imp {
				return `<xs:import namespace="urn:b" schemaLocation="` + to + `"/>`
			}
			return `<xs:include schemaLocation="` + to + `"/>`
		}
		pfx := "a"
		if imp {
			pfx = "b"
		}
		ext := fileExt(c.R)
		last := fmt.Sprintf("d%d%s", depth, ext)
		files["main.xsd"] = head("") + link("d0"+ext, imp) + strings.ReplaceAll(use, "P:", pfx+":") + `</xs:schema>`
		for i := 0; i < depth; i++ {
			files[fmt.Sprintf("d%d%s", i, ext)] = head("") + link(fmt.Sprintf("d%d%s", i+1, ext), false) + fmt.Sprintf(`<xs:simpleType name="Other%d"><xs:restriction base="xs:int"/></xs:simpleType>`, i) + `</xs:schema>`
		}
		good := head("") + `<xs:simpleType name="Target"><xs:restriction base="xs:int"/></xs:simpleType></xs:schema>`
		if imp {
			for k := range files {
				if k != "main.xsd" {
					files[k] = strings.ReplaceAll(files[k], `targetNamespace="urn:a"`, `targetNamespace="urn:b"`)
				}
			}
			good = strings.ReplaceAll(good, `targetNamespace="urn:a"`, `targetNamespace="urn:b"`)
		}
		lang := langs[c.R.IntN(len(langs))]
		// without the fault it works
		files[last] = good
		writeFiles(in, files)
		if o := translate(lang, filepath.Join(in, "main.xsd"), in, od, ""); !o.ok() {
			c.violate(files, "%s: valid schema: %s", lang, o)
			continue
		}
		os.RemoveAll(od)
		p := filepath.Join(in, last)
		os.Remove(p)
		switch fault {
		case "truncated":
			files[last] = good[:len(good)-len(`</xs:schema>`)-c.R.IntN(40)]
		case "malformed":
			files[last] = strings.Replace(good, `<xs:simpleType`, `<xs:junk><xs:simpleType`, 1)
		case "badoccurs":
			files[last] = strings.Replace(good, `<xs:simpleType`, `<xs:complexType name="q"><xs:sequence maxOccurs="many"/></xs:complexType><xs:simpleType`, 1)
		case "binary":
			files[last] = "\x00\x01" + good
		case "unreadable":
			files[last] = good
		default:
			delete(files, last)
		}
		if s, ok := files[last]; ok {
			writeFiles(in, map[string]string{last: s})
		}
		switch fault {
		case "dir":
			os.Mkdir(p, 0o755)
		case "unreadable":
			os.Chmod(p, 0)
		}
		o := translate(lang, filepath.Join(in, "main.xsd"), in, od, "")
		c.mustFail(o, files, "%s: %s (import=%v, depth %d) is %s", lang, last, imp, depth, fault)
		c.shape(fmt.Sprint("deps", use, fault, imp, depth, lang))
		if rep == 0 {
			os.RemoveAll(od)
			exit, out, _ := c.cli(c.Dir, nil, "-i", filepath.Join(in, "main.xsd"), "-o", od, "-l", lang)
			if exit != 1 || strings.TrimSpace(out) == "" || strings.HasSuffix(strings.TrimSpace(out), "done") {
				c.violate(files, "command: %s is %s: exit %d, output %q", last, fault, exit, out)
			}
		}
		os.Chmod(p, 0o644)
	}
}

// c02Env: the output cannot be stored, or the input cannot be read.
func c02Env(c *Ctx) {
	s := modelSchema(c.R, 0, nil)
	px := Prefixes{XS: "xs"}
	text := (&Style{}).write(px, build(s, 0, px))
	files := map[string]string{"t.xsd": text, "sub/u.xsd": text}
	priv := os.Getuid() == 0
	for li, lang := range langs {
		ext := langExt[lang]
		for _, fault := range []string{"none", "out is a file", "out below a file", "target is a directory", "target is a full device", "dangling target", "unwritable out", "unwritable target", "unwritable parent", "missing input", "unreadable input", "input loop", "subdirectory is a file", "target loop"} {
			if priv && strings.HasPrefix(fault, "un") {
				continue
			}
			dir := filepath.Join(c.Dir, fmt.Sprint("e", li))
			in, od := filepath.Join(dir, "in"), filepath.Join(dir, "out")
			writeFiles(in, files)
			file := filepath.Join(in, "t.xsd")
			target := filepath.Join(od, "t.xsd"+ext)
			undo := func() {}
			switch fault {
			case "out is a file":
				writeFiles(dir, map[string]string{"out": "precious"})
			case "out below a file":
				writeFiles(dir, map[string]string{"out": "precious"})
				od = filepath.Join(od, "below", "it")
			case "target is a directory":
				os.MkdirAll(target, 0o755)
			case "target is a full device":
				os.MkdirAll(od, 0o755)
				os.Symlink("/dev/full", target)
			case "dangling target":
				os.MkdirAll(od, 0o755)
				os.Symlink("/nonexistent-verif/dir/x", target)
			case "unwritable out":
				os.MkdirAll(od, 0o755)
				os.Chmod(od, 0o555)
				undo = func() { os.Chmod(od, 0o755) }
			case "unwritable target":
				writeFiles(od, map[string]string{"t.xsd" + ext: "old"})
				os.Chmod(target, 0o444)
			case "unwritable parent":
				os.MkdirAll(filepath.Join(dir, "p"), 0o755)
				od = filepath.Join(dir, "p", "out")
				os.Chmod(filepath.Join(dir, "p"), 0o555)
				undo = func() { os.Chmod(filepath.Join(dir, "p"), 0o755) }
			case "missing input":
				os.Remove(file)
			case "unreadable input":
				os.Chmod(file, 0)
			case "input loop":
				os.Remove(file)
				os.Symlink("t.xsd", file)
			case "target loop":
				os.MkdirAll(od, 0o755)
				os.Symlink("t.xsd"+ext, target)
			case "subdirectory is a file":
				file = filepath.Join(in, "sub", "u.xsd")
				writeFiles(od, map[string]string{"sub": "precious"})
			}
			o := translate(lang, file, in, od, "")
			exit, out, _ := c.cli(dir, nil, "-i", file, "-o", od, "-l", lang)
			if strings.HasPrefix(fault, "target ") || fault == "dangling target" || fault == "unwritable out" || fault == "subdirectory is a file" || fault == "out is a file" || fault == "unwritable target" {
				// the command with a directory as input maps the paths the same way
				exit, out, _ = c.cli(dir, nil, "-i", in, "-o", od, "-l", lang)
			}
			undo()
			if fault == "none" {
				c.count("translations", 1)
				b, err := os.ReadFile(target)
				if !o.ok() || err != nil || exit != 0 || !strings.HasSuffix(strings.TrimSpace(out), "done") {
					c.violate(files, "%s: no fault: %s, exit %d, %v, %q", lang, o, exit, err, out)
				}
				if len(b) < 20 {
					c.violate(files, "%s: success with an output of %d bytes", lang, len(b))
				}
			} else {
				c.mustFail(o, files, "%s: %s", lang, fault)
				if exit != 1 || strings.Contains(out, "goroutine ") || strings.HasSuffix(strings.TrimSpace(out), "done") || strings.TrimSpace(out) == "" {
					c.violate(files, "command, %s: %s: exit %d, output %q", lang, fault, exit, out)
				}
			}
			c.shape(fmt.Sprint("env", fault, lang))
			chmodAll(dir)
			os.RemoveAll(dir)
		}
	}
}

func chmodAll(dir string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode()&os.ModeSymlink == 0 {
			if fi.IsDir() {
				os.Chmod(p, 0o755)
			} else {
				os.Chmod(p, 0o644)
			}
		}
		return nil
	})
}

// c02Limits: the file size limit of the process is hit while the output is
// written, at every size.
func c02Limits(c *Ctx) {
	s := modelSchema(c.R, 1, nil)
	px := Prefixes{XS: "xs"}
	text := (&Style{}).write(px, build(s, 0, px))
	lang := langs[c.I%len(langs)]
	in := filepath.Join(c.Dir, "in")
	writeFiles(in, map[string]string{"t.xsd": text})
	ref := ""
	for k := -1; k < 24; k++ {
		od := filepath.Join(c.Dir, fmt.Sprint("out", k))
		sh := `exec "$0" "$@"`
		if k >= 0 {
			sh = fmt.Sprintf(`ulimit -f %d; exec "$0" "$@"`, k)
		}
		cmd := exec.Command("/bin/bash", "-c", sh, c.Bin, "-i", in, "-o", od, "-l", lang)
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		err := cmd.Run()
		b, _ := os.ReadFile(filepath.Join(od, "t.xsd"+langExt[lang]))
		c.count("command runs", 1)
		if k < 0 {
			ref = string(b)
			if err != nil || ref == "" {
				c.violate(map[string]string{"t.xsd": text}, "%s: no limit: %v", lang, err)
				return
			}
			continue
		}
		c.count("faults", 1)
		if err == nil && string(b) != ref {
			c.violate(map[string]string{"t.xsd": text, "out": string(b), "expected": ref}, "%s: file size limit of %d KiB: success with %d of %d bytes written", lang, k, len(b), len(ref))
		}
		c.shape(fmt.Sprint("limit", k, lang, err == nil))
		if k*1024 > len(ref) {
			break
		}
	}
}

// c02Strace injects an error into every file-system call of a run of the
// command, one at a time.
func c02Strace(c *Ctx) {
	if exec.Command("strace", "-o", "/dev/null", "/bin/true").Run() != nil {
		c.Out.Notes = append(c.Out.Notes, "strace cannot be used here: no system call faults injected")
		return
	}
	type point struct{ call, errno string }
	points := []point{{"openat", "EIO"}, {"openat", "EACCES"}, {"openat", "ENOSPC"}, {"newfstatat", "EIO"}, {"newfstatat", "EACCES"}, {"getdents64", "EIO"}, {"read", "EIO"}, {"write", "EIO"}, {"write", "ENOSPC"}, {"mkdirat", "EIO"}, {"mkdirat", "ENOSPC"}, {"fstat", "EIO"}, {"openat", "EMFILE"}}
	p := points[c.I%len(points)]
	lang := langs[(c.I/len(points))%len(langs)]
	files := map[string]string{
		"a.xsd":         `<xs:schema xmlns:xs="` + xsdNS + `" xmlns:b="urn:b" targetNamespace="urn:a"><xs:include schemaLocation="sub/c.xsd"/><xs:import namespace="urn:b" schemaLocation="sub/b.xsd"/><xs:element name="e" type="b:Name"/><xs:element name="f" type="Code"/></xs:schema>`,
		"sub/b.xsd":     `<xs:schema xmlns:xs="` + xsdNS + `" targetNamespace="urn:b"><xs:simpleType name="Name"><xs:restriction base="xs:int"/></xs:simpleType></xs:schema>`,
		"sub/c.xsd":     `<xs:schema xmlns:xs="` + xsdNS + `" targetNamespace="urn:a"><xs:simpleType name="Code"><xs:restriction base="xs:date"/></xs:simpleType></xs:schema>`,
		"z z/plain.xsd": `<xs:schema xmlns:xs="` + xsdNS + `"><xs:complexType name="P"><xs:sequence><xs:element name="x" type="xs:int" maxOccurs="unbounded"/></xs:sequence></xs:complexType></xs:schema>`,
	}
	in := filepath.Join(c.Dir, "in")
	writeFiles(in, files)
	ref := filepath.Join(c.Dir, "ref")
	if exit, out, _ := c.cli(c.Dir, nil, "-i", in, "-o", ref, "-l", lang); exit != 0 {
		c.violate(files, "%s: no fault: exit %d: %s", lang, exit, out)
		return
	}
	want := snapshot(ref)
	for when := 1; when <= 60; when++ {
		od := filepath.Join(c.Dir, fmt.Sprint("o", when))
		args := []string{"-f", "-qq", "-o", filepath.Join(c.Dir, "trace"), "-e", "trace=" + p.call, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", p.call, p.errno, when)}
		for k := range snapshot(in) {
			args = append(args, "-P", filepath.Join(in, k))
		}
		for k := range want {
			args = append(args, "-P", filepath.Join(od, k))
		}
		args = append(args, c.Bin, "-i", in, "-o", od, "-l", lang)
		cmd := exec.Command("strace", args...)
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		err := cmd.Run()
		exit := 0
		if e, ok := err.(*exec.ExitError); ok {
			exit = e.ExitCode()
		} else if err != nil {
			panic(err)
		}
		tr, _ := os.ReadFile(filepath.Join(c.Dir, "trace"))
		if !bytes.Contains(tr, []byte("INJECTED")) {
			c.count("enumerated to the end", 1)
			break
		}
		c.count("command runs", 1)
		c.count("faults", 1)
		c.count("injected "+p.call, 1)
		got := snapshot(od)
		same := len(got) == len(want)
		for k := range want {
			same = same && got[k] == want[k]
		}
		if exit == 0 && !same {
			f := map[string]string{"trace": string(tr), "message": buf.String()}
			c.violate(f, "%s: %s of call %s no. %d: exit 0 although the output is incomplete", lang, p.errno, p.call, when)
		} else if crashed(exit, buf.String()) {
			c.violate(map[string]string{"trace": string(tr)}, "%s: %s of call %s no. %d: crash (exit %d) %s", lang, p.errno, p.call, when, exit, buf.String())
		}
		c.shape(fmt.Sprint("strace", p, when, lang, exit))
		os.RemoveAll(od)
	}
}

// c02Large: files that do not fit into any buffer, as they are and with a
// fault at the end.
func c02Large(c *Ctx) {
	lang := langs[c.I%len(langs)]
	size := []int{5000, 66000, 70000 + c.R.IntN(200000), 1 << 20, 1<<20 + c.R.IntN(1<<20), 4<<20 + 1, 17 << 20}[c.R.IntN(7)]
	var b strings.Builder
	b.WriteString(`<xs:schema xmlns:xs="` + xsdNS + `">` + "\n")
	n := 0
	kind := []string{"comment", "comments", "documentation", "enumerations", "components", "space", "text"}[c.R.IntN(7)]
	switch kind {
	case "comment":
		b.WriteString("<!-- " + strings.Repeat("filler <xs:element name='no'/> ", size/30) + "-->")
	case "comments":
		b.WriteString(strings.Repeat("<!-- a -->\n", size/11))
	case "documentation":
		b.WriteString("<xs:annotation><xs:documentation>" + strings.Repeat("A documentation that goes on and on.\n", size/37) + "</xs:documentation></xs:annotation>")
	case "text":
		b.WriteString("<xs:annotation><xs:appinfo>" + strings.Repeat("x", size) + "</xs:appinfo></xs:annotation>")
	case "space":
		b.WriteString(strings.Repeat(" \n\t", size/3))
	case "enumerations":
		b.WriteString(`<xs:simpleType name="many"><xs:restriction base="xs:string">`)
		for ; n < size/60 && n < 20000; n++ {
			fmt.Fprintf(&b, `<xs:enumeration value="value%d"/>`, n)
		}
		b.WriteString("</xs:restriction></xs:simpleType>")
	default:
		for ; n < size/150 && n < 4000; n++ {
			fmt.Fprintf(&b, `<xs:complexType name="item%d"><xs:sequence><xs:element name="member" type="xs:int"/></xs:sequence></xs:complexType>`+"\n", n)
		}
	}
	b.WriteString("\n" + `<xs:complexType name="veryLast"><xs:sequence><xs:element name="finalMember" type="xs:boolean"/></xs:sequence></xs:complexType>`)
	text := b.String() + "\n</xs:schema>\n"
	in := filepath.Join(c.Dir, "in")
	run := func(i int, text string) (Outcome, string) {
		od := filepath.Join(c.Dir, fmt.Sprint("out", i))
		writeFiles(in, map[string]string{"t.xsd": text})
		o := parse(newOptions(lang, filepath.Join(in, "t.xsd"), in, od, "", false))
		out, _ := os.ReadFile(filepath.Join(od, "t.xsd"+langExt[lang]))
		return o, string(out)
	}
	o, out := run(0, text)
	c.count("translations", 1)
	c.count("large files", 1)
	info := map[string]string{"case.txt": fmt.Sprintf("%s of about %d bytes, %d of them", kind, size, n)}
	if !o.ok() {
		c.violate(info, "%s: %d bytes (%s): %s", lang, len(text), kind, o)
		return
	}
	flat := norm(out)
	if !strings.Contains(flat, "verylast") || !strings.Contains(flat, "finalmember") {
		c.violate(info, "%s: %d bytes (%s): reported success, but the last component is missing", lang, len(text), kind)
	}
	if kind == "components" {
		for i := 0; i < n; i++ {
			if !strings.Contains(out, fmt.Sprintf("Item%d", i)) {
				c.violate(info, "%s: %d bytes (%s): reported success, but component %d is missing", lang, len(text), kind, i)
				break
			}
		}
	}
	faults := []string{text[:len(text)-3-c.R.IntN(60)], b.String(), b.String() + "</xs:schem>", b.String() + "<</xs:schema>", text + "<", text + "</xs:schema>", b.String() + "&no;</xs:schema>"}
	for i := 0; i < 3; i++ {
		k := c.R.IntN(len(faults))
		if wellFormed([]byte(faults[k])) {
			continue
		}
		o, _ := run(i+1, faults[k])
		c.mustFail(o, info, "%s: %d bytes (%s) with fault %d at the end", lang, len(faults[k]), kind, k)
	}
	c.shape(fmt.Sprint("large", kind, size, lang))
}

func runC02(c *Ctx) {
	c.sample("fault class " + fmt.Sprint(c.I%8))
	switch {
	case c.I < 65:
		c02Strace(c)
	case c.I < 90 || c.I%64 == 0:
		c02Large(c)
	case c.I%16 == 0:
		c02Env(c)
	case c.I%16 == 1:
		c02Limits(c)
	case c.I%4 == 2:
		c02Truncate(c)
	case c.I%4 == 3:
		c02Deps(c)
	case c.I%4 == 1:
		c02Occurs(c)
	default:
		c02Corrupt(c)
	}
}

func init() {
	register(&Driver{ID: "C02", Level: "fault_enumeration",
		Rule:  "documents cut at every byte, corrupted documents, bad occurrence bounds, faulty included/imported files, outputs that cannot be stored, file size limits, and an error injected (strace) into each file-system call of a run of the command, files of up to 17 MB; distinct = different fault at a different place",
		Quick: 400, Deep: 12000, Run: runC02, MinN: []string{"translations", "faults", "errors returned", "command runs"}, Timeout: 120})
}
