package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/types"
)

func init() {
	core.Register(&core.Prop{
		ID: "P27", Level: "fault_enumeration", Run: runCLI,
		Rule:        "A case is one run (or history of runs) of the command-line program, built from the working tree, as a process: a document, a data file, a set of options, and a state or fault of the files it uses. Exit code, outputs, every file before and after, and the document or schema written are compared with the model. Non-trivial: every case starts the program.",
		Assumptions: []string{"the program runs as root in a scratch directory; permission failures are represented by missing directories, directories in place of files, full devices and file size limits", "the log file is not one of the other files"},
	})
}

// cliRun is one run of the program in a directory.
type cliRun struct {
	code        int
	out, errOut string
}

func cliPath() string {
	self, _ := os.Executable()
	return self + ".cli"
}

func runProgram(t *core.T, dir string, blocks int, args ...string) cliRun {
	cmd := exec.Command(cliPath(), args...)
	if blocks >= 0 { // a limit of the file size
		cmd = exec.Command("/bin/bash", append([]string{"-c", fmt.Sprintf(`ulimit -f %d; exec "$0" "$@"`, blocks), cliPath()}, args...)...)
	}
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "GOCOVERDIR=" + os.Getenv("GOCOVERDIR")}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	t.Step(1)
	r := cliRun{out: o.String(), errOut: e.String()}
	var x *exec.ExitError
	if errors.As(err, &x) {
		r.code = x.ExitCode()
	} else if err != nil {
		panic("harness: the program does not start: " + err.Error())
	}
	return r
}

// listing gives the files of a directory and their contents.
func listing(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		r, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			m[r] = "directory"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[r] = "link to " + l
		default:
			b, _ := os.ReadFile(p)
			m[r] = "file " + string(b)
		}
		return nil
	})
	return m
}

// changed tells the names that differ, except those allowed.
func changedFiles(a, b map[string]string, except ...string) (names []string) {
	ok := map[string]bool{}
	for _, e := range except {
		ok[e] = true
	}
	for n, v := range a {
		if !ok[n] && b[n] != v {
			names = append(names, n)
		}
	}
	for n := range b {
		if _, had := a[n]; !had && !ok[n] {
			names = append(names, n)
		}
	}
	return names
}

func cliDir() (string, func()) {
	dir, err := os.MkdirTemp("", "cli-")
	if err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func put(dir, name, data string) {
	if err := os.WriteFile(filepath.Join(dir, name), []byte(data), 0o644); err != nil {
		panic(err)
	}
}

const cliDatasets = `<xfa:datasets xmlns:xfa="x"><xfa:data><field name="f"><value>1</value></field><sub><field name="g"/><field name="h"><value>true</value></field></sub></xfa:data></xfa:datasets>`

// cliFields is a template with its questions.
func cliFields(i int) []tfield {
	all := []tfield{
		{name: "f", label: "The label", typ: "textEdit", required: "1", value: "t", wrapped: true},
		{name: "g", caption: "Caption é", typ: "choiceList", options: []string{"a", "b <&"}, access: "readOnly"},
		{name: "h", typ: "checkButton", page: "2", box: [4]string{"1", "2.5", "3", "4"}, validate: 5, text: "[0-9]+"},
		{name: "total amount", desc: "Sum", descName: "desc", typ: "numeric", events: []tevent{{activity: "change", script: "x = 1 < 2"}}},
		{name: "2nd", typ: "date", access: "hidden", bind: "none", required: "1"},
	}
	var fs []tfield
	for k, f := range all {
		if i>>k&1 == 1 {
			fs = append(fs, f)
		}
	}
	return fs
}

func cliTemplate(fs []tfield) (string, *types.FormSchema) {
	want := &types.FormSchema{Metadata: types.FormMetadata{FormType: "XFA", Title: "T", TotalPages: 1}, Questions: []types.Question{}, Rules: []types.Rule{}}
	sub := elem("subform", []string{"name", "form"})
	for i, f := range fs {
		want.Questions = append(want.Questions, f.question(i+1, &want.Rules))
		sub.Kids = append(sub.Kids, f.tree())
	}
	return spellXML(elem("template", []string{"title", "T"}, sub), 0), want
}

// cliJSON are data files with the texts that the fields must hold.
var cliJSON = []struct {
	src  string
	want map[string]string
}{
	{`{"f":"A"}`, map[string]string{"f": "A"}},
	{"\n{ \"f\" : \"B<&\\\"\\u00e9\\ud83d\\ude00\",\r\n\t\"g\" : 2 }\n ", map[string]string{"f": "B<&\"é😀", "g": "2"}},
	{`{"g":9007199254740993,"f":12345678901234567890,"h":123456789}`, map[string]string{"g": "9007199254740993", "f": "12345678901234567890", "h": "123456789"}},
	{`{"g":-1.5,"f":0.1,"h":false,"absent":"x"}`, map[string]string{"g": "-1.5", "f": "0.1", "h": "false"}},
	{`{"f":"","h":null}`, map[string]string{"f": "", "h": ""}},
	{`{}`, map[string]string{}},
	{`{"f":"/Encrypt \n</value>","g":"%s%d"}`, map[string]string{"f": "/Encrypt \n</value>", "g": "%s%d"}},
	{`{"g":true,"h":0,"f":"` + strings.Repeat("long ", 400) + `"}`, map[string]string{"g": "true", "h": "0", "f": strings.Repeat("long ", 400)}},
}

type cliDoc struct {
	pdf    []byte
	k      *gen.Crypt
	ps     []packet
	pw     string
	schema *types.FormSchema
}

// cliDocument makes a document; mention puts the text /Encrypt into an unencrypted one.
func cliDocument(lay string, i int, pw string, mention int) cliDoc {
	tp, want := cliTemplate(cliFields(1 + i%31))
	cfg := "<config/>"
	if mention > 0 {
		cfg = []string{"", "<config>/Encrypt 9 0 R</config>", "/Encrypt", "trailer\n<</Root 9 0 R/Encrypt 9 0 R>>\nstartxref\n0\n%%EOF\n", "<</Encrypt<</Filter/Standard/V 1/R 2>>>>"}[mention]
	}
	d := cliDoc{pw: pw, schema: want, ps: []packet{{"template", tp, (i + 1) % 4, 40}, {"config", cfg, 0, 41}, {"datasets", cliDatasets, []int{1, 0, 2, 3}[i/7%4], 43}}}
	if mention > 0 && i%2 == 1 { // only in the data
		d.ps[1].data, d.ps[2].filter = "<config/>", 0
		d.ps[2].data = strings.Replace(cliDatasets, "<sub>", "<sub a=\"/Encrypt 9 0 R\">", 1)
	}
	d.pdf, d.k = xfaDocPw(d.ps, lay, i%7, i/5%8, pw, []string{"owner", pw + "x"}[i%2])
	return d
}

// judge compares a filled document with the model after the fills.
func (d cliDoc) judge(t *core.T, out []byte, fills []map[string]string) {
	t.Attach("input.pdf", d.pdf)
	t.Attach("output.pdf", out)
	m, err := readModel(d.pdf, d.k)
	if err != nil {
		panic(err)
	}
	model, err := ref.ParseXML(d.ps[2].data)
	if err != nil {
		panic(err)
	}
	for _, f := range fills {
		setXML(model, f, false, true, map[string]bool{})
	}
	t.Outcome(model.String())
	got, err := readModel(out, d.k)
	if err != nil {
		t.Fail("strict", "%v", err)
		return
	}
	st, _ := got.objs[43].(*ref.Stream)
	if st == nil {
		t.Fail("document", "the data packet is gone")
		return
	}
	xml, err := ref.DecodeStream(st)
	if err != nil {
		t.Fail("document", "the data packet: %v", err)
		return
	}
	if x, err := ref.ParseXML(string(xml)); err != nil || x.String() != model.String() {
		t.Fail("values", "%q %v\nwant %s", clipb(xml), err, model)
		return
	}
	m.setStream(43, string(xml))
	ps := append([]packet{}, d.ps...)
	ps[2].data = string(xml)
	judgeXFA(t, out, m, d.k, d.pw, ps)
}

func (r cliRun) String() string {
	return fmt.Sprintf("exit %d, stdout %q, stderr %q", r.code, clips(r.out), clips(r.errOut))
}

// judgeFailure checks a run that cannot do what it was asked.
func judgeFailure(t *core.T, r cliRun, why string, before, after map[string]string, except ...string) {
	if r.code == 0 {
		t.Fail("failure:exit", "%s, but the program says it has succeeded: %s", why, r)
	}
	if strings.Contains(strings.ToLower(r.out), "success") || r.out != "" && strings.Contains(r.errOut, "Successfully") {
		t.Fail("failure:success", "%s, but: %s", why, r)
	}
	if strings.Contains(r.errOut, "PANIC") || strings.Contains(r.errOut, "goroutine ") {
		t.Fail("failure:panic", "%s: %s", why, r)
	}
	if c := changedFiles(before, after, except...); len(c) > 0 {
		t.Fail("failure:files", "%s, but %q changed", why, c)
	}
	said := strings.TrimSpace(strings.ReplaceAll(r.errOut, "=== pdfer starting ===", ""))
	if l, ok := after["log.txt"]; ok {
		said += strings.TrimSpace(strings.TrimPrefix(strings.ReplaceAll(l, "=== pdfer started ===", ""), "file "))
	}
	if said == "" {
		t.Fail("failure:silent", "%s, and nothing says why: %s", why, r)
	}
	t.Outcome(fmt.Sprint("failure ", r.code))
}

func runCLI(c *core.Ctx) {
	if _, err := os.Stat(cliPath()); err != nil {
		panic("harness: the program is not built: " + err.Error())
	}
	lays := xfaLayouts()
	pws := []string{"", "admin", "password", "1234"}
	// filling: every layout with every data file, and the states of the output
	states := []string{"absent", "longer", "shorter", "in place", "link", "subdirectory"}
	opts := [][]string{nil, {"-verbose"}, {"-log", "log.txt"}, {"-verbose", "-log=log.txt"}, {"--verbose=true"}}
	c.ForEach("fill", len(lays)*len(cliJSON)*core.Pick(c, 6, 2*len(states)*len(opts)), func(i int) string {
		return fmt.Sprintf("%s-%d-%d", lays[i%len(lays)], i/len(lays)%len(cliJSON), i/len(lays)/len(cliJSON))
	}, func(t *core.T, i int) {
		lay, js := lays[i%len(lays)], cliJSON[i/len(lays)%len(cliJSON)]
		v := i / len(lays) / len(cliJSON)
		state, opt := states[(v+i)%len(states)], opts[(v/len(states)+i/3)%len(opts)]
		mention := (v + i/2) % 5
		pw := ""
		if i%len(lays) >= 5 {
			pw, mention = pws[(v+i/len(lays))%len(pws)], 0
		}
		d := cliDocument(lay, i, pw, mention)
		dir, done := cliDir()
		defer done()
		put(dir, "in.pdf", string(d.pdf))
		put(dir, "data.json", js.src)
		outName, fills := "out.pdf", []map[string]string{js.want}
		switch state {
		case "longer":
			put(dir, "out.pdf", strings.Repeat("old content\n", 20000))
		case "shorter":
			put(dir, "out.pdf", "x")
		case "in place":
			outName = "in.pdf"
		case "link":
			put(dir, "target", "old")
			os.Symlink("target", filepath.Join(dir, "out.pdf"))
		case "subdirectory":
			os.Mkdir(filepath.Join(dir, "sub"), 0o755)
			outName = "sub/out.pdf"
		}
		before := listing(dir)
		args := append([]string{"-input", "in.pdf", "-data=data.json", "--output", outName}, opt...)
		r := runProgram(t, dir, -1, args...)
		t.State(fmt.Sprint(i))
		t.Attach("input.pdf", d.pdf)
		if r.code != 0 {
			t.Fail("fill:exit", "%q on %s, password %q: %s %s", args, lay, pw, r, listing(dir)["log.txt"])
			return
		}
		after := listing(dir)
		if ch := changedFiles(before, after, outName, "log.txt", "target"); len(ch) > 0 {
			t.Fail("fill:files", "%q changed besides the output", ch)
		}
		if !strings.Contains(r.out, "Successfully filled form") {
			t.Fail("fill:report", "%s", r)
		}
		if l, ok := after["log.txt"]; ok != (len(opt) > 1 || len(opt) == 1 && strings.Contains(opt[0], "log")) {
			t.Fail("fill:log", "log file: %v", ok)
		} else if ok && !(strings.Contains(l, "Successfully filled form") && strings.HasSuffix(l, "=== pdfer finished ===\n")) {
			t.Fail("fill:log", "the log says %q", clips(l))
		}
		out, err := os.ReadFile(filepath.Join(dir, outName))
		if err != nil {
			t.Fail("fill:output", "%v", err)
			return
		}
		d.judge(t, out, fills)
		if t.Failed() || !c.Thorough() && i%4 != 0 {
			return
		}
		// a second run on the result
		js2 := cliJSON[(i/len(lays)+3)%len(cliJSON)]
		put(dir, "data2.json", js2.src)
		r = runProgram(t, dir, -1, "-input="+outName, "-data", "data2.json", "-output", "again.pdf")
		if r.code != 0 {
			t.Fail("fill:exit", "the second run: %s", r)
			return
		}
		if b, _ := os.ReadFile(filepath.Join(dir, outName)); !bytes.Equal(b, out) {
			t.Fail("fill:files", "the input of the second run changed")
		}
		out, _ = os.ReadFile(filepath.Join(dir, "again.pdf"))
		d.judge(t, out, append(fills, js2.want))
	})

	// the schema of every layout and set of fields
	c.ForEach("schema", len(lays)*core.Pick(c, 8, 31*4), func(i int) string {
		return fmt.Sprintf("%s-%d", lays[i%len(lays)], i/len(lays))
	}, func(t *core.T, i int) {
		lay, v := lays[i%len(lays)], i/len(lays)
		pw, mention := "", (v+i/2)%5
		if i%len(lays) >= 5 {
			pw, mention = pws[(v+i)%len(pws)], 0
		}
		d := cliDocument(lay, i+v, pw, mention)
		dir, done := cliDir()
		defer done()
		put(dir, "in.pdf", string(d.pdf))
		if v%3 == 1 {
			put(dir, "out.json", strings.Repeat("x", 50000))
		}
		before := listing(dir)
		args := []string{"-extract-schema", "-input", "in.pdf", "-output", "out.json"}
		if v%3 == 2 {
			args = append(args, "-verbose")
		}
		r := runProgram(t, dir, -1, args...)
		t.State(fmt.Sprint(i))
		t.Attach("input.pdf", d.pdf)
		if r.code != 0 {
			t.Fail("schema:exit", "%s on %s, password %q", r, lay, pw)
			return
		}
		after := listing(dir)
		if ch := changedFiles(before, after, "out.json"); len(ch) > 0 {
			t.Fail("schema:files", "%q changed besides the output", ch)
		}
		js := strings.TrimPrefix(after["out.json"], "file ")
		var got types.FormSchema
		if err := json.Unmarshal([]byte(js), &got); err != nil {
			t.Fail("schema:json", "%v in %q", err, clips(js))
			return
		}
		if g, w := jsonOf(&got), jsonOf(d.schema); g != w {
			t.Fail("schema:content", "%s", differ(g, w))
		}
		if !strings.Contains(r.out, "Questions extracted: "+strconv.Itoa(len(d.schema.Questions))+"\n") {
			t.Fail("schema:report", "%d questions: %s", len(d.schema.Questions), r)
		}
		t.Outcome(jsonOf(d.schema))
	})

	// every set of options
	c.ForEach("options", 64*2, func(i int) string { return fmt.Sprintf("%07b", i) }, func(t *core.T, i int) {
		dir, done := cliDir()
		defer done()
		d := cliDocument("table", 30, "", 0)
		put(dir, "in.pdf", string(d.pdf))
		put(dir, "data.json", cliJSON[0].src)
		put(dir, "out", "old")
		names := []string{"-input=in.pdf", "-data=data.json", "-output=out", "-extract-schema", "-verify", "-verbose", "-log=log.txt"}
		var args []string
		for k, n := range names {
			if i>>k&1 == 1 {
				args = append(args, n)
			}
		}
		before := listing(dir)
		r := runProgram(t, dir, -1, args...)
		t.State(fmt.Sprint(i))
		in, data, out, schema, verify := i&1 > 0, i&2 > 0, i&4 > 0, i&8 > 0, i&16 > 0
		if verify || !in || !out || !schema && !data {
			judgeFailure(t, r, fmt.Sprintf("the options are %q", args), before, listing(dir))
			return
		}
		if r.code != 0 || len(changedFiles(before, listing(dir), "out", "log.txt")) > 0 {
			t.Fail("options:run", "%q: %s", args, r)
			return
		}
		b, _ := os.ReadFile(filepath.Join(dir, "out"))
		if schema {
			var got types.FormSchema
			if err := json.Unmarshal(b, &got); err != nil || jsonOf(&got) != jsonOf(d.schema) {
				t.Fail("options:schema", "%q: %v", args, err)
			}
		} else {
			d.judge(t, b, []map[string]string{cliJSON[0].want})
		}
	})

	// faults of the files
	faults := cliFaults()
	c.ForEach("faults", len(faults)*2*2*3, func(i int) string {
		f := faults[i%len(faults)]
		return fmt.Sprintf("%s schema %v, %d", f.name, i/len(faults)&1 == 1, i/len(faults)/2)
	}, func(t *core.T, i int) {
		f, schema, v := faults[i%len(faults)], i/len(faults)&1 == 1, i/len(faults)/2
		if schema && f.fillOnly {
			return
		}
		lay, pw := []string{"table", "v2r3-128", "packed"}[v%3], ""
		if f.pw != "" {
			lay, pw = []string{"v1r2", "v2r3-128", "v4-aestrue---nometafalse"}[v%3], f.pw
		}
		d := cliDocument(lay, 30+v, pw, 0)
		dir, done := cliDir()
		defer done()
		put(dir, "in.pdf", string(d.pdf))
		put(dir, "data.json", cliJSON[1].src)
		if v/3 == 0 {
			put(dir, "out", "the old output")
		}
		a := map[string]string{"-input": "in.pdf", "-data": "data.json", "-output": "out"}
		if v&1 == 1 && !schema {
			a["-log"] = "log.txt"
		}
		f.make(dir, d, a)
		before := listing(dir)
		var args []string
		for _, n := range []string{"-input", "-data", "-output", "-log"} {
			if a[n] != "" && (n != "-data" || !schema) {
				args = append(args, n, a[n])
			}
		}
		if schema {
			args = append(args, "-extract-schema")
		}
		r := runProgram(t, dir, -1, args...)
		t.State(fmt.Sprint(i))
		judgeFailure(t, r, f.name, before, listing(dir), "log.txt")
	})

	// every truncation of the data file, and documents cut short
	data := cliJSON[1].src
	trimmed := strings.TrimSpace(data)
	c.ForEach("truncated-data", len(trimmed), func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		dir, done := cliDir()
		defer done()
		put(dir, "in.pdf", string(cliDocument("table", 3, "", 0).pdf))
		put(dir, "data.json", trimmed[:i])
		before := listing(dir)
		r := runProgram(t, dir, -1, "-input", "in.pdf", "-data", "data.json", "-output", "out.pdf")
		t.State(fmt.Sprint(i))
		judgeFailure(t, r, fmt.Sprintf("the data file ends after %d bytes", i), before, listing(dir))
	})
	cut := []string{"table", "v2r3-128", "packed"}
	c.ForEach("truncated-document", len(cut)*core.Pick(c, 60, 400)*2, func(i int) string { return fmt.Sprintf("%s-%d-%d", cut[i%3], i/3%2, i/6) }, func(t *core.T, i int) {
		dir, done := cliDir()
		defer done()
		d := cliDocument(cut[i%3], 3, "", 0)
		n := len(d.pdf) * (i / 6) / core.Pick(c, 60, 400)
		put(dir, "in.pdf", string(d.pdf[:n]))
		put(dir, "data.json", data)
		put(dir, "out", "the old output")
		before := listing(dir)
		args := []string{"-input", "in.pdf", "-data", "data.json", "-output", "out"}
		if i/3%2 == 1 {
			args = append(args, "-extract-schema")
		}
		r := runProgram(t, dir, -1, args...)
		t.State(fmt.Sprint(i))
		after := listing(dir)
		if r.code != 0 {
			judgeFailure(t, r, fmt.Sprintf("the document ends after %d bytes", n), before, after)
		} else if ch := changedFiles(before, after, "out"); len(ch) > 0 || after["out"] == before["out"] {
			t.Fail("cut:files", "the run succeeded, changed files: %q", changedFiles(before, after))
		}
	})

	// a full disk at every block of the output
	c.ForEach("full", 2*3*12, func(i int) string { return fmt.Sprintf("limit %d", i) }, func(t *core.T, i int) {
		dir, done := cliDir()
		defer done()
		blocks, schema, mode := i/6, i&1 == 1, i/2%3
		d := cliDocument("table", 30, "", 0)
		put(dir, "in.pdf", string(d.pdf))
		put(dir, "data.json", cliJSON[7].src)
		args := []string{"-input", "in.pdf", "-data", "data.json", "-output", "out"}
		if schema {
			args = append(args, "-extract-schema")
		}
		whole := runProgram(t, dir, -1, args...)
		want := listing(dir)["out"]
		if whole.code != 0 || want == "" {
			t.Fail("full:run", "%s", whole)
			return
		}
		switch mode {
		case 0:
			os.Remove(filepath.Join(dir, "out"))
		case 1:
			put(dir, "out", "x")
		}
		before := listing(dir)
		r := runProgram(t, dir, blocks, args...)
		after := listing(dir)
		t.State(fmt.Sprint(i))
		if ch := changedFiles(before, after, "out"); len(ch) > 0 {
			t.Fail("full:files", "%q changed besides the output", ch)
		}
		fits := len(want)-len("file ") <= blocks*1024
		switch {
		case fits && r.code != 0:
			t.Fail("full:run", "the output fits, but: %s", r)
		case !fits && (r.code == 0 || strings.Contains(r.out, "Success")):
			t.Fail("full:exit", "the output was cut at %d blocks, but: %s", blocks, r)
		case fits && !schema:
			b, _ := os.ReadFile(filepath.Join(dir, "out"))
			d.judge(t, b, []map[string]string{cliJSON[7].want})
		case fits && after["out"] != want:
			t.Fail("full:output", "another output")
		}
		t.Outcome(fmt.Sprint(fits, r.code))
	})
}

type cliFault struct {
	name     string
	fillOnly bool
	pw       string
	make     func(dir string, d cliDoc, a map[string]string)
}

func cliFaults() []cliFault {
	rm := func(dir, n string) { os.Remove(filepath.Join(dir, n)) }
	mk := func(dir, n string) { os.Mkdir(filepath.Join(dir, n), 0o755) }
	f := []cliFault{
		{"the document does not exist", false, "", func(dir string, d cliDoc, a map[string]string) { rm(dir, "in.pdf") }},
		{"the document is a directory", false, "", func(dir string, d cliDoc, a map[string]string) { rm(dir, "in.pdf"); mk(dir, "in.pdf") }},
		{"the document is empty", false, "", func(dir string, d cliDoc, a map[string]string) { put(dir, "in.pdf", "") }},
		{"the document is a text", false, "", func(dir string, d cliDoc, a map[string]string) { put(dir, "in.pdf", "hello /Encrypt world") }},
		{"the data does not exist", true, "", func(dir string, d cliDoc, a map[string]string) { rm(dir, "data.json") }},
		{"the data is a directory", true, "", func(dir string, d cliDoc, a map[string]string) { rm(dir, "data.json"); mk(dir, "data.json") }},
		{"the output is a directory", false, "", func(dir string, d cliDoc, a map[string]string) { rm(dir, "out"); mk(dir, "out") }},
		{"the output has no directory", false, "", func(dir string, d cliDoc, a map[string]string) { a["-output"] = "no/out" }},
		{"the output is below a file", false, "", func(dir string, d cliDoc, a map[string]string) { a["-output"] = "in.pdf/out" }},
		{"the output device is full", false, "", func(dir string, d cliDoc, a map[string]string) { a["-output"] = "/dev/full" }},
		{"the log has no directory", true, "", func(dir string, d cliDoc, a map[string]string) { a["-log"] = "no/log" }},
		{"the password is another", false, "user", func(dir string, d cliDoc, a map[string]string) {}},
		{"the password is long", false, strings.Repeat("p", 40), func(dir string, d cliDoc, a map[string]string) {}},
		{"the document has no XFA", false, "", func(dir string, d cliDoc, a map[string]string) {
			put(dir, "in.pdf", string(layoutPages([]gen.Obj{{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"}, {Num: 2, Body: "<</Type/Pages/Kids[]/Count 0>>"}}, "table", "/Root 1 0 R")))
		}},
		{"the document has no data", true, "", func(dir string, d cliDoc, a map[string]string) {
			pdf, _ := xfaDoc(d.ps[:2], "table", 0, 0)
			put(dir, "in.pdf", string(pdf))
		}},
		{"the XML of the document is broken", true, "", func(dir string, d cliDoc, a map[string]string) {
			ps := append([]packet{}, d.ps...)
			ps[0].data, ps[2].data = "<template><field name=\"f\"", "<data><field name=\"f\""
			pdf, _ := xfaDoc(ps, "table", 0, 0)
			put(dir, "in.pdf", string(pdf))
		}},
	}
	for _, s := range []string{"[]", `"x"`, "1", "{\"f\":1}}", "{\"f\":1} x", "{\"f\":1}{\"g\":2}", "{\"f\" 1}", "{'f':1}", "{\"f\":1,}", "\xef\xbb\xbf{}x", "true", "{\"f\":01}", "{\"f\":1}]"} {
		s := s
		f = append(f, cliFault{"the data is " + s, true, "", func(dir string, d cliDoc, a map[string]string) { put(dir, "data.json", s) }})
	}
	return f
}
