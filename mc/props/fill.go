package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
)

func init() {
	core.Register(&core.Prop{ID: "P18", Level: "model_checking", Run: runFill,
		Rule: "A case is one generated document with a form (every layout, encrypted or not, values direct or indirect, decoys) and one sequence of filling calls (every field with every value, every subset of the fields, every sequence of calls up to the depth through every filling interface), or one removal of the form. The result is read by a strict reader and every object of it is compared with a model of the document to which the same values were applied; the library must read the same values. Non-trivial: at least one filling or removing call succeeds.",
		Assumptions: []string{
			"appearance streams of text and choice fields are not regenerated (the form asks viewers to do that or keeps what it had); removing a form keeps the widgets on the pages",
			"documents whose objects can all be read",
		},
	})
}

// fillForm is the form of the filling cases and the document's other objects.
func fillForm(noise int) ([]*mfield, formOpt) {
	q := func(s string) (string, string) { return litStr([]byte(s)), fmt.Sprintf("%q", s) }
	mk := func(n int, ft, name string) *mfield {
		m := newField(n)
		m.page = n % 2
		if ft != "" {
			m.set("FT", "/"+ft, fmt.Sprintf("%q", ft))
		}
		if name != "" {
			a, b := q(name)
			m.set("T", a, b)
		}
		return m
	}
	val := func(m *mfield, s string) *mfield { a, b := q(s); return m.set("V", a, b) }
	kid := func(p, k *mfield) *mfield { k.up = p; p.kids = append(p.kids, k); return k }
	name := val(mk(40, "Tx", "name"), "old (value) /V")
	name.set("DV", "(default)", `"default"`).set("Rect", "[1 2 3 4]", "[1 2 3 4]")
	addr := mk(41, "", "addr")
	kid(addr, val(mk(42, "Tx", "city"), "Old\\City"))
	kid(addr, mk(43, "Tx", "zip")).set("MaxLen", "5", "5")
	agree := mk(44, "Btn", "agree").set("V", "/Off", `"Off"`)
	agree.set("+", "/AS/Off/AP<</N<</Off 61 0 R/On#20A 60 0 R>>/D<</Wrong 60 0 R>>>>", "")
	color := mk(45, "Btn", "color").set("Ff", "32768", "32768")
	kid(color, mk(46, "", "")).set("+", "/AS/Off/AP<</N<</red 60 0 R/Off 61 0 R>>>>", "")
	kid(color, mk(47, "", "")).set("+", "/AP 62 0 R", "")
	size := mk(48, "Ch", "size").set("Opt", "[(S)(M)[(L)(Large)]]", `["S" "M" "L"/"Large"]`)
	plain := mk(49, "Btn", "plain")
	both := mk(50, "Tx", "both") // two widgets of one field
	kid(both, mk(51, "", ""))
	kid(both, mk(52, "", ""))
	byRef := mk(53, "Tx", "ref").set("V", "64 0 R", `"by reference"`)
	sig := mk(54, "Sig", "sig")
	objs := []gen.Obj{
		{Num: 60, Stream: true, Body: "<</Type/XObject/Subtype/Form/BBox[0 0 1 1]>>", Data: "0 0 1 1 re f"},
		{Num: 61, Stream: true, Body: "<</Type/XObject/Subtype/Form/BBox[0 0 1 1]>>", Data: ""},
		{Num: 62, Body: "<</N 63 0 R>>"},
		{Num: 63, Body: "<</blue 60 0 R/Off 61 0 R>>"},
		{Num: 64, Body: "(by reference)"},
		{Num: 65, Body: "[(name) /V (kept) << /T (name) /V (kept) >>]"},
		{Num: 66, Body: "<</T(name)/V(kept)/FT/Tx>>"},
	}
	return []*mfield{name, addr, agree, color, size, plain, both, byRef, sig}, formOpt{objs: objs, noise: noise, extra: "/NeedAppearances true"}
}

// fillDoc is the document with the form in a layout: table, packed, updated, gen, or the
// name of an encryption.
func fillDoc(layout string, noise int, indirect string) (pdf []byte, crypt *gen.Crypt) {
	roots, o := fillForm(noise)
	o.indirect = indirect
	o.fieldsIn = noise%2 == 1
	o.inline = noise%3 == 1
	for _, c := range cryptCfgs() {
		if c.name == layout {
			o.crypt = c.make([]byte("user"), []byte("owner"), -44, cryptID)
		}
	}
	o.layout = layout
	return formDoc(roots, o), o.crypt
}

// fmodel is the document as the model sees it.
type fmodel struct {
	objs map[int]ref.Obj
	root int
}

func readModel(pdf []byte, k *gen.Crypt) (*fmodel, error) {
	f, err := openModel(pdf, k)
	if err != nil {
		return nil, err
	}
	return modelOf(f)
}

// openModel opens a document, encrypted or not, by the strict reader.
func openModel(pdf []byte, k *gen.Crypt) (*ref.File, error) {
	f, err := ref.Open(pdf)
	if err != nil {
		return nil, err
	}
	if f.Trailer["Encrypt"] != nil {
		if k == nil {
			return nil, fmt.Errorf("the document is encrypted")
		}
		skip, _ := f.Trailer["Encrypt"].(ref.Ref)
		f.Decrypt = func(d []byte, n, g int, s ref.Dict) ([]byte, error) {
			if n == skip.N || s == nil && k.StrF == "Identity" || s != nil && (k.StmF == "Identity" || !k.EncMeta && s["Type"] == ref.Name("Metadata")) {
				return d, nil
			}
			return k.Dec(d, n, g)
		}
	}
	return f, f.CheckAll()
}

func modelOf(f *ref.File) (*fmodel, error) {
	m := &fmodel{objs: map[int]ref.Obj{}}
	r, _ := f.Trailer["Root"].(ref.Ref)
	m.root = r.N
	for _, n := range f.Nums() {
		o, found, err := f.Get(n)
		if err != nil {
			return nil, err
		}
		if found && !infra(o) {
			m.objs[n] = noGen(o)
		}
	}
	if e, ok := f.Trailer["Encrypt"].(ref.Ref); ok {
		delete(m.objs, e.N)
	}
	return m, nil
}

func (m *fmodel) show() map[int]string {
	out := map[int]string{}
	for n, o := range m.objs {
		out[n] = semantic(o)
	}
	return out
}

func diffModels(got, want *fmodel) string {
	if got.root != want.root {
		return fmt.Sprintf("the catalog is object %d, was %d", got.root, want.root)
	}
	g, w := got.show(), want.show()
	for n, s := range w {
		if g[n] != s {
			return fmt.Sprintf("object %d is %s want %s", n, clips(g[n]), clips(s))
		}
	}
	for n, s := range g {
		if _, ok := w[n]; !ok {
			return fmt.Sprintf("object %d appeared: %s", n, clips(s))
		}
	}
	return ""
}

func (m *fmodel) dict(o ref.Obj) ref.Dict {
	for i := 0; i < 20; i++ {
		switch v := o.(type) {
		case ref.Ref:
			o = m.objs[v.N]
		case ref.Dict:
			return v
		default:
			return nil
		}
	}
	return nil
}

// fillNames are the fields of fillForm by full name, with their objects, types and widgets.
var fillNames = map[string]struct {
	num     int
	ft      string
	widgets []int
}{
	"name": {40, "Tx", nil}, "addr.city": {42, "Tx", nil}, "addr.zip": {43, "Tx", nil}, "agree": {44, "Btn", []int{44}},
	"color": {45, "Btn", []int{46, 47}}, "size": {48, "Ch", nil}, "plain": {49, "Btn", nil}, "both": {50, "Tx", nil}, "ref": {53, "Tx", nil},
}

// fill applies a value to the model. The strings are compared as texts, so they are kept
// decoded.
func (m *fmodel) fill(name string, v interface{}) {
	if name == "city" {
		name = "addr.city"
	}
	f, ok := fillNames[name]
	if !ok {
		return
	}
	set := func(n int, key ref.Name, o ref.Obj) {
		d := without(m.dict(ref.Ref{N: n}))
		d[key] = o
		m.objs[n] = d
	}
	if f.ft != "Btn" {
		var o ref.Obj
		switch x := v.(type) {
		case nil:
			o = textObj("")
		case []string:
			a := ref.Arr{}
			for _, e := range x {
				a = append(a, textObj(e))
			}
			o = a
		case []interface{}:
			a := ref.Arr{}
			for _, e := range x {
				a = append(a, textObj(formText(e, f.ft)))
			}
			o = a
		default:
			o = textObj(formText(v, f.ft))
		}
		set(f.num, "V", o)
		return
	}
	states := func(n int) (out []string) {
		for k := range m.dict(m.dict(m.dict(ref.Ref{N: n})["AP"])["N"]) {
			if k != "Off" {
				out = append(out, string(k))
			}
		}
		sort.Strings(out)
		return
	}
	state := formText(v, "Btn")
	if v == true {
		for _, w := range f.widgets {
			if s := states(w); len(s) > 0 {
				state = s[0]
				break
			}
		}
	}
	set(f.num, "V", ref.Name(state))
	for _, w := range f.widgets {
		shown := "Off"
		for _, s := range states(w) {
			if s == state {
				shown = s
			}
		}
		set(w, "AS", ref.Name(shown))
	}
}

// textObj stands for a text string whatever its encoding.
func textObj(s string) ref.Obj { return ref.Arr{ref.Keyword("text"), ref.Name(s)} }

// asTexts replaces the values of fields by texts, so that encodings do not matter.
func (m *fmodel) asTexts() {
	for _, f := range fillNames {
		d := m.dict(ref.Ref{N: f.num})
		if d == nil || d["V"] == nil {
			continue
		}
		conv := func(o ref.Obj) ref.Obj {
			if s, ok := o.(ref.Str); ok {
				x, err := textOf(s)
				if err != nil {
					return ref.Name("?" + err.Error())
				}
				return textObj(x)
			}
			return o
		}
		v := d["V"]
		if a, ok := v.(ref.Arr); ok && (len(a) == 0 || a[0] != ref.Keyword("text")) {
			var out = ref.Arr{}
			for _, e := range a {
				out = append(out, conv(e))
			}
			v = out
		} else {
			v = conv(v)
		}
		d = without(d)
		d["V"] = v
		m.objs[f.num] = d
	}
}

// values are the values the library must report.
func (m *fmodel) values() map[string]interface{} {
	out := map[string]interface{}{}
	for name, f := range fillNames {
		o := m.dict(ref.Ref{N: f.num})["V"]
		for {
			r, ok := o.(ref.Ref)
			if !ok {
				break
			}
			o = m.objs[r.N]
		}
		switch v := o.(type) {
		case ref.Name:
			out[name] = fmt.Sprintf("%q", string(v))
		case ref.Str:
			s, _ := textOf(v)
			out[name] = fmt.Sprintf("%q", s)
		case ref.Arr:
			if len(v) > 0 && v[0] == ref.Keyword("text") {
				out[name] = fmt.Sprintf("%q", string(v[1].(ref.Name)))
				continue
			}
			s := []string{}
			for _, e := range v {
				s = append(s, fmt.Sprintf("%q", string(e.(ref.Arr)[1].(ref.Name))))
			}
			out[name] = "[" + strings.Join(s, " ") + "]"
		}
	}
	return out
}

// --- filling calls -------------------------------------------------------------

var fillAPIs = []string{"FillFormFields", "WithStreams", "FillForm", "Form.Fill", "ExtractAndFill", "FillFormFromSchema", "FillFieldValue"}

func doFill(api string, pdf []byte, data types.FormData, pw []byte) ([]byte, error) {
	switch api {
	case "FillFormFields":
		return acroform.FillFormFields(pdf, data, pw, false)
	case "WithStreams":
		return acroform.FillFormFieldsWithStreams(pdf, data, pw, false)
	case "FillForm":
		return acroform.FillForm(pdf, data, pw, false)
	case "Form.Fill":
		f, err := forms.Extract(pdf, pw, false)
		if err != nil {
			return nil, err
		}
		return f.Fill(pdf, data, pw, false)
	case "ExtractAndFill":
		return acroform.ExtractAndFill(pdf, data, pw, false)
	case "FillFormFromSchema":
		s, err := acroform.ExtractFormSchema(pdf, pw, false)
		if err != nil {
			return nil, err
		}
		return acroform.FillFormFromSchema(pdf, s, data, pw, false)
	case "FillFieldValue":
		var names []string
		for n := range data {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			p, err := parse.OpenWithOptions(pdf, parse.ParseOptions{Password: pw})
			if err != nil {
				return nil, err
			}
			af, err := acroform.ExtractAcroForm(pdf, pw, false)
			if err != nil {
				return nil, err
			}
			f := af.FindFieldByName(n)
			if f == nil {
				continue
			}
			if pdf, err = acroform.FillFieldValue(pdf, f, data[n], p.Encryption(), false); err != nil {
				return nil, err
			}
		}
		return pdf, nil
	}
	panic(api)
}

// checkFill applies the steps to a document and compares the result with the model after
// each step.
func checkFill(t *core.T, pdf []byte, k *gen.Crypt, pw string, steps []types.FormData, api func(i int) string) {
	t.Attach("form.pdf", pdf)
	var key []byte
	if k != nil {
		key = []byte(pw)
	}
	m, err := readModel(pdf, k)
	if err != nil {
		panic(err)
	}
	in := string(pdf)
	cur := pdf
	for i, data := range steps {
		out, err := doFill(api(i), cur, data, key)
		t.Step(1)
		if err != nil {
			t.Fail("fill", "%s %v: %v", api(i), data, err)
			return
		}
		t.Attach(fmt.Sprintf("filled%d.pdf", i+1), out)
		for n, v := range data {
			m.fill(n, v)
		}
		got, err := readModel(out, k)
		if err != nil {
			t.Fail("strict", "after %s %v: %v", api(i), data, err)
			return
		}
		m.asTexts()
		got.asTexts()
		if d := diffModels(got, m); d != "" {
			t.Fail("document", "after %s %v: %s", api(i), data, d)
			return
		}
		af, err := acroform.ExtractAcroForm(out, key, false)
		if err != nil {
			t.Fail("reread", "after %s %v: %v", api(i), data, err)
			return
		}
		t.Step(1)
		checkValues(t, "values", af.GetFieldValues(), m.values())
		st := fmt.Sprint(m.values())
		t.State(st)
		t.Outcome(st)
		if t.Failed() {
			return
		}
		if k != nil {
			p, err := parse.OpenWithOptions(out, parse.ParseOptions{Password: key})
			if err != nil || !p.IsEncrypted() {
				t.Fail("protection", "the filled document is not encrypted: %v", err)
				return
			}
			if _, err := parse.OpenWithOptions(out, parse.ParseOptions{Password: []byte("wrong")}); err == nil {
				t.Fail("protection", "the filled document opens with a wrong password")
				return
			}
		}
		cur = out
	}
	if string(pdf) != in {
		t.Fail("input", "the caller's bytes were modified")
	}
}

func runFill(c *core.Ctx) {
	plain := []string{"table", "packed", "updated", "gen"}
	var crypts []string
	for _, cf := range cryptCfgs() {
		crypts = append(crypts, cf.name)
	}
	lays := append(append([]string{}, plain...), crypts...)

	// every field with every text and value
	texts := formTexts(c)
	c.ForEach("texts", len(texts), func(i int) string { return fmt.Sprintf("%d-%.30q", i, texts[i]) }, func(t *core.T, i int) {
		s := texts[i]
		pdf, k := fillDoc(lays[i%len(lays)], i%len(fieldNoise), "")
		data := types.FormData{"name": s, "addr.city": s + "x", "size": []string{s, "M", s}, "both": "y" + s}
		if s != "" && !strings.Contains(s, "\x00") && len(s) < 100 {
			data["plain"] = s
			data["agree"] = s
		}
		checkFill(t, pdf, k, []string{"user", "owner"}[i%2], []types.FormData{data}, func(int) string { return fillAPIs[i%len(fillAPIs)] })
	})
	names := []string{"name", "addr.city", "addr.zip", "agree", "color", "size", "plain", "both", "ref", "city", "absent", "addr.none"}
	vals := []interface{}{"x", "", "Off", "Yes", "On A", "red", "blue", "Wrong", "1 0 R", true, false, 7, -1, 1.5, 1e15, 1234567.875, 0.1, -1e-7, 1 << 53, nil, []string{}, []string{"S", "L"}, []interface{}{"M", 3}}
	c.ForEach("values", len(names)*len(vals)*len(plain), func(i int) string {
		return fmt.Sprintf("%s-%T-%v-%s", names[i%len(names)], vals[i/len(names)%len(vals)], vals[i/len(names)%len(vals)], plain[i/len(names)/len(vals)])
	}, func(t *core.T, i int) {
		n, v := names[i%len(names)], vals[i/len(names)%len(vals)]
		if fillNames[n].ft == "Btn" && (v == nil || v == "" || reflectList(v)) {
			return
		}
		for x, api := range fillAPIs {
			pdf, k := fillDoc(plain[i/len(names)/len(vals)], x%len(fieldNoise), []string{"", "V", "*"}[x%3])
			checkFill(t, pdf, k, "", []types.FormData{{n: v}}, func(int) string { return api })
		}
	})
	// every subset of the fields
	subset := []string{"name", "addr.city", "addr.zip", "agree", "color", "size", "plain", "both", "ref", "absent"}
	pick := map[string][]interface{}{"agree": {true, "On A", false}, "color": {"blue", true, "red"}, "plain": {true, "Z", false}, "size": {"M", []string{"S", "L"}, "é"}}
	value := func(n string, i int) interface{} {
		if p := pick[n]; p != nil {
			return p[i%len(p)]
		}
		return []interface{}{"v (" + n + ")", "Ж" + n, 12 + i%3}[i%3]
	}
	c.ForEach("subsets", 1<<len(subset)*core.Pick(c, 1, 3), func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		data := types.FormData{}
		for k, n := range subset {
			if i>>k&1 == 1 {
				data[n] = value(n, i/3+k+i>>len(subset))
			}
		}
		lay := lays[(i+i>>3)%len(lays)]
		pdf, k := fillDoc(lay, i%len(fieldNoise), []string{"", "*"}[i/7%2])
		checkFill(t, pdf, k, []string{"user", "owner"}[i/5%2], []types.FormData{data}, func(int) string { return fillAPIs[i%len(fillAPIs)] })
	})
	// histories
	steps := []types.FormData{{"name": "A"}, {"name": "B (2)", "addr.city": "Ж"}, {"agree": true}, {"agree": false, "color": "red"}, {"color": "blue"}, {"color": true, "size": []string{"S", "M"}}, {"size": "L", "ref": "direct"}, {}, {"absent": 1}}
	depth := core.Pick(c, 3, 4)
	for d := 2; d <= depth; d++ {
		d := d
		c.ForEach(fmt.Sprintf("histories%d", d), pow(len(steps), d), func(i int) string { return fmt.Sprint(seqOf(i, len(steps), d)) }, func(t *core.T, i int) {
			var ss []types.FormData
			for _, n := range seqOf(i, len(steps), d) {
				ss = append(ss, steps[n])
			}
			pdf, k := fillDoc(lays[i%len(lays)], i/3%len(fieldNoise), "")
			checkFill(t, pdf, k, "owner", ss, func(j int) string { return fillAPIs[(i/2+j)%len(fillAPIs)] })
		})
	}
	runFillObjects(c, lays)
	runFlatten(c, lays)
}

// runFillObjects replaces single objects.
func runFillObjects(c *core.Ctx, lays []string) {
	bodies := []string{"<</FT/Tx/T(name)/V(new)>>", "<</FT/Tx/T(name)/V 64 0 R/X[60 0 R 61 0 R]>>", "<</FT/Tx/T(a)/V(endobj)>>", "<< /FT /Tx /T (name) % comment >>\n /V <FEFF0416> >>"}
	nums := []int{40, 42, 44, 48, 64, 65, 1, 99}
	c.ForEach("replace", len(bodies)*len(nums)*len(lays), func(i int) string {
		return fmt.Sprintf("%d-%d-%s", i%len(bodies), nums[i/len(bodies)%len(nums)], lays[i/len(bodies)/len(nums)])
	}, func(t *core.T, i int) {
		body, n, lay := bodies[i%len(bodies)], nums[i/len(bodies)%len(nums)], lays[i/len(bodies)/len(nums)]
		if n == 1 {
			body = "<</Type/Catalog/Pages 2 0 R/AcroForm<</Fields[40 0 R]>>/Lang(x)>>"
		}
		pdf, k := fillDoc(lay, i%len(fieldNoise), "")
		t.Attach("form.pdf", pdf)
		m, err := readModel(pdf, k)
		if err != nil {
			panic(err)
		}
		var pw []byte
		if k != nil {
			pw = []byte("user")
		}
		p, err := parse.OpenWithOptions(pdf, parse.ParseOptions{Password: pw})
		if err != nil {
			t.Fail("open", "%v", err)
			return
		}
		judge := func(clause string, out []byte, err error) {
			t.Step(1)
			if m.objs[n] == nil {
				if err == nil {
					t.Fail(clause, "replacing object %d, which does not exist, succeeds", n)
				}
				return
			}
			if err != nil {
				t.Fail(clause, "%v", err)
				return
			}
			t.Attach("replaced.pdf", out)
			got, err := readModel(out, k)
			if err != nil {
				t.Fail(clause, "%v", err)
				return
			}
			o, err := ref.ParseOne([]byte(body))
			if err != nil {
				panic(err)
			}
			w := &fmodel{objs: map[int]ref.Obj{}, root: m.root}
			for x, v := range m.objs {
				w.objs[x] = v
			}
			w.objs[n] = o
			if d := diffModels(got, w); d != "" {
				t.Fail(clause, "%s", d)
			}
			t.Outcome(ref.Canon(o))
		}
		t.State(fmt.Sprint(n, lay, body))
		out, err := acroform.ReplaceFieldObject(pdf, n, 0, []byte(body), p.Encryption(), false)
		judge("replace", out, err)
		if lay == "packed" {
			f, err := ref.Open(pdf)
			if err != nil {
				panic(err)
			}
			for _, sn := range f.Nums() {
				o, _, _ := f.Get(sn)
				s, ok := o.(*ref.Stream)
				if !ok || s.D["Type"] != ref.Name("ObjStm") {
					continue
				}
				data, err := ref.DecodeStream(s)
				if err != nil {
					panic(err)
				}
				in, _, err := ref.ParseObjStm(s.D, data)
				if err != nil {
					panic(err)
				}
				if _, ok := in[n]; ok {
					out, err := acroform.RebuildObjectStream(pdf, sn, []acroform.StreamObjectUpdate{{ObjNum: n, NewContent: []byte(body)}}, nil, false)
					judge("stream", out, err)
				}
			}
			if _, err := acroform.RebuildObjectStream(pdf, 40, []acroform.StreamObjectUpdate{{ObjNum: n, NewContent: []byte(body)}}, nil, false); err == nil {
				t.Fail("stream", "object 40 is rebuilt as an object stream")
			}
		}
	})
}

// runFlatten removes the form from the catalog.
func runFlatten(c *core.Ctx, lays []string) {
	c.ForEach("flatten", len(fieldNoise)*len(lays)*2, func(i int) string {
		return fmt.Sprintf("%d-%s", i%(2*len(fieldNoise)), lays[i/2/len(fieldNoise)])
	}, func(t *core.T, i int) {
		lay := lays[i/2/len(fieldNoise)]
		pdf, k := fillDoc(lay, i/2%len(fieldNoise), []string{"", "*"}[i%2])
		t.Attach("form.pdf", pdf)
		var pw []byte
		if k != nil {
			pw = []byte([]string{"user", "owner"}[i%2])
		}
		m, err := readModel(pdf, k)
		if err != nil {
			panic(err)
		}
		t.State(strconv.Itoa(i))
		out, err := acroform.FlattenForm(pdf, pw, false)
		t.Step(1)
		if err != nil {
			t.Fail("flatten", "%v", err)
			return
		}
		t.Attach("flattened.pdf", out)
		got, err := readModel(out, k)
		if err != nil {
			t.Fail("flatten", "%v", err)
			return
		}
		m.objs[m.root] = without(m.dict(ref.Ref{N: m.root}), "AcroForm")
		if d := diffModels(got, m); d != "" {
			t.Fail("flatten", "%s", d)
		}
		if _, err := acroform.ExtractAcroForm(out, pw, false); err == nil {
			t.Fail("flatten", "the form is still there")
		}
		t.Outcome(lay)
	})
}
