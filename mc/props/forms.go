package props

import (
	"fmt"
	"strings"

	"verifmc/core"
	"verifmc/gen"

	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
)

func init() {
	core.Register(&core.Prop{ID: "P17", Level: "model_checking", Run: runForms,
		Rule: "A reading case is one generated document with a form (every ordered forest of fields with every assignment of own attributes, every text in every spelling, direct and indirect values, decoys, layouts, encryption), compared field by field with the model it was made from through every reading interface. A writing case is one form built through the public API (every kind, value, flag and sequence of setting, appearance and action calls) read back by a strict reader and by the library. A validation case is one field and one value judged against the definition. Non-trivial: at least one field is read, written or judged.",
		Assumptions: []string{
			"keys are spelled without # escapes; rich text, values that are streams, form-wide default appearances and widgets' border and background entries are outside",
			"siblings in a field hierarchy have distinct names, and a field's kids are either all fields or all widgets",
		},
	})
}

// --- model -------------------------------------------------------------------

// fattr is one attribute of a field: how it is written and what it means.
type fattr struct{ src, want string }

// mfield is a field of the model.
type mfield struct {
	num  int
	own  map[string]fattr
	kids []*mfield
	up   *mfield
	page int // of a leaf; -1: on no page
}

var fieldKeys = []string{"FT", "T", "TU", "TM", "Ff", "V", "DV", "DA", "Q", "MaxLen", "Opt", "TI", "I", "Rect"}

var fieldDefault = map[string]string{"FT": `""`, "T": `""`, "TU": `""`, "TM": `""`, "Ff": "0", "V": "nil", "DV": "nil", "DA": `""`, "Q": "0", "MaxLen": "0", "Opt": "[]", "TI": "0", "I": "[]", "Rect": "[]"}

var fieldInherits = map[string]bool{"FT": true, "Ff": true, "V": true, "DV": true, "DA": true, "Q": true, "MaxLen": true, "Opt": true}

func (m *mfield) get(key string) string {
	if a, ok := m.own[key]; ok {
		return a.want
	}
	if m.up != nil && fieldInherits[key] {
		return m.up.get(key)
	}
	return fieldDefault[key]
}

func (m *mfield) widget() bool {
	_, named := m.own["T"]
	return m.up != nil && !named && len(m.kids) == 0
}

func (m *mfield) terminal() bool {
	for _, k := range m.kids {
		if !k.widget() {
			return false
		}
	}
	return !m.widget()
}

func (m *mfield) full() string {
	t := ""
	if a, ok := m.own["T"]; ok {
		fmt.Sscanf(a.want, "%q", &t)
	}
	if m.up == nil {
		return t
	}
	p := m.up.full()
	if t == "" || p == "" {
		return p + t
	}
	return p + "." + t
}

func (m *mfield) pageOf() int {
	if len(m.kids) == 0 {
		return max(m.page, 0)
	}
	return m.kids[0].pageOf()
}

func (m *mfield) show() string {
	s := fmt.Sprintf("{%d", m.num)
	for _, k := range fieldKeys {
		s += " " + k + "=" + m.get(k)
	}
	s += fmt.Sprintf(" page=%d", m.pageOf())
	for _, k := range m.kids {
		s += k.show()
	}
	return s + "}"
}

func showForm(ms []*mfield) string {
	s := ""
	for _, m := range ms {
		s += m.show()
	}
	return s
}

func eachField(ms []*mfield, f func(*mfield)) {
	for _, m := range ms {
		f(m)
		eachField(m.kids, f)
	}
}

func (m *mfield) set(key, src, want string) *mfield { m.own[key] = fattr{src, want}; return m }

func newField(num int) *mfield { return &mfield{num: num, own: map[string]fattr{}} }

// numberForest makes model fields of a forest in preorder, numbered from 40.
func numberForest(shape string) (roots, all []*mfield) {
	var stack []*mfield
	for _, c := range shape {
		if c == ')' {
			stack = stack[:len(stack)-1]
			continue
		}
		m := newField(40 + len(all))
		m.page = len(all) % 2
		all = append(all, m)
		if len(stack) == 0 {
			roots = append(roots, m)
		} else {
			m.up = stack[len(stack)-1]
			m.up.kids = append(m.up.kids, m)
		}
		stack = append(stack, m)
	}
	return
}

func showValue(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", x)
	case []interface{}:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += showValue(e)
		}
		return s + "]"
	case acroform.ChoiceOption:
		return fmt.Sprintf("%q/%q", x.Value, x.Display)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func showFloats(a []float64) string {
	s := []string{}
	for _, x := range a {
		s = append(s, fmt.Sprintf("%g", x))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func showField(f *acroform.Field, parent *acroform.Field) string {
	if f.Parent != parent {
		return fmt.Sprintf("{%d has the wrong parent}", f.ObjectNum)
	}
	got := map[string]string{"FT": fmt.Sprintf("%q", f.FT), "T": fmt.Sprintf("%q", f.T), "TU": fmt.Sprintf("%q", f.TU), "TM": fmt.Sprintf("%q", f.TM), "Ff": fmt.Sprint(f.Ff), "V": showValue(f.V), "DV": showValue(f.DV), "DA": fmt.Sprintf("%q", f.DA), "Q": fmt.Sprint(f.Q), "MaxLen": fmt.Sprint(f.MaxLen), "Opt": showValue(append([]interface{}{}, f.Opt...)), "TI": fmt.Sprint(f.TI), "I": fmt.Sprint(append([]int{}, f.I...)), "Rect": showFloats(f.Rect)}
	s := fmt.Sprintf("{%d", f.ObjectNum)
	for _, k := range fieldKeys {
		s += " " + k + "=" + got[k]
	}
	s += fmt.Sprintf(" page=%d", f.Page)
	for _, k := range f.Kids {
		s += showField(k, f)
	}
	return s + "}"
}

func showFields2(fs []*acroform.Field) string {
	s := ""
	for _, f := range fs {
		s += showField(f, nil)
	}
	return s
}

// --- documents ---------------------------------------------------------------

type formOpt struct {
	layout   string // table packed updated gen
	inline   bool   // the form dictionary is part of the catalog
	fieldsIn bool   // the Fields array is an object of its own
	indirect string // keys whose values are indirect, "*" for all
	noise    int
	extra    string // more entries of the form dictionary
	crypt    *gen.Crypt
	objs     []gen.Obj // more objects
	pageX    string    // more entries of the first page
}

var fieldNoise = []struct{ pre, post string }{
	{"", ""},
	{"/MK<</T(decoy)/V(decoy)/FT/Sig/Ff 3/Opt[(no)]/Rect[9 9 9 9]>>", ""},
	{"/VX(decoy)/TX(decoy)/OptX[(no)]/FTX/Sig", "/XV(decoy)/RectX[1 1 1 1]/MaxLenX 77/DVX(no)"},
	{"/Note(/T \\(decoy\\) /V /No /FT /Sig)", "/Alt(/Kids [1 0 R] /Ff 3)"},
	{"% /T (decoy) /V (decoy)\n", "%/Ff 3 >>\n"},
	{"/AA<</K<</S/JavaScript/JS(/V \\(x\\))/T(decoy)>>>>/DR<</Font<</V 1 0 R>>>>", "/T2/T/V2/V"},
}

func fieldBody(m *mfield, o formOpt, aux *[]gen.Obj) string {
	n := fieldNoise[o.noise]
	b := "<</Type/Annot/Subtype/Widget" + n.pre
	for _, k := range fieldKeys {
		a, ok := m.own[k]
		if !ok {
			continue
		}
		if o.indirect == "*" || o.indirect == k {
			num := 100 + len(*aux)
			*aux = append(*aux, gen.Obj{Num: num, Body: a.src})
			b += fmt.Sprintf("/%s %d 0 R", k, num)
		} else {
			b += "/" + k + " " + a.src
		}
	}
	b += m.own["+"].src
	if m.up != nil {
		b += fmt.Sprintf("/Parent %d 0 R", m.up.num)
	}
	if len(m.kids) > 0 {
		s := "["
		for _, k := range m.kids {
			s += fmt.Sprintf("%d 0 R ", k.num)
		}
		s += "]"
		if o.indirect == "*" || o.indirect == "Kids" {
			num := 100 + len(*aux)
			*aux = append(*aux, gen.Obj{Num: num, Body: s})
			s = fmt.Sprintf(" %d 0 R", num)
		}
		b += "/Kids" + s
	}
	return b + n.post + ">>"
}

// formObjs are the objects of a document with the fields.
func formObjs(roots []*mfield, o formOpt) []gen.Obj {
	annots := [2]string{}
	var aux, fobjs []gen.Obj
	refs := ""
	for _, m := range roots {
		refs += fmt.Sprintf("%d 0 R ", m.num)
	}
	eachField(roots, func(m *mfield) {
		fobjs = append(fobjs, gen.Obj{Num: m.num, Body: fieldBody(m, o, &aux)})
		if len(m.kids) == 0 && m.page >= 0 {
			annots[m.page] += fmt.Sprintf("%d 0 R ", m.num)
		}
	})
	fields := "[" + refs + "]"
	if o.noise == 4 {
		fields = "[ % 99 0 R\n" + refs + "% ]\n]"
	}
	var more []gen.Obj
	if o.fieldsIn {
		more = append(more, gen.Obj{Num: 9, Body: fields})
		fields = " 9 0 R"
	}
	form := "<<" + o.extra + fieldNoiseForm(o.noise) + "/Fields" + fields + ">>"
	cat := "/AcroForm" + form
	if !o.inline {
		more = append(more, gen.Obj{Num: 8, Body: form})
		cat = "/AcroForm 8 0 R"
	}
	objs := []gen.Obj{
		{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R" + cat + ">>"},
		{Num: 2, Body: "<</Type/Pages/Kids[3 0 R 7 0 R]/Count 2/MediaBox[0 0 100 100]>>"},
		{Num: 7, Body: "<</Type/Pages/Parent 2 0 R/Kids[4 0 R]/Count 1>>"},
		{Num: 3, Body: "<</Type/Page/Parent 2 0 R/Annots[" + annots[0] + "]" + o.pageX + ">>"},
		{Num: 4, Body: "<</Type/Page/Parent 7 0 R/Annots[" + annots[1] + "]>>"},
	}
	objs = append(objs, more...)
	objs = append(objs, fobjs...)
	objs = append(objs, aux...)
	return append(objs, o.objs...)
}

func fieldNoiseForm(i int) string {
	switch i {
	case 1, 5:
		return "/DR<</Fields[1 0 R]/XFA(decoy)/NeedAppearances true>>"
	case 2:
		return "/FieldsX[1 0 R]/XFAX 1/NeedAppearancesX true"
	case 3:
		return "/DA(/Fields [1 0 R] /XFA 1 0 R)"
	case 4:
		return "%/XFA 1 0 R /Fields [1 0 R]\n"
	}
	return ""
}

// formDoc writes a document with the fields.
func formDoc(roots []*mfield, o formOpt) []byte {
	objs := formObjs(roots, o)
	if o.crypt != nil {
		objs = append(objs, gen.Obj{Num: 90, Body: o.crypt.Dict()})
		objs = o.crypt.Encrypt(objs, 90)
		b, _ := gen.Build("1.7", []gen.Rev{{Objs: objs, Trailer: fmt.Sprintf("/Root 1 0 R/Encrypt 90 0 R/ID[<%x><%x>]", cryptID, cryptID)}})
		return b
	}
	switch o.layout {
	case "updated": // the newest revision decides: the first one has other fields
		var old []gen.Obj
		for _, x := range objs {
			if x.Num >= 40 && x.Num < 90 {
				x.Body = "<</Type/Annot/Subtype/Widget/FT/Sig/T(old)/V(old)/Ff 3/Kids[3 0 R]>>"
			}
			old = append(old, x)
		}
		b, _ := gen.Build("1.7", []gen.Rev{{Objs: old, Trailer: "/Root 1 0 R"}, {XRefStream: true, Objs: objs[5:], Trailer: "/Root 1 0 R", StmBase: 400}})
		return b
	}
	return layoutPages(objs, o.layout, "/Root 1 0 R")
}

// --- reading -----------------------------------------------------------------

// checkForm compares every reading interface with the model.
func checkForm(t *core.T, tag string, pdf []byte, roots []*mfield, o formOpt, pw []byte) *acroform.AcroForm {
	t.Attach("form.pdf", pdf)
	want := showForm(roots)
	t.State(want)
	af, err := acroform.ExtractAcroForm(pdf, pw, false)
	t.Step(1)
	if err != nil {
		t.Fail(tag+":extract", "%v", err)
		return nil
	}
	if got := showFields2(af.Fields); got != want {
		t.Fail(tag+":fields", "got  %s\nwant %s", got, want)
		return nil
	}
	t.Outcome(want)
	var sigs []int
	eachField(roots, func(m *mfield) {
		if m.terminal() && m.get("FT") == `"Sig"` {
			sigs = append(sigs, m.num)
		}
	})
	if !eqInts(sortedInts(sigs), sortedInts(af.SignatureFields)) {
		t.Fail(tag+":signatures", "signature fields %v want %v", af.SignatureFields, sigs)
	}
	if af.NeedAppearances != strings.Contains(o.extra, "/NeedAppearances true") || af.XFA != strings.Contains(o.extra, "/XFA") {
		t.Fail(tag+":form", "NeedAppearances %v XFA %v", af.NeedAppearances, af.XFA)
	}
	// values and lookups
	vals := map[string]interface{}{}
	eachField(roots, func(m *mfield) {
		if m.widget() || m.full() == "" {
			return
		}
		if v := m.get("V"); v != "nil" {
			vals[m.full()] = v
		}
	})
	checkValues(t, tag+":values", af.GetFieldValues(), vals)
	byName := map[string][]int{}
	partial := map[string]map[int]bool{}
	eachField(roots, func(m *mfield) {
		if m.widget() {
			return
		}
		byName[m.full()] = append(byName[m.full()], m.num)
		p := ""
		fmt.Sscanf(m.get("T"), "%q", &p)
		if partial[p] == nil {
			partial[p] = map[int]bool{}
		}
		partial[p][m.num] = true
	})
	for n, nums := range byName {
		if len(nums) != 1 {
			continue
		}
		if f := af.FindFieldByName(n); f == nil || f.ObjectNum != nums[0] {
			t.Fail(tag+":find", "field %q: %v want object %v", n, f, nums)
		} else if f.GetFullName() != n {
			t.Fail(tag+":name", "field %d is called %q, want %q", f.ObjectNum, f.GetFullName(), n)
		}
	}
	for n, nums := range partial {
		if len(byName[n]) > 0 {
			continue
		}
		if f := af.FindFieldByName(n); f == nil || !nums[f.ObjectNum] {
			t.Fail(tag+":find", "partial name %q: %v want one of %v", n, f, nums)
		}
	}
	for _, n := range []string{"absent", "a.absent", ".", "a."} {
		if byName[n] == nil && partial[n] == nil {
			if f := af.FindFieldByName(n); f != nil {
				t.Fail(tag+":find", "field %q is object %d", n, f.ObjectNum)
			}
		}
	}
	t.Step(len(byName) + len(partial) + 3)
	wantQ := ""
	eachField(roots, func(m *mfield) {
		if m.terminal() {
			wantQ += wantQuestion(m)
		}
	})
	if got := showQuestions(af.ToFormSchema().Questions); got != wantQ {
		t.Fail(tag+":schema", "got  %s\nwant %s", got, wantQ)
	}
	if s, err := acroform.ExtractFormSchema(pdf, pw, false); err != nil || showQuestions(s.Questions) != wantQ || s.Metadata.FormType != "AcroForm" {
		t.Fail(tag+":schema", "ExtractFormSchema: %v", err)
	}
	t.Step(2)
	if len(roots) == 0 {
		return af
	}
	if ty, err := forms.Detect(pdf, pw, false); err != nil || ty != forms.FormTypeAcroForm {
		t.Fail(tag+":detect", "%v, %v", ty, err)
	}
	f, err := forms.Extract(pdf, pw, false)
	t.Step(2)
	if err != nil || f.Type() != forms.FormTypeAcroForm || showQuestions(f.Schema().Questions) != wantQ {
		t.Fail(tag+":unified", "forms.Extract: %v", err)
		return nil
	}
	checkValues(t, tag+":unified", f.GetValues(), vals)
	return af
}

func checkValues(t *core.T, clause string, got, want map[string]interface{}) {
	g := map[string]string{}
	for k, v := range got {
		g[k] = showValue(v)
	}
	w := map[string]string{}
	for k, v := range want {
		w[k] = v.(string)
	}
	if a, b := showFields(g), showFields(w); a != b {
		t.Fail(clause, "values %s want %s", a, b)
	}
}

func unq(s string) string { u := ""; fmt.Sscanf(s, "%q", &u); return u }

// wantQuestion is the question of a terminal field by the definition of the flags.
func wantQuestion(m *mfield) string {
	ff := 0
	fmt.Sscan(m.get("Ff"), &ff)
	ty := types.ResponseTypeUnknown
	switch unq(m.get("FT")) {
	case "Tx":
		ty = types.ResponseTypeText
	case "Ch":
		ty = types.ResponseTypeSelect
	case "Sig":
		ty = types.ResponseTypeSignature
	case "Btn":
		ty = types.ResponseTypeCheckbox
		if ff>>15&1 == 1 {
			ty = types.ResponseTypeRadio
		} else if ff>>16&1 == 1 {
			ty = types.ResponseTypeButton
		}
	}
	opts := ""
	sel := map[string]bool{}
	for _, x := range strings.Fields(strings.Trim(m.get("I"), "[]")) {
		sel[x] = true
	}
	for i, o := range optList(m.get("Opt")) {
		opts += fmt.Sprintf("<%q %q %v>", o[0], o[1], sel[fmt.Sprint(i)])
	}
	ml := "-"
	if v := m.get("MaxLen"); v != "0" {
		ml = v
	}
	rect := m.get("Rect")
	if rect == "[]" && len(m.kids) > 0 {
		rect = m.kids[0].get("Rect")
	}
	if rect == "[]" {
		rect = "-"
	}
	return fmt.Sprintf("{%d %q %s %s req=%v ro=%v def=%s opts=%s max=%s rect=%s page=%d}", m.num, m.full(), m.get("TU"), ty, ff&2 != 0, ff&1 != 0, m.get("DV"), opts, ml, rect, m.pageOf())
}

// optList reads the model's text of an option list: quoted texts, pairs joined by a slash.
func optList(s string) (out [][2]string) {
	s = s[1 : len(s)-1]
	for s != "" {
		var a, b string
		q := quotedPrefix(s)
		fmt.Sscanf(q, "%q", &a)
		s = s[len(q):]
		b = a
		if strings.HasPrefix(s, "/") {
			q = quotedPrefix(s[1:])
			fmt.Sscanf(q, "%q", &b)
			s = s[1+len(q):]
		}
		s = strings.TrimPrefix(s, " ")
		out = append(out, [2]string{a, b})
	}
	return
}

func quotedPrefix(s string) string {
	for i := 1; i < len(s); i++ {
		if s[i] == '\\' {
			i++
		} else if s[i] == '"' {
			return s[:i+1]
		}
	}
	return s
}

func showQuestions(qs []types.Question) string {
	s := ""
	for _, q := range qs {
		opts := ""
		for _, o := range q.Options {
			opts += fmt.Sprintf("<%q %q %v>", o.Value, o.Label, o.Selected)
		}
		ml := "-"
		if q.Validation != nil && q.Validation.MaxLength != nil {
			ml = fmt.Sprint(*q.Validation.MaxLength)
		}
		rect := "-"
		if r, ok := q.Properties["rect"].([]float64); ok {
			rect = showFloats(r)
			x, _ := q.Properties["x"].(float64)
			y, _ := q.Properties["y"].(float64)
			w, _ := q.Properties["width"].(float64)
			h, _ := q.Properties["height"].(float64)
			if len(r) != 4 || x != r[0] || y != r[1] || w != r[2]-r[0] || h != r[3]-r[1] {
				rect += "?"
			}
		}
		if q.ID != fmt.Sprintf("field_%v", q.Properties["object_num"]) {
			s += "bad id "
		}
		s += fmt.Sprintf("{%v %q %q %s req=%v ro=%v def=%s opts=%s max=%s rect=%s page=%v}", q.Properties["object_num"], q.Name, q.Label, q.Type, q.Required, q.ReadOnly, showValue(q.Default), opts, ml, rect, q.Properties["page"])
	}
	return s
}

// sampleAttrs are the attributes the shape sections give to fields.
func sampleAttr(key string, i int) fattr {
	q := func(s string) fattr { return fattr{litStr([]byte(s)), fmt.Sprintf("%q", s)} }
	switch key {
	case "FT":
		n := []string{"Tx", "Ch", "Btn", "Sig"}[i%4]
		return fattr{"/" + n, fmt.Sprintf("%q", n)}
	case "T", "TU", "TM", "DA":
		return q(fmt.Sprintf("%s%d", strings.ToLower(key), i))
	case "V", "DV":
		switch i % 3 {
		case 0:
			return q(fmt.Sprintf("%s (%d)", key, i))
		case 1:
			return fattr{fmt.Sprintf("/On#20%d", i), fmt.Sprintf("%q", fmt.Sprintf("On %d", i))}
		}
		return fattr{fmt.Sprintf("[(a%d)<62>]", i), fmt.Sprintf("[%q %q]", fmt.Sprintf("a%d", i), "b")}
	case "Ff":
		n := []int{0, 1, 2, 3 | 1<<15, 1 << 16, 1 << 17, 1<<17 | 1<<18}[i%7]
		return fattr{fmt.Sprint(n), fmt.Sprint(n)}
	case "Q", "TI":
		return fattr{fmt.Sprint(i % 3), fmt.Sprint(i % 3)}
	case "MaxLen":
		return fattr{fmt.Sprint(5 + i), fmt.Sprint(5 + i)}
	case "Opt":
		return fattr{fmt.Sprintf("[(x) [(v%d)<FEFF0416>](a\\)b)]", i), fmt.Sprintf(`["x" %q/"Ж" "a)b"]`, fmt.Sprintf("v%d", i))}
	case "I":
		return fattr{fmt.Sprintf("[%d]", i%3), fmt.Sprintf("[%d]", i%3)}
	case "Rect":
		a := []fattr{{"[1 2 33.5 44]", "[1 2 33.5 44]"}, {"[33.5 44 1 2]", "[1 2 33.5 44]"}, {"[-1 44 +3 .5]", "[-1 0.5 3 44]"}, {"[0 0 0 0]", "[0 0 0 0]"}}
		return a[i%4]
	}
	panic(key)
}

// namings lists, as bit masks, which nodes of a forest have a name: roots and inner nodes
// always, leaves of a parent all or none.
func namings(all []*mfield) []int {
	masks := []int{0}
	idx := map[*mfield]int{}
	for i, m := range all {
		idx[m] = i
	}
	base := 0
	var opt []int
	for i, m := range all {
		leafOnly := m.up != nil
		if m.up != nil {
			for _, k := range m.up.kids {
				if len(k.kids) > 0 {
					leafOnly = false
				}
			}
		}
		if !leafOnly {
			base |= 1 << i
		} else if m.up.kids[0] == m {
			g := 0
			for _, k := range m.up.kids {
				g |= 1 << idx[k]
			}
			opt = append(opt, g)
		}
	}
	for _, g := range opt {
		for _, m := range append([]int(nil), masks...) {
			masks = append(masks, m|g)
		}
	}
	for i := range masks {
		masks[i] |= base
	}
	return masks
}

func allForests(n int) (out []string) {
	for i := 0; i <= n; i++ {
		out = append(out, forests(i)...)
	}
	return
}

func runForms(c *core.Ctx) {
	runFormShapes(c)
	runFormTexts(c)
	runFormForms(c)
	runFormSelections(c)
	runFormBuild(c)
	runFormRules(c)
	runFormLooks(c)
	runFormAppearances(c)
}

func runFormShapes(c *core.Ctx) {
	type sc struct {
		shape string
		named int
		own   int
		attr  string
	}
	var cases []sc
	attrs := append([]string{"*"}, fieldKeys...)
	for _, sh := range allForests(core.Pick(c, 4, 5)) {
		_, all := numberForest(sh)
		for _, nm := range namings(all) {
			for own := 0; own < 1<<len(all); own++ {
				for _, a := range attrs {
					if a == "T" || len(all) == 5 && a != "*" && a != "V" && a != "FT" {
						continue
					}
					cases = append(cases, sc{sh, nm, own, a})
				}
			}
		}
	}
	c.ForEach("shapes", len(cases), func(i int) string { s := cases[i]; return fmt.Sprintf("%s-%d-%d-%s", s.shape, s.named, s.own, s.attr) }, func(t *core.T, i int) {
		s := cases[i]
		roots, all := numberForest(s.shape)
		for k, m := range all {
			if s.named>>k&1 == 1 {
				m.own["T"] = sampleAttr("T", k)
			}
			if s.own>>k&1 == 0 {
				continue
			}
			for _, key := range fieldKeys {
				if key != "T" && (s.attr == "*" || s.attr == key) {
					m.own[key] = sampleAttr(key, k+i)
				}
			}
		}
		o := formOpt{layout: []string{"table", "packed", "updated", "gen"}[i%4], inline: i%3 == 0, fieldsIn: i%5 == 0}
		checkForm(t, "shape", formDoc(roots, o), roots, o, nil)
	})
	// names
	var names []sc
	for _, sh := range allForests(core.Pick(c, 4, 5)) {
		_, all := numberForest(sh)
		for v := 0; v < 1<<len(all); v++ {
			names = append(names, sc{shape: sh, own: v})
		}
	}
	c.ForEach("names", len(names), func(i int) string { return fmt.Sprintf("%s-%d", names[i].shape, names[i].own) }, func(t *core.T, i int) {
		s := names[i]
		roots, all := numberForest(s.shape)
		// names a and b wherever they are distinct among siblings, else c, d, ...
		for k, m := range all {
			used := map[string]bool{}
			sib := roots
			if m.up != nil {
				sib = m.up.kids
			}
			for _, x := range sib {
				if a, ok := x.own["T"]; ok {
					used[unq(a.want)] = true
				}
			}
			n := string(rune('a' + s.own>>k&1))
			for r := 'c'; used[n]; r++ {
				n = string(r)
			}
			m.set("T", "("+n+")", fmt.Sprintf("%q", n))
			m.set("FT", "/Tx", `"Tx"`)
			if k%3 != 2 {
				m.set("V", fmt.Sprintf("(v%d)", k), fmt.Sprintf("%q", fmt.Sprintf("v%d", k)))
			}
		}
		checkForm(t, "names", formDoc(roots, formOpt{layout: "table"}), roots, formOpt{}, nil)
	})
}

func formTexts(c *core.Ctx) (texts []string) {
	for i := range pdfDoc {
		if pdfDoc[i] >= 0 {
			texts = append(texts, string(pdfDoc[i]))
		}
	}
	two := []rune{'a', 'é', '€', 'Ж', '中', '😀', '\n', '\r', '(', ')', '\\', 'þ', 'ÿ', 'ï', '»', '¿', '.', ' ', '/', '<', '>', '%', 0x5c28, 0x0d0a, 0x2829, 0x10ffff}
	if !c.Thorough() {
		two = []rune{'a', 'é', 'Ж', '😀', '\r', '(', ')', '\\', 'þ', 'ÿ', '.', '>', '%', 0x5c28}
	}
	for _, a := range two {
		for _, b := range two {
			texts = append(texts, string(a)+string(b))
		}
	}
	return append(texts, "", "1 0 R", "/Kids [40 0 R]", "endobj", strings.Repeat("long é ", 400))
}

func runFormTexts(c *core.Ctx) {
	texts := formTexts(c)
	c.ForEach("texts", len(texts), func(i int) string { return fmt.Sprintf("%d-%.30q", i, texts[i]) }, func(t *core.T, i int) {
		s := texts[i]
		sp := spell(s)
		want := fmt.Sprintf("%q", s)
		for k, n := range spellNames(sp) {
			src := sp[n]
			roots, all := numberForest("()()")
			f := all[0]
			for _, key := range []string{"T", "TU", "TM", "V", "DV", "DA"} {
				f.set(key, src, want)
			}
			if s == "" {
				f.set("T", "(t)", `"t"`)
			}
			f.set("FT", "/Ch", `"Ch"`)
			f.set("Opt", "["+src+"["+src+"(x)][(y)"+src+"]]", fmt.Sprintf(`[%s %s/"x" "y"/%s]`, want, want, want))
			all[1].set("T", "(second)", `"second"`).set("FT", "/Tx", `"Tx"`).set("V", "["+src+src+"]", "["+want+" "+want+"]")
			o := formOpt{layout: []string{"table", "packed"}[k%2], indirect: []string{"", "*"}[(i+k)%2]}
			checkForm(t, n, formDoc(roots, o), roots, o, nil)
		}
	})
	var names []string
	for b := 1; b < 256; b++ {
		names = append(names, fmt.Sprintf("%c", b))
	}
	c.ForEach("states", 256, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		if i == 0 {
			return
		}
		// a button's value is a name; every byte may be written with an escape
		roots, all := numberForest("()")
		src := fmt.Sprintf("/A#%02x#%02XB", i, i)
		w := "A" + string([]byte{byte(i), byte(i)}) + "B"
		all[0].set("FT", "/Btn", `"Btn"`).set("T", "(b)", `"b"`).set("V", src, fmt.Sprintf("%q", w)).set("DV", src, fmt.Sprintf("%q", w))
		o := formOpt{layout: "table", indirect: []string{"", "V"}[i%2]}
		checkForm(t, "name", formDoc(roots, o), roots, o, nil)
	})
}

// runFormSelections reads choice fields with every list of selected options.
func runFormSelections(c *core.Ctx) {
	n := core.Pick(c, 4, 5)
	var lists [][]int
	for l := 0; l <= n; l++ {
		for i := 0; i < pow(n, l); i++ {
			s, seen := seqOf(i, n, l), map[int]bool{}
			for _, x := range s {
				seen[x] = true
			}
			if len(seen) == l {
				lists = append(lists, s)
			}
		}
	}
	c.ForEach("selections", len(lists)*n, func(i int) string { return fmt.Sprintf("%v-%d", lists[i/n], i%n+1) }, func(t *core.T, i int) {
		sel, opts := fmt.Sprint(lists[i/n]), i%n+1
		src, want := "", ""
		for k := 0; k < opts; k++ {
			if (i+k)%3 == 0 {
				src += fmt.Sprintf("[(o%d)(Option %d)]", k, k)
				want += fmt.Sprintf(` "o%d"/"Option %d"`, k, k)
			} else {
				src += fmt.Sprintf("(o%d)", k)
				want += fmt.Sprintf(` "o%d"`, k)
			}
		}
		roots, all := numberForest("(())()")
		for k, m := range all {
			m.set("FT", "/Ch", `"Ch"`).set("T", fmt.Sprintf("(c%d)", k), fmt.Sprintf(`"c%d"`, k)).set("Ff", "2097152", "2097152")
			if k != 1 {
				m.set("Opt", "["+src+"]", "["+strings.TrimPrefix(want, " ")+"]")
			}
			if k != 0 {
				m.set("I", sel, sel)
			}
		}
		o := formOpt{layout: []string{"table", "packed", "updated"}[i%3], indirect: []string{"", "I", "*"}[i/3%3]}
		checkForm(t, "selection", formDoc(roots, o), roots, o, nil)
	})
}

// fullForm has a field with every attribute.
func fullForm() []*mfield {
	roots, all := numberForest("(()())()()(())")
	for k, m := range all {
		m.own["T"] = sampleAttr("T", k)
		for _, key := range fieldKeys {
			if key != "T" && (k+len(key))%4 != 3 {
				m.own[key] = sampleAttr(key, k)
			}
		}
	}
	delete(all[6].own, "T") // a widget
	return roots
}

func runFormForms(c *core.Ctx) {
	extras := []string{"", "/NeedAppearances true", "/NeedAppearances false", "/XFA[(template) 9 0 R]", "/SigFlags 3/CO[40 0 R]", "/NeedAppearances true/XFA 9 0 R/DA(/Helv 0 Tf)"}
	keys := append([]string{"", "*", "Kids"}, fieldKeys...)
	lays := []string{"table", "packed", "updated", "gen"}
	n := len(extras) * len(keys) * len(lays) * len(fieldNoise) * 4
	c.ForEach("spellings", n, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		o := formOpt{extra: extras[i%len(extras)], indirect: keys[i/len(extras)%len(keys)]}
		i /= len(extras) * len(keys)
		o.layout = lays[i%len(lays)]
		i /= len(lays)
		o.noise = i % len(fieldNoise)
		o.inline, o.fieldsIn = i/len(fieldNoise)&1 == 1, i/len(fieldNoise)&2 == 2
		if strings.Contains(o.extra, "9 0 R") {
			o.extra = strings.ReplaceAll(o.extra, "9 0 R", "20 0 R")
			o.objs = []gen.Obj{{Num: 20, Stream: true, Data: "<x/>"}}
		}
		roots := fullForm()
		pdf := formDoc(roots, o)
		af := checkForm(t, "spelling", pdf, roots, o, nil)
		if af == nil {
			return
		}
		a2, err := acroform.ParseAcroForm(pdf, nil, false)
		a3, err3 := forms.ExtractAcroForm(pdf, nil, false)
		t.Step(2)
		if err != nil || err3 != nil || showFields2(a2.Fields) != showFields2(af.Fields) || showFields2(a3.Fields) != showFields2(af.Fields) {
			t.Fail("spelling:interfaces", "ParseAcroForm: %v, forms.ExtractAcroForm: %v, or their fields differ", err, err3)
		}
	})
	cfgs := cryptCfgs()
	c.ForEach("encrypted", len(cfgs)*4, func(i int) string { return fmt.Sprintf("%s-%d", cfgs[i%len(cfgs)].name, i/len(cfgs)) }, func(t *core.T, i int) {
		cf := cfgs[i%len(cfgs)]
		pw := []string{"user", "owner", "", "owner"}[i/len(cfgs)]
		user := "user"
		if i/len(cfgs) >= 2 {
			user = ""
		}
		k := cf.make([]byte(user), []byte("owner"), -44, cryptID)
		roots := fullForm()
		o := formOpt{crypt: k, inline: i%2 == 1, indirect: []string{"", "*"}[i/2%2]}
		checkForm(t, "encrypted", formDoc(roots, o), roots, o, []byte(pw))
	})
	// documents without a form
	none := []string{"", "/AcroForm null", "/AcroForm 20 0 R", "/X<</AcroForm<</Fields[]>>>>", "/Note(/AcroForm <</Fields[40 0 R]>>)", "/AcroForm<<>>"}
	c.ForEach("none", len(none), func(i int) string { return none[i] }, func(t *core.T, i int) {
		pdf := infoDoc("table", none[i], "", []gen.Obj{{Num: 40, Body: "<</FT/Tx/T(x)>>"}, {Num: 41, Body: "<</Type/AcroForm/Fields[40 0 R]>>"}})
		t.Attach("document.pdf", pdf)
		t.State(none[i])
		if af, err := acroform.ExtractAcroForm(pdf, nil, false); err == nil {
			t.Fail("none", "a form with %d fields", len(af.Fields))
		}
		if ty, err := forms.Detect(pdf, nil, false); err == nil || ty != forms.FormTypeUnknown {
			t.Fail("none", "form type %v", ty)
		}
		if f, err := forms.Extract(pdf, nil, false); err == nil {
			t.Fail("none", "a form %v", f.Type())
		}
		t.Step(3)
	})
}
