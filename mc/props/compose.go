package props

import (
	"fmt"
	"sort"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
)

func init() {
	core.Register(&core.Prop{ID: "P28", Level: "model_checking", Run: runCompose,
		Rule: "A case is one document that has pages, a form of fields and of XFA packets, bookmarks and metadata, in one layout or encryption, and the first two of a sequence of operations on whole documents; all continuations up to the depth are explored. After each operation the written document is compared, object by object and page by page through the strict reader, with a model to which the same operations were applied, and the library must report the model's pages, values, packets, bookmarks and metadata. Distinct states are distinct models. Non-trivial: at least one operation succeeds.",
		Assumptions: []string{
			"the operations are the ones of the properties on pages, page sets, filling and XFA with a few arguments each; their arguments are explored there",
			"what page sets do with the document's form, bookmarks and metadata is not claimed",
		},
	})
}

var composeLayouts = []string{"table", "packed", "updated", "gen", "v1r2", "v2r3-128", "v4-aesfalse---nometafalse", "v4-aestrue---nometafalse", "v4-aestrue---nometafalse-direct", "v4-aestrue--Identity-nometatrue", "packed~xfa", "v4-aestrue---nometafalse~xfa"}

const (
	composeXML  = `<xfa:datasets xmlns:xfa="x"><xfa:data><field name="f"><value>1</value></field><field name="name"><value>xfa</value></field></xfa:data></xfa:datasets>`
	composeTmpl = `<template><subform name="form"><field name="f"/><field name="name"/></subform></template>`
)

// composeDoc is a document that has everything the operations work on.
func composeDoc(layout string) ([]byte, *gen.Crypt) {
	fields := "[40 0 R 44 0 R]"
	if strings.HasSuffix(layout, "~xfa") { // a form of packets only
		layout, fields = strings.TrimSuffix(layout, "~xfa"), "[]"
	}
	page := func(num, parent, n int, extra string) []gen.Obj {
		return []gen.Obj{
			{Num: num, Body: fmt.Sprintf("<</Type/Page/Parent %d 0 R/Contents %d 0 R%s>>", parent, 80+n, extra)},
			{Num: 80 + n, Stream: true, Body: "<<>>", Data: fmt.Sprintf("BT /F1 9 Tf 7 8 Td (page %d) Tj ET", n)},
		}
	}
	objs := []gen.Obj{
		{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R/AcroForm 30 0 R/Outlines 31 0 R/Metadata 94 0 R/Lang(en (1))>>"},
		{Num: 2, Body: "<</Type/Pages/MediaBox[0 0 200 300]/Resources 93 0 R/Rotate 90/Kids[49 0 R 21 0 R]/Count 3>>"},
		{Num: 21, Body: "<</Type/Pages/Parent 2 0 R/Kids[48 0 R 47 0 R]/Count 2>>"},
		{Num: 30, Body: "<</Fields" + fields + "/XFA[(template)70 0 R(config)72 0 R(datasets)71 0 R]/DA(/F1 0 Tf)/NeedAppearances true>>"},
		{Num: 31, Body: "<</Type/Outlines/First 32 0 R/Last 33 0 R/Count 2>>"},
		{Num: 32, Body: "<</Title(first \\(1\\))/Parent 31 0 R/Next 33 0 R/Dest[49 0 R/Fit]>>"},
		{Num: 33, Body: "<</Title<FEFF0416>/Parent 31 0 R/Prev 32 0 R/A<</S/GoTo/D[47 0 R/XYZ 0 1 null]>>>>"},
		{Num: 94, Stream: true, Body: "<</Type/Metadata/Subtype/XML>>", Data: "<x:xmpmeta xmlns:x='adobe:ns:meta/'/>"},
		{Num: 35, Body: "<</Title(doc)/Author<FEFF0416>/Custom(49 0 R)>>"},
		{Num: 40, Body: "<</FT/Tx/T(name)/V(old)/Type/Annot/Subtype/Widget/Rect[1 2 30 40]/P 49 0 R>>"},
		{Num: 44, Body: "<</FT/Btn/T(agree)/V/Off/AS/Off/Type/Annot/Subtype/Widget/Rect[5 6 7 8]/P 48 0 R/AP<</N<</Off 61 0 R/On 60 0 R>>>>>>"},
		{Num: 45, Body: "<</Type/Annot/Subtype/Link/Rect[0 0 1 1]/Dest[47 0 R/Fit]/Contents(link)>>"},
		{Num: 60, Stream: true, Body: "<</Type/XObject/Subtype/Form/BBox[0 0 1 1]>>", Data: "0 0 1 1 re f"},
		{Num: 61, Stream: true, Body: "<</Type/XObject/Subtype/Form/BBox[0 0 1 1]>>", Data: ""},
		{Num: 90, Body: "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>"},
		{Num: 93, Body: "<</Font<</F1 90 0 R>>>>"},
	}
	objs = append(objs, page(49, 2, 1, "/Rotate 180/Annots[40 0 R 45 0 R]")...)
	objs = append(objs, page(48, 21, 2, "/Annots 92 0 R")...)
	objs = append(objs, page(47, 21, 3, "/Rotate 0/MediaBox[0 0 55 66]")...)
	objs = append(objs, gen.Obj{Num: 92, Body: "[44 0 R]"})
	var aux []gen.Obj
	for _, p := range []packet{{"template", composeTmpl, 1, 70}, {"datasets", composeXML, 2, 71}, {"config", "<config/>", 0, 72}} {
		objs = append(objs, p.stored(&aux))
	}
	objs = append(objs, aux...)
	for _, c := range cryptCfgs() {
		if c.name == strings.TrimSuffix(layout, "-direct") {
			k := c.make([]byte("user"), []byte("owner"), -44, cryptID)
			id := fmt.Sprintf("/Root 1 0 R/Info 35 0 R/ID[<%x><%x>]/Encrypt", cryptID, cryptID)
			if strings.HasSuffix(layout, "-direct") {
				b, _ := gen.Build("1.7", []gen.Rev{{Objs: k.Encrypt(objs, 99), Trailer: id + k.Dict()}})
				return b, k
			}
			objs = append(objs, gen.Obj{Num: 99, Body: k.Dict()})
			b, _ := gen.Build("1.7", []gen.Rev{{Objs: k.Encrypt(objs, 99), Trailer: id + " 99 0 R"}})
			return b, k
		}
	}
	return layoutPages(objs, layout, "/Root 1 0 R/Info 35 0 R"), nil
}

// cdoc is a document and its model: the objects that are not pages, and the pages.
type cdoc struct {
	pdf   []byte
	k     *gen.Crypt
	m     *fmodel
	pages []mpage
	info  int
}

// loadDoc reads a document by the strict reader.
func loadDoc(pdf []byte, k *gen.Crypt) (*cdoc, error) {
	f, err := openModel(pdf, k)
	if err != nil {
		return nil, err
	}
	if f.Trailer["Encrypt"] == nil {
		k = nil
	}
	if err := f.CheckRefs(); err != nil {
		return nil, err
	}
	d := &cdoc{pdf: pdf, k: k}
	if d.m, err = modelOf(f); err != nil {
		return nil, err
	}
	if r, ok := f.Trailer["Info"].(ref.Ref); ok {
		d.info = r.N
	}
	for n, o := range d.m.objs {
		switch v := o.(type) {
		case nil:
			delete(d.m.objs, n)
		case ref.Dict:
			if v["Type"] == ref.Name("Page") {
				delete(d.m.objs, n)
			} else if v["Type"] == ref.Name("Pages") {
				d.m.objs[n] = without(v, "Kids", "Count")
			}
		}
	}
	d.m.asTexts()
	d.pages, err = modelPages(f)
	return d, err
}

func (d *cdoc) clone() *cdoc {
	c := *d
	c.m = &fmodel{objs: map[int]ref.Obj{}, root: d.m.root}
	for n, o := range d.m.objs {
		c.m.objs[n] = o
	}
	c.pages = clonePages(d.pages)
	return &c
}

func (d *cdoc) form() ref.Dict { return d.m.dict(d.m.dict(ref.Ref{N: d.m.root})["AcroForm"]) }

func (d *cdoc) hasFields() bool {
	a, _ := d.form()["Fields"].(ref.Arr)
	return len(a) > 0
}

// packetNum is the object of an XFA packet, 0 without it.
func (d *cdoc) packetNum(name string) int {
	a, _ := d.form()["XFA"].(ref.Arr)
	for i := 0; i+1 < len(a); i += 2 {
		if s, ok := a[i].(ref.Str); ok && string(s) == name {
			r, _ := a[i+1].(ref.Ref)
			return r.N
		}
	}
	return 0
}

func (d *cdoc) packetText(n int) string {
	st, _ := d.m.objs[n].(*ref.Stream)
	if st == nil {
		return ""
	}
	b, err := ref.DecodeStream(st)
	if err != nil {
		return "?" + err.Error()
	}
	return string(b)
}

func (d *cdoc) key() string {
	o := d.m.show()
	var ns []int
	for n := range o {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	var b strings.Builder
	fmt.Fprint(&b, d.k != nil, d.pages)
	for _, n := range ns {
		b.WriteString(o[n])
	}
	return b.String()
}

// docOp is an operation on a document. do returns the new document; model applies the same to
// the model and tells whether the operation must succeed. set operations give the pages
// selected, by source, instead.
type docOp struct {
	name  string
	do    func(d *cdoc, pw []byte, step int) ([]byte, error)
	model func(d *cdoc, step int) bool
	set   func(n int) []int // several runs of the same pages are given as one list, parts times
	parts int
}

func manip(f func(m *manipulate.PDFManipulator, step int) error) func(d *cdoc, pw []byte, step int) ([]byte, error) {
	return func(d *cdoc, pw []byte, step int) ([]byte, error) {
		m, err := manipulate.NewPDFManipulator(d.pdf, pw, false)
		if err != nil {
			return nil, fmt.Errorf("OPEN: %v", err)
		}
		if err := f(m, step); err != nil {
			return nil, err
		}
		return m.Rebuild()
	}
}

func composeInserted(step int) (int, string, mpage) {
	num := 400 + 10*step // away from the objects that saving adds
	body := fmt.Sprintf("<</Type/Page/Tag(new%d)/MediaBox[0 0 %d 9]/Resources<<>>/Rotate 270/Parent 7777 0 R>>", step, 100+step)
	d, _ := ref.ParseOne([]byte(body))
	m := mpage{num: num, rot: 270, own: ref.Canon(without(d.(ref.Dict), "Rotate", "Parent")), box: [4]float64{0, 0, float64(100 + step), 9}}
	m.attr = ref.Canon(ref.Dict{"MediaBox": d.(ref.Dict)["MediaBox"], "Resources": d.(ref.Dict)["Resources"]})
	return num, body, m
}

func upTo(n int) (out []int) {
	for i := 1; i <= n; i++ {
		out = append(out, i)
	}
	return
}

func composeOps(full bool) []docOp {
	var ops []docOp
	add := func(name string, do func(d *cdoc, pw []byte, step int) ([]byte, error), model func(d *cdoc, step int) bool) {
		ops = append(ops, docOp{name: name, do: do, model: model})
	}
	add("rotate first", manip(func(m *manipulate.PDFManipulator, _ int) error { return m.RotatePage(1, 270) }), func(d *cdoc, _ int) bool {
		d.pages[0].rot = (d.pages[0].rot + 270) % 360
		return true
	})
	add("rotate all", manip(func(m *manipulate.PDFManipulator, _ int) error { return m.RotateAllPages(90) }), func(d *cdoc, _ int) bool {
		for i := range d.pages {
			d.pages[i].rot = (d.pages[i].rot + 90) % 360
		}
		return true
	})
	add("delete first", manip(func(m *manipulate.PDFManipulator, _ int) error { return m.DeletePage(1) }), func(d *cdoc, _ int) bool {
		if len(d.pages) == 1 {
			return false
		}
		d.pages = d.pages[1:]
		return true
	})
	insert := func(at int) {
		add(fmt.Sprintf("insert %d", at), manip(func(m *manipulate.PDFManipulator, step int) error {
			num, body, _ := composeInserted(step)
			return m.InsertPage(at, num, []byte(body))
		}), func(d *cdoc, step int) bool {
			_, _, p := composeInserted(step)
			if at == 0 {
				d.pages = append(d.pages, p)
				return true
			}
			if at > len(d.pages)+1 {
				return false
			}
			rest := clonePages(d.pages[at-1:])
			d.pages = append(append(d.pages[:at-1], p), rest...)
			return true
		})
	}
	insert(2)
	if full {
		add("delete 2", manip(func(m *manipulate.PDFManipulator, _ int) error { return m.DeletePages([]int{2}) }), func(d *cdoc, _ int) bool {
			if len(d.pages) < 2 {
				return false
			}
			d.pages = append(d.pages[:1], d.pages[2:]...)
			return true
		})
		insert(0)
		add("save", manip(func(m *manipulate.PDFManipulator, _ int) error { return nil }), func(d *cdoc, _ int) bool { return true })
	}
	fill := func(name string, data types.FormData, do func(pdf []byte, data types.FormData, pw []byte) ([]byte, error)) {
		add(name, func(d *cdoc, pw []byte, _ int) ([]byte, error) { return do(d.pdf, data, pw) }, func(d *cdoc, _ int) bool {
			if d.form() == nil {
				return false
			}
			if d.hasFields() {
				for n, v := range data {
					d.m.fill(n, v)
				}
			}
			return true
		})
	}
	fill("fill", types.FormData{"name": "A (1) \\", "agree": true}, func(pdf []byte, data types.FormData, pw []byte) ([]byte, error) {
		return acroform.FillFormFields(pdf, data, pw, false)
	})
	fill("fill other", types.FormData{"name": "Ж", "agree": "Off"}, func(pdf []byte, data types.FormData, pw []byte) ([]byte, error) {
		return acroform.FillFormFieldsWithStreams(pdf, data, pw, false)
	})
	setXFA := func(d *cdoc, name, text string) bool {
		n := d.packetNum(name)
		if n == 0 {
			return false
		}
		d.m.setStream(n, text)
		return true
	}
	setData := func(d *cdoc, values map[string]string) bool {
		n := d.packetNum("datasets")
		if n == 0 {
			return false
		}
		x, err := ref.ParseXML(d.packetText(n))
		if err != nil {
			panic(err)
		}
		setXML(x, values, false, true, map[string]bool{})
		d.m.setStream(n, "XML"+x.String())
		return true
	}
	add("update XFA", func(d *cdoc, pw []byte, _ int) ([]byte, error) {
		p, err := parse.OpenWithOptions(d.pdf, parse.ParseOptions{Password: pw})
		if err != nil {
			return nil, fmt.Errorf("OPEN: %v", err)
		}
		return xfa.UpdateXFAInPDF(d.pdf, types.FormData{"f": "x<&", "absent": 1}, p.Encryption(), false)
	}, func(d *cdoc, _ int) bool { return setData(d, map[string]string{"f": "x<&"}) })
	add("fill through the form", func(d *cdoc, pw []byte, _ int) ([]byte, error) {
		f, err := forms.Extract(d.pdf, pw, false)
		if err != nil {
			return nil, err
		}
		return f.Fill(d.pdf, types.FormData{"name": "both"}, pw, false)
	}, func(d *cdoc, _ int) bool { // a form with fields is filled through them
		if d.form() == nil {
			return false
		}
		if d.hasFields() {
			d.m.fill("name", "both")
			return true
		}
		return setData(d, map[string]string{"name": "both"})
	})
	add("rebuild XFA", func(d *cdoc, pw []byte, _ int) ([]byte, error) {
		p, err := parse.OpenWithOptions(d.pdf, parse.ParseOptions{Password: pw})
		if err != nil {
			return nil, fmt.Errorf("OPEN: %v", err)
		}
		x, err := xfa.ExtractAllXFAStreams(d.pdf, p.Encryption(), false)
		if err != nil {
			return nil, err
		}
		x.Config.Data = []byte("<config a=\"1\"/>")
		return xfa.RebuildPDFFromXFAStreams(d.pdf, x, p.Encryption(), false)
	}, func(d *cdoc, _ int) bool { return setXFA(d, "config", "<config a=\"1\"/>") })
	add("flatten", func(d *cdoc, pw []byte, _ int) ([]byte, error) { return acroform.FlattenForm(d.pdf, pw, false) }, func(d *cdoc, _ int) bool {
		if d.form() == nil {
			return false
		}
		d.m.objs[d.m.root] = without(d.m.dict(ref.Ref{N: d.m.root}), "AcroForm")
		return true
	})
	ops = append(ops,
		docOp{name: "extract", parts: 1, set: func(n int) []int {
			if n == 1 {
				return []int{1}
			}
			return []int{n, 1}
		}, do: func(d *cdoc, pw []byte, _ int) ([]byte, error) {
			l := []int{len(d.pages), 1}
			if len(d.pages) == 1 {
				l = l[:1]
			}
			return manipulate.ExtractPages(d.pdf, l, pw, false)
		}},
		docOp{name: "merge", parts: 2, set: upTo, do: func(d *cdoc, pw []byte, _ int) ([]byte, error) {
			return manipulate.MergePDFs([][]byte{d.pdf, d.pdf}, [][]byte{pw, pw}, false)
		}})
	if full {
		ops = append(ops, docOp{name: "split", parts: 1, set: func(n int) []int { return upTo(min(2, n)) }, do: func(d *cdoc, pw []byte, _ int) ([]byte, error) {
			ps, err := manipulate.SplitPDFByPageCount(d.pdf, 2, pw, false)
			if err != nil {
				return nil, err
			}
			if want := (len(d.pages) + 1) / 2; len(ps) != want {
				return nil, fmt.Errorf("PARTS: %d parts, want %d", len(ps), want)
			}
			return ps[0], nil
		}})
	}
	return ops
}

// xmlView replaces the datasets packet by the tree it stands for.
func (d *cdoc) xmlView() {
	n := d.packetNum("datasets")
	s := d.packetText(n)
	if n == 0 || strings.HasPrefix(s, "XML") {
		return
	}
	x, err := ref.ParseXML(s)
	if err != nil {
		d.m.setStream(n, "XML?"+err.Error())
		return
	}
	d.m.setStream(n, "XML"+x.String())
}

// composeStep runs one operation and returns the document afterwards, nil if it failed or a
// violation was found.
func composeStep(t *core.T, d *cdoc, op docOp, step int, trace string) *cdoc {
	var pw []byte
	if d.k != nil {
		pw = []byte([]string{"user", "owner"}[step%2])
	}
	before := string(d.pdf)
	out, err := op.do(d, pw, step)
	t.Step(1)
	if string(d.pdf) != before {
		t.Fail("input", "%s: the caller's bytes were modified", trace)
		return nil
	}
	fail := func(clause, f string, a ...interface{}) *cdoc {
		t.Attach("before.pdf", d.pdf)
		if out != nil {
			t.Attach("after.pdf", out)
		}
		t.Fail(clause, trace+": "+f, a...)
		return nil
	}
	if op.set != nil {
		if err != nil {
			return fail("result", "%v", err)
		}
		sel := op.set(len(d.pages))
		src, err := openModel(d.pdf, d.k)
		if err != nil {
			panic(err)
		}
		got, err := openModel(out, d.k)
		if err == nil {
			err = got.CheckRefs()
		}
		if err != nil {
			return fail("strict", "%v", err)
		}
		parts := make([]int, op.parts)
		for i := range parts {
			parts[i] = len(sel)
		}
		gs, err := graphsOf(got, parts)
		if err != nil {
			return fail("pages", "%v", err)
		}
		want := graphOf(src, sel)
		for _, g := range gs {
			if g != want {
				return fail("pages", "%s", diffText(g, want))
			}
		}
		n, err := loadDoc(out, d.k)
		if err != nil {
			return fail("strict", "%v", err)
		}
		var a, b []string
		for _, p := range n.pages {
			a = append(a, fmt.Sprint(p.text, p.rot, p.box))
		}
		for i := 0; i < op.parts; i++ {
			for _, x := range sel {
				p := d.pages[x-1]
				b = append(b, fmt.Sprint(p.text, p.rot, p.box))
			}
		}
		if strings.Join(a, ";") != strings.Join(b, ";") {
			return fail("pages", "pages are %v, want %v", a, b)
		}
		if !observe(t, n, pw, fail) {
			return nil
		}
		return n
	}
	want := d.clone()
	ok := op.model(want, step)
	if (err == nil) != ok {
		return fail("result", "error %v, but the operation should succeed: %v", err, ok)
	}
	t.Outcome(fmt.Sprint(op.name, ok))
	if err != nil {
		return nil
	}
	n, err := loadDoc(out, d.k)
	if err != nil {
		return fail("strict", "%v", err)
	}
	if d.k != nil && n.k == nil {
		return fail("protection", "the document is no longer encrypted")
	}
	g := n.clone()
	g.xmlView()
	want.xmlView()
	if x := diffModels(g.m, want.m); x != "" {
		return fail("document", "%s", x)
	}
	if g.info != want.info {
		return fail("document", "the document's information is object %d, was %d", g.info, want.info)
	}
	if fmt.Sprint(g.pages) != fmt.Sprint(want.pages) {
		return fail("pages", "pages are %v, want %v", g.pages, want.pages)
	}
	if !observe(t, n, pw, fail) {
		return nil
	}
	return n
}

// observe compares what the library says about a document with its model.
func observe(t *core.T, d *cdoc, pw []byte, fail func(clause, f string, a ...interface{}) *cdoc) bool {
	t.State(d.key())
	if d.k == nil {
		pw = nil
	}
	doc, err := extract.ExtractContent(d.pdf, pw, false)
	t.Step(1)
	if err != nil {
		fail("extract", "%v", err)
		return false
	}
	var a, b []string
	for i, p := range doc.Pages {
		s := ""
		for _, e := range p.Text {
			s += e.Text
		}
		a = append(a, fmt.Sprint(i, p.PageNumber, s, (p.Rotation%360+360)%360, p.Width, p.Height))
	}
	at := map[int]int{}
	for i, p := range d.pages {
		b = append(b, fmt.Sprint(i, i+1, p.text, p.rot, p.box[2]-p.box[0], p.box[3]-p.box[1]))
		at[p.num] = i + 1
	}
	if x, y := strings.Join(a, ";"), strings.Join(b, ";"); x != y {
		fail("extract", "extraction sees %v, want %v", x, y)
		return false
	}
	// bookmarks lead to the page wherever it is now
	var marks []string
	dest := func(o ref.Obj) string {
		if r, ok := o.(ref.Arr); ok && len(r) > 0 {
			if p, ok := r[0].(ref.Ref); ok {
				if at[p.N] > 0 {
					return fmt.Sprint(at[p.N])
				}
			}
		}
		return "-"
	}
	out := d.m.dict(d.m.dict(ref.Ref{N: d.m.root})["Outlines"])
	for i := d.m.dict(out["First"]); i != nil; i = d.m.dict(i["Next"]) {
		s, _ := textOf(i["Title"])
		to := i["Dest"]
		if to == nil {
			to = d.m.dict(i["A"])["D"]
		}
		marks = append(marks, fmt.Sprintf("%q:%s", s, dest(to)))
	}
	var have []string
	for _, m := range doc.Bookmarks {
		to := "-"
		if m.PageNumber > 0 {
			to = fmt.Sprint(m.PageNumber)
		}
		have = append(have, fmt.Sprintf("%q:%s", m.Title, to))
	}
	if x, y := strings.Join(have, ";"), strings.Join(marks, ";"); x != y {
		fail("bookmarks", "bookmarks %s, want %s", x, y)
		return false
	}
	title, _ := textOf(d.m.dict(ref.Ref{N: d.info})["Title"])
	if got := doc.Metadata; (got == nil) != (title == "") && got == nil || got != nil && got.Title != title {
		fail("metadata", "title of %+v, want %q", got, title)
		return false
	}
	// the form
	kind, err := forms.Detect(d.pdf, pw, false)
	if d.form() == nil {
		if err == nil && kind != forms.FormTypeUnknown {
			fail("form", "a document without a form has a form of type %s", kind)
			return false
		}
	} else {
		if err != nil || (kind == forms.FormTypeXFA) == d.hasFields() || kind == forms.FormTypeUnknown {
			fail("form", "the form has type %s (%v)", kind, err)
			return false
		}
		af, err := acroform.ExtractAcroForm(d.pdf, pw, false)
		if err != nil {
			fail("form", "%v", err)
			return false
		}
		g, w := map[string]string{}, map[string]string{}
		for n, v := range af.GetFieldValues() {
			g[n] = showValue(v)
		}
		if d.hasFields() {
			for n, v := range d.m.values() {
				w[n] = v.(string)
			}
		}
		if x, y := showFields(g), showFields(w); x != y {
			fail("values", "values %s want %s", x, y)
			return false
		}
		p, err := parse.OpenWithOptions(d.pdf, parse.ParseOptions{Password: pw})
		if err != nil {
			fail("open", "%v", err)
			return false
		}
		xs, err := xfa.ExtractAllXFAStreams(d.pdf, p.Encryption(), false)
		if err != nil {
			fail("packets", "%v", err)
			return false
		}
		for _, n := range []string{"template", "datasets", "config"} {
			s := *packetField(xs, n)
			if want := d.packetText(d.packetNum(n)); s == nil || string(s.Data) != want {
				fail("packets", "packet %s is %v, want %q", n, s, want)
				return false
			}
		}
	}
	if d.k != nil {
		if _, err := parse.OpenWithOptions(d.pdf, parse.ParseOptions{Password: []byte("wrong")}); err == nil {
			fail("protection", "the document opens with a wrong password")
			return false
		}
	}
	return true
}

// graphOf is the graph of a selection of pages of an open document.
func graphOf(f *ref.File, sel []int) string {
	g, ps, err := newGrapher(f)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var list []ref.Page
	for i, k := range sel {
		list = append(list, ps[k-1])
		if _, ok := g.page[ps[k-1].Num]; !ok {
			g.page[ps[k-1].Num] = i
		}
	}
	return g.pages(list)
}

func runCompose(c *core.Ctx) {
	ops := composeOps(true)
	n := len(ops)
	deep := map[string]bool{"updated": true, "packed": true, "v4-aestrue---nometafalse": true, "v2r3-128": true, "packed~xfa": true}
	c.ForEach("sequences", len(composeLayouts)*n*n, func(i int) string {
		return fmt.Sprintf("%s/%s/%s", composeLayouts[i%len(composeLayouts)], ops[i/len(composeLayouts)%n].name, ops[i/len(composeLayouts)/n].name)
	}, func(t *core.T, i int) {
		lay := composeLayouts[i%len(composeLayouts)]
		depth := 3
		if c.Thorough() && deep[lay] {
			depth = 4
		}
		pdf, k := composeDoc(lay)
		d, err := loadDoc(pdf, k)
		if err != nil {
			panic(err)
		}
		if i/len(composeLayouts) == 0 {
			if !observe(t, d, []byte("user"), func(clause, f string, a ...interface{}) *cdoc {
				t.Attach("source.pdf", pdf)
				t.Fail(clause, f, a...)
				return nil
			}) {
				return
			}
		}
		var rec func(d *cdoc, step int, trace []string)
		rec = func(d *cdoc, step int, trace []string) {
			for j, op := range ops {
				if step == 0 && j != i/len(composeLayouts)%n || step == 1 && j != i/len(composeLayouts)/n {
					continue
				}
				if op.parts > 1 && len(d.pages) > 12 {
					continue
				}
				tr := append(append([]string{}, trace...), op.name)
				next := composeStep(t, d, op, step, strings.Join(tr, ", "))
				if t.Failed() {
					return
				}
				if next != nil && step+1 < depth {
					rec(next, step+1, tr)
				}
			}
		}
		rec(d, 0, nil)
	})
}
