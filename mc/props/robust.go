package props

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"regexp"
	"runtime/debug"
	"strings"

	"verifmc/core"
	"verifmc/gen"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/resources/font"
	"github.com/benedoc-inc/pdfer/types"
)

func init() {
	core.Register(&core.Prop{ID: "P09", Level: "fault_enumeration", Run: runRobust,
		Rule: "every single corruption (truncation, byte deletion, byte replacement from an alphabet, number replacement, token duplication) at every position of small documents of every kind, and all cyclic reference graphs over a few objects; every public entry point must return (a value or an error) without panic, runaway recursion, hang or memory exhaustion; a case is distinct by (document, outcome vector)",
	})
}

// step runs f and reports a panic of it as its own clause.
func step(t *core.T, name string, sig *strings.Builder, f func() error) {
	defer func() {
		if r := recover(); r != nil {
			t.Fail("panic:"+name, "%s panics: %v\n%s", name, r, panicSite(debug.Stack()))
			sig.WriteByte('P')
		}
	}()
	t.Step(1)
	if err := f(); err != nil {
		sig.WriteByte('e')
	} else {
		sig.WriteByte('.')
	}
}

var siteRe = regexp.MustCompile(`(?m)^\s+(/\S*/(?:pdfer|repo)/\S+:\d+)`)

func panicSite(b []byte) string {
	var out []string
	for _, m := range siteRe.FindAllSubmatch(b, -1) {
		if !bytes.Contains(m[1], []byte("/verif/")) {
			out = append(out, string(m[1]))
		}
		if len(out) == 4 {
			break
		}
	}
	if len(out) == 0 {
		return clips(string(b))
	}
	return strings.Join(out, " < ")
}

type robustDoc struct {
	name string
	pdf  []byte
	pw   string
	kind string // features worth exercising
}

func enc1(v, r, n int, aes bool) *gen.Crypt {
	return gen.NewCrypt(v, r, n, aes, []byte("user"), []byte("owner"), -44, []byte("0123456789abcdef"))
}

const contentOps = "q 1 0 0 1 5 5 cm 0.5 g 1 0 0 RG 10 10 50 20 re f Q BT /F1 12 Tf 72 700 Td (Hello \\(x\\)) Tj T* <414243> Tj [(A)-20(B)] TJ 1 0 0 1 9 9 Tm (q)' ET q /Im1 Do Q 1 w 0 0 m 5 5 l S"

func robustDocs() []robustDoc {
	type o = gen.Obj
	var out []robustDoc
	add := func(name, kind, pw string, stream bool, trailer string, opt gen.Opt, revs ...[]o) {
		var rs []gen.Rev
		for i, objs := range revs {
			if !stream {
				objs = append([]o{}, objs...)
				for k := range objs {
					objs[k].Compressed = false
				}
			}
			rs = append(rs, gen.Rev{XRefStream: stream, Objs: objs, Trailer: trailer, Opt: opt, StmBase: 60 + 5*i})
		}
		b, _ := gen.Build("1.7", rs)
		out = append(out, robustDoc{name, b, pw, kind})
	}
	basic := []o{
		{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R/Outlines 9 0 R>>"},
		{Num: 2, Body: "<</Type/Pages/Kids[3 0 R 10 0 R]/Count 2/MediaBox[0 0 612 792]>>"},
		{Num: 3, Body: "<</Type/Page/Parent 2 0 R/Rotate 90/Contents 4 0 R/Resources<</Font<</F1 5 0 R>>/XObject<</Im1 6 0 R>>>>/Annots[7 0 R 8 0 R]>>", Compressed: true},
		{Num: 4, Body: "<<>>", Stream: true, Data: contentOps},
		{Num: 5, Body: "<</Type/Font/Subtype/Type1/BaseFont/Helvetica/FirstChar 65/Widths[500 600]/Encoding<</BaseEncoding/WinAnsiEncoding/Differences[65/B/Adieresis 70/uni20AC]>>/ToUnicode 13 0 R>>", Compressed: true},
		{Num: 6, Body: "<</Type/XObject/Subtype/Image/Width 2/Height 2/ColorSpace/DeviceRGB/BitsPerComponent 8>>", Stream: true, Data: "abcdefghijkl"},
		{Num: 7, Body: "<</Type/Annot/Subtype/Link/Rect[1 2 3 4]/A<</S/URI/URI(http://x)>>/Border[0 0 1]>>", Compressed: true},
		{Num: 8, Body: "<</Type/Annot/Subtype/Text/Rect[1 2 3 4]/Contents(note)/C[1 0 0]/T(me)>>"},
		{Num: 9, Body: "<</Type/Outlines/First 11 0 R/Last 11 0 R/Count 2>>"},
		{Num: 10, Body: "<</Type/Page/Parent 2 0 R>>"},
		{Num: 11, Body: "<</Title(One)/Parent 9 0 R/Dest[3 0 R/XYZ 0 700 0]/First 12 0 R/Last 12 0 R/Count 1>>"},
		{Num: 12, Body: "<</Title(Two)/Parent 11 0 R/A<</S/GoTo/D[10 0 R/Fit]>>>>", Compressed: true},
		{Num: 13, Body: "<<>>", Stream: true, Data: "1 begincodespacerange <00> <ff> endcodespacerange 1 beginbfchar <41> <0042> endbfchar 2 beginbfrange <50> <52> <0061> <60><61>[<0031><0032>] endbfrange"},
		{Num: 14, Body: "<</Title(T)/Author(A \\(b\\))/CreationDate(D:20240102030405+01'30')/Producer<FEFF00e9>>>"},
	}
	tr := "/Root 1 0 R/Info 14 0 R"
	add("table", "pages", "", false, tr, gen.Opt{}, basic)
	add("stream", "pages", "", true, tr, gen.Opt{}, basic)
	add("updated", "pages", "", false, tr, gen.Opt{}, []o{
		{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"},
		{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1>>"},
		{Num: 3, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]/Contents 4 0 R>>"},
		{Num: 4, Body: "<</Filter/ASCIIHexDecode>>", Stream: true, Data: "42 54>"},
		{Num: 14, Body: "<<>>"},
	}, []o{{Num: 3, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 8 8]/Contents[4 0 R]>>"}, {Num: 5, Body: "(new)"}})
	out = append(out, robustDoc{"packed", func() []byte {
		b, _ := gen.Build("1.7", []gen.Rev{{XRefStream: true, Trailer: "/Root 1 0 R", StmBase: 30, Opt: gen.Opt{Filter: "Flate", StmFilter: "Flate", Predictor: 12, PerStm: 2, Indirect: true}, Objs: []o{
			{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>", Compressed: true},
			{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1>>", Compressed: true},
			{Num: 3, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]/Contents 4 0 R>>", Compressed: true},
			{Num: 4, Body: "<</Filter/FlateDecode>>", Stream: true, Data: string(gen.Flate([]byte("BT (x) Tj ET")))},
		}}})
		return b
	}(), "", "pages"})
	add("acroform", "form", "", false, "/Root 1 0 R", gen.Opt{}, []o{
		{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R/AcroForm 3 0 R>>"},
		{Num: 2, Body: "<</Type/Pages/Kids[10 0 R]/Count 1>>"},
		{Num: 3, Body: "<</Fields[4 0 R 5 0 R 6 0 R 7 0 R]/NeedAppearances true/DA(/Helv 0 Tf)>>"},
		{Num: 4, Body: "<</Type/Annot/Subtype/Widget/FT/Tx/T(name)/V(val)/DV(d)/Ff 2/MaxLen 5/Rect[0 0 9 9]/AA<</K<</S/JavaScript/JS(x)>>>>/AP<</N 11 0 R>>>>"},
		{Num: 5, Body: "<</FT/Btn/T(box)/V/Off/AS/Off/Rect[0 0 9 9]>>"},
		{Num: 6, Body: "<</FT/Ch/T(ch)/Ff 131072/Opt[(a)(b)[(c)(C)]]/V(a)/Rect[0 0 9 9]>>"},
		{Num: 7, Body: "<</T(grp)/Kids[8 0 R 9 0 R]>>"},
		{Num: 8, Body: "<</FT/Tx/T(k1)/Parent 7 0 R/Rect[0 0 9 9]/V(x)>>"},
		{Num: 9, Body: "<</FT/Btn/Ff 32768/T(r)/Parent 7 0 R/Kids[12 0 R]/V/On>>"},
		{Num: 10, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 99 99]/Annots[4 0 R]>>"},
		{Num: 11, Body: "<</Type/XObject/Subtype/Form/BBox[0 0 9 9]>>", Stream: true, Data: "BT (val) Tj ET"},
		{Num: 12, Body: "<</Subtype/Widget/Parent 9 0 R/AS/On/Rect[0 0 9 9]>>"},
	})
	add("acroform-objstm", "form", "", true, "/Root 1 0 R", gen.Opt{}, []o{
		{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R/AcroForm<</Fields[4 0 R]>>>>"},
		{Num: 2, Body: "<</Type/Pages/Kids[]/Count 0>>"},
		{Num: 4, Body: "<</FT/Tx/T(name)/V(val)/Rect[0 0 9 9]>>", Compressed: true},
	})
	add("xfa", "form", "", false, "/Root 1 0 R", gen.Opt{}, []o{
		{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R/AcroForm 3 0 R>>"},
		{Num: 2, Body: "<</Type/Pages/Kids[]/Count 0>>"},
		{Num: 3, Body: "<</Fields[]/XFA[(template)4 0 R(datasets)5 0 R(config)6 0 R]>>"},
		{Num: 4, Body: "<<>>", Stream: true, Data: xfaTemplate},
		{Num: 5, Body: "<<>>", Stream: true, Data: xfaDatasets},
		{Num: 6, Body: "<<>>", Stream: true, Data: "<config><present><pdf><version>1.7</version></pdf></present></config>"},
	})
	for _, e := range []struct {
		n string
		c *gen.Crypt
	}{{"rc40", enc1(1, 2, 5, false)}, {"rc128", enc1(2, 3, 16, false)}, {"aes", enc1(4, 4, 16, true)}} {
		objs := e.c.Encrypt([]o{
			{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"},
			{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1>>"},
			{Num: 3, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]/Contents 4 0 R>>"},
			{Num: 4, Body: "<<>>", Stream: true, Data: "BT (x) Tj ET"},
			{Num: 5, Body: e.c.Dict()},
		}, 5)
		add(e.n, "crypt", "user", false, fmt.Sprintf("/Root 1 0 R/Encrypt 5 0 R/ID[<%X><%X>]", e.c.ID, e.c.ID), gen.Opt{}, objs)
	}
	if b, err := base64.StdEncoding.DecodeString(aes256Doc); err == nil {
		out = append(out, robustDoc{"aes256", b, "user", "crypt"})
	}
	return out
}

const xfaTemplate = `<template xmlns="http://www.xfa.org/schema/xfa-template/3.3/"><subform name="f1"><field name="a"><ui><textEdit/></ui><caption><value><text>A</text></value></caption><validate nullTest="error"/><value><text>x</text></value></field><field name="c"><ui><choiceList/></ui><items><text>1</text><text>2</text></items></field><field name="k"><ui><checkButton/></ui></field></subform></template>`
const xfaDatasets = `<xfa:datasets xmlns:xfa="http://www.xfa.org/schema/xfa-data/1.0/"><xfa:data><f1><a>v&amp;1</a><g><c>2</c></g><k>1</k></f1></xfa:data></xfa:datasets>`

// battery calls every entry point that takes a document.
func battery(t *core.T, d robustDoc, b []byte) string {
	var sig strings.Builder
	pw := []byte(d.pw)
	for _, perfect := range []bool{false, true} {
		step(t, fmt.Sprintf("parse(%v)", perfect), &sig, func() error {
			p, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw, BytePerfect: perfect})
			if err != nil {
				return err
			}
			p.Version()
			p.RevisionCount()
			p.Trailer()
			for _, n := range p.Objects() {
				p.GetObject(n)
				if ro, err := p.GetRawObject(n); err == nil && ro != nil {
					ro.Content()
					ro.StreamData()
				}
			}
			p.GetObject(0)
			p.GetObject(-1)
			if doc := p.Document(); doc != nil {
				for _, r := range doc.Revisions {
					r.RevisionBytes(doc)
					if r.XRef != nil {
						r.XRef.Bytes()
					}
				}
				doc.Bytes()
			}
			return nil
		})
	}
	step(t, "functions", &sig, func() error {
		parse.ParsePDFTrailer(b)
		n := parse.CountRevisions(b)
		for i := 0; i <= min(n, 4)+1; i++ {
			parse.ExtractRevision(b, i)
		}
		sx := int64(bytes.LastIndex(b, []byte("xref")))
		for _, o := range []int64{sx, sx - 5, 0, int64(len(b)), -1} {
			parse.ParseCrossReferenceTable(b, o)
			parse.ParseXRefStream(b, o)
			parse.ParseTraditionalXRefTable(b, o)
			parse.ParseXRefDataRaw(b, o)
			parse.ParseTrailerDataRaw(b, o, len(b))
			parse.ParseRawObjectAt(b, o)
			parse.ParseRawObject(b, 1, 0, o)
			parse.GetDirectObject(b, 1, o, nil, false)
		}
		parse.GetObjectFromStream(b, 1, 60, 0, nil, false)
		parse.FindObjectByNumber(b, 3, nil, false)
		encrypt.ExtractFileID(b, false)
		return nil
	})
	step(t, "decrypt", &sig, func() error {
		dec, e, err := encrypt.DecryptPDF(b, pw, false)
		if err == nil && e != nil {
			encrypt.DecryptPDFObjects(dec, e, false)
		}
		return err
	})
	step(t, "extract", &sig, func() error { _, err := extract.ExtractContent(b, pw, false); return err })
	if d.kind == "pages" {
		step(t, "images", &sig, func() error { _, err := extract.ExtractAllImages(b, pw, false); return err })
		step(t, "delete", &sig, func() error {
			m, err := manipulate.NewPDFManipulator(b, pw, false)
			if err != nil {
				return err
			}
			m.RotatePage(1, 90)
			m.RotateAllPages(180)
			m.DeletePage(1)
			_, err = m.Rebuild()
			return err
		})
		step(t, "extractpages", &sig, func() error { _, err := manipulate.ExtractPages(b, []int{1, 2}, pw, false); return err })
		step(t, "split", &sig, func() error { _, err := manipulate.SplitPDFByPageCount(b, 1, pw, false); return err })
		step(t, "merge", &sig, func() error { _, err := manipulate.MergePDFs([][]byte{b, b}, nil, false); return err })
		step(t, "compare", &sig, func() error {
			r, err := compare.ComparePDFs(b, d.pdf, pw, pw, false)
			if err == nil {
				compare.GenerateReport(r)
				compare.GenerateJSONReport(r)
			}
			return err
		})
	}
	step(t, "forms", &sig, func() error {
		forms.Detect(b, pw, false)
		f, err := forms.Extract(b, pw, false)
		if err != nil || f == nil {
			return err
		}
		f.Schema()
		f.GetValues()
		f.Validate(types.FormData{"name": "abcdefgh", "f1.a": 5})
		return nil
	})
	if d.kind == "form" {
		step(t, "acroform", &sig, func() error {
			af, err := acroform.ExtractAcroForm(b, pw, false)
			if err != nil || af == nil {
				return err
			}
			af.GetFieldValues()
			af.FindFieldByName("grp.k1")
			af.ToFormSchema()
			acroform.ValidateFormData(af, types.FormData{"name": "abcdefgh", "ch": "z"})
			for _, f := range af.Fields {
				acroform.GetFieldAppearance(f, b, nil, false)
			}
			return nil
		})
		step(t, "fill", &sig, func() error {
			_, err := acroform.FillForm(b, types.FormData{"name": "x(y)", "box": true, "ch": "b", "grp.k1": "z"}, pw, false)
			return err
		})
		step(t, "fillstreams", &sig, func() error {
			_, err := acroform.FillFormFieldsWithStreams(b, types.FormData{"name": "x", "grp.k1": "z"}, pw, false)
			return err
		})
		step(t, "flatten", &sig, func() error { _, err := acroform.FlattenForm(b, pw, false); return err })
		step(t, "xfa", &sig, func() error {
			s, err := xfa.ExtractAllXFAStreams(b, nil, false)
			if err != nil {
				return err
			}
			xfa.FindXFADatasetsStream(b, nil, false)
			xfa.RebuildPDFFromXFAStreams(b, s, nil, false)
			xfa.BuildPDFFromXFAStreams(s, false)
			_, err = xfa.UpdateXFAInPDF(b, types.FormData{"a": "new"}, nil, false)
			return err
		})
	}
	return sig.String()
}

type mutation struct {
	name string
	b    []byte
}

var numRe = regexp.MustCompile(`-?\d+`)
var tokRe = regexp.MustCompile(`[A-Za-z]{2,}|<<|>>|\d+ \d+ R|[\[\]()<>/]`)

// mutations enumerates every single corruption of b.
func mutations(b []byte, alphabet string, all bool) []mutation {
	var out []mutation
	cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
	for i := 0; i < len(b); i++ {
		out = append(out, mutation{fmt.Sprintf("cut%d", i), b[:i:i]})
		out = append(out, mutation{fmt.Sprintf("del%d", i), cat(b[:i], b[i+1:])})
		for _, c := range []byte(alphabet) {
			if b[i] != c {
				out = append(out, mutation{fmt.Sprintf("set%d=%02x", i, c), cat(b[:i], []byte{c}, b[i+1:])})
			}
		}
	}
	nums := []string{"0", "-1", "1", "65536", "2147483647", "9223372036854775807", "99999999999999999999", "4.5"}
	for _, m := range numRe.FindAllIndex(b, -1) {
		for _, v := range nums {
			out = append(out, mutation{fmt.Sprintf("num%d=%s", m[0], v), cat(b[:m[0]], []byte(v), b[m[1]:])})
		}
		// every small reference target
		for v := 2; v < 16; v++ {
			out = append(out, mutation{fmt.Sprintf("num%d=%d", m[0], v), cat(b[:m[0]], []byte(fmt.Sprint(v)), b[m[1]:])})
		}
	}
	for _, m := range tokRe.FindAllIndex(b, -1) {
		out = append(out, mutation{fmt.Sprintf("tokdel%d", m[0]), cat(b[:m[0]], b[m[1]:])})
		out = append(out, mutation{fmt.Sprintf("tokdup%d", m[0]), cat(b[:m[1]], b[m[0]:m[1]], b[m[1]:])})
	}
	return out
}

func runRobust(c *core.Ctx) {
	alpha := core.Pick(c, "\x00(/>9", "\x00 \n()<>[]/%09-.R\xff\\")
	for _, d := range robustDocs() {
		d := d
		ms := mutations(d.pdf, alpha, c.Thorough())
		c.ForEach("doc-"+d.name, len(ms), func(i int) string { return ms[i].name }, func(t *core.T, i int) {
			b := append([]byte(nil), ms[i].b...)
			t.Attach("input.pdf", b)
			s := battery(t, d, b)
			t.State(d.name + "|" + s)
			t.Outcome(s)
		})
	}
	robustGraphs(c)
	robustFonts(c)
	robustText(c)
}

func robustFonts(c *core.Ctx) {
	for _, fm := range []int{4, 40, 12} {
		f := gen.TTF{UPM: 1000, Ascent: 800, Descent: -200, Advances: []int{500, 600}, Glyphs: 3, Plat: 3, Enc: 1,
			Cmap: map[rune]int{'A': 1, 'B': 2, 'a': 1}, Format: fm, Names: map[int]string{1: "Fam", 6: "PS"}, OS2: true}
		b := f.Bytes()
		var ms []mutation
		ms = mutations(b, "\x00\x01\x7f\x80\xff", true)
		for i := 0; i+1 < len(b); i++ { // 16 bit fields
			for _, v := range []int{0xffff, 0x7fff, 0x0100} {
				x := append([]byte(nil), b...)
				x[i], x[i+1] = byte(v>>8), byte(v)
				ms = append(ms, mutation{fmt.Sprintf("u16@%d=%x", i, v), x})
			}
			if i+3 < len(b) {
				x := append([]byte(nil), b...)
				x[i], x[i+1], x[i+2], x[i+3] = 0xff, 0xff, 0xff, 0xff
				ms = append(ms, mutation{fmt.Sprintf("u32@%d", i), x})
			}
		}
		c.ForEach(fmt.Sprintf("font-fmt%d", fm), len(ms), func(i int) string { return ms[i].name }, func(t *core.T, i int) {
			t.Attach("font.ttf", ms[i].b)
			var sig strings.Builder
			step(t, "font", &sig, func() error {
				ft, err := font.NewFont("F", ms[i].b)
				if err != nil {
					return err
				}
				ft.AddString("AaBé")
				ft.GetSubsetGlyphs()
				ft.GetWidths()
				ft.CreateSubsetFont()
				b := write.NewSimplePDFBuilder()
				_, err = b.AddPage(write.PageSize{Width: 10, Height: 10}).AddEmbeddedFont(ft)
				return err
			})
			t.State(fmt.Sprintf("font%d|%s", fm, sig.String()))
			t.Outcome(sig.String())
		})
	}
}

// robustText corrupts the inputs that are not documents.
func robustText(c *core.Ctx) {
	type in struct {
		name string
		src  string
		f    func(s string) error
	}
	fd := func(s string) error {
		d := extract.NewFontDecoder("F")
		d.ParseToUnicodeCMap(s)
		d.ParseDifferencesArray(s)
		d.SetBaseEncoding("WinAnsiEncoding")
		d.Decode([]byte("ABPQ`a\xff"))
		d.DecodeHex(s)
		return nil
	}
	ins := []in{
		{"tounicode", "1 begincodespacerange <00> <ff> endcodespacerange 1 beginbfchar <41> <0042> endbfchar 2 beginbfrange <50> <52> <0061> <60> <61> [<0031> <0032>] endbfrange", fd},
		{"differences", "65/A/Aacute 90 /uni20AC /u1F600 /g12 /a 95/zero", fd},
		{"datasets", xfaDatasets, func(s string) error {
			d, err := xfa.ParseXFADatasets(s, false)
			if err == nil {
				_, err = xfa.DatasetsToXFA(d, false)
			}
			xfa.UpdateXFAValues(s, types.FormData{"a": "n"}, false)
			xfa.UpdateXFAFieldValues(s, types.FormData{"a": "n"}, false)
			return err
		}},
		{"template", xfaTemplate, func(s string) error {
			d, err := xfa.ParseXFAForm(s, false)
			if err == nil {
				_, err = xfa.FormToXFA(d, false)
			}
			parse.ParseXFAFields(s, false)
			return err
		}},
		{"config", `<config><present><pdf><version>1.7</version><compression><level>6</level></compression></pdf></present><trace><area level="1"/></trace></config>`, func(s string) error {
			d, err := xfa.ParseXFAConfig(s, false)
			if err == nil {
				_, err = xfa.ConfigToXFA(d, false)
			}
			return err
		}},
		{"localeset", `<localeSet><locale name="en" desc="English"><calendarSymbols name="gregorian"><monthNames><month>January</month></monthNames></calendarSymbols><datePatterns><datePattern name="full">D</datePattern></datePatterns></locale></localeSet>`, func(s string) error {
			d, err := xfa.ParseXFALocaleSet(s, false)
			if err == nil {
				_, err = xfa.LocaleSetToXFA(d, false)
			}
			return err
		}},
		{"connectionset", `<connectionSet><wsdlConnection name="w" dataDescription="d"><wsdlAddress>http://x</wsdlAddress><operation>op</operation></wsdlConnection></connectionSet>`, func(s string) error {
			d, err := xfa.ParseXFAConnectionSet(s, false)
			if err == nil {
				_, err = xfa.ConnectionSetToXFA(d, false)
			}
			return err
		}},
		{"stylesheet", `<stylesheet><style name="s" type="t"><property name="p">v</property></style></stylesheet>`, func(s string) error {
			d, err := xfa.ParseXFAStylesheet(s, false)
			if err == nil {
				_, err = xfa.StylesheetToXFA(d, false)
			}
			return err
		}},
		{"jpeg", "\xff\xd8\xff\xe0\x00\x04JF\xff\xc0\x00\x11\x08\x00\x02\x00\x03\x03\x01\x11\x00\x02\x11\x01\x03\x11\x01\xff\xda\x00\x02\xff\xd9", func(s string) error {
			_, err := write.NewPDFWriter().AddJPEGImage([]byte(s), "j")
			write.NewPDFWriter().AddImage([]byte(s), "j")
			return err
		}},
		{"pdfstream", "12 0 obj\n<</A(x)>>\nendobj %c\n[1 2 R]", func(s string) error {
			st := xfa.NewPDFStream([]byte(s))
			for i := 0; i < 5; i++ {
				st.ReadByte()
				st.Peek(3)
				st.Seek(int64(i*7), 0)
				st.Read(4)
			}
			xfa.ReadObjectFromXRef([]byte(s), 12, 0, 0, nil, false)
			xfa.DecompressStream([]byte(s))
			return nil
		}},
	}
	for _, x := range ins {
		x := x
		ms := mutations([]byte(x.src), "\x00 <>[]/&\"'=09\xff", true)
		c.ForEach("text-"+x.name, len(ms), func(i int) string { return ms[i].name }, func(t *core.T, i int) {
			t.Attach("input", ms[i].b)
			var sig strings.Builder
			step(t, x.name, &sig, func() error { return x.f(string(ms[i].b)) })
			t.State(x.name + "|" + sig.String())
		})
	}
}

// robustGraphs enumerates every reference graph over a few objects: page trees, outlines, form fields,
// stream lengths, object streams and cross-reference chains with cycles, shared and missing targets.
func robustGraphs(c *core.Ctx) {
	type o = gen.Obj
	// three page-tree nodes, each with up to two kids out of {2,3,4,5(missing)}
	kid := []string{"", "2 0 R", "3 0 R", "4 0 R", "5 0 R", "1 0 R"}
	n := len(kid)
	c.ForEach("graph-pages", n*n*n*n, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		a, b, x, y := kid[i%n], kid[i/n%n], kid[i/n/n%n], kid[i/n/n/n]
		pdf, _ := gen.Build("1.7", []gen.Rev{{Trailer: "/Root 1 0 R", Objs: []o{
			{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"},
			{Num: 2, Body: "<</Type/Pages/Kids[" + a + " " + b + "]/Count 2>>"},
			{Num: 3, Body: "<</Type/Pages/Parent 2 0 R/Kids[" + x + "]/Count 1>>"},
			{Num: 4, Body: "<</Type/Page/Parent " + y + "/Contents 4 0 R>>"},
		}}})
		if y == "" {
			return
		}
		t.Attach("input.pdf", pdf)
		t.State("pages" + battery(t, robustDoc{name: "g", pdf: pdf, kind: "pages"}, pdf))
	})
	ref := []string{"", "9 0 R", "11 0 R", "12 0 R", "13 0 R"}
	m := len(ref)
	ent := func(k, v string) string {
		if v == "" {
			return ""
		}
		return "/" + k + " " + v
	}
	c.ForEach("graph-outlines", m*m*m*m*m, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		v := func() string { s := ref[i%m]; i /= m; return s }
		pdf, _ := gen.Build("1.7", []gen.Rev{{Trailer: "/Root 1 0 R", Objs: []o{
			{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R/Outlines 9 0 R>>"},
			{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1>>"},
			{Num: 3, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]>>"},
			{Num: 9, Body: "<</Type/Outlines" + ent("First", v()) + "/Count 2>>"},
			{Num: 11, Body: "<</Title(A)" + ent("First", v()) + ent("Next", v()) + ">>"},
			{Num: 12, Body: "<</Title(B)" + ent("First", v()) + ent("Next", v()) + ">>"},
		}}})
		t.Attach("input.pdf", pdf)
		var sig strings.Builder
		step(t, "extract", &sig, func() error { _, err := extract.ExtractContent(pdf, nil, false); return err })
		t.State("outlines" + sig.String())
	})
	fk := []string{"", "4 0 R", "5 0 R", "6 0 R", "7 0 R", "4 0 R 5 0 R"}
	q := len(fk)
	c.ForEach("graph-fields", q*q*q*q*q, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		v := func() string { s := fk[i%q]; i /= q; return s }
		par := func() string { s := v(); return ent("Parent", strings.SplitAfter(s, "R")[0]) }
		pdf, _ := gen.Build("1.7", []gen.Rev{{Trailer: "/Root 1 0 R", Objs: []o{
			{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R/AcroForm 3 0 R>>"},
			{Num: 2, Body: "<</Type/Pages/Kids[]/Count 0>>"},
			{Num: 3, Body: "<</Fields[" + v() + "]>>"},
			{Num: 4, Body: "<</FT/Tx/T(a)/V(x)/Kids[" + v() + "]" + par() + ">>"},
			{Num: 5, Body: "<</FT/Btn/T(b)/V/Off/Kids[" + v() + "]" + par() + ">>"},
			{Num: 6, Body: "<</FT/Ch/T(c)/Opt[(x)]>>"},
		}}})
		t.Attach("input.pdf", pdf)
		t.State("fields" + battery(t, robustDoc{name: "g", pdf: pdf, kind: "form"}, pdf))
	})
	// lengths, /Prev and object streams that refer to each other
	tgt := []string{"4 0 R", "5 0 R", "6 0 R", "7 0 R", "0 0 R", "1 0 R"}
	k := len(tgt)
	c.ForEach("graph-lengths", k*k*k, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		var b bytes.Buffer
		var offs []int
		put := func(n int, s string) { offs = append(offs, b.Len()); fmt.Fprintf(&b, "%d 0 obj\n%s\nendobj\n", n, s) }
		b.WriteString("%PDF-1.7\n")
		put(1, "<</Type/Catalog/Pages 2 0 R>>")
		put(2, "<</Type/Pages/Kids[3 0 R]/Count 1>>")
		put(3, "<</Type/Page/Parent 2 0 R/Contents[4 0 R 5 0 R]>>")
		put(4, "<</Length "+tgt[i%k]+">>\nstream\nBT ET\nendstream")
		put(5, "<</Length "+tgt[i/k%k]+"/Type/ObjStm/N 1/First 4>>\nstream\n6 0 5\nendstream")
		put(6, tgt[i/k/k])
		x := b.Len()
		fmt.Fprintf(&b, "xref\n0 7\n0000000000 65535 f \n")
		for _, o := range offs {
			fmt.Fprintf(&b, "%010d 00000 n \n", o)
		}
		fmt.Fprintf(&b, "trailer\n<</Size 7/Root 1 0 R/Prev %d>>\nstartxref\n%d\n%%%%EOF\n", x, x)
		pdf := b.Bytes()
		t.Attach("input.pdf", pdf)
		t.State("lengths" + battery(t, robustDoc{name: "g", pdf: pdf, kind: "pages"}, pdf))
	})
	// object streams whose container is itself compressed, in every pairing
	c.ForEach("graph-objstm", 5*5*5, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		var b bytes.Buffer
		b.WriteString("%PDF-1.7\n")
		o1 := b.Len()
		b.WriteString("1 0 obj\n<</Type/ObjStm/N 2/First 8/Length 30>>\nstream\n2 0 3 6 <<>>  <</Type/Catalog>>  \nendstream\nendobj\n")
		x := b.Len()
		e := []byte{}
		tg := []int{0, 1, 2, 3, 4}
		e = append(e, 0, 0, 0, 0)
		if i%5 == 0 {
			e = append(e, 1, byte(o1>>8), byte(o1), 0)
		} else {
			e = append(e, 2, 0, byte(tg[i%5]), 0)
		}
		e = append(e, 2, 0, byte(tg[i/5%5]), 0)
		e = append(e, 2, 0, byte(tg[i/25]), 1)
		e = append(e, 1, byte(x>>8), byte(x), 0)
		fmt.Fprintf(&b, "4 0 obj\n<</Type/XRef/Size 5/W[1 2 1]/Root 3 0 R/Length %d>>\nstream\n%s\nendstream\nendobj\nstartxref\n%d\n%%%%EOF\n", len(e), e, x)
		pdf := b.Bytes()
		t.Attach("input.pdf", pdf)
		t.State("objstm" + battery(t, robustDoc{name: "g", pdf: pdf, kind: "pages"}, pdf))
	})
}
