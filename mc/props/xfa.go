package props

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
)

func init() {
	core.Register(&core.Prop{ID: "P19", Level: "model_checking", Run: runXFA,
		Rule: "A case is one generated document with XFA packets (every set of packets, layout, encryption, storage of the packets and spelling of their list), built, read, rebuilt with a set of changed packets, or one datasets document from a grammar of fields and decoys with one sequence of value updates. Packets are compared byte by byte, rebuilt documents object by object with a model, updated XML node by node with a model through an independent XML reader. Non-trivial: at least one packet is read or one value is set.",
		Assumptions: []string{
			"well-formed XML in UTF-8 with values that XML can carry; of several fields with the same name the first one is set",
			"packets that are in the document are rebuilt; packets are not added to a document that lacks them",
			"XFA given as a list of packets, not as one stream",
		},
	})
}

var packetNames = []string{"template", "datasets", "config", "localeSet", "connectionSet", "stylesheet", "xmp", "signature", "sourceSet"}

func packetField(s *xfa.XFAStreams, name string) **xfa.XFAStreamInfo {
	return map[string]**xfa.XFAStreamInfo{"template": &s.Template, "datasets": &s.Datasets, "config": &s.Config, "localeSet": &s.LocaleSet,
		"connectionSet": &s.ConnectionSet, "stylesheet": &s.Stylesheet, "xmp": &s.XMP, "signature": &s.Signature, "sourceSet": &s.SourceSet}[name]
}

// packetData are the contents of packets.
func packetData(i int) string {
	all := []string{
		`<?xml version="1.0"?><template><subform name="f"><field name="a"/></subform></template>`,
		"<data><field name=\"a\"><value>1</value></field></data>",
		"x", "stream\nendstream endobj 7 0 obj", "(a)[b]<<c>>%d\r\ne\r", "\x00\xff\x80binary\r\n",
		string(deflate("compressed twice", 6)), "\x78\x9c", strings.Repeat("<a/>\n", 900), "\r\n", "xref\ntrailer\nstartxref\n0\n%%EOF\n", "/XFA[(template)9 0 R]/AcroForm 9 0 R",
		"\x4b\x4c\x4a\x06\x00", "é中😀",
	}
	return all[i%len(all)]
}

const nPacketData = 14

// nameSpelling writes a packet name.
func nameSpelling(s string, how int) string {
	switch how {
	case 1:
		return fmt.Sprintf("<%x>", s)
	case 2:
		return fmt.Sprintf("<%X> ", s)
	case 3:
		if len(s)%2 == 0 {
			return escStr([]byte(s), len(s)/2)
		}
		return octStr([]byte(s))
	case 4:
		return "(" + s[:1] + "\\\n" + s[1:] + ")"
	case 5:
		return "%(decoy) 9 0 R\n(" + s + ")"
	}
	return "(" + s + ")"
}

type packet struct {
	name, data string
	filter     int
	num        int
}

// stored is the object of a packet.
func (p packet) stored(aux *[]gen.Obj) gen.Obj {
	o := gen.Obj{Num: p.num, Stream: true, Body: "<</Type/EmbeddedFile/Note(kept)>>", Data: p.data}
	switch p.filter {
	case 1:
		o.Body, o.Data = "<</Type/EmbeddedFile/Filter/FlateDecode>>", string(deflate(p.data, 6))
	case 2:
		o.Body, o.Data = "<</Filter[/ASCIIHexDecode/FlateDecode]/DecodeParms[null null]>>", fmt.Sprintf("%x>", deflate(p.data, 9))
	case 3:
		o.Body, o.Data = "<</Filter/ASCIIHexDecode /Length 3 0 R>>", fmt.Sprintf("%X>", p.data)
		o.Body = "<</Filter/ASCIIHexDecode>>"
	case 4:
		o.Body, o.Data = "<</Filter 80 0 R>>", string(deflate(p.data, 1))
		*aux = append(*aux, gen.Obj{Num: 80, Body: "/FlateDecode"})
	case 5:
		o.Body = "<</Filter[]>>"
	}
	return o
}

// xfaDoc is a document with the packets. form says where the list is: bits 1 list indirect,
// 2 form inline, 4 decoy form in an unused object and in strings.
func xfaDoc(ps []packet, layout string, spell, form int) (pdf []byte, k *gen.Crypt) {
	return xfaDocPw(ps, layout, spell, form, "user", "owner")
}

func xfaDocPw(ps []packet, layout string, spell, form int, user, owner string) (pdf []byte, k *gen.Crypt) {
	var aux []gen.Obj
	var list []string
	var stored []gen.Obj
	for i, p := range ps {
		stored = append(stored, p.stored(&aux))
		name := nameSpelling(p.name, spell)
		if spell == 6 {
			name = fmt.Sprintf("%d 0 R ", 81+i)
			aux = append(aux, gen.Obj{Num: 81 + i, Body: "(" + p.name + ")"})
		}
		sep := []string{"", " ", "\n%c (x) 1 0 R\n"}[(spell+i)%3]
		list = append(list, fmt.Sprintf("%s%s%d 0 R", name, sep, p.num))
	}
	arr := "[" + strings.Join(list, []string{" ", "\n", "%)\r"}[spell%3]) + "]"
	if form&1 == 1 {
		aux = append(aux, gen.Obj{Num: 39, Body: arr})
		arr = " 39 0 R"
	}
	af := "<</Fields[]/XFA" + arr + "/DA(/XFA[\\(template\\)1 0 R])/NeedAppearances false>>"
	cat := "/AcroForm" + af
	if form&2 == 0 {
		aux = append(aux, gen.Obj{Num: 38, Body: af})
		cat = "/AcroForm 38 0 R"
	}
	objs := []gen.Obj{
		{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R/Lang(/AcroForm 37 0 R)" + cat + ">>"},
		{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1>>"},
		{Num: 3, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]>>"},
		{Num: 36, Body: "[(kept) 2 0 R <</A 3 0 R/B(1 0 R)>> null true 1.50]"},
	}
	if form&4 == 4 {
		objs = append([]gen.Obj{{Num: 37, Body: "<</AcroForm 37 0 R/XFA[(template)3 0 R(datasets)36 0 R]/Fields[]>>"}}, objs...)
	}
	objs = append(append(objs, stored...), aux...)
	for _, c := range cryptCfgs() {
		if c.name == strings.TrimSuffix(layout, "-direct") {
			k = c.make([]byte(user), []byte(owner), -44, cryptID)
			id := fmt.Sprintf("/Root 1 0 R/ID[<%x><%x>]/Encrypt", cryptID, cryptID)
			if strings.HasSuffix(layout, "-direct") {
				b, _ := gen.Build("1.7", []gen.Rev{{Objs: k.Encrypt(objs, 90), Trailer: id + k.Dict()}})
				return b, k
			}
			objs = append(objs, gen.Obj{Num: 90, Body: k.Dict()})
			b, _ := gen.Build("1.7", []gen.Rev{{Objs: k.Encrypt(objs, 90), Trailer: id + " 90 0 R"}})
			return b, k
		}
	}
	switch layout {
	case "updated": // the newest revision decides
		var old []gen.Obj
		for _, o := range objs {
			if o.Num >= 38 {
				o = gen.Obj{Num: o.Num, Stream: true, Body: "<</Old true>>", Data: "<old/>"}
			}
			old = append(old, o)
		}
		b, _ := gen.Build("1.7", []gen.Rev{{Objs: old, Trailer: "/Root 1 0 R"}, {XRefStream: true, Objs: objs, Trailer: "/Root 1 0 R", StmBase: 400}})
		return b, nil
	case "length":
		b, _ := gen.Build("1.4", []gen.Rev{{Objs: objs, Trailer: "/Root 1 0 R", StmBase: 400, Opt: gen.Opt{Indirect: true, EOL: "\r\n", StreamEOL: "\r\n"}}})
		return b, nil
	}
	return layoutPages(objs, layout, "/Root 1 0 R"), nil
}

func xfaLayouts() []string {
	l := []string{"table", "packed", "updated", "gen", "length"}
	for _, c := range cryptCfgs() {
		l = append(l, c.name, c.name+"-direct")
	}
	return l
}

func packetsOf(set, data, filter int) []packet {
	var ps []packet
	for i, n := range packetNames {
		if set>>i&1 == 1 {
			f := filter
			if filter < 0 {
				f = (i - filter) % 6
			}
			ps = append(ps, packet{n, packetData(i + data), f, 40 + (i*5+3)%9})
		}
	}
	if data%2 == 1 { // another order
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
	}
	return ps
}

func encInfo(t *core.T, pdf []byte, k *gen.Crypt, pw string) (*types.PDFEncryption, bool) {
	if k == nil {
		return nil, true
	}
	_, e, err := encrypt.DecryptPDF(pdf, []byte(pw), false)
	if err != nil {
		t.Fail("decrypt", "%v", err)
		return nil, false
	}
	return e, true
}

// checkPackets compares what the library extracts with the packets.
func checkPackets(t *core.T, clause string, got *xfa.XFAStreams, ps []packet, numbers bool) {
	seen := map[string]bool{}
	for _, p := range ps {
		seen[p.name] = true
		g := *packetField(got, p.name)
		if g == nil {
			t.Fail(clause, "packet %s is not found", p.name)
			return
		}
		if string(g.Data) != p.data {
			t.Fail(clause, "packet %s is %q, want %q", p.name, clips(string(g.Data)), clips(p.data))
			return
		}
		if numbers && g.ObjectNumber != p.num {
			t.Fail(clause, "packet %s is object %d, reported %d", p.name, p.num, g.ObjectNumber)
		}
		if numbers && g.Compressed != (p.filter >= 1 && p.filter <= 4) {
			t.Fail(clause, "packet %s: compressed is %v", p.name, g.Compressed)
		}
	}
	for _, n := range packetNames {
		if g := *packetField(got, n); !seen[n] && g != nil {
			t.Fail(clause, "packet %s appeared: %q", n, clips(string(g.Data)))
		}
	}
}

func runXFA(c *core.Ctx) {
	lays := xfaLayouts()
	// reading: every layout with every storage, spelling and place of the list
	c.ForEach("read", len(lays)*6*7*8*core.Pick(c, 1, nPacketData), func(i int) string {
		return fmt.Sprintf("%s-f%d-n%d-p%d-%d", lays[i%len(lays)], i/len(lays)%6, i/len(lays)/6%7, i/len(lays)/42%8, i/len(lays)/42/8)
	}, func(t *core.T, i int) {
		lay, filter, spell, form := lays[i%len(lays)], i/len(lays)%6, i/len(lays)/6%7, i/len(lays)/42%8
		set := 1 + (i*37+i/7)%511
		ps := packetsOf(set, i/len(lays)+i/len(lays)/336, filter-6*(i/len(lays)/6%2)-1+1)
		pdf, k := xfaDoc(ps, lay, spell, form)
		t.Attach("xfa.pdf", pdf)
		pw := []string{"user", "owner"}[i%2]
		e, ok := encInfo(t, pdf, k, pw)
		if !ok {
			return
		}
		before := string(pdf)
		got, err := xfa.ExtractAllXFAStreams(pdf, e, false)
		t.Step(1)
		if err != nil {
			t.Fail("extract", "%v", err)
			return
		}
		checkPackets(t, "packets", got, ps, true)
		t.State(fmt.Sprint(lay, set, filter, spell, form))
		t.Outcome(fmt.Sprint(set))
		d, n, err := xfa.FindXFADatasetsStream(pdf, e, false)
		var want *packet
		for j := range ps {
			if ps[j].name == "datasets" {
				want = &ps[j]
			}
		}
		if want == nil && err == nil {
			t.Fail("datasets", "found in a document without them: object %d", n)
		}
		if want != nil && (err != nil || string(d) != want.data || n != want.num) {
			t.Fail("datasets", "%v object %d %q", err, n, clipb(d))
		}
		if string(pdf) != before {
			t.Fail("input", "the caller's bytes were modified")
		}
	})
	// building: every set of packets
	c.ForEach("build", 512*core.Pick(c, 2, nPacketData), func(i int) string { return fmt.Sprintf("%09b-%d", i%512, i/512) }, func(t *core.T, i int) {
		ps := packetsOf(i%512, i/512*7+i, 0)
		s := &xfa.XFAStreams{}
		for _, p := range ps {
			*packetField(s, p.name) = &xfa.XFAStreamInfo{Data: []byte(p.data), ObjectNumber: p.num}
		}
		b, err := xfa.BuildPDFFromXFAStreams(s, false)
		t.Step(1)
		if err != nil {
			t.Fail("build", "%v", err)
			return
		}
		t.Attach("built.pdf", b)
		t.State(fmt.Sprint(i))
		m, err := readModel(b, nil)
		if err != nil {
			t.Fail("strict", "%v", err)
			return
		}
		arr, _ := m.dict(m.dict(ref.Ref{N: m.root})["AcroForm"])["XFA"].(ref.Arr)
		if len(arr) != 2*len(ps) {
			t.Fail("strict", "the list has %d entries, want %d", len(arr), 2*len(ps))
			return
		}
		for j := 0; j < len(arr); j += 2 {
			name, _ := arr[j].(ref.Str)
			r, _ := arr[j+1].(ref.Ref)
			st, _ := m.objs[r.N].(*ref.Stream)
			if st == nil {
				t.Fail("strict", "%s is not a stream", name)
				return
			}
			d, err := ref.DecodeStream(st)
			ok := false
			for _, p := range ps {
				ok = ok || p.name == string(name) && p.data == string(d)
			}
			if !ok {
				t.Fail("strict", "packet %s has %q: %v", name, clipb(d), err)
			}
		}
		if len(ps) == 0 {
			return
		}
		got, err := xfa.ExtractAllXFAStreams(b, nil, false)
		if err != nil {
			t.Fail("reread", "%v", err)
			return
		}
		checkPackets(t, "reread", got, ps, false)
		t.Outcome(fmt.Sprint(i % 512))
	})
	// the builder itself: every sequence of parts, kept in order, compressed as asked
	type xpart struct {
		name, data string
		compress   bool
	}
	var parts []xpart
	for i, n := range []string{"template", "datasets", "xdp:xdp", "a (b) \\\\ c", "preamble"} {
		for _, d := range []string{packetData(i), "", "<x>endstream endobj</x>\r\n"}[:core.Pick(c, 2, 3)] {
			parts = append(parts, xpart{n, d, false}, xpart{n, d, true})
		}
	}
	np, pd := len(parts), 3
	c.ForEach("builder", pow(np+1, pd), func(i int) string { return fmt.Sprint(seqOf(i, np+1, pd)) }, func(t *core.T, i int) {
		var in []write.XFAStreamData
		var ps []xpart
		for _, j := range seqOf(i, np+1, pd) {
			if j < np {
				ps = append(ps, parts[j])
				in = append(in, write.XFAStreamData{Name: parts[j].name, Data: []byte(parts[j].data), Compress: parts[j].compress})
			}
		}
		b, err := write.NewXFABuilder(false).BuildFromXFA(in)
		t.Step(1)
		if err != nil {
			t.Fail("build", "%v", err)
			return
		}
		t.Attach("built.pdf", b)
		m, err := readModel(b, nil)
		if err != nil {
			t.Fail("strict", "%v", err)
			return
		}
		arr, _ := m.dict(m.dict(ref.Ref{N: m.root})["AcroForm"])["XFA"].(ref.Arr)
		if len(arr) != 2*len(ps) {
			t.Fail("strict", "the list has %d entries, want %d", len(arr), 2*len(ps))
			return
		}
		for j, p := range ps {
			name, _ := arr[2*j].(ref.Str)
			r, _ := arr[2*j+1].(ref.Ref)
			st, _ := m.objs[r.N].(*ref.Stream)
			if st == nil || string(name) != p.name {
				t.Fail("strict", "part %d is %q, want %q", j, name, p.name)
				return
			}
			if d, err := ref.DecodeStream(st); err != nil || string(d) != p.data {
				t.Fail("strict", "part %q has %q: %v", name, clipb(d), err)
			}
			if p.data != "" && (st.D["Filter"] != nil) != p.compress {
				t.Fail("strict", "part %q: filter %v, asked for compression: %v", name, st.D["Filter"], p.compress)
			}
			t.State(p.name)
		}
		d, err := parse.Open(b)
		if err != nil {
			t.Fail("reread", "%v", err)
			return
		}
		for j := range ps {
			r := arr[2*j+1].(ref.Ref)
			if got, err := d.StreamContent(r.N); err != nil || string(got) != ps[j].data {
				t.Fail("reread", "part %q reads %q (%v)", ps[j].name, clipb(got), err)
			}
		}
		t.Outcome(fmt.Sprint(len(ps)))
	})
	// rebuilding: every set of changed packets of the documents with all or some packets
	c.ForEach("rebuild", 512*core.Pick(c, 4, len(lays)*3), func(i int) string { return fmt.Sprintf("%09b-%d", i%512, i/512) }, func(t *core.T, i int) {
		lay := lays[(i+i/512)%len(lays)]
		set := 511
		if i/512%2 == 1 {
			set = 1 + (i*73)%511
		}
		filter := i % 6
		if filter == 4 {
			filter = 2
		}
		ps := packetsOf(set, i/512+i, filter)
		spell := i % 7
		pdf, k := xfaDoc(ps, lay, spell, i/3%8)
		t.Attach("xfa.pdf", pdf)
		t.State(fmt.Sprint(lay, set, i%512, filter))
		pw := []string{"user", "owner"}[i/2%2]
		e, ok := encInfo(t, pdf, k, pw)
		if !ok {
			return
		}
		m, err := readModel(pdf, k)
		if err != nil {
			panic(err)
		}
		s := &xfa.XFAStreams{}
		for j := range ps {
			if x := indexOf(packetNames, ps[j].name); i>>x&1 == 1 {
				ps[j].data = "new " + packetData(i+x*3)
				*packetField(s, ps[j].name) = &xfa.XFAStreamInfo{Data: []byte(ps[j].data)}
				m.setStream(ps[j].num, ps[j].data)
			} else if i%3 == 0 {
				*packetField(s, ps[j].name) = &xfa.XFAStreamInfo{Data: nil}
			} else if i%3 == 1 {
				*packetField(s, ps[j].name) = &xfa.XFAStreamInfo{Data: []byte(ps[j].data)}
			}
		}
		out, err := xfa.RebuildPDFFromXFAStreams(pdf, s, e, false)
		t.Step(1)
		if err != nil {
			t.Fail("rebuild", "%v", err)
			return
		}
		t.Attach("rebuilt.pdf", out)
		judgeXFA(t, out, m, k, pw, ps)
		t.Outcome(fmt.Sprint(set, i%512))
	})
	runXFAUpdate(c)
	runXFADatasets(c)
	runXFARead(c)
}

// setStream replaces the data of a stream.
func (m *fmodel) setStream(n int, data string) {
	st := m.objs[n].(*ref.Stream)
	m.objs[n] = &ref.Stream{D: without(st.D, "Filter", "DecodeParms", "Length"), Raw: []byte(data)}
}

func indexOf(a []string, s string) int {
	for i, x := range a {
		if x == s {
			return i
		}
	}
	return -1
}

// judgeXFA compares a written document with the model and its packets.
func judgeXFA(t *core.T, out []byte, m *fmodel, k *gen.Crypt, pw string, ps []packet) {
	got, err := readModel(out, k)
	if err != nil {
		t.Fail("strict", "%v", err)
		return
	}
	if d := diffModels(got, m); d != "" {
		t.Fail("document", "%s", d)
		return
	}
	e, ok := encInfo(t, out, k, pw)
	if !ok {
		return
	}
	if k != nil {
		f, err := ref.Open(out)
		if err != nil || f.Trailer["Encrypt"] == nil {
			t.Fail("protection", "the document is no longer encrypted")
			return
		}
		if _, err := parse.OpenWithOptions(out, parse.ParseOptions{Password: []byte("wrong")}); err == nil {
			t.Fail("protection", "the document opens with a wrong password")
		}
	}
	x, err := xfa.ExtractAllXFAStreams(out, e, false)
	if err != nil {
		t.Fail("reread", "%v", err)
		return
	}
	checkPackets(t, "reread", x, ps, false)
}

// --- updating values -----------------------------------------------------------

// xmlFields are pieces of a datasets document. n is replaced by the field's name.
var xmlFields = []string{
	`<field name="N"><value>old</value></field>`,
	`<field name="N"><value/></field>`,
	`<field name='N'><value>a<b x="1">c</b>d</value><items><text>i</text></items></field>`,
	"<field\n\tid=\"i\" name = \"N\" x='>'\n><desc>d</desc>\n</field >",
	`<field name="N"/>`,
	`<field name="N" id="2" />`,
	`<x:field name="N"><x:value >old &amp; &lt;older&gt;</x:value ></x:field>`,
	`<field name="N"><!--<value>c</value>--><value><![CDATA[</value>]]></value><value>second</value></field>`,
	`<field name="N"><items><value>not it</value></items></field>`,
	`<field name="N"><value a="1" b="2"/>tail</field>`,
	`<field name="N"><field name="inner"><value>in</value></field><value>out</value></field>`,
	`<group><field name="N"><value>g</value></field></group>`,
	`<field name="N"><extra name="N"><value>no</value></extra></field>`,
}

// xmlDecoys are pieces that are not the field N.
var xmlDecoys = []string{
	"", `<!-- <field name="N"><value>c</value></field> -->`, `<desc><![CDATA[<field name="N"><value>c</value></field>]]></desc>`,
	`<other name="N"><value>o</value></other>`, `<field id="N"><value>i</value></field>`, `<field name="N2"><value>two</value></field>`,
	`<fields name="N"><value>o</value></fields>`, `<?pi <field name="N">?>`, `<desc a="&lt;field name=&quot;N&quot;>">text</desc>`, `<field><value>nameless</value></field>`,
}

// xmlFrames are documents around the pieces.
var xmlFrames = []struct {
	src  string
	data bool
}{
	{`<xfa:datasets xmlns:xfa="http://www.xfa.org/schema/xfa-data/1.0/"><xfa:data>%s</xfa:data></xfa:datasets>`, true},
	{`<data>%s</data>`, true},
	{"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<xdp>\n<template><field name=\"N\"><value>t</value></field></template><data >%s</data ><field name=\"N\"><value>after</value></field></xdp>\n", true},
	{`<datasets><dataDescription><field name="N"><value>t</value></field></dataDescription><data>%s</data></datasets>`, true},
	{`<form>%s</form>`, false},
	{`<form><dataset/><!-- <data> -->%s</form>`, false},
}

func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;", "'", "&apos;").Replace(s)
}

// setXML applies the values to the model of a document: in the data element, if there is one.
func setXML(x *ref.XML, data map[string]string, inData, insideOnly bool, done map[string]bool) {
	for _, k := range x.Kids {
		if k.Name == "" || k.Name == "!" || k.Name == "?" {
			continue
		}
		in := inData || k.Local() == "data"
		if v, ok := data[k.Attr["name"]]; ok && k.Local() == "field" && (in || !insideOnly) && !done[k.Attr["name"]] {
			done[k.Attr["name"]] = true
			var text []*ref.XML
			if v != "" {
				text = []*ref.XML{{Text: v}}
			}
			var val *ref.XML
			for _, c := range k.Kids {
				if val == nil && c.Local() == "value" {
					val = c
				}
			}
			if val == nil {
				val = &ref.XML{Name: "value"}
				k.Kids = append(k.Kids, val)
			}
			val.Kids = text
			for _, c := range k.Kids {
				if c != val {
					setXML(&ref.XML{Kids: []*ref.XML{c}}, data, in, insideOnly, done)
				}
			}
			continue
		}
		setXML(k, data, in, insideOnly, done)
	}
}

func hasData(x *ref.XML) bool {
	for _, k := range x.Kids {
		if k.Name != "" && k.Name != "!" && k.Name != "?" && (k.Local() == "data" || hasData(k)) {
			return true
		}
	}
	return false
}

var xmlValues = []interface{}{"new", "", "a<b>&\"c'd", "</value>", "]]>", "tab\tnl\ncr\rcrlf\r\nend", " sp ", "é中😀", "&amp;", 7, -1, 1.5, 1e15, 1234567.875, 0.1, 1e21, true, false, nil, "%s%d", "$1\\1", "<!-- x -->", "<![CDATA["}

func xmlValueText(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	return fmt.Sprint(v)
}

// checkXML updates a document and compares it with the model.
func checkXML(t *core.T, src string, steps []types.FormData, update func(string, types.FormData) (string, error)) {
	m, err := ref.ParseXML(src)
	if err != nil {
		panic(fmt.Sprintf("harness: %v in %s", err, src))
	}
	cur := src
	for _, data := range steps {
		out, err := update(cur, data)
		t.Step(1)
		if err != nil {
			t.Fail("update", "%v of %s: %v", data, clips(cur), err)
			return
		}
		texts := map[string]string{}
		for n, v := range data {
			texts[n] = xmlValueText(v)
		}
		setXML(m, texts, false, hasData(m), map[string]bool{})
		got, err := ref.ParseXML(out)
		if err != nil {
			t.Fail("well-formed", "%v of %q: %v in %q", data, cur, err, out)
			return
		}
		t.State(m.String())
		t.Outcome(m.String())
		if got.String() != m.String() {
			t.Fail("values", "%v of %q\ngave %q\nthat is %s\nwant    %s", data, cur, out, got, m)
			return
		}
		cur = out
	}
}

func runXFAUpdate(c *core.Ctx) {
	names := []string{"f", "a&b", `q"'<>`, "x.y[0]", "é", "$1"}
	body := func(n string, parts ...string) string {
		return strings.ReplaceAll(strings.Join(parts, ""), "N", esc(n))
	}
	// every field shape between every pair of decoys in every document
	nf, nd, nr := len(xmlFields), len(xmlDecoys), len(xmlFrames)
	c.ForEach("values", nf*nd*nd*nr, func(i int) string {
		return fmt.Sprintf("%d-%d-%d-%d", i%nf, i/nf%nd, i/nf/nd%nd, i/nf/nd/nd)
	}, func(t *core.T, i int) {
		n := names[i%len(names)]
		fr := xmlFrames[i/nf/nd/nd]
		src := body(n, strings.Replace(fr.src, "%s", xmlDecoys[i/nf%nd]+xmlFields[i%nf]+xmlDecoys[i/nf/nd%nd], 1))
		v := xmlValues[(i+i/nf)%len(xmlValues)]
		checkXML(t, src, []types.FormData{{n: v}, {n: "again"}, {"absent": 1}}, func(s string, d types.FormData) (string, error) {
			return xfa.UpdateXFAValues(s, d, false)
		})
	})
	// two fields, every shape, and every set of names
	c.ForEach("two", nf*nf*4, func(i int) string { return fmt.Sprintf("%d-%d-%d", i%nf, i/nf%nf, i/nf/nf) }, func(t *core.T, i int) {
		a, b := xmlFields[i%nf], xmlFields[i/nf%nf]
		for x, fr := range xmlFrames[:3] {
			for _, v := range xmlValues[:core.Pick(c, 6, len(xmlValues))] {
				src := strings.Replace(strings.ReplaceAll(fr.src, "N", "p"), "%s", strings.ReplaceAll(a, "N", "p")+"\n"+strings.ReplaceAll(b, "N", "q"), 1)
				data := types.FormData{}
				if i/nf/nf&1 == 1 || x == 1 {
					data["p"] = v
				}
				if i/nf/nf&2 == 2 {
					data["q"] = xmlValues[(i+x)%len(xmlValues)]
				}
				if x == 2 {
					data["inner"] = "I"
				}
				checkXML(t, src, []types.FormData{data}, func(s string, d types.FormData) (string, error) { return xfa.UpdateXFAValues(s, d, false) })
			}
		}
	})
	// through documents: histories of updates
	lays := xfaLayouts()
	steps := []types.FormData{{"f": "A"}, {"f": "B<&", "g": 2}, {"g": "é"}, {"h": true, "absent": "x"}, {"f": "", "h": nil}, {}}
	ds := `<xfa:datasets xmlns:xfa="x"><xfa:data><field name="f"><value>1</value></field><sub><field name="g"/><field name="h"><value>true</value></field></sub></xfa:data></xfa:datasets>`
	tp := `<template><subform name="form"><field name="f"><value>t</value></field></subform></template>`
	depth := core.Pick(c, 2, 3)
	c.ForEach("documents", pow(len(steps), depth)*len(lays)*2, func(i int) string {
		return fmt.Sprintf("%v-%s-%d", seqOf(i/len(lays)/2, len(steps), depth), lays[i%len(lays)], i/len(lays)%2)
	}, func(t *core.T, i int) {
		lay := lays[i%len(lays)]
		wrapper := i/len(lays)%2 == 1
		ps := []packet{{"template", tp, (i + 1) % 4, 40}, {"config", "<config/>", 0, 41}, {"datasets", ds, []int{1, 0, 2, 3}[i/7%4], 43}}
		pdf, k := xfaDoc(ps, lay, i%7, i/5%8)
		t.Attach("xfa.pdf", pdf)
		m, err := readModel(pdf, k)
		if err != nil {
			panic(err)
		}
		cur := pdf
		pw := []string{"user", "owner"}[i%2]
		model, _ := ref.ParseXML(ds)
		for _, si := range seqOf(i/len(lays)/2, len(steps), depth) {
			data := steps[si]
			var out []byte
			if wrapper {
				var key []byte
				if k != nil {
					key = []byte(pw)
				}
				f, err := forms.Extract(cur, key, false)
				if err != nil || f.Type() != forms.FormTypeXFA {
					t.Fail("extract", "%v", err)
					return
				}
				if kind, err := forms.Detect(cur, key, false); err != nil || kind != forms.FormTypeXFA {
					t.Fail("detect", "%v %v", kind, err)
				}
				if _, d, err := forms.ExtractXFA(cur, key, false); err != nil || d == nil {
					t.Fail("extract", "%v", err)
				}
				if i%3 == 0 { // the form remembers its password
					out, err = f.Fill(cur, data, nil, false)
				} else {
					out, err = f.Fill(cur, data, key, false)
				}
				if err != nil {
					t.Fail("fill", "%v", err)
					return
				}
			} else {
				e, ok := encInfo(t, cur, k, pw)
				if !ok {
					return
				}
				if out, err = xfa.UpdateXFAInPDF(cur, data, e, false); err != nil {
					t.Fail("fill", "%v", err)
					return
				}
			}
			t.Step(1)
			t.Attach("filled.pdf", out)
			texts := map[string]string{}
			for n, v := range data {
				texts[n] = xmlValueText(v)
			}
			setXML(model, texts, false, true, map[string]bool{})
			t.State(model.String())
			t.Outcome(model.String())
			got, err := readModel(out, k)
			if err != nil {
				t.Fail("strict", "%v", err)
				return
			}
			st, _ := got.objs[43].(*ref.Stream)
			if st == nil {
				t.Fail("document", "object 43 is gone")
				return
			}
			xml, err := ref.DecodeStream(st)
			if err != nil {
				t.Fail("document", "object 43: %v", err)
				return
			}
			if x, err := ref.ParseXML(string(xml)); err != nil || x.String() != model.String() {
				t.Fail("values", "%v: %q %v\nwant %s", data, xml, err, model)
				return
			}
			m.setStream(43, string(xml))
			ps[2].data = string(xml)
			judgeXFA(t, out, m, k, pw, ps)
			if t.Failed() {
				return
			}
			cur = out
		}
	})
}

// --- datasets --------------------------------------------------------------------

func runXFADatasets(c *core.Ctx) {
	vals := []interface{}{"x", "", 0, -7, 1 << 53, 1.5, 0.1, -1e-7, true, false, "true ", "01", "1e5", "+1", "0x1", "1_000", "NaN", "Inf", "a<b>&\"c'd", "]]>", "a\nb", "é中😀", ".5", "TRUE", "1.50", "null", "&amp;", "tab\tx"}
	show := func(d *types.XFADatasets) string { return showDatasets(d.Fields, d.Groups) }
	var shapes []string
	for n := 0; n <= core.Pick(c, 4, 5); n++ {
		shapes = append(shapes, forests(n)...)
	}
	c.ForEach("datasets", len(shapes)*len(vals), func(i int) string { return fmt.Sprintf("%s-%d", shapes[i%len(shapes)], i/len(shapes)) }, func(t *core.T, i int) {
		n := 0
		names := []string{"a", "b", "a", "Address", "g-1.x"}
		fnames := []string{"f", "f g", "x\"y", "é", "<&>"}
		fields := func() map[string]interface{} {
			m := map[string]interface{}{}
			for j := 0; j < (n+i)%3; j++ {
				v := vals[(i/len(shapes)+n*5+j*3)%len(vals)]
				if s, ok := v.(string); ok && strings.TrimSpace(s) != s {
					v = "s"
				}
				m[fnames[(n+j)%len(fnames)]] = v
			}
			n++
			return m
		}
		ds := &types.XFADatasets{Fields: fields(), Groups: []types.XFAFieldGroup{}}
		var build func(ms []*mark) []types.XFAFieldGroup
		build = func(ms []*mark) []types.XFAFieldGroup {
			out := []types.XFAFieldGroup{}
			for _, m := range ms {
				g := types.XFAFieldGroup{Name: names[n%len(names)], Fields: fields()}
				g.Groups = build(m.kids)
				out = append(out, g)
			}
			return out
		}
		roots, _ := parseForest(shapes[i%len(shapes)])
		ds.Groups = build(roots)
		want := show(ds)
		t.State(want)
		x, err := xfa.DatasetsToXFA(ds, false)
		t.Step(1)
		if err != nil {
			t.Fail("encode", "%s: %v", want, err)
			return
		}
		if y, _ := xfa.DatasetsToXFA(ds, false); y != x {
			t.Fail("deterministic", "%s: two encodings differ", want)
		}
		if _, err := ref.ParseXML(x); err != nil {
			t.Fail("well-formed", "%v in %q", err, x)
			return
		}
		back, err := xfa.ParseXFADatasets(x, false)
		if err != nil {
			t.Fail("decode", "%s: %v", want, err)
			return
		}
		t.Outcome(want)
		if got := show(back); got != want {
			t.Fail("round trip", "got  %s\nwant %s", got, want)
		}
		if again, _ := xfa.DatasetsToXFA(back, false); !bytes.Equal([]byte(again), []byte(x)) {
			t.Fail("round trip", "%s: encoding again differs", want)
		}
		// setting a value and reading it
		for name := range ds.Fields {
			nv := vals[(i+3)%len(vals)]
			if s, ok := nv.(string); ok && strings.TrimSpace(s) != s {
				continue
			}
			up, err := xfa.UpdateXFAValues(x, types.FormData{name: nv}, false)
			if err != nil {
				t.Fail("update", "%v", err)
				return
			}
			b2, err := xfa.ParseXFADatasets(up, false)
			if err != nil || !reflect.DeepEqual(b2.Fields[name], nv) {
				t.Fail("update", "%s set to %#v reads %#v (%v)", name, nv, b2.Fields[name], err)
			}
		}
	})
}

// runXFARead reads values from every spelling of their text.
func runXFARead(c *core.Ctx) {
	spell := []string{"%s", "<![CDATA[%s]]>", "<!-- c -->%s", "%s<?pi x?>", "\n  %s\t", "<![CDATA[]]>%s<!---->"}
	pieces := []string{"a", "1", "true", "<", "&", "]]", ">", "\"", "é😀", "a b", ".5"}
	frames := []string{
		`<data><field name="f">%s</field></data>`,
		`<x:datasets xmlns:x="u"><x:data><field name="other"><value>o</value></field><field id="1" name="f"><desc>d</desc>%s<items>i</items></field></x:data></x:datasets>`,
		`<?xml version="1.0"?><!-- <data/> --><datasets><data><g><field name="f">%s</field></g></data></datasets>`,
	}
	depth := core.Pick(c, 2, 3)
	n := len(pieces) * len(spell)
	c.ForEach("parse", pow(n, depth), func(i int) string { return fmt.Sprint(seqOf(i, n, depth)) }, func(t *core.T, i int) {
		var xml, text string
		for _, k := range seqOf(i, n, depth) {
			sp, pc := spell[k%len(spell)], pieces[k/len(spell)]
			if strings.Contains(sp, "%s]]>") {
				xml += strings.Replace(sp, "%s", pc, 1)
			} else {
				xml += strings.Replace(sp, "%s", strings.ReplaceAll(esc(pc), ">", "&#62;"), 1)
			}
			text += strings.Replace(strings.NewReplacer("<![CDATA[", "", "]]>", "", "<!-- c -->", "", "<?pi x?>", "", "<!---->", "").Replace(sp), "%s", pc, 1)
		}
		want := strings.TrimSpace(text)
		src := strings.Replace(frames[i%len(frames)], "%s", "<value>"+xml+"</value>", 1)
		if _, err := ref.ParseXML(src); err != nil {
			panic(fmt.Sprintf("harness: %v in %s", err, src))
		}
		d, err := xfa.ParseXFADatasets(src, false)
		t.Step(1)
		t.State(src)
		if err != nil {
			t.Fail("parse", "%q: %v", src, err)
			return
		}
		fields := d.Fields
		if i%len(frames) == 2 {
			if len(d.Groups) != 1 || d.Groups[0].Name != "g" || len(d.Fields) != 0 {
				t.Fail("parse", "%q: groups %v", src, d.Groups)
				return
			}
			fields = d.Groups[0].Fields
		}
		got, ok := fields["f"]
		t.Outcome(want)
		if !ok || xmlValueText(got) != want {
			t.Fail("parse", "%q: the value is %#v, want %q", src, got, want)
		}
	})
}

func showDatasets(f map[string]interface{}, gs []types.XFAFieldGroup) string {
	var ks []string
	for k, v := range f {
		ks = append(ks, fmt.Sprintf("%q=%T(%v)", k, v, v))
	}
	sort.Strings(ks)
	out := strings.Join(ks, " ")
	for _, g := range gs {
		out += fmt.Sprintf(" %q{%s}", g.Name, showDatasets(g.Fields, g.Groups))
	}
	return out
}
