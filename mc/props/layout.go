package props

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/core/parse"
)

func init() {
	core.Register(&core.Prop{
		ID: "P06", Level: "model_checking", Run: runLayout,
		Rule:        "A case is one document content written by an independent generator in one legal file layout. Layouts are enumerated by deviation bounding: the default layout, every single deviation and every pair (thorough: every triple) from a menu of about 70 choices the format leaves open (cross-reference table or stream, end-of-line conventions, subsection splits, field widths, predictors, filters, object stream packing, white space, comments, indirect lengths, padding, trailing data). The content read back in standard, byte-perfect and function-level access must equal the content written, whatever the layout. Non-trivial: the file differs from the default layout's bytes.",
		Assumptions: []string{"every generated file is checked legal by the strict oracle first; hybrid-reference files, linearization and object numbers over 70 are outside the bound"},
	})
}

type deviation struct {
	key  string // group: two deviations of one group exclude each other
	name string
	f    func(o *gen.Opt)
}

func deviations() []deviation {
	var d []deviation
	add := func(key, name string, f func(o *gen.Opt)) { d = append(d, deviation{key, name, f}) }
	str := func(key string, set func(o *gen.Opt, v string), vals ...string) {
		for _, v := range vals {
			v := v
			add(key, fmt.Sprintf("%s=%.14q", key, v), func(o *gen.Opt) { set(o, v) })
		}
	}
	str("EOL", func(o *gen.Opt, v string) { o.EOL = v }, "\r\n", "\r", "\n\n", " \n")
	str("EntryEOL", func(o *gen.Opt, v string) { o.EntryEOL = v }, " \r", "\r\n")
	add("Split", "Split", func(o *gen.Opt) { o.Split = true })
	for _, w := range [][3]int{{1, 2, 1}, {1, 3, 2}, {2, 2, 2}, {1, 8, 1}, {0, 4, 1}, {0, 3, 2}, {1, 4, 4}, {3, 5, 3}, {1, 2, 8}} {
		w := w
		add("W", fmt.Sprintf("W=%v", w), func(o *gen.Opt) { o.W = w })
	}
	for _, p := range []int{10, 11, 12, 13, 14, 15} {
		p := p
		add("Filter", fmt.Sprintf("Pred=%d", p), func(o *gen.Opt) { o.Filter, o.Predictor = "Flate", p })
	}
	add("Filter", "Pred=12[]", func(o *gen.Opt) { o.Filter, o.Predictor = "[Flate]", 12 })
	add("Filter", "Pred=12Hex", func(o *gen.Opt) { o.Filter, o.Predictor = "Flate+Hex", 12 })
	str("Filter", func(o *gen.Opt, v string) { o.Filter = v }, "Flate", "Hex", "[Flate]", "Flate+Hex", "A85", "RL")
	add("Indirect", "Indirect", func(o *gen.Opt) { o.Indirect = true })
	for _, n := range []int{60, 700, 6000, 12000} {
		n := n
		add("Pad", fmt.Sprintf("Pad=%d", n), func(o *gen.Opt) { o.DictPad = n })
		add("Pad", fmt.Sprintf("PadLast=%d", n), func(o *gen.Opt) { o.DictPad, o.PadLast = n, true })
	}
	add("Tight", "Tight", func(o *gen.Opt) { o.Tight = true })
	add("Index", "Index", func(o *gen.Opt) { o.Index = true })
	add("PerStm", "PerStm=1", func(o *gen.Opt) { o.PerStm = 1 })
	add("PerStm", "PerStm=2", func(o *gen.Opt) { o.PerStm = 2 })
	str("StmFilter", func(o *gen.Opt, v string) { o.StmFilter = v }, "Flate", "Hex", "[Flate]", "Flate+Hex", "A85", "RL")
	add("StmFilter", "StmPred=12", func(o *gen.Opt) { o.StmFilter, o.StmPredictor = "Flate", 12 })
	add("StmFilter", "StmPred=15", func(o *gen.Opt) { o.StmFilter, o.StmPredictor = "[Flate]", 15 })
	str("StmPad", func(o *gen.Opt, v string) { o.StmPad = v }, "\n", "   \r\n")
	str("StmSep", func(o *gen.Opt, v string) { o.StmSep = v }, "\n", "\r\n\r\n", "\n% note\n")
	str("StreamEOL", func(o *gen.Opt, v string) { o.StreamEOL = v }, "\r\n")
	str("DataEOL", func(o *gen.Opt, v string) { o.DataEOL = v }, "\r\n", "\r", "-")
	str("Header", func(o *gen.Opt, v string) { o.Header = v }, "%\xe2\xe3\xcf\xd3\n", "% 7 0 obj (decoy) endobj\r\n", "%%EOF\n", "\n\n")
	str("BeforeXref", func(o *gen.Opt, v string) { o.BeforeXref = v }, "\n", "% xref trailer startxref\n", "%startxref\n%5\n%%EOF\n", "  ")
	str("XrefHead", func(o *gen.Opt, v string) { o.XrefHead = v }, "\r\n", "\r", " \n")
	add("NoObj0", "NoObj0", func(o *gen.Opt) { o.NoObj0 = true })
	str("Trail", func(o *gen.Opt, v string) { o.Trail = v }, "-", "\r\n", "\r", "\n\n\n")
	str("HeadSep", func(o *gen.Opt, v string) { o.HeadSep = v }, "  ", "\n", "\t", "\r\n")
	str("ObjEOL", func(o *gen.Opt, v string) { o.ObjEOL = v }, " ", "-", "\r\n", "\r", "\n\n", "%endobj comment\n")
	str("EndEOL", func(o *gen.Opt, v string) { o.EndEOL = v }, " ", "-", "\r\n", "\r", "\n% endobj\n")
	str("SXEOL", func(o *gen.Opt, v string) { o.SXEOL = v }, "\r\n", "\r", "\n\n", "  \r\n")
	for _, n := range []int{10, 19} {
		n := n
		add("SXWidth", fmt.Sprintf("SXWidth=%d", n), func(o *gen.Opt) { o.SXWidth = n })
	}
	return d
}

type layoutDoc struct {
	name  string
	revs  []gen.Rev
	want  map[int]string
	no    []int
	nrevs int
}

func layoutDocs() []layoutDoc {
	type o = gen.Obj
	mk := func(name string, stream bool, revs ...gen.Rev) layoutDoc {
		d := layoutDoc{name: name, want: map[int]string{}, nrevs: len(revs)}
		base := 40
		for i := range revs {
			revs[i].XRefStream = stream
			revs[i].StmBase = base
			base += 10
			revs[i].Trailer = "/Root 1 0 R/Info 2 0 R/ID[<00ff>(a\\)b)]"
			for k, ob := range revs[i].Objs {
				if !stream {
					revs[i].Objs[k].Compressed = false
				}
				if ob.Stream {
					d.want[ob.Num] = streamSem(ob.Body, ob.Data)
				} else {
					d.want[ob.Num] = mustCanon(ob.Body)
				}
			}
			for n := range revs[i].Free {
				delete(d.want, n)
				d.no = append(d.no, n)
			}
		}
		d.no = append(d.no, 9, 39)
		d.revs = revs
		return d
	}
	var out []layoutDoc
	for _, s := range []bool{false, true} {
		sfx := "-table"
		if s {
			sfx = "-stream"
		}
		out = append(out, mk("values"+sfx, s, gen.Rev{Objs: []o{
			{Num: 1, Body: "<</Type/Catalog/Pages 3 0 R/Lang(en)>>", Compressed: true},
			{Num: 2, Body: "<</Title(a \\(b\\) endobj)/Author<FEFF00e9>/K[(stream) (endstream)]>>", Compressed: true},
			{Num: 3, Body: "<</Type/Pages/Kids[4 0 R]/Count 1>>"},
			{Num: 4, Body: "<</Type/Page/Parent 3 0 R/MediaBox[0 0 612.5 792]/Contents 5 0 R /A<</B<</C[[[]]]>>>>>>", Compressed: true},
			{Num: 5, Body: "<</K(>>)/L/N#20x>>", Stream: true, Data: "BT (endstream endobj) Tj ET\nendobj\n6 0 obj\n"},
			{Num: 6, Body: "-12.50", Compressed: true},
			{Num: 7, Body: "(plain \\\\ (nested ) string)", Compressed: true},
			{Num: 8, Body: "null"},
			{Num: 10, Body: "[1 2 0 R/X true(]) << >> <>]", Compressed: true},
			{Num: 17, Gen: 3, Body: "/Name#23"},
			{Num: 30, Body: "<</Length 5>>", Compressed: true},
			{Num: 31, Body: "<</S[(<<)(>>)(\\051)]%note >>\n/T 1>>"},
		}}))
		out = append(out, mk("streams"+sfx, s, gen.Rev{Objs: []o{
			{Num: 1, Body: "<</Type/Catalog>>"},
			{Num: 2, Body: "<</Producer(x)>>", Compressed: true},
			{Num: 3, Body: "<<>>", Stream: true, Data: ""},
			{Num: 4, Body: "<</A 1>>", Stream: true, Data: "\r\n"},
			{Num: 5, Body: "<</A 1>>", Stream: true, Data: "x\nendstream\nendobj\nxref\n0 1\ntrailer\n<</Size 1>>\nstartxref\n5\n%%EOF\n"},
			{Num: 6, Body: "<</Filter/FlateDecode>>", Stream: true, Data: string(gen.Flate([]byte("packed data packed data")))},
			{Num: 7, Body: "<</Filter[/ASCIIHexDecode]>>", Stream: true, Data: "48 65>"},
			{Num: 11, Body: "<</T(stream\nendstream)>>", Stream: true, Data: "\x00\xff\r"},
		}}))
		out = append(out, mk("direct"+sfx, s, gen.Rev{Objs: []o{
			{Num: 1, Body: "<</Type/Catalog>>"},
			{Num: 2, Body: "<</Producer(x)>>"},
			{Num: 5, Gen: 2, Body: "<</D 1>>", Stream: true, Data: "five"},
			{Num: 6, Body: "[/A/B]"},
		}}))
		out = append(out, mk("updated"+sfx, s, gen.Rev{Objs: []o{
			{Num: 1, Body: "<</Type/Catalog>>", Compressed: true},
			{Num: 2, Body: "<</Title(old)>>", Compressed: true},
			{Num: 3, Body: "(old three)", Compressed: true},
			{Num: 4, Body: "<</D 1>>", Stream: true, Data: "old four"},
			{Num: 5, Body: "(gone)"},
			{Num: 6, Body: "(kept)", Compressed: true},
		}}, gen.Rev{Objs: []o{
			{Num: 2, Body: "<</Title(new)>>"},
			{Num: 3, Body: "<</D 2>>", Stream: true, Data: "new three %%EOF\n"},
			{Num: 4, Body: "(new four)", Compressed: true},
			{Num: 33, Body: "(added)", Compressed: true},
		}, Free: map[int]int{5: 1}}))
	}
	return out
}

func runLayout(c *core.Ctx) {
	devs := deviations()
	var combos [][]int
	combos = append(combos, nil)
	for i := range devs {
		combos = append(combos, []int{i})
	}
	for i := range devs {
		for j := i + 1; j < len(devs); j++ {
			if devs[i].key != devs[j].key {
				combos = append(combos, []int{i, j})
			}
		}
	}
	if c.Thorough() {
		for i := range devs {
			for j := i + 1; j < len(devs); j++ {
				for k := j + 1; k < len(devs); k++ {
					if devs[i].key != devs[j].key && devs[j].key != devs[k].key && devs[i].key != devs[k].key {
						combos = append(combos, []int{i, j, k})
					}
				}
			}
		}
	}
	c.Note("deviation menu: %d choices; combinations per document: %d", len(devs), len(combos))
	for _, d := range layoutDocs() {
		d := d
		c.ForEach(d.name, len(combos), func(i int) string {
			var n []string
			for _, k := range combos[i] {
				n = append(n, devs[k].name)
			}
			if len(n) == 0 {
				return "default"
			}
			return strings.Join(n, ";")
		}, func(t *core.T, i int) {
			var o gen.Opt
			for _, k := range combos[i] {
				devs[k].f(&o)
			}
			checkLayout(t, d, o)
		})
	}
}

// buildLayout writes a document in one layout; ok is false where the combination is not legal.
func buildLayout(d layoutDoc, o gen.Opt) (pdf []byte, ends []int, ok bool) {
	revs := append([]gen.Rev(nil), d.revs...)
	if o.W[0] == 0 && o.W[1] != 0 { // no type field: plain objects only
		o.NoObj0 = true
		for _, r := range revs {
			for _, ob := range r.Objs {
				if ob.Compressed {
					return nil, nil, false
				}
			}
		}
	}
	for i := range revs {
		revs[i].Opt = o
		if i < len(revs)-1 && o.Trail == "-" {
			revs[i].Opt.Trail = "\n" // something has to separate revisions
		}
	}
	pdf, ends = gen.Build("1.7", revs)
	return pdf, ends, true
}

func checkLayout(t *core.T, d layoutDoc, o gen.Opt) {
	pdf, _, ok := buildLayout(d, o)
	if !ok {
		return
	}
	t.Attach("file.pdf", pdf)
	t.State(string(pdf))
	f, err := ref.Open(pdf)
	if err == nil {
		err = f.CheckAll()
	}
	if err != nil {
		panic("harness: generated file is not legal: " + err.Error())
	}
	for _, perfect := range []bool{false, true} {
		tag := "std"
		if perfect {
			tag = "perfect"
		}
		p, err := parse.OpenWithOptions(pdf, parse.ParseOptions{BytePerfect: perfect})
		t.Step(1)
		if err != nil {
			t.Fail(tag+":open", "open: %v", err)
			continue
		}
		checkObjects(t, f, tag, p, d.want, d.no)
		tr := p.Trailer()
		if tr == nil || tr.RootRef != "1 0 R" || tr.InfoRef != "2 0 R" || tr.EncryptRef != "" {
			t.Fail(tag+":trailer", "trailer %+v", tr)
		}
		if p.Version() != "1.7" {
			t.Fail(tag+":version", "version %q", p.Version())
		}
		if p.IsEncrypted() {
			t.Fail(tag+":encrypted", "reported as encrypted")
		}
		if p.RevisionCount() != d.nrevs {
			t.Fail(tag+":revisions", "RevisionCount %d, want %d", p.RevisionCount(), d.nrevs)
		}
		if !bytes.Equal(p.Bytes(), pdf) || !bytes.Equal(p.Raw(), pdf) {
			t.Fail(tag+":bytes", "Bytes or Raw differs from the input")
		}
	}
	for n, w := range d.want {
		got, err := parse.GetObject(pdf, n, nil, false)
		t.Step(1)
		if err != nil {
			t.Fail("func:get", "GetObject(%d): %v", n, err)
			continue
		}
		ob, err := valueIn(f, got, n)
		if err != nil || semantic(ob) != w {
			t.Fail("func:value", "GetObject(%d) reads %q (%v), want %s", n, clipb(got), err, clips(w))
		}
	}
	for _, n := range d.no {
		if got, err := parse.GetObject(pdf, n, nil, false); err == nil {
			t.Fail("func:ghost", "GetObject(%d) of a missing object returns %q", n, clipb(got))
		}
	}
	t.Outcome(fmt.Sprint(len(f.X), f.Sections))
}

// checkObjects compares the objects of an opened file with the model. Objects of the
// file structure (object and cross-reference streams, lengths) are known to the oracle.
func checkObjects(t *core.T, f *ref.File, tag string, p *parse.PDF, want map[int]string, absent []int) {
	have := map[int]bool{}
	for _, n := range p.Objects() {
		have[n] = true
	}
	for n, w := range want {
		if !have[n] || !p.HasObject(n) {
			t.Fail(tag+":missing", "object %d is missing (have %v)", n, sorted(have))
			continue
		}
		raw, err := p.GetObject(n)
		t.Step(1)
		if err != nil {
			t.Fail(tag+":get", "object %d: %v", n, err)
			continue
		}
		o, err := valueIn(f, raw, n)
		if err != nil {
			t.Fail(tag+":syntax", "object %d returned as %q: %v", n, clipb(raw), err)
			continue
		}
		if got := semantic(o); got != w {
			t.Fail(tag+":value", "object %d: got %s want %s", n, clips(got), clips(w))
		}
	}
	for _, n := range absent {
		if p.HasObject(n) || have[n] {
			t.Fail(tag+":ghost", "object %d exists but was never written or was deleted", n)
		}
		if raw, err := p.GetObject(n); err == nil {
			t.Fail(tag+":ghostget", "object %d does not exist but reads as %q", n, clipb(raw))
		}
		t.Step(1)
	}
	for n := range have {
		if _, ok := want[n]; ok {
			continue
		}
		if e, ok := f.X[n]; !ok || e.T == 0 {
			t.Fail(tag+":extra", "object %d is listed but not in the file", n)
		}
	}
	if p.ObjectCount() != len(have) {
		t.Fail(tag+":objectcount", "ObjectCount %d, %d listed", p.ObjectCount(), len(have))
	}
}
