package props

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/types"
)

func init() {
	core.Register(&core.Prop{
		ID: "P26", Level: "model_checking", Run: runSections,
		Rule:        "A case is one legal file: a document in one layout (every single and every pair of deviations from the default layout), an update history, a spelling of the trailer, a file with texts that look like structure, or an encrypted file. Every cross-reference section of it is read by the strict oracle, and everything pdfer's section, trailer, location and object readers report about every revision, section, position and object number must be what the oracle read there. Non-trivial: every case (each has at least one section and several objects).",
		Assumptions: []string{"inputs are legal PDF (checked by the strict oracle); hybrid-reference and linearized files are outside the generator"},
	})
}

func runSections(c *core.Ctx) {
	runTrailers(c)
	runDecoys(c)
	runFreeLists(c)
	runSectionCrypt(c)
	devs := deviations()
	for _, d := range layoutDocs() {
		d := d
		var combos [][]int
		combos = append(combos, nil)
		for i := range devs {
			combos = append(combos, []int{i})
			for j := i + 1; j < len(devs); j++ {
				if devs[i].key != devs[j].key && (c.Thorough() || strings.HasPrefix(d.name, "updated")) {
					combos = append(combos, []int{i, j})
				}
			}
		}
		c.ForEach("layout-"+d.name, len(combos), func(i int) string {
			n := []string{"default"}
			for _, k := range combos[i] {
				n = append(n, devs[k].name)
			}
			return strings.Join(n, ";")
		}, func(t *core.T, i int) {
			var o gen.Opt
			for _, k := range combos[i] {
				devs[k].f(&o)
			}
			pdf, ends, ok := buildLayout(d, o)
			if !ok {
				return
			}
			checkSections(t, pdf, ends, nil, nil)
		})
	}
	for gi, opt := range []gen.Opt{{}, {PerStm: 1, Indirect: true, EOL: "\r\n", EntryEOL: "\r\n", Filter: "Flate", Predictor: 12, Split: true}} {
		hists := enumHist(core.Pick(c, 2, 3), 2, []string{"d-", "s-", "c-", "--", "cd", "ss"})
		opt := opt
		c.ForEach(fmt.Sprintf("history%d", gi), len(hists), func(i int) string {
			var p []string
			for _, r := range hists[i] {
				p = append(p, r.String())
			}
			return strings.Join(p, ".")
		}, func(t *core.T, i int) {
			pdf, ends, _ := buildHistory(hists[i], opt)
			checkSections(t, pdf, ends, nil, nil)
		})
	}
}

// runTrailers spells the trailer entries in every way.
func runTrailers(c *core.Ctx) {
	roots := []string{"/Root 1 0 R", "/Root  1\r\n0\nR", "/Root\f1\f0\t R"}
	infos := []string{"", "/Info 2 0 R", "/Info\n2\t0 R"}
	ids := []string{"", "/ID[<00fF><>]", "/ID [ (a\\)b\\\\\\061) <4 1> ]", "/ID[(x>>y)%]\n(<<)]", "/ID[(same)(same)]"}
	noise := []string{"", "/A<</Root 9 0 R/Info 9 0 R/Prev 9/ID[<09>]/Size 9>>", "/B(/Root 9 0 R>>/Info 9 0 R startxref\n5\n)", "%/Root 9 0 R /Info 9 0 R>>\n", "/RootX 9 0 R/XInfo 9 0 R", "/L[[/Root 9 0 R][/Info]]", "/P(" + strings.Repeat("p", 6000) + ")", "/U(<<<<)/V(%%EOF)"}
	type tc struct {
		s, r, i, d, n int
		after, upd    bool
	}
	var cases []tc
	for s := 0; s < 4; s++ {
		for r := range roots {
			for i := range infos {
				for d := range ids {
					for n := range noise {
						for _, after := range []bool{false, true} {
							if !c.Thorough() && count(r > 0, i == 2, d > 1, n > 0 && after) > 1 {
								continue
							}
							cases = append(cases, tc{s, r, i, d, n, after, (r+i+d+n)%2 == 0})
						}
					}
				}
			}
		}
	}
	c.ForEach("trailers", len(cases), func(i int) string { return fmt.Sprintf("%+v", cases[i]) }, func(t *core.T, i int) {
		k := cases[i]
		tr := roots[k.r] + infos[k.i] + ids[k.d]
		if k.after {
			tr += noise[k.n]
		} else {
			tr = noise[k.n] + tr
		}
		objs := []gen.Obj{{Num: 1, Body: "<</Type/Catalog/K 1>>"}, {Num: 2, Body: "<</Title(t)>>"}, {Num: 3, Body: "<<>>", Stream: true, Data: "x"}}
		revs := []gen.Rev{{Objs: objs, XRefStream: k.s&1 == 1, Trailer: tr, StmBase: 20}}
		if k.upd || k.s >= 2 {
			revs[0].Trailer = "/Root 2 0 R/Info 1 0 R/ID[<aa><bb>]"
			revs = append(revs, gen.Rev{Objs: []gen.Obj{{Num: 3, Body: "(new)"}}, XRefStream: k.s == 0 || k.s == 3, Trailer: tr, StmBase: 30})
		}
		pdf, ends := gen.Build("1.7", revs)
		checkSections(t, pdf, ends, nil, nil)
	})
}

// runDecoys puts texts that look like parts of the file structure into strings, streams and comments.
func runDecoys(c *core.Ctx) {
	texts := []string{
		"7 0 obj\n(decoy)\nendobj\n", "\n3 0 obj (decoy) endobj ", "9 0 obj<</Decoy true>>endobj", "\n39 0 obj\n<</Length 3>>\nstream\nabc\nendstream\nendobj\n",
		"xref\n0 2\n0000000000 65535 f \n0000000009 00000 n \n", "trailer\n<</Root 9 0 R/Info 9 0 R>>\n", "startxref\n9\n%%EOF\n", "\nstartxref\n0\n", "%%EOF", "/Type/XRef /W[1 1 1]", "/Type /XRef", "endstream endobj", "<</Type/Catalog>>", "123 0 obj",
	}
	kinds := []string{"string", "stream", "comment", "packed"}
	c.ForEach("decoys", len(texts)*len(kinds)*4, func(i int) string {
		return fmt.Sprintf("%q in %s, variant %d", texts[i%len(texts)], kinds[i/len(texts)%len(kinds)], i/len(texts)/len(kinds))
	}, func(t *core.T, i int) {
		text, kind, v := texts[i%len(texts)], kinds[i/len(texts)%len(kinds)], i/len(texts)/len(kinds)
		stream := v&1 == 1
		o := gen.Opt{}
		decoy := gen.Obj{Num: 4, Body: "(" + text + ")", Compressed: kind == "packed" && stream}
		switch kind {
		case "stream":
			decoy = gen.Obj{Num: 4, Body: "<<>>", Stream: true, Data: text}
		case "comment":
			o.BeforeXref = "% " + strings.ReplaceAll(strings.ReplaceAll(text, "\n", " "), "%%EOF", "%EOF") + "\n"
			decoy = gen.Obj{Num: 4, Body: "(four)"}
		}
		objs := []gen.Obj{{Num: 1, Body: "<</Type/Catalog>>"}, {Num: 2, Body: "<</Title(t)>>"}, {Num: 3, Body: "(three)", Compressed: stream}, {Num: 13, Body: "(thirteen)"}, decoy}
		revs := []gen.Rev{{Objs: objs, XRefStream: stream, Trailer: "/Root 1 0 R/Info 2 0 R", StmBase: 20, Opt: o}}
		again := decoy
		again.Compressed = kind == "packed" && !stream
		if v&2 == 2 {
			revs = append(revs, gen.Rev{Objs: []gen.Obj{{Num: 7, Body: "(seven)", Compressed: !stream}, again}, Free: map[int]int{3: 1}, XRefStream: !stream, Trailer: "/Root 1 0 R/Info 13 0 R", StmBase: 30, Opt: o})
			revs = append(revs, gen.Rev{Objs: []gen.Obj{{Num: 13, Body: "(again)", Compressed: stream}}, Free: map[int]int{7: 1}, XRefStream: stream, Trailer: "/Root 1 0 R", StmBase: 35, Opt: o})
		}
		pdf, ends := gen.Build("1.7", revs)
		checkSections(t, pdf, ends, nil, nil)
	})
}

// runFreeLists links free entries, whose numbers may look like offsets.
func runFreeLists(c *core.Ctx) {
	nums := []int{3, 90, 150, 400, 700}
	c.ForEach("free-lists", 1<<len(nums)*2*2, func(i int) string { return fmt.Sprintf("set %b stream %v next %d", i>>2, i&1 == 1, i>>1&1) }, func(t *core.T, i int) {
		stream, set := i&1 == 1, i>>2
		first := gen.Rev{XRefStream: stream, Trailer: "/Root 1 0 R", StmBase: 800, Objs: []gen.Obj{{Num: 1, Body: "<</Type/Catalog/Pad(" + strings.Repeat("x", 900) + ")>>"}}}
		second := gen.Rev{XRefStream: stream, Trailer: "/Root 1 0 R", StmBase: 810, Free: map[int]int{}, Next: map[int]int{}}
		prev := 0
		for k, n := range nums {
			first.Objs = append(first.Objs, gen.Obj{Num: n, Body: fmt.Sprintf("(object %d)", n)})
			if set>>k&1 == 1 {
				second.Free[n] = 1
				second.Next[prev] = n
				prev = n
			}
		}
		if i>>1&1 == 1 && prev > 0 { // the list links to itself in the other direction
			second.Next[prev] = 150
		}
		if len(second.Free) == 0 {
			second.Objs = []gen.Obj{{Num: 3, Body: "(changed)"}}
		}
		pdf, ends := gen.Build("1.7", []gen.Rev{first, second})
		checkSections(t, pdf, ends, nil, nil)
	})
}

func runSectionCrypt(c *core.Ctx) {
	cfgs := []struct {
		n string
		c *gen.Crypt
	}{{"rc40", enc1(1, 2, 5, false)}, {"rc128", enc1(2, 3, 16, false)}, {"rc-cf", enc1(4, 4, 16, false)}, {"aes", enc1(4, 4, 16, true)}}
	c.ForEach("encrypted", len(cfgs)*8, func(i int) string { return fmt.Sprintf("%s variant %d", cfgs[i/8].n, i%8) }, func(t *core.T, i int) {
		e, stream, direct, upd := cfgs[i/8].c, i&1 == 1, i&2 == 2, i&4 == 4
		plain := []gen.Obj{
			{Num: 1, Body: "<</Type/Catalog/S(a \\(b\\))>>", Compressed: stream},
			{Num: 2, Body: "<</Title(t)>>"},
			{Num: 3, Body: "<</K(v)>>", Stream: true, Data: "stream data"},
			{Num: 4, Gen: 2, Body: "[(x)<00ff>]"},
			{Num: 6, Body: "(six)", Compressed: stream},
		}
		tr := fmt.Sprintf("/Root 1 0 R/Info 2 0 R/ID[<%X><%X>]", e.ID, e.ID)
		objs := e.Encrypt(plain, 5)
		if direct {
			tr += "/Encrypt " + e.Dict()
		} else {
			tr += "/Encrypt 5 0 R"
			objs = append(objs, gen.Obj{Num: 5, Body: e.Dict()})
		}
		want := map[int]string{}
		put := func(objs []gen.Obj) {
			for _, o := range objs {
				if o.Stream {
					want[o.Num] = streamSem(o.Body, o.Data)
				} else {
					want[o.Num] = mustCanon(o.Body)
				}
			}
		}
		put(plain)
		revs := []gen.Rev{{XRefStream: stream, Trailer: tr, StmBase: 20, Objs: objs, Crypt: e}}
		if upd {
			more := []gen.Obj{{Num: 2, Body: "<</Title(new)>>", Compressed: !stream}, {Num: 7, Body: "<<>>", Stream: true, Data: "more"}}
			put(more)
			revs = append(revs, gen.Rev{XRefStream: !stream, Trailer: tr, StmBase: 30, Objs: e.Encrypt(more, 5), Crypt: e})
		}
		pdf, ends := gen.Build("1.7", revs)
		p, err := parse.OpenWithOptions(pdf, parse.ParseOptions{Password: []byte("user")})
		if err != nil || p.Encryption() == nil {
			t.Fail("encrypted:open", "%v", err)
			return
		}
		checkSections(t, pdf, ends, p.Encryption(), want)
	})
}

// idOf gives the strings of a trailer's /ID.
func idOf(d ref.Dict) (ids [][]byte, ok bool) {
	a, ok := d["ID"].(ref.Arr)
	for _, x := range a {
		s, _ := x.(ref.Str)
		ids = append(ids, s)
	}
	return ids, ok
}

func refText(o ref.Obj) string {
	if r, ok := o.(ref.Ref); ok {
		return fmt.Sprintf("%d %d R", r.N, r.G)
	}
	return ""
}

// checkSections compares everything the readers tell about a file with the oracle. With enc
// set, want holds the decrypted objects.
func checkSections(t *core.T, pdf []byte, ends []int, enc *types.PDFEncryption, want map[int]string) {
	t.Attach("file.pdf", pdf)
	t.State(string(pdf))
	f, err := ref.Open(pdf)
	if err == nil && enc == nil {
		err = f.CheckAll()
	}
	if err != nil {
		panic("harness: generated file is not legal: " + err.Error())
	}
	in := append([]byte(nil), pdf...)
	doc, err := parse.ParsePDFDocument(in)
	t.Step(1)
	if err != nil || doc == nil || len(doc.Revisions) != len(ends) {
		t.Fail("document", "ParsePDFDocument: %v", err)
		return
	}
	prevEnd := 0
	for k, rev := range doc.Revisions {
		part, err := ref.Open(pdf[:ends[k]])
		if err != nil {
			panic("harness: " + err.Error())
		}
		sec, err := f.SectionAt(part.Start)
		if err != nil {
			panic("harness: " + err.Error())
		}
		eof := bytes.LastIndex(pdf[:ends[k]], []byte("%%EOF"))
		if rev.Number != k+1 || int(rev.StartXRef) != sec.Start || int(rev.EOFOffset) != eof {
			t.Fail("revision", "revision %d: number %d, startxref %d (want %d), %%%%EOF at %d (want %d)", k+1, rev.Number, rev.StartXRef, sec.Start, rev.EOFOffset, eof)
		}
		checkXRef(t, "revision", pdf, rev.XRef, sec)
		checkTrailer(t, "revision", pdf, rev.Trailer, sec)
		first := len(pdf)
		for _, e := range sec.Ents {
			if e.T == 1 && e.A >= prevEnd {
				first = min(first, e.A)
			}
		}
		first = min(first, sec.Start)
		if rb := rev.RevisionBytes(doc); !bytes.Equal(rb, pdf[first:rev.EndOffset]) {
			t.Fail("revisionbytes", "revision %d: RevisionBytes has %d bytes, want [%d,%d)", k+1, len(rb), first, rev.EndOffset)
		}
		x, err := parse.ParseXRefDataRaw(in, int64(sec.Start))
		t.Step(1)
		if err != nil {
			t.Fail("xrefraw", "ParseXRefDataRaw(%d): %v", sec.Start, err)
		} else {
			checkXRef(t, "xrefraw", pdf, x, sec)
		}
		tr, err := parse.ParseTrailerDataRaw(in, int64(sec.Start), eof)
		t.Step(1)
		if err != nil {
			t.Fail("trailerraw", "ParseTrailerDataRaw(%d): %v", sec.Start, err)
		} else {
			checkTrailer(t, "trailerraw", pdf, tr, sec)
		}
		checkMaps(t, in, sec)
		prevEnd = ends[k]
	}

	// the newest trailer
	root, info, encrypt := refText(f.Trailer["Root"]), refText(f.Trailer["Info"]), refText(f.Trailer["Encrypt"])
	strip := func(s, key string) string { return strings.Join(strings.Fields(strings.TrimPrefix(s, key)), " ") }
	if tr, err := parse.ParsePDFTrailer(in); err != nil {
		if f.Sections != len(ends) || bytes.HasPrefix(pdf[f.Start:], []byte("xref")) {
			t.Fail("pdftrailer", "ParsePDFTrailer: %v", err)
		}
	} else if strip(tr.RootRef, "/Root") != root || strip(tr.InfoRef, "/Info") != info || strip(tr.EncryptRef, "/Encrypt") != encrypt || int(tr.StartXRef) != f.Start {
		t.Fail("pdftrailer", "ParsePDFTrailer says %+v, the trailer has Root %q Info %q Encrypt %q at %d", tr, root, info, encrypt, f.Start)
	}
	t.Step(1)
	if enc == nil {
		size, _ := ref.Int(f.Trailer["Size"])
		for _, perfect := range []bool{false, true} {
			p, err := parse.OpenWithOptions(in, parse.ParseOptions{BytePerfect: perfect})
			t.Step(1)
			if err != nil {
				t.Fail("open", "open: %v", err)
				continue
			}
			tr := p.Trailer()
			if tr == nil || tr.Size != size || tr.RootRef != root || tr.InfoRef != info || tr.EncryptRef != encrypt {
				t.Fail("trailer", "Trailer (byte-perfect %v) says %+v, want Size %d Root %q Info %q", perfect, tr, size, root, info)
				continue
			}
			if _, has := idOf(f.Trailer); !has {
				if len(tr.IDArray) != 0 {
					t.Fail("idarray", "IDArray %q without /ID", tr.IDArray)
				}
			} else if o, err := ref.ParseOne(tr.IDArray); err != nil || ref.Canon(o) != ref.Canon(f.Trailer["ID"]) {
				t.Fail("idarray", "IDArray (byte-perfect %v) is %q, want %s", perfect, clipb(tr.IDArray), ref.Canon(f.Trailer["ID"]))
			}

		}
	}

	// locations and objects
	top := 0
	for n := range f.X {
		top = max(top, n)
	}
	for n := 0; n <= top+2; n++ {
		e, ok := f.X[n]
		live := ok && e.T != 0 && n > 0
		if !live && n > 40 && n < top-20 && !ok {
			continue
		}
		loc, err := parse.FindObjectLocation(in, n, false)
		t.Step(1)
		at, aerr := parse.FindObjectByNumber(in, n, enc, false)
		t.Step(1)
		got, gerr := parse.GetObject(in, n, enc, false)
		t.Step(1)
		if !live {
			if err == nil {
				t.Fail("ghost", "FindObjectLocation(%d) of an object that does not exist: %+v", n, *loc)
			}
			if aerr == nil {
				t.Fail("ghost", "FindObjectByNumber(%d) of an object that does not exist: %d", n, at)
			}
			if gerr == nil {
				t.Fail("ghost", "GetObject(%d) of an object that does not exist: %q", n, clipb(got))
			}
			continue
		}
		if err != nil {
			t.Fail("location", "FindObjectLocation(%d): %v", n, err)
			continue
		}
		if gerr != nil {
			t.Fail("getobject", "GetObject(%d): %v", n, gerr)
			continue
		}
		var plain []byte
		w := want[n]
		switch e.T {
		case 1:
			if !loc.IsDirect || int(loc.ByteOffset) != e.A {
				t.Fail("location", "object %d is at %d, FindObjectLocation says %+v", n, e.A, *loc)
			}
			if aerr != nil || at != e.A {
				t.Fail("location", "object %d is at %d, FindObjectByNumber says %d, %v", n, e.A, at, aerr)
			}
			plain, err = parse.GetDirectObject(in, n, int64(e.A), enc, false)
			t.Step(1)
			checkRawObject(t, f, in, n, e)
		case 2:
			if loc.IsDirect || loc.StreamObjNum != e.A || loc.IndexInStream != e.B {
				t.Fail("location", "object %d is number %d of stream %d, FindObjectLocation says %+v", n, e.B, e.A, *loc)
			}
			if aerr == nil {
				t.Fail("location", "object %d is in stream %d, FindObjectByNumber says %d", n, e.A, at)
			}
			plain, err = parse.GetObjectFromStream(in, n, e.A, e.B, enc, false)
			t.Step(1)
			if other, oerr := parse.GetObjectFromStream(in, n, e.A, e.B+1, enc, false); oerr == nil && !bytes.Equal(other, plain) {
				t.Fail("wrongindex", "GetObjectFromStream(%d) with a wrong index returns %q", n, clipb(other))
			}
			if other, oerr := parse.GetObjectFromStream(in, n+1000, e.A, e.B, enc, false); oerr == nil {
				t.Fail("wrongnumber", "GetObjectFromStream(%d), not in stream %d, returns %q", n+1000, e.A, clipb(other))
			}
		}
		if err != nil || !bytes.Equal(plain, got) {
			t.Fail("direct", "object %d: GetObject %q, by its place %q, %v", n, clipb(got), clipb(plain), err)
			continue
		}
		if enc != nil && w == "" { // the encryption dictionary and structure streams
			continue
		}
		o, err := valueIn(f, got, n)
		if err != nil {
			t.Fail("value", "object %d reads %q: %v", n, clipb(got), err)
			continue
		}
		if enc == nil {
			wo, _, err := f.Get(n)
			if err != nil {
				panic("harness: " + err.Error())
			}
			w = semantic(wo)
		}
		if semantic(o) != w {
			t.Fail("value", "object %d reads %s, want %s", n, clips(semantic(o)), clips(w))
		}
		if e.T == 1 && !bytes.HasPrefix(got, []byte(fmt.Sprintf("%d %d obj", n, e.B))) {
			t.Fail("generation", "object %d %d reads as %q", n, e.B, clipb(got))
		}
	}
	if eofs := parse.FindAllEOFMarkers(in); len(eofs) != bytes.Count(pdf, []byte("%%EOF")) {
		t.Fail("eofmarkers", "FindAllEOFMarkers %v", eofs)
	} else {
		for _, p := range eofs {
			if !bytes.HasPrefix(pdf[p:], []byte("%%EOF")) {
				t.Fail("eofmarkers", "FindAllEOFMarkers %v", eofs)
			}
		}
	}
	if !bytes.Equal(in, pdf) {
		t.Fail("input", "the input was modified")
	}
	t.Outcome(fmt.Sprint(len(f.X), f.Sections, root, info, encrypt))
}

func checkXRef(t *core.T, tag string, pdf []byte, x *parse.XRefData, s *ref.Section) {
	if x == nil {
		t.Fail(tag+":xref", "no cross-reference data")
		return
	}
	raw := pdf[s.Start:s.End]
	if int(x.Offset) != s.Start || (x.Type == parse.XRefTypeStream) != s.Stream || !bytes.Equal(x.RawBytes, raw) || !bytes.Equal(x.Bytes(), raw) {
		t.Fail(tag+":xref", "section at %d type %v with %d bytes, want %d stream %v %d bytes", x.Offset, x.Type, len(x.RawBytes), s.Start, s.Stream, len(raw))
	}
	if so := x.StreamObject; s.Stream != (so != nil) || so != nil && (so.Number != s.Num || so.Generation != s.Gen || int(so.Offset) != s.Start || int(so.EndOffset) != s.End || !so.IsStream) {
		t.Fail(tag+":xrefstream", "stream object %+v", so)
	}
	if len(x.Entries) != len(s.Nums) {
		t.Fail(tag+":entries", "section at %d has %d entries, want %d", s.Start, len(x.Entries), len(s.Nums))
		return
	}
	for i, e := range x.Entries {
		n := s.Nums[i]
		w := s.Ents[n]
		ok := e.ObjectNum == n && e.InUse == (w.T != 0) && e.InObjectStream == (w.T == 2)
		switch w.T {
		case 0:
			ok = ok && e.Generation == w.B
		case 1:
			ok = ok && e.Generation == w.B && int(e.Offset) == w.A
		case 2:
			ok = ok && e.StreamObjNum == w.A && e.IndexInStream == w.B
		}
		if !ok {
			t.Fail(tag+":entries", "entry %d of the section at %d is %+v, want object %d %+v", i, s.Start, e, n, w)
		}
		if !s.Stream && !bytes.Equal(e.RawBytes, s.Rows[n]) {
			t.Fail(tag+":entrybytes", "entry of object %d in the table at %d has bytes %q, want %q", n, s.Start, e.RawBytes, s.Rows[n])
		}
	}
}

func checkTrailer(t *core.T, tag string, pdf []byte, tr *parse.TrailerData, s *ref.Section) {
	if tr == nil {
		t.Fail(tag+":trailer", "no trailer")
		return
	}
	size, _ := ref.Int(s.Dict["Size"])
	prev, _ := ref.Int(s.Dict["Prev"])
	if tr.Size != size || int(tr.Prev) != prev || tr.Root != refText(s.Dict["Root"]) || tr.Info != refText(s.Dict["Info"]) || tr.Encrypt != refText(s.Dict["Encrypt"]) {
		t.Fail(tag+":trailer", "trailer at %d says Size %d Prev %d Root %q Info %q Encrypt %q, want %s", s.Start, tr.Size, tr.Prev, tr.Root, tr.Info, tr.Encrypt, clips(ref.Canon(s.Dict)))
	}
	ids, _ := idOf(s.Dict)
	same := len(ids) == len(tr.ID)
	for i := range ids {
		same = same && bytes.Equal(ids[i], tr.ID[i])
	}
	if !same {
		t.Fail(tag+":id", "trailer at %d has ID %q, want %q", s.Start, tr.ID, ids)
	}
	at, raw := 0, pdf[s.DictStart:s.DictEnd]
	if !s.Stream {
		at, raw = s.End, pdf[s.End:s.DictEnd]
	}
	if int(tr.Offset) != at || !bytes.HasPrefix(tr.Bytes(), raw) || len(bytes.TrimSpace(tr.Bytes()[len(raw):])) > 0 || !bytes.Equal(tr.Bytes(), tr.RawBytes) {
		t.Fail(tag+":trailerbytes", "trailer at %d (want %d) is %q, want %q", tr.Offset, at, clipb(tr.Bytes()), clipb(raw))
	}
}

// checkMaps reads one section with the functions that return offsets.
func checkMaps(t *core.T, in []byte, s *ref.Section) {
	want := map[int]int64{}
	for n, e := range s.Ents {
		if e.T == 1 {
			want[n] = int64(e.A)
		}
	}
	check := func(name string, f func() (map[int]int64, error), expect bool) {
		got, err := f()
		t.Step(1)
		if !expect {
			if err == nil && len(got) > 0 {
				t.Fail("section:"+name, "%s of the other kind of section at %d returns %v", name, s.Start, got)
			}
			return
		}
		if err != nil && len(want) > 0 {
			t.Fail("section:"+name, "%s(%d): %v", name, s.Start, err)
		} else if err == nil && fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fail("section:"+name, "%s(%d) returns %v, want %v", name, s.Start, got, want)
		}
	}
	at := int64(s.Start)
	check("ParseCrossReferenceTable", func() (map[int]int64, error) { return parse.ParseCrossReferenceTable(in, at) }, true)
	check("ParseCrossReferenceTableWithEncryption", func() (map[int]int64, error) {
		return parse.ParseCrossReferenceTableWithEncryption(in, at, nil, false)
	}, true)
	if !s.Stream {
		check("ParseTraditionalXRefTable", func() (map[int]int64, error) { return parse.ParseTraditionalXRefTable(in, at) }, true)
		return
	}
	check("ParseXRefStream", func() (map[int]int64, error) { return parse.ParseXRefStream(in, at) }, true)
	check("ParseXRefStreamWithEncryption", func() (map[int]int64, error) { return parse.ParseXRefStreamWithEncryption(in, at, nil, false) }, true)
	r, err := parse.ParseXRefStreamFull(in, at, false)
	t.Step(1)
	if err != nil {
		t.Fail("section:full", "ParseXRefStreamFull(%d): %v", at, err)
		return
	}
	packed, free := map[int]parse.ObjectStreamEntry{}, map[int]bool{}
	for n, e := range s.Ents {
		switch e.T {
		case 0:
			free[n] = true
		case 2:
			packed[n] = parse.ObjectStreamEntry{StreamObjNum: e.A, IndexInStream: e.B}
		}
	}
	if fmt.Sprint(r.Objects) != fmt.Sprint(want) || fmt.Sprint(r.ObjectStreams) != fmt.Sprint(packed) || fmt.Sprint(r.Free) != fmt.Sprint(free) {
		t.Fail("section:full", "ParseXRefStreamFull(%d) returns %+v, want %v %v %v", at, r, want, packed, free)
	}
}

// checkRawObject reads the object at its place, and asks for others there.
func checkRawObject(t *core.T, f *ref.File, in []byte, n int, e ref.Entry) {
	_, g, end, _, err := f.Extent(e.A)
	if err != nil {
		panic("harness: " + err.Error())
	}
	for _, at := range []bool{false, true} {
		var ro *parse.PDFRawObject
		if at {
			ro, err = parse.ParseRawObjectAt(in, int64(e.A))
		} else {
			ro, err = parse.ParseRawObject(in, n, g, int64(e.A))
		}
		t.Step(1)
		if err != nil {
			t.Fail("rawobject", "object %d at %d: %v", n, e.A, err)
		} else if ro.Number != n || ro.Generation != g || int(ro.Offset) != e.A || int(ro.EndOffset) != end || !bytes.Equal(ro.RawBytes, f.B[e.A:end]) {
			t.Fail("rawobject", "object %d at %d: got %d %d [%d,%d), want %d %d [%d,%d)", n, e.A, ro.Number, ro.Generation, ro.Offset, ro.EndOffset, n, g, e.A, end)
		}
	}
	for m, x := range f.X {
		if m == n || x.T != 1 {
			continue
		}
		if ro, err := parse.ParseRawObject(in, m, x.B, int64(e.A)); err == nil {
			t.Fail("rawother", "ParseRawObject(%d %d) at object %d returns %q", m, x.B, n, clipb(ro.RawBytes))
		}
		t.Step(1)
	}
	if ro, err := parse.ParseRawObjectAt(in, int64(e.A)+1); err == nil && ro.Offset == int64(e.A)+1 && !hdrRe.Match(in[e.A+1:]) {
		t.Fail("rawoffset", "ParseRawObjectAt one byte into object %d returns %q", n, clipb(ro.RawBytes))
	}
}

func count(b ...bool) (n int) {
	for _, x := range b {
		if x {
			n++
		}
	}
	return n
}
