package props

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/core/parse"
)

func init() {
	core.Register(&core.Prop{
		ID: "P04", Level: "model_checking", Run: runPerfect,
		Rule:        "A case is one legal document in one file layout (every single and every pair of deviations from the default layout) or one update history (two, thorough three revisions). In byte-perfect mode the reconstruction must equal the input byte for byte, the revisions must end where the generator ended them, and each raw object must be exactly the bytes of that object: position, extent, generation, dictionary, stored stream data and content, as delimited by the strict oracle. Non-trivial: every case (all have at least one stream or string holding structural keywords).",
		Assumptions: []string{"inputs are legal PDF (checked by the strict oracle); signatures and linearized files are outside the generator"},
	})
}

func runPerfect(c *core.Ctx) {
	runDamaged(c)
	devs := deviations()
	var combos [][]int
	combos = append(combos, nil)
	for i := range devs {
		combos = append(combos, []int{i})
		for j := i + 1; j < len(devs); j++ {
			if devs[i].key != devs[j].key {
				combos = append(combos, []int{i, j})
			}
		}
	}
	for _, d := range layoutDocs() {
		d := d
		c.ForEach(d.name, len(combos), func(i int) string {
			var n []string
			for _, k := range combos[i] {
				n = append(n, devs[k].name)
			}
			return "layout:" + strings.Join(n, ";")
		}, func(t *core.T, i int) {
			var o gen.Opt
			for _, k := range combos[i] {
				devs[k].f(&o)
			}
			pdf, ends, ok := buildLayout(d, o)
			if !ok {
				return
			}
			checkPerfect(t, pdf, ends)
		})
	}
	for gi, opt := range []gen.Opt{{}, {PerStm: 1, Indirect: true, EOL: "\r\n", EntryEOL: "\r\n"}} {
		hists := enumHist(core.Pick(c, 2, 3), 2, []string{"d-", "s-", "c-", "--", "cd", "ss"})
		opt := opt
		c.ForEach(fmt.Sprintf("history%d", gi), len(hists), func(i int) string {
			var p []string
			for _, r := range hists[i] {
				p = append(p, r.String())
			}
			return strings.Join(p, ".")
		}, func(t *core.T, i int) {
			pdf, ends, _ := buildHistory(hists[i], opt)
			checkPerfect(t, pdf, ends)
		})
	}
}

// runDamaged opens damaged files: what is accepted is reproduced, and what is reported of
// revisions and objects are parts of the file.
func runDamaged(c *core.Ctx) {
	for _, d := range robustDocs() {
		d := d
		if d.pw != "" || d.kind != "pages" {
			continue
		}
		ms := mutations(d.pdf, "\x00 <0", c.Thorough())
		c.ForEach("damaged-"+d.name, len(ms), func(i int) string { return ms[i].name }, func(t *core.T, i int) {
			b := ms[i].b
			t.Attach("input.pdf", b)
			in := append([]byte(nil), b...)
			p, err := parse.OpenWithOptions(in, parse.ParseOptions{BytePerfect: true})
			t.Step(1)
			t.State(d.name + ms[i].name)
			if err != nil {
				t.Outcome("refused")
				return
			}
			doc := p.Document()
			if doc == nil {
				t.Fail("damaged", "accepted without a document")
				return
			}
			if !bytes.Equal(p.Bytes(), b) || !bytes.Equal(doc.Bytes(), b) || !bytes.Equal(p.Raw(), b) || !bytes.Equal(in, b) {
				t.Fail("damaged", "reconstruction differs from the input")
			}
			count := 0
			for k, rev := range doc.Revisions {
				if rev.EndOffset < 0 || int(rev.EndOffset) > len(b) {
					t.Fail("damaged", "revision %d ends at %d of %d", k+1, rev.EndOffset, len(b))
				}
				for n, ro := range rev.Objects {
					count++
					if ro.Number != n || ro.Offset < 0 || ro.EndOffset < ro.Offset || int(ro.EndOffset) > len(b) || !bytes.Equal(ro.Bytes(), b[ro.Offset:ro.EndOffset]) {
						t.Fail("damaged", "object %d of revision %d is %d at [%d,%d)", n, k+1, ro.Number, ro.Offset, ro.EndOffset)
					} else if ro.IsStream && !bytes.Contains(ro.Bytes(), ro.StreamRaw) {
						t.Fail("damaged", "the stream data of object %d is not in the object", n)
					}
				}
			}
			t.Outcome(fmt.Sprint(len(doc.Revisions), count))
		})
	}
}

func checkPerfect(t *core.T, pdf []byte, ends []int) {
	t.Attach("file.pdf", pdf)
	t.State(string(pdf))
	in := append([]byte(nil), pdf...)
	p, err := parse.OpenWithOptions(in, parse.ParseOptions{BytePerfect: true})
	t.Step(1)
	if err != nil {
		t.Fail("open", "open: %v", err)
		return
	}
	doc := p.Document()
	if doc == nil {
		t.Fail("doc", "no document")
		return
	}
	if !bytes.Equal(p.Bytes(), pdf) || !bytes.Equal(doc.Bytes(), pdf) || !bytes.Equal(p.Raw(), pdf) || !bytes.Equal(in, pdf) {
		t.Fail("bytes", "reconstruction differs from the input")
	}
	if doc.Header == nil || !bytes.HasPrefix(pdf, doc.Header.RawBytes) || doc.Header.Version != "1.7" || doc.Header.MajorVersion != 1 || doc.Header.MinorVersion != 7 {
		t.Fail("header", "header %+v", doc.Header)
	}
	if doc.RevisionCount() != len(ends) || len(doc.Revisions) != len(ends) || doc.LatestRevision() != doc.Revisions[len(doc.Revisions)-1] {
		t.Fail("revisions", "%d revisions, want %d", doc.RevisionCount(), len(ends))
		return
	}
	newest := map[int]*parse.PDFRawObject{}
	prevEnd := 0
	for k, rev := range doc.Revisions {
		part := pdf[:ends[k]]
		f, err := ref.Open(part)
		if err != nil {
			panic("harness: " + err.Error())
		}
		if int(rev.EndOffset) != ends[k] && len(bytes.TrimSpace(part[min(int(rev.EndOffset), len(part)):])) > 0 {
			t.Fail("end", "revision %d ends at %d, want %d", k+1, rev.EndOffset, ends[k])
		}
		if int(rev.EOFOffset) < 0 || !bytes.HasPrefix(pdf[rev.EOFOffset:], []byte("%%EOF")) || rev.EOFOffset >= rev.EndOffset {
			t.Fail("eof", "EOFOffset %d", rev.EOFOffset)
		}
		if int(rev.StartXRef) != f.Start {
			t.Fail("startxref", "StartXRef %d, want %d", rev.StartXRef, f.Start)
		}
		if rev.XRef == nil || !bytes.Contains(pdf, rev.XRef.Bytes()) || len(rev.XRef.Bytes()) == 0 || !bytes.HasPrefix(pdf[rev.StartXRef:], rev.XRef.Bytes()) {
			t.Fail("xref", "cross-reference bytes are not those at %d", rev.StartXRef)
		}
		if rb := rev.RevisionBytes(doc); !bytes.HasSuffix(pdf[:rev.EndOffset], rb) || len(rb) == 0 {
			t.Fail("revbytes", "RevisionBytes of %d is not the tail of the prefix", k+1)
		}
		// the objects of this revision are the plain entries with offsets after the previous end
		seen := map[int]bool{}
		for n, e := range f.X {
			if e.T != 1 || e.A < prevEnd {
				continue
			}
			seen[n] = true
			ro := doc.GetObjectInRevision(n, k+1)
			t.Step(1)
			if ro == nil {
				t.Fail("object", "revision %d lacks object %d", k+1, n)
				continue
			}
			newest[n] = ro
			_, g, end, o, err := f.Extent(e.A)
			if err != nil {
				panic("harness: " + err.Error())
			}
			if ro.Number != n || ro.Generation != g || int(ro.Offset) != e.A || int(ro.EndOffset) != end || !bytes.Equal(ro.Bytes(), pdf[e.A:end]) {
				t.Fail("extent", "object %d: got %d %d [%d,%d) want %d %d [%d,%d)", n, ro.Number, ro.Generation, ro.Offset, ro.EndOffset, n, g, e.A, end)
				continue
			}
			st, isStream := o.(*ref.Stream)
			if ro.IsStream != isStream {
				t.Fail("isstream", "object %d: IsStream %v", n, ro.IsStream)
				continue
			}
			if isStream {
				if !bytes.Equal(ro.StreamRaw, st.Raw) || !bytes.Equal(ro.StreamData(), st.Raw) {
					t.Fail("stream", "object %d: stored stream data %q, want %q", n, clipb(ro.StreamRaw), clipb(st.Raw))
				}
				if d, err := ref.ParseOne(ro.DictRaw); err != nil || ref.Canon(d) != ref.Canon(st.D) {
					t.Fail("dict", "object %d: dictionary %q (%v)", n, clipb(ro.DictRaw), err)
				}
			} else if v, err := ref.ParseOne(ro.Content()); err != nil || ref.Canon(v) != ref.Canon(o) {
				t.Fail("content", "object %d: content %q (%v)", n, clipb(ro.Content()), err)
			}
		}
		for n := range rev.Objects {
			if !seen[n] {
				t.Fail("foreign", "revision %d lists object %d", k+1, n)
			}
		}
		prevEnd = ends[k]
	}
	all := doc.AllObjects()
	if len(all) != len(newest) || doc.ObjectCount() != len(newest) {
		t.Fail("all", "AllObjects has %d, want %d", len(all), len(newest))
	}
	for n, ro := range newest {
		if all[n] != ro || doc.GetObject(n) != ro {
			t.Fail("newest", "object %d is not the newest version", n)
		}
		if raw, err := p.GetRawObject(n); err != nil || raw != ro {
			t.Fail("raw", "GetRawObject(%d): %v", n, err)
		}
	}
	t.Outcome(fmt.Sprint(len(newest), len(ends)))
}
