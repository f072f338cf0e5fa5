package props

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/core/parse"
)

func init() {
	core.Register(&core.Prop{
		ID: "P03", Level: "model_checking", Run: runIncremental,
		Rule:        "A case is one update history: a first revision and up to 2 (thorough: 3) incremental updates; each revision picks a cross-reference layout (table or stream) and for each tracked object one action (leave, write plainly, write as stream, write into an object stream, delete, re-create with the next generation). The model is a map per revision. Every history is written out by an independent generator, and the merged view, each extracted revision, revision counts and boundaries are compared with the model in standard, byte-perfect and function-level access. Non-trivial: at least one update changes an object.",
		Assumptions: []string{"objects tracked: 3 per history; object numbers below 40; generator output is legal PDF (checked against the strict oracle on every case)"},
	})
}

// action codes: - none, d direct, s stream, c compressed, x delete
type histRev struct {
	stream bool
	acts   string
}

func (r histRev) String() string {
	if r.stream {
		return "S" + r.acts
	}
	return "T" + r.acts
}

type slotState struct {
	alive bool
	gen   int
	val   string // semantic
	reuse bool
}

func enumHist(depth, nobj int, first []string) [][]histRev {
	var out [][]histRev
	var rec func(h []histRev, st []slotState)
	rec = func(h []histRev, st []slotState) {
		if len(h) > 0 {
			out = append(out, append([]histRev(nil), h...))
		}
		if len(h) == depth {
			return
		}
		for _, stream := range []bool{false, true} {
			var acts func(i int, cur string, ns []slotState)
			acts = func(i int, cur string, ns []slotState) {
				if i == nobj {
					if len(h) == 0 {
						ok := false
						for _, f := range first {
							if f == cur {
								ok = true
							}
						}
						if !ok {
							return
						}
					}
					rec(append(append([]histRev(nil), h...), histRev{stream, cur}), ns)
					return
				}
				for _, a := range "-dscx" {
					s := ns[i]
					switch a {
					case 'c':
						if !stream || s.gen > 0 {
							continue
						}
						s.alive = true
					case 'x':
						if !s.alive {
							continue
						}
						s.alive, s.gen = false, s.gen+1
					case 'd', 's':
						s.alive = true
					}
					n2 := append([]slotState(nil), ns...)
					n2[i] = s
					acts(i+1, cur+string(a), n2)
				}
			}
			acts(0, "", st)
		}
	}
	rec(nil, make([]slotState, nobj))
	return out
}

func runIncremental(c *core.Ctx) {
	type group struct {
		name  string
		hists [][]histRev
		opt   gen.Opt
	}
	groups := []group{
		{"two-objects", enumHist(core.Pick(c, 3, 4), 2, []string{"d-", "s-", "c-", "--", "cd"}), gen.Opt{}},
		{"three-objects", enumHist(2, 3, []string{"ddd", "ccc", "dc-", "scd"}), gen.Opt{PerStm: 1, Indirect: true}},
		{"packed", enumHist(core.Pick(c, 2, 3), 2, []string{"d-", "s-", "c-", "--", "cd"}), gen.Opt{Filter: "Flate", Predictor: 12, StmFilter: "Flate", W: [3]int{1, 3, 1}, Split: true, EOL: "\r\n", EntryEOL: "\r\n", StreamEOL: "\r\n"}},
	}
	for _, g := range groups {
		g := g
		c.ForEach(g.name, len(g.hists), func(i int) string {
			var p []string
			for _, r := range g.hists[i] {
				p = append(p, r.String())
			}
			return strings.Join(p, ".")
		}, func(t *core.T, i int) { checkHistory(t, g.hists[i], g.opt) })
	}
}

type histSnap struct {
	want   map[int]string
	absent []int
	root   string
}
type histRaw struct{ obj, rev int }

type histModel struct {
	snaps  []histSnap
	direct map[histRaw]string // objects written plainly in a revision
	final  []slotState
}

// buildHistory runs the model and writes the history out.
func buildHistory(h []histRev, opt gen.Opt) ([]byte, []int, histModel) {
	nobj := len(h[0].acts)
	st := make([]slotState, nobj)
	var revs []gen.Rev
	var snaps []histSnap
	direct := map[histRaw]string{}
	want := map[int]string{}
	base := 10
	for k, r := range h {
		rev := gen.Rev{XRefStream: r.stream, Opt: opt, StmBase: base, Free: map[int]int{}}
		base += 8
		root := 1 + k%2
		rev.Trailer = fmt.Sprintf("/Root %d 0 R", root)
		if k == 0 {
			for n := 1; n <= 2; n++ {
				b := fmt.Sprintf("<</Type/Catalog/N %d>>", n)
				rev.Objs = append(rev.Objs, gen.Obj{Num: n, Body: b})
				want[n] = mustCanon(b)
				direct[histRaw{n, 0}] = want[n]
			}
		}
		for i, a := range r.acts {
			n := 3 + i
			s := &st[i]
			tag := fmt.Sprintf("o%d.r%d", n, k)
			switch a {
			case 'd', 'c':
				b := fmt.Sprintf("<</V(%s \\)endobj)/A[1 (%%%%EOF)]>>", tag)
				rev.Objs = append(rev.Objs, gen.Obj{Num: n, Gen: s.gen, Body: b, Compressed: a == 'c'})
				s.alive, s.val = true, mustCanon(b)
				if a == 'd' {
					direct[histRaw{n, k}] = s.val
				}
			case 's':
				d, data := fmt.Sprintf("<</V(%s)>>", tag), "data "+tag+" endobj\n%%EOF\n"
				rev.Objs = append(rev.Objs, gen.Obj{Num: n, Gen: s.gen, Body: d, Stream: true, Data: data})
				s.alive, s.val = true, mustCanon(d)+fmt.Sprintf("stream%d:%q", len(data), data)
				direct[histRaw{n, k}] = s.val
			case 'x':
				s.alive = false
				s.gen++
				rev.Free[n] = s.gen
			}
			if s.alive {
				want[n] = s.val
			} else {
				delete(want, n)
			}
		}
		w := map[int]string{}
		for n, v := range want {
			w[n] = v
		}
		var abs []int
		for i := range st {
			if !st[i].alive {
				abs = append(abs, 3+i)
			}
		}
		abs = append(abs, 9)
		snaps = append(snaps, histSnap{w, abs, fmt.Sprintf("%d 0 R", root)})
		revs = append(revs, rev)
	}
	pdf, ends := gen.Build("1.7", revs)
	return pdf, ends, histModel{snaps, direct, st}
}

func checkHistory(t *core.T, h []histRev, opt gen.Opt) {
	nobj := len(h[0].acts)
	pdf, ends, m := buildHistory(h, opt)
	snaps, direct, st := m.snaps, m.direct, m.final
	t.Attach("history.pdf", pdf)
	t.State(fmt.Sprint(snaps[len(snaps)-1].want, len(h)))

	// the generator and the oracle agree with the model (binds the model to the bytes)
	last := snaps[len(snaps)-1]
	f, err := ref.Open(pdf)
	if err == nil {
		err = f.CheckAll()
	}
	if err != nil {
		panic("harness: generated file is not legal: " + err.Error())
	}
	for n, w := range last.want {
		o, found, err := f.Get(n)
		if err != nil || !found || semantic(o) != w {
			panic(fmt.Sprintf("harness: oracle disagrees on object %d: %v %v", n, found, err))
		}
	}

	check := func(tag string, b []byte, k int) {
		s := snaps[k]
		w := s.want
		for _, perfect := range []bool{false, true} {
			mode := tag + ":std"
			if perfect {
				mode = tag + ":perfect"
			}
			p, err := parse.OpenWithOptions(b, parse.ParseOptions{BytePerfect: perfect})
			t.Step(1)
			if err != nil {
				t.Fail(mode+":open", "open: %v", err)
				continue
			}
			compareHistory(t, f, mode, p, w, s.absent)
			if got := strings.TrimSpace(strings.TrimPrefix(p.Trailer().RootRef, "/Root")); got != s.root {
				t.Fail(mode+":root", "root is %q, want %q", got, s.root)
			}
			if got := p.RevisionCount(); got != k+1 {
				t.Fail(mode+":revisions", "RevisionCount %d, want %d", got, k+1)
			}
			if perfect {
				if !bytes.Equal(p.Bytes(), b) {
					t.Fail(mode+":bytes", "reconstruction differs from input")
				}
				doc := p.Document()
				for q := 0; q <= k; q++ {
					for n := 1; n < 3+nobj; n++ {
						exp, ok := direct[histRaw{n, q}]
						ro := doc.GetObjectInRevision(n, q+1)
						t.Step(1)
						if ok != (ro != nil) {
							t.Fail(mode+":revobj", "object %d in revision %d: present=%v want %v", n, q+1, ro != nil, ok)
							continue
						}
						if ro == nil {
							continue
						}
						o, err := valueIn(f, ro.Bytes(), n)
						if err != nil || semantic(o) != exp {
							t.Fail(mode+":revval", "object %d in revision %d reads %q (%v), want %s", n, q+1, clipb(ro.Bytes()), err, exp)
						}
					}
				}
			}
		}
		// function-level access
		for n, v := range w {
			got, err := parse.GetObject(b, n, nil, false)
			t.Step(1)
			if err != nil {
				t.Fail(tag+":func", "GetObject(%d): %v", n, err)
				continue
			}
			o, err := valueIn(f, got, n)
			if err != nil || semantic(o) != v {
				t.Fail(tag+":funcval", "GetObject(%d) reads %q (%v), want %s", n, clipb(got), err, v)
			}
		}
		for _, n := range s.absent {
			if got, err := parse.GetObject(b, n, nil, false); err == nil {
				t.Fail(tag+":funcghost", "GetObject(%d) of a deleted or never written object returns %q", n, clipb(got))
			}
			t.Step(1)
		}
	}

	check("whole", pdf, len(h)-1)
	if n := parse.CountRevisions(pdf); n != len(h) {
		t.Fail("count", "CountRevisions %d, want %d", n, len(h))
	}
	bounds := parse.GetRevisionBoundaries(pdf)
	if len(bounds) != len(h) {
		t.Fail("bounds", "boundaries %v, want %d", bounds, len(h))
	} else {
		for k, e := range ends {
			if bounds[k] > e || !bytes.Equal(bytes.TrimRight(pdf[:e], "\r\n"), pdf[:bounds[k]]) {
				t.Fail("bounds", "boundary %d is %d, revision ends at %d", k+1, bounds[k], e)
			}
		}
	}
	for k := range h {
		b, err := parse.ExtractRevision(pdf, k+1)
		t.Step(1)
		if err != nil {
			t.Fail("extract", "ExtractRevision(%d): %v", k+1, err)
			continue
		}
		if !bytes.Equal(b, pdf[:ends[k]]) {
			t.Fail("extractbytes", "ExtractRevision(%d) has %d bytes, revision ends at %d", k+1, len(b), ends[k])
			continue
		}
		if k < len(h)-1 {
			check(fmt.Sprintf("rev%d", k+1), b, k)
		}
	}
	for _, k := range []int{0, -1, len(h) + 1} {
		if _, err := parse.ExtractRevision(pdf, k); err == nil {
			t.Fail("extractrange", "ExtractRevision(%d) of %d revisions succeeds", k, len(h))
		}
	}
	var oc strings.Builder
	for i := range st {
		fmt.Fprintf(&oc, "%v%d", st[i].alive, st[i].gen)
	}
	t.Outcome(oc.String())
}

// compareHistory is compareObjects except that helper objects (lengths) may exist.
func compareHistory(t *core.T, f *ref.File, tag string, p *parse.PDF, want map[int]string, absent []int) {
	have := map[int]bool{}
	for _, n := range p.Objects() {
		if n == 0 {
			t.Fail(tag+":zero", "object 0 is listed")
		}
		have[n] = true
	}
	for n, w := range want {
		if !have[n] || !p.HasObject(n) {
			t.Fail(tag+":missing", "object %d is missing (have %v)", n, sorted(have))
			continue
		}
		raw, err := p.GetObject(n)
		t.Step(1)
		if err != nil {
			t.Fail(tag+":get", "object %d: %v", n, err)
			continue
		}
		o, err := valueIn(f, raw, n)
		if err != nil {
			t.Fail(tag+":syntax", "object %d returned as %q: %v", n, clipb(raw), err)
			continue
		}
		if got := semantic(o); got != w {
			t.Fail(tag+":value", "object %d: got %s want %s", n, clips(got), clips(w))
		}
	}
	for _, n := range absent {
		if p.HasObject(n) || have[n] {
			t.Fail(tag+":ghost", "object %d exists but was never written or was deleted", n)
		}
		if raw, err := p.GetObject(n); err == nil {
			t.Fail(tag+":ghostget", "object %d does not exist but reads as %q", n, clipb(raw))
		}
		t.Step(1)
	}
	for n := range have {
		if _, ok := want[n]; ok || n < 10 {
			if _, ok := want[n]; !ok && n != 0 {
				t.Fail(tag+":extra", "object %d is listed", n)
			}
			continue
		}
	}
	if p.ObjectCount() != len(have) {
		t.Fail(tag+":objectcount", "ObjectCount %d, %d listed", p.ObjectCount(), len(have))
	}
}
