package props

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/core/manipulate"
)

func init() {
	core.Register(&core.Prop{ID: "P11", Level: "model_checking", Run: runPageSets,
		Rule: "A case is one source document (page tree shape x attribute placement x dependency graph x file layout, or a list of such documents) and one selection (page list, range list, pages per part, merge list). The pages of the output, with everything they refer to, must form the same object graph as the selected pages of the source; distinct by document, selection and graph.",
	})
}

// dependency patterns of pages: what pages refer to and share
var pageDeps = []string{"plain", "shared", "links", "cycles", "texts", "forms", "missing"}

func pageDep(dep string) func(leaf, num int) (string, []gen.Obj) {
	return func(leaf, num int) (string, []gen.Obj) {
		type o = gen.Obj
		n := 120 + 10*leaf
		switch dep {
		case "shared":
			var objs []o
			if leaf == 1 {
				objs = []o{{Num: 95, Body: "<</Type/XObject/Subtype/Form/BBox[0 0 1 1]>>", Stream: true, Data: "q Q"}, {Num: 96, Body: "[95 0 R 97 0 R]"}, {Num: 97, Body: "<</Shared 95 0 R/S(shared)>>"}}
			}
			return "/A 96 0 R/B 97 0 R/C[97 0 R 95 0 R]", objs
		case "links":
			next := 49 - (leaf % 3)
			return fmt.Sprintf("/Annots[%d 0 R %d 0 R]", n, n+1), []o{
				{Num: n, Body: fmt.Sprintf("<</Type/Annot/Subtype/Link/Rect[0 0 1 1]/P %d 0 R/Dest[%d 0 R/Fit]/Popup %d 0 R>>", num, next, n+1)},
				{Num: n + 1, Body: fmt.Sprintf("<</Type/Annot/Subtype/Popup/Parent %d 0 R/Rect[0 0 1 1]/Tree 2 0 R>>", n)}}
		case "cycles":
			return fmt.Sprintf("/Self %d 0 R/X %d 0 R/Y %d 0 R", num, n, n+1), []o{
				{Num: n, Body: fmt.Sprintf("<</Next %d 0 R/Me %d 0 R/L[[[%d 0 R]]]>>", n+1, n, n+2)},
				{Num: n + 1, Body: fmt.Sprintf("<</Prev %d 0 R/D<</Page %d 0 R>>>>", n, num)},
				{Num: n + 2, Body: fmt.Sprintf("[%d 0 R %d 0 R null true -1.5]", n+2, n)}}
		case "texts":
			return fmt.Sprintf("/S(60 0 R \\( 61 0 R)/H<3630203020>/N/Name#20x/X %d 0 R%%90 0 R\n", n), []o{
				{Num: n, Body: fmt.Sprintf("<</K(%d 0 R)/R[%d 0 R 1 2 3 0 R]/I 90>>", n, n+1), Stream: true, Data: "90 0 R 49 0 R endstream endobj stream"},
				{Num: n + 1, Body: fmt.Sprintf("(90 0 R page %d)", leaf)}}
		case "forms":
			return fmt.Sprintf("/Group<</S/Transparency/CS %d 0 R>>/Thumb %d 0 R", n, n+1), []o{
				{Num: n, Body: fmt.Sprintf("[/ICCBased %d 0 R]", n+2)},
				{Num: n + 1, Body: "<</Width 1/Height 1/BitsPerComponent 8/ColorSpace/DeviceGray/Filter/FlateDecode>>", Stream: true, Data: string(gen.Flate([]byte{byte(leaf)}))},
				{Num: n + 2, Body: fmt.Sprintf("<</N 3/Range[0 1]/Alt %d 0 R>>", n+3), Stream: true, Data: ""},
				{Num: n + 3, Body: fmt.Sprintf("%d", leaf)}}
		case "missing":
			return fmt.Sprintf("/Gone 999 0 R/List[998 0 R 90 0 R 997 0 R]/Cat 1 0 R/Inf 8 0 R/X %d 0 R", n), []o{{Num: n, Body: "null"}}
		}
		return "", nil
	}
}

// graph is the canonical text of some pages and everything reachable from them. Objects are
// numbered in the order they are met; selected pages are named by position, other pages and page
// tree nodes are null.
type grapher struct {
	f      *ref.File
	page   map[int]int  // object -> position in the selection (first)
	tree   map[int]bool // pages and page tree nodes
	num    map[int]int  // object -> number in the graph
	taken  map[int]bool // objects that belong to another graph
	base   int
	b      strings.Builder
	shared bool
}

func newGrapher(f *ref.File) (*grapher, []ref.Page, error) {
	g := &grapher{f: f, page: map[int]int{}, tree: map[int]bool{}, num: map[int]int{}, taken: map[int]bool{}}
	ps, err := f.Pages()
	if err != nil {
		return nil, nil, err
	}
	for _, n := range f.Nums() {
		if d, ok := f.Resolve(ref.Ref{N: n}).(ref.Dict); ok && (d["Type"] == ref.Name("Pages") || d["Type"] == ref.Name("Page")) {
			g.tree[n] = true
		}
	}
	return g, ps, nil
}

func (g *grapher) walk(o ref.Obj, depth int) {
	if depth > 60 {
		g.b.WriteString("DEEP")
		return
	}
	switch v := o.(type) {
	case ref.Ref:
		if p, ok := g.page[v.N]; ok {
			fmt.Fprintf(&g.b, "page%d ", p)
			return
		}
		if g.tree[v.N] {
			g.b.WriteString("null ")
			return
		}
		o, found, err := g.f.Get(v.N)
		if err != nil || !found || o == nil {
			g.b.WriteString("null ")
			return
		}
		if g.taken[v.N] {
			g.shared = true
		}
		if n, ok := g.num[v.N]; ok {
			fmt.Fprintf(&g.b, "#%d ", n)
			return
		}
		g.num[v.N] = g.base + len(g.num)
		fmt.Fprintf(&g.b, "#%d=", g.num[v.N])
		g.walk(o, depth+1)
	case ref.Arr:
		g.b.WriteString("[")
		for _, x := range v {
			g.walk(x, depth+1)
		}
		g.b.WriteString("]")
	case ref.Dict:
		var ks []string
		for k := range v {
			ks = append(ks, string(k))
		}
		sort.Strings(ks)
		g.b.WriteString("<<")
		for _, k := range ks {
			fmt.Fprintf(&g.b, "/%q ", k)
			g.walk(v[ref.Name(k)], depth+1)
		}
		g.b.WriteString(">>")
	case *ref.Stream:
		g.walk(without(v.D, "Length", "Filter", "DecodeParms"), depth+1)
		d, err := ref.DecodeStream(v)
		fmt.Fprintf(&g.b, "stream%q%v ", d, err)
	default:
		g.b.WriteString(ref.Canon(o) + " ")
	}
}

func (g *grapher) pages(ps []ref.Page) string {
	for i, p := range ps {
		d := without(p.D, "Parent")
		for k, v := range p.Attr {
			d[k] = v
		}
		for k := range p.Attr {
			if r := g.f.Resolve(d[k]); r != nil {
				if _, isDict := r.(ref.Dict); !isDict {
					d[k] = r
				}
			}
		}
		fmt.Fprintf(&g.b, "\npage%d:", i)
		g.walk(d, 0)
	}
	return g.b.String()
}

// wantGraph is the graph of a selection of pages of a source.
func wantGraph(src []byte, sel []int) string {
	f, err := ref.Open(src)
	if err != nil {
		panic("harness: " + err.Error())
	}
	g, ps, err := newGrapher(f)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var list []ref.Page
	for i, k := range sel {
		list = append(list, ps[k-1])
		if _, ok := g.page[ps[k-1].Num]; !ok {
			g.page[ps[k-1].Num] = i
		}
	}
	return g.pages(list)
}

// gotGraphs are the graphs of consecutive parts of an output's pages, which must not share objects.
func gotGraphs(out []byte, parts []int) ([]string, error) {
	f, err := ref.Open(out)
	if err == nil {
		err = f.CheckAll()
	}
	if err == nil {
		err = f.CheckRefs()
	}
	if err != nil {
		return nil, fmt.Errorf("the output is not valid: %v", err)
	}
	return graphsOf(f, parts)
}

func graphsOf(f *ref.File, parts []int) ([]string, error) {
	var res []string
	taken := map[int]bool{}
	at := 0
	for _, n := range parts {
		g, ps, err := newGrapher(f)
		if err != nil {
			return nil, err
		}
		if at+n > len(ps) {
			return nil, fmt.Errorf("%d pages in the output", len(ps))
		}
		g.taken = taken
		list := ps[at : at+n]
		for i, p := range list {
			g.page[p.Num] = i
		}
		s := g.pages(list)
		if g.shared {
			return nil, fmt.Errorf("objects of different documents are mixed")
		}
		for k := range g.num {
			taken[k] = true
		}
		at += n
		res = append(res, s)
	}
	if _, ps, _ := newGrapher(f); len(ps) != at {
		return nil, fmt.Errorf("%d pages in the output, want %d", len(ps), at)
	}
	return res, nil
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("…%s, want …%s", clips(a[from:min(len(a), i+120)]), clips(b[from:min(len(b), i+120)]))
}

// sameList fails for duplicate pages: references to a page that was selected twice lead to its first copy.
func judgeSet(t *core.T, tag string, out []byte, want []string, parts []int) {
	got, err := gotGraphs(out, parts)
	if err != nil {
		t.Attach("output.pdf", out)
		t.Fail("output", "%s: %v", tag, err)
		return
	}
	for i := range want {
		if got[i] != want[i] {
			t.Attach("output.pdf", out)
			t.Fail("graph", "%s: part %d is %s", tag, i, diffText(got[i], want[i]))
			return
		}
	}
}

func pageLists(n, max int) [][]int {
	var out [][]int
	var rec func(l []int)
	rec = func(l []int) {
		if len(l) > 0 {
			out = append(out, append([]int{}, l...))
		}
		if len(l) < max {
			for k := 1; k <= n; k++ {
				rec(append(l, k))
			}
		}
	}
	rec(nil)
	return append(out, nil, []int{0}, []int{n + 1}, []int{-1}, []int{1, n + 1}, []int{1, 0}, []int{math.MaxInt})
}

func seq(a, b int) []int {
	var out []int
	for ; a <= b; a++ {
		out = append(out, a)
	}
	return out
}

func runPageSets(c *core.Ctx) {
	type src struct{ shape, attr, layout, dep string }
	var srcs []src
	for _, s := range shapes(core.Pick(c, 3, 4), core.Pick(c, 1, 2)) {
		for _, d := range pageDeps {
			srcs = append(srcs, src{s, "inner", "packed", d})
		}
		for _, a := range pageAttrs {
			for _, l := range pageLayouts {
				srcs = append(srcs, src{s, a, l, "links"})
			}
		}
	}
	for _, s := range []string{"...", ".(..)"} {
		for _, d := range pageDeps {
			for _, a := range pageAttrs {
				for _, l := range pageLayouts {
					srcs = append(srcs, src{s, a, l, d})
				}
			}
		}
	}
	crypts := []*gen.Crypt{nil, gen.NewCrypt(2, 3, 16, false, []byte("user"), []byte("owner"), -44, cryptID), gen.NewCrypt(4, 4, 16, true, []byte("user"), []byte("owner"), -44, cryptID)}
	make2 := func(s src, k *gen.Crypt) (plain, doc []byte) {
		plain = pageDocX(s.shape, s.attr, s.layout, pageDep(s.dep), nil)
		if k == nil {
			return plain, plain
		}
		return plain, pageDocX(s.shape, s.attr, s.layout, pageDep(s.dep), k)
	}
	type sc struct {
		s  src
		op int
		k  int
	}
	var cases []sc
	for _, s := range srcs {
		cases = append(cases, sc{s, 0, 0}, sc{s, 1, 0}, sc{s, 2, 0})
	}
	for _, d := range pageDeps {
		for _, l := range []string{"table", "updated"} {
			for k := 1; k < len(crypts); k++ {
				for op := 0; op < 3; op++ {
					cases = append(cases, sc{src{"..", "root", l, d}, op, k})
				}
			}
		}
	}
	ops := []string{"extract", "split", "count"}
	c.ForEach("select", len(cases), func(i int) string {
		k := cases[i]
		return fmt.Sprintf("%s/%q/%s/%s/%s/%d", ops[k.op], k.s.shape, k.s.attr, k.s.layout, k.s.dep, k.k)
	}, func(t *core.T, i int) {
		k := cases[i]
		plain, doc := make2(k.s, crypts[k.k])
		in := append([]byte{}, doc...)
		var pw []byte
		if k.k > 0 {
			pw = []byte([]string{"", "user", "owner"}[k.k])
			if _, err := manipulate.ExtractPages(doc, []int{1}, []byte("wrong"), false); err == nil {
				t.Fail("password", "a wrong password is accepted")
			}
		}
		t.Attach("source.pdf", doc)
		n := strings.Count(k.s.shape, ".")
		switch k.op {
		case 0:
			for _, l := range pageLists(n, core.Pick(c, 3, 4)) {
				ok := len(l) > 0
				for _, p := range l {
					ok = ok && p >= 1 && p <= n
				}
				arg := append([]int{}, l...)
				out, err := manipulate.ExtractPages(doc, arg, pw, false)
				t.Step(1)
				if (err == nil) != ok {
					t.Fail("result", "ExtractPages%v of %d pages: %v", l, n, err)
					continue
				}
				if !eqInts(arg, l) {
					t.Fail("arg", "the page list became %v, was %v", arg, l)
				}
				if ok {
					w := wantGraph(plain, l)
					t.State(w)
					judgeSet(t, fmt.Sprint("ExtractPages", l), out, []string{w}, []int{len(l)})
				}
			}
		case 1:
			var rs []manipulate.PageRange
			for a := 0; a <= n+1; a++ {
				for b := a - 1; b <= n+1; b++ {
					rs = append(rs, manipulate.PageRange{Start: a, End: b})
				}
			}
			lists := [][]manipulate.PageRange{nil}
			for _, a := range rs {
				lists = append(lists, []manipulate.PageRange{a})
				for _, b := range rs {
					if a.Start >= 1 && a.End <= n && b.Start <= b.End || a == rs[0] {
						lists = append(lists, []manipulate.PageRange{a, b})
					}
				}
			}
			for _, l := range lists {
				ok := len(l) > 0
				for _, r := range l {
					ok = ok && r.Start >= 1 && r.End <= n && r.Start <= r.End
				}
				outs, err := manipulate.SplitPDF(doc, l, pw, false)
				t.Step(1)
				if (err == nil) != ok || ok && len(outs) != len(l) {
					t.Fail("result", "SplitPDF%v of %d pages: %d parts, %v", l, n, len(outs), err)
					continue
				}
				for j, o := range outs {
					if ok {
						sel := seq(l[j].Start, l[j].End)
						judgeSet(t, fmt.Sprint("SplitPDF", l, " part ", j), o, []string{wantGraph(plain, sel)}, []int{len(sel)})
					}
				}
			}
		case 2:
			for _, cnt := range []int{-1, 0, 1, 2, 3, 4, 100, math.MaxInt32, math.MaxInt - 1, math.MaxInt} {
				outs, err := manipulate.SplitPDFByPageCount(doc, cnt, pw, false)
				t.Step(1)
				ok := cnt >= 1 && n >= 1
				want := 0
				if ok {
					want = (n-1)/cnt + 1
				}
				if (err == nil) != ok || len(outs) != want {
					t.Fail("result", "SplitPDFByPageCount(%d) of %d pages: %d parts, %v", cnt, n, len(outs), err)
					continue
				}
				for j, o := range outs {
					sel := seq(j*cnt+1, min(n, j*cnt+min(cnt, n)))
					judgeSet(t, fmt.Sprint("SplitPDFByPageCount ", cnt, " part ", j), o, []string{wantGraph(plain, sel)}, []int{len(sel)})
				}
			}
		}
		if !bytes.Equal(in, doc) {
			t.Fail("input", "the input was modified")
		}
		t.Outcome(ops[k.op])
	})

	// merging
	pool := []src{{"", "own", "table", "plain"}, {".", "root", "table", "links"}, {"(..)", "inner", "packed", "links"}, {"..", "indirect", "updated", "cycles"},
		{".(.)", "deep", "gen", "texts"}, {"..", "noise", "packed", "shared"}, {".", "odd", "table", "forms"}, {"..", "root", "table", "missing"}}
	var merges [][]int
	for a := range pool {
		merges = append(merges, []int{a})
		for b := range pool {
			merges = append(merges, []int{a, b})
			for d := range pool {
				merges = append(merges, []int{a, b, d})
			}
		}
	}
	merges = append(merges, nil)
	c.ForEach("merge", len(merges)*3, func(i int) string { return fmt.Sprintf("%v/%d", merges[i/3], i%3) }, func(t *core.T, i int) {
		l := merges[i/3]
		mode := i % 3 // which members are encrypted: none, the last, all but the first
		var docs, pws [][]byte
		var want []string
		var parts []int
		for j, s := range l {
			var k *gen.Crypt
			if (mode == 1 && j == len(l)-1 || mode == 2 && j > 0) && pool[s].layout != "packed" && pool[s].layout != "gen" {
				k = crypts[1+j%2]
			}
			plain, doc := make2(pool[s], k)
			docs = append(docs, doc)
			pw := []byte(nil)
			if k != nil {
				pw = []byte("user")
			}
			pws = append(pws, pw)
			n := strings.Count(pool[s].shape, ".")
			parts = append(parts, n)
			want = append(want, wantGraph(plain, seq(1, n)))
		}
		if mode == 0 {
			pws = nil
		}
		out, err := manipulate.MergePDFs(docs, pws, false)
		t.Step(1)
		if len(l) == 0 {
			if err == nil {
				t.Fail("result", "merging nothing succeeds")
			}
			return
		}
		if err != nil {
			t.Fail("result", "MergePDFs: %v", err)
			return
		}
		t.State(strings.Join(want, "|"))
		judgeSet(t, "MergePDFs", out, want, parts)
		t.Outcome("merged")
	})
}
