package props

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/manipulate"
)

// --- documents with page trees ---------------------------------------------

// shapes lists the kid lists of a page tree root with at most the given number of leaves
// (.) and inner nodes ((...)), including empty inner nodes.
func shapes(leaves, inner int) []string {
	type k struct{ l, i int }
	memo := map[k][]string{}
	var seqs func(l, i int) []string // exactly l leaves and i inner nodes
	seqs = func(l, i int) []string {
		if r, ok := memo[k{l, i}]; ok {
			return r
		}
		var out []string
		if l == 0 && i == 0 {
			out = []string{""}
		}
		if l > 0 {
			for _, s := range seqs(l-1, i) {
				out = append(out, "."+s)
			}
		}
		for a := 0; i > 0 && a <= l; a++ {
			for b := 0; b <= i-1; b++ {
				for _, x := range seqs(a, b) {
					for _, y := range seqs(l-a, i-1-b) {
						out = append(out, "("+x+")"+y)
					}
				}
			}
		}
		memo[k{l, i}] = out
		return out
	}
	var out []string
	for l := 0; l <= leaves; l++ {
		for i := 0; i <= inner; i++ {
			out = append(out, seqs(l, i)...)
		}
	}
	return out
}

var pageAttrs = []string{"own", "root", "inner", "indirect", "odd", "noise", "deep"}
var pageLayouts = []string{"table", "packed", "updated", "gen"}

// pageDoc builds a document with the given page tree. Objects: 1 catalog, 2 root, 8 info,
// inner nodes 21.., pages 49 downwards, contents 60.., shared objects 90..
func pageDoc(shape, attr, layout string) []byte { return pageDocX(shape, attr, layout, nil, nil) }

// pageDocX is pageDoc with more entries and objects for each page, optionally encrypted.
func pageDocX(shape, attr, layout string, extra func(leaf, num int) (string, []gen.Obj), k *gen.Crypt) []byte {
	objs := []gen.Obj{
		{Num: 8, Body: "<</Title(doc)>>"},
		{Num: 90, Body: "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>"},
		{Num: 91, Body: "270"},
		{Num: 92, Body: "[0 0 50 60]"},
		{Num: 93, Body: "<</Font<</F1 90 0 R>>>>"},
	}
	const own = "/MediaBox[0 0 200 300]/Resources<</Font<</F1 90 0 R>>>>"
	rootAttr := ""
	switch attr {
	case "root", "deep":
		rootAttr = own + "/Rotate 90"
	case "inner", "noise":
		rootAttr = own
	case "indirect":
		rootAttr = "/MediaBox 92 0 R/Resources 93 0 R/Rotate 91 0 R"
	case "odd":
		rootAttr = own + "/Rotate -90"
	}
	leaf, inner := 0, 0
	kidSep := " "
	if attr == "noise" {
		kidSep = "\n% [1 0 R\n "
	}
	var build func(s string, me int, parent int, depth int, attrs string) int // returns the number of leaves
	build = func(s string, me, parent, depth int, attrs string) int {
		var kids []string
		count := 0
		for i := 0; i < len(s); i++ {
			if s[i] == '.' {
				n, c := 49-leaf, 60+leaf
				leaf++
				a := fmt.Sprintf("/Tag(p%d)/Contents %d 0 R", leaf, c)
				switch attr {
				case "own":
					a += own + fmt.Sprintf("/Rotate %d", leaf*90%360)
				case "root":
					if leaf%2 == 0 {
						a += "/Rotate 180/MediaBox[0 0 77 88]"
					}
				case "deep":
					if leaf == 1 {
						a += "/Rotate 0"
					}
				case "indirect":
					if leaf == 2 {
						a += "/Rotate 91 0 R/MediaBox 92 0 R"
					}
				case "odd":
					a += fmt.Sprintf("/Rotate %d", []int{-90, 450, -720, 360}[leaf%4])
				case "noise":
					a += "/PieceInfo<</Rotate 90/Parent 7 0 R/Kids[1 0 R]/Count 5>>/Note(/Rotate 180 /Parent 6 0 R \\( >>)/NB[<</Type/Pages>>(/Kids)]% /Rotate 270 >>\n/Rotate2 90"
				}
				if extra != nil {
					e, more := extra(leaf, n)
					a += e
					objs = append(objs, more...)
				}
				objs = append(objs, gen.Obj{Num: n, Body: fmt.Sprintf("<</Type/Page/Parent %d 0 R%s>>", me, a)},
					gen.Obj{Num: c, Body: "<<>>", Stream: true, Data: fmt.Sprintf("BT /F1 9 Tf 7 8 Td (page %d) Tj ET", leaf)})
				kids = append(kids, fmt.Sprintf("%d 0 R", n))
				count++
				continue
			}
			e, d := i+1, 1
			for ; d > 0; e++ {
				if s[e] == '(' {
					d++
				} else if s[e] == ')' {
					d--
				}
			}
			n := 21 + inner
			inner++
			a := ""
			switch attr {
			case "inner":
				a = []string{"/Rotate 90", "/Rotate 180/MediaBox[0 0 40 41]", "/CropBox[1 1 9 9]"}[inner%3]
			case "deep":
				if depth == 0 {
					a = "/Rotate 180"
				}
			case "noise":
				a = "/X<</Count 9/Kids[]>>/Y(/Count 3 /Kids [)"
			}
			count += build(s[i+1:e-1], n, me, depth+1, a)
			kids = append(kids, fmt.Sprintf("%d 0 R", n))
			i = e - 1
		}
		p := ""
		if parent != 0 {
			p = fmt.Sprintf("/Parent %d 0 R", parent)
		}
		k, cn := "["+strings.Join(kids, kidSep)+"]", fmt.Sprint(count)
		if attr == "indirect" {
			objs = append(objs, gen.Obj{Num: 100 + me, Body: k}, gen.Obj{Num: 200 + me, Body: cn})
			k, cn = fmt.Sprintf(" %d 0 R", 100+me), fmt.Sprintf("%d 0 R", 200+me)
		}
		objs = append(objs, gen.Obj{Num: me, Body: fmt.Sprintf("<</Type/Pages/Kids%s/Count %s%s%s>>", k, cn, p, attrs)})
		return count
	}
	build(shape, 2, 0, 0, rootAttr)
	objs = append(objs, gen.Obj{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R/PageMode/UseNone>>"})
	if k != nil {
		objs = k.Encrypt(objs, 40)
		objs = append(objs, gen.Obj{Num: 40, Body: k.Dict()})
		return layoutPages(objs, layout, fmt.Sprintf("/Root 1 0 R/Info 8 0 R/Encrypt 40 0 R/ID[<%X><%X>]", k.ID, k.ID))
	}
	return layoutPages(objs, layout, "/Root 1 0 R/Info 8 0 R")
}

// layoutPages writes objects in one of the page layouts.
func layoutPages(objs []gen.Obj, layout, trailer string) []byte {
	var revs []gen.Rev
	switch layout {
	case "table":
		revs = []gen.Rev{{Objs: objs, Trailer: trailer}}
	case "packed":
		for i := range objs {
			objs[i].Compressed = !objs[i].Stream
		}
		revs = []gen.Rev{{XRefStream: true, Objs: objs, Trailer: trailer, StmBase: 400, Opt: gen.Opt{PerStm: 3, StmFilter: "Flate"}}}
	case "updated": // the newest revision decides: the first one has other pages
		var old []gen.Obj
		for _, o := range objs {
			if strings.Contains(o.Body, "/Type/Page") && !strings.Contains(o.Body, "/Type/Pages") {
				o.Body = "<</Type/Page/Parent 2 0 R/MediaBox[0 0 1 1]/Rotate 270/Old true>>"
			} else if o.Num == 2 {
				o.Body = "<</Type/Pages/Kids[49 0 R]/Count 1>>"
			}
			old = append(old, o)
		}
		revs = []gen.Rev{{Objs: old, Trailer: trailer}, {XRefStream: true, Objs: objs, Trailer: trailer, StmBase: 400}}
	case "gen": // pages re-used object numbers
		g := map[int]bool{}
		for i := range objs {
			if objs[i].Num >= 40 && objs[i].Num <= 90 {
				objs[i].Gen = 3
				g[objs[i].Num] = true
			}
		}
		for i := range objs {
			for n := range g {
				objs[i].Body = strings.ReplaceAll(objs[i].Body, fmt.Sprintf("%d 0 R", n), fmt.Sprintf("%d 3 R", n))
			}
		}
		revs = []gen.Rev{{Objs: objs, Trailer: trailer}}
	}
	b, _ := gen.Build("1.7", revs)
	return b
}

// noGen replaces the generation of every reference by 0.
func noGen(o ref.Obj) ref.Obj {
	switch v := o.(type) {
	case ref.Ref:
		return ref.Ref{N: v.N}
	case ref.Arr:
		var out ref.Arr
		for _, x := range v {
			out = append(out, noGen(x))
		}
		return out
	case ref.Dict:
		out := ref.Dict{}
		for k, x := range v {
			out[k] = noGen(x)
		}
		return out
	case *ref.Stream:
		return &ref.Stream{D: noGen(v.D).(ref.Dict), Raw: v.Raw}
	}
	return o
}

// --- model -----------------------------------------------------------------

type mpage struct {
	num  int
	own  string // own entries but /Rotate and /Parent
	attr string // inherited attributes but /Rotate
	rot  int    // effective rotation, normalised
	text string
	box  [4]float64
}

func without(d ref.Dict, keys ...ref.Name) ref.Dict {
	out := ref.Dict{}
	for k, v := range d {
		out[k] = v
	}
	for _, k := range keys {
		delete(out, k)
	}
	return out
}

func resolveAttrs(f *ref.File, d ref.Dict) ref.Dict {
	out := ref.Dict{}
	for k, v := range d {
		out[k] = noGen(f.Resolve(v))
	}
	return out
}

func modelPages(f *ref.File) ([]mpage, error) {
	ps, err := f.Pages()
	if err != nil {
		return nil, err
	}
	var out []mpage
	for _, p := range ps {
		m := mpage{num: p.Num, own: ref.Canon(noGen(without(p.D, "Rotate", "Parent"))), attr: ref.Canon(resolveAttrs(f, without(p.Attr, "Rotate")))}
		if r, ok := p.Attr["Rotate"]; ok {
			n, ok := ref.Int(f.Resolve(r))
			if !ok {
				return nil, fmt.Errorf("page %d: /Rotate %s", p.Num, ref.Canon(r))
			}
			m.rot = (n%360 + 360) % 360
		}
		if a, ok := f.Resolve(p.Attr["MediaBox"]).(ref.Arr); ok && len(a) == 4 {
			for i := range a {
				m.box[i], _ = ref.Float(a[i])
			}
		}
		if s, ok := f.Resolve(p.D["Contents"]).(*ref.Stream); ok {
			if i, j := bytes.Index(s.Raw, []byte("(")), bytes.LastIndex(s.Raw, []byte(")")); i >= 0 && j > i {
				m.text = string(s.Raw[i+1 : j])
			}
		}
		out = append(out, m)
	}
	return out, nil
}

// otherObjects are the semantic values of the objects that are not pages or page tree nodes.
func otherObjects(f *ref.File) map[int]string {
	out := map[int]string{}
	for _, n := range f.Nums() {
		o, _, err := f.Get(n)
		if err != nil || infra(o) || n > 100 && n < 400 { // lengths of the tree kept indirectly may change
			continue
		}
		d, _ := o.(ref.Dict)
		if d != nil && d["Type"] == ref.Name("Page") {
			continue
		}
		if d != nil && d["Type"] == ref.Name("Pages") {
			o = without(d, "Kids", "Count")
		}
		out[n] = semantic(noGen(o))
	}
	return out
}

// --- operations ------------------------------------------------------------

type pop struct {
	name string
	do   func(m *manipulate.PDFManipulator, step int) error
	// model returns the pages afterwards, or ok=false if the call must fail
	model func(p []mpage, step int) ([]mpage, bool)
}

const insertedBox = 123

func insertedPage(step int) (int, string, mpage) {
	num := 500 + step
	body := fmt.Sprintf("<</Type/Page/Tag(new%d)/MediaBox[0 0 %d 9]/CropBox[0 0 5 5]/Resources<</Font<</F1 90 0 R>>>>/Rotate 90/Parent 7777 0 R>>", step, insertedBox)
	d, _ := ref.ParseOne([]byte(body))
	m := mpage{num: num, rot: 90, own: ref.Canon(without(d.(ref.Dict), "Rotate", "Parent")), box: [4]float64{0, 0, insertedBox, 9}}
	m.attr = ref.Canon(ref.Dict{"MediaBox": d.(ref.Dict)["MediaBox"], "CropBox": d.(ref.Dict)["CropBox"], "Resources": d.(ref.Dict)["Resources"]})
	return num, body, m
}

func clonePages(p []mpage) []mpage { return append([]mpage{}, p...) }

func pageOps(n int, full bool) []pop {
	var ops []pop
	rot := func(k, a int) {
		ops = append(ops, pop{fmt.Sprintf("R%d,%d", k, a), func(m *manipulate.PDFManipulator, _ int) error { return m.RotatePage(k, a) },
			func(p []mpage, _ int) ([]mpage, bool) {
				if k < 1 || k > len(p) || a != 90 && a != 180 && a != 270 {
					return p, false
				}
				p = clonePages(p)
				p[k-1].rot = (p[k-1].rot + a) % 360
				return p, true
			}})
	}
	for k := -1; k <= n+1; k++ {
		if k >= 1 && k <= n || full {
			rot(k, 90)
		}
		if full && k == 1 {
			for _, a := range []int{180, 270, 0, 45, 360, -90} {
				rot(k, a)
			}
		}
	}
	for _, a := range []int{90, 180, 270, 91} {
		if !full && a != 270 {
			continue
		}
		a := a
		ops = append(ops, pop{fmt.Sprintf("RA%d", a), func(m *manipulate.PDFManipulator, _ int) error { return m.RotateAllPages(a) },
			func(p []mpage, _ int) ([]mpage, bool) {
				if a == 91 {
					return p, len(p) == 0
				}
				p = clonePages(p)
				for i := range p {
					p[i].rot = (p[i].rot + a) % 360
				}
				return p, true
			}})
	}
	for k := -1; k <= n+1; k++ {
		k := k
		if !full && (k < 1 || k > n) {
			continue
		}
		ops = append(ops, pop{fmt.Sprintf("D%d", k), func(m *manipulate.PDFManipulator, _ int) error { return m.DeletePage(k) },
			func(p []mpage, _ int) ([]mpage, bool) {
				if k < 1 || k > len(p) || len(p) == 1 {
					return p, false
				}
				return append(clonePages(p[:k-1]), p[k:]...), true
			}})
	}
	lists := [][]int{{}, {0}, {n + 1}, {1, 1}, {n, 1}, {1, n}, {2, 3, 2}, {1, n + 1}, {3, 2, 1}, {2, 1}}
	if n > 0 {
		var all []int
		for k := 1; k <= n; k++ {
			all = append(all, k)
		}
		lists = append(lists, all)
	}
	if !full {
		lists = [][]int{{n, 1}, {1, 2}}
	}
	for _, l := range lists {
		l := l
		ops = append(ops, pop{fmt.Sprintf("DS%v", l), func(m *manipulate.PDFManipulator, _ int) error {
			in := append([]int{}, l...)
			err := m.DeletePages(in)
			if !eqInts(in, l) {
				return fmt.Errorf("MUTATED: list became %v", in)
			}
			return err
		}, func(p []mpage, _ int) ([]mpage, bool) {
			del := map[int]bool{}
			for _, k := range l {
				if k < 1 || k > len(p) {
					return p, false
				}
				del[k] = true
			}
			if len(del) > 0 && len(del) == len(p) {
				return p, false
			}
			var out []mpage
			for i := range p {
				if !del[i+1] {
					out = append(out, p[i])
				}
			}
			return out, true
		}})
	}
	for k := -1; k <= n+2; k++ {
		k := k
		if !full && (k < 0 || k > n) {
			continue
		}
		ops = append(ops, pop{fmt.Sprintf("I%d", k), func(m *manipulate.PDFManipulator, step int) error {
			num, body, _ := insertedPage(step)
			return m.InsertPage(k, num, []byte(body))
		}, func(p []mpage, step int) ([]mpage, bool) {
			_, _, np := insertedPage(step)
			if k < 0 || k > len(p)+1 {
				return p, false
			}
			if k == 0 || k > len(p) {
				return append(clonePages(p), np), true
			}
			out := append(clonePages(p[:k-1]), np)
			return append(out, p[k-1:]...), true
		}})
	}
	return ops
}

func init() {
	core.Register(&core.Prop{ID: "P10", Level: "model_checking", Run: runPages,
		Rule: "A case is one source document (page tree shape x attribute placement x file layout) and one sequence of page operations (rotate, rotate all, delete, delete several, insert, with valid and invalid arguments), executed on the real manipulator and on a list-of-pages model; distinct by document, sequence and resulting page list. Non-trivial: the source document is confirmed by the strict oracle first.",
	})
}

func runPages(c *core.Ctx) {
	sh := shapes(3, 2)
	type pc struct {
		shape, attr, layout string
		seq                 []int
		full                bool
	}
	var cases []pc
	leaves := func(s string) int { return strings.Count(s, ".") }
	add := func(s, a, l string, full bool, depth int) {
		n := len(pageOps(leaves(s), full))
		var rec func(seq []int)
		rec = func(seq []int) {
			cases = append(cases, pc{s, a, l, append([]int{}, seq...), full})
			if len(seq) < depth {
				for i := 0; i < n; i++ {
					rec(append(seq, i))
				}
			}
		}
		rec(nil)
	}
	big := shapes(4, 3)
	for _, s := range sh {
		for _, a := range pageAttrs {
			for _, l := range pageLayouts {
				if c.Thorough() || strings.Count(s, "(") < 2 || l == "table" || a == "deep" {
					add(s, a, l, true, 1)
				}
			}
			if c.Thorough() || strings.Count(s, "(") < 2 && a != "own" || a == "inner" && strings.Count(s, ".") == 3 {
				add(s, a, "table", false, 2)
			}
			if c.Thorough() && strings.Count(s, "(") < 2 {
				add(s, a, "table", false, 3)
			}
		}
	}
	if c.Thorough() {
		for _, s := range big {
			for _, a := range pageAttrs {
				add(s, a, "packed", false, 2)
			}
		}
	}
	for _, s := range []string{"..", ".(..)", "(.).(.)", "((.).)"} {
		add(s, "inner", "packed", true, core.Pick(c, 2, 3))
		add(s, "deep", "table", false, core.Pick(c, 3, 4))
	}
	c.ForEach("tree", len(cases), func(i int) string {
		k := cases[i]
		return fmt.Sprintf("%q/%s/%s/%v/%v", k.shape, k.attr, k.layout, k.full, k.seq)
	}, func(t *core.T, i int) {
		k := cases[i]
		ops := pageOps(leaves(k.shape), k.full)
		src := pageDoc(k.shape, k.attr, k.layout)
		in := append([]byte{}, src...)
		t.Attach("source.pdf", src)
		f, err := ref.Open(src)
		if err == nil {
			err = f.CheckAll()
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
		model, err := modelPages(f)
		if err != nil {
			panic("harness: " + err.Error())
		}
		others := otherObjects(f)
		m, err := manipulate.NewPDFManipulator(src, nil, false)
		t.Step(1)
		if err != nil {
			t.Fail("open", "%v", err)
			return
		}
		var trace []string
		for step, o := range k.seq {
			op := ops[o]
			err := op.do(m, step)
			t.Step(1)
			next, ok := op.model(model, step)
			trace = append(trace, op.name)
			if (err == nil) != ok {
				t.Fail("result", "%v: error %v, but the operation should succeed: %v (%d pages)", trace, err, ok, len(model))
				return
			}
			if err != nil && strings.HasPrefix(err.Error(), "MUTATED") {
				t.Fail("arg", "%v: %v", trace, err)
			}
			model = next
			t.Outcome(fmt.Sprint(op.name[:1], ok))
		}
		for round := 0; round < 2; round++ {
			out, err := m.Rebuild()
			t.Step(1)
			if err != nil {
				t.Fail("rebuild", "%v: %v", trace, err)
				return
			}
			if round == 1 && len(k.seq) > 1 {
				break
			}
			t.Attach("rebuilt.pdf", out)
			if !checkPages(t, fmt.Sprint(trace), out, model, others) {
				return
			}
		}
		if !bytes.Equal(src, in) {
			t.Fail("input", "%v: the input was modified", trace)
		}
		t.State(fmt.Sprint(k.attr, k.layout, model))
	})
}

func checkPages(t *core.T, tag string, out []byte, model []mpage, others map[int]string) bool {
	g, err := ref.Open(out)
	if err == nil {
		err = g.CheckAll()
	}
	if err == nil {
		err = g.CheckRefs()
	}
	if err != nil {
		t.Fail("strict", "%s: the output is not valid: %v", tag, err)
		return false
	}
	got, err := modelPages(g)
	if err != nil {
		t.Fail("tree", "%s: %v", tag, err)
		return false
	}
	if fmt.Sprint(got) != fmt.Sprint(model) {
		t.Fail("pages", "%s: pages are %v, want %v", tag, got, model)
		return false
	}
	have := otherObjects(g)
	for n, w := range others {
		if have[n] != w {
			t.Fail("other", "%s: object %d became %s, was %s", tag, n, clips(have[n]), clips(w))
			return false
		}
	}
	doc, err := extract.ExtractContent(out, nil, false)
	t.Step(1)
	if err != nil {
		t.Fail("extract", "%s: %v", tag, err)
		return false
	}
	var a, b []string
	for i, p := range doc.Pages {
		s := ""
		for _, e := range p.Text {
			s += e.Text
		}
		a = append(a, fmt.Sprint(i, p.PageNumber, s, (p.Rotation%360+360)%360, p.Width, p.Height))
	}
	for i, p := range model {
		b = append(b, fmt.Sprint(i, i+1, p.text, p.rot, p.box[2]-p.box[0], p.box[3]-p.box[1]))
	}
	if strings.Join(a, ";") != strings.Join(b, ";") {
		t.Fail("extract", "%s: extraction sees %v, want %v", tag, a, b)
		return false
	}
	return true
}
