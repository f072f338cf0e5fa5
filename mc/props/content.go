package props

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"verifmc/core"
	"verifmc/gen"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
)

func init() {
	core.Register(&core.Prop{ID: "P14", Level: "model_checking", Run: runContent,
		Rule: "A program case is one legal content stream program (sequence of operators), executed by an independent interpreter of the graphics and text state and extracted by the library, once written out by hand and once drawn with the page builder; all programs up to the stated length are run. A form case is one program in one deviation of its lexical form or its division into streams. Non-trivial: the program shows text, draws a rectangle, line or image after at least one state change.",
		Assumptions: []string{
			"text positions are those of the text line matrix (advance by glyph widths, which needs font metrics, is not claimed); special colour spaces and form XObjects are outside the bound",
		},
	})
}

// --- model of the graphics state --------------------------------------------

type mat [6]float64

func (a mat) mul(b mat) mat { // a applied first
	var r mat
	for i := 0; i < 3; i++ {
		row := [3]float64{a[2*i], a[2*i+1], 0}
		if i == 2 {
			row[2] = 1
		}
		for j := 0; j < 2; j++ {
			r[2*i+j] = row[0]*b[j] + row[1]*b[2+j] + row[2]*b[4+j]
		}
	}
	return r
}

var ident = mat{1, 0, 0, 1, 0, 0}

type gparams struct {
	ctm              mat
	fill, stroke     string
	lw               float64
	font             string
	size, tc, tw, ts float64
	tl               float64
}

type cstate struct {
	g     gparams
	stack []gparams
	lm    mat  // text line matrix
	mode  byte // p: page level, t: text object
	marks int
	text  []string
	shape []string
	imgs  []string
}

func (s *cstate) clone() *cstate {
	c := *s
	c.stack = append([]gparams(nil), s.stack...)
	c.text = append([]string(nil), s.text...)
	c.shape = append([]string(nil), s.shape...)
	c.imgs = append([]string(nil), s.imgs...)
	return &c
}

func num(f float64) string {
	r := math.Round(f*1000) / 1000
	if r == 0 {
		r = 0
	}
	return fmt.Sprintf("%g", r)
}

func nums(fs ...float64) string {
	var out []string
	for _, f := range fs {
		out = append(out, num(f))
	}
	return strings.Join(out, " ")
}

func (s *cstate) show(raw string) {
	t := ""
	for _, c := range []byte(raw) { // the two fonts of the documents
		if s.g.font == "/F2" && c >= 'A' && c <= 'Y' {
			c++
		}
		t += string(rune(c))
	}
	s.text = append(s.text, fmt.Sprintf("%q %s %s c%s w%s r%s [%s]", t, s.g.font, num(s.g.size), num(s.g.tc), num(s.g.tw), num(s.g.ts), nums(s.lm[:]...)))
}

func (s *cstate) next(tx, ty float64) { s.lm = mat{1, 0, 0, 1, tx, ty}.mul(s.lm) }

func (s *cstate) rect(x, y, w, h float64) {
	s.shape = append(s.shape, fmt.Sprintf("rectangle [%s] %s %s %s", nums(math.Min(x, x+w), math.Min(y, y+h), math.Max(x, x+w), math.Max(y, y+h)), s.g.fill, s.g.stroke, num(s.g.lw)))
}

func (s *cstate) line() {
	s.shape = append(s.shape, fmt.Sprintf("line %s %s", s.g.stroke, num(s.g.lw)))
}

func (s *cstate) draw(name string) {
	m := s.g.ctm
	s.imgs = append(s.imgs, fmt.Sprintf("%s [%s]", name, nums(m[:]...)))
}

func newCState() *cstate {
	return &cstate{mode: 'p', g: gparams{ctm: ident, fill: "rgb 0 0 0", stroke: "rgb 0 0 0", lw: 1}}
}

// cop is one operation: its legal place (p page level, t text object, a both), its source,
// its effect on the model and its call of the content builder (nil: none, raw is used).
type cop struct {
	where byte
	src   string
	ok    func(*cstate) bool
	do    func(*cstate)
	api   func(*write.ContentStream)
	core  bool // also in the deeper exploration
}

func setText(f func(*gparams)) func(*cstate) { return func(s *cstate) { f(&s.g) } }

func drawOps() []cop {
	type C = write.ContentStream
	nop := func(*cstate) {}
	cm := func(m mat) func(*cstate) { return func(s *cstate) { s.g.ctm = m.mul(s.g.ctm) } }
	return []cop{
		{'p', "q", nil, func(s *cstate) { s.stack = append(s.stack, s.g) }, func(c *C) { c.SaveState() }, true},
		{'p', "Q", func(s *cstate) bool { return len(s.stack) > 0 }, func(s *cstate) { s.g = s.stack[len(s.stack)-1]; s.stack = s.stack[:len(s.stack)-1] }, func(c *C) { c.RestoreState() }, true},
		{'p', "2 0 0 3 10 20 cm", nil, cm(mat{2, 0, 0, 3, 10, 20}), func(c *C) { c.SetMatrix(2, 0, 0, 3, 10, 20) }, true},
		{'p', "0 1 -1 .5 5 -7 cm", nil, cm(mat{0, 1, -1, .5, 5, -7}), func(c *C) { c.SetMatrix(0, 1, -1, .5, 5, -7) }, true},
		{'p', "-1 0 0 -1 0 8 cm", nil, cm(mat{-1, 0, 0, -1, 0, 8}), func(c *C) { c.Scale(-1, -1).Translate(0, -8) }, false},
		{'p', "/I1 Do", nil, func(s *cstate) { s.draw("/I1") }, func(c *C) { c.DrawImage("/I1") }, true},
		{'p', "q 30 0 0 40 5 6 cm /I2 Do Q", nil, func(s *cstate) { k := s.g.ctm; s.g.ctm = mat{30, 0, 0, 40, 5, 6}.mul(k); s.draw("/I2"); s.g.ctm = k }, func(c *C) { c.DrawImageAt("/I2", 5, 6, 30, 40) }, false},
		{'p', "1 2 3 4 re f", nil, func(s *cstate) { s.rect(1, 2, 3, 4) }, func(c *C) { c.Rectangle(1, 2, 3, 4).Fill() }, true},
		{'p', "-5 6.5 -7 -.8 re S", nil, func(s *cstate) { s.rect(-5, 6.5, -7, -.8) }, func(c *C) { c.Rectangle(-5, 6.5, -7, -.8).Stroke() }, false},
		{'p', "1 2 m 3 4 l S", nil, func(s *cstate) { s.line() }, func(c *C) { c.MoveTo(1, 2).LineTo(3, 4).Stroke() }, false},
		{'p', "1 2 m 3 4 l 1 1 2 2 3 3 c 9 9 l h 0 0 1 1 re B*", nil, func(s *cstate) { s.line(); s.line(); s.rect(0, 0, 1, 1) }, func(c *C) {
			c.MoveTo(1, 2).LineTo(3, 4).CurveTo(1, 1, 2, 2, 3, 3).LineTo(9, 9).ClosePath().Rectangle(0, 0, 1, 1).FillStroke()
		}, false},
		{'p', "1 1 8 8 re W n", nil, func(s *cstate) { s.rect(1, 1, 8, 8) }, nil, false},
		{'p', "BI /W 2 /H 1 /BPC 8 /CS /G ID (Q EI", nil, nop, nil, false},
		{'p', "BT", nil, func(s *cstate) { s.mode = 't'; s.lm = ident }, func(c *C) { c.BeginText() }, true},
		{'a', "1 0 0 rg", nil, setText(func(g *gparams) { g.fill = "rgb 1 0 0" }), func(c *C) { c.SetFillColorRGB(1, 0, 0) }, true},
		{'a', "0 .5 1 RG", nil, setText(func(g *gparams) { g.stroke = "rgb 0 0.5 1" }), func(c *C) { c.SetStrokeColorRGB(0, .5, 1) }, false},
		{'a', ".25 g", nil, setText(func(g *gparams) { g.fill = "gray 0.25" }), func(c *C) { c.SetFillColorGray(.25) }, false},
		{'a', ".75 G", nil, setText(func(g *gparams) { g.stroke = "gray 0.75" }), func(c *C) { c.SetStrokeColorGray(.75) }, true},
		{'a', "0 .2 .4 1 k", nil, setText(func(g *gparams) { g.fill = "cmyk 0 0.2 0.4 1" }), nil, false},
		{'a', "1 0 0 .5 K", nil, setText(func(g *gparams) { g.stroke = "cmyk 1 0 0 0.5" }), nil, false},
		{'a', "5 w", nil, setText(func(g *gparams) { g.lw = 5 }), func(c *C) { c.SetLineWidth(5) }, false},
		{'a', "/F1 12 Tf", nil, setText(func(g *gparams) { g.font, g.size = "/F1", 12 }), func(c *C) { c.SetFont("/F1", 12) }, false},
		{'a', "/F2 -8.5 Tf", nil, setText(func(g *gparams) { g.font, g.size = "/F2", -8.5 }), func(c *C) { c.SetFont("/F2", -8.5) }, true},
		{'a', "2 Tc", nil, setText(func(g *gparams) { g.tc = 2 }), func(c *C) { c.SetCharSpacing(2) }, false},
		{'a', "-1.5 Tw", nil, setText(func(g *gparams) { g.tw = -1.5 }), func(c *C) { c.SetWordSpacing(-1.5) }, false},
		{'a', "3 Ts", nil, setText(func(g *gparams) { g.ts = 3 }), func(c *C) { c.SetTextRise(3) }, false},
		{'a', "14 TL", nil, setText(func(g *gparams) { g.tl = 14 }), func(c *C) { c.SetTextLeading(14) }, true},
		{'a', "90 Tz 3 Tr /GS gs [3 2] 0 d 1 J", nil, nop, func(c *C) { c.SetTextRenderMode(3).SetLineDash([]float64{3, 2}, 0) }, false},
		{'a', "/P <</MCID 0/ActualText(BT q (1) Tj)>> BDC", nil, func(s *cstate) { s.marks++ }, nil, false},
		{'a', "EMC", func(s *cstate) bool { return s.marks > 0 }, func(s *cstate) { s.marks-- }, nil, false},
		{'t', "10 20 Td", nil, func(s *cstate) { s.next(10, 20) }, func(c *C) { c.SetTextPosition(10, 20) }, true},
		{'t', "-3 .5 TD", nil, func(s *cstate) { s.g.tl = -.5; s.next(-3, .5) }, func(c *C) { c.MoveTextPosition(-3, .5) }, false},
		{'t', "T*", nil, func(s *cstate) { s.next(0, -s.g.tl) }, func(c *C) { c.NextLine() }, true},
		{'t', "2 0 0 2 30 40 Tm", nil, func(s *cstate) { s.lm = mat{2, 0, 0, 2, 30, 40} }, func(c *C) { c.SetTextMatrix(2, 0, 0, 2, 30, 40) }, true},
		{'t', "0 1 -1 0 1 2 Tm", nil, func(s *cstate) { s.lm = mat{0, 1, -1, 0, 1, 2} }, func(c *C) { c.SetTextMatrix(0, 1, -1, 0, 1, 2) }, false},
		{'t', "(A) Tj", nil, func(s *cstate) { s.show("A") }, func(c *C) { c.ShowText("A") }, true},
		{'t', "<4C> Tj", nil, func(s *cstate) { s.show("L") }, func(c *C) { c.ShowTextHex("4C") }, false},
		{'t', `[(C\)) -120.5(B) <42 45> 3]TJ`, nil, func(s *cstate) { s.show("C)BBE") }, func(c *C) { c.ShowTextArray([]interface{}{"C)", -120.5, "B", "BE", 3}) }, false},
		{'t', "(F)'", nil, func(s *cstate) { s.next(0, -s.g.tl); s.show("F") }, func(c *C) { c.ShowTextNextLine("F") }, true},
		{'t', `1 -2 (G) "`, nil, func(s *cstate) { s.g.tw, s.g.tc = 1, -2; s.next(0, -s.g.tl); s.show("G") }, nil, false},
		{'t', "ET", nil, func(s *cstate) { s.mode = 'p' }, func(c *C) { c.EndText() }, true},
	}
}

func (o cop) legal(s *cstate) bool {
	return (o.where == 'a' || o.where == s.mode) && (o.ok == nil || o.ok(s))
}

// probe shows the whole state at the end of a program.
func probe(s *cstate) []cop {
	var out []cop
	byName := map[string]cop{}
	for _, o := range drawOps() {
		byName[o.src] = o
	}
	names := []string{"(A) Tj", "T*", "(A) Tj", "ET"}
	if s.mode == 'p' {
		names = nil
	}
	for i := 0; i < s.marks; i++ {
		names = append(names, "EMC")
	}
	names = append(names, "1 2 3 4 re f", "/I1 Do")
	for i := 0; i < len(s.stack); i++ {
		names = append(names, "Q", "1 2 m 3 4 l S", "1 2 3 4 re f", "/I1 Do", "BT", "(A) Tj", "ET")
	}
	if s.mode == 'p' && len(s.stack) == 0 {
		names = append(names, "BT", "(A) Tj", "T*", "(A) Tj", "ET")
	}
	for _, n := range names {
		out = append(out, byName[n])
	}
	return out
}

// program is a complete program with its model result.
type program struct {
	ops  []cop
	want *cstate
}

func (p program) src() string {
	var b []string
	for _, o := range p.ops {
		b = append(b, o.src)
	}
	return strings.Join(b, "\n")
}

func makeProgram(ops []cop) program {
	s := newCState()
	all := append([]cop{fontOp}, ops...)
	for _, o := range all {
		o.do(s)
	}
	for _, o := range probe(s) {
		o.do(s)
		all = append(all, o)
	}
	return program{all, s}
}

var fontOp = cop{'a', "/F1 10 Tf", nil, setText(func(g *gparams) { g.font, g.size = "/F1", 10 }), func(c *write.ContentStream) { c.SetFont("/F1", 10) }, true}

// extend lists all legal extensions of a prefix by up to n operations, including none.
func extend(ops []cop, s *cstate, pre []int, n int, visit func([]int)) {
	visit(pre)
	if n == 0 {
		return
	}
	for i, o := range ops {
		if !o.legal(s) {
			continue
		}
		c := s.clone()
		o.do(c)
		extend(ops, c, append(pre[:len(pre):len(pre)], i), n-1, visit)
	}
}

func cfonts() (string, []gen.Obj) {
	return "/Font<</F1 90 0 R/F2 91 0 R>>/XObject<</I1 92 0 R/I2 92 0 R>>", []gen.Obj{
		{Num: 90, Body: "<</Type/Font/Subtype/Type1/BaseFont/Helvetica/Encoding/WinAnsiEncoding>>"},
		{Num: 91, Body: "<</Type/Font/Subtype/Type1/BaseFont/Times-Roman/Encoding<</Type/Encoding/BaseEncoding/WinAnsiEncoding/Differences[65/B/C/D/E/F/G/H/I/J/K/L/M/N/O/P/Q/R/S/T/U/V/W/X/Y/Z]>>>>"},
		{Num: 92, Body: "<</Type/XObject/Subtype/Image/Width 1/Height 1/BitsPerComponent 8/ColorSpace/DeviceGray>>", Stream: true, Data: "\x80"},
	}
}

// contentDoc makes a document with one page per list of content streams.
func contentDoc(pages [][]string, array func(refs []string) string) []byte {
	res, objs := cfonts()
	kids := ""
	n := 100
	for _, p := range pages {
		kids += fmt.Sprintf("%d 0 R ", n)
		page := n
		n++
		var refs []string
		for _, s := range p {
			objs = append(objs, gen.Obj{Num: n, Body: "<<>>", Stream: true, Data: s})
			refs = append(refs, fmt.Sprintf("%d 0 R", n))
			n++
		}
		c := refs[0]
		if array != nil {
			c = array(refs)
		} else if len(refs) > 1 {
			c = "[" + strings.Join(refs, " ") + "]"
		}
		objs = append(objs, gen.Obj{Num: page, Body: "<</Type/Page/Parent 2 0 R/Contents " + c + ">>"})
	}
	objs = append(objs, gen.Obj{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"},
		gen.Obj{Num: 2, Body: fmt.Sprintf("<</Type/Pages/MediaBox[0 0 600 800]/Resources<<%s>>/Kids[%s]/Count %d>>", res, kids, len(pages))})
	b, _ := gen.Build("1.7", []gen.Rev{{Trailer: "/Root 1 0 R", Objs: objs}})
	return b
}

func colorText(c *types.Color) string {
	if c == nil {
		return "none"
	}
	switch c.Space {
	case "", types.ColorSpaceRGB:
		return "rgb " + nums(c.R, c.G, c.B)
	case types.ColorSpaceGray:
		return "gray " + num(c.R)
	case types.ColorSpaceCMYK:
		return "cmyk " + nums(c.C, c.M, c.Y, c.K)
	}
	return string(c.Space)
}

// seen is what the library extracted, in the notation of the model.
func seen(p *types.Page) (text, shape, imgs []string) {
	for _, e := range p.Text {
		m := e.TextMatrix
		if num(e.X) != num(m[4]) || num(e.Y) != num(m[5]) {
			text = append(text, fmt.Sprintf("position %v %v differs from the matrix %v", e.X, e.Y, m))
		}
		text = append(text, fmt.Sprintf("%q %s %s c%s w%s r%s [%s]", e.Text, e.FontName, num(e.FontSize), num(e.CharSpacing), num(e.WordSpacing), num(e.TextRise), nums(m[:]...)))
	}
	for _, g := range p.Graphics {
		if g.Type == types.GraphicTypeLine {
			shape = append(shape, fmt.Sprintf("line %s %s", colorText(g.StrokeColor), num(g.LineWidth)))
			continue
		}
		b := g.BoundingBox
		if b == nil {
			b = &types.Rectangle{}
		}
		shape = append(shape, fmt.Sprintf("%s [%s] %s %s %s", g.Type, nums(b.LowerX, b.LowerY, b.UpperX, b.UpperY), colorText(g.FillColor), colorText(g.StrokeColor), num(g.LineWidth)))
	}
	for _, i := range p.Images {
		m := i.Transform
		imgs = append(imgs, fmt.Sprintf("%s [%s]", i.ImageID, nums(m[:]...)))
		if num(i.X) != num(m[4]) || num(i.Y) != num(m[5]) {
			imgs = append(imgs, fmt.Sprintf("position %v %v differs from the matrix %v", i.X, i.Y, m))
		}
		if m[1] == 0 && m[2] == 0 && (num(i.Width) != num(math.Abs(m[0])) || num(i.Height) != num(math.Abs(m[3]))) {
			imgs = append(imgs, fmt.Sprintf("size %v %v differs from the matrix %v", i.Width, i.Height, m))
		}
	}
	return
}

func comparePage(t *core.T, tag, src string, p *types.Page, w *cstate) bool {
	text, shape, imgs := seen(p)
	for _, x := range []struct {
		what      string
		got, want []string
	}{{"text", text, w.text}, {"graphics", shape, w.shape}, {"images", imgs, w.imgs}} {
		if g, w := strings.Join(x.got, "; "), strings.Join(x.want, "; "); g != w {
			t.Fail(tag+":"+x.what, "%q: %s is %s; want %s", src, x.what, g, w)
			return false
		}
	}
	return true
}

func runContent(c *core.Ctx) {
	runContentPrograms(c)
	runContentForms(c)
	runContentStrings(c)
	runContentFonts(c)
}

func runContentPrograms(c *core.Ctx) {
	run := func(section string, ops []cop, depth, tail int) {
		var prefixes [][]int
		extend(ops, newCState(), nil, depth-tail, func(p []int) { prefixes = append(prefixes, p) })
		c.ForEach(section, len(prefixes), func(i int) string {
			var n []string
			for _, k := range prefixes[i] {
				n = append(n, fmt.Sprint(k))
			}
			return "p" + strings.Join(n, ".")
		}, func(t *core.T, i int) {
			pre := prefixes[i]
			s := newCState()
			for _, k := range pre {
				ops[k].do(s)
			}
			var progs []program
			add := func(p []int) {
				var l []cop
				for _, k := range p {
					l = append(l, ops[k])
				}
				progs = append(progs, makeProgram(l))
			}
			if len(pre) < depth-tail {
				add(pre) // longer ones belong to the case of their own prefix
			} else {
				extend(ops, s, pre, tail, add)
			}
			runPrograms(t, progs)
		})
	}
	all := drawOps()
	var few []cop
	for _, o := range all {
		if o.core {
			few = append(few, o)
		}
	}
	run("programs", all, core.Pick(c, 3, 4), 2)
	run("deep", few, core.Pick(c, 4, 5), 2)
}

func runPrograms(t *core.T, progs []program) {
	var pages [][]string
	for _, p := range progs {
		pages = append(pages, []string{p.src()})
		w := p.want
		t.State(fmt.Sprint(w.g, w.stack, w.lm, w.mode, len(w.text), len(w.shape), len(w.imgs)))
	}
	pdf := contentDoc(pages, nil)
	checkPrograms(t, "raw", pdf, progs)

	// the same programs drawn with the page builder
	b := write.NewSimplePDFBuilder()
	for _, p := range progs {
		pb := b.AddPage(write.PageSizeA4)
		if n := pb.AddStandardFont("Helvetica"); n != "/F1" {
			t.Fail("builder:font", "the first font is %s", n)
			return
		}
		pb.AddImage(&write.ImageInfo{Name: "/I1", ObjectNum: 1})
		pb.AddImage(&write.ImageInfo{Name: "I2", ObjectNum: 1})
		for _, o := range p.ops {
			if o.api != nil {
				o.api(pb.Content())
			} else {
				pb.Content().Raw(o.src)
			}
		}
		pb.AddStandardFont("Times-Roman")
		b.FinalizePage(pb)
	}
	out, err := b.Bytes()
	if err != nil {
		t.Fail("builder:bytes", "%v", err)
		return
	}
	// without Differences, font F2 shows the same text as F1
	for i, p := range progs {
		s := newCState()
		for _, o := range p.ops {
			o.do(s)
		}
		for j := range s.text {
			s.text[j] = plainF2(s.text[j])
		}
		progs[i].want = s
	}
	checkPrograms(t, "builder", out, progs)
}

// plainF2 undoes the code shift of font F2 in a text entry of the model.
func plainF2(e string) string {
	q := strings.IndexByte(e, '/')
	if !strings.HasPrefix(e[q:], "/F2") {
		return e
	}
	return strings.Map(func(r rune) rune {
		if r >= 'B' && r <= 'Z' {
			return r - 1
		}
		return r
	}, e[:q]) + e[q:]
}

func checkPrograms(t *core.T, tag string, pdf []byte, progs []program) {
	in := append([]byte(nil), pdf...)
	doc, err := extract.ExtractContent(pdf, nil, false)
	t.Step(len(progs))
	if err != nil || len(doc.Pages) != len(progs) {
		t.Fail(tag+":extract", "%d programs: error %v", len(progs), err)
		return
	}
	for i, p := range progs {
		if !comparePage(t, tag, p.src(), &doc.Pages[i], p.want) {
			t.Attach("content.txt", []byte(p.src()))
			return
		}
		t.Outcome(fmt.Sprint(len(doc.Pages[i].Text), len(doc.Pages[i].Graphics), len(doc.Pages[i].Images)))
	}
	if !bytes.Equal(in, pdf) {
		t.Fail(tag+":input", "the input was modified")
	}
}
