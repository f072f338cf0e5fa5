package props

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/benedoc-inc/pdfer/core/write"

	"verifmc/core"
	"verifmc/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:          "P20",
		Level:       "model_checking",
		Rule:        "real content streams and page builders against the list of operators the calls name, read by an independent lexer",
		Assumptions: []string{"content numbers are written with 4 decimals; operands are compared to half a unit of the last one"},
		Run: func(c *core.Ctx) {
			runDrawValues(c)
			runDrawSequences(c)
			runDrawPages(c)
		},
	})
}

// op is one operator of content with its operands.
type op struct {
	name string
	args []ref.Obj
}

// readOps divides content into operators; no operand may be left over and every
// operator must be on its own.
func readOps(b []byte) ([]op, error) {
	l := ref.NewLex(b, 0)
	var out []op
	var args []ref.Obj
	for {
		l.SkipWS()
		if l.P >= len(b) {
			break
		}
		o, err := l.Next()
		if err != nil {
			return out, err
		}
		if k, ok := o.(ref.Keyword); ok {
			out = append(out, op{string(k), args})
			args = nil
			continue
		}
		args = append(args, o)
	}
	if len(args) > 0 {
		return out, fmt.Errorf("operands %v without operator", args)
	}
	return out, nil
}

// sameArg compares an operand with a float64, int, ref.Name, ref.Str or []interface{}.
func sameArg(got ref.Obj, want interface{}) bool {
	switch w := want.(type) {
	case int:
		n, ok := ref.Int(got)
		return ok && n == w
	case float64:
		f, ok := ref.Float(got)
		return ok && math.Abs(f-w) <= 5.0001e-5+math.Abs(w)*1e-12
	case []interface{}:
		a, ok := got.(ref.Arr)
		if !ok || len(a) != len(w) {
			return false
		}
		for i := range a {
			if !sameArg(a[i], w[i]) {
				return false
			}
		}
		return true
	case ref.Str:
		s, ok := got.(ref.Str)
		return ok && string(s) == string(w)
	}
	return got == want
}

type wantOp struct {
	name string
	args []interface{}
}

func diffOps(got []op, want []wantOp) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) {
			return fmt.Sprintf("operator %d: %s %v is missing", i, want[i].name, want[i].args)
		}
		if i >= len(want) {
			return fmt.Sprintf("operator %d: %s %v is too many", i, got[i].name, got[i].args)
		}
		same := got[i].name == want[i].name && len(got[i].args) == len(want[i].args)
		for k := 0; same && k < len(got[i].args); k++ {
			same = sameArg(got[i].args[k], want[i].args[k])
		}
		if !same {
			return fmt.Sprintf("operator %d is %s %v, want %s %v", i, got[i].name, got[i].args, want[i].name, want[i].args)
		}
	}
	return ""
}

// drawCall is a method of ContentStream with n numeric operands.
type drawCall struct {
	name string
	n    int
	do   func(cs *write.ContentStream, v []float64) *write.ContentStream
	want func(v []float64) []wantOp
}

func numArgs(v ...float64) []interface{} {
	out := make([]interface{}, len(v))
	for i, x := range v {
		out[i] = x
	}
	return out
}

func drawCalls() []drawCall {
	type CS = write.ContentStream
	plain := func(name string, f func(cs *CS) *CS) drawCall {
		return drawCall{name, 0, func(cs *CS, v []float64) *CS { return f(cs) }, func(v []float64) []wantOp { return []wantOp{{name, nil}} }}
	}
	args := func(name string, n int, f func(cs *CS, v []float64) *CS) drawCall {
		return drawCall{name, n, f, func(v []float64) []wantOp { return []wantOp{{name, numArgs(v...)}} }}
	}
	one := func(name string, f func(cs *CS, a float64) *CS) drawCall {
		return args(name, 1, func(cs *CS, v []float64) *CS { return f(cs, v[0]) })
	}
	two := func(name string, f func(cs *CS, a, b float64) *CS) drawCall {
		return args(name, 2, func(cs *CS, v []float64) *CS { return f(cs, v[0], v[1]) })
	}
	three := func(name string, f func(cs *CS, a, b, c float64) *CS) drawCall {
		return args(name, 3, func(cs *CS, v []float64) *CS { return f(cs, v[0], v[1], v[2]) })
	}
	four := func(name string, f func(cs *CS, a, b, c, d float64) *CS) drawCall {
		return args(name, 4, func(cs *CS, v []float64) *CS { return f(cs, v[0], v[1], v[2], v[3]) })
	}
	six := func(name string, f func(cs *CS, a, b, c, d, e, g float64) *CS) drawCall {
		return args(name, 6, func(cs *CS, v []float64) *CS { return f(cs, v[0], v[1], v[2], v[3], v[4], v[5]) })
	}
	tricky := "a(b\\)\n\rc\t%"
	code := ref.Str("a(b\\)\n\rc\t%")
	return []drawCall{
		plain("q", (*CS).SaveState), plain("Q", (*CS).RestoreState), plain("S", (*CS).Stroke), plain("f", (*CS).Fill),
		plain("B", (*CS).FillStroke), plain("h", (*CS).ClosePath), plain("s", (*CS).ClosePathStroke),
		plain("BT", (*CS).BeginText), plain("ET", (*CS).EndText), plain("T*", (*CS).NextLine),
		one("g", (*CS).SetFillColorGray), one("G", (*CS).SetStrokeColorGray), one("w", (*CS).SetLineWidth),
		one("TL", (*CS).SetTextLeading), one("Tc", (*CS).SetCharSpacing), one("Tw", (*CS).SetWordSpacing), one("Ts", (*CS).SetTextRise),
		two("m", (*CS).MoveTo), two("l", (*CS).LineTo), two("Td", (*CS).SetTextPosition), two("TD", (*CS).MoveTextPosition),
		three("rg", (*CS).SetFillColorRGB), three("RG", (*CS).SetStrokeColorRGB),
		four("re", (*CS).Rectangle), four("v", (*CS).CurveToV), four("y", (*CS).CurveToY),
		six("cm", (*CS).SetMatrix), six("Tm", (*CS).SetTextMatrix), six("c", (*CS).CurveTo),
		{"translate", 2, func(cs *CS, v []float64) *CS { return cs.Translate(v[0], v[1]) },
			func(v []float64) []wantOp { return []wantOp{{"cm", numArgs(1, 0, 0, 1, v[0], v[1])}} }},
		{"scale", 2, func(cs *CS, v []float64) *CS { return cs.Scale(v[0], v[1]) },
			func(v []float64) []wantOp { return []wantOp{{"cm", numArgs(v[0], 0, 0, v[1], 0, 0)}} }},
		{"font", 1, func(cs *CS, v []float64) *CS { return cs.SetFont("/F1", v[0]) },
			func(v []float64) []wantOp { return []wantOp{{"Tf", []interface{}{ref.Name("F1"), v[0]}}} }},
		{"image", 0, func(cs *CS, v []float64) *CS { return cs.DrawImage("/Im1") },
			func(v []float64) []wantOp { return []wantOp{{"Do", []interface{}{ref.Name("Im1")}}} }},
		{"imageat", 4, func(cs *CS, v []float64) *CS { return cs.DrawImageAt("/Im2", v[0], v[1], v[2], v[3]) },
			func(v []float64) []wantOp {
				return []wantOp{{"q", nil}, {"cm", numArgs(v[2], 0, 0, v[3], v[0], v[1])}, {"Do", []interface{}{ref.Name("Im2")}}, {"Q", nil}}
			}},
		{"dash0", 1, func(cs *CS, v []float64) *CS { return cs.SetLineDash(nil, v[0]) },
			func(v []float64) []wantOp { return []wantOp{{"d", []interface{}{[]interface{}{}, v[0]}}} }},
		{"dash1", 2, func(cs *CS, v []float64) *CS { return cs.SetLineDash([]float64{v[0]}, v[1]) },
			func(v []float64) []wantOp { return []wantOp{{"d", []interface{}{numArgs(v[0]), v[1]}}} }},
		{"dash3", 4, func(cs *CS, v []float64) *CS { return cs.SetLineDash(v[:3], v[3]) },
			func(v []float64) []wantOp { return []wantOp{{"d", []interface{}{numArgs(v[:3]...), v[3]}}} }},
		{"mode", 0, func(cs *CS, v []float64) *CS {
			for m := 0; m < 8; m++ {
				cs.SetTextRenderMode(m)
			}
			return cs
		}, func(v []float64) []wantOp {
			var out []wantOp
			for m := 0; m < 8; m++ {
				out = append(out, wantOp{"Tr", []interface{}{m}})
			}
			return out
		}},
		{"text", 0, func(cs *CS, v []float64) *CS { return cs.ShowText(tricky) },
			func(v []float64) []wantOp { return []wantOp{{"Tj", []interface{}{code}}} }},
		{"nexttext", 0, func(cs *CS, v []float64) *CS { return cs.ShowTextNextLine(tricky) },
			func(v []float64) []wantOp { return []wantOp{{"'", []interface{}{code}}} }},
		{"array", 2, func(cs *CS, v []float64) *CS {
			return cs.ShowTextArray([]interface{}{tricky, v[0], "", -50, v[1], "x", "y"})
		}, func(v []float64) []wantOp {
			return []wantOp{{"TJ", []interface{}{[]interface{}{code, v[0], ref.Str(""), -50, v[1], ref.Str("x"), ref.Str("y")}}}}
		}},
		{"array0", 0, func(cs *CS, v []float64) *CS { return cs.ShowTextArray(nil) },
			func(v []float64) []wantOp { return []wantOp{{"TJ", []interface{}{[]interface{}{}}}} }},
		{"hex", 0, func(cs *CS, v []float64) *CS { return cs.ShowTextHex("00fFa5").ShowTextHex("").ShowTextHex("4") },
			func(v []float64) []wantOp {
				return []wantOp{{"Tj", []interface{}{ref.Str("\x00\xff\xa5")}}, {"Tj", []interface{}{ref.Str("")}}, {"Tj", []interface{}{ref.Str("@")}}}
			}},
		{"raw", 0, func(cs *CS, v []float64) *CS { return cs.Raw("/GS1 gs").Raw("").Raw("1 J\n").Raw("2 j") },
			func(v []float64) []wantOp {
				return []wantOp{{"gs", []interface{}{ref.Name("GS1")}}, {"J", []interface{}{1}}, {"j", []interface{}{2}}}
			}},
	}
}

// base values, all different
var drawBase = []float64{12.5, -3.25, 100, .0625, 7, -41.0001}

func runDrawValues(c *core.Ctx) {
	calls := drawCalls()
	vals := []float64{0, 1, -1, .5, -.5, 1e-4, -1e-4, 4e-5, .33333, 1234567.8901, -99999.9999, 1e12, math.Copysign(0, -1), 612, 0.99995}
	c.ForEach("values", len(calls), func(i int) string { return calls[i].name }, func(t *core.T, i int) {
		k := calls[i]
		check := func(v []float64) {
			cs := write.NewContentStream()
			if r := k.do(cs, v); r != cs {
				t.Fail("chain", "%s does not return its content", k.name)
			}
			t.Step(1)
			t.State(fmt.Sprint(k.name, v))
			if cs.String() != string(cs.Bytes()) {
				t.Fail("bytes", "String and Bytes differ")
			}
			got, err := readOps(cs.Bytes())
			if err != nil {
				t.Fail("content", "%s %v: %v in %q", k.name, v, err, cs.Bytes())
				return
			}
			if d := diffOps(got, k.want(v)); d != "" {
				t.Fail("operator", "%s %v: %s", k.name, v, d)
			}
			t.Outcome(cs.String())
		}
		check(drawBase[:k.n])
		deep := core.Pick(c, 2, 3)
		var rec func(v []float64, from, left int)
		rec = func(v []float64, from, left int) {
			if t.Failed() || left == 0 {
				return
			}
			for p := from; p < k.n; p++ {
				for _, x := range vals {
					w := append([]float64(nil), v...)
					w[p] = x
					check(w)
					rec(w, p+1, left-1)
				}
			}
		}
		rec(append([]float64(nil), drawBase[:k.n]...), 0, deep)
	})
}

func runDrawSequences(c *core.Ctx) {
	calls := drawCalls()
	n := len(calls)
	depth := core.Pick(c, 3, 4)
	c.ForEach("sequences", n*n, func(i int) string { return calls[i/n].name + "-" + calls[i%n].name }, func(t *core.T, i int) {
		rest := depth - 2
		for j := 0; j < pow(n, rest) && !t.Failed(); j++ {
			seq := append([]int{i / n, i % n}, seqOf(j, n, rest)...)
			cs := write.NewContentStream()
			var want []wantOp
			for s, k := range seq {
				v := make([]float64, calls[k].n)
				for p := range v {
					v[p] = float64(s*10 + p)
				}
				calls[k].do(cs, v)
				want = append(want, calls[k].want(v)...)
			}
			t.Step(len(seq))
			got, err := readOps(cs.Bytes())
			if err != nil {
				t.Fail("content", "%v: %v in %q", seq, err, cs.Bytes())
			} else if d := diffOps(got, want); d != "" {
				t.Fail("operator", "%v: %s", seq, d)
			}
		}
		t.State(fmt.Sprint("seq", i))
	})
}

// runDrawPages interleaves the building of pages: every sequence of drawing on, adding
// resources to and finishing of three pages, and of writing in between.
func runDrawPages(c *core.Ctx) {
	const pages = 3
	sizes := []write.PageSize{{Width: 612, Height: 792}, {Width: 99.5, Height: 1000}, {Width: 1, Height: .5}}
	stdFonts := []string{"Helvetica", "Times-Roman", "Courier"}
	const perPage = 4 // draw, image, font, finish
	alphabet := pages*perPage + 2
	depth := core.Pick(c, 5, 6)
	png := pngKinds()[0].encode(1, 1, []int{0})
	c.ForEach("pages", alphabet*alphabet, func(i int) string { return fmt.Sprintf("%d-%d", i/alphabet, i%alphabet) }, func(t *core.T, i int) {
		type state struct {
			ops   []wantOp
			fonts []string // by resource number
			img   []string
		}
		rest := depth - 2
		for j := 0; j < pow(alphabet, rest) && !t.Failed(); j++ {
			seq := append([]int{i / alphabet, i % alphabet}, seqOf(j, alphabet, rest)...)
			// sequences of which every page is used in order of number stand for their renamings
			seen, skip := 0, false
			for _, s := range seq {
				if s < pages*perPage {
					if p := s / perPage; p > seen {
						skip = true
					} else if p == seen {
						seen++
					}
				}
			}
			if skip {
				continue
			}
			b := write.NewSimplePDFBuilder()
			info, err := b.Writer().AddImage(png, "Pic")
			if err != nil {
				t.Fail("image", "%v", err)
				return
			}
			var pb [pages]*write.PageBuilder
			for p := range pb {
				pb[p] = b.AddPage(sizes[p])
			}
			var st [pages]state
			type done struct {
				state
				size write.PageSize
			}
			var want []done
			check := func() bool {
				out, err := b.Bytes()
				t.Step(1)
				f, ps := strictPages(t, out, err)
				if f == nil {
					return false
				}
				if len(ps) != len(want) || len(b.Pages()) != len(want) {
					t.Fail("pages", "%v: %d pages (%v), want %d", seq, len(ps), b.Pages(), len(want))
					return false
				}
				for k, p := range ps {
					w := want[k]
					attrs := resolveAttrs(f, p.D)
					if !sameArg(attrs["MediaBox"], numArgs(0, 0, w.size.Width, w.size.Height)) {
						t.Fail("size", "%v: page %d is %s, want %v", seq, k+1, ref.Canon(attrs["MediaBox"]), w.size)
					}
					d, ok := pageContent(t, f, p)
					if !ok {
						return false
					}
					got, err := readOps(d)
					if err != nil {
						t.Fail("content", "%v: page %d: %v", seq, k+1, err)
					} else if s := diffOps(got, w.ops); s != "" {
						t.Fail("operator", "%v: page %d: %s", seq, k+1, s)
					}
					res := f.DictOf(attrs["Resources"])
					fonts := f.DictOf(res["Font"])
					if len(fonts) != len(w.fonts) {
						t.Fail("fonts", "%v: page %d has %d fonts, want %v", seq, k+1, len(fonts), w.fonts)
					}
					for n, name := range w.fonts {
						if d := f.DictOf(fonts[ref.Name(fmt.Sprintf("F%d", n+1))]); d["BaseFont"] != ref.Name(name) {
							t.Fail("fonts", "%v: page %d: font %d is %s", seq, k+1, n+1, ref.Canon(d))
						}
					}
					xo := f.DictOf(res["XObject"])
					if len(xo) != len(w.img) {
						t.Fail("images", "%v: page %d has %d images, want %v", seq, k+1, len(xo), w.img)
					}
					for _, name := range w.img {
						if s, _ := f.Resolve(xo[ref.Name(name)]).(*ref.Stream); s == nil || s.D["Subtype"] != ref.Name("Image") {
							t.Fail("images", "%v: page %d: image %s is %s", seq, k+1, name, ref.Canon(xo[ref.Name(name)]))
						}
					}
				}
				return !t.Failed()
			}
			ok := true
			for at, s := range seq {
				if s == pages*perPage {
					ok = check()
					if !ok {
						break
					}
					continue
				}
				if s == pages*perPage+1 {
					b.PagesObjNum()
					continue
				}
				p := s / perPage
				x := &st[p]
				switch s % perPage {
				case 0:
					pb[p].Content().MoveTo(float64(p), float64(at))
					x.ops = append(x.ops, wantOp{"m", numArgs(float64(p), float64(at))})
				case 1:
					name := strings.TrimPrefix(pb[p].AddImage(info), "/")
					if name == "" || len(x.img) > 0 && x.img[0] != name {
						t.Fail("images", "%v: the image is named %q", seq, name)
					}
					x.img = []string{name}
					pb[p].Content().DrawImage("/" + name)
					x.ops = append(x.ops, wantOp{"Do", []interface{}{ref.Name(name)}})
				case 2:
					name := stdFonts[at%len(stdFonts)]
					got := pb[p].AddStandardFont(name)
					if k := indexOf(x.fonts, name); k >= 0 {
						if got != fmt.Sprintf("/F%d", k+1) {
							t.Fail("fonts", "%v: %s is now %s", seq, name, got)
						}
					} else {
						x.fonts = append(x.fonts, name)
						if got != fmt.Sprintf("/F%d", len(x.fonts)) {
							t.Fail("fonts", "%v: %s is %s", seq, name, got)
						}
					}
					pb[p].Content().SetFont(got, float64(at))
					x.ops = append(x.ops, wantOp{"Tf", []interface{}{ref.Name(got[1:]), float64(at)}})
				case 3:
					b.FinalizePage(pb[p])
					want = append(want, done{state{append([]wantOp(nil), x.ops...), append([]string(nil), x.fonts...), append([]string(nil), x.img...)}, sizes[p]})
				}
			}
			if ok && !t.Failed() {
				check()
				one, err1 := b.Bytes()
				two, err2 := b.Bytes()
				if err1 != nil || err2 != nil || !bytes.Equal(stripID(one), stripID(two)) {
					t.Fail("repeat", "%v: writing twice gives different documents: %v %v", seq, err1, err2)
				}
			}
			t.State(fmt.Sprint(seq))
		}
		t.Outcome(fmt.Sprint(i))
	})
}

// stripID removes the file identifier, which may be random.
func stripID(b []byte) []byte {
	i := bytes.LastIndex(b, []byte("/ID"))
	if i < 0 {
		return b
	}
	j := bytes.IndexByte(b[i:], ']')
	if j < 0 {
		return b
	}
	return append(append([]byte(nil), b[:i]...), b[i+j+1:]...)
}
