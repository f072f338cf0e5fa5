package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/types"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P21",
		Level: "model_checking",
		Rule:  "documents generated from page trees with attributes at every level; extraction against the description and the strict oracle",
		Assumptions: []string{
			"legal page trees: every node has its type, and no node occurs twice",
		},
		Run: func(c *core.Ctx) {
			runReadTrees(c)
			runReadBoxes(c)
			runReadResources(c)
			runReadContents(c)
		},
	})
}

// --- trees: every shape, the attributes at many places ---------------------------------------

func runReadTrees(c *core.Ctx) {
	sh := shapes(core.Pick(c, 4, 5), core.Pick(c, 3, 4))
	cfgs := cryptCfgs()
	n := len(sh) * len(pageAttrs) * (len(pageLayouts) + 1)
	c.ForEach("trees", n, func(i int) string {
		lay := i / len(sh) / len(pageAttrs)
		name := "encrypted"
		if lay < len(pageLayouts) {
			name = pageLayouts[lay]
		}
		return fmt.Sprintf("%s-%s-%s", sh[i%len(sh)], pageAttrs[i/len(sh)%len(pageAttrs)], name)
	}, func(t *core.T, i int) {
		shape, attr, lay := sh[i%len(sh)], pageAttrs[i/len(sh)%len(pageAttrs)], i/len(sh)/len(pageAttrs)
		var k *gen.Crypt
		var pw []byte
		layout := "table"
		if lay < len(pageLayouts) {
			layout = pageLayouts[lay]
		} else {
			k, pw = cfgs[i%len(cfgs)].make([]byte("user"), []byte("owner"), -44, cryptID), []byte("user")
		}
		extra := func(leaf, num int) (string, []gen.Obj) {
			return fmt.Sprintf("/TrimBox[%d 2 30 40]/Annots[%d 0 R]", leaf, 300+leaf), []gen.Obj{
				{Num: 300 + leaf, Body: fmt.Sprintf("<</Type/Annot/Subtype/Text/Rect[1 2 3 4]/Contents(note %d)>>", leaf)}}
		}
		pdf := pageDocX(shape, attr, layout, extra, k)
		t.Attach("document.pdf", pdf)
		f, err := ref.Open(pdf)
		if err != nil {
			panic(err)
		}
		model, err := f.Pages()
		if err != nil {
			panic(err)
		}
		doc, err := extract.ExtractContent(pdf, pw, false)
		t.Step(1)
		t.State(fmt.Sprint(i))
		if err != nil {
			t.Fail("extract", "%v", err)
			return
		}
		if len(doc.Pages) != len(model) || doc.Metadata == nil || doc.Metadata.PageCount != len(model) {
			t.Fail("count", "%d pages (metadata %v), want %d", len(doc.Pages), doc.Metadata, len(model))
			return
		}
		var notes []string
		for k, p := range doc.Pages {
			m := resolveAttrs(f, model[k].Attr)
			rot := 0
			if r, ok := ref.Int(m["Rotate"]); ok {
				rot = (r%360 + 360) % 360
			}
			want := types.Page{PageNumber: k + 1, Rotation: rot, MediaBox: boxOf(m["MediaBox"]), CropBox: boxOf(m["CropBox"]),
				TrimBox: &types.Rectangle{LowerX: float64(k + 1), LowerY: 2, UpperX: 30, UpperY: 40}}
			want.Width, want.Height = want.MediaBox.UpperX-want.MediaBox.LowerX, want.MediaBox.UpperY-want.MediaBox.LowerY
			if layout != "gen" || true {
				samePage(t, fmt.Sprintf("page %d", k+1), p, want)
			}
			text := ""
			for _, e := range p.Text {
				text += e.Text
			}
			if text != fmt.Sprintf("page %d", k+1) {
				t.Fail("text", "page %d reads %q", k+1, text)
			}
			if len(p.Annotations) != 1 || p.Annotations[0].Contents != fmt.Sprintf("note %d", k+1) || p.Annotations[0].PageNumber != k+1 {
				t.Fail("annotations", "page %d has %+v", k+1, p.Annotations)
			}
			for _, a := range p.Annotations {
				notes = append(notes, a.Contents)
			}
			if p.Resources == nil || len(p.Resources.Fonts) != 1 {
				t.Fail("resources", "page %d has %+v", k+1, p.Resources)
			}
		}
		var all []string
		for _, a := range doc.Annotations {
			all = append(all, a.Contents)
		}
		if strings.Join(all, ";") != strings.Join(notes, ";") {
			t.Fail("annotations", "the document has %v, its pages %v", all, notes)
		}
		if len(model) > 0 && len(doc.Fonts) != 1 {
			t.Fail("fonts", "the document has the fonts %+v", doc.Fonts)
		}
		t.Outcome(fmt.Sprint(len(model), attr))
	})
}

func boxOf(o ref.Obj) *types.Rectangle {
	a, ok := o.(ref.Arr)
	if !ok || len(a) != 4 {
		return nil
	}
	var v [4]float64
	for i := range v {
		v[i], _ = ref.Float(a[i])
	}
	return &types.Rectangle{LowerX: min(v[0], v[2]), LowerY: min(v[1], v[3]), UpperX: max(v[0], v[2]), UpperY: max(v[1], v[3])}
}

// samePage compares number, size, boxes and rotation.
func samePage(t *core.T, tag string, p, want types.Page) {
	if p.PageNumber != want.PageNumber || p.Rotation != want.Rotation || p.Width != want.Width || p.Height != want.Height {
		t.Fail("page", "%s: number %d, rotation %d, size %v x %v; want %d, %d, %v x %v", tag, p.PageNumber, p.Rotation, p.Width, p.Height, want.PageNumber, want.Rotation, want.Width, want.Height)
	}
	for _, b := range []struct {
		name      string
		got, want *types.Rectangle
	}{{"MediaBox", p.MediaBox, want.MediaBox}, {"CropBox", p.CropBox, want.CropBox}, {"BleedBox", p.BleedBox, want.BleedBox}, {"TrimBox", p.TrimBox, want.TrimBox}, {"ArtBox", p.ArtBox, want.ArtBox}} {
		if (b.got == nil) != (b.want == nil) || b.got != nil && *b.got != *b.want {
			t.Fail("box", "%s: %s is %+v, want %+v", tag, b.name, b.got, b.want)
		}
	}
}

// --- boxes and rotation: every value at every level ------------------------------------------

const pageValues = 9

// pageValue is the k-th way to give an attribute at a level (0 root, 1 inner, 2 page): its
// text, the objects it needs, and what it stands for.
func pageValue(attr string, level, k int) (body string, objs []gen.Obj, box *types.Rectangle, rot int, has bool) {
	num := 100 + 20*level + 50*indexOf(pageBoxAttrs, attr)
	x, y := float64(100+level), float64(200+10*level)
	if attr == "Rotate" {
		v := []string{"", "90", "null", fmt.Sprintf("%d 0 R", num), "-90", "450", "99 0 R", "0", "+180"}[k]
		if k == 3 {
			objs = []gen.Obj{{Num: num, Body: fmt.Sprint(90 * (level + 1))}}
			return "/Rotate " + v, objs, nil, 90 * (level + 1), true
		}
		if v == "" {
			return "", nil, nil, 0, false
		}
		n, err := strconv.Atoi(v)
		return "/Rotate " + v, nil, nil, (n%360 + 360) % 360, err == nil
	}
	box = &types.Rectangle{UpperX: x, UpperY: y}
	plain := fmt.Sprintf("[0 0 %v %v]", x, y)
	switch k {
	case 1:
		return "/" + attr + plain, nil, box, 0, true
	case 2:
		return "/" + attr + " null", nil, nil, 0, false
	case 3:
		return fmt.Sprintf("/%s %d 0 R", attr, num), []gen.Obj{{Num: num, Body: plain}}, box, 0, true
	case 4:
		return fmt.Sprintf("/%s[0 %d 0 R %d 0 R %v]", attr, num+1, num+2, y), []gen.Obj{{Num: num + 1, Body: "0"}, {Num: num + 2, Body: fmt.Sprint(x)}}, box, 0, true
	case 5:
		return fmt.Sprintf("/%s[%v -.5 -10 %v]", attr, x, y), nil, &types.Rectangle{LowerX: -10, LowerY: -.5, UpperX: x, UpperY: y}, 0, true
	case 6:
		return fmt.Sprintf("/%s%%[9 9 9 9]\n[ +%d -.25 500. 00700 ]", attr, level+5), nil, &types.Rectangle{LowerX: float64(level + 5), LowerY: -.25, UpperX: 500, UpperY: 700}, 0, true
	case 7:
		return "/" + attr + " 99 0 R", nil, nil, 0, false
	case 8:
		return fmt.Sprintf("/%s %d 0 R", attr, num+3), []gen.Obj{{Num: num + 3, Body: "null"}}, nil, 0, false
	}
	return "", nil, nil, 0, false
}

var pageBoxAttrs = []string{"MediaBox", "CropBox", "BleedBox", "TrimBox", "ArtBox", "Rotate"}

func inheritable(attr string) bool {
	return attr == "MediaBox" || attr == "CropBox" || attr == "Rotate" || attr == "Resources"
}

func runReadBoxes(c *core.Ctx) {
	type setting struct{ attr, level, value int }
	var cases [][]setting
	na := len(pageBoxAttrs)
	for a := 0; a < na; a++ {
		for v := 0; v < pow(pageValues, 3); v++ {
			s := seqOf(v, pageValues, 3)
			cases = append(cases, []setting{{a, 0, s[0]}, {a, 1, s[1]}, {a, 2, s[2]}})
		}
		// two attributes together
		for b := a + 1; b < na; b++ {
			for v := 0; v < pow(pageValues, 2); v++ {
				s := seqOf(v, pageValues, 2)
				for l := 0; l < 9; l++ {
					cases = append(cases, []setting{{a, l % 3, s[0]}, {b, l / 3, s[1]}})
				}
			}
		}
	}
	// all of them
	for v := 0; v < core.Pick(c, 0, pow(4, na)); v++ {
		var s []setting
		for a, k := range seqOf(v, 4, na) {
			s = append(s, setting{a, 2 - k%2, []int{1, 3, 5, 0}[k]})
		}
		cases = append(cases, s)
	}
	lays := imgLayouts()
	const chunk = 200
	c.ForEach("boxes", (len(cases)+chunk-1)/chunk, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		for j := i * chunk; j < len(cases) && j < (i+1)*chunk && !t.Failed(); j++ {
			for l := 0; l < core.Pick(c, 2, len(lays)); l++ {
				lay := lays[(j+l)%len(lays)]
				var dict [3]string
				var objs []gen.Obj
				want := types.Page{PageNumber: 2}
				boxes := make([]*types.Rectangle, na)
				for _, s := range cases[j] {
					b, o, box, rot, has := pageValue(pageBoxAttrs[s.attr], s.level, s.value)
					dict[s.level] += b
					objs = append(objs, o...)
					if !has || s.level < 2 && !inheritable(pageBoxAttrs[s.attr]) {
						continue
					}
					if pageBoxAttrs[s.attr] == "Rotate" {
						want.Rotation = rot
					} else {
						boxes[s.attr] = box
					}
				}
				want.MediaBox, want.CropBox, want.BleedBox, want.TrimBox, want.ArtBox = boxes[0], boxes[1], boxes[2], boxes[3], boxes[4]
				if want.MediaBox != nil {
					want.Width, want.Height = want.MediaBox.UpperX-want.MediaBox.LowerX, want.MediaBox.UpperY-want.MediaBox.LowerY
				}
				objs = append(objs,
					gen.Obj{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"},
					gen.Obj{Num: 2, Body: "<</Type/Pages/Kids[40 0 R 30 0 R 42 0 R]/Count 3" + dict[0] + ">>"},
					gen.Obj{Num: 30, Body: "<</Type/Pages/Parent 2 0 R/Kids[41 0 R]/Count 1" + dict[1] + ">>"},
					gen.Obj{Num: 40, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 1 1]/CropBox[0 0 2 2]/BleedBox[0 0 3 3]/TrimBox[0 0 4 4]/ArtBox[0 0 5 5]/Rotate 270>>"},
					gen.Obj{Num: 41, Body: "<</Type/Page/Parent 30 0 R/P<</MediaBox[9 9 9 9]/Rotate 90/ArtBox[9 9 9 9]/CropBox[9 9 9 9]>>" + dict[2] + "/N(/Rotate 90/CropBox[1 1 9 9])>>"},
					gen.Obj{Num: 42, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 1 1]/CropBox[0 0 2 2]/BleedBox[0 0 3 3]/TrimBox[0 0 4 4]/ArtBox[0 0 5 5]/Rotate 270>>"})
				pdf, pw := imgDoc(objs, lay)
				t.Attach("document.pdf", pdf)
				doc, err := extract.ExtractContent(pdf, pw, false)
				t.Step(1)
				t.State(fmt.Sprint(j, lay))
				if err != nil || len(doc.Pages) != 3 {
					t.Fail("extract", "%v %s: %v", cases[j], lay, err)
					return
				}
				other := types.Page{PageNumber: 1, Width: 1, Height: 1, Rotation: 270}
				for k, b := range []**types.Rectangle{&other.MediaBox, &other.CropBox, &other.BleedBox, &other.TrimBox, &other.ArtBox} {
					*b = &types.Rectangle{UpperX: float64(k + 1), UpperY: float64(k + 1)}
				}
				samePage(t, fmt.Sprintf("%v %s", cases[j], lay), doc.Pages[0], other)
				samePage(t, fmt.Sprintf("%v %s", cases[j], lay), doc.Pages[1], want)
				other.PageNumber = 3
				samePage(t, fmt.Sprintf("%v %s", cases[j], lay), doc.Pages[2], other)
				t.Outcome(jsonOf(want))
			}
		}
	})
}

// --- resources at every level ----------------------------------------------------------------

func runReadResources(c *core.Ctx) {
	// a level's resources: none, direct, indirect, null, empty, fonts indirect, other font only, missing object
	const ways = 8
	lays := imgLayouts()
	n := pow(ways, 3) * len(lays)
	c.ForEach("resources", n, func(i int) string { return fmt.Sprintf("%d-%s", i/len(lays), lays[i%len(lays)]) }, func(t *core.T, i int) {
		way := seqOf(i/len(lays), ways, 3)
		lay := lays[i%len(lays)]
		var dict [3]string
		var objs []gen.Obj
		in := -1 // level in force
		for l, w := range way {
			font := fmt.Sprintf("<</F1 %d 0 R>>", 50+l)
			objs = append(objs, gen.Obj{Num: 50 + l, Body: fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/Level%d/Encoding<</Differences[65/%s]>>>>", l, []string{"zero", "one", "two"}[l])})
			switch w {
			case 1:
				dict[l] = "/Resources<</Font" + font + ">>"
			case 2:
				dict[l] = fmt.Sprintf("/Resources %d 0 R", 60+l)
				objs = append(objs, gen.Obj{Num: 60 + l, Body: "<</ProcSet[/PDF]/Font" + font + ">>"})
			case 3:
				dict[l] = "/Resources null"
			case 4:
				dict[l] = "/Resources<<>>"
			case 5:
				dict[l] = fmt.Sprintf("/Resources<</Font %d 0 R/X<</Font<</F1 50 0 R>>>>>>", 63+l)
				objs = append(objs, gen.Obj{Num: 63 + l, Body: font})
			case 6:
				dict[l] = fmt.Sprintf("/Resources<</Font<</F2 %d 0 R/G1 50 0 R>>>>", 50+l)
			case 7:
				dict[l] = "/Resources 99 0 R"
			}
			if w != 0 && w != 3 && w != 7 {
				in = l
			}
		}
		objs = append(objs,
			gen.Obj{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"},
			gen.Obj{Num: 2, Body: "<</Type/Pages/Kids[30 0 R 43 0 R]/Count 2/MediaBox[0 0 9 9]" + dict[0] + ">>"},
			gen.Obj{Num: 30, Body: "<</Type/Pages/Parent 2 0 R/Kids[41 0 R]/Count 1" + dict[1] + ">>"},
			gen.Obj{Num: 41, Body: "<</Type/Page/Parent 30 0 R/Contents 42 0 R" + dict[2] + ">>"},
			gen.Obj{Num: 42, Body: "<<>>", Stream: true, Data: "BT /F1 9 Tf (A) Tj /F2 9 Tf (A) Tj ET"},
			gen.Obj{Num: 43, Body: "<</Type/Page/Parent 2 0 R/Contents 42 0 R/Resources<</Font<</F1 44 0 R>>>>>>"},
			gen.Obj{Num: 44, Body: "<</Type/Font/Subtype/Type1/BaseFont/Other/Encoding<</Differences[65/nine]>>>>"})
		pdf, pw := imgDoc(objs, lay)
		t.Attach("document.pdf", pdf)
		doc, err := extract.ExtractContent(pdf, pw, false)
		t.Step(1)
		t.State(fmt.Sprint(i))
		if err != nil || len(doc.Pages) != 2 {
			t.Fail("extract", "%v", err)
			return
		}
		want, fonts := "AA", map[string]string{}
		if in >= 0 {
			digit := fmt.Sprint(in)
			switch way[in] {
			case 1, 2, 5:
				want, fonts = digit+"A", map[string]string{"F1": "Level" + digit}
			case 6:
				want, fonts = "A"+digit, map[string]string{"F2": "Level" + digit, "G1": "Level0"}
			}
		}
		got := func(p types.Page) (string, map[string]string) {
			s, f := "", map[string]string{}
			for _, e := range p.Text {
				s += e.Text
			}
			if p.Resources != nil {
				for k, x := range p.Resources.Fonts {
					f[strings.TrimPrefix(k, "/")] = strings.TrimPrefix(x.Name, "/")
				}
			}
			return s, f
		}
		s, f := got(doc.Pages[0])
		if s != want || jsonOf(f) != jsonOf(fonts) {
			t.Fail("resources", "%v %s: the page reads %q with %v, want %q with %v", way, lay, s, f, want, fonts)
		}
		if s, f := got(doc.Pages[1]); s != "9A" || jsonOf(f) != `{"F1":"Other"}` {
			t.Fail("resources", "%v %s: the other page reads %q with %v", way, lay, s, f)
		}
		t.Outcome(want)
	})
}

// --- contents --------------------------------------------------------------------------------

func runReadContents(c *core.Ctx) {
	parts := []string{"50 0 R", "51 0 R", "52 0 R", "99 0 R", "53 0 R"} // two texts, an empty stream, a missing one, a null
	texts := []string{"a", "b", "", "", ""}
	depth := core.Pick(c, 4, 5)
	var seqs [][]int
	for d := 0; d <= depth; d++ {
		for i := 0; i < pow(len(parts), d); i++ {
			seqs = append(seqs, seqOf(i, len(parts), d))
		}
	}
	lays := imgLayouts()
	const chunk = 20
	c.ForEach("contents", (len(seqs)+chunk-1)/chunk*len(lays), func(i int) string { return fmt.Sprintf("%d-%s", i/len(lays), lays[i%len(lays)]) }, func(t *core.T, i int) {
		lay := lays[i%len(lays)]
		for j := i / len(lays) * chunk; j < len(seqs) && j < (i/len(lays)+1)*chunk; j++ {
			want := ""
			var elems []string
			for _, k := range seqs[j] {
				want += texts[k]
				elems = append(elems, parts[k])
			}
			arr := "[" + strings.Join(elems, " ") + "]"
			forms := []string{arr, "54 0 R", "%/Contents 50 0 R\n" + arr}
			if len(elems) == 1 {
				forms = append(forms, " "+elems[0])
			}
			if len(elems) == 0 {
				forms = append(forms, " null", " 99 0 R", "")
			}
			for _, form := range forms {
				if t.Failed() {
					return
				}
				contents := "/Contents" + form
				if form == "" {
					contents = ""
				} else if form == "54 0 R" {
					contents = "/Contents 54 0 R"
				}
				objs := []gen.Obj{
					{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"},
					{Num: 2, Body: "<</Type/Pages/Kids[40 0 R 41 0 R]/Count 2/MediaBox[0 0 9 9]>>"},
					{Num: 40, Body: "<</Type/Page/Parent 2 0 R" + contents + ">>"},
					{Num: 41, Body: "<</Type/Page/Parent 2 0 R/Contents[51 0 R 50 0 R]>>"},
					{Num: 50, Body: "<</Filter/FlateDecode>>", Stream: true, Data: string(gen.Flate([]byte("BT (a) Tj ET")))},
					{Num: 51, Body: "<<>>", Stream: true, Data: "BT (b) Tj ET"},
					{Num: 52, Body: "<<>>", Stream: true, Data: ""},
					{Num: 53, Body: "null"},
					{Num: 54, Body: arr},
				}
				pdf, pw := imgDoc(objs, lay)
				t.Attach("document.pdf", pdf)
				doc, err := extract.ExtractContent(pdf, pw, false)
				t.Step(1)
				t.State(fmt.Sprint(j, form, lay))
				if err != nil || len(doc.Pages) != 2 {
					t.Fail("extract", "%s: %v", contents, err)
					return
				}
				for k, w := range []string{want, "ba"} {
					got := ""
					for _, e := range doc.Pages[k].Text {
						got += e.Text
					}
					if got != w {
						t.Fail("contents", "page %d with %s reads %q, want %q", k+1, contents, got, w)
					}
				}
				t.Outcome(want)
			}
		}
	})
}
