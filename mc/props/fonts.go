package props

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/resources/font"
)

func init() {
	core.Register(&core.Prop{ID: "P13", Level: "model_checking", Run: runEmbedded,
		Rule: "A case is one generated font file (every small character map in every subtable format, segment list, set of subtables, metrics, names and table order), embedded for every set of characters, one sequence of font and page calls, one text shown by every text call in a standard and an embedded font, or one sequence of watermarks on a page. The font objects of the strictly read file are compared with the description the font was generated from; content is run by an independent interpreter. Non-trivial: at least one font is embedded or one text is shown.",
		Assumptions: []string{
			"characters of WinAnsiEncoding, the encoding of the simple fonts written; widths to within one unit of 1000",
			"character maps with sorted segments and groups; the Unicode subtables of one font agree",
			"a font holds the characters that were added before it was put on the page",
		},
	})
}

// winRunes are the characters of the codes of WinAnsiEncoding.
func winRunes() [256]rune {
	w := encodingTables()["WinAnsiEncoding"]
	w[160], w[173] = 0xA0, 0xAD
	return w
}

func winCode(r rune) (byte, bool) {
	for c, x := range winRunes() {
		if x == r && x != 0 {
			return byte(c), true
		}
	}
	return 0, false
}

// fspec is what a font is expected to say when it is embedded.
type fspec struct {
	ttf   gen.TTF
	data  []byte
	glyph map[rune]int
	chars []rune
	bases []string // acceptable names
}

func (s fspec) width(r rune) float64 {
	g := s.glyph[r]
	if g >= len(s.ttf.Advances) {
		g = len(s.ttf.Advances) - 1
	}
	return float64(s.ttf.Advances[g]) * 1000 / float64(s.ttf.UPM)
}

// toUnicode reads a ToUnicode map of one-byte codes.
func toUnicode(data []byte) (map[byte]rune, error) {
	l := ref.NewLex(data, 0)
	out := map[byte]rune{}
	var args []ref.Obj
	space := false
	code := func(o ref.Obj) (int, error) {
		s, ok := o.(ref.Str)
		if !ok || len(s) != 1 {
			return 0, fmt.Errorf("code %s", ref.Canon(o))
		}
		return int(s[0]), nil
	}
	set := func(c int, o ref.Obj, add int) error {
		s, ok := o.(ref.Str)
		if !ok || len(s) != 2 {
			return fmt.Errorf("value %s", ref.Canon(o))
		}
		if _, twice := out[byte(c)]; twice {
			return fmt.Errorf("code %02x is mapped twice", c)
		}
		out[byte(c)] = rune(int(s[0])<<8|int(s[1])) + rune(add)
		return nil
	}
	for {
		l.SkipWS()
		if l.P >= len(data) {
			break
		}
		o, err := l.Next()
		if err != nil {
			return nil, err
		}
		k, isOp := o.(ref.Keyword)
		if !isOp {
			args = append(args, o)
			continue
		}
		switch k {
		case "beginbfchar", "beginbfrange":
			if n, ok := ref.Int(args[len(args)-1]); !ok || n > 100 {
				return nil, fmt.Errorf("section of %d", n)
			}
		case "endcodespacerange":
			a, err := code(args[0])
			if err != nil {
				return nil, err
			}
			b, err := code(args[1])
			if err != nil {
				return nil, err
			}
			space = a == 0 && b == 255
		case "endbfchar":
			for i := 0; i+1 < len(args); i += 2 {
				c, err := code(args[i])
				if err != nil {
					return nil, err
				}
				if err := set(c, args[i+1], 0); err != nil {
					return nil, err
				}
			}
		case "endbfrange":
			for i := 0; i+2 < len(args); i += 3 {
				a, err := code(args[i])
				if err != nil {
					return nil, err
				}
				b, err := code(args[i+1])
				if err != nil {
					return nil, err
				}
				for c := a; c <= b; c++ {
					if err := set(c, args[i+2], c-a); err != nil {
						return nil, err
					}
				}
			}
		}
		args = nil
	}
	if !space {
		return nil, fmt.Errorf("no code space of one byte")
	}
	return out, nil
}

// checkEmbedded compares the font objects of a file with what they were made from.
func checkEmbedded(t *core.T, f *ref.File, fd ref.Dict, s fspec) {
	base, _ := fd["BaseFont"].(ref.Name)
	cff := bytes.HasPrefix(s.data, []byte("OTTO"))
	wantType := ref.Name("TrueType")
	if cff {
		wantType = "Type1"
	}
	if fd["Type"] != ref.Name("Font") || fd["Subtype"] != wantType || fd["Encoding"] != ref.Name("WinAnsiEncoding") {
		t.Fail("font", "font is %s", clips(ref.Canon(fd)))
		return
	}
	if len(base) < 8 || base[6] != '+' || strings.Trim(string(base[:6]), "ABCDEFGHIJKLMNOPQRSTUVWXYZ") != "" {
		t.Fail("name", "BaseFont %q has no subset prefix", base)
		return
	}
	known := false
	for _, b := range s.bases {
		known = known || string(base[7:]) == b
	}
	if !known {
		t.Fail("name", "BaseFont %q, want one of %q", base, s.bases)
	}
	first, ok1 := ref.Int(fd["FirstChar"])
	last, ok2 := ref.Int(fd["LastChar"])
	widths, ok3 := f.Resolve(fd["Widths"]).(ref.Arr)
	if !ok1 || !ok2 || !ok3 || first < 0 || last > 255 || len(widths) != last-first+1 {
		t.Fail("widths", "%v..%v has %d widths", fd["FirstChar"], fd["LastChar"], len(widths))
		return
	}
	tus, _ := f.Resolve(fd["ToUnicode"]).(*ref.Stream)
	if tus == nil {
		t.Fail("tounicode", "there is none")
		return
	}
	tud, err := f.Decode(tus)
	if err != nil {
		t.Fail("tounicode", "%v", err)
		return
	}
	tu, err := toUnicode(tud)
	if err != nil {
		t.Fail("tounicode", "%v", err)
		return
	}
	for c, r := range winRunes() {
		want := false
		for _, x := range s.chars {
			want = want || x == r
		}
		u, mapped := tu[byte(c)]
		if want && u != r || mapped && r != 0 && u != r {
			t.Fail("tounicode", "code %02x is %U, want %U", c, u, r)
		}
		if !want || r == 0 {
			continue
		}
		if c < first || c > last {
			t.Fail("widths", "%q is not within %d..%d", r, first, last)
			continue
		}
		w, ok := ref.Float(widths[c-first])
		if !ok || math.Abs(w-s.width(r)) > 1 {
			t.Fail("widths", "%q is %v wide, want %.2f", r, widths[c-first], s.width(r))
		}
	}
	d := f.DictOf(fd["FontDescriptor"])
	if d["Type"] != ref.Name("FontDescriptor") || d["FontName"] != base {
		t.Fail("descriptor", "descriptor is %s", clips(ref.Canon(d)))
		return
	}
	scaled := func(key ref.Name, v int) {
		if got, ok := ref.Float(d[key]); !ok || math.Abs(got-float64(v)*1000/float64(s.ttf.UPM)) > 1 {
			t.Fail("descriptor", "/%s is %v, want %d/%d", key, d[key], v, s.ttf.UPM)
		}
	}
	scaled("Ascent", s.ttf.Ascent)
	scaled("Descent", s.ttf.Descent)
	if s.ttf.OS2 && s.ttf.OS2Ver >= 2 {
		scaled("CapHeight", s.ttf.Cap)
	}
	if a, ok := ref.Float(d["ItalicAngle"]); !ok || math.Abs(a-float64(s.ttf.Italic)/65536) > .001 {
		t.Fail("descriptor", "slope %v, want %d/65536", d["ItalicAngle"], s.ttf.Italic)
	}
	flags, ok := ref.Int(d["Flags"])
	if !ok || flags&1 != b2i(s.ttf.Fixed) || flags&64 != 64*b2i(s.ttf.Italic != 0) || flags&36 != 32 {
		t.Fail("descriptor", "flags %v", d["Flags"])
	}
	if box, ok := f.Resolve(d["FontBBox"]).(ref.Arr); !ok || len(box) != 4 {
		t.Fail("descriptor", "box %v", d["FontBBox"])
	}
	if fam := s.ttf.Names[1]; fam != "" && (s.ttf.NamePlats == nil || s.ttf.NamePlats[0] != 1) {
		if got, err := textOf(f.Resolve(d["FontFamily"])); err != nil || got != fam {
			t.Fail("descriptor", "family %q, want %q", got, fam)
		}
	}
	key, other := ref.Name("FontFile2"), ref.Name("FontFile3")
	if cff {
		key, other = other, key
	}
	file, _ := f.Resolve(d[key]).(*ref.Stream)
	if file == nil || d[other] != nil || d["FontFile"] != nil {
		t.Fail("file", "descriptor is %s", clips(ref.Canon(d)))
		return
	}
	data, err := f.Decode(file)
	if err != nil || !bytes.Equal(data, s.data) {
		t.Fail("file", "the font file changed (%d bytes, %d given): %v", len(data), len(s.data), err)
	}
	if cff {
		if file.D["Subtype"] != ref.Name("OpenType") {
			t.Fail("file", "font file is %s", ref.Canon(file.D))
		}
	} else if n, ok := ref.Int(file.D["Length1"]); !ok || n != len(s.data) {
		t.Fail("file", "Length1 %v of %d", file.D["Length1"], len(s.data))
	}
}

// strictPages reads a built document strictly.
func strictPages(t *core.T, b []byte, err error) (*ref.File, []ref.Page) {
	t.Step(1)
	if err != nil {
		t.Fail("bytes", "%v", err)
		return nil, nil
	}
	t.Attach("out.pdf", b)
	f, err := ref.Open(b)
	if err == nil {
		err = f.CheckAll()
	}
	if err == nil {
		err = f.CheckRefs()
	}
	var ps []ref.Page
	if err == nil {
		ps, err = f.Pages()
	}
	if err != nil {
		t.Fail("valid", "%v", err)
		return nil, nil
	}
	return f, ps
}

// embedOne embeds one font on one page and checks it.
func embedOne(t *core.T, s fspec, name string) {
	t.Attach("font.ttf", s.data)
	ft, err := font.NewFont(name, s.data)
	if err != nil {
		t.Fail("accept", "%v", err)
		return
	}
	for _, r := range s.chars {
		ft.AddRune(r)
	}
	b := write.NewSimplePDFBuilder()
	p := b.AddPage(write.PageSizeA5)
	rn, err := p.AddEmbeddedFont(ft)
	if err != nil {
		t.Fail("accept", "%v", err)
		return
	}
	b.FinalizePage(p)
	out, err := b.Bytes()
	f, ps := strictPages(t, out, err)
	if f == nil {
		return
	}
	fonts := f.DictOf(f.DictOf(resolveAttrs(f, ps[0].D)["Resources"])["Font"])
	fd := f.DictOf(fonts[ref.Name(strings.TrimPrefix(rn, "/"))])
	if len(fonts) != 1 || fd == nil {
		t.Fail("resource", "%q is not among %v", rn, fonts)
		return
	}
	checkEmbedded(t, f, fd, s)
	checkGlyphs(t, ft, s)
	t.Outcome(ref.Canon(fd))
}

// checkGlyphs compares the glyphs and widths of the characters of a font.
func checkGlyphs(t *core.T, ft *font.Font, s fspec) {
	want := map[int]bool{0: true}
	for _, r := range s.chars {
		if g := s.glyph[r]; g != 0 {
			want[g] = true
		}
	}
	var ids, ws []int
	for _, g := range sorted(want) {
		ids = append(ids, g)
		if g >= len(s.ttf.Advances) {
			g = len(s.ttf.Advances) - 1
		}
		ws = append(ws, s.ttf.Advances[g])
	}
	got, err := ft.GetSubsetGlyphs()
	t.Step(1)
	if err != nil || fmt.Sprint(got) != fmt.Sprint(ids) {
		t.Fail("glyphs", "%q has the glyphs %v, want %v (%v)", string(s.chars), got, ids, err)
	}
	gw, err := ft.GetWidths()
	if err != nil || fmt.Sprint(gw) != fmt.Sprint(ws) {
		t.Fail("glyphs", "%q has the widths %v, want %v (%v)", string(s.chars), gw, ws, err)
	}
}

func baseTTF() gen.TTF {
	return gen.TTF{UPM: 2048, Ascent: 1500, Descent: -400, Advances: []int{1000, 1234, 613, 2048, 77}, Glyphs: 6, Plat: 3, Enc: 1, Format: 4,
		Cmap: map[rune]int{'A': 1, 'B': 2, 'C': 3}, Names: map[int]string{1: "Fam", 4: "Fam Bold", 6: "Fam-Bold"}}
}

func spec(f gen.TTF, chars string) fspec {
	return fspec{ttf: f, data: f.Bytes(), glyph: f.Cmap, chars: []rune(chars), bases: []string{f.Names[6]}}
}

func runEmbedded(c *core.Ctx) {
	runCmaps(c)
	runSegments(c)
	runFontFiles(c)
	runFontCalls(c)
	runFontTexts(c)
	runWatermarks(c)
}

// --- character maps ------------------------------------------------------------------------

func runCmaps(c *core.Ctx) {
	chars := []rune{'A', 'B', 'C', 'é', '€', '•', 'Ω'}
	n := core.Pick(c, 3, 4) // glyphs of a character
	maps := pow(n, len(chars))
	forms := []struct{ format, plat, enc int }{{4, 3, 1}, {40, 3, 1}, {12, 3, 10}, {4, 0, 3}, {40, 0, 3}, {12, 0, 4}}
	c.ForEach("cmaps", maps*len(forms), func(i int) string { return fmt.Sprintf("%d-%v", i/len(forms), forms[i%len(forms)]) }, func(t *core.T, i int) {
		f := baseTTF()
		fm := forms[i%len(forms)]
		f.Format, f.Plat, f.Enc = fm.format, fm.plat, fm.enc
		f.Cmap = map[rune]int{}
		k := i / len(forms)
		for _, r := range chars {
			if k%n > 0 {
				f.Cmap[r] = []int{0, 1, 4, 5}[k%n]
			}
			k /= n
		}
		s := spec(f, "")
		subsets := 1 << len(chars)
		for m := 0; m < subsets && !t.Failed(); m++ {
			if k := core.Pick(c, 16, 8); m%k != i/len(forms)%k && m != subsets-1 {
				continue
			}
			s.chars = nil
			for b, r := range chars {
				if m>>b&1 == 1 {
					s.chars = append(s.chars, r)
				}
			}
			t.State(fmt.Sprintf("cmaps %d %d", i, m))
			embedOne(t, s, "x")
		}
	})
	// characters at and beyond the ends of what a map can hold
	edges := []rune{0x20, 0x7E, 0xFF, 0x100, 0x2122, 0xFFFD, 0xFFFE, 0x10000, 0x1F600, 0x10FFFF}
	c.ForEach("edges", 1<<len(edges), func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		for _, fm := range []struct{ format, plat, enc int }{{4, 3, 1}, {40, 0, 3}, {12, 3, 10}} {
			f := baseTTF()
			f.Format, f.Plat, f.Enc = fm.format, fm.plat, fm.enc
			f.Cmap = map[rune]int{}
			for b, r := range edges {
				if i>>b&1 == 1 && (r < 0x10000 || fm.format == 12) {
					f.Cmap[r] = 1 + b%5
				}
			}
			t.State(fmt.Sprintf("edges %d %d", i, fm.format))
			s := spec(f, string(edges))
			embedOne(t, s, "x")
			ft, _ := font.NewFont("x", s.data)
			for _, r := range edges {
				s.chars = []rune{r}
				ft.Subset = s.chars
				checkGlyphs(t, ft, s)
			}
		}
	})
}

// segGlyph looks a character up in a subtable of format 4.
func segGlyph(segs [][4]int, ids []int, r int) int {
	for i, s := range segs {
		if s[0] < r {
			continue
		}
		if s[1] > r {
			return 0
		}
		if s[3] == 0 {
			return (r + s[2]) & 0xFFFF
		}
		k := i - len(segs) + s[3]/2 + r - s[1]
		if k < 0 || k >= len(ids) || ids[k] == 0 {
			return 0
		}
		return (ids[k] + s[2]) & 0xFFFF
	}
	return 0
}

func runSegments(c *core.Ctx) {
	lo, hi := int(65), core.Pick(c, 68, 70)
	var one [][4]int // end, start, delta, glyph id index (-1: none)
	for a := lo; a <= hi; a++ {
		for b := a; b <= hi; b++ {
			for _, d := range []int{0, 1, -64, -a + 4} {
				for _, g := range core.Pick(c, []int{-1, 0, 1}, []int{-1, 0, 1, 3}) {
					one = append(one, [4]int{b, a, d, g})
				}
			}
		}
	}
	n := len(one)
	ids := []int{3, 0, 2, 1, 4}
	const depth = 3
	run := func(t *core.T, pick []int) {
		var segs [][4]int
		for _, k := range pick {
			s := one[k]
			if len(segs) > 0 && segs[len(segs)-1][0] >= s[1] {
				return // not sorted
			}
			segs = append(segs, s)
		}
		segs = append(segs, [4]int{0xFFFF, 0xFFFF, 1, -1})
		for i := range segs {
			g := segs[i][3]
			segs[i][3] = 0
			if g >= 0 {
				segs[i][3] = 2 * (len(segs) - i + g)
			}
		}
		f := baseTTF()
		f.Tables = map[string][]byte{"cmap": gen.CmapTable([][2]int{{3, 1}}, [][]byte{gen.Cmap4(segs, ids)})}
		s := spec(f, "")
		s.glyph = map[rune]int{}
		all := []rune{'@', 'A', 'B', 'C', 'D', 'E'}
		for _, r := range all {
			s.glyph[r] = segGlyph(segs, ids, int(r))
		}
		ft, err := font.NewFont("x", s.data)
		if err != nil {
			t.Fail("accept", "%v", err)
			return
		}
		t.State(fmt.Sprintf("segments %v", segs))
		for _, r := range all {
			s.chars = []rune{r}
			ft.Subset = s.chars
			checkGlyphs(t, ft, s)
		}
		t.Outcome(fmt.Sprint(s.glyph))
		if t.Failed() {
			t.Attach("font.ttf", s.data)
		}
	}
	for d := 1; d <= depth; d++ {
		d := d
		c.ForEach(fmt.Sprintf("segments%d", d), pow(n, d-1), func(i int) string { return fmt.Sprint(seqOf(i, n, d-1)) }, func(t *core.T, i int) {
			pre := seqOf(i, n, d-1)
			for k := 0; k < n && !t.Failed(); k++ {
				run(t, append(pre[:d-1:d-1], k))
			}
		})
	}
	// groups of format 12
	var groups [][3]int
	for _, a := range []int{'A', 'B', 'C', 0xFFFF, 0x10000} {
		for _, l := range []int{0, 1, 2} {
			for _, g := range []int{0, 1, 3} {
				groups = append(groups, [3]int{a, a + l, g})
			}
		}
	}
	m := len(groups)
	deep := core.Pick(c, 3, 4)
	c.ForEach("groups", pow(m, deep-1), func(i int) string { return fmt.Sprint(seqOf(i, m, deep-1)) }, func(t *core.T, i int) {
		for k := 0; k < m && !t.Failed(); k++ {
			var gs [][3]int
			for _, x := range append(seqOf(i, m, deep-1), k) {
				if len(gs) > 0 && gs[len(gs)-1][1] >= groups[x][0] {
					continue
				}
				gs = append(gs, groups[x])
			}
			f := baseTTF()
			f.Tables = map[string][]byte{"cmap": gen.CmapTable([][2]int{{3, 10}}, [][]byte{gen.Cmap12(gs)})}
			s := spec(f, "")
			s.glyph = map[rune]int{}
			for _, g := range gs {
				for r := g[0]; r <= g[1]; r++ {
					s.glyph[rune(r)] = g[2] + r - g[0]
				}
			}
			if !t.State(fmt.Sprintf("groups %v", gs)) {
				continue
			}
			ft, err := font.NewFont("x", s.data)
			if err != nil {
				t.Fail("accept", "%v", err)
				return
			}
			for _, r := range []rune{'@', 'A', 'B', 'C', 'D', 'E', 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x10002, 0x10003} {
				s.chars = []rune{r}
				ft.Subset = s.chars
				checkGlyphs(t, ft, s)
			}
			t.Outcome(fmt.Sprint(s.glyph))
			if t.Failed() {
				t.Attach("font.ttf", s.data)
			}
		}
	})
	// which subtable counts
	plats := [][2]int{{0, 3}, {1, 0}, {3, 0}, {3, 1}, {3, 10}, {0, 4}, {2, 0}}
	c.ForEach("subtables", 1<<len(plats)*3, func(i int) string { return fmt.Sprintf("%07b-%d", i/3, i%3) }, func(t *core.T, i int) {
		uni := baseTTF()
		uni.Cmap = map[rune]int{'A': 1, 'é': 2, 0x2022: 3}
		full := uni
		full.Format = 12
		full.Cmap = map[rune]int{'A': 1, 'é': 2, 0x2022: 3, 0x1F600: 4}
		other := baseTTF()
		other.Cmap = map[rune]int{'A': 3, 'B': 4, 0xF041: 1}
		var ps [][2]int
		var subs [][]byte
		unicode := false
		for k := range plats {
			k = []int{k, len(plats) - 1 - k, (k + 3) % len(plats)}[i%3]
			if i/3>>k&1 == 0 {
				continue
			}
			ps = append(ps, plats[k])
			switch plats[k] {
			case [2]int{3, 10}, [2]int{0, 4}:
				subs = append(subs, full.CmapSub())
				unicode = true
			case [2]int{3, 1}, [2]int{0, 3}:
				subs = append(subs, uni.CmapSub())
				unicode = true
			default:
				subs = append(subs, other.CmapSub())
			}
		}
		if !unicode {
			return
		}
		f := uni
		f.Tables = map[string][]byte{"cmap": gen.CmapTable(ps, subs)}
		t.State(fmt.Sprintf("subtables %v", ps))
		s := spec(f, "ABé•")
		embedOne(t, s, "x")
		if i/3>>4&1 == 1 && !t.Failed() { // the subtable of all Unicode characters
			ft, _ := font.NewFont("x", s.data)
			s.glyph, s.chars = full.Cmap, []rune("A\U0001F600")
			ft.Subset = s.chars
			checkGlyphs(t, ft, s)
		}
	})
}

// --- whole font files ------------------------------------------------------------------------

func runFontFiles(c *core.Ctx) {
	upms := []int{1000, 2048, 1024, 16, 16384}
	c.ForEach("metrics", len(upms)*6*5*4, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		f := baseTTF()
		f.UPM = upms[i%5]
		f.Cmap = map[rune]int{}
		for r := 'A'; r <= 'F'; r++ {
			f.Cmap[r] = int(r-'A') + 1
		}
		f.Glyphs = 7
		f.Advances = []int{f.UPM, 0, 1, f.UPM/2 + 1, f.UPM * 2, f.UPM/3 + 1, 65535 % (3 * f.UPM)}[:1+i/5%6]
		pair := [][2]int{{800, -200}, {f.UPM, -f.UPM / 3}, {0, 0}, {-5, -7}, {32767, -32768}}[i/30%5]
		f.Ascent, f.Descent = pair[0], pair[1]
		f.OS2, f.OS2Ver = i/150 > 0, []int{0, 2, 1, 4}[i/150]
		f.Cap, f.XHt = f.UPM*7/10, f.UPM/2
		for _, fixed := range []bool{false, true} {
			for _, it := range []int{0, -12 << 16, 1 << 15, -1, 90 << 16} {
				f.Fixed, f.Italic = fixed, it
				t.State(fmt.Sprintf("metrics %d %v %d", i, fixed, it))
				embedOne(t, spec(f, "ABCDEFG"), "x")
			}
		}
	})
	texts := []string{"", "Arial", "My Font", "A(b)#/c\\", "Größe", "中文", "x<y>[z]{1}%"}
	n := len(texts)
	c.ForEach("names", n*n*n*5, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		f := baseTTF()
		f.Names = map[int]string{}
		k := i
		for _, id := range []int{1, 4, 6} {
			if texts[k%n] != "" {
				f.Names[id] = texts[k%n]
			}
			k /= n
		}
		f.NamePlats = [][]int{{3}, {0}, {3, 1}, {0, 3}, {1}}[k]
		f.Names[2] = "Regular"
		s := spec(f, "AB")
		if f.Names[6] == "" || k == 4 {
			s.bases = append(s.bases, "Given Name")
			for _, id := range []int{1, 4} {
				if f.Names[id] != "" {
					s.bases = append(s.bases, f.Names[id])
				}
			}
		}
		t.State(fmt.Sprintf("names %d", i))
		embedOne(t, s, "Given Name")
	})
	// order, place and presence of the tables
	required := []string{"head", "maxp", "hhea", "hmtx", "name", "post", "cmap"}
	c.ForEach("tables", 1<<len(required)*4, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		f := baseTTF()
		f.Reverse = i&1 == 1
		f.Pad = []int{0, 3}[i>>1&1]
		f.Tables = map[string][]byte{"glyf": []byte("outlines"), "loca": nil, "abcd": {}, "zzzz": bytes.Repeat([]byte{7}, 1001)}
		missing := false
		for b, tag := range required {
			if i>>(b+2)&1 == 1 {
				f.Tables[tag] = nil
				missing = true
			}
		}
		for _, sig := range []uint32{0x00010000, 0x4F54544F, 0x74746366, 0x774F4646} {
			f.Sig = sig
			t.State(fmt.Sprintf("tables %d %x", i, sig))
			s := spec(f, "ABC")
			if !missing && (sig == 0x00010000 || sig == 0x4F54544F) {
				embedOne(t, s, "x")
				continue
			}
			// refused, and the document is as if it had not been tried
			t.Attach("font.ttf", s.data)
			var outs [2][]byte
			for k := range outs {
				b := write.NewSimplePDFBuilder()
				p := b.AddPage(write.PageSizeA5)
				if k == 1 {
					ft, err := font.NewFont("x", s.data)
					if err == nil {
						ft.AddString("ABC")
						_, err = p.AddEmbeddedFont(ft)
					}
					t.Step(1)
					if err == nil {
						t.Fail("refuse", "a font without a table it needs is embedded")
						return
					}
				}
				p.Content().Rectangle(1, 2, 3, 4).Fill()
				b.FinalizePage(p)
				outs[k], _ = b.Bytes()
			}
			if !bytes.Equal(outs[0], outs[1]) {
				t.Fail("refuse", "the refused font changed the document")
			}
			t.Outcome("refused")
		}
	})
}

// --- calls ---------------------------------------------------------------------------------

type shown struct {
	name  string
	spec  *fspec // nil: standard
	base  string
	chars []rune
}

func runFontCalls(c *core.Ctx) {
	fa := baseTTF()
	fa.Cmap = map[rune]int{'A': 1, 'B': 2, 'C': 3, '€': 4}
	fb := baseTTF()
	fb.Names = map[int]string{6: "Other"}
	fb.Format, fb.Enc = 12, 10
	fb.Cmap = map[rune]int{'B': 3, 'C': 1, 'é': 5}
	specs := []fspec{spec(fa, ""), spec(fb, "")}
	const ops = 9
	depth := core.Pick(c, 5, 6)
	c.ForEach("calls", pow(ops, depth-1), func(i int) string { return fmt.Sprint(seqOf(i, ops, depth-1)) }, func(t *core.T, i int) {
		for k := 0; k < ops && !t.Failed(); k++ {
			seq := append(seqOf(i, ops, depth-1), k)
			b := write.NewSimplePDFBuilder()
			pages := []*write.PageBuilder{b.AddPage(write.PageSizeA5), b.AddPage(write.PageSizeA4)}
			var fonts [2]*font.Font
			var chars [2][]rune
			for j := range fonts {
				fonts[j], _ = font.NewFont("f", specs[j].data)
			}
			add := func(j int, s string) {
				for _, r := range s {
					if !strings.ContainsRune(string(chars[j]), r) {
						chars[j] = append(chars[j], r)
					}
				}
			}
			var use [2][]shown
			place := func(pg, j int) bool {
				name, err := pages[pg].AddEmbeddedFont(fonts[j])
				if err != nil {
					t.Fail("accept", "%v: %v", seq, err)
					return false
				}
				s := specs[j]
				s.chars = append([]rune(nil), chars[j]...)
				for _, u := range use[pg] {
					if u.name == name {
						t.Fail("resource", "%v: %s is used twice", seq, name)
					}
				}
				use[pg] = append(use[pg], shown{name: name, spec: &s, chars: s.chars})
				return true
			}
			std := func(pg int, base string) {
				name := pages[pg].AddStandardFont(base)
				for _, u := range use[pg] {
					if u.name == name && u.base == base {
						return
					} else if u.name == name {
						t.Fail("resource", "%v: %s is used twice", seq, name)
					}
				}
				use[pg] = append(use[pg], shown{name: name, base: base, chars: []rune("xé•")})
			}
			for _, o := range seq {
				switch o {
				case 0:
					fonts[0].AddString("AB")
					add(0, "AB")
				case 1:
					fonts[0].AddRune('€')
					fonts[0].AddString("C\u200b\n") // not printed
					add(0, "€C")
				case 2:
					fonts[1].AddString("Cé")
					add(1, "Cé")
				case 3:
					place(0, 0)
				case 4:
					place(1, 0)
				case 5:
					place(0, 1)
				case 6:
					std(0, "Helvetica")
				case 7:
					std(0, "Times-Roman")
				case 8:
					std(1, "Helvetica")
					place(1, 1)
				}
			}
			var want [2]string
			for pg, us := range use {
				for _, u := range us {
					pages[pg].Content().BeginText().SetFont(u.name, 9).SetTextPosition(10, 20).ShowText(string(u.chars)).EndText()
					want[pg] += string(u.chars)
				}
				b.FinalizePage(pages[pg])
			}
			out, err := b.Bytes()
			f, ps := strictPages(t, out, err)
			if f == nil {
				return
			}
			t.State(fmt.Sprint("calls ", seq))
			for pg, us := range use {
				fs := f.DictOf(f.DictOf(resolveAttrs(f, ps[pg].D)["Resources"])["Font"])
				if len(fs) != len(us) {
					t.Fail("resource", "%v: page %d has the fonts %v, want %d", seq, pg, fs, len(us))
				}
				for _, u := range us {
					fd := f.DictOf(fs[ref.Name(strings.TrimPrefix(u.name, "/"))])
					if fd == nil {
						t.Fail("resource", "%v: page %d has no %s", seq, pg, u.name)
					} else if u.spec != nil {
						checkEmbedded(t, f, fd, *u.spec)
					} else if fd["BaseFont"] != ref.Name(u.base) || fd["Subtype"] != ref.Name("Type1") || fd["Encoding"] != ref.Name("WinAnsiEncoding") {
						t.Fail("font", "%v: %s is %s", seq, u.name, ref.Canon(fd))
					}
				}
			}
			if i%core.Pick(c, 7, 1) == 0 && !t.Failed() {
				pageTexts(t, out, want[:])
			}
			t.Outcome(fmt.Sprint(want))
		}
	})
}

// pageTexts checks the text that is extracted from each page.
func pageTexts(t *core.T, pdf []byte, want []string) {
	doc, err := extract.ExtractContent(pdf, nil, false)
	t.Step(1)
	if err != nil || len(doc.Pages) != len(want) {
		t.Fail("extract", "%v", err)
		return
	}
	for i, w := range want {
		got := ""
		for _, e := range doc.Pages[i].Text {
			got += e.Text
		}
		if got != w {
			t.Fail("extract", "page %d reads %q, want %q", i+1, got, w)
		}
	}
}

// --- texts ---------------------------------------------------------------------------------

// drawn is one text or image that content shows.
type drawn struct {
	op, name string // Tj or Do
	text     string // codes
	m        mat
	fill     string
	gs       string
	size     float64
}

// interpret runs the operations of a content stream that the builder writes.
func interpret(data []byte) ([]drawn, error) {
	l := ref.NewLex(data, 0)
	type state struct {
		ctm            mat
		fill, gs, font string
		size, tl       float64
	}
	s := state{ctm: ident, fill: "0 0 0"}
	var stack []state
	var lm mat
	inText := false
	var args []ref.Obj
	var out []drawn
	for {
		l.SkipWS()
		if l.P >= len(data) {
			break
		}
		o, err := l.Next()
		if err != nil {
			return nil, err
		}
		k, isOp := o.(ref.Keyword)
		if !isOp {
			args = append(args, o)
			continue
		}
		var fs []float64
		for _, a := range args {
			if f, ok := ref.Float(a); ok {
				fs = append(fs, f)
			}
		}
		need := map[ref.Keyword]int{"cm": 6, "rg": 3, "Td": 2, "Tm": 6, "Tf": 1, "re": 4}
		if n, has := need[k]; has && len(fs) != n {
			return nil, fmt.Errorf("%s has the operands %v", k, args)
		}
		show := func(o ref.Obj) {
			str, _ := o.(ref.Str)
			out = append(out, drawn{op: "Tj", name: s.font, text: string(str), m: lm.mul(s.ctm), fill: s.fill, gs: s.gs, size: s.size})
		}
		switch k {
		case "q":
			stack = append(stack, s)
		case "Q":
			if len(stack) == 0 || inText {
				return nil, fmt.Errorf("misplaced Q")
			}
			s, stack = stack[len(stack)-1], stack[:len(stack)-1]
		case "cm":
			s.ctm = mat{fs[0], fs[1], fs[2], fs[3], fs[4], fs[5]}.mul(s.ctm)
		case "rg":
			s.fill = nums(fs...)
		case "gs":
			n, _ := args[0].(ref.Name)
			s.gs = string(n)
		case "BT":
			inText, lm = true, ident
		case "ET":
			if !inText {
				return nil, fmt.Errorf("misplaced ET")
			}
			inText = false
		case "Tf":
			n, _ := args[0].(ref.Name)
			s.font, s.size = string(n), fs[0]
		case "Td":
			lm = mat{1, 0, 0, 1, fs[0], fs[1]}.mul(lm)
		case "Tm":
			lm = mat{fs[0], fs[1], fs[2], fs[3], fs[4], fs[5]}
		case "Tj", "'":
			if !inText || len(args) != 1 {
				return nil, fmt.Errorf("misplaced %s", k)
			}
			show(args[0])
		case "TJ":
			arr, _ := args[0].(ref.Arr)
			for _, a := range arr {
				if _, isStr := a.(ref.Str); isStr {
					show(a)
				}
			}
		case "Do":
			n, _ := args[0].(ref.Name)
			out = append(out, drawn{op: "Do", name: string(n), m: s.ctm, fill: s.fill, gs: s.gs})
		case "re", "f", "S":
		default:
			return nil, fmt.Errorf("unexpected operator %s", k)
		}
		args = nil
	}
	if len(stack) > 0 || inText {
		return nil, fmt.Errorf("unbalanced content")
	}
	return out, nil
}

func pageContent(t *core.T, f *ref.File, p ref.Page) ([]byte, bool) {
	s, _ := f.Resolve(p.D["Contents"]).(*ref.Stream)
	if s == nil {
		t.Fail("content", "contents are %s", ref.Canon(p.D["Contents"]))
		return nil, false
	}
	d, err := f.Decode(s)
	if err != nil {
		t.Fail("content", "%v", err)
		return nil, false
	}
	return d, true
}

func runFontTexts(c *core.Ctx) {
	var texts []string
	win := winRunes()
	for _, r := range win {
		if r != 0 {
			texts = append(texts, string(r), "a"+string(r)+"(")
		}
	}
	alpha := []rune{'A', '(', ')', '\\', 'é', '€', '•', '\n', '\r', 'ÿ', ' ', '1', '‰'}
	for d := 2; d <= core.Pick(c, 3, 4); d++ {
		for i := 0; i < pow(len(alpha), d); i++ {
			s := ""
			for _, k := range seqOf(i, len(alpha), d) {
				s += string(alpha[k])
			}
			texts = append(texts, s)
		}
	}
	texts = append(texts, "", strings.Repeat("Ünïcödé ", 200))
	all := ""
	ft := baseTTF()
	ft.Cmap = map[rune]int{}
	for k, r := range win {
		if r != 0 {
			all += string(r)
			ft.Cmap[r] = 1 + k%5
		}
	}
	data := ft.Bytes()
	const chunk = 8
	c.ForEach("texts", (len(texts)+chunk-1)/chunk, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		b := write.NewSimplePDFBuilder()
		fo, err := font.NewFont("x", data)
		if err != nil {
			t.Fail("accept", "%v", err)
			return
		}
		fo.AddString(all)
		var want, read []string
		for k := i * chunk; k < (i+1)*chunk && k < len(texts); k++ {
			s := texts[k]
			for kind := 0; kind < 2; kind++ {
				p := b.AddPage(write.PageSizeA5)
				name := p.AddStandardFont("Helvetica")
				if kind == 1 {
					if name, err = p.AddEmbeddedFont(fo); err != nil {
						t.Fail("accept", "%v", err)
						return
					}
				}
				p.Content().BeginText().SetFont(name, 10).ShowText(s).ShowTextNextLine(s).ShowTextArray([]interface{}{s, -20, s, 3.5}).EndText()
				b.FinalizePage(p)
				codes := ""
				for _, r := range s {
					if code, ok := winCode(r); ok {
						codes += string([]byte{code})
					} else {
						codes += string([]byte{byte(r)})
					}
				}
				want = append(want, codes)
				read = append(read, strings.Repeat(s, 4))
				t.State(fmt.Sprintf("texts %d %d", k, kind))
			}
		}
		out, err := b.Bytes()
		f, ps := strictPages(t, out, err)
		if f == nil {
			return
		}
		for k, p := range ps {
			d, ok := pageContent(t, f, p)
			if !ok {
				return
			}
			ds, err := interpret(d)
			if err != nil || len(ds) != 4 {
				t.Fail("content", "page %d shows %d texts: %v", k+1, len(ds), err)
				return
			}
			for j, x := range ds {
				if x.text != want[k] {
					t.Fail("codes", "page %d call %d shows %q for %q", k+1, j, x.text, read[k][:len(read[k])/4])
				}
			}
		}
		doc, err := extract.ExtractContent(out, nil, false)
		t.Step(1)
		if err != nil || len(doc.Pages) != len(read) {
			t.Fail("extract", "%v", err)
			return
		}
		for k, w := range read {
			if strings.ContainsAny(w, "\n\r") {
				continue
			}
			got := ""
			for _, e := range doc.Pages[k].Text {
				got += e.Text
			}
			if got != w {
				t.Fail("extract", "page %d reads %q, want %q", k+1, got, w)
			}
			t.Outcome(got)
		}
	})
}

// --- watermarks ----------------------------------------------------------------------------

func runWatermarks(c *core.Ctx) {
	type wm struct {
		o     write.WatermarkOptions
		image bool
	}
	var list []wm
	for kind := 0; kind < 3; kind++ {
		for _, op := range []float64{0, .25, .3, 1} {
			for _, an := range []float64{0, 45, 90, -30} {
				for _, col := range []*write.Color{nil, {R: 1, G: .25, B: 0}} {
					for _, pos := range [][2]float64{{0, 0}, {100, 200.5}} {
						for fs := 0; fs < 2; fs++ {
							o := write.WatermarkOptions{Opacity: op, Angle: an, Color: col, X: pos[0], Y: pos[1]}
							if fs == 1 {
								o.FontName, o.FontSize = "Courier", 30
							}
							o.Text = []string{"DRAFT", "Größe (1)\\", "unused"}[kind]
							list = append(list, wm{o, kind == 2})
						}
					}
				}
			}
		}
	}
	sizes := []write.PageSize{write.PageSizeLetter, {Width: 100.5, Height: 50}}
	second := []int{-1}
	step := core.Pick(c, 29, 1)
	for k := 0; k < len(list); k += step {
		second = append(second, k)
	}
	n := len(list)
	c.ForEach("watermarks", n*len(sizes), func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		for _, s2 := range second {
			if t.Failed() {
				return
			}
			size := sizes[i/n]
			b := write.NewSimplePDFBuilder()
			info, err := b.Writer().AddImage(pngKinds()[0].encode(1, 1, []int{0}), "Pic")
			if err != nil {
				t.Fail("image", "%v", err)
				return
			}
			p := b.AddPage(size)
			pic := p.AddImage(info)
			fn := p.AddStandardFont("Helvetica")
			mark := func() { p.Content().BeginText().SetFont(fn, 5).SetTextPosition(1, 2).ShowText("base").EndText() }
			mark()
			var ws []wm
			for _, k := range []int{i % n, s2} {
				if k < 0 {
					continue
				}
				w := list[k]
				if w.image {
					w.o.ImageName = []string{pic, strings.TrimPrefix(pic, "/")}[k&1]
				}
				before := w.o
				if err := p.AddWatermark(&w.o); err != nil {
					t.Fail("watermark", "%v", err)
					return
				}
				if w.o != before {
					t.Fail("options", "the options changed to %+v", w.o)
				}
				ws = append(ws, w)
				mark()
			}
			for _, bad := range []*write.WatermarkOptions{nil, {}, {ImageName: "/None", Text: "x"}} {
				n := len(p.Content().Bytes())
				if p.AddWatermark(bad) == nil || len(p.Content().Bytes()) != n {
					t.Fail("refuse", "%+v is accepted", bad)
				}
			}
			b.FinalizePage(p)
			out, err := b.Bytes()
			f, ps := strictPages(t, out, err)
			if f == nil {
				return
			}
			t.State(fmt.Sprintf("watermarks %d %d", i, s2))
			d, ok := pageContent(t, f, ps[0])
			if !ok {
				return
			}
			ds, err := interpret(d)
			if err != nil || len(ds) != 2*len(ws)+1 {
				t.Fail("content", "%d things are shown: %v", len(ds), err)
				return
			}
			res := f.DictOf(resolveAttrs(f, ps[0].D)["Resources"])
			for k, x := range ds {
				if k%2 == 0 {
					if x.text != "base" || x.m != (mat{1, 0, 0, 1, 1, 2}) || x.fill != "0 0 0" || x.gs != "" || x.size != 5 {
						t.Fail("rest", "the text of the page became %+v", x)
					}
					continue
				}
				checkWatermark(t, f, res, size, ws[k/2].o, x)
			}
		}
	})
	// the short form
	c.ForEach("short", 4*4, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		size, angle := []float64{0, 60, -1, 12.5}[i%4], []float64{0, 30, -45, 180}[i/4]
		b := write.NewSimplePDFBuilder()
		p := b.AddPage(write.PageSizeA4)
		if err := p.AddTextWatermark("Secret €", size, angle); err != nil {
			t.Fail("watermark", "%v", err)
			return
		}
		b.FinalizePage(p)
		out, err := b.Bytes()
		f, ps := strictPages(t, out, err)
		if f == nil {
			return
		}
		d, ok := pageContent(t, f, ps[0])
		if !ok {
			return
		}
		ds, err := interpret(d)
		if err != nil || len(ds) != 1 {
			t.Fail("content", "%d things are shown: %v", len(ds), err)
			return
		}
		o := *write.DefaultWatermarkOptions()
		o.Text = "Secret €"
		if size > 0 {
			o.FontSize = size
		}
		if angle != 0 {
			o.Angle = angle
		}
		t.State(fmt.Sprintf("short %d", i))
		checkWatermark(t, f, f.DictOf(resolveAttrs(f, ps[0].D)["Resources"]), write.PageSizeA4, o, ds[0])
	})
}

// checkWatermark compares what is shown with the options of a watermark.
func checkWatermark(t *core.T, f *ref.File, res ref.Dict, size write.PageSize, o write.WatermarkOptions, x drawn) {
	opacity, col, fs, fn := o.Opacity, o.Color, o.FontSize, o.FontName
	if opacity == 0 {
		opacity = .3
	}
	if col == nil {
		col = &write.Color{R: .5, G: .5, B: .5}
	}
	if fs == 0 {
		fs = 48
	}
	if fn == "" {
		fn = "Helvetica-Bold"
	}
	cx, cy := o.X, o.Y
	if cx == 0 && cy == 0 {
		cx, cy = size.Width/2, size.Height/2
	}
	got := 1.0
	if x.gs != "" {
		gs := f.DictOf(f.DictOf(res["ExtGState"])[ref.Name(x.gs)])
		ca, ok := ref.Float(gs["ca"])
		if !ok {
			t.Fail("opacity", "graphics state %s is %s", x.gs, ref.Canon(gs))
			return
		}
		got = ca
	}
	if math.Abs(got-opacity) > 1e-6 {
		t.Fail("opacity", "opacity %v, want %v", got, opacity)
	}
	a := o.Angle * math.Pi / 180
	cos, sin := math.Cos(a), math.Sin(a)
	near := func(p, q float64) bool { return math.Abs(p-q) < .01 }
	if o.ImageName != "" {
		if x.op != "Do" || "/"+x.name != "/"+strings.TrimPrefix(o.ImageName, "/") {
			t.Fail("watermark", "%+v is shown", x)
			return
		}
		mx, my := x.m[4]+(x.m[0]+x.m[2])/2, x.m[5]+(x.m[1]+x.m[3])/2
		w, h := math.Hypot(x.m[0], x.m[1]), math.Hypot(x.m[2], x.m[3])
		if math.Abs(mx-cx) > .1 || math.Abs(my-cy) > .1 || w == 0 || h == 0 || math.Abs(x.m[0]/w-cos) > .001 || math.Abs(x.m[1]/w-sin) > .001 || math.Abs(x.m[2]/h+sin) > .001 || math.Abs(x.m[3]/h-cos) > .001 {
			t.Fail("place", "image at %v, want its centre at %v %v turned by %v", x.m, cx, cy, o.Angle)
		}
		return
	}
	codes := ""
	for _, r := range o.Text {
		code, _ := winCode(r)
		codes += string([]byte{code})
	}
	if x.op != "Tj" || x.text != codes || x.size != fs {
		t.Fail("watermark", "%+v is shown", x)
		return
	}
	if fd := f.DictOf(f.DictOf(res["Font"])[ref.Name(x.name)]); fd["BaseFont"] != ref.Name(fn) {
		t.Fail("font", "the font is %s, want %s", ref.Canon(fd), fn)
	}
	if x.fill != nums(col.R, col.G, col.B) {
		t.Fail("colour", "colour %s, want %v", x.fill, *col)
	}
	if !near(x.m[0], cos) || !near(x.m[1], sin) || !near(x.m[2], -sin) || !near(x.m[3], cos) {
		t.Fail("place", "the text is turned by %v, want %v degrees", x.m, o.Angle)
	}
	dx, dy := x.m[4]-cx, x.m[5]-cy
	u, v := dx*cos+dy*sin, dy*cos-dx*sin
	if half := float64(len(codes)) * fs / 2; u > -half*.4 || u < -half || v > 0 || v < -fs {
		t.Fail("place", "the text starts at %v %v from its centre", u, v)
	}
	t.Outcome(fmt.Sprint(x.gs != "", x.fill, o.Angle))
}
