package props

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"unicode"

	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/types"

	"verifmc/core"
	"verifmc/gen"
)

func init() {
	core.Register(&core.Prop{ID: "P16", Level: "model_checking", Run: runCompare,
		Rule: "A case is one ordered pair of small documents (each made from a model by zero or one change, or by listing the texts, graphics, images, annotations or field values of a page) with the options they are compared under. The reported differences are checked against the multiset difference of the two models: nothing missing, nothing else, under every option. Non-trivial: the two documents differ, or are stored differently.",
		Assumptions: []string{
			"texts are compared by string, place, font resource name and size; graphics, annotations and image draws as they are extracted (P12, P14, P15)",
			"places that coincide within a tolerance form classes (no chains of near places); chains are not explored",
			"form fields without a value are not compared, nor are XFA values in groups",
		},
	})
}

// --- models ------------------------------------------------------------------------

type ctext struct {
	s    string
	x, y float64
	font string
	size float64
}

type crect struct {
	line       bool
	x, y, w, h float64
	color      string // fill colour operator
	lw         float64
}

type cdraw struct {
	name string
	data int // 0: not an image of the page's resources
	m    [6]float64
}

type cpage struct {
	w, h   float64
	rot    int
	texts  []ctext
	rects  []crect
	draws  []cdraw
	annots []string
}

type cmodel struct {
	meta    map[string]string // by Info key
	version string
	pages   []cpage
	marks   string // a forest shape with variants
	titles  string // suffix of the titles
	target  int    // page the first bookmark goes to
	labels  string // of a forest in parentheses: per bookmark, its page times 2 plus the variant of its title
	form    int    // 0 none, 1 AcroForm, 2 XFA
	values  map[string]string
}

func (m cmodel) clone() cmodel {
	n := m
	n.meta, n.values = map[string]string{}, map[string]string{}
	for k, v := range m.meta {
		n.meta[k] = v
	}
	for k, v := range m.values {
		n.values[k] = v
	}
	n.pages = nil
	for _, p := range m.pages {
		q := p
		q.texts = append([]ctext{}, p.texts...)
		q.rects = append([]crect{}, p.rects...)
		q.draws = append([]cdraw{}, p.draws...)
		q.annots = append([]string{}, p.annots...)
		n.pages = append(n.pages, q)
	}
	return n
}

// images are the pictures that can be drawn; number 0 is missing.
var cimages = []string{"",
	"/Width 2/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8>>|ab",
	"/Width 2/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8>>|ac",
	"/Width 1/Height 2/ColorSpace/DeviceGray/BitsPerComponent 8>>|ab",
	"/Width 2/Height 1/ColorSpace/DeviceGray/BitsPerComponent 4>>|ab",
	"/Width 2/Height 1/ColorSpace/DeviceRGB/BitsPerComponent 8>>|abcdef",
}

// picture is the dictionary and data of picture n. Those from 100 on are a larger image, stored
// plainly, from 10000 on a JPEG file, and from 1000000 on a much larger image, with one byte changed
// (the first of each is unchanged).
func picture(n int) string {
	if n < 100 {
		return cimages[n]
	}
	head := "/Width 64/Height 48/ColorSpace/DeviceGray/BitsPerComponent 8>>|"
	data := make([]byte, 64*48)
	for i := range data {
		data[i] = byte(i*7 + i/64)
	}
	k := n - 100
	if n >= 1000000 {
		k = n - 1000000
		head = "/Width 512/Height 256/ColorSpace/DeviceGray/BitsPerComponent 8>>|"
		data = make([]byte, 512*256)
		for i := range data {
			data[i] = byte(i*7 + i/64)
		}
	} else if n >= 10000 {
		k = n - 10000
		head = "/Width 64/Height 48/ColorSpace/DeviceGray/BitsPerComponent 8/Filter/DCTDecode>>|"
		copy(data, "\xff\xd8\xff\xe0\x00\x10JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00\xff\xc0\x00\x0b\x08\x00\x30\x00\x40\x01\x01\x11\x00\xff\xda\x00\x08\x01\x01\x00\x00\x3f\x00")
		copy(data[len(data)-2:], "\xff\xd9")
	}
	if k > 0 {
		data[k-1] ^= 0x10
	}
	return head + string(data)
}

func (p cpage) content() string {
	var b strings.Builder
	for _, r := range p.rects {
		if r.line {
			fmt.Fprintf(&b, "q %s %s w %s m %s l S Q\n", strings.ToUpper(r.color), num(r.lw), nums(r.x, r.y), nums(r.x+r.w, r.y+r.h))
		} else {
			fmt.Fprintf(&b, "q %s %s w %s re f Q\n", r.color, num(r.lw), nums(r.x, r.y, r.w, r.h))
		}
	}
	for _, d := range p.draws {
		fmt.Fprintf(&b, "q %s cm %s Do Q\n", nums(d.m[:]...), d.name)
	}
	for _, t := range p.texts {
		fmt.Fprintf(&b, "BT %s %s Tf 1 0 0 1 %s Tm %s Tj ET\n", t.font, num(t.size), nums(t.x, t.y), litStr(winAnsi(t.s)))
	}
	return b.String()
}

// winAnsi are the codes of a text of Latin-1 characters.
func winAnsi(s string) []byte {
	var out []byte
	for _, r := range s {
		out = append(out, byte(r))
	}
	return out
}

// build writes the document; renumber adds to the numbers of its objects.
func (m cmodel) build(layout string, renumber int) ([]byte, []byte) {
	r := func(n int) string { return fmt.Sprintf("%d 0 R", n+renumber) }
	var objs []gen.Obj
	add := func(n int, body string) { objs = append(objs, gen.Obj{Num: n + renumber, Body: body}) }
	stream := func(n int, body, data string) {
		objs = append(objs, gen.Obj{Num: n + renumber, Stream: true, Body: body, Data: data})
	}
	cat := ""
	kids := ""
	for i := range m.pages {
		kids += " " + r(10+i)
	}
	add(2, fmt.Sprintf("<</Type/Pages/Kids[%s]/Count %d>>", kids, len(m.pages)))
	add(5, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica/Encoding/WinAnsiEncoding>>")
	add(6, "<</Type/Font/Subtype/Type1/BaseFont/Courier/Encoding/WinAnsiEncoding>>")
	pics := map[int]int{}
	addPicture := func(i int) {
		if _, ok := pics[i]; !ok && i > 0 {
			pics[i] = 21 + len(pics)
			p := strings.SplitN(picture(i), "|", 2)
			stream(pics[i], "<</Type/XObject/Subtype/Image"+p[0], p[1])
		}
	}
	for i := range cimages {
		addPicture(i)
	}
	for _, p := range m.pages {
		for _, d := range p.draws {
			addPicture(d.data)
		}
	}
	for i, p := range m.pages {
		xo, seen := "", map[string]bool{}
		for _, d := range p.draws {
			if d.data > 0 && !seen[d.name] {
				xo += d.name + " " + r(pics[d.data])
				seen[d.name] = true
			}
		}
		annots := ""
		for k, a := range p.annots {
			if k%2 == 0 {
				annots += a
			} else {
				add(40+10*i+k, a)
				annots += " " + r(40+10*i+k)
			}
		}
		rot := ""
		if p.rot != 0 {
			rot = fmt.Sprintf("/Rotate %d", p.rot)
		}
		add(10+i, fmt.Sprintf("<</Type/Page/Parent %s/MediaBox[0 0 %s]%s/Contents %s/Resources<</Font<</F1 %s/F2 %s>>/XObject<<%s>>>>/Annots[%s]>>",
			r(2), nums(p.w, p.h), rot, r(30+i), r(5), r(6), xo, annots))
		stream(30+i, "<<>>", p.content())
	}
	if len(m.marks) > 0 {
		// siblings, the second one with a child
		dest := func(p int) string { return fmt.Sprintf("/Dest[%s/Fit]", r(10+p)) }
		switch m.marks {
		case "one":
			add(70, fmt.Sprintf("<</Type/Outlines/First %s/Last %s/Count 1>>", r(71), r(71)))
			add(71, fmt.Sprintf("<</Title(First%s)/Parent %s%s>>", m.titles, r(70), dest(m.target)))
		case "two":
			add(70, fmt.Sprintf("<</Type/Outlines/First %s/Last %s/Count 2>>", r(71), r(72)))
			add(71, fmt.Sprintf("<</Title(First%s)/Parent %s%s/Next %s>>", m.titles, r(70), dest(m.target), r(72)))
			add(72, fmt.Sprintf("<</Title(Second)/Parent %s%s/Prev %s>>", r(70), dest(0), r(71)))
		case "nested":
			add(70, fmt.Sprintf("<</Type/Outlines/First %s/Last %s/Count 2>>", r(71), r(71)))
			add(71, fmt.Sprintf("<</Title(First%s)/Parent %s%s/First %s/Last %s/Count 1>>", m.titles, r(70), dest(m.target), r(72), r(72)))
			add(72, fmt.Sprintf("<</Title(Second)/Parent %s%s>>", r(71), dest(0)))
		}
		if strings.HasPrefix(m.marks, "(") {
			roots, all := parseForest(m.marks)
			num := map[*mark]int{}
			for i, b := range all {
				num[b] = 1000 + i
			}
			ends := func(ms []*mark) string {
				if len(ms) == 0 {
					return ""
				}
				return fmt.Sprintf("/First %s/Last %s/Count %d", r(num[ms[0]]), r(num[ms[len(ms)-1]]), len(ms))
			}
			var list func(parent int, ms []*mark)
			list = func(parent int, ms []*mark) {
				for i, b := range ms {
					label := int(m.labels[num[b]-1000] - '0')
					body := fmt.Sprintf("<</Title(item%d)/Parent %s%s%s", label%2, r(parent), dest(label/2), ends(b.kids))
					if i > 0 {
						body += "/Prev " + r(num[ms[i-1]])
					}
					if i+1 < len(ms) {
						body += "/Next " + r(num[ms[i+1]])
					}
					add(num[b], body+">>")
					list(num[b], b.kids)
				}
			}
			add(70, "<</Type/Outlines"+ends(roots)+">>")
			list(70, roots)
		}
		cat += "/Outlines " + r(70)
	}
	var names []string
	for k := range m.values {
		names = append(names, k)
	}
	sort.Strings(names)
	switch m.form {
	case 1:
		fields := ""
		for i, k := range names {
			typ := "/FT/Tx"
			if strings.HasPrefix(m.values[k], "[") {
				typ = "/FT/Ch/Ff 2097152"
			}
			add(80+i, fmt.Sprintf("<<%s/T%s/V%s>>", typ, litStr([]byte(k)), m.values[k]))
			fields += " " + r(80+i)
		}
		add(79, "<</FT/Tx/T(empty)>>")
		cat += "/AcroForm<</Fields[" + fields + " " + r(79) + "]>>"
	case 2:
		data := "<datasets><data>"
		for _, k := range names {
			data += "<field name=\"" + k + "\"><value>" + strings.Trim(m.values[k], "()") + "</value></field>"
		}
		stream(77, "<<>>", "<template><subform name=\"f\"><field name=\"a\"/></subform></template>")
		stream(78, "<<>>", data+"</data></datasets>")
		cat += fmt.Sprintf("/AcroForm<</Fields[]/XFA[(template)%s(datasets)%s]>>", r(77), r(78))
	}
	info := "<<"
	for _, k := range []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate", "Project", "Client"} {
		if v, ok := m.meta[k]; ok {
			info += "/" + k + litStr([]byte(v))
		}
	}
	add(8, info+">>")
	add(1, "<</Type/Catalog/Pages "+r(2)+cat+">>")
	trailer := "/Root " + r(1) + "/Info " + r(8)
	var pdf, pw []byte
	if strings.HasPrefix(layout, "v") {
		pdf, pw = encryptedDoc(objs, layout, trailer)
	} else {
		pdf = layoutPages(objs, layout, trailer)
	}
	if m.version != "" {
		copy(pdf, "%PDF-"+m.version)
	}
	return pdf, pw
}

// cryptDoc encrypts a document.
func encryptedDoc(objs []gen.Obj, layout, trailer string) ([]byte, []byte) {
	for _, cf := range cryptCfgs() {
		if cf.name == layout {
			k := cf.make([]byte("user"), []byte("owner"), -44, cryptID)
			objs = append(objs, gen.Obj{Num: 990, Body: k.Dict()})
			b, _ := gen.Build("1.7", []gen.Rev{{Objs: k.Encrypt(objs, 990), Trailer: fmt.Sprintf("%s/ID[<%x><%x>]/Encrypt 990 0 R", trailer, cryptID, cryptID)}})
			return b, []byte("user")
		}
	}
	panic("harness: no encryption " + layout)
}

// --- the differences of two models --------------------------------------------------

func fold(s string, o compare.CompareOptions) string {
	if o.IgnoreCase {
		s = strings.ToLower(s)
	}
	if o.IgnoreWhitespace {
		s = strings.Map(func(r rune) rune {
			if unicode.IsSpace(r) {
				return -1
			}
			return r
		}, s)
	}
	return s
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

func (a ctext) at(b ctext, o compare.CompareOptions) bool {
	return near(a.x, b.x, o.TextTolerance) && near(a.y, b.y, o.TextTolerance)
}

// fonts count unless single words or characters are compared
func (a ctext) same(b ctext, o compare.CompareOptions) bool {
	return fold(a.s, o) == fold(b.s, o) && a.font == b.font && a.size == b.size
}

func (a crect) same(b crect, o compare.CompareOptions) bool {
	if a.line != b.line || a.lw != b.lw || a.color != b.color {
		return false
	}
	t := o.GraphicTolerance
	return a.line || near(a.x, b.x, t) && near(a.y, b.y, t) && near(a.x+a.w, b.x+b.w, t) && near(a.y+a.h, b.y+b.h, t)
}

func (a cdraw) at(b cdraw) bool {
	for i := range a.m {
		if !near(a.m[i], b.m[i], 1) {
			return false
		}
	}
	return true
}

// rest removes from a and b what they have in common.
func rest[T any](a, b []T, eq func(x, y T) bool) (ra, rb []T) {
	used := make([]bool, len(b))
	for _, x := range a {
		found := false
		for j, y := range b {
			if !used[j] && eq(x, y) {
				used[j], found = true, true
				break
			}
		}
		if !found {
			ra = append(ra, x)
		}
	}
	for j, y := range b {
		if !used[j] {
			rb = append(rb, y)
		}
	}
	return
}

func (a ctext) key() string { return fmt.Sprintf("%q@%v,%v %s %v", a.s, a.x, a.y, a.font, a.size) }
func (a cdraw) key() string { return fmt.Sprintf("%s %v", a.name, a.m) }
func (a crect) key() string {
	if a.line {
		return fmt.Sprintf("line %s %v", a.color, a.lw)
	}
	return fmt.Sprintf("rect %v,%v,%v,%v %s %v", a.x, a.y, a.x+a.w, a.y+a.h, a.color, a.lw)
}

func textKey(e types.TextElement) string {
	return ctext{e.Text, e.X, e.Y, e.FontName, e.FontSize}.key()
}

func colorOp(c *types.Color) string {
	if c == nil {
		return "none"
	}
	switch c.Space {
	case types.ColorSpaceGray:
		return num(c.R) + " g"
	case types.ColorSpaceCMYK:
		return nums(c.C, c.M, c.Y, c.K) + " k"
	}
	return nums(c.R, c.G, c.B) + " rg"
}

func graphicKey(g types.Graphic) string {
	if g.Type == types.GraphicTypeLine {
		return crect{line: true, color: colorOp(g.StrokeColor), lw: g.LineWidth}.key()
	}
	if g.BoundingBox == nil {
		return "no box"
	}
	b := g.BoundingBox
	return crect{x: b.LowerX, y: b.LowerY, w: b.UpperX - b.LowerX, h: b.UpperY - b.LowerY, color: colorOp(g.FillColor), lw: g.LineWidth}.key()
}

func drawKey(r types.ImageRef) string { return fmt.Sprintf("%s %v", r.ImageID, r.Transform) }

func keysOf[T any](a []T, key func(T) string) []string {
	var out []string
	for _, x := range a {
		out = append(out, key(x))
	}
	sort.Strings(out)
	return out
}

func sameKeys(a, b []string) bool {
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	return strings.Join(a, "\n") == strings.Join(b, "\n")
}

// annotKey is what an annotation of the models looks like when it is extracted.
func annotKey(a types.Annotation) string {
	x := a
	x.ID = ""
	b, _ := json.Marshal(x)
	return string(b)
}

// compareCase compares two documents and checks what is reported.
func compareCase(t *core.T, m1, m2 cmodel, lay1, lay2 string, num1, num2 int, o compare.CompareOptions) *compare.ComparisonResult {
	a, pw1 := m1.build(lay1, num1)
	b, pw2 := m2.build(lay2, num2)
	t.Attach("old.pdf", a)
	t.Attach("new.pdf", b)
	r, err := compare.ComparePDFsWithOptions(a, b, pw1, pw2, o)
	t.Step(1)
	if err != nil {
		t.Fail("compare", "%v", err)
		return nil
	}
	t.State(string(a) + "\x00" + string(b) + fmt.Sprint(o))
	judgeCompare(t, r, m1, m2, strings.HasPrefix(lay1, "v"), strings.HasPrefix(lay2, "v"), o)
	return r
}

var metaOrder = []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate"}

func judgeCompare(t *core.T, r *compare.ComparisonResult, m1, m2 cmodel, enc1, enc2 bool, o compare.CompareOptions) {
	total := 0
	content := false
	// metadata
	want := map[string][2]string{}
	if !o.IgnoreMetadata {
		set := func(k, a, b string) {
			if a != b {
				want[k] = [2]string{a, b}
			}
		}
		for _, k := range metaOrder {
			if k == "Producer" && o.IgnoreProducer || strings.HasSuffix(k, "Date") && o.IgnoreDates {
				continue
			}
			set(k, m1.meta[k], m2.meta[k])
		}
		for _, k := range []string{"Project", "Client"} {
			v1, ok1 := m1.meta[k]
			v2, ok2 := m2.meta[k]
			if !ok1 {
				v1 = "<nil>"
			}
			if !ok2 {
				v2 = "<nil>"
			}
			set("Custom "+k, v1, v2)
		}
		ver := func(v string) string {
			if v == "" {
				return "1.7"
			}
			return v
		}
		set("PDFVersion", ver(m1.version), ver(m2.version))
		set("PageCount", fmt.Sprint(len(m1.pages)), fmt.Sprint(len(m2.pages)))
		set("Encrypted", fmt.Sprint(enc1), fmt.Sprint(enc2))
	}
	got := map[string][2]string{}
	if d := r.MetadataDiff; d != nil {
		v := reflect.ValueOf(*d)
		for i := 0; i < v.NumField(); i++ {
			if f, ok := v.Field(i).Interface().(*compare.FieldDiff); ok && f != nil {
				got[v.Type().Field(i).Name] = [2]string{fmt.Sprint(f.OldValue), fmt.Sprint(f.NewValue)}
			}
		}
		for k, f := range d.Custom {
			got["Custom "+k] = [2]string{fmt.Sprint(f.OldValue), fmt.Sprint(f.NewValue)}
		}
	}
	if !reflect.DeepEqual(got, want) {
		t.Fail("metadata", "reported %v, want %v", got, want)
		return
	}
	if (r.MetadataDiff != nil) != (len(want) > 0) || r.Summary.MetadataChanged != (len(want) > 0) {
		t.Fail("metadata", "metadata changed: %v, %v; want %v", r.MetadataDiff, r.Summary.MetadataChanged, want)
		return
	}
	if len(want) > 0 {
		total++
	}
	// structure
	pages := len(m1.pages) != len(m2.pages)
	if pages {
		total++
	}
	if r.Summary.StructureChanged != pages || (r.StructureDiff != nil) != pages {
		t.Fail("pages", "structure changed: %v; pages %d and %d", r.Summary.StructureChanged, len(m1.pages), len(m2.pages))
		return
	}
	if pages {
		if d := r.StructureDiff.PageCountDiff; d == nil || fmt.Sprint(d.OldValue) != fmt.Sprint(len(m1.pages)) || fmt.Sprint(d.NewValue) != fmt.Sprint(len(m2.pages)) {
			t.Fail("pages", "page count difference %v; pages %d and %d", d, len(m1.pages), len(m2.pages))
			return
		}
	}
	// pages
	byPage := map[int]compare.PageDifference{}
	last := 0
	for _, pd := range r.PageDiffs {
		if pd.PageNumber <= last {
			t.Fail("pages", "page %d is listed after page %d", pd.PageNumber, last)
			return
		}
		last = pd.PageNumber
		byPage[pd.PageNumber] = pd
	}
	changed := 0
	for i := 0; i < len(m1.pages) || i < len(m2.pages); i++ {
		pd, ok := byPage[i+1]
		var wantTypes []string
		if i >= len(m1.pages) {
			wantTypes = []string{"page_content added"}
		} else if i >= len(m2.pages) {
			wantTypes = []string{"page_content removed"}
		} else {
			wantTypes = judgePage(t, i, pd, m1.pages[i], m2.pages[i], o)
			if t.Failed() {
				return
			}
		}
		var gotTypes []string
		for _, d := range pd.Differences {
			gotTypes = append(gotTypes, fmt.Sprintf("%s %s", d.Type, d.Category))
			if d.Location != fmt.Sprintf("Page %d", i+1) {
				t.Fail("pages", "page %d: a difference is located at %q", i+1, d.Location)
				return
			}
		}
		if !sameKeys(gotTypes, wantTypes) {
			t.Fail("pages", "page %d: differences %v, want %v", i+1, gotTypes, wantTypes)
			return
		}
		if ok != (len(wantTypes) > 0) {
			t.Fail("pages", "page %d is listed: %v, want %v", i+1, ok, wantTypes)
			return
		}
		if ok {
			changed++
		}
		total += len(wantTypes)
	}
	if len(byPage) != changed || r.Summary.PagesChanged != (changed > 0) {
		t.Fail("pages", "%d pages listed, changed %v, want %d", len(byPage), r.Summary.PagesChanged, changed)
		return
	}
	content = changed > 0
	// bookmarks
	marks := m1.marks != m2.marks || m1.marks != "" && (m1.titles != m2.titles || m1.target != m2.target || m1.labels != m2.labels)
	n := 0
	for _, d := range r.Differences {
		if d.Type == compare.DifferenceTypeBookmark {
			n++
		}
	}
	if n > 1 || (n == 1) != marks {
		t.Fail("bookmarks", "%d bookmark differences, want one: %v", n, marks)
		return
	}
	if marks {
		total++
		content = true
	}
	// forms
	wantForm, ftype := formDifference(m1, m2)
	var gotForm []string
	gotType := ""
	if d := r.FormDiff; d != nil {
		for _, f := range d.Added {
			gotForm = append(gotForm, fmt.Sprintf("+%s=%s", f.FieldName, diffValue(f.NewValue)))
			if f.OldValue != nil {
				t.Fail("forms", "added field with an old value: %v", f)
			}
		}
		for _, f := range d.Removed {
			gotForm = append(gotForm, fmt.Sprintf("-%s=%s", f.FieldName, diffValue(f.OldValue)))
			if f.NewValue != nil {
				t.Fail("forms", "removed field with a new value: %v", f)
			}
		}
		for _, f := range d.Modified {
			gotForm = append(gotForm, fmt.Sprintf("*%s=%s>%s", f.FieldName, diffValue(f.OldValue), diffValue(f.NewValue)))
		}
		if d.FormType != nil {
			gotType = fmt.Sprintf("%v>%v", d.FormType.OldValue, d.FormType.NewValue)
		}
	}
	if !sameKeys(gotForm, wantForm) || gotType != ftype {
		t.Fail("forms", "reported %v %q, want %v %q", gotForm, gotType, wantForm, ftype)
		return
	}
	forms := len(wantForm) > 0 || ftype != ""
	if forms {
		total++
		content = true
	}
	n = 0
	for _, d := range r.Differences {
		if d.Type == compare.DifferenceTypeForm {
			n++
		}
	}
	if (n == 1) != forms || n > 1 || len(r.Differences) > 2 || len(r.Differences) != n+b2i(marks) {
		t.Fail("forms", "%d form differences among %d, want one: %v", n, len(r.Differences), forms)
		return
	}
	// the whole
	if r.Identical != (total == 0) || r.Summary.TotalDifferences != total || r.Summary.ContentChanged != content {
		t.Fail("summary", "identical %v, %d differences, content changed %v; want %d, %v", r.Identical, r.Summary.TotalDifferences, r.Summary.ContentChanged, total, content)
		return
	}
	t.Outcome(fmt.Sprint(total, want, wantForm, ftype, marks))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func diffValue(v interface{}) string {
	if a, ok := v.([]interface{}); ok {
		s := ""
		for _, x := range a {
			s += fmt.Sprintf("(%v)", x)
		}
		return "[" + s + "]"
	}
	if a, ok := v.([]string); ok {
		s := ""
		for _, x := range a {
			s += fmt.Sprintf("(%v)", x)
		}
		return "[" + s + "]"
	}
	return fmt.Sprintf("(%v)", v)
}

func formDifference(m1, m2 cmodel) (out []string, ftype string) {
	vals := func(m cmodel) map[string]string {
		if m.form == 0 {
			return nil
		}
		return m.values
	}
	v1, v2 := vals(m1), vals(m2)
	name := []string{"", "acroform", "xfa"}
	differ := m1.form != m2.form
	if differ && m1.form > 0 && m2.form > 0 {
		ftype = name[m1.form] + ">" + name[m2.form]
	}
	for k, v := range v1 {
		w, ok := v2[k]
		switch {
		case !ok || differ:
			out = append(out, "-"+k+"="+v)
		case v != w:
			out = append(out, "*"+k+"="+v+">"+w)
		}
	}
	for k, v := range v2 {
		if _, ok := v1[k]; !ok || differ {
			out = append(out, "+"+k+"="+v)
		}
	}
	return
}

// judgePage checks the differences of a page and returns the summaries they must have.
func judgePage(t *core.T, i int, pd compare.PageDifference, p1, p2 cpage, o compare.CompareOptions) (out []string) {
	bad := func(clause, f string, a ...interface{}) []string {
		t.Fail(clause, "page %d: %s", i+1, fmt.Sprintf(f, a...))
		return nil
	}
	if p1.w != p2.w || p1.h != p2.h {
		out = append(out, "page_content modified")
	}
	if p1.rot != p2.rot {
		out = append(out, "page_content modified")
	}
	// text
	r1, r2 := rest(p1.texts, p2.texts, func(a, b ctext) bool { return a.same(b, o) && a.at(b, o) })
	var added, removed []types.TextElement
	var mods []compare.TextModification
	if d := pd.TextDiff; d != nil {
		added, removed, mods = d.Added, d.Removed, d.Modified
		if len(added)+len(removed)+len(mods) == 0 {
			return bad("text", "an empty text difference is listed")
		}
		out = append(out, "text modified")
	}
	olds, news := keysOf(removed, textKey), keysOf(added, textKey)
	filters := o.DiffSensitivity == compare.SensitivityRelaxed || o.MinChangeThreshold > 0
	for _, m := range mods {
		olds, news = append(olds, textKey(m.Old)), append(news, textKey(m.New))
		a := ctext{m.Old.Text, m.Old.X, m.Old.Y, m.Old.FontName, m.Old.FontSize}
		b := ctext{m.New.Text, m.New.X, m.New.Y, m.New.FontName, m.New.FontSize}
		if a.same(b, o) == a.at(b, o) {
			return bad("text", "%s became %s, which are neither at one place nor the same text", a.key(), b.key())
		}
		q := changed(fold(a.s, o), fold(b.s, o))
		if o.DiffSensitivity == compare.SensitivityRelaxed && q <= 0.1 || q < o.MinChangeThreshold {
			return bad("threshold", "%s became %s is listed, though only %v of it changed", a.key(), b.key(), q)
		}
	}
	if filters {
		// what is not listed must be a small change
		l1, _ := rest(keysOf(r1, ctext.key), olds, func(a, b string) bool { return a == b })
		l2, _ := rest(keysOf(r2, ctext.key), news, func(a, b string) bool { return a == b })
		if len(l1) != len(l2) || len(r1)-len(olds) != len(l1) || len(r2)-len(news) != len(l2) {
			return bad("threshold", "of the old texts %v %v are not listed, of the new %v %v", keysOf(r1, ctext.key), l1, keysOf(r2, ctext.key), l2)
		}
		if len(l1) > 0 {
			small := func(a, b ctext) bool {
				q := changed(fold(a.s, o), fold(b.s, o))
				return o.DiffSensitivity == compare.SensitivityRelaxed && q <= 0.1 || q < o.MinChangeThreshold
			}
			for _, a := range r1 {
				for _, b := range r2 {
					if indexOf(l1, a.key()) >= 0 && indexOf(l2, b.key()) >= 0 && len(l1) == 1 && !small(a, b) {
						return bad("threshold", "%s became %s is not listed", a.key(), b.key())
					}
				}
			}
		}
	} else if !sameKeys(olds, keysOf(r1, ctext.key)) || !sameKeys(news, keysOf(r2, ctext.key)) {
		return bad("text", "removed or changed %v, want %v; added or changed %v, want %v", olds, keysOf(r1, ctext.key), news, keysOf(r2, ctext.key))
	}
	for _, a := range removed {
		for _, b := range added {
			x := ctext{a.Text, a.X, a.Y, a.FontName, a.FontSize}
			y := ctext{b.Text, b.X, b.Y, b.FontName, b.FontSize}
			if x.at(y, o) && fold(x.s, o) != fold(y.s, o) {
				return bad("text", "%s and %s are at one place, but listed as removed and added", x.key(), y.key())
			}
			mt := o.MoveTolerance
			if mt == 0 {
				mt = 10 * o.TextTolerance
			}
			if x.same(y, o) && (o.DetectMoves && near(x.x, y.x, mt) && near(x.y, y.y, mt) ||
				len(added) == 1 && len(removed) == 1 && len(mods) == 0 && (o.TextGranularity == "" || o.TextGranularity == compare.GranularityElement)) {
				return bad("moves", "%s moved to %s, but is listed as removed and added", x.key(), y.key())
			}
		}
	}
	// graphics
	g1, g2 := rest(p1.rects, p2.rects, func(a, b crect) bool { return a.same(b, o) })
	var gd compare.GraphicDiff
	if pd.GraphicDiff != nil {
		gd = *pd.GraphicDiff
	}
	if len(g1)+len(g2) > 0 {
		out = append(out, "graphic modified")
	}
	if !sameKeys(keysOf(gd.Removed, graphicKey), keysOf(g1, crect.key)) || !sameKeys(keysOf(gd.Added, graphicKey), keysOf(g2, crect.key)) {
		return bad("graphics", "removed %v, want %v; added %v, want %v", keysOf(gd.Removed, graphicKey), keysOf(g1, crect.key), keysOf(gd.Added, graphicKey), keysOf(g2, crect.key))
	}
	// images
	d1, d2 := rest(p1.draws, p2.draws, func(a, b cdraw) bool { return a.data == b.data && (a.data != 0 || a.name == b.name) && a.at(b) })
	if len(d1)+len(d2) > 0 {
		out = append(out, "image modified")
	}
	var id compare.ImageDiff
	if pd.ImageDiff != nil {
		id = *pd.ImageDiff
	}
	olds, news = keysOf(id.Removed, drawKey), keysOf(id.Added, drawKey)
	dataOf := func(ds []cdraw, r types.ImageRef) int {
		for _, d := range ds {
			if d.name == r.ImageID {
				return d.data
			}
		}
		return -1
	}
	for _, m := range append(append([]compare.ImageModification{}, id.Moved...), id.Modified...) {
		olds, news = append(olds, drawKey(m.Old)), append(news, drawKey(m.New))
		for k, im := range []*types.Image{m.OldImage, m.NewImage} {
			n := []int{dataOf(p1.draws, m.Old), dataOf(p2.draws, m.New)}[k]
			if im == nil || n <= 0 || string(im.Data) != strings.SplitN(picture(n), "|", 2)[1] {
				return bad("images", "the image of %s is not given", drawKey([]types.ImageRef{m.Old, m.New}[k]))
			}
		}
	}
	if !sameKeys(olds, keysOf(d1, cdraw.key)) || !sameKeys(news, keysOf(d2, cdraw.key)) {
		return bad("images", "removed or changed %v, want %v; added or changed %v, want %v", olds, keysOf(d1, cdraw.key), news, keysOf(d2, cdraw.key))
	}
	place := func(r types.ImageRef) cdraw { return cdraw{name: r.ImageID, m: r.Transform} }
	for _, m := range id.Moved {
		if dataOf(p1.draws, m.Old) != dataOf(p2.draws, m.New) || place(m.Old).at(place(m.New)) {
			return bad("images", "%s moved to %s", drawKey(m.Old), drawKey(m.New))
		}
	}
	for _, m := range id.Modified {
		if dataOf(p1.draws, m.Old) == dataOf(p2.draws, m.New) || !place(m.Old).at(place(m.New)) || m.Old.ImageID != m.New.ImageID {
			return bad("images", "%s became %s", drawKey(m.Old), drawKey(m.New))
		}
	}
	for _, a := range id.Removed {
		for _, b := range id.Added {
			da, db := dataOf(p1.draws, a), dataOf(p2.draws, b)
			if da == db && da > 0 || a.ImageID == b.ImageID && place(a).at(place(b)) && da > 0 && db > 0 {
				return bad("images", "%s and %s are listed as removed and added", drawKey(a), drawKey(b))
			}
		}
	}
	// annotations
	a1, a2 := rest(p1.annots, p2.annots, func(a, b string) bool { return a == b })
	if len(a1)+len(a2) > 0 {
		out = append(out, "annotation modified")
	}
	var ad compare.AnnotationDiff
	if pd.AnnotationDiff != nil {
		ad = *pd.AnnotationDiff
	}
	sig := func(a types.Annotation) string { return a.Contents }
	wantSig := func(s string) string { // the contents of the annotations are unique
		k := strings.Index(s, "/Contents(")
		return s[k+10 : k+strings.Index(s[k:], ")")]
	}
	if !sameKeys(keysOf(ad.Removed, sig), keysOf(a1, wantSig)) || !sameKeys(keysOf(ad.Added, sig), keysOf(a2, wantSig)) {
		return bad("annotations", "removed %v, want %v; added %v, want %v", keysOf(ad.Removed, annotKey), a1, keysOf(ad.Added, annotKey), a2)
	}
	return out
}

// changed is the fraction of a text that is changed: the characters that differ in place and
// those that only the longer one has.
func changed(a, b string) float64 {
	x, y := []rune(a), []rune(b)
	if len(x) < len(y) {
		x, y = y, x
	}
	if len(x) == 0 {
		return 0
	}
	n := len(x) - len(y)
	for i := range y {
		if x[i] != y[i] {
			n++
		}
	}
	return float64(n) / float64(len(x))
}

// --- options ------------------------------------------------------------------------

func compareOptions() map[string]compare.CompareOptions {
	def := compare.DefaultCompareOptions()
	with := func(f func(*compare.CompareOptions)) compare.CompareOptions {
		o := def
		f(&o)
		return o
	}
	return map[string]compare.CompareOptions{
		"default":   def,
		"zero":      {},
		"strict":    {DiffSensitivity: compare.SensitivityStrict, DetectMoves: true},
		"nometa":    with(func(o *compare.CompareOptions) { o.IgnoreMetadata = true }),
		"producer":  with(func(o *compare.CompareOptions) { o.IgnoreDates = false }),
		"dates":     with(func(o *compare.CompareOptions) { o.IgnoreProducer = false }),
		"fold":      with(func(o *compare.CompareOptions) { o.IgnoreCase, o.IgnoreWhitespace = true, true }),
		"case":      with(func(o *compare.CompareOptions) { o.IgnoreCase = true }),
		"moves":     with(func(o *compare.CompareOptions) { o.DetectMoves, o.MoveTolerance = true, 1000 }),
		"relaxed":   with(func(o *compare.CompareOptions) { o.DiffSensitivity = compare.SensitivityRelaxed }),
		"threshold": with(func(o *compare.CompareOptions) { o.MinChangeThreshold = 0.3 }),
		"normal": with(func(o *compare.CompareOptions) {
			o.DiffSensitivity, o.TextGranularity = compare.SensitivityNormal, compare.GranularityElement
		}),
		"word":       with(func(o *compare.CompareOptions) { o.TextGranularity = compare.GranularityWord }),
		"char":       with(func(o *compare.CompareOptions) { o.TextGranularity = compare.GranularityChar }),
		"wordexact":  {TextGranularity: compare.GranularityWord, IgnoreWhitespace: true},
		"charmoves":  {TextGranularity: compare.GranularityChar, DetectMoves: true, MoveTolerance: 1000, IgnoreCase: true},
		"tolerances": with(func(o *compare.CompareOptions) { o.TextTolerance, o.GraphicTolerance = 20, 0 }),
	}
}

func optionNames() []string {
	var out []string
	for k := range compareOptions() {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func wordOrChar(o compare.CompareOptions) bool {
	return o.TextGranularity == compare.GranularityWord || o.TextGranularity == compare.GranularityChar
}

// --- the check ----------------------------------------------------------------------

const (
	noteA = "<</Type/Annot/Subtype/Text/Rect[10 10 30 30]/Contents(note)/T(me)/C[1 0 0]/Name/Note>>"
	linkA = "<</Type/Annot/Subtype/Link/Rect[40 10 60 30]/Contents(link)/A<</S/URI/URI(http://a/)>>/Border[0 0 1]>>"
)

func baseModel() cmodel {
	return cmodel{
		meta: map[string]string{"Title": "T", "Author": "A", "Subject": "S", "Keywords": "K", "Creator": "C", "Producer": "P", "CreationDate": "D:20200101000000Z", "ModDate": "D:20210101000000Z", "Project": "X"},
		pages: []cpage{
			{w: 200, h: 300, texts: []ctext{{"Alpha beta", 50, 250, "/F1", 12}, {"second line", 50, 150, "/F1", 12}},
				rects: []crect{{x: 10, y: 20, w: 30, h: 40, color: "1 0 0 rg", lw: 1}, {line: true, x: 1, y: 1, w: 50, color: "0 g", lw: 2}},
				draws: []cdraw{{"/Im1", 1, [6]float64{60, 0, 0, 40, 100, 200}}, {"/Im2", 5, [6]float64{20, 0, 0, 20, 10, 100}}}, annots: []string{noteA, linkA}},
			{w: 200, h: 300, texts: []ctext{{"Page two", 50, 250, "/F2", 10}}, rects: []crect{{x: 10, y: 20, w: 30, h: 40, color: "0 0 1 rg", lw: 1}},
				draws: []cdraw{{"/Im1", 1, [6]float64{60, 0, 0, 40, 100, 200}}}},
		},
		marks: "nested", form: 1, values: map[string]string{"name": "(Ann)", "many": "[(a)(b)]"},
	}
}

type cedit struct {
	name string
	do   func(m *cmodel)
}

func compareEdits() []cedit {
	es := []cedit{{"none", func(m *cmodel) {}}}
	add := func(n string, f func(m *cmodel)) { es = append(es, cedit{n, f}) }
	for _, k := range metaOrder {
		k := k
		add("meta-"+k, func(m *cmodel) { m.meta[k] += "1" })
	}
	add("meta-no-author", func(m *cmodel) { delete(m.meta, "Author") })
	add("custom-value", func(m *cmodel) { m.meta["Project"] = "Y" })
	add("custom-gone", func(m *cmodel) { delete(m.meta, "Project") })
	add("custom-new", func(m *cmodel) { m.meta["Client"] = "Z" })
	add("version", func(m *cmodel) { m.version = "1.5" })
	for p := 0; p < 2; p++ {
		p := p
		pg := func(n string, f func(q *cpage)) {
			add(fmt.Sprintf("p%d-%s", p+1, n), func(m *cmodel) { f(&m.pages[p]) })
		}
		pg("width", func(q *cpage) { q.w = 201 })
		pg("height", func(q *cpage) { q.h = 299.5 })
		pg("rotate", func(q *cpage) { q.rot = 90 })
		pg("text", func(q *cpage) { q.texts[0].s = "Alpha beta gamma" })
		pg("text-case", func(q *cpage) { q.texts[0].s = strings.ToUpper(q.texts[0].s) })
		pg("text-space", func(q *cpage) { q.texts[0].s = strings.ReplaceAll(q.texts[0].s, " ", "  ") })
		pg("text-letter", func(q *cpage) { q.texts[0].s = q.texts[0].s[:len(q.texts[0].s)-1] + "!" })
		pg("text-mark", func(q *cpage) { q.texts[0].s += "é" })
		pg("text-moved", func(q *cpage) { q.texts[0].y -= 37 })
		pg("text-near", func(q *cpage) { q.texts[0].y -= 3 })
		pg("text-size", func(q *cpage) { q.texts[0].size += 2 })
		pg("text-font", func(q *cpage) { q.texts[0].font = "/F2"; q.texts[len(q.texts)-1].font = "/F1" })
		pg("text-gone", func(q *cpage) { q.texts = q.texts[1:] })
		pg("text-new", func(q *cpage) { q.texts = append(q.texts, ctext{"third", 50, 50, "/F1", 12}) })
		pg("text-twice", func(q *cpage) { q.texts = append(q.texts, q.texts[0]) })
		pg("rect-moved", func(q *cpage) { q.rects[0].x += 50 })
		pg("rect-near", func(q *cpage) { q.rects[0].x += 2 })
		pg("rect-size", func(q *cpage) { q.rects[0].h += 9 })
		pg("rect-color", func(q *cpage) { q.rects[0].color = "0 1 0 rg" })
		pg("rect-gray", func(q *cpage) { q.rects[0].color = "0.5 g" })
		pg("rect-width", func(q *cpage) { q.rects[0].lw = 3 })
		pg("rect-gone", func(q *cpage) { q.rects = q.rects[1:] })
		pg("rect-new", func(q *cpage) { q.rects = append(q.rects, crect{x: 100, y: 100, w: 9, h: 9, color: "0 g", lw: 1}) })
		pg("rect-twice", func(q *cpage) { q.rects = append(q.rects, q.rects[0]) })
		pg("image-data", func(q *cpage) { q.draws[0].data = 2 })
		pg("image-shape", func(q *cpage) { q.draws[0].data = 3 })
		pg("image-bits", func(q *cpage) { q.draws[0].data = 4 })
		pg("image-moved", func(q *cpage) { q.draws[0].m[4] += 30 })
		pg("image-near", func(q *cpage) { q.draws[0].m[4] += 0.5 })
		pg("image-size", func(q *cpage) { q.draws[0].m[0] += 30 })
		pg("image-flip", func(q *cpage) { q.draws[0].m[0] *= -1 })
		pg("image-name", func(q *cpage) { q.draws[0].name = "/Other" })
		pg("image-gone", func(q *cpage) { q.draws = q.draws[1:] })
		pg("image-twice", func(q *cpage) {
			d := q.draws[0]
			d.m[5] = 20
			q.draws = append(q.draws, d)
		})
		pg("annot-new", func(q *cpage) { q.annots = append(q.annots, strings.ReplaceAll(noteA, "note", "new")) })
		pg("annot-twice", func(q *cpage) {
			q.annots = append(q.annots, strings.ReplaceAll(noteA, "note", "n1"), strings.ReplaceAll(noteA, "note", "n2"))
		})
	}
	an := func(n string, f func(q *cpage)) { add("p1-"+n, func(m *cmodel) { f(&m.pages[0]) }) }
	an("annot-text", func(q *cpage) { q.annots[0] = strings.ReplaceAll(noteA, "(note)", "(changed)") })
	for _, r := range [][2]string{{"[10 10 30 30]", "[10 10 30 35]"}, {"/T(me)", "/T(you)"}, {"[1 0 0]", "[1 1 0]"}, {"/Text/", "/Square/"}, {"/Name/Note", "/Name/Help"}, {"/T(me)", "/T(me)/Open true"}, {"/T(me)", "/T(me)/Subj(s)"}} {
		r := r
		an("annot"+r[0]+r[1], func(q *cpage) { q.annots[0] = strings.Replace(noteA, r[0], r[1], 1) })
	}
	an("annot-uri", func(q *cpage) { q.annots[1] = strings.Replace(linkA, "http://a/", "http://b/", 1) })
	an("annot-border", func(q *cpage) { q.annots[1] = strings.Replace(linkA, "[0 0 1]", "[0 0 2]", 1) })
	an("annot-gone", func(q *cpage) { q.annots = q.annots[:1] })
	add("page-added", func(m *cmodel) { m.pages = append(m.pages, cpage{w: 50, h: 50}) })
	add("pages-added", func(m *cmodel) { m.pages = append(m.pages, cpage{w: 50, h: 50}, m.pages[0]) })
	add("page-gone", func(m *cmodel) { m.pages = m.pages[:1] })
	add("page-blank", func(m *cmodel) { m.pages[1] = cpage{w: 200, h: 300} })
	add("pages-swapped", func(m *cmodel) { m.pages[0], m.pages[1] = m.pages[1], m.pages[0] })
	add("marks-none", func(m *cmodel) { m.marks = "" })
	add("marks-one", func(m *cmodel) { m.marks = "one" })
	add("marks-flat", func(m *cmodel) { m.marks = "two" })
	add("marks-title", func(m *cmodel) { m.titles = "!" })
	add("marks-page", func(m *cmodel) { m.target = 1 })
	add("form-none", func(m *cmodel) { m.form = 0 })
	add("form-xfa", func(m *cmodel) { m.form, m.values = 2, map[string]string{"name": "(Ann)"} })
	add("field-value", func(m *cmodel) { m.values["name"] = "(Bob)" })
	add("field-list", func(m *cmodel) { m.values["many"] = "[(a b)]" })
	add("field-new", func(m *cmodel) { m.values["more"] = "(1)" })
	add("field-gone", func(m *cmodel) { delete(m.values, "many") })
	add("field-none", func(m *cmodel) { m.values = map[string]string{} })
	add("field-name", func(m *cmodel) { delete(m.values, "name"); m.values["Name"] = "(Ann)" })
	return es
}

func runCompare(c *core.Ctx) {
	runCompareEdits(c)
	runCompareSame(c)
	runCompareTexts(c)
	runCompareLists(c)
	runCompareForms(c)
	runCompareOutlines(c)
	runCompareTolerance(c)
}

// edits: each change with all options, and every pair of changes (quick: of those of different
// kinds)
func runCompareEdits(c *core.Ctx) {
	es := compareEdits()
	names := optionNames()
	opts := compareOptions()
	lays := []string{"table", "packed", "updated", "v2r3-128"}
	c.ForEach("edit", len(es)*2, func(i int) string { return fmt.Sprintf("%s-%d", es[i/2].name, i%2) }, func(t *core.T, i int) {
		ms := [2]cmodel{baseModel(), baseModel()}
		es[i/2].do(&ms[i%2])
		for k, on := range names {
			compareReported(t, ms[0], ms[1], "table", lays[k%2], 0, 0, opts[on], k%4 == 0)
			if t.Failed() {
				return
			}
		}
	})
	pairs := es
	if !c.Thorough() {
		pairs = nil
		kinds := map[string]bool{}
		for _, e := range es {
			kind := strings.TrimPrefix(e.name, "p2-") // the second page has but one of each kind
			if k := strings.LastIndex(kind, "-"); k > 0 && !strings.Contains(kind, "[") {
				kind = kind[:k]
			}
			if e.name == "none" || !kinds[kind] {
				pairs = append(pairs, e)
			}
			kinds[kind] = true
			kinds[e.name] = true
		}
	}
	rounds := core.Pick(c, 1, 3)
	n := len(pairs) * len(pairs)
	c.ForEach("edits", n*rounds, func(i int) string {
		k := i % n
		return fmt.Sprintf("%s-%s-%d", pairs[k/len(pairs)].name, pairs[k%len(pairs)].name, i/n)
	}, func(t *core.T, i int) {
		k := i % n
		m1, m2 := baseModel(), baseModel()
		pairs[k/len(pairs)].do(&m1)
		pairs[k%len(pairs)].do(&m2)
		o := opts[names[(k%len(pairs)+3*(k/len(pairs))+5*(i/n))%len(names)]]
		compareReported(t, m1, m2, lays[i%len(lays)], lays[(i/len(lays))%len(lays)], 0, (i%3)*100, o, false)
	})
}

// fontsAlike drops differences of fonts, which word and character comparisons do not report
func fontsAlike(m cmodel, o compare.CompareOptions) cmodel {
	if !wordOrChar(o) {
		return m
	}
	m = m.clone()
	for i := range m.pages {
		for k := range m.pages[i].texts {
			m.pages[i].texts[k].font, m.pages[i].texts[k].size = "/F1", 12
		}
	}
	return m
}

// compareReported also checks the reports, and that comparing again gives the same.
func compareReported(t *core.T, m1, m2 cmodel, lay1, lay2 string, num1, num2 int, o compare.CompareOptions, twice bool) {
	m1, m2 = fontsAlike(m1, o), fontsAlike(m2, o)
	r := compareCase(t, m1, m2, lay1, lay2, num1, num2, o)
	if t.Failed() {
		return
	}
	if twice {
		a, pw1 := m1.build(lay1, num1)
		b, pw2 := m2.build(lay2, num2)
		again, err := compare.ComparePDFsWithOptions(a, b, pw1, pw2, o)
		t.Step(1)
		if err != nil || jsonOf(again) != jsonOf(r) {
			t.Fail("determinism", "a second comparison differs: %v", err)
			return
		}
	}
	js, err := compare.GenerateJSONReport(r)
	if err != nil {
		t.Fail("report", "JSON report: %v", err)
		return
	}
	var v, w interface{}
	if json.Unmarshal([]byte(js), &v) != nil || json.Unmarshal([]byte(jsonOf(r)), &w) != nil || !reflect.DeepEqual(v, w) {
		t.Fail("report", "the JSON report is not the result")
		return
	}
	text := compare.GenerateReport(r)
	if strings.Contains(text, "PDFs are IDENTICAL") != r.Identical || strings.Contains(text, "PDFs are DIFFERENT") == r.Identical {
		t.Fail("report", "identical %v is reported as %q", r.Identical, text)
		return
	}
	if r.Identical {
		return
	}
	var wants []string
	if d := r.MetadataDiff; d != nil {
		v := reflect.ValueOf(*d)
		for i := 0; i < v.NumField(); i++ {
			if f, ok := v.Field(i).Interface().(*compare.FieldDiff); ok && f != nil {
				wants = append(wants, fmt.Sprintf(": %v -> %v\n", f.OldValue, f.NewValue))
			}
		}
		for k, f := range d.Custom {
			wants = append(wants, fmt.Sprintf("%s: %v -> %v\n", k, f.OldValue, f.NewValue))
		}
	}
	wants = append(wants, fmt.Sprintf("Total Differences: %d\n", r.Summary.TotalDifferences))
	for _, pd := range r.PageDiffs {
		wants = append(wants, fmt.Sprintf("Page %d:\n", pd.PageNumber))
		for _, d := range pd.Differences {
			wants = append(wants, d.Description)
		}
		count := func(what string, n int) {
			if n > 0 {
				wants = append(wants, fmt.Sprintf("%s: %d elements\n", what, n))
			}
		}
		if d := pd.TextDiff; d != nil {
			count("Text Added", len(d.Added))
			count("Text Removed", len(d.Removed))
			count("Text Modified", len(d.Modified))
		}
		if d := pd.GraphicDiff; d != nil {
			count("Graphics Added", len(d.Added))
			count("Graphics Removed", len(d.Removed))
		}
		if d := pd.ImageDiff; d != nil {
			count("Images Added", len(d.Added))
			count("Images Removed", len(d.Removed))
		}
		if d := pd.AnnotationDiff; d != nil {
			count("Annotations Added", len(d.Added))
			count("Annotations Removed", len(d.Removed))
		}
	}
	for _, d := range r.Differences {
		if d.Type == compare.DifferenceTypeBookmark {
			wants = append(wants, d.Description)
		}
	}
	if d := r.FormDiff; d != nil {
		for _, f := range d.Added {
			wants = append(wants, fmt.Sprintf("- %s: %v\n", f.FieldName, f.NewValue))
		}
		for _, f := range d.Removed {
			wants = append(wants, fmt.Sprintf("- %s: %v\n", f.FieldName, f.OldValue))
		}
		for _, f := range d.Modified {
			wants = append(wants, fmt.Sprintf("- %s: %v -> %v\n", f.FieldName, f.OldValue, f.NewValue))
		}
	}
	for _, w := range wants {
		if !strings.Contains(text, w) {
			t.Fail("report", "the report does not say %q:\n%s", w, text)
			return
		}
	}
}

// same: one content in all layouts and with other object numbers is the same document
func runCompareSame(c *core.Ctx) {
	lays := append([]string{"table", "packed", "updated", "gen"}, "v1r2", "v2r3-128", "v4-aestrue---nometafalse")
	nums := []int{0, 100}
	names := optionNames()
	opts := compareOptions()
	n := len(lays) * len(nums)
	c.ForEach("same", n*n, func(i int) string {
		return fmt.Sprintf("%s.%d-%s.%d", lays[i/n/2], nums[i/n%2], lays[i%n/2], nums[i%n%2])
	}, func(t *core.T, i int) {
		for _, on := range names {
			m := fontsAlike(baseModel(), opts[on])
			compareCase(t, m, m, lays[i/n/2], lays[i%n/2], nums[i/n%2], nums[i%n%2], opts[on])
			if t.Failed() {
				return
			}
		}
		// without the password, a document that needs one is not compared
		for k, lay := range []string{lays[i/n/2], lays[i%n/2]} {
			if !strings.HasPrefix(lay, "v") {
				continue
			}
			a, _ := baseModel().build(lays[i/n/2], 0)
			b, _ := baseModel().build(lays[i%n/2], 0)
			pws := [2][]byte{[]byte("user"), []byte("user")}
			pws[k] = []byte("wrong")
			t.Step(1)
			if _, err := compare.ComparePDFs(a, b, pws[0], pws[1], false); err == nil {
				t.Fail("password", "compared with a wrong password")
				return
			}
		}
	})
}

// texts: every pair of lists of texts
func runCompareTexts(c *core.Ctx) {
	strs := []string{"ab c", "AB  C", "xyz"}
	places := [][2]float64{{50, 50}, {100, 200}}
	nl := len(strs) * len(places)
	var lists [][]int
	for d := 0; d <= core.Pick(c, 2, 3); d++ {
		for i := 0; i < pow(nl, d); i++ {
			lists = append(lists, append([]int{}, seqOf(i, nl, d)...))
		}
	}
	var os []compare.CompareOptions
	for _, g := range []compare.TextGranularity{compare.GranularityElement, compare.GranularityWord, compare.GranularityChar} {
		for k := 0; k < 8; k++ {
			o := compare.CompareOptions{IgnoreMetadata: true, TextTolerance: 5, TextGranularity: g, DetectMoves: k&1 > 0, IgnoreCase: k&2 > 0, IgnoreWhitespace: k&4 > 0}
			if k&1 > 0 && g != compare.GranularityWord {
				o.MoveTolerance = 500
			}
			os = append(os, o)
		}
	}
	mk := func(l []int, font int) cmodel {
		m := cmodel{pages: []cpage{{w: 9, h: 9}}}
		for k, x := range l {
			f := "/F1"
			if font > 0 && k == font-1 {
				f = "/F2"
			}
			m.pages[0].texts = append(m.pages[0].texts, ctext{strs[x%len(strs)], places[x/len(strs)][0], places[x/len(strs)][1], f, 12})
		}
		return m
	}
	const chunk = 50
	n := len(lists) * len(lists)
	c.ForEach("texts", (n+chunk-1)/chunk, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		for k := i * chunk; k < (i+1)*chunk && k < n; k++ {
			l1, l2 := lists[k/len(lists)], lists[k%len(lists)]
			use := os
			if c.Thorough() {
				use = []compare.CompareOptions{os[k%len(os)], os[(k/7)%len(os)]}
			} else {
				use = []compare.CompareOptions{os[k%len(os)], os[(k/5+11)%len(os)], os[(k/3+5)%len(os)]}
			}
			for _, o := range use {
				font := 0
				if !wordOrChar(o) && k%4 == 0 {
					font = k % 3
				}
				compareCase(t, mk(l1, font), mk(l2, 0), "table", "table", 0, 0, o)
				if t.Failed() {
					return
				}
			}
		}
	})
	// how much of a text changed
	long := core.Pick(c, 11, 24)
	c.ForEach("changed", long, func(i int) string { return fmt.Sprint(i + 1) }, func(t *core.T, i int) {
		for k := 0; k <= i+1; k++ { // replaced characters
			for cut := 0; cut <= 2 && k+cut <= i+1; cut++ {
				for _, src := range []string{"abcdefghijklmnopqrstuvwxyz", "éèàáâãäåæçéèàáâãäåæçéèàáâã"} {
					base := []rune(src)
					old, new := string(base[:i+1]), strings.Repeat("#", k)+string(base[k:i+1-cut])
					q := changed(old, new)
					a, _ := cmodel{pages: []cpage{{w: 9, h: 9, texts: []ctext{{old, 5, 5, "/F1", 12}}}}}.build("table", 0)
					b, _ := cmodel{pages: []cpage{{w: 9, h: 9, texts: []ctext{{new, 5, 5, "/F1", 12}}}}}.build("table", 0)
					for _, o := range []compare.CompareOptions{
						{DiffSensitivity: compare.SensitivityRelaxed}, {DiffSensitivity: compare.SensitivityStrict}, {MinChangeThreshold: 0.25}, {MinChangeThreshold: 1},
						{DiffSensitivity: compare.SensitivityRelaxed, MinChangeThreshold: 0.5},
					} {
						t.Attach("old.pdf", a)
						t.Attach("new.pdf", b)
						r, err := compare.ComparePDFsWithOptions(a, b, nil, nil, o)
						t.Step(1)
						if err != nil {
							t.Fail("compare", "%v", err)
							return
						}
						t.State(old + ">" + new + fmt.Sprint(o))
						want := old != new && !(o.DiffSensitivity == compare.SensitivityRelaxed && q <= 0.1) && q >= o.MinChangeThreshold
						t.Outcome(fmt.Sprint(q, want))
						if r.Identical == want {
							t.Fail("threshold", "%q became %q (%v of it): identical %v", old, new, q, r.Identical)
							return
						}
					}
				}
			}
		}
	})
}

// lists: every pair of lists of graphics, of image draws and of annotations
func runCompareLists(c *core.Ctx) {
	rects := []crect{
		{x: 10, y: 10, w: 20, h: 20, color: "1 0 0 rg", lw: 1}, {x: 10, y: 10, w: 20, h: 20, color: "1 0 0 rg", lw: 2},
		{x: 10, y: 10, w: 20, h: 20, color: "0.5 g", lw: 1}, {x: 60, y: 10, w: 20, h: 20, color: "1 0 0 rg", lw: 1},
		{line: true, w: 5, color: "0 g", lw: 1}, {line: true, w: 5, color: "0 g", lw: 3},
	}
	at := func(x, y, w, h float64) [6]float64 { return [6]float64{w, 0, 0, h, x, y} }
	draws := []cdraw{
		{"/A", 1, at(10, 10, 50, 50)}, {"/B", 2, at(10, 10, 50, 50)}, {"/C", 1, at(10, 10, 50, 50)}, {"/A", 1, at(100, 10, 50, 50)},
		{"/A", 1, at(10, 10, 70, 50)}, {"/B", 2, at(100, 10, 50, 50)}, {"/X", 0, at(10, 10, 50, 50)},
	}
	annots := []string{}
	for _, s := range []string{"a", "b", "c"} {
		annots = append(annots, strings.ReplaceAll(noteA, "(note)", "("+s+")"))
	}
	annots = append(annots, strings.ReplaceAll(linkA, "(link)", "(d)"), strings.ReplaceAll(strings.ReplaceAll(noteA, "(note)", "(e)"), "[10 10", "[5 5"))
	depth := core.Pick(c, 2, 3)
	opts := compareOptions()
	names := optionNames()
	// a picture with a single byte changed
	var places []int
	for k := 0; k < 64*48; k++ {
		if c.Thorough() || k&(k-1) == 0 || (k+1)&k == 0 || k%256 == 255 || k == 64*48-3 {
			places = append(places, k)
		}
	}
	var wide []int
	for k := 0; k < 512*256; k++ {
		if k&(k-1) == 0 || (k+1)&k == 0 || k == 512*256/3 || c.Thorough() && k%500 == 0 {
			wide = append(wide, k)
		}
	}
	place := func(i int) (k, kind int) {
		if i < 2*len(places) {
			return places[i/2], i % 2
		}
		return wide[i-2*len(places)], 2
	}
	c.ForEach("bytes", len(places)*2+len(wide), func(i int) string {
		k, kind := place(i)
		return fmt.Sprintf("byte %d kind %d", k, kind)
	}, func(t *core.T, i int) {
		k, kind := place(i)
		first := 100
		if kind == 2 {
			first = 1000000
		}
		if kind == 1 {
			if first = 10000; k < 43 || k >= 64*48-2 { // the header and the end of a file stay
				return
			}
		}
		for way := 0; way < 4; way++ {
			var ms [2]cmodel
			for side := range ms {
				pic := first
				if side == way%2 {
					pic += k + 1
				}
				ms[side] = cmodel{pages: []cpage{{w: 9, h: 9}, {w: 9, h: 9, draws: []cdraw{{"/A", pic, at(10, 10, 50, 50)}}}}}
				if way/2 == 1 && side == 1 {
					ms[side].pages[1].draws[0].m[4] = 300
				}
			}
			compareCase(t, ms[0], ms[1], "table", []string{"table", "packed", "v2r3-128"}[i%3], 0, 0, opts[names[(i+way)%len(names)]])
			if t.Failed() {
				return
			}
		}
	})
	kinds := []struct {
		name string
		n    int
		add  func(p *cpage, k int)
	}{
		{"graphics", len(rects), func(p *cpage, k int) { p.rects = append(p.rects, rects[k]) }},
		{"images", len(draws), func(p *cpage, k int) { p.draws = append(p.draws, draws[k]) }},
		{"annotations", len(annots), func(p *cpage, k int) { p.annots = append(p.annots, annots[k]) }},
	}
	for _, kind := range kinds {
		kind := kind
		var lists [][]int
		for d := 0; d <= depth; d++ {
			for i := 0; i < pow(kind.n, d); i++ {
				lists = append(lists, append([]int{}, seqOf(i, kind.n, d)...))
			}
		}
		const chunk = 50
		n := len(lists) * len(lists)
		c.ForEach(kind.name, (n+chunk-1)/chunk, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
			for k := i * chunk; k < (i+1)*chunk && k < n; k++ {
				mk := func(l []int, swap int) cmodel {
					m := cmodel{pages: []cpage{{w: 9, h: 9}}}
					for _, x := range l {
						kind.add(&m.pages[0], x)
					}
					for j := range m.pages[0].draws { // the name /A is another image on the other side
						if d := &m.pages[0].draws[j]; swap > 0 && d.data > 0 {
							d.data = 3 - d.data
						}
					}
					return m
				}
				o := opts[names[k%len(names)]]
				compareCase(t, mk(lists[k/len(lists)], 0), mk(lists[k%len(lists)], k%5/4), "table", "table", 0, 0, o)
				if t.Failed() {
					return
				}
			}
		})
	}
}

// outlines: every pair of forests of bookmarks, and every change of one bookmark
func runCompareOutlines(c *core.Ctx) {
	var shapes []string
	for n := 0; n <= core.Pick(c, 4, 5); n++ {
		shapes = append(shapes, forests(n)...)
	}
	opts := compareOptions()
	names := optionNames()
	one := func(t *core.T, s1, l1, s2, l2 string, i int) {
		var ms [2]cmodel
		for side := range ms {
			ms[side] = cmodel{pages: []cpage{{w: 9, h: 9}, {w: 9, h: 9}}, marks: []string{s1, s2}[side], labels: []string{l1, l2}[side]}
		}
		compareCase(t, ms[0], ms[1], "table", []string{"table", "packed", "v2r3-128"}[i%3], 0, i%2*40, opts[names[i%len(names)]])
	}
	c.ForEach("outlines", len(shapes)*len(shapes), func(i int) string {
		return fmt.Sprintf("%s %s", shapes[i/len(shapes)], shapes[i%len(shapes)])
	}, func(t *core.T, i int) {
		a, b := shapes[i/len(shapes)], shapes[i%len(shapes)]
		zeros := func(s string) string { return strings.Repeat("0", len(s)/2) }
		one(t, a, zeros(a), b, zeros(b), i)
		if a != b {
			return
		}
		for k := 0; k < len(a)/2 && !t.Failed(); k++ {
			for v := 1; v < 4 && !t.Failed(); v++ {
				l := []byte(zeros(a))
				l[k] += byte(v)
				one(t, a, string(l), a, zeros(a), k+v)
				one(t, a, string(l), a, string(l), k+v)
			}
		}
	})
}

// forms: every pair of field values
func runCompareForms(c *core.Ctx) {
	vals := []string{"", "(a)", "(b)", "[(a)(b)]", "[(a b)]", "[(a)]", "()"}
	var ms []cmodel
	for form := 0; form <= 2; form++ {
		for i := 0; i < len(vals); i++ {
			for j := 0; j < len(vals); j++ {
				if form == 0 && i+j > 0 || form == 2 && (strings.HasPrefix(vals[i], "[") || strings.HasPrefix(vals[j], "[") || vals[i] == "()" || vals[j] == "()") {
					continue
				}
				m := cmodel{pages: []cpage{{w: 9, h: 9}}, form: form, values: map[string]string{}}
				if vals[i] != "" {
					m.values["a"] = vals[i]
				}
				if vals[j] != "" {
					m.values["b c"] = vals[j]
				}
				ms = append(ms, m)
			}
		}
	}
	lays := []string{"table", "packed", "v2r3-128"}
	c.ForEach("forms", len(ms)*len(ms), func(i int) string { return fmt.Sprintf("%d-%d", i/len(ms), i%len(ms)) }, func(t *core.T, i int) {
		compareReported(t, ms[i/len(ms)], ms[i%len(ms)], lays[i%3], lays[i%3], 0, 0, compare.DefaultCompareOptions(), i%4 == 0)
	})
}

// tolerance: places around the limits
func runCompareTolerance(c *core.Ctx) {
	offs := []float64{0, 0.125, 0.5, 0.875, 1, 1.125, 4.875, 5, 5.125, 9.875, 10, 10.125, 50, 50.25, 51}
	tols := []float64{0, 0.125, 1, 5, 10}
	n := len(offs)
	c.ForEach("tolerance", n*n*len(tols), func(i int) string {
		return fmt.Sprintf("%v,%v-%v", offs[i%n], offs[i/n%n], tols[i/n/n])
	}, func(t *core.T, i int) {
		dx, dy, tol := offs[i%n], offs[i/n%n], tols[i/n/n]
		for sign := 0; sign < 4; sign++ {
			x, y := dx, dy
			if sign&1 > 0 {
				x = -x
			}
			if sign&2 > 0 {
				y = -y
			}
			mk := func(x, y float64) cmodel {
				return cmodel{pages: []cpage{{w: 9, h: 9, texts: []ctext{{"abc", 100 + x, 100 + y, "/F1", 12}},
					rects: []crect{{x: 200 + x, y: 200 + y, w: 20, h: 30, color: "0 g", lw: 1}},
					draws: []cdraw{{"/A", 1, [6]float64{50, 0, 0, 50, 300 + x, 300 + y}}}}}}
			}
			for _, o := range []compare.CompareOptions{
				{TextTolerance: tol, GraphicTolerance: tols[(i+1)%len(tols)]}, {TextTolerance: tols[(i+2)%len(tols)], GraphicTolerance: tol, DetectMoves: true},
				{TextTolerance: tol, DetectMoves: true, MoveTolerance: 50, TextGranularity: compare.GranularityWord},
			} {
				compareCase(t, mk(0, 0), mk(x, y), "table", "table", 0, 0, o)
				if t.Failed() {
					return
				}
			}
			// of a rectangle, only one corner moved
			m := mk(0, 0)
			m.pages[0].rects[0].w += dx
			m.pages[0].rects[0].h += dy
			compareCase(t, mk(0, 0), m, "table", "table", 0, 0, compare.CompareOptions{TextTolerance: 1, GraphicTolerance: tol})
			if t.Failed() {
				return
			}
		}
	})
}
