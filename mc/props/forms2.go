package props

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verifmc/core"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
)

// --- building ----------------------------------------------------------------

// bfield is a field to build: its kind, name and the calls that set it up.
type bfield struct {
	kind  string
	name  string
	rect  []float64
	opts  []string
	calls []fcall
}

type fcall struct {
	name string
	do   func(*acroform.FieldDef)
	set  func(*bmodel)
}

type bmodel struct {
	req, ro bool
	max     int
	v, dv   interface{}
}

var fieldKinds = []string{"text", "check", "radio", "choice", "button"}

var kindFT = map[string]string{"text": "Tx", "check": "Btn", "radio": "Btn", "choice": "Ch", "button": "Btn"}

func fieldCalls() []fcall {
	var out []fcall
	for _, b := range []bool{true, false} {
		b := b
		out = append(out,
			fcall{fmt.Sprintf("req-%v", b), func(d *acroform.FieldDef) { d.SetRequired(b) }, func(m *bmodel) { m.req = b }},
			fcall{fmt.Sprintf("ro-%v", b), func(d *acroform.FieldDef) { d.SetReadOnly(b) }, func(m *bmodel) { m.ro = b }})
	}
	for _, n := range []int{0, 7} {
		n := n
		out = append(out, fcall{fmt.Sprintf("max-%d", n), func(d *acroform.FieldDef) { d.SetMaxLength(n) }, func(m *bmodel) { m.max = n }})
	}
	return append(out, valueCall("x (1)", false), valueCall(true, false), valueCall("y", true))
}

func valueCall(v interface{}, def bool) fcall {
	if def {
		return fcall{fmt.Sprintf("default-%v", v), func(d *acroform.FieldDef) { d.SetDefault(v) }, func(m *bmodel) { m.dv = v }}
	}
	return fcall{fmt.Sprintf("value-%v", v), func(d *acroform.FieldDef) { d.SetValue(v) }, func(m *bmodel) { m.v = v }}
}

// formText is the text a value is written as.
func formText(v interface{}, ft string) string {
	switch x := v.(type) {
	case string:
		return x
	case bool:
		if ft == "Btn" {
			return map[bool]string{true: "Yes", false: "Off"}[x]
		}
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	return fmt.Sprint(v)
}

func formValue(v interface{}, ft string) string {
	var items []string
	switch x := v.(type) {
	case nil:
		return "nil"
	case []string:
		for _, e := range x {
			items = append(items, fmt.Sprintf("%q", e))
		}
		return "[" + strings.Join(items, " ") + "]"
	case []interface{}:
		for _, e := range x {
			items = append(items, fmt.Sprintf("%q", formText(e, ft)))
		}
		return "[" + strings.Join(items, " ") + "]"
	}
	return fmt.Sprintf("%q", formText(v, ft))
}

// buildForm builds a document with the fields through the public API.
func buildForm(t *core.T, mode, style string, fs []bfield) ([]byte, bool) {
	b := infoBuilder(mode, 1)
	if strings.Contains(style, "meta") {
		b.Writer().SetMetadata(&types.DocumentMetadata{Title: "t"})
	}
	page := b.AddPage(write.PageSizeA4)
	page.Content().Rectangle(1, 1, 2, 2)
	fin := func() { b.FinalizePage(page) }
	if strings.Contains(style, "late") {
		fin()
	}
	add := func(x interface {
		AddTextField(string, []float64, int) *acroform.FieldDef
		AddCheckbox(string, []float64, int) *acroform.FieldDef
		AddRadioButton(string, []float64, int) *acroform.FieldDef
		AddChoiceField(string, []float64, int, []string) *acroform.FieldDef
		AddButton(string, []float64, int) *acroform.FieldDef
	}) {
		for _, f := range fs {
			var d *acroform.FieldDef
			switch f.kind {
			case "text":
				d = x.AddTextField(f.name, f.rect, 0)
			case "check":
				d = x.AddCheckbox(f.name, f.rect, 0)
			case "radio":
				d = x.AddRadioButton(f.name, f.rect, 0)
			case "choice":
				d = x.AddChoiceField(f.name, f.rect, 0, f.opts)
			case "button":
				d = x.AddButton(f.name, f.rect, 0)
			}
			for _, c := range f.calls {
				c.do(d)
			}
		}
	}
	var err error
	if strings.Contains(style, "manual") {
		fb := acroform.NewFieldBuilder(b.Writer())
		add(fb)
		var n int
		if n, err = fb.Build(); err == nil {
			cat := b.Writer().AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Note(/AcroForm >>)/Pages %d 0 R/MarkInfo<</Marked true>>>>", b.PagesObjNum())))
			b.Writer().SetRoot(cat)
			err = acroform.AddAcroFormToCatalog(b.Writer(), cat, n)
		}
	} else {
		fb := acroform.NewFormBuilder(b)
		add(fb)
		_, err = fb.BuildForm()
	}
	t.Step(2)
	if err != nil {
		t.Fail("build", "%v", err)
		return nil, false
	}
	if !strings.Contains(style, "late") {
		fin()
	}
	if strings.Contains(style, "marks") {
		if err := b.SetBookmarks([]types.Bookmark{{Title: "one", PageNumber: 2}}); err != nil {
			t.Fail("build", "%v", err)
			return nil, false
		}
	}
	out, err := b.Bytes()
	if err != nil {
		t.Fail("build", "%v", err)
		return nil, false
	}
	return out, true
}

// checkBuilt reads a built form strictly and through the library.
func checkBuilt(t *core.T, mode, style string, fs []bfield) {
	out, ok := buildForm(t, mode, style, fs)
	if !ok {
		return
	}
	t.Attach("built.pdf", out)
	f, err := ref.Open(out)
	if err == nil {
		err = f.CheckAll()
	}
	if err == nil {
		err = f.CheckRefs()
	}
	if err != nil {
		t.Fail("strict", "%v", err)
		return
	}
	ps, err := f.Pages()
	if err != nil || len(ps) != 2 {
		t.Fail("pages", "%d pages, %v", len(ps), err)
		return
	}
	cat := f.DictOf(f.Trailer["Root"])
	if strings.Contains(style, "marks") && f.DictOf(cat["Outlines"]) == nil {
		t.Fail("outline", "the catalog has no outline")
	}
	if strings.Contains(style, "manual") && ref.Canon(cat["MarkInfo"]) != mustCanon("<</Marked true>>") {
		t.Fail("catalog", "the catalog lost an entry: %s", ref.Canon(cat))
	}
	if strings.Contains(style, "meta") {
		if s, err := textOf(f.DictOf(f.Trailer["Info"])["Title"]); err != nil || s != "t" {
			t.Fail("info", "title %q %v", s, err)
		}
	}
	arr, _ := f.Resolve(f.DictOf(cat["AcroForm"])["Fields"]).(ref.Arr)
	if len(arr) != len(fs) {
		t.Fail("strict", "%d fields in the form, want %d", len(arr), len(fs))
		return
	}
	var roots []*mfield
	for i, spec := range fs {
		m := bmodel{}
		for _, c := range spec.calls {
			c.set(&m)
		}
		ft := kindFT[spec.kind]
		r, _ := arr[i].(ref.Ref)
		mf := newField(r.N)
		roots = append(roots, mf)
		mf.set("FT", "", fmt.Sprintf("%q", ft))
		if spec.name != "" {
			mf.set("T", "", fmt.Sprintf("%q", spec.name))
		}
		ff := map[string]int{"radio": 1 << 15, "button": 1 << 16}[spec.kind]
		if m.req {
			ff |= 2
		}
		if m.ro {
			ff |= 1
		}
		mf.set("Ff", "", fmt.Sprint(ff))
		mf.set("MaxLen", "", fmt.Sprint(m.max))
		mf.set("V", "", formValue(m.v, ft))
		mf.set("DV", "", formValue(m.dv, ft))
		if len(spec.opts) > 0 && spec.kind == "choice" {
			mf.set("Opt", "", formValue(spec.opts, ft))
		}
		if len(spec.rect) >= 4 {
			a := append([]float64(nil), spec.rect[:4]...)
			if a[0] > a[2] {
				a[0], a[2] = a[2], a[0]
			}
			if a[1] > a[3] {
				a[1], a[3] = a[3], a[1]
			}
			mf.set("Rect", "", showFloats(a))
		}
		// strictly
		d := f.DictOf(r)
		got := strictField(d)
		for _, k := range fieldKeys {
			w := mf.get(k)
			if k == "Rect" && len(spec.rect) >= 4 {
				w = showFloats(spec.rect[:4])
			}
			if g := got.get(k); g != w {
				t.Fail("strict:"+k, "field %d /%s reads %s want %s", i, k, g, w)
			}
		}
		if d["Subtype"] != ref.Name("Widget") {
			t.Fail("strict:widget", "field %d is not a widget: %s", i, ref.Canon(d))
		}
	}
	if t.Failed() {
		return
	}
	checkForm(t, "built", out, roots, formOpt{extra: "/NeedAppearances true"}, nil)
}

// strictField reads a field dictionary with the strict reader.
func strictField(d ref.Dict) *mfield {
	m := newField(0)
	val := func(o ref.Obj) string {
		switch v := o.(type) {
		case ref.Name:
			return fmt.Sprintf("%q", string(v))
		case ref.Arr:
			s := []string{}
			for _, e := range v {
				x, err := textOf(e)
				if err != nil {
					return "?" + err.Error()
				}
				s = append(s, fmt.Sprintf("%q", x))
			}
			return "[" + strings.Join(s, " ") + "]"
		}
		s, err := textOf(o)
		if err != nil {
			return "?" + err.Error()
		}
		return fmt.Sprintf("%q", s)
	}
	for _, k := range fieldKeys {
		o, ok := d[ref.Name(k)]
		if !ok {
			continue
		}
		switch k {
		case "FT":
			n, _ := o.(ref.Name)
			m.set(k, "", fmt.Sprintf("%q", string(n)))
		case "Ff", "MaxLen", "Q", "TI":
			n, ok := ref.Int(o)
			m.set(k, "", fmt.Sprint(n))
			if !ok {
				m.set(k, "", "?")
			}
		case "Rect":
			a, _ := o.(ref.Arr)
			var fs []float64
			for _, x := range a {
				v, ok := ref.Float(x)
				if !ok {
					v = -12345
				}
				fs = append(fs, v)
			}
			m.set(k, "", showFloats(fs))
		default:
			m.set(k, "", val(o))
		}
	}
	if ft := m.get("FT"); ft == `"Btn"` {
		for _, k := range []ref.Name{"V", "DV"} {
			if o, ok := d[k]; ok {
				if _, ok := o.(ref.Name); !ok {
					if _, ok := o.(ref.Arr); !ok {
						m.set(string(k), "", "?a button's value is not a name")
					}
				}
			}
		}
	} else {
		for _, k := range []ref.Name{"V", "DV"} {
			if _, ok := d[k].(ref.Name); ok {
				m.set(string(k), "", "?a name")
			}
		}
	}
	return m
}

func runFormBuild(c *core.Ctx) {
	std := []float64{10, 20, 110, 40}
	calls := fieldCalls()
	depth := core.Pick(c, 3, 4)
	var seqs [][]int
	for d := 0; d <= depth; d++ {
		for i := 0; i < pow(len(calls), d); i++ {
			seqs = append(seqs, seqOf(i, len(calls), d))
		}
	}
	c.ForEach("calls", len(seqs), func(i int) string {
		s := []string{}
		for _, k := range seqs[i] {
			s = append(s, calls[k].name)
		}
		return fmt.Sprintf("%d-%s", i, strings.Join(s, ","))
	}, func(t *core.T, i int) {
		var fs []bfield
		for k, kind := range fieldKinds {
			f := bfield{kind: kind, name: fmt.Sprintf("f%d", k), rect: std, opts: []string{"x (1)", "y", "true"}}
			for _, n := range seqs[i] {
				f.calls = append(f.calls, calls[n])
			}
			fs = append(fs, f)
		}
		checkBuilt(t, infoModes[i%3], "form", fs)
	})
	texts := formTexts(c)
	c.ForEach("buildtexts", len(texts), func(i int) string { return fmt.Sprintf("%d-%.30q", i, texts[i]) }, func(t *core.T, i int) {
		s := texts[i]
		var fs []bfield
		for _, kind := range fieldKinds {
			v := interface{}(s)
			if strings.Contains(s, "\x00") || s == "" || kindFT[kind] == "Btn" && len(s) > 100 {
				v = "v"
			}
			fs = append(fs, bfield{kind: kind, name: kind + s, rect: std, opts: []string{s, "x" + s, s + s}, calls: []fcall{valueCall(v, false), valueCall(s, kindFT[kind] != "Btn")}})
			if kindFT[kind] != "Btn" {
				fs[len(fs)-1].calls = append(fs[len(fs)-1].calls, valueCall([]string{s, "", s + "y"}, false))
			}
		}
		fs = append(fs, bfield{kind: "text", name: s, calls: []fcall{valueCall(s, false), valueCall(s, true)}})
		checkBuilt(t, infoModes[i%3], "form", fs)
	})
	values := []interface{}{nil, "", "x", "Off", true, false, 0, -3, 12, 1.5, -0.25, 1e15, 100000.0, 0.1, int64(7), []string{}, []string{"a"}, []string{"a", "(b)", "é"}, []interface{}{"a", 3, 1.5}}
	rects := [][]float64{nil, {1, 2, 3}, std, {0, 0, 0, 0}, {-10.5, 2.25, 1000.125, 3.0625}, {5, 6, 1, 2}, {0.001, 0.0001, 1234567, 1e8}, {1, 2, 3, 4, 5}}
	c.ForEach("values", len(values)*len(rects), func(i int) string { return fmt.Sprintf("%v-%v", values[i%len(values)], rects[i/len(values)]) }, func(t *core.T, i int) {
		v, r := values[i%len(values)], rects[i/len(values)]
		var fs []bfield
		for _, kind := range fieldKinds {
			w := v
			if kindFT[kind] == "Btn" && v == "" {
				w = "x"
			}
			if reflectList(w) && kindFT[kind] == "Btn" {
				w = nil
			}
			fs = append(fs, bfield{kind: kind, name: kind, rect: r, calls: []fcall{valueCall(w, false), valueCall(w, true)}})
		}
		checkBuilt(t, infoModes[i%3], "form", fs)
	})
	styles := []string{"form", "form-late", "manual", "manual-late", "form-meta", "form-late-marks", "manual-late-marks-meta", "form-marks-late-meta"}
	var combos [][]int
	for d := 1; d <= core.Pick(c, 3, 4); d++ {
		for i := 0; i < pow(len(fieldKinds), d); i++ {
			combos = append(combos, seqOf(i, len(fieldKinds), d))
		}
	}
	c.ForEach("forms", len(combos)*len(styles)*3, func(i int) string {
		return fmt.Sprintf("%v-%s-%s", combos[i/len(styles)/3], styles[i%len(styles)], infoModes[i/len(styles)%3])
	}, func(t *core.T, i int) {
		var fs []bfield
		for k, n := range combos[i/len(styles)/3] {
			f := bfield{kind: fieldKinds[n], name: fmt.Sprintf("f%d", k), rect: []float64{float64(k), 2, 30, 40.5}}
			if k > 0 {
				f.opts = []string{"a", "b)"}[:min(k, 2)]
				f.calls = append(f.calls, calls[(i+k)%len(calls)])
			}
			fs = append(fs, f)
		}
		checkBuilt(t, infoModes[i/len(styles)%3], styles[i%len(styles)], fs)
	})
}

func reflectList(v interface{}) bool {
	switch v.(type) {
	case []string, []interface{}:
		return true
	}
	return false
}

// --- validation --------------------------------------------------------------

func runFormRules(c *core.Ctx) {
	alpha := []string{"a", "é", "中", "😀"}
	var strs []string
	for n := 0; n <= core.Pick(c, 4, 6); n++ {
		for i := 0; i < pow(4, n); i++ {
			s := ""
			for _, k := range seqOf(i, 4, n) {
				s += alpha[k]
			}
			strs = append(strs, s)
		}
	}
	verdict := func(t *core.T, clause string, err error, wrong bool, name, what string) {
		t.Step(1)
		t.Outcome(fmt.Sprint(clause, wrong))
		if (err != nil) != wrong {
			t.Fail(clause, "%s: error %v, want error %v", what, err, wrong)
			return
		}
		if err != nil {
			var ve *acroform.ValidationError
			if !errors.As(err, &ve) || ve.FieldName != name {
				t.Fail(clause, "%s: error %v is not about field %q", what, err, name)
			}
		}
	}
	c.ForEach("length", len(strs), func(i int) string { return fmt.Sprintf("%q", strs[i]) }, func(t *core.T, i int) {
		n := len([]rune(strs[i]))
		for max := 0; max <= 5; max++ {
			for _, ff := range []int{0, 1, 2, 3, 1 << 12, 1 << 13, 1 << 15, 1 << 17} {
				f := &acroform.Field{FT: "Tx", T: "t", MaxLen: max, Ff: ff}
				t.State(fmt.Sprint("len", i, max, ff))
				verdict(t, "length", acroform.ValidateField(f, strs[i]), max > 0 && n > max || ff&2 != 0 && n == 0, "t", fmt.Sprintf("%q against maximum %d flags %d", strs[i], max, ff))
			}
			for min := 0; min <= 5; min++ {
				lo, hi := min, max
				q := &types.Question{Name: "t", Type: types.ResponseTypeText, Validation: &types.ValidationRules{}}
				wrong := false
				if min < 5 {
					q.Validation.MinLength = &lo
					wrong = wrong || n < lo
				}
				if max < 5 {
					q.Validation.MaxLength = &hi
					wrong = wrong || n > hi
				}
				verdict(t, "schema-length", acroform.ValidateFieldValue(q, strs[i]), wrong, "t", fmt.Sprintf("%q against %d..%d", strs[i], min, max))
			}
		}
	})
	optSets := [][]interface{}{nil, {"a"}, {"a", "b"}, {"b", acroform.ChoiceOption{Value: "v", Display: "d"}}, {acroform.ChoiceOption{Value: "1", Display: "one"}, "true", ""}}
	vals := []interface{}{nil, "", "a", "b", "c", "v", "d", "A", "a ", 1, true, "one", []string{}, []string{"a"}, []string{"a", "b"}, []string{"a", "z"}, []string{""}, []string{"a", ""}, []interface{}{"", "b"}, []interface{}{"b", "v"}, []interface{}{"d"}, []interface{}{1, true}}
	flags := []int{0, 1, 2, 1 << 17, 1 << 18, 1<<17 | 1<<18, 1 << 21, 2 | 1<<17 | 1<<18, 1 << 15, 1 << 16, 2 | 1<<15, 1<<15 | 1<<14}
	c.ForEach("options", len(optSets)*len(vals)*len(flags), func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		opts, v, ff := optSets[i%len(optSets)], vals[i/len(optSets)%len(vals)], flags[i/len(optSets)/len(vals)]
		t.State(fmt.Sprint("opt", i))
		in := func(v interface{}) bool {
			for _, o := range opts {
				s := fmt.Sprint(o)
				if p, ok := o.(acroform.ChoiceOption); ok {
					s = p.Value
				}
				if s == fmt.Sprint(v) {
					return true
				}
			}
			return false
		}
		empty := v == nil || v == ""
		what := fmt.Sprintf("%v against %v flags %#x", v, opts, ff)
		// choice
		if !empty || ff&2 != 0 {
			wrong := ff&2 != 0 && empty
			if len(opts) > 0 && !(ff>>17&1 == 1 && ff>>18&1 == 1) && !empty {
				switch x := v.(type) {
				case []string:
					for _, e := range x {
						wrong = wrong || !in(e)
					}
				case []interface{}:
					for _, e := range x {
						wrong = wrong || !in(e)
					}
				default:
					wrong = wrong || !in(v)
				}
			}
			verdict(t, "choice", acroform.ValidateField(&acroform.Field{FT: "Ch", T: "c", Ff: ff, Opt: opts}, v), wrong, "c", what)
		}
		// buttons
		if reflectList(v) || empty && ff&2 == 0 {
			return
		}
		wrong := ff&2 != 0 && empty || ff>>15&1 == 1 && len(opts) > 0 && !in(v)
		verdict(t, "button", acroform.ValidateField(&acroform.Field{FT: "Btn", T: "b", Ff: ff, Opt: opts}, v), wrong, "b", what)
		verdict(t, "signature", acroform.ValidateField(&acroform.Field{FT: "Sig", T: "s", Ff: ff}, v), ff&2 != 0 && empty, "s", what)
	})
	pats := []string{"", "^a+$", "b", "^$", "[", "é"}
	texts := []interface{}{"", "a", "aa", "ab", "b", "é", "bé", 12, 1.5, "c\nb"}
	c.ForEach("pattern", len(pats)*len(texts), func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		p, v := pats[i%len(pats)], texts[i/len(pats)]
		t.State(fmt.Sprint("pat", i))
		q := &types.Question{Name: "t", Type: types.ResponseTypeText, Validation: &types.ValidationRules{Pattern: p, ErrorMessage: []string{"", "custom"}[i%2]}}
		s := fmt.Sprint(v)
		ok := map[string]bool{"": true, "^a+$": s == "a" || s == "aa", "b": strings.Contains(s, "b"), "^$": s == "", "é": strings.Contains(s, "é")}[p]
		err := acroform.ValidateFieldValue(q, v)
		if p == "[" {
			if err == nil {
				t.Fail("pattern", "an invalid pattern accepts %q", s)
			}
			return
		}
		verdict(t, "pattern", err, !ok, "t", fmt.Sprintf("%q against pattern %q", s, p))
		var ve *acroform.ValidationError
		if errors.As(err, &ve) && q.Validation.ErrorMessage != "" && ve.Message != "custom" {
			t.Fail("pattern", "message %q", ve.Message)
		}
	})
	bounds := []float64{-1, 0, 2.5, 3}
	nums := []interface{}{"-2", "-1", "0", "2.5", "2.6", "3", "3.0", "1e1", -1, 0, 2, 3, 4, -1.5, 2.5, 3.25, "abc", ""}
	c.ForEach("range", 25*len(nums)*2, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		v := nums[i%len(nums)]
		k := i / len(nums)
		t.State(fmt.Sprint("range", i))
		q := &types.Question{Name: "t", Type: types.ResponseTypeNumber, Validation: &types.ValidationRules{}}
		if k%2 == 1 {
			q.Type = types.ResponseTypeText
		}
		lo, hi := k/2%5, k/2/5
		var x float64
		n, _ := fmt.Sscan(fmt.Sprint(v), &x)
		if fmt.Sprint(v) == "abc" {
			n = 0
		}
		wrong := false
		if lo < 4 {
			q.Validation.MinValue = &bounds[lo]
			wrong = wrong || x < bounds[lo]
		}
		if hi < 4 {
			q.Validation.MaxValue = &bounds[hi]
			wrong = wrong || x > bounds[hi]
		}
		wrong = wrong && n == 1 && k%2 == 0
		verdict(t, "range", acroform.ValidateFieldValue(q, v), wrong, "t", fmt.Sprintf("%v against %d %d", v, lo, hi))
	})
	// whole forms: required fields, unknown names, wrong values
	shapes := allForests(core.Pick(c, 3, 4))
	type vc struct {
		shape         string
		req, given, n int
	}
	var cases []vc
	for _, s := range shapes {
		n := strings.Count(s, "(")
		for r := 0; r < 1<<n; r++ {
			for g := 0; g < pow(4, n); g++ {
				cases = append(cases, vc{s, r, g, n})
			}
		}
	}
	c.ForEach("whole", 3*len(cases), func(i int) string {
		s := cases[i/3]
		return fmt.Sprintf("%s-%d-%d-widgets%d", s.shape, s.req, s.given, i%3)
	}, func(t *core.T, i int) {
		widgets := i % 3
		i /= 3
		s := cases[i]
		roots, all := numberForest(s.shape)
		for k, m := range all {
			m.own["T"] = sampleAttr("T", k)
			m.set("FT", "/Tx", `"Tx"`).set("MaxLen", "2", "2")
			m.set("Ff", fmt.Sprint(s.req>>k&1*2), "")
		}
		for k, m := range all {
			if len(m.kids) > 0 {
				continue
			}
			for n := 0; n < widgets; n++ { // the places where the field is shown
				w := newField(70 + 2*k + n)
				delete(w.own, "T")
				w.up, w.page = m, n
				m.kids = append(m.kids, w)
			}
		}
		pdf := formDoc(roots, formOpt{layout: "table"})
		t.Attach("form.pdf", pdf)
		t.State(fmt.Sprint("whole", i))
		af, err := acroform.ExtractAcroForm(pdf, nil, false)
		if err != nil {
			t.Fail("whole", "%v", err)
			return
		}
		data := types.FormData{}
		var want, wantSchema []string
		given := seqOf(s.given, 4, s.n) // 0 not given, 1 fine, 2 too long, 3 empty
		for k, m := range all {
			term := m.terminal()
			req := s.req>>k&1 == 1
			if given[k] > 0 && term {
				data[m.full()] = []string{"", "ok", "too long", ""}[given[k]]
			}
			switch {
			case !term:
			case given[k] == 0 && req, given[k] == 2:
				want = append(want, m.full())
				wantSchema = append(wantSchema, m.full())
			case given[k] == 3 && req:
				want = append(want, m.full())
			}
		}
		if i%3 == 0 {
			data["no such field"] = "x"
			want = append(want, "?")
			wantSchema = append(wantSchema, "?")
		}
		if len(all) > 0 {
			judgeErrors(t, "whole", acroform.ValidateFormData(af, data), want)
			// the schema does not look at empty values of required fields
			judgeErrors(t, "whole-schema", acroform.ValidateFormSchema(af.ToFormSchema(), data), wantSchema)
		}
		t.Step(2)
	})
}

func judgeErrors(t *core.T, clause string, errs []error, want []string) {
	var got []string
	for _, e := range errs {
		var ve *acroform.ValidationError
		if errors.As(e, &ve) {
			got = append(got, ve.FieldName)
		} else {
			got = append(got, "?")
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	t.Outcome(clause + fmt.Sprint(got))
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fail(clause, "errors about %q, want %q: %v", got, want, errs)
	}
}

// --- appearances and actions ---------------------------------------------------

type look struct {
	name string
	do   func(w *write.PDFWriter, n int) error
	set  func(d ref.Dict) (ok bool)
	app  func(t *core.T, f *ref.File, s *ref.Stream) // what the new appearance must be
}

func plainDict(d ref.Dict, k ref.Name) ref.Dict {
	x, _ := d[k].(ref.Dict)
	if x == nil {
		x = ref.Dict{}
	}
	y := without(x)
	d[k] = y
	return y
}

func looks() []look {
	var out []look
	appearance := func(name string, make func(ab *acroform.AppearanceBuilder) (int, error), w, h float64, text string) {
		out = append(out, look{name: name, do: func(pw *write.PDFWriter, n int) error {
			a, err := make(acroform.NewAppearanceBuilder(pw))
			if err != nil {
				return err
			}
			return acroform.AddAppearanceToField(n, a, pw)
		}, set: func(d ref.Dict) bool { plainDict(d, "AP")["N"] = ref.Name("NEW"); return true }, app: func(t *core.T, f *ref.File, s *ref.Stream) {
			checkAppearance(t, f, s, w, h, text)
		}})
	}
	for _, on := range []bool{true, false} {
		on := on
		appearance(fmt.Sprintf("check-%v", on), func(ab *acroform.AppearanceBuilder) (int, error) { return ab.CreateCheckboxAppearance(on, 20, 12.5) }, 20, 12.5, "")
	}
	appearance("text", func(ab *acroform.AppearanceBuilder) (int, error) {
		return ab.CreateTextAppearance("a (b) \\ é €", 100, 20, 12, "F1")
	}, 100, 20, "a (b) \\ é €")
	appearance("button", func(ab *acroform.AppearanceBuilder) (int, error) { return ab.CreateButtonAppearance("Go)", 50, 30, 7) }, 50, 30, "Go)")
	action := func(name string, a acroform.Action, want string) {
		out = append(out, look{name: name, do: func(w *write.PDFWriter, n int) error { return acroform.AddActionToField(n, &a, w) }, set: func(d ref.Dict) bool {
			if want == "" {
				return false
			}
			o, err := ref.ParseOne([]byte(want))
			if err != nil {
				panic(err)
			}
			d["A"] = o
			return true
		}})
	}
	action("uri", acroform.Action{Type: acroform.ActionTypeURI, URI: "http://x/(a)?b=\\c"}, "<</Type/Action/S/URI/URI(http://x/\\(a\\)?b=\\\\c)>>")
	action("js", acroform.Action{Type: acroform.ActionTypeJavaScript, JavaScript: "f('>>');\n/A"}, "<</Type/Action/S/JavaScript/JS(f\\('>>'\\);\\n/A)>>")
	action("goto", acroform.Action{Type: acroform.ActionTypeGoTo, Destination: "[3 0 R /Fit]"}, "<</Type/Action/S/GoTo/D[3 0 R/Fit]>>")
	action("goto-page", acroform.Action{Type: acroform.ActionTypeGoTo, PageNum: 3}, "<</Type/Action/S/GoTo/D[3 0 R/Fit]>>")
	action("goto-nowhere", acroform.Action{Type: acroform.ActionTypeGoTo}, "")
	action("submit", acroform.Action{Type: acroform.ActionTypeSubmit}, "<</Type/Action/S/SubmitForm/F<</F(submit.pdf)/FS/URL>>>>")
	action("reset", acroform.Action{Type: acroform.ActionTypeReset}, "<</Type/Action/S/ResetForm>>")
	action("unknown", acroform.Action{Type: "Launch"}, "")
	for ev, key := range map[string]ref.Name{"onClick": "U", "onMouseUp": "U", "onMouseDown": "D", "onEnter": "E", "onExit": "X", "onBlur": ""} {
		for i, a := range []acroform.Action{{Type: acroform.ActionTypeURI, URI: "u)" + ev}, {Type: acroform.ActionTypeJavaScript, JavaScript: "j " + ev}, {Type: acroform.ActionTypeReset}} {
			a, key, ev := a, key, ev
			if i == 2 && ev != "onClick" {
				continue
			}
			out = append(out, look{name: fmt.Sprintf("%s-%s", ev, a.Type), do: func(w *write.PDFWriter, n int) error { return acroform.AddMouseAction(n, ev, &a, w) }, set: func(d ref.Dict) bool {
				if key == "" || a.Type == acroform.ActionTypeReset {
					return false
				}
				x := ref.Dict{"Type": ref.Name("Action"), "S": ref.Name(string(a.Type))}
				if a.URI != "" {
					x["URI"] = ref.Str(a.URI)
				} else {
					x["JS"] = ref.Str(a.JavaScript)
				}
				plainDict(d, "AA")[key] = x
				return true
			}})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// checkAppearance judges an appearance stream: a form of the right size that shows the text
// in a font it has.
func checkAppearance(t *core.T, f *ref.File, s *ref.Stream, w, h float64, text string) {
	if s == nil {
		t.Fail("appearance", "the appearance is not a stream")
		return
	}
	if s.D["Subtype"] != ref.Name("Form") {
		t.Fail("appearance", "not a form: %s", ref.Canon(s.D))
	}
	box, _ := s.D["BBox"].(ref.Arr)
	var fs []float64
	for _, x := range box {
		v, _ := ref.Float(x)
		fs = append(fs, v)
	}
	if showFloats(fs) != showFloats([]float64{0, 0, w, h}) {
		t.Fail("appearance", "bounding box %v", fs)
	}
	data, err := ref.DecodeStream(s)
	if err != nil {
		t.Fail("appearance", "%v", err)
		return
	}
	shown, font, ok := shownText(data)
	if !ok {
		t.Fail("appearance", "illegal content %q", clipb(data))
		return
	}
	if text == "" {
		return
	}
	win := encodingTables()["WinAnsiEncoding"]
	var rs []rune
	for _, c := range []byte(shown) {
		r := win[c]
		if c < 32 {
			r = rune(c)
		}
		rs = append(rs, r)
	}
	if string(rs) != text {
		t.Fail("appearance", "shows %q want %q (content %q)", string(rs), text, clipb(data))
	}
	fd := f.DictOf(f.DictOf(f.DictOf(s.D["Resources"])["Font"])[ref.Name(font)])
	if fd["Type"] != ref.Name("Font") || fd["Encoding"] != ref.Name("WinAnsiEncoding") {
		t.Fail("appearance", "font /%s is %s", font, ref.Canon(fd))
	}
}

// shownText reads a content stream: the strings it shows and the font.
func shownText(data []byte) (text, font string, ok bool) {
	l := ref.NewLex(data, 0)
	var args []ref.Obj
	depth := 0
	for {
		l.SkipWS()
		if l.P >= len(data) {
			return text, font, depth == 0 && len(args) == 0
		}
		o, err := l.Next()
		if err != nil {
			return "", "", false
		}
		k, isOp := o.(ref.Keyword)
		if !isOp {
			args = append(args, o)
			continue
		}
		switch k {
		case "q":
			depth++
		case "Q":
			depth--
		case "Tf":
			n, _ := args[0].(ref.Name)
			font = string(n)
		case "Tj":
			s, _ := args[0].(ref.Str)
			text += string(s)
		}
		args = nil
	}
}

func runFormLooks(c *core.Ctx) {
	ops := looks()
	bases := []string{
		"<</Type/Annot/Subtype/Widget/FT/Btn/T(x)>>",
		"<</Type/Annot/Subtype/Widget/FT/Btn/T(/AP << /A )/AP<</D 3 0 R/N 3 0 R>>/A<</S/URI/URI(/A >>)>>/AA<</E<</S/Named/N/X>>/U<</S/Named/N/Y>>>>/MK<</A 1/AP 2/AA 3>>>>",
	}
	depth := core.Pick(c, 2, 3)
	var seqs [][]int
	for d := 0; d <= depth; d++ {
		for i := 0; i < pow(len(ops), d); i++ {
			seqs = append(seqs, seqOf(i, len(ops), d))
		}
	}
	c.ForEach("looks", len(seqs)*len(bases), func(i int) string {
		s := []string{}
		for _, k := range seqs[i/len(bases)] {
			s = append(s, ops[k].name)
		}
		return fmt.Sprintf("%d-%s", i%len(bases), strings.Join(s, ","))
	}, func(t *core.T, i int) {
		b := infoBuilder(infoModes[i%3], 1)
		w := b.Writer()
		base := strings.ReplaceAll(bases[i%len(bases)], "3 0 R", fmt.Sprintf("%d 0 R", b.Pages()[0]))
		n := w.AddObject([]byte(base))
		o, err := ref.ParseOne([]byte(base))
		if err != nil {
			panic(err)
		}
		d := o.(ref.Dict)
		var last *look
		for _, k := range seqs[i/len(bases)] {
			op := &ops[k]
			err := op.do(w, n)
			t.Step(1)
			ok := op.set(d)
			if ok != (err == nil) {
				t.Fail("call", "%s: %v", op.name, err)
				return
			}
			if op.app != nil {
				last = op
			}
			if op.do(w, 9999) == nil {
				t.Fail("call", "%s of an object that does not exist succeeds", op.name)
			}
		}
		// keep the action's target valid: page references in the operations mean object 3
		fb := w.AddObject([]byte(fmt.Sprintf("<</Fields[%d 0 R]>>", n)))
		w.SetRoot(w.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R/AcroForm %d 0 R>>", b.PagesObjNum(), fb))))
		out, err := b.Bytes()
		if err != nil {
			t.Fail("write", "%v", err)
			return
		}
		t.Attach("looks.pdf", out)
		f, err := ref.Open(out)
		if err == nil {
			err = f.CheckAll()
		}
		if err != nil {
			t.Fail("strict", "%v", err)
			return
		}
		g := f.DictOf(ref.Ref{N: n})
		ap, _ := g["AP"].(ref.Dict)
		if last != nil {
			s, _ := f.Resolve(ap["N"]).(*ref.Stream)
			last.app(t, f, s)
			if data, err := acroform.GetFieldAppearance(&acroform.Field{ObjectNum: n}, out, nil, false); s == nil || err != nil {
				t.Fail("appearance", "GetFieldAppearance: %v", err)
			} else if want, err := ref.DecodeStream(s); err != nil || string(want) != string(data) {
				t.Fail("appearance", "GetFieldAppearance returns %q", clipb(data))
			}
			ap = without(ap)
			ap["N"] = ref.Name("NEW")
			g = without(g)
			g["AP"] = ap
		}
		if a, b := ref.Canon(g), ref.Canon(d); a != b {
			t.Fail("field", "got %s want %s", a, b)
		}
		t.State(ref.Canon(d))
		t.Outcome(ref.Canon(d))
	})
	win := encodingTables()["WinAnsiEncoding"]
	var texts []string
	for i := 32; i < 256; i++ {
		if win[i] != 0 {
			texts = append(texts, string(win[i]), "a"+string(win[i])+"1")
		}
	}
	texts = append(texts, "\\", "(", ")", "()", ")(", "\\n", "\n", "\r", "\t", "a\r\nb", "\\)", "Ж", "a中b", "😀")
	c.ForEach("labels", len(texts), func(i int) string { return fmt.Sprintf("%q", texts[i]) }, func(t *core.T, i int) {
		b := infoBuilder(infoModes[i%3], 1)
		ab := acroform.NewAppearanceBuilder(b.Writer())
		want := []rune(texts[i])
		for k, r := range want {
			if r > 255 && !strings.ContainsRune(string(win[128:160]), r) {
				want[k] = '?'
			}
		}
		x, err := ab.CreateTextAppearance(texts[i], 50, 20, 12, []string{"Helv", "My Font"}[i%2])
		y, err2 := ab.CreateButtonAppearance(texts[i], 50, 20, 12)
		if err != nil || err2 != nil {
			t.Fail("create", "%v %v", err, err2)
			return
		}
		out, err := b.Bytes()
		if err != nil {
			t.Fail("write", "%v", err)
			return
		}
		t.Attach("labels.pdf", out)
		f, err := ref.Open(out)
		if err == nil {
			err = f.CheckAll()
		}
		if err != nil {
			t.Fail("strict", "%v", err)
			return
		}
		t.State(texts[i])
		for _, n := range []int{x, y} {
			s, _ := f.Resolve(ref.Ref{N: n}).(*ref.Stream)
			checkAppearance(t, f, s, 50, 20, string(want))
			t.Step(1)
		}
		t.Outcome(texts[i])
	})
}
