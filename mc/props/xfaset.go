package props

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"

	"verifmc/core"
	"verifmc/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P24", Level: "model_checking", Run: runXFASettings,
		Rule: "A case is one template (a set of attributes and parts of a field, an order of its parts, a text in one place, or a forest of subforms, fields and decoys) or one settings value (each setting alone with every text, each pair of settings, all together, each list of up to three locales, connections or styles), in every spelling of XML. The XML tree is made from the model independently of the library. Reading is compared with the model, what the library writes is compared with the tree as an independent XML reader reads it, and read again. Non-trivial: at least one field or setting is there.",
		Assumptions: []string{
			"texts without white space at their ends and with characters that XML can carry; no markup inside of texts",
			"templates in the library's own vocabulary (label or caption, desc, value, items, validate, event)",
			"properties other than the known settings are leaf elements, not named as a known section, once each",
		},
	})
}

// leafXML makes an element that holds a text.
func leafXML(name, text string) *ref.XML {
	x := &ref.XML{Name: name, Attr: map[string]string{}}
	if text != "" {
		x.Kids = []*ref.XML{{Text: text}}
	}
	return x
}

func elem(name string, attrs []string, kids ...*ref.XML) *ref.XML {
	x := &ref.XML{Name: name, Attr: map[string]string{}, Kids: kids}
	for i := 0; i+1 < len(attrs); i += 2 {
		x.Attr[attrs[i]] = attrs[i+1]
	}
	return x
}

const xmlSpellings = 11

// spellXML writes a tree in one of the ways XML allows.
func spellXML(x *ref.XML, how int) string {
	var b strings.Builder
	switch how {
	case 1, 7:
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	case 4:
		b.WriteString("<!-- <field name=\"no\"/> --><?pi <style name=\"no\"/> ?>")
	}
	chars := func(s string, quote string) string {
		var o strings.Builder
		for _, r := range s {
			switch {
			case how == 2:
				fmt.Fprintf(&o, "&#x%X;", r)
			case how == 8:
				fmt.Fprintf(&o, "&#%d;", r)
			case r == '<':
				o.WriteString("&lt;")
			case r == '&':
				o.WriteString("&amp;")
			case r == '>' && (how != 5 || strings.Contains(s, "]]>")):
				o.WriteString("&gt;")
			case r == '\n' || r == '\t' || r == '\r':
				fmt.Fprintf(&o, "&#%d;", r)
			case string(r) == quote || quote == "" && how == 1 && r == '"':
				if r == '"' {
					o.WriteString("&quot;")
				} else {
					o.WriteString("&apos;")
				}
			default:
				o.WriteRune(r)
			}
		}
		return o.String()
	}
	prefix := ""
	if how == 6 {
		prefix = "xfa:"
	}
	var put func(x *ref.XML, depth int)
	put = func(x *ref.XML, depth int) {
		pad := "\n" + strings.Repeat("\t ", depth)
		if x.Name == "" {
			switch how {
			case 3:
				b.WriteString("<![CDATA[" + strings.ReplaceAll(x.Text, "]]>", "]]]]><![CDATA[>") + "]]>")
			case 4: // divided
				r := []rune(x.Text)
				b.WriteString(chars(string(r[:len(r)/2]), "") + "<!-- cut <value>no</value> --><?pi?>" + chars(string(r[len(r)/2:]), ""))
			case 7:
				b.WriteString(pad + chars(x.Text, "") + pad)
			case 9: // partly in a section
				r := []rune(x.Text)
				b.WriteString(chars(string(r[:1]), "") + "<![CDATA[" + strings.ReplaceAll(string(r[1:]), "]]>", "]]]]><![CDATA[>") + "]]>")
			default:
				b.WriteString(chars(x.Text, ""))
			}
			return
		}
		b.WriteString("<" + prefix + x.Name)
		names := sameOrder(x.Attr)
		quote, eq, sep := `"`, "=", " "
		if how == 5 {
			for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
				names[i], names[j] = names[j], names[i]
			}
			quote, eq, sep = `'`, " = ", "\n  "
		}
		if how == 6 && depth == 0 {
			b.WriteString(` xmlns:xfa="http://www.xfa.org/schema/"`)
		}
		for _, n := range names {
			b.WriteString(sep + n + eq + quote + chars(x.Attr[n], quote) + quote)
		}
		if how == 10 && x.Name == "field" {
			b.WriteString(` id="no" nameX="no" xvalue="no"`)
		}
		if len(x.Kids) == 0 && how%2 == 0 {
			b.WriteString("/>")
			return
		}
		b.WriteString(">")
		for _, k := range x.Kids {
			if k.Name != "" && (how == 1 || how == 7) {
				b.WriteString(pad + "\t ")
			}
			if how == 4 && k.Name != "" {
				b.WriteString("<!-- <value>no</value> -->")
			}
			put(k, depth+1)
		}
		if how == 10 && x.Name == "field" {
			b.WriteString(`<para hAlign="left"/><ui><textEdit><border/><margin/></textEdit></ui><font typeface="no"/>`)
		}
		if len(x.Kids) > 0 && x.Kids[len(x.Kids)-1].Name != "" && (how == 1 || how == 7) {
			b.WriteString(pad)
		}
		b.WriteString("</" + prefix + x.Name)
		if how == 5 {
			b.WriteString("\n")
		}
		b.WriteString(">")
	}
	put(x, 0)
	return b.String()
}

func sameOrder(m map[string]string) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

// showTree renders a tree; elements of different names may come in any order, white space
// between elements does not matter.
func showTree(x *ref.XML) string {
	if x.Name == "" {
		return fmt.Sprintf("%q", x.Text)
	}
	s := "<" + x.Name
	for _, n := range sameOrder(x.Attr) {
		s += fmt.Sprintf(" %s=%q", n, x.Attr[n])
	}
	s += ">"
	var kids []*ref.XML
	named := false
	for _, k := range x.Kids {
		named = named || k.Name != ""
	}
	for _, k := range x.Kids {
		if k.Name == "!" || k.Name == "?" || named && k.Name == "" && strings.TrimSpace(k.Text) == "" {
			continue
		}
		kids = append(kids, k)
	}
	sort.SliceStable(kids, func(i, j int) bool { return kids[i].Name < kids[j].Name })
	for _, k := range kids {
		s += showTree(k)
	}
	return s + "</>"
}

// treeOf reads XML that the library wrote.
func treeOf(s string) (*ref.XML, error) {
	x, err := ref.ParseXML(s)
	if err != nil {
		return nil, err
	}
	for _, k := range x.Kids {
		if k.Name != "" && k.Name != "!" && k.Name != "?" {
			return k, nil
		}
	}
	return nil, fmt.Errorf("no element")
}

var settingTexts = []string{"a", "A b", "0", "1", "true", "\"q\" 'p'", "<b>&amp;]]>", "é 漢 😀", "a\nb\tc", "<!-- x -->", "$#,##0.00", "http://a/?x=1&y=2", "-", "name", "readOnly", "a holiday"}

// ---- settings ----

// a setting has a place in the XML (elements@attribute) and one in the value.
type setting struct {
	at, path string
}

var configSettings = []setting{
	{"present@renderPolicy", "Present.RenderPolicy"}, {"present@effectiveOutputPolicy", "Present.EffectiveOutputPolicy"},
	{"present/pdf@version", "Present.PDF.Version"}, {"present/pdf@compression", "Present.PDF.Compression"}, {"present/pdf@linearized", "Present.PDF.Linearized"},
	{"present/pdf@encryption", "Present.PDF.Encryption"}, {"present/pdf@embedFonts", "Present.PDF.EmbedFonts"}, {"present/pdf@tagged", "Present.PDF.Tagged"}, {"present/pdf@accessibility", "Present.PDF.Accessibility"},
	{"present/xdp@version", "Present.XDP.Version"},
	{"present/print@printerName", "Present.Print.PrinterName"}, {"present/print@printerCap", "Present.Print.PrinterCap"},
	{"present/interactive@currentPage", "Present.Interactive.CurrentPage"}, {"present/interactive@zoom", "Present.Interactive.Zoom"}, {"present/interactive@viewMode", "Present.Interactive.ViewMode"},
	{"present/script@contentType", "Present.Script.ContentType"}, {"present/script@runAt", "Present.Script.RunAt"},
	{"validate@scriptTest", "Validate.ScriptTest"}, {"validate@nullTest", "Validate.NullTest"}, {"validate@formatTest", "Validate.FormatTest"},
	{"submit@format", "Submit.Format"}, {"submit@target", "Submit.Target"}, {"submit@method", "Submit.Method"}, {"submit@embedPDF", "Submit.EmbedPDF"}, {"submit@xdpContent", "Submit.XDPContent"}, {"submit@textEncoding", "Submit.TextEncoding"},
	{"submit@extra", "Submit.Properties.extra"}, {"submit@id", "Submit.Properties.id"},
	{"destination@type", "Destination.Type"}, {"destination@target", "Destination.Target"},
	{"acrobat@autoSave", "Acrobat.AutoSave"}, {"acrobat@autoSaveTime", "Acrobat.AutoSaveTime"}, {"acrobat@formType", "Acrobat.FormType"}, {"acrobat@version", "Acrobat.Version"},
	{"common@dataPrefix", "Common.DataPrefix"}, {"common@timeStamp", "Common.TimeStamp"},
	{"output@format", "Output.Format"}, {"output@destination", "Output.Destination"},
	{"script@contentType", "Script.ContentType"}, {"script@runAt", "Script.RunAt"},
	{"trace@enabled", "Trace.Enabled"}, {"trace@level", "Trace.Level"},
	{"creator", "Properties.creator"}, {"adobeExtensionLevel", "Properties.adobeExtensionLevel"}, {"version", "Properties.version"},
}

var localeSettings = []setting{
	{"@code", "Code"}, {"@name", "Name"},
	{"calendar@symbols", "Calendar.Symbols"}, {"calendar@firstDay", "Calendar.FirstDay"}, {"calendar@weekend", "Calendar.Weekend"},
	{"calendar/holiday", "Calendar.Holidays+"}, {"calendar/holiday", "Calendar.Holidays+"},
	{"currency@symbol", "Currency.Symbol"}, {"currency@name", "Currency.Name"}, {"currency@precision", "Currency.Precision"},
	{"datePattern@format", "DatePattern.Format"}, {"datePattern@symbol", "DatePattern.Symbol"},
	{"timePattern@format", "TimePattern.Format"}, {"timePattern@symbol", "TimePattern.Symbol"},
	{"numberPattern@format", "NumberPattern.Format"}, {"numberPattern@symbol", "NumberPattern.Symbol"}, {"numberPattern@grouping", "NumberPattern.Grouping"}, {"numberPattern@decimal", "NumberPattern.Decimal"}, {"numberPattern@precision", "NumberPattern.Precision"},
	{"text@direction", "Text.Direction"}, {"text@encoding", "Text.Encoding"},
}

var connectionSettings = []setting{
	{"@name", "Name"}, {"@type", "Type"},
	{"dataDescription@ref", "DataDescription.Ref"}, {"dataDescription@schema", "DataDescription.Schema"}, {"dataDescription@namespace", "DataDescription.Namespace"},
	{"dataDescription/root", "DataDescription.Properties.root"}, {"dataDescription/uri", "DataDescription.Properties.uri"}, {"dataDescription/query", "DataDescription.Properties.query"}, {"dataDescription/user", "DataDescription.Properties.user"},
	{"uri", "Properties.uri"}, {"wsdl", "Properties.wsdl"}, {"operation", "Properties.operation"}, {"soapAction", "Properties.soapAction"}, {"user", "Properties.user"}, {"password", "Properties.password"}, {"dsn", "Properties.dsn"}, {"query", "Properties.query"}, {"timeout", "Properties.timeout"},
}

var styleSettings = []setting{
	{"@name", "Name"}, {"@type", "Type"},
	{"font@family", "font.Family"}, {"font@size", "font.Size"}, {"font@weight", "font.Weight"}, {"font@style", "font.Style"}, {"font@color", "font.Color"}, {"font@decoration", "font.Decoration"},
	{"border@width", "border.Width"}, {"border@style", "border.Style"}, {"border@color", "border.Color"}, {"border@radius", "border.Radius"},
	{"margin@top", "margin.Top"}, {"margin@right", "margin.Right"}, {"margin@bottom", "margin.Bottom"}, {"margin@left", "margin.Left"},
	{"padding@top", "padding.Top"}, {"padding@right", "padding.Right"}, {"padding@bottom", "padding.Bottom"}, {"padding@left", "padding.Left"},
	{"position@x", "position.X"}, {"position@y", "position.Y"},
	{"size@width", "size.Width"}, {"size@height", "size.Height"},
	{"color", "Properties.color"}, {"opacity", "Properties.opacity"}, {"visible", "Properties.visible"},
}

// set puts the v-th text or number into a value and the tree that says it.
func (s setting) set(root reflect.Value, tree *ref.XML, v int) {
	f := root
	path := strings.Split(s.path, ".")
	if style, ok := root.Interface().(*types.XFAStyle); ok && path[0] != "Name" && path[0] != "Type" && path[0] != "Properties" {
		if style.Properties == nil {
			style.Properties = map[string]interface{}{}
		}
		if style.Properties[path[0]] == nil {
			style.Properties[path[0]] = map[string]interface{}{"font": &types.XFAStyleFont{}, "border": &types.XFAStyleBorder{}, "margin": &types.XFAMargin{}, "padding": &types.XFAPadding{}, "position": &types.XFAPosition{}, "size": &types.XFASize{}}[path[0]]
		}
		f = reflect.ValueOf(style.Properties[path[0]])
		path = path[1:]
	}
	text := settingTexts[v%len(settingTexts)]
	for len(path) > 0 {
		for f.Kind() == reflect.Ptr {
			if f.IsNil() {
				f.Set(reflect.New(f.Type().Elem()))
			}
			f = f.Elem()
		}
		if f.Kind() == reflect.Map {
			if f.IsNil() {
				f.Set(reflect.MakeMap(f.Type()))
			}
			val := reflect.ValueOf(text)
			if _, ok := root.Interface().(*types.XFAStyle); ok {
				// Style properties are numbers, truth values or texts
				switch v % 5 {
				case 1:
					val, text = reflect.ValueOf(1.5), "1.5"
				case 2:
					val, text = reflect.ValueOf(true), "true"
				case 3:
					val, text = reflect.ValueOf(false), "false"
				case 4:
					val, text = reflect.ValueOf(-20.0), "-20"
				default:
					if _, err := strconv.ParseFloat(text, 64); err == nil || text == "true" {
						text = "t" + text
						val = reflect.ValueOf(text)
					}
				}
			}
			f.SetMapIndex(reflect.ValueOf(path[0]), val)
			path = nil
			break
		}
		name := strings.TrimSuffix(path[0], "+")
		f = f.FieldByName(name)
		if path[0] != name {
			f.Set(reflect.Append(f, reflect.ValueOf(text)))
			path = nil
			break
		}
		path = path[1:]
	}
	switch f.Kind() {
	case reflect.String:
		f.SetString(text)
	case reflect.Bool:
		text = "1"
		f.SetBool(true)
	case reflect.Int:
		n := []int{1, 2, 100, -3, 2147483647}[v%5]
		text = strconv.Itoa(n)
		f.SetInt(int64(n))
	case reflect.Float64:
		k := v % 6
		text = []string{"1", "0.5", "-2", "12.25", "1000000000000000000000", "-0.000001"}[k]
		f.SetFloat([]float64{1, 0.5, -2, 12.25, 1e21, -0.000001}[k])
	}
	place, attr, isAttr := strings.Cut(s.at, "@")
	x := tree
	if place != "" {
		parts := strings.Split(place, "/")
		for i, p := range parts {
			var y *ref.XML
			for _, k := range x.Kids {
				if k.Name == p && (isAttr || i < len(parts)-1) {
					y = k
				}
			}
			if y == nil {
				y = elem(p, nil)
				x.Kids = append(x.Kids, y)
			}
			x = y
		}
	}
	if isAttr {
		x.Attr[attr] = text
	} else {
		x.Kids = append(x.Kids, &ref.XML{Text: text})
	}
}

// a settingKind is one kind of settings with the library's conversions.
type settingKind struct {
	name     string
	settings []setting
	item     func() interface{}                              // a new value that the settings apply to
	itemName string                                          // its element, if it is in a list
	whole    func(items []interface{}, d string) interface{} // the value that is written
	root     string
	write    func(v interface{}) (string, error)
	read     func(s string) (interface{}, error)
}

func settingKinds() []settingKind {
	return []settingKind{
		{"config", configSettings, func() interface{} { return &types.XFAConfig{} }, "", func(items []interface{}, d string) interface{} { return items[0] }, "config",
			func(v interface{}) (string, error) { return xfa.ConfigToXFA(v.(*types.XFAConfig), false) },
			func(s string) (interface{}, error) { return xfa.ParseXFAConfig(s, false) }},
		{"locale", localeSettings, func() interface{} { return &types.XFALocale{} }, "locale", func(items []interface{}, d string) interface{} {
			l := &types.XFALocaleSet{Default: d, Locales: []types.XFALocale{}}
			for _, i := range items {
				l.Locales = append(l.Locales, *i.(*types.XFALocale))
			}
			return l
		}, "localeSet",
			func(v interface{}) (string, error) { return xfa.LocaleSetToXFA(v.(*types.XFALocaleSet), false) },
			func(s string) (interface{}, error) { return xfa.ParseXFALocaleSet(s, false) }},
		{"connection", connectionSettings, func() interface{} { return &types.XFAConnection{} }, "connection", func(items []interface{}, d string) interface{} {
			l := &types.XFAConnectionSet{Connections: []types.XFAConnection{}}
			for _, i := range items {
				l.Connections = append(l.Connections, *i.(*types.XFAConnection))
			}
			return l
		}, "connectionSet",
			func(v interface{}) (string, error) { return xfa.ConnectionSetToXFA(v.(*types.XFAConnectionSet), false) },
			func(s string) (interface{}, error) { return xfa.ParseXFAConnectionSet(s, false) }},
		{"style", styleSettings, func() interface{} { return &types.XFAStyle{} }, "style", func(items []interface{}, d string) interface{} {
			l := &types.XFAStylesheet{Styles: []types.XFAStyle{}}
			for _, i := range items {
				l.Styles = append(l.Styles, *i.(*types.XFAStyle))
			}
			return l
		}, "stylesheet",
			func(v interface{}) (string, error) { return xfa.StylesheetToXFA(v.(*types.XFAStylesheet), false) },
			func(s string) (interface{}, error) { return xfa.ParseXFAStylesheet(s, false) }},
	}
}

// chosen is one setting with one of its values.
type chosen struct{ setting, value int }

// make makes the value and its tree.
func (k settingKind) make(items [][]chosen, def string) (interface{}, *ref.XML) {
	tree := elem(k.root, nil)
	var vs []interface{}
	for _, it := range items {
		x := tree
		if k.itemName != "" {
			x = elem(k.itemName, nil)
			tree.Kids = append(tree.Kids, x)
		}
		v := k.item()
		for _, c := range it {
			k.settings[c.setting].set(reflect.ValueOf(v), x, c.value)
		}
		vs = append(vs, v)
	}
	if def != "" {
		tree.Attr["default"] = def
	}
	return k.whole(vs, def), tree
}

// judgeSettings reads the tree in every spelling and writes the value.
func judgeSettings(t *core.T, name string, v interface{}, tree *ref.XML, write func(interface{}) (string, error), read func(string) (interface{}, error), spellings []int) {
	want := jsonOf(v)
	for _, how := range spellings {
		s := spellXML(tree, how)
		got, err := read(s)
		t.Step(1)
		if err != nil {
			t.Fail("read", "%v: %s", err, clips(s))
			return
		}
		if g := jsonOf(got); g != want {
			t.Attach("input.xml", []byte(s))
			t.Fail("read", "%s in spelling %d reads as something else: %s", name, how, differ(g, want))
			return
		}
	}
	out, err := write(v)
	if err != nil {
		t.Fail("write", "%v", err)
		return
	}
	t.Attach("output.xml", []byte(out))
	if jsonOf(v) != want {
		t.Fail("argument", "writing changes the value: %s", differ(jsonOf(v), want))
		return
	}
	x, err := treeOf(out)
	if err != nil {
		t.Fail("form", "not well formed: %v: %s", err, clips(out))
		return
	}
	if g, w := showTree(x), showTree(tree); g != w {
		t.Fail("write", "the XML says something else: %s", differ(g, w))
		return
	}
	for n := 0; n < 3; n++ {
		if again, err := write(v); err != nil || again != out {
			t.Fail("same", "writing again gives something else: %v %s", err, differ(again, out))
			return
		}
	}
	back, err := read(out)
	if g := jsonOf(back); err != nil || g != want {
		t.Fail("roundtrip", "%s written and read: %v %s", name, err, differ(g, want))
	}
	t.Step(5)
}

func every(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

func runXFASettings(c *core.Ctx) {
	for _, k := range settingKinds() {
		k := k
		ns := len(k.settings)
		judge := func(t *core.T, items [][]chosen, def string, spellings []int) {
			v, tree := k.make(items, def)
			judgeSettings(t, k.name, v, tree, k.write, k.read, spellings)
			t.State(k.name + showTree(tree))
			t.Outcome(fmt.Sprint(k.name, len(items), min(len(items[0]), 3)))
		}
		// each setting with each value, in every spelling
		nv := len(settingTexts)
		c.ForEach(k.name, ns*nv, func(i int) string { return fmt.Sprintf("%s %s=%d", k.name, k.settings[i/nv].path, i%nv) }, func(t *core.T, i int) {
			judge(t, [][]chosen{{{i / nv, i % nv}}}, "", every(xmlSpellings))
		})
		// each pair, in both orders, and everything
		c.ForEach(k.name+"-pairs", ns*ns, func(i int) string { return fmt.Sprintf("%s,%s", k.settings[i/ns].path, k.settings[i%ns].path) }, func(t *core.T, i int) {
			a, b := i/ns, i%ns
			if a == b {
				var all []chosen
				for s := 0; s < ns; s++ {
					all = append(all, chosen{s, s + a})
				}
				judge(t, [][]chosen{all}, "", every(xmlSpellings))
				// and all but this one
				judge(t, [][]chosen{append(append([]chosen{}, all[:a]...), all[a+1:]...)}, "", every(xmlSpellings))
				return
			}
			for v := 0; v < core.Pick(c, 2, nv); v++ {
				judge(t, [][]chosen{{{a, v}, {b, v + 2}}}, "", []int{0, 4, 7})
			}
		})
		if k.itemName == "" {
			if c.Thorough() {
				c.ForEach(k.name+"-triples", ns*ns*ns, func(i int) string { return fmt.Sprintf("%v", seqOf(i, ns, 3)) }, func(t *core.T, i int) {
					s := seqOf(i, ns, 3)
					if s[0] < s[1] && s[1] < s[2] {
						judge(t, [][]chosen{{{s[0], 1}, {s[1], 2}, {s[2], 5}}}, "", []int{1, 5})
					}
				})
			}
			continue
		}
		// lists of items: nothing, one setting, everything
		var kinds [][]chosen
		kinds = append(kinds, nil)
		for s := 0; s < ns; s += core.Pick(c, 4, 1) {
			kinds = append(kinds, []chosen{{s, s}})
		}
		var all []chosen
		for s := 0; s < ns; s++ {
			all = append(all, chosen{s, s + 7})
		}
		kinds = append(kinds, all)
		nk := len(kinds)
		c.ForEach(k.name+"-lists", nk*nk*nk, func(i int) string { return fmt.Sprint(seqOf(i, nk, 3)) }, func(t *core.T, i int) {
			s := seqOf(i, nk, 3)
			items := [][]chosen{kinds[s[0]], kinds[s[1]], kinds[s[2]]}
			def := ""
			if k.name == "locale" {
				def = []string{"", "de_DE", "a<&\"'>"}[i%3]
			}
			judge(t, items, def, []int{i % xmlSpellings})
			judge(t, items[:2], def, []int{(i + 1) % xmlSpellings})
		})
	}
	runTemplates(c)
}

// ---- templates ----

// tfield is a field of a template.
type tfield struct {
	name           string
	label, caption string
	desc, descName string
	typ            string
	value          string
	wrapped        bool // the value in a text element
	required       string
	access         string
	box            [4]string
	page           string
	options        []string
	validate       int // 0 none, 1 empty, 2 pattern, 3 script, 4 message, 5 all
	text           string
	bind           string
	events         []tevent
	order          []int // of the parts
}

type tevent struct {
	activity, name, script string
	scriptless             bool
}

// tree gives the field as XML.
func (f tfield) tree() *ref.XML {
	x := elem("field", []string{"name", f.name})
	put := func(n, v string) {
		if v != "" {
			x.Attr[n] = v
		}
	}
	put("type", f.typ)
	put("required", f.required)
	put("access", f.access)
	put("page", f.page)
	for i, n := range []string{"x", "y", "w", "h"} {
		put(n, f.box[i])
	}
	var parts []*ref.XML
	if f.label != "" {
		parts = append(parts, leafXML("label", f.label))
	}
	if f.caption != "" {
		parts = append(parts, elem("caption", nil, elem("value", nil, leafXML("text", f.caption))))
	}
	if f.desc != "" {
		parts = append(parts, leafXML(f.descName, f.desc))
	}
	if f.value != "" {
		if f.wrapped {
			parts = append(parts, elem("value", nil, leafXML("text", f.value)))
		} else {
			parts = append(parts, leafXML("value", f.value))
		}
	}
	if len(f.options) > 0 {
		items := elem("items", nil)
		for _, o := range f.options {
			items.Kids = append(items.Kids, leafXML("text", o))
		}
		parts = append(parts, items)
	}
	if f.validate > 0 {
		v := elem("validate", nil)
		if f.validate == 2 || f.validate == 5 {
			v.Attr["formatTest"] = "pattern"
			v.Kids = append(v.Kids, leafXML("pattern", f.text))
		}
		if f.validate == 3 || f.validate == 5 {
			v.Attr["scriptTest"] = f.text
		}
		if f.validate == 4 || f.validate == 5 {
			v.Attr["messageText"] = f.text + "!"
		}
		parts = append(parts, v)
	}
	if f.bind != "" {
		parts = append(parts, elem("bind", []string{"match", f.bind}))
	}
	for _, e := range f.events {
		ev := elem("event", []string{"activity", e.activity})
		if e.name != "" {
			ev.Attr["name"] = e.name
		}
		if !e.scriptless {
			ev.Kids = append(ev.Kids, leafXML("script", e.script))
		}
		parts = append(parts, ev)
	}
	if f.order != nil {
		for _, i := range f.order {
			if i < len(parts) {
				x.Kids = append(x.Kids, parts[i])
			}
		}
	} else {
		x.Kids = parts
	}
	return x
}

var fieldTypes = []struct {
	name string
	is   types.ResponseType
}{
	{"", types.ResponseTypeText}, {"text", types.ResponseTypeText}, {"textField", types.ResponseTypeText}, {"textEdit", types.ResponseTypeTextarea}, {"textArea", types.ResponseTypeTextarea},
	{"radioButton", types.ResponseTypeRadio}, {"radio", types.ResponseTypeRadio}, {"checkButton", types.ResponseTypeCheckbox}, {"checkbox", types.ResponseTypeCheckbox},
	{"choiceList", types.ResponseTypeSelect}, {"select", types.ResponseTypeSelect}, {"choice", types.ResponseTypeSelect}, {"dropdown", types.ResponseTypeSelect}, {"listbox", types.ResponseTypeSelect},
	{"numeric", types.ResponseTypeNumber}, {"decimal", types.ResponseTypeNumber}, {"integer", types.ResponseTypeNumber}, {"float", types.ResponseTypeNumber},
	{"date", types.ResponseTypeDate}, {"DATEFIELD", types.ResponseTypeDate}, {"email", types.ResponseTypeEmail}, {"emailfield", types.ResponseTypeEmail},
	{"button", types.ResponseTypeButton}, {"signature", types.ResponseTypeSignature}, {"signatureField", types.ResponseTypeSignature}, {"whatever", types.ResponseTypeText},
}

// canonicalTypes are the names that the library writes.
var canonicalTypes = map[types.ResponseType]string{types.ResponseTypeText: "text", types.ResponseTypeTextarea: "textEdit", types.ResponseTypeRadio: "radioButton", types.ResponseTypeCheckbox: "checkButton", types.ResponseTypeSelect: "choiceList", types.ResponseTypeNumber: "numeric", types.ResponseTypeDate: "date", types.ResponseTypeEmail: "email", types.ResponseTypeButton: "button", types.ResponseTypeSignature: "signature"}

// question says what reading the field gives.
func (f tfield) question(index int, rules *[]types.Rule) types.Question {
	id := ""
	for _, r := range f.name {
		switch {
		case r < 128 && (r == '_' || r >= '0' && r <= '9' || r|32 >= 'a' && r|32 <= 'z'):
			id += string(r)
		case r == ' ' || r == '-':
			id += "_"
		}
	}
	if id == "" {
		id = fmt.Sprintf("field_%d", index)
	} else if id[0] >= '0' && id[0] <= '9' {
		id = "field_" + id
	}
	q := types.Question{ID: id, Name: f.name, Label: f.label + f.caption, Description: f.desc, Type: types.ResponseTypeText, PageNumber: 1, Properties: map[string]interface{}{}}
	for _, t := range fieldTypes {
		if t.name == f.typ {
			q.Type = t.is
		}
	}
	if f.value != "" {
		q.Default = f.value
	}
	q.Required = (f.required == "1" || f.required == "true" || f.required == "YES") && f.bind != "none"
	q.ReadOnly = f.access == "readOnly"
	q.Hidden = f.access == "hidden"
	if n, err := strconv.Atoi(f.page); err == nil {
		q.PageNumber = n
	}
	for i, n := range []string{"x", "y", "w", "h"} {
		if v := f.box[i]; v != "" {
			if g, err := strconv.ParseFloat(v, 64); err == nil {
				q.Properties[n] = g
			} else {
				q.Properties[n] = v
			}
		}
	}
	for _, o := range f.options {
		q.Options = append(q.Options, types.Option{Value: o, Label: o})
	}
	if f.validate > 0 {
		v := &types.ValidationRules{}
		if f.validate == 2 || f.validate == 5 {
			v.Pattern = f.text
		}
		if f.validate == 3 || f.validate == 5 {
			v.CustomScript = f.text
		}
		if f.validate == 4 || f.validate == 5 {
			v.ErrorMessage = f.text + "!"
		}
		q.Validation = v
	}
	for _, e := range f.events {
		r := types.Rule{ID: fmt.Sprintf("rule_%d", len(*rules)+1), Source: f.name, Type: types.RuleTypeCalculate}
		switch e.activity {
		case "initialize", "enter":
			r.Type = types.RuleTypeSetValue
		case "validate":
			r.Type = types.RuleTypeValidate
		}
		if e.script != "" {
			r.Actions = []types.Action{{Type: types.ActionTypeExecute, Script: e.script, Expression: e.script}}
		}
		*rules = append(*rules, r)
	}
	return q
}

// written gives the field as the library writes what was read from it.
func (f tfield) written() tfield {
	g := f
	for _, t := range fieldTypes {
		if t.name == f.typ {
			g.typ = canonicalTypes[t.is]
		}
	}
	g.label, g.caption = f.label+f.caption, ""
	g.descName, g.wrapped, g.order, g.bind = "desc", false, nil, ""
	if q := f.question(1, &[]types.Rule{}); q.Required {
		g.required = "1"
	} else {
		g.required = ""
	}
	if f.access != "readOnly" && f.access != "hidden" {
		g.access = ""
	}
	if g.page == "" {
		g.page = "1"
	}
	for i, v := range f.box {
		if x, err := strconv.ParseFloat(v, 64); err == nil {
			g.box[i] = fmt.Sprint(x)
		}
	}
	g.events = nil
	for _, e := range f.events {
		switch e.activity {
		case "initialize", "enter":
			e.activity = "enter"
		case "validate":
		default:
			e.activity = "change"
		}
		e.name = ""
		e.scriptless = e.script == ""
		g.events = append(g.events, e)
	}
	return g
}

// judgeTemplate reads the tree and writes what it says. Fields come in document order.
func judgeTemplate(t *core.T, title string, fields []tfield, tree *ref.XML, spellings []int) {
	want := &types.FormSchema{Metadata: types.FormMetadata{FormType: "XFA", Title: title, TotalPages: 1}, Questions: []types.Question{}, Rules: []types.Rule{}}
	out := elem("template", nil)
	if title != "" {
		out.Attr["title"] = title
	}
	for i, f := range fields {
		want.Questions = append(want.Questions, f.question(i+1, &want.Rules))
		out.Kids = append(out.Kids, f.written().tree())
	}
	show := func(s *types.FormSchema) string { return jsonOf(s) }
	w := show(want)
	for _, how := range spellings {
		s := spellXML(tree, how)
		got, err := xfa.ParseXFAForm(s, false)
		t.Step(1)
		if err != nil {
			t.Fail("read", "%v: %s", err, clips(s))
			return
		}
		if g := show(got); g != w {
			t.Attach("input.xml", []byte(s))
			t.Fail("read", "the template in spelling %d reads as something else: %s", how, differ(g, w))
			return
		}
	}
	s, err := xfa.FormToXFA(want, false)
	if err != nil {
		t.Fail("write", "%v", err)
		return
	}
	t.Attach("output.xml", []byte(s))
	if show(want) != w {
		t.Fail("argument", "writing changes the schema: %s", differ(show(want), w))
		return
	}
	x, err := treeOf(s)
	if err != nil {
		t.Fail("form", "not well formed: %v: %s", err, clips(s))
		return
	}
	// rules of equal names may stand in the first of the fields
	names := map[string]bool{}
	dup := false
	for _, f := range fields {
		dup = dup || names[f.name] && len(f.events) > 0
		names[f.name] = true
	}
	if g, w := showTree(x), showTree(out); g != w && !dup {
		t.Fail("write", "the XML says something else: %s", differ(g, w))
		return
	}
	for n := 0; n < 2; n++ {
		if again, err := xfa.FormToXFA(want, false); err != nil || again != s {
			t.Fail("same", "writing again gives something else: %v %s", err, differ(again, s))
			return
		}
	}
	back, err := xfa.ParseXFAForm(s, false)
	if err != nil {
		t.Fail("roundtrip", "%v", err)
	} else if g := show(back); g != w {
		t.Fail("roundtrip", "the template written and read: %s", differ(g, w))
	}
	t.Step(4)
}

func runTemplates(c *core.Ctx) {
	one := func(t *core.T, f tfield, spellings []int) {
		tree := elem("template", nil, elem("subform", []string{"name", "form1"}, f.tree()))
		judgeTemplate(t, "", []tfield{f}, tree, spellings)
		t.State(showTree(tree))
	}
	// every combination of parts
	dims := []int{3, 3, 3, 3, 4, 4, 3, 3, 2}
	total := 1
	for _, d := range dims {
		total *= d
	}
	const chunk = 54
	c.ForEach("field", total/chunk, func(i int) string { return fmt.Sprint("parts ", i*chunk, "-") }, func(t *core.T, i int) {
		for k := i * chunk; k < (i+1)*chunk; k++ {
			n := k
			pick := func(d int) int {
				v := n % dims[d]
				n /= dims[d]
				return v
			}
			f := tfield{name: "f", descName: "desc", text: "[0-9]+"}
			switch pick(0) {
			case 1:
				f.label = "The label"
			case 2:
				f.caption = "The caption"
			}
			switch pick(1) {
			case 1:
				f.desc = "A description"
			case 2:
				f.desc, f.descName = "Another", "description"
			}
			switch pick(2) {
			case 1:
				f.value = "v"
			case 2:
				f.value, f.wrapped = "w", true
			}
			f.options = [][]string{nil, {"o"}, {"o", "p q", "o"}}[pick(3)]
			f.validate = []int{0, 1, 2, 5}[pick(4)]
			f.events = [][]tevent{nil, {{"change", "", "x = 1;", false}}, {{"initialize", "n", "a", false}, {"validate", "", "b", false}}, {{"click", "", "", true}, {"exit", "", "c", false}}}[pick(5)]
			f.access = []string{"", "readOnly", "hidden"}[pick(6)]
			f.required = []string{"", "1", "0"}[pick(7)]
			f.bind = []string{"", "none"}[pick(8)]
			one(t, f, []int{k % xmlSpellings, (k / 7) % xmlSpellings})
			if t.Failed() {
				return
			}
		}
		t.Outcome("field")
	})
	// every text in every place, every spelling
	texts := settingTexts
	places := []string{"name", "label", "caption", "desc", "value", "wrapped", "option", "options", "pattern", "script", "message", "event", "title", "x"}
	c.ForEach("texts", len(places)*len(texts), func(i int) string { return fmt.Sprint(places[i/len(texts)], " ", i%len(texts)) }, func(t *core.T, i int) {
		s := texts[i%len(texts)]
		f := tfield{name: "f", descName: "desc"}
		title := ""
		switch places[i/len(texts)] {
		case "name":
			f.name = s
			f.events = []tevent{{"change", "", "x", false}}
		case "label":
			f.label = s
		case "caption":
			f.caption = s
		case "desc":
			f.desc = s
		case "value":
			f.value = s
		case "wrapped":
			f.value, f.wrapped = s, true
		case "option":
			f.options = []string{s}
		case "options":
			f.options = []string{"a", s, "b", s}
		case "pattern":
			f.validate, f.text = 2, s
		case "script":
			f.validate, f.text = 3, s
		case "message":
			f.validate, f.text = 4, s
		case "event":
			f.events = []tevent{{"change", "", "x", false}, {"enter", "", s, false}}
		case "title":
			title = s
		case "x":
			f.box[0] = s
		}
		tree := elem("template", nil, f.tree())
		if title != "" {
			tree.Attr["title"] = title
		}
		judgeTemplate(t, title, []tfield{f}, tree, every(xmlSpellings))
		t.State(showTree(tree))
		t.Outcome(places[i/len(texts)])
	})
	// attributes
	names := []string{"", "a b", "a-b", "1st", "ü", "x.y[0]", "_", "A9"}
	req := []string{"", "1", "true", "YES", "0", "false"}
	acc := []string{"", "readOnly", "hidden", "open", "protected"}
	pages := []string{"", "1", "2", "17"}
	boxes := [][4]string{{}, {"1", "2", "3", "4"}, {"0.5", "-1.25", "", "100"}, {"10mm", "", "2in", "3.5pt"}, {"", "1e3", "", ""}}
	na := len(names) * len(req) * len(acc) * len(pages) * len(boxes)
	c.ForEach("attributes", na/40, func(i int) string { return fmt.Sprint("attributes ", i*40, "-") }, func(t *core.T, i int) {
		for k := i * 40; k < (i+1)*40 && !t.Failed(); k++ {
			n := k
			next := func(l int) int { v := n % l; n /= l; return v }
			f := tfield{descName: "desc", name: names[next(len(names))], required: req[next(len(req))], access: acc[next(len(acc))], page: pages[next(len(pages))], box: boxes[next(len(boxes))]}
			one(t, f, []int{k % xmlSpellings})
		}
		t.Outcome("attributes")
	})
	c.ForEach("types", len(fieldTypes), func(i int) string { return fieldTypes[i].name }, func(t *core.T, i int) {
		for v := 0; v < 4; v++ {
			f := tfield{name: "f", descName: "desc", typ: fieldTypes[i].name}
			if v&1 != 0 {
				f.options = []string{"a", "b"}
			}
			if v&2 != 0 {
				f.value = "a"
			}
			one(t, f, every(xmlSpellings))
		}
		t.Outcome(fieldTypes[i].name)
	})
	// every order of the parts
	perms := permutations(6)
	c.ForEach("orders", len(perms), func(i int) string { return fmt.Sprint(perms[i]) }, func(t *core.T, i int) {
		for v := 0; v < 3 && !t.Failed(); v++ {
			f := tfield{name: "f", descName: "desc", label: "L", desc: "D", value: "V", options: []string{"a", "b"}, validate: 5, text: "p", order: perms[i]}
			switch v {
			case 0:
				f.events = []tevent{{"change", "", "s", false}}
			case 1:
				f.label, f.caption = "", "C"
				f.wrapped = true
				f.events = []tevent{{"enter", "e", "", true}}
			case 2:
				f.options = nil
				f.events = []tevent{{"validate", "", "s1", false}, {"validate", "", "s1", false}}
			}
			one(t, f, []int{i % xmlSpellings})
		}
		t.Outcome("orders")
	})
	// every forest of subforms, fields and decoys
	shapes := allForests(core.Pick(c, 4, 5))
	type job struct {
		shape string
		kinds []int
	}
	var jobs []job
	for _, s := range shapes {
		_, all := parseForest(s)
		for k := 0; k < pow(3, len(all)); k++ {
			jobs = append(jobs, job{s, seqOf(k, 3, len(all))})
		}
	}
	c.ForEach("nesting", len(jobs), func(i int) string { return fmt.Sprint(jobs[i].shape, jobs[i].kinds) }, func(t *core.T, i int) {
		j := jobs[i]
		roots, all := parseForest(j.shape)
		kind := map[*mark]int{}
		for n, m := range all {
			kind[m] = j.kinds[n]
			if len(m.kids) > 0 && j.kinds[n] == 1 {
				return // fields have no fields
			}
		}
		for variant := 0; variant < 3; variant++ {
			var fields []tfield
			var build func(m *mark) *ref.XML
			build = func(m *mark) *ref.XML {
				var x *ref.XML
				switch kind[m] {
				case 0:
					x = elem("subform", []string{"name", fmt.Sprint("s", len(fields))})
				case 1:
					f := tfield{name: fmt.Sprint("f", len(fields)), descName: "desc", label: fmt.Sprint("L", len(fields))}
					switch variant {
					case 1:
						f.name = "same"
						f.value = fmt.Sprint(len(fields))
						f.events = []tevent{{"change", "", fmt.Sprint("s", len(fields)), false}}
					case 2: // parts only here and there
						f.label = ""
						switch len(fields) % 4 {
						case 0:
							f.value = "v"
						case 1:
							f.options = []string{"a"}
						case 2:
							f.events = []tevent{{"enter", "", "e", false}}
						}
					}
					fields = append(fields, f)
					return f.tree()
				default:
					x = elem([]string{"exclGroup", "draw", "area"}[variant], []string{"name", "field"},
						leafXML("desc", "no field"), elem("value", nil, leafXML("text", "no field")), elem("event", []string{"activity", "change"}, leafXML("script", "no")))
				}
				for _, k := range m.kids {
					x.Kids = append(x.Kids, build(k))
				}
				return x
			}
			tree := elem("template", nil)
			for _, m := range roots {
				tree.Kids = append(tree.Kids, build(m))
			}
			judgeTemplate(t, "", fields, tree, []int{(i + variant) % xmlSpellings})
			t.State(showTree(tree))
		}
		t.Outcome(fmt.Sprint("nesting", len(all)))
	})
	runFieldList(c)
	// rules in any order of their fields
	c.ForEach("rules", pow(4, 4), func(i int) string { return fmt.Sprint("rules ", seqOf(i, 4, 4)) }, func(t *core.T, i int) {
		want := &types.FormSchema{Metadata: types.FormMetadata{FormType: "XFA", TotalPages: 1}, Questions: []types.Question{}, Rules: []types.Rule{}}
		for k, n := range []string{"a", "b", "c"} {
			want.Questions = append(want.Questions, tfield{name: n}.question(k+1, &want.Rules))
		}
		count := map[string]int{}
		for k, s := range seqOf(i, 4, 4) {
			if s == 3 {
				continue
			}
			n := want.Questions[s].Name
			count[n]++
			want.Rules = append(want.Rules, types.Rule{ID: fmt.Sprint("r", k), Source: n, Type: types.RuleTypeValidate, Actions: []types.Action{{Type: types.ActionTypeExecute, Script: fmt.Sprint(n, count[n]), Expression: fmt.Sprint(n, count[n])}}})
		}
		s, err := xfa.FormToXFA(want, false)
		if err != nil {
			t.Fail("write", "%v", err)
			return
		}
		back, err := xfa.ParseXFAForm(s, false)
		if err != nil || len(back.Rules) != len(want.Rules) {
			t.Fail("rules", "%v: %d rules of %d: %s", err, len(back.Rules), len(want.Rules), clips(s))
			return
		}
		seen := map[string]int{}
		for _, r := range back.Rules {
			seen[r.Source]++
			if len(r.Actions) != 1 || r.Actions[0].Script != fmt.Sprint(r.Source, seen[r.Source]) || r.Type != types.RuleTypeValidate {
				t.Fail("rules", "rule %+v: %s", r, clips(s))
			}
		}
		for n, k := range count {
			if seen[n] != k {
				t.Fail("rules", "%d rules of %s: %s", seen[n], n, clips(s))
			}
		}
		t.Step(2)
		t.State(fmt.Sprint("rules", i))
	})
	// rules with several actions, of every kind
	kinds := []types.RuleType{types.RuleTypeCalculate, types.RuleTypeValidate, types.RuleTypeSetValue}
	c.ForEach("actions", pow(6, 4)*len(kinds), func(i int) string { return fmt.Sprint("actions ", seqOf(i/3, 6, 4), kinds[i%3]) }, func(t *core.T, i int) {
		rule := types.Rule{ID: "r", Source: "a", Type: kinds[i%3]}
		var want []string
		for k, s := range seqOf(i/3, 6, 4) {
			script, expr := fmt.Sprint("s", k, "<1"), fmt.Sprint("e", k, "&&x")
			switch s {
			case 1:
				rule.Actions, want = append(rule.Actions, types.Action{Type: types.ActionTypeExecute, Script: script}), append(want, script)
			case 2:
				rule.Actions, want = append(rule.Actions, types.Action{Type: types.ActionTypeCalculate, Target: "b", Expression: expr}), append(want, expr)
			case 3:
				rule.Actions, want = append(rule.Actions, types.Action{Type: types.ActionTypeExecute, Script: script, Expression: expr}), append(want, script)
			case 4:
				rule.Actions = append(rule.Actions, types.Action{Type: types.ActionTypeShow, Target: "b"})
			case 5:
				rule.Actions, want = append(rule.Actions, types.Action{Type: types.ActionTypeExecute, Script: "same"}), append(want, "same")
			}
		}
		s, err := xfa.FormToXFA(&types.FormSchema{Questions: []types.Question{{Name: "a", Type: types.ResponseTypeText}}, Rules: []types.Rule{rule}}, false)
		if err != nil {
			t.Fail("write", "%v", err)
			return
		}
		back, err := xfa.ParseXFAForm(s, false)
		if err != nil || len(back.Rules) != 1 || back.Rules[0].Source != "a" || back.Rules[0].Type != kinds[i%3] {
			t.Fail("actions", "%v: rules %+v: %s", err, back, clips(s))
			return
		}
		var got []string
		for _, a := range back.Rules[0].Actions {
			got = append(got, strings.FieldsFunc(a.Script, func(r rune) bool { return r == '\n' || r == ';' || r == ' ' })...)
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fail("actions", "scripts %q, want %q: %s", got, want, clips(s))
		}
		t.Step(2)
		t.State(fmt.Sprint("actions", i))
	})
	// the same schema through a document
	layouts := xfaLayouts()
	c.ForEach("document", len(layouts)*4, func(i int) string { return fmt.Sprint(layouts[i/4], " ", i%4) }, func(t *core.T, i int) {
		f := tfield{name: "f", descName: "desc", label: "The <label> & é", value: "v", options: []string{"a", "b"}, validate: 5, text: "x", typ: "choiceList", required: "1", page: "2"}
		g := tfield{name: "g", descName: "desc", desc: "d", events: []tevent{{"change", "", "if (a < b) c();", false}}}
		tree := elem("template", nil, elem("subform", nil, f.tree(), elem("subform", nil, g.tree())))
		data := spellXML(tree, 2*(i%4))
		ps := packetsOf(3, 0, i%3)
		for k := range ps {
			if ps[k].name == "template" {
				ps[k].data = data
			}
		}
		pdf, k := xfaDoc(ps, layouts[i/4], 0, 0)
		t.Attach("input.pdf", pdf)
		var pw []byte
		if k != nil {
			pw = []byte([]string{"user", "owner"}[i%2])
		}
		form, err := forms.Extract(pdf, pw, false)
		if err != nil {
			t.Fail("extract", "%v", err)
			return
		}
		want := &types.FormSchema{Metadata: types.FormMetadata{FormType: "XFA", TotalPages: 1}, Rules: []types.Rule{}}
		want.Questions = append(want.Questions, f.question(1, &want.Rules), g.question(2, &want.Rules))
		if got := jsonOf(form.Schema()); got != jsonOf(want) {
			t.Fail("schema", "the form reports something else: %s", differ(got, jsonOf(want)))
		}
		t.Step(1)
		t.State(fmt.Sprint("document", i))
		t.Outcome("document")
	})
}

// permutations gives the orders of n things.
func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}
