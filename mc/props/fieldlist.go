package props

import (
	"fmt"
	"strings"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/types"
	"verifmc/core"
	"verifmc/ref"
)

// runFieldList reads templates with parse.ParseXFAFields, which lists their fields with the
// attributes they have.
func runFieldList(c *core.Ctx) {
	kinds := map[string]string{"": "text", "text": "text", "textField": "text", "textarea": "textarea", "textEdit": "textarea", "radio": "radio", "radioButton": "radio",
		"checkbox": "checkbox", "checkButton": "checkbox", "select": "select", "choice": "select", "dropdown": "select", "numeric": "number", "decimal": "number", "integer": "number",
		"date": "date", "dateField": "date", "email": "email", "emailField": "email", "button": "button", "signature": "signature", "signatureField": "signature", "SELECT": "select", "barcode": "text"}
	required := map[string]bool{"": false, "1": true, "true": true, "TRUE": true, "required": true, "0": false, "false": false, "optional": false}
	type lfield struct{ nameAt, nameIn, kind, req, access, value, label, box, decoy string }
	id := func(s string) string {
		o := ""
		for _, r := range s {
			if r == ' ' || r == '-' {
				r = '_'
			}
			if strings.ContainsRune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_", r) {
				o += string(r)
			}
		}
		if o == "" {
			o = "field"
		}
		if o[0] <= '9' {
			o = "field_" + o
		}
		return o
	}
	text := func(s string) *ref.XML { return &ref.XML{Text: s} }
	build := func(f lfield, order int) *ref.XML {
		x := elem("field", nil)
		for _, a := range [][2]string{{"name", f.nameAt}, {"type", f.kind}, {"required", f.req}, {"access", f.access}} {
			if a[1] != "" {
				x.Attr[a[0]] = a[1]
			}
		}
		for _, k := range f.box {
			x.Attr[string(k)] = fmt.Sprintf("%dmm", k)
		}
		var parts []*ref.XML
		if f.nameIn != "" {
			parts = append(parts, elem("name", nil, text(f.nameIn)))
		}
		if f.value != "" {
			v := text(f.value)
			if order%2 == 0 {
				v = elem("text", nil, v)
			}
			parts = append(parts, elem("value", nil, v))
		}
		if f.label != "" {
			parts = append(parts, elem("label", nil, text(f.label)))
		}
		switch f.decoy {
		case "caption":
			parts = append(parts, elem("caption", nil, elem("value", nil, elem("text", nil, text("no"))), elem("name", nil, text("no")), elem("label", nil, text("no"))))
		case "items":
			parts = append(parts, elem("items", nil, elem("value", nil, text("no")), elem("text", nil, text("no"))))
		}
		if order/2%2 == 1 {
			for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
				parts[i], parts[j] = parts[j], parts[i]
			}
		}
		x.Kids = parts
		return x
	}
	want := func(f lfield, n int) types.FormField {
		name := f.nameAt
		if f.nameIn != "" {
			name = f.nameIn
		}
		w := types.FormField{ID: id(name), Name: name, FullName: name, Type: kinds[f.kind], Required: required[f.req], ReadOnly: f.access == "readOnly", Properties: map[string]interface{}{}}
		if name == "" {
			w.Name = fmt.Sprint("field_", n)
			w.ID, w.FullName = w.Name, w.Name
		}
		if f.value != "" {
			w.DefaultValue = f.value
		}
		if f.label != "" {
			w.Properties["label"] = f.label
		}
		for _, k := range f.box {
			w.Properties[string(k)] = fmt.Sprintf("%dmm", k)
		}
		return w
	}
	judge := func(t *core.T, fields []lfield, order int, spellings []int) {
		tree := elem("template", nil, elem("name", nil, text("no")), elem("value", nil, text("no")), elem("label", nil, text("no")))
		ws := []types.FormField{}
		for i, f := range fields {
			x := build(f, order+i)
			if order%3 == 1 {
				x = elem("subform", []string{"name", "no"}, elem("value", nil, text("no")), x)
			}
			tree.Kids = append(tree.Kids, x)
			ws = append(ws, want(f, i+1))
		}
		tree.Kids = append(tree.Kids, elem("name", nil, text("no")), elem("label", nil, text("no")), elem("value", nil, text("no")))
		w := jsonOf(ws)
		t.State(w)
		for _, how := range spellings {
			s := spellXML(tree, how)
			got, err := parse.ParseXFAFields(s, false)
			t.Step(1)
			if got == nil {
				got = []types.FormField{}
			}
			if g := jsonOf(got); err != nil || g != w {
				t.Attach("input.xml", []byte(s))
				t.Fail("fieldlist", "the template in spelling %d is listed as something else (%v): %s", how, err, differ(g, w))
				return
			}
		}
	}
	var all []lfield
	names := [][2]string{{"a", ""}, {"", "b b"}, {"", ""}, {"1-x", "c"}, {"&é", ""}}
	for i, n := range names {
		for k, box := range []string{"", "x", "hw", "hwxy"} {
			for m, v := range []string{"", "v", "<v&é>]]>"} {
				for j, l := range []string{"", "l", "\"l'"} {
					for d, decoy := range []string{"", "caption", "items"} {
						all = append(all, lfield{nameAt: n[0], nameIn: n[1], box: box, value: v, label: l, decoy: decoy, access: []string{"", "readOnly", "open"}[(i+k+m+j+d)%3]})
					}
				}
			}
		}
	}
	c.ForEach("field list", len(all), func(i int) string { return fmt.Sprintf("%+v", all[i]) }, func(t *core.T, i int) {
		for order := 0; order < 6; order++ {
			judge(t, []lfield{all[i]}, order, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10})
		}
	})
	var attrs []lfield
	for _, k := range sortedKinds(kinds) {
		for r := range required {
			for _, a := range []string{"", "readOnly", "open"} {
				attrs = append(attrs, lfield{nameAt: "a", kind: k, req: r, access: a})
			}
		}
	}
	c.ForEach("field list attributes", len(kinds), func(i int) string { return fmt.Sprint(sortedKinds(kinds)[i]) }, func(t *core.T, i int) {
		for _, f := range attrs {
			if f.kind == sortedKinds(kinds)[i] {
				judge(t, []lfield{f, {nameAt: "z"}}, i, []int{i % xmlSpellings})
			}
		}
	})
	// lists: what one field has is not left to the next
	few := []lfield{{}, {nameAt: "a"}, {nameIn: "b"}, {nameAt: "c", req: "1", value: "v", label: "l", box: "x", access: "readOnly", kind: "date"}, {nameAt: "d", value: "w", decoy: "caption"}, {nameAt: "e", label: "m"}, {req: "true"}}
	n := core.Pick(c, 3, 4)
	total := 0
	for d := 0; d <= n; d++ {
		total += pow(len(few), d)
	}
	c.ForEach("field lists", total, func(i int) string { return fmt.Sprint("lists ", i) }, func(t *core.T, i int) {
		d, k := 0, i
		for k >= pow(len(few), d) {
			k -= pow(len(few), d)
			d++
		}
		var fs []lfield
		for _, x := range seqOf(k, len(few), d) {
			fs = append(fs, few[x])
		}
		judge(t, fs, i, []int{i % xmlSpellings, (i + 5) % xmlSpellings})
	})
}

func sortedKinds(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := range out[:i] {
			if out[i] < out[j] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}
