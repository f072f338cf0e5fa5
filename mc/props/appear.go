package props

import (
	"fmt"
	"strings"

	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"

	"verifmc/core"
	"verifmc/gen"
)

// runFormAppearances reads the appearance in force of fields: a stream, or the one of the
// field's state, in every storage and layout.
func runFormAppearances(c *core.Ctx) {
	type ap struct {
		states []string // names of the states; none: one stream
		as     string   // the state in force
	}
	aps := []ap{
		{}, {nil, "Off"},
		{[]string{"Off"}, "Off"}, {[]string{"On", "Off"}, "On"}, {[]string{"On", "Off"}, "Off"},
		{[]string{"Off", "On"}, "On"}, {[]string{"O", "On"}, "O"}, {[]string{"O", "On"}, "On"}, {[]string{"N", "D"}, "N"}, {[]string{"N", "D"}, "D"},
		{[]string{"a#20b", "a"}, "a#20b"}, {[]string{"a#20b", "a"}, "a"}, {[]string{"Y#65s", "No"}, "Yes"}, {[]string{"Yes", "No"}, "Y#65s"},
		{[]string{"On"}, "Off"}, {[]string{"On"}, ""}, // nothing in force
	}
	contents := []string{"0 0 m", "", "stream (endstream) endobj", "/Tx BMC\nq\nBT (endstream\n) Tj ET\nQ\nEMC\n", strings.Repeat("\x00\xff\r\n", 90)}
	filters := []string{"", "flate", "hex", "a85+flate"}
	lays := imgLayouts()
	const places = 8 // appearance dictionary, its N and the state indirect or not
	n := len(aps) * len(lays) * places
	c.ForEach("appearances", n, func(i int) string {
		return fmt.Sprintf("%d-%s-%d", i%len(aps), lays[i/len(aps)%len(lays)], i/len(aps)/len(lays))
	}, func(t *core.T, i int) {
		a, lay, place := aps[i%len(aps)], lays[i/len(aps)%len(lays)], i/len(aps)/len(lays)
		for ci, content := range contents {
			for fi, filter := range filters {
				if t.Failed() {
					return
				}
				var objs []gen.Obj
				stream := func(num int, data string) {
					o := gen.Obj{Num: num, Stream: true, Body: "<</Type/XObject/Subtype/Form/BBox[0 0 9 9]", Data: data}
					switch filter {
					case "flate":
						o.Body, o.Data = o.Body+"/Filter/FlateDecode", string(gen.Flate([]byte(data)))
					case "hex":
						o.Body, o.Data = o.Body+"/Filter[/ASCIIHexDecode]", string(gen.Hex([]byte(data)))
					case "a85+flate":
						o.Body, o.Data = o.Body+"/Filter[/ASCII85Decode/FlateDecode]", string(gen.A85(gen.Flate([]byte(data))))
					}
					o.Body += ">>"
					objs = append(objs, o)
				}
				normal := "50 0 R"
				if a.states != nil {
					normal = "<<"
					for k, s := range a.states {
						stream(50+k, fmt.Sprintf("%s%d", content, k))
						normal += fmt.Sprintf("/%s %d 0 R", s, 50+k)
					}
					normal += ">>"
					if place&1 == 1 {
						objs = append(objs, gen.Obj{Num: 55, Body: normal})
						normal = "55 0 R"
					}
				} else {
					stream(50, content+"0")
				}
				stream(60, "down")
				dict := fmt.Sprintf("<</D 60 0 R/R<</N 60 0 R/On 60 0 R>>/N %s>>", normal)
				if place&2 == 2 {
					objs = append(objs, gen.Obj{Num: 56, Body: dict})
					dict = "56 0 R"
				}
				state := ""
				if a.as != "" {
					state = "/AS/" + a.as
					if place&4 == 4 {
						objs = append(objs, gen.Obj{Num: 57, Body: "/" + a.as})
						state = "/AS 57 0 R"
					}
				}
				objs = append(objs,
					gen.Obj{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R/AcroForm<</Fields[40 0 R 41 0 R]>>>>"},
					gen.Obj{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1>>"},
					gen.Obj{Num: 3, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 99 99]/Annots[40 0 R 41 0 R]>>"},
					gen.Obj{Num: 40, Body: fmt.Sprintf("<</Type/Annot/Subtype/Widget/T(with /AP<</N 60 0 R>>)/FT/Btn/MK<</AP<</N 60 0 R>>/AS/On>>/Rect[0 0 9 9]%s/AP %s>>", state, dict)},
					gen.Obj{Num: 41, Body: "<</Type/Annot/Subtype/Widget/T(without /AP<</N 60 0 R>>)/FT/Tx/MK<</AP<</N 60 0 R>>>>/Rect[0 0 9 9]>>"})
				pdf, key := imgDoc(objs, lay)
				t.Attach("form.pdf", pdf)
				var enc *types.PDFEncryption
				if key != nil {
					var err error
					if _, enc, err = encrypt.DecryptPDF(pdf, key, false); err != nil {
						t.Fail("appearance", "decrypt: %v", err)
						return
					}
				}
				form, err := acroform.ExtractAcroForm(pdf, key, false)
				if err != nil || len(form.Fields) != 2 {
					t.Fail("appearance", "the form is read as %v: %v", form, err)
					return
				}
				t.Step(2)
				t.State(fmt.Sprint(i, ci, fi))
				want, ok := content+"0", a.states == nil
				for k, s := range a.states {
					if plainName(s) == plainName(a.as) {
						want, ok = fmt.Sprintf("%s%d", content, k), true
					}
				}
				got, err := acroform.GetFieldAppearance(form.Fields[0], pdf, enc, false)
				if ok && (err != nil || string(got) != want) {
					t.Fail("appearance", "state %q of %v, content %d %s: %q %v, want %q", a.as, a.states, ci, filter, got, err, want)
				} else if !ok && err == nil {
					t.Fail("appearance", "state %q of %v has the appearance %q", a.as, a.states, got)
				}
				if got, err := acroform.GetFieldAppearance(form.Fields[1], pdf, enc, false); err == nil {
					t.Fail("none", "a field without appearance has %q", got)
				}
				t.Outcome(fmt.Sprintf("%v %s", ok, got))
			}
		}
	})
}

// plainName undoes the escapes used above.
func plainName(s string) string {
	return strings.NewReplacer("#20", " ", "#65", "e").Replace(s)
}
