package props

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
)

func init() {
	core.Register(&core.Prop{ID: "P12", Level: "model_checking", Run: runInfo,
		Rule: "A write case is one document with metadata or an outline set through the public API (every text over the alphabet up to the length, every subset of fields, every ordered forest of bookmarks with every assignment of targets, every sequence of setting calls); the output is read by a strict reader and by the library. A read case is one generated document whose Info dictionary, outline or annotations are spelled in one of the legal ways, compared with the values it was made from. Non-trivial: at least one text, bookmark or annotation is written or read.",
		Assumptions: []string{
			"texts contain no U+001B (language escapes); bookmark colours and styles, XMP metadata, destinations resolved through name trees and annotation attributes other than those listed are outside",
		},
	})
}

// --- text strings ------------------------------------------------------------

var pdfDoc = func() (tab [256]rune) {
	for i := range tab {
		switch {
		case i == 9 || i == 10 || i == 13 || i >= 0x20 && i <= 0x7e || i > 0xa0 && i != 0xad:
			tab[i] = rune(i)
		default:
			tab[i] = -1
		}
	}
	for i, r := range []rune("˘ˇˆ˙˝˛˚˜") {
		tab[0x18+i] = r
	}
	for i, r := range []rune("•†‡…—–ƒ⁄‹›−‰„“”‘’‚™ﬁﬂŁŒŠŸŽıłœšž") {
		tab[0x80+i] = r
	}
	tab[0xa0] = '€'
	return
}()

// textOf decodes a text string strictly.
func textOf(o ref.Obj) (string, error) {
	s, ok := o.(ref.Str)
	if !ok {
		return "", fmt.Errorf("not a string: %s", ref.Canon(o))
	}
	b := []byte(s)
	if len(b) >= 2 && b[0] == 0xfe && b[1] == 0xff {
		if len(b)%2 != 0 {
			return "", fmt.Errorf("UTF-16 of odd length")
		}
		var out []rune
		for i := 2; i < len(b); i += 2 {
			u := rune(binary.BigEndian.Uint16(b[i:]))
			if utf16.IsSurrogate(u) {
				if i+3 >= len(b) {
					return "", fmt.Errorf("lone surrogate")
				}
				r := utf16.DecodeRune(u, rune(binary.BigEndian.Uint16(b[i+2:])))
				if r == 0xfffd {
					return "", fmt.Errorf("lone surrogate")
				}
				u = r
				i += 2
			}
			out = append(out, u)
		}
		return string(out), nil
	}
	if strings.HasPrefix(string(b), "\xef\xbb\xbf") {
		return string(b[3:]), nil
	}
	var out []rune
	for _, c := range b {
		if pdfDoc[c] < 0 {
			return "", fmt.Errorf("byte %#x is undefined in PDFDocEncoding", c)
		}
		out = append(out, pdfDoc[c])
	}
	return string(out), nil
}

func litStr(b []byte) string {
	var sb strings.Builder
	sb.WriteByte('(')
	for _, c := range b {
		switch {
		case c == '(' || c == ')' || c == '\\':
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case c == '\r':
			sb.WriteString("\\r")
		default:
			sb.WriteByte(c)
		}
	}
	return sb.String() + ")"
}

func octStr(b []byte) string {
	s := "("
	for _, c := range b {
		s += fmt.Sprintf("\\%03o", c)
	}
	return s + ")"
}

// escStr is gen.EscStr.
func escStr(b []byte, shift int) string { return gen.EscStr(b, shift) }

func utf16be(s string) []byte {
	b := []byte{0xfe, 0xff}
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return b
}

// spell lists the ways to write a text string.
func spell(s string) map[string]string {
	out := map[string]string{}
	add := func(n string, b []byte) {
		out[n+"-lit"] = litStr(b)
		out[n+"-oct"] = octStr(b)
		for i := 0; i < 6; i += 1 + len(b)/64 {
			out[fmt.Sprintf("%s-esc%d", n, i)] = escStr(b, i)
		}
		out[n+"-hex"] = fmt.Sprintf("<%x>", b)
		out[n+"-hexws"] = "< " + strings.ReplaceAll(fmt.Sprintf("% X", b), " ", "\n") + " >"
	}
	add("u16", utf16be(s))
	add("u8", append([]byte("\xef\xbb\xbf"), s...))
	var doc []byte
	for _, r := range s {
		i := 0
		for i < 256 && pdfDoc[i] != r {
			i++
		}
		if i == 256 {
			return out
		}
		doc = append(doc, byte(i))
	}
	if p := string(doc); !strings.HasPrefix(p, "\xfe\xff") && !strings.HasPrefix(p, "\xef\xbb\xbf") {
		add("doc", doc)
	}
	return out
}

func spellNames(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// --- outlines ----------------------------------------------------------------

// forests lists the ordered forests with exactly n nodes, as balanced parentheses.
func forests(n int) []string {
	if n == 0 {
		return []string{""}
	}
	var out []string
	for a := 0; a < n; a++ {
		for _, x := range forests(a) {
			for _, y := range forests(n - 1 - a) {
				out = append(out, "("+x+")"+y)
			}
		}
	}
	return out
}

type mark struct {
	title  string
	target string // p<page> (page number and destination), d<destination text>, u<uri>, - none
	kids   []*mark
}

// parseForest turns parentheses into nodes, in preorder.
func parseForest(s string) (roots []*mark, all []*mark) {
	var stack []*mark
	for _, c := range s {
		if c == ')' {
			stack = stack[:len(stack)-1]
			continue
		}
		m := &mark{title: fmt.Sprintf("item %d", len(all)+1)}
		all = append(all, m)
		if len(stack) == 0 {
			roots = append(roots, m)
		} else {
			top := stack[len(stack)-1]
			top.kids = append(top.kids, m)
		}
		stack = append(stack, m)
	}
	return
}

func showMarks(ms []*mark) string {
	s := ""
	for _, m := range ms {
		s += fmt.Sprintf("{%q %q%s}", m.title, m.target, showMarks(m.kids))
	}
	return s
}

func bookmarks(ms []*mark) []types.Bookmark {
	var out []types.Bookmark
	for _, m := range ms {
		b := types.Bookmark{Title: m.title, Children: bookmarks(m.kids)}
		switch m.target[0] {
		case 'p':
			fmt.Sscan(m.target[1:], &b.PageNumber)
		case 'd':
			b.Destination = m.target[1:]
		case 'u':
			b.URI = m.target[1:]
		}
		out = append(out, b)
	}
	return out
}

func showBookmarks(bs []types.Bookmark) string {
	s := ""
	for _, b := range bs {
		target := "-"
		switch {
		case b.URI != "" && b.Destination == "" && b.PageNumber == 0:
			target = "u" + b.URI
		case b.PageNumber != 0 && b.URI == "" && strings.HasPrefix(b.Destination, "["):
			target = fmt.Sprintf("p%d", b.PageNumber)
		case b.Destination != "" && b.URI == "":
			target = "d" + b.Destination
		case b.Destination+b.URI != "" || b.PageNumber != 0:
			target = fmt.Sprintf("?%d %q %q", b.PageNumber, b.Destination, b.URI)
		}
		s += fmt.Sprintf("{%q %q%s}", b.Title, target, showBookmarks(b.Children))
	}
	return s
}

// strictOutline reads the outline of a file, checking every link and count.
func strictOutline(f *ref.File, pages map[int]int) ([]*mark, error) {
	cat := f.DictOf(f.Trailer["Root"])
	if cat["Outlines"] == nil {
		return nil, nil
	}
	root, ok := cat["Outlines"].(ref.Ref)
	if !ok {
		return nil, fmt.Errorf("/Outlines is not a reference")
	}
	seen := map[int]bool{}
	var list func(parent ref.Ref, d ref.Dict) ([]*mark, int, error)
	list = func(parent ref.Ref, d ref.Dict) ([]*mark, int, error) {
		var out []*mark
		visible := 0
		var prev ref.Obj
		next := d["First"]
		for next != nil {
			r, ok := next.(ref.Ref)
			if !ok || seen[r.N] {
				return nil, 0, fmt.Errorf("bad item %s", ref.Canon(next))
			}
			seen[r.N] = true
			it := f.DictOf(r)
			if it == nil {
				return nil, 0, fmt.Errorf("item %d is not a dictionary", r.N)
			}
			if it["Parent"] != parent || it["Prev"] != prev {
				return nil, 0, fmt.Errorf("item %d: parent %v prev %v, expected %v %v", r.N, it["Parent"], it["Prev"], parent, prev)
			}
			title, err := textOf(f.Resolve(it["Title"]))
			if err != nil {
				return nil, 0, err
			}
			m := &mark{title: title, target: "-"}
			if it["Dest"] != nil && it["A"] != nil {
				return nil, 0, fmt.Errorf("item %d has both a destination and an action", r.N)
			}
			if it["Dest"] != nil {
				switch v := f.Resolve(it["Dest"]).(type) {
				case ref.Arr:
					pr, ok := v[0].(ref.Ref)
					if !ok || pages[pr.N] == 0 || len(v) < 2 {
						return nil, 0, fmt.Errorf("item %d: destination %s", r.N, ref.Canon(v))
					}
					m.target = fmt.Sprintf("p%d", pages[pr.N])
				case ref.Str:
					m.target = "d" + string(v)
				case ref.Name:
					m.target = "d/" + string(v)
				default:
					return nil, 0, fmt.Errorf("item %d: destination %s", r.N, ref.Canon(v))
				}
			}
			if it["A"] != nil {
				a := f.DictOf(it["A"])
				u, ok := a["URI"].(ref.Str)
				if a["S"] != ref.Name("URI") || !ok {
					return nil, 0, fmt.Errorf("item %d: action %s", r.N, ref.Canon(a))
				}
				m.target = "u" + string(u)
			}
			kids, n, err := list(r, it)
			if err != nil {
				return nil, 0, err
			}
			m.kids = kids
			out = append(out, m)
			visible += 1 + n
			prev, next = r, it["Next"]
		}
		if d["Last"] != prev {
			return nil, 0, fmt.Errorf("/Last of %v is %v, expected %v", parent, d["Last"], prev)
		}
		if n, ok := ref.Int(f.Resolve(d["Count"])); len(out) > 0 && (!ok || n != visible) || len(out) == 0 && d["Count"] != nil && n != 0 {
			return nil, 0, fmt.Errorf("/Count of %v is %v, expected %d", parent, d["Count"], visible)
		}
		return out, visible, nil
	}
	d := f.DictOf(root)
	if d == nil {
		return nil, fmt.Errorf("no outline dictionary")
	}
	ms, _, err := list(root, d)
	return ms, err
}

// --- writing -----------------------------------------------------------------

var infoModes = []string{"table", "xref", "objstm"}

func infoBuilder(mode string, pages int) *write.SimplePDFBuilder {
	b := write.NewSimplePDFBuilder()
	if mode != "table" {
		b.Writer().UseXRefStream(true)
	}
	if mode == "objstm" {
		b.Writer().UseObjectStream(true)
	}
	for i := 0; i < pages; i++ {
		pb := b.AddPage(write.PageSizeA4)
		pb.Content().Rectangle(1, 2, 3, 4)
		b.FinalizePage(pb)
	}
	return b
}

// infoState is what a document says about itself.
type infoState struct {
	fields map[string]string // Info entries
	marks  string
}

func standardFields(m *types.DocumentMetadata) map[string]string {
	out := map[string]string{}
	for k, v := range m.Custom {
		out[k] = v
	}
	for k, v := range map[string]string{"Title": m.Title, "Author": m.Author, "Subject": m.Subject, "Keywords": m.Keywords, "Creator": m.Creator, "Producer": m.Producer, "CreationDate": m.CreationDate, "ModDate": m.ModDate} {
		if v != "" {
			out[k] = v
		}
	}
	return out
}

func showFields(m map[string]string) string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := ""
	for _, k := range keys {
		s += fmt.Sprintf("%q=%q ", k, m[k])
	}
	return s
}

// checkInfo compares the document's Info entries and outline with the model. anyDate: the
// modification date is not the caller's.
func checkInfo(t *core.T, tag string, b []byte, want infoState, pages int, anyDate bool) {
	t.Attach("document.pdf", b)
	t.State(showFields(want.fields) + want.marks)
	f, err := ref.Open(b)
	if err != nil {
		t.Fail(tag+":strict", "%v", err)
		return
	}
	if err := f.CheckAll(); err != nil {
		t.Fail(tag+":strict", "%v", err)
		return
	}
	ps, err := f.Pages()
	if err != nil || len(ps) != pages {
		t.Fail(tag+":pages", "%d pages, %v", len(ps), err)
		return
	}
	pageNum := map[int]int{}
	for i, p := range ps {
		pageNum[p.Num] = i + 1
	}
	got := map[string]string{}
	if f.Trailer["Info"] != nil {
		for k, v := range f.DictOf(f.Trailer["Info"]) {
			s, err := textOf(f.Resolve(v))
			if err != nil {
				t.Fail(tag+":text", "/%s: %v", k, err)
				return
			}
			got[string(k)] = s
		}
	}
	cut := func(m map[string]string) map[string]string {
		if !anyDate {
			return m
		}
		out := map[string]string{}
		for k, v := range m {
			if k != "ModDate" {
				out[k] = v
			}
		}
		return out
	}
	if g, w := showFields(cut(got)), showFields(cut(want.fields)); g != w {
		t.Fail(tag+":info", "information dictionary %s want %s", g, w)
	}
	ms, err := strictOutline(f, pageNum)
	if err != nil {
		t.Fail(tag+":outline", "%v", err)
	} else if g := showMarks(ms); g != want.marks {
		t.Fail(tag+":outline", "outline %s want %s", g, want.marks)
	}
	t.Step(2)

	c, err := extract.ExtractContent(b, nil, false)
	if err != nil || c.Metadata == nil {
		t.Fail(tag+":extract", "%v", err)
		return
	}
	t.Step(1)
	if g, w := showFields(cut(standardFields(c.Metadata))), showFields(cut(want.fields)); g != w {
		t.Fail(tag+":metadata", "extracted metadata %s want %s", g, w)
	}
	if c.Metadata.PageCount != pages || c.Metadata.Encrypted {
		t.Fail(tag+":metadata", "page count %d, encrypted %v", c.Metadata.PageCount, c.Metadata.Encrypted)
	}
	if g := showBookmarks(c.Bookmarks); g != want.marks {
		t.Fail(tag+":bookmarks", "extracted bookmarks %s want %s", g, want.marks)
	}
	t.Outcome(showFields(cut(got)) + showBookmarks(c.Bookmarks))
}

func runInfo(c *core.Ctx) {
	runInfoWrite(c)
	runInfoRead(c)
	runAnnots(c)
}

var infoDates = []struct{ in, out string }{
	{"2024-01-15T10:30:00Z", "D:20240115103000+00'00"},
	{"2024-01-15T10:30:00+05:30", "D:20240115103000+05'30"},
	{"2024-12-31T23:59:59-00:30", "D:20241231235959-00'30"},
	{"1999-02-03T04:05:06-11:00", "D:19990203040506-11'00"},
	{"2024-02-29T00:00:00.25+14:00", "D:20240229000000+14'00"},
	{"2024-01-15T10:30:00", "D:20240115103000+00'00"},
	{"2024-01-15 10:30:07", "D:20240115103007+00'00"},
	{"2024-01-15", "D:20240115000000+00'00"},
	{"D:2024", "D:2024"},
	{"D:20240115103000Z", "D:20240115103000Z"},
	{"D:20240115103000+05'30'", "D:20240115103000+05'30'"},
	{"D:20240115103000-08'00", "D:20240115103000-08'00"},
}

func runInfoWrite(c *core.Ctx) {
	alphabet := []string{"a", " ", "(", ")", "\\", "\n", "\r", "\t", "/", "#", "é", "ÿ", "þ", "€", "Ж", "中", "😀", "\x1c", "\x7f", "˘", "\ufeff", "ï", "»", "¿", "0", "R", ">", "<", "%"}
	n := core.Pick(c, 2, 3)
	var texts []string
	for level := []string{""}; n > 0; n-- {
		var nextLevel []string
		for _, p := range level {
			for _, a := range alphabet {
				nextLevel = append(nextLevel, p+a)
			}
		}
		texts = append(texts, nextLevel...)
		level = nextLevel
	}
	texts = append(texts, "1 0 R", "<< 1 >>", "endobj", "end)stream(", "\\)\\(", "()()", "((", "D:2024", "/Name", "þÿab", "ï»¿x", "Ünïcödé 中文 😀😀", strings.Repeat("long ", 500), strings.Repeat("é(", 300))
	c.ForEach("texts", len(texts), func(i int) string { return fmt.Sprintf("%.40q-%d", texts[i], i) }, func(t *core.T, i int) {
		s := texts[i]
		for _, mode := range infoModes {
			if mode == "xref" && i%7 != 0 {
				continue
			}
			b := infoBuilder(mode, 1)
			b.Writer().SetMetadata(&types.DocumentMetadata{Title: s, Keywords: s + s, ModDate: "D:2024", Custom: map[string]string{"My Key": s}})
			if err := b.SetBookmarks([]types.Bookmark{{Title: s, PageNumber: 1, Children: []types.Bookmark{{Title: s + "x"}}}}); err != nil {
				t.Fail("set", "%v", err)
				return
			}
			out, err := b.Bytes()
			if err != nil {
				t.Fail("write", "%v", err)
				return
			}
			m := &mark{title: s, target: "p1", kids: []*mark{{title: s + "x", target: "-"}}}
			checkInfo(t, mode, out, infoState{map[string]string{"Title": s, "Keywords": s + s, "My Key": s, "ModDate": "D:2024"}, showMarks([]*mark{m})}, 1, false)
		}
	})

	std := []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate"}
	customs := []map[string]string{nil, {"Custom": "v (1)"}, {"A B#C/D(e)": "é", "x": ""}, {"Ключ": "1 0 R", "/Lead": "2", "": "no"}}
	apis := []string{"SetMetadata", "SetMetadataFields", "NewMetadataFromFields"}
	c.ForEach("fields", 256*len(customs)*len(apis), func(i int) string {
		return fmt.Sprintf("%s-%02x-%d", apis[i/256/len(customs)], i%256, i/256%len(customs))
	}, func(t *core.T, i int) {
		mask, cu, api := i%256, customs[i/256%len(customs)], apis[i/256/len(customs)]
		want := map[string]string{}
		fields := map[string]string{}
		for k, f := range std {
			if mask>>k&1 == 0 {
				continue
			}
			v := fmt.Sprintf("value %d of %s", k, f)
			w := v
			if k >= 6 {
				d := infoDates[(mask+k)%len(infoDates)]
				v, w = d.in, d.out
			}
			key := f
			switch mask % 3 {
			case 1:
				key = strings.ToLower(f)
			case 2:
				key = strings.ToUpper(f)
				if k >= 6 {
					key = []string{"creation_date", "Mod_Date"}[k-6]
				}
			}
			fields[key], want[f] = v, w
		}
		for k, v := range cu {
			fields[k] = v
			if k != "" && v != "" {
				want[strings.TrimPrefix(k, "/")] = v
			}
		}
		b := infoBuilder(infoModes[i%3], 1)
		switch api {
		case "SetMetadataFields":
			b.Writer().SetMetadataFields(fields)
		case "NewMetadataFromFields":
			b.Writer().SetMetadata(write.NewMetadataFromFields(fields))
		default:
			m := &types.DocumentMetadata{Custom: cu}
			for k, p := range []*string{&m.Title, &m.Author, &m.Subject, &m.Keywords, &m.Creator, &m.Producer, &m.CreationDate, &m.ModDate} {
				if mask>>k&1 == 1 {
					*p = fmt.Sprintf("value %d of %s", k, std[k])
					if k >= 6 {
						*p = infoDates[(mask+k)%len(infoDates)].in
					}
				}
			}
			b.Writer().SetMetadata(m)
		}
		out, err := b.Bytes()
		if err != nil {
			t.Fail("write", "%v", err)
			return
		}
		checkInfo(t, "fields", out, infoState{want, ""}, 1, mask>>7&1 == 0)
	})

	c.ForEach("dates", len(infoDates)*len(infoDates), func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
		x, y := infoDates[i%len(infoDates)], infoDates[i/len(infoDates)]
		b := infoBuilder("table", 1)
		b.Writer().SetMetadata(&types.DocumentMetadata{CreationDate: x.in, ModDate: y.in})
		out, err := b.Bytes()
		if err != nil {
			t.Fail("write", "%v", err)
			return
		}
		checkInfo(t, "dates", out, infoState{map[string]string{"CreationDate": x.out, "ModDate": y.out}, ""}, 1, false)
	})

	// every sequence of setting calls; the last one of each kind counts
	type sop struct {
		name string
		do   func(b *write.SimplePDFBuilder, s *infoState) error
	}
	set := func(name string, fields map[string]string) sop {
		return sop{name, func(b *write.SimplePDFBuilder, s *infoState) error {
			m := map[string]string{"ModDate": "D:2020"}
			for k, v := range fields {
				m[k] = v
			}
			b.Writer().SetMetadataFields(m)
			s.fields = m
			return nil
		}}
	}
	outline := func(name, forest string, targets ...string) sop {
		return sop{name, func(b *write.SimplePDFBuilder, s *infoState) error {
			roots, all := parseForest(forest)
			for i, m := range all {
				m.target = targets[i]
				m.title = name + m.title
			}
			s.marks = showMarks(roots)
			return b.SetBookmarks(bookmarks(roots))
		}}
	}
	ops := []sop{
		set("A", map[string]string{"Title": "first", "Author": "one"}),
		set("B", map[string]string{"Title": "second (2)", "Key": "двa"}),
		set("C", nil),
		outline("x", "(())()", "p1", "uhttp://x/(y)", "-"),
		outline("y", "()", "p2"),
		{"n", func(b *write.SimplePDFBuilder, s *infoState) error { b.Writer().SetMetadata(nil); return nil }},
		{"w", func(b *write.SimplePDFBuilder, s *infoState) error { _, err := b.Bytes(); return err }},
		{"p", func(b *write.SimplePDFBuilder, s *infoState) error {
			b.FinalizePage(b.AddPage(write.PageSizeLetter))
			return nil
		}},
	}
	depth := core.Pick(c, 3, 4)
	total := 1
	for k := 0; k < depth; k++ {
		total *= len(ops)
	}
	c.ForEach("calls", total, func(i int) string {
		s := ""
		for k := 0; k < depth; k++ {
			s += ops[i%len(ops)].name
			i /= len(ops)
		}
		return s
	}, func(t *core.T, i int) {
		for _, mode := range []string{"table", "objstm"} {
			b := infoBuilder(mode, 2)
			s := infoState{map[string]string{}, ""}
			pages := 2
			for k, j := 0, i; k < depth; k, j = k+1, j/len(ops) {
				o := ops[j%len(ops)]
				if o.name == "p" {
					pages++
				}
				if err := o.do(b, &s); err != nil {
					t.Fail("call", "%s: %v", o.name, err)
					return
				}
				if mode == "objstm" && o.name == "w" {
					return // written once: the document is complete
				}
			}
			out, err := b.Bytes()
			if err != nil {
				t.Fail("write", "%v", err)
				return
			}
			checkInfo(t, mode, out, s, pages, false)
		}
	})

	// every ordered forest with every assignment of targets
	targets := []string{"p1", "p2", "-", "uhttps://example.org/a(b)?c=\\d", "dchapter (1)", "d/Chap"}
	type fcase struct {
		forest string
		tg     []string
	}
	var cases []fcase
	for n := 1; n <= core.Pick(c, 4, 5); n++ {
		k := len(targets)
		if n > 3 {
			k = 3
		}
		for _, f := range forests(n) {
			count := 1
			for j := 0; j < n; j++ {
				count *= k
			}
			for a := 0; a < count; a++ {
				var tg []string
				for j, x := 0, a; j < n; j, x = j+1, x/k {
					tg = append(tg, targets[x%k])
				}
				cases = append(cases, fcase{f, tg})
			}
		}
	}
	c.ForEach("forests", len(cases), func(i int) string { return cases[i].forest + strings.Join(cases[i].tg, ",") }, func(t *core.T, i int) {
		roots, all := parseForest(cases[i].forest)
		for j, m := range all {
			m.target = cases[i].tg[j]
		}
		mode := infoModes[i%3]
		b := infoBuilder(mode, 2)
		if err := b.SetBookmarks(bookmarks(roots)); err != nil {
			t.Fail("set", "%v", err)
			return
		}
		out, err := b.Bytes()
		if err != nil {
			t.Fail("write", "%v", err)
			return
		}
		checkInfo(t, mode, out, infoState{map[string]string{}, showMarks(roots)}, 2, false)
	})
}

// --- reading -----------------------------------------------------------------

// infoDoc builds a document of two pages (objects 3 and 4) with more objects and entries of
// the catalog and of the first page.
func infoDoc(layout, catalog, page string, more []gen.Obj) []byte {
	objs := append([]gen.Obj{
		{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R" + catalog + ">>"},
		{Num: 2, Body: "<</Type/Pages/Kids[3 0 R 7 0 R]/Count 2/MediaBox[0 0 100 100]>>"},
		{Num: 7, Body: "<</Type/Pages/Parent 2 0 R/Kids[4 0 R]/Count 1>>"},
		{Num: 3, Body: "<</Type/Page/Parent 2 0 R" + page + ">>"},
		{Num: 4, Body: "<</Type/Page/Parent 7 0 R>>"},
	}, more...)
	tr := "/Root 1 0 R"
	for _, o := range more {
		if o.Num == 8 {
			tr += "/Info 8 0 R"
		}
	}
	if layout == "packed" {
		for i := range objs {
			objs[i].Compressed = true
		}
		b, _ := gen.Build("1.7", []gen.Rev{{XRefStream: true, Objs: objs, Trailer: tr, StmBase: 400, Opt: gen.Opt{PerStm: 3, StmFilter: "Flate"}}})
		return b
	}
	b, _ := gen.Build("1.7", []gen.Rev{{Objs: objs, Trailer: tr}})
	return b
}

func runInfoRead(c *core.Ctx) {
	var texts []string
	for i := range pdfDoc {
		if pdfDoc[i] >= 0 {
			texts = append(texts, string(pdfDoc[i]), string(pdfDoc[i])+"1")
		}
	}
	two := []rune{'a', 'é', '€', 'Ж', '中', '😀', '\n', '\r', '(', ')', '\\', 'þ', 'ÿ', 'ï', '»', '¿', 0x100, 0x5c28, 0x0d0a, 0x2829, 0xfffe, 0x10000, 0x10ffff, 0xd7ff, 0xe000}
	for _, a := range two {
		texts = append(texts, string(a))
		for _, b := range two {
			texts = append(texts, string(a)+string(b))
			if c.Thorough() {
				for _, x := range two {
					texts = append(texts, string(a)+string(b)+string(x))
				}
			}
		}
	}
	fieldNames := []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate", "Custom", "My#20Key"}
	c.ForEach("spellings", len(texts), func(i int) string { return fmt.Sprintf("%q-%d", texts[i], i) }, func(t *core.T, i int) {
		m := spell(texts[i])
		for j, how := range spellNames(m) {
			field := fieldNames[(i+j)%len(fieldNames)]
			body := fmt.Sprintf("<</Trapped/False/%s%s/Other(o)>>", field, m[how])
			more := []gen.Obj{{Num: 8, Body: body}}
			if (i+j)%3 == 0 {
				more = []gen.Obj{{Num: 8, Body: fmt.Sprintf("<</Other(o)/%s 9 0 R/Trapped/False>>", field)}, {Num: 9, Body: m[how]}}
			}
			more = append(more, gen.Obj{Num: 10, Body: "<</Type/Outlines/First 11 0 R/Last 11 0 R/Count 1>>"}, gen.Obj{Num: 11, Body: "<</Title" + m[how] + "/Parent 10 0 R/Dest[4 0 R/Fit]>>"})
			layout := []string{"table", "packed"}[(i+j)%2]
			b := infoDoc(layout, "/Outlines 10 0 R", "/Annots[<</Type/Annot/Subtype/Text/Rect[0 0 1 1]/Contents"+m[how]+">>]", more)
			t.Attach("document.pdf", b)
			t.State(texts[i] + how + field)
			cd, err := extract.ExtractContent(b, nil, false)
			t.Step(1)
			if err != nil || cd.Metadata == nil || len(cd.Bookmarks) != 1 || len(cd.Annotations) != 1 {
				t.Fail("extract", "%s: %v", how, err)
				return
			}
			want := map[string]string{"Other": "o", strings.ReplaceAll(field, "#20", " "): texts[i]}
			if g, w := showFields(standardFields(cd.Metadata)), showFields(want); g != w {
				t.Fail("metadata", "%s: %s want %s", how, g, w)
			}
			if cd.Bookmarks[0].Title != texts[i] || cd.Bookmarks[0].PageNumber != 2 {
				t.Fail("title", "%s: bookmark %q to page %d, want %q", how, cd.Bookmarks[0].Title, cd.Bookmarks[0].PageNumber, texts[i])
			}
			if cd.Annotations[0].Contents != texts[i] {
				t.Fail("contents", "%s: contents %q want %q", how, cd.Annotations[0].Contents, texts[i])
			}
			t.Outcome(how)
		}
	})

	// outlines: every forest with the forms of targets and titles rotating through it
	forms := []struct{ src, want string }{
		{"/Dest[3 0 R/XYZ 0 10 null]", "p1"},
		{"/Dest[4 0 R/Fit]", "p2"},
		{"/Dest 20 0 R", "p2"},
		{"/A<</S/GoTo/D[3 0 R/FitH 5]>>", "p1"},
		{"/A 21 0 R", "p2"},
		{"/A<</Type/Action/S/GoTo/D 20 0 R>>", "p2"},
		{"/Dest(named \\(one\\))", "dnamed (one)"},
		{"/Dest<6e616d6564>", "dnamed"},
		{"/Dest/Nm", "d/Nm"},
		{"/A<</S/GoTo/D(named)>>", "dnamed"},
		{"/A<</S/URI/URI(http://e.org/\\(x\\))>>", "uhttp://e.org/(x)"},
		{"/A 22 0 R", "uhttp://e.org/i"},
		{"/A<</URI 23 0 R/S/URI/Next<</S/URI/URI(no)>>>>", "uhttp://e.org/s"},
		{"", "-"},
		{"/A<</S/Named/N/NextPage>>", "-"},
		{"/SE 3 0 R/C[1 0 0]/F 2", "-"},
		{"/Dest null/X<</Dest[3 0 R/Fit]/A<</S/URI/URI(no)>>/Title(no)/First 10 0 R/Next 10 0 R>>", "-"},
	}
	shared := []gen.Obj{{Num: 20, Body: "[4 0 R /FitR 0 0 1 1]"}, {Num: 21, Body: "<</S/GoTo/D[4 0 R/Fit]>>"}, {Num: 22, Body: "<</S 24 0 R/URI(http://e.org/i)>>"}, {Num: 23, Body: "(http://e.org/s)"}, {Num: 24, Body: "/URI"}}
	titles := func(i int) (string, string) {
		s := []string{"plain", "par(en", "é €", "Ж😀", ""}[i%5]
		m := spell(s)
		ns := spellNames(m)
		return s, m[ns[i/5%len(ns)]]
	}
	type ocase struct {
		forest string
		start  int
		step   int
	}
	var cases []ocase
	for n := 1; n <= core.Pick(c, 3, 5); n++ {
		for _, f := range forests(n) {
			for s := range forms {
				for step := 0; step < len(forms); step++ {
					if n == 1 && step > 0 {
						continue
					}
					cases = append(cases, ocase{f, s, step})
				}
			}
		}
	}
	c.ForEach("outlines", len(cases), func(i int) string {
		return fmt.Sprintf("%s-%d-%d", cases[i].forest, cases[i].start, cases[i].step)
	}, func(t *core.T, i int) {
		x := cases[i]
		roots, all := parseForest(x.forest)
		num := map[*mark]int{}
		src := map[*mark]string{}
		var objs []gen.Obj
		for j, m := range all {
			num[m] = 30 + (len(all) - j) // not in document order
			f := forms[(x.start+j*x.step)%len(forms)]
			m.target = f.want
			var lit string
			m.title, lit = titles(i*3 + j)
			if (i+j)%4 == 0 {
				objs = append(objs, gen.Obj{Num: 60 + j, Body: lit})
				lit = fmt.Sprintf(" %d 0 R", 60+j)
			}
			src[m] = "/Title" + lit + f.src
		}
		var emit func(ms []*mark, parent int) (string, int)
		emit = func(ms []*mark, parent int) (string, int) {
			if len(ms) == 0 {
				return "", 0
			}
			visible := 0
			for j, m := range ms {
				links := fmt.Sprintf("/Parent %d 0 R", parent)
				if j > 0 {
					links += fmt.Sprintf("/Prev %d 0 R", num[ms[j-1]])
				}
				if j+1 < len(ms) {
					links += fmt.Sprintf("/Next %d 0 R", num[ms[j+1]])
				}
				kids, n := emit(m.kids, num[m])
				if n > 0 {
					sign := n
					if (i+j)%2 == 0 {
						sign = -n // closed
					}
					kids += fmt.Sprintf("/Count %d", sign)
				}
				objs = append(objs, gen.Obj{Num: num[m], Body: "<<" + links + src[m] + kids + ">>"})
				visible += 1 + n
			}
			return fmt.Sprintf("/First %d 0 R/Last %d 0 R", num[ms[0]], num[ms[len(ms)-1]]), visible
		}
		top, n := emit(roots, 10)
		objs = append(objs, gen.Obj{Num: 10, Body: fmt.Sprintf("<<%s/Count %d>>", top, n)})
		b := infoDoc([]string{"table", "packed"}[i%2], "/Outlines 10 0 R", "", append(objs, shared...))
		t.Attach("document.pdf", b)
		want := showMarks(roots)
		t.State(want)
		p, err := parse.Open(b)
		if err != nil {
			t.Fail("open", "%v", err)
			return
		}
		bs, err := extract.ExtractBookmarks(b, p, false)
		t.Step(1)
		if g := showBookmarks(bs); err != nil || g != want {
			t.Fail("bookmarks", "bookmarks %s want %s (%v)", g, want, err)
		}
		t.Outcome(want)
	})
}

// --- annotations -------------------------------------------------------------

type annOpt struct {
	src  string
	more []gen.Obj
	set  func(a *types.Annotation)
}

func runAnnots(c *core.Ctx) {
	none := annOpt{set: func(*types.Annotation) {}}
	rect := func(src string, x1, y1, x2, y2 float64, more ...gen.Obj) annOpt {
		return annOpt{src, more, func(a *types.Annotation) {
			a.Rect = &types.Rectangle{LowerX: x1, LowerY: y1, UpperX: x2, UpperY: y2}
		}}
	}
	str := func(src, v string, p func(a *types.Annotation) *string, more ...gen.Obj) annOpt {
		return annOpt{src, more, func(a *types.Annotation) { *p(a) = v }}
	}
	contents := func(a *types.Annotation) *string { return &a.Contents }
	title := func(a *types.Annotation) *string { return &a.Title }
	subject := func(a *types.Annotation) *string { return &a.Subject }
	uri := func(a *types.Annotation) *string { return &a.URI }
	dest := func(a *types.Annotation) *string { return &a.Destination }
	icon := func(a *types.Annotation) *string { return &a.Icon }
	col := func(src string, k types.Color, more ...gen.Obj) annOpt {
		return annOpt{src, more, func(a *types.Annotation) { a.Color = &k }}
	}
	border := func(src string, w float64, dash []float64, more ...gen.Obj) annOpt {
		return annOpt{src, more, func(a *types.Annotation) { a.Border = &types.Border{Width: w, Dash: dash} }}
	}
	quads := func(src string, pts []float64, more ...gen.Obj) annOpt {
		return annOpt{src, more, func(a *types.Annotation) {
			for i := 0; i < len(pts); i += 2 {
				a.QuadPoints = append(a.QuadPoints, types.Point{X: pts[i], Y: pts[i+1]})
			}
		}}
	}
	open := func(src string, v bool, more ...gen.Obj) annOpt {
		return annOpt{src, more, func(a *types.Annotation) { a.Open = v }}
	}
	common := [][]annOpt{
		{ // storage of the type name is varied by the noise below; this is the rectangle
			rect("/Rect[10 20 30 40]", 10, 20, 30, 40),
			rect("/Rect [ 30 40 10 20 ]", 10, 20, 30, 40),
			rect("/Rect[10 40 30 20]", 10, 20, 30, 40),
			rect("/Rect[-1.5 +2. .25 10]", -1.5, 2, .25, 10),
			rect("/Rect 30 0 R", 1, 2, 3, 4, gen.Obj{Num: 30, Body: "[1 2 3 4]"}),
			rect("/Rect[5 31 0 R 32 0 R 8]", 5, 6, 7, 8, gen.Obj{Num: 31, Body: "6"}, gen.Obj{Num: 32, Body: "7"}),
		},
		{
			none,
			str("/Contents(Hi \\(there\\))", "Hi (there)", contents),
			str("/Contents<FEFF0416D83DDE00>", "Ж😀", contents),
			str("/Contents 33 0 R", "a\nb", contents, gen.Obj{Num: 33, Body: "(a\\nb)"}),
			str("/Contents()", "", contents),
			str("/Contents(\x80 nested (parens) /Rect[1 2 3 4] >>)", "• nested (parens) /Rect[1 2 3 4] >>", contents),
		},
		{none, str("/T(Author)", "Author", title), str("/T 34 0 R", "é", title, gen.Obj{Num: 34, Body: "<e9>"})},
		{none, str("/Subj(Topic)", "Topic", subject), str("/Subj 35 0 R", "S", subject, gen.Obj{Num: 35, Body: "(S)"})},
		{
			none,
			{"/C[]", nil, none.set},
			col("/C[.5]", types.Color{Space: types.ColorSpaceGray, R: .5}),
			col("/C[1 0 .25]", types.Color{Space: types.ColorSpaceRGB, R: 1, B: .25}),
			col("/C[.1 .2 .3 .4]", types.Color{Space: types.ColorSpaceCMYK, C: .1, M: .2, Y: .3, K: .4}),
			col("/C 36 0 R", types.Color{Space: types.ColorSpaceRGB, G: 1}, gen.Obj{Num: 36, Body: "[0 1 0]"}),
		},
		{
			none,
			border("/Border[0 0 2]", 2, nil),
			border("/Border[1 1 .5[3 2]]", .5, []float64{3, 2}),
			border("/Border[0 0 1[]]", 1, nil),
			border("/Border 37 0 R", 4, []float64{1}, gen.Obj{Num: 37, Body: "[0 0 4 38 0 R]"}, gen.Obj{Num: 38, Body: "[1]"}),
		},
		{ // noise
			none,
			{"/Popup<</Rect[9 9 9 9]/Contents(no)/T(no)/C[9]/Subtype/Link/Open true/Name/No/URI(no)/Dest/No>>", nil, none.set},
			{"/NM(/Rect[9 9 9 9]/Contents\\(no\\)/Subtype/Ink)", nil, none.set},
			{"% /Rect[9 9 9 9]/Contents(no) >>\n/F 4", nil, none.set},
			{"/P 3 0 R/M(D:2024)/AP<</N 3 0 R>>/Contents2(no)/RectX[1]/TT(no)/CC[1]", nil, none.set},
			{"/RD[1 1 1 1]/BS<</W 9/D[9]/S/D>>/Border0 1", nil, none.set},
		},
	}
	link := []annOpt{
		none,
		str("/A<</S/URI/URI(http://e.org/\\(x\\))>>", "http://e.org/(x)", uri),
		str("/A 40 0 R", "http://e.org/i", uri, gen.Obj{Num: 40, Body: "<</Type/Action/URI 41 0 R/S/URI>>"}, gen.Obj{Num: 41, Body: "<687474703a2f2f652e6f72672f69>"}),
		str("/Dest[4 0 R/Fit]", "[4 0 R/Fit]", dest),
		str("/Dest 42 0 R", "[3 0 R /XYZ 1 2 null]", dest, gen.Obj{Num: 42, Body: "[3 0 R /XYZ 1 2 null]"}),
		str("/Dest(nm\\)d)", "nm)d", dest),
		str("/Dest/Nm", "/Nm", dest),
		str("/A<</S/GoTo/D[4 0 R/Fit]>>", "[4 0 R/Fit]", dest),
		str("/A<</S/GoTo/D(named)>>", "named", dest),
		{"/A<</S/Named/N/NextPage>>", nil, none.set},
		{"/PA<</S/URI/URI(no)>>/H/I", nil, none.set},
	}
	note := [][]annOpt{
		{none, open("/Open true", true), open("/Open false", false), open("/Open 43 0 R", true, gen.Obj{Num: 43, Body: "true"})},
		{none, str("/Name/Comment", "/Comment", icon), str("/Name 44 0 R", "/Key", icon, gen.Obj{Num: 44, Body: "/Key"})},
	}
	q1, q2 := []float64{1, 2, 3, 4, 5, 6, 7, 8}, []float64{1, 2, 3, 4, 5, 6, 7, 8, 9.5, -1, 0, 1, 2, 3, 4, 5}
	quad := []annOpt{none, quads("/QuadPoints[1 2 3 4 5 6 7 8]", q1), quads("/QuadPoints[1 2 3 4 5 6 7 8 9.5 -1 0 1 2 3 4 5]", q2), quads("/QuadPoints 45 0 R", q1, gen.Obj{Num: 45, Body: "[1 2 3 4 5 6 7 8]"})}
	kinds := []struct {
		name string
		typ  types.AnnotationType
		own  [][]annOpt
	}{
		{"Link", types.AnnotationTypeLink, [][]annOpt{link}}, {"Text", types.AnnotationTypeText, note},
		{"Highlight", types.AnnotationTypeHighlight, [][]annOpt{quad}}, {"Underline", types.AnnotationTypeUnderline, [][]annOpt{quad}},
		{"StrikeOut", types.AnnotationTypeStrikeout, [][]annOpt{quad}}, {"Squiggly", types.AnnotationTypeSquiggly, [][]annOpt{quad}},
		{"Circle", types.AnnotationTypeCircle, nil}, {"Square", types.AnnotationTypeSquare, nil}, {"Line", types.AnnotationTypeLine, nil},
		{"Polygon", types.AnnotationTypePolygon, nil}, {"PolyLine", types.AnnotationTypePolyline, nil}, {"Ink", types.AnnotationTypeInk, nil},
		{"Stamp", types.AnnotationTypeStamp, nil}, {"Caret", types.AnnotationTypeCaret, nil}, {"FreeText", types.AnnotationTypeFreeText, nil},
		{"Popup", types.AnnotationTypePopup, nil}, {"Redact", "Redact", nil},
	}
	storage := []string{"ref", "direct", "array", "comments", "subtype"}
	type acase struct {
		kind int
		dev  []int // option of each attribute
		st   int
	}
	var cases []acase
	for k, kind := range kinds {
		attrs := append(append([][]annOpt{}, common...), kind.own...)
		var build func(dev []int, left int)
		build = func(dev []int, left int) {
			if len(dev) == len(attrs) {
				cases = append(cases, acase{k, append([]int{}, dev...), len(cases) % len(storage)})
				return
			}
			for o := range attrs[len(dev)] {
				if o == 0 {
					build(append(dev, 0), left)
				} else if left > 0 {
					build(append(dev, o), left-1)
				}
			}
		}
		build(nil, core.Pick(c, 2, 3))
	}
	c.ForEach("annotations", len(cases), func(i int) string {
		return fmt.Sprintf("%s-%v-%s", kinds[cases[i].kind].name, cases[i].dev, storage[cases[i].st])
	}, func(t *core.T, i int) {
		x := cases[i]
		kind := kinds[x.kind]
		attrs := append(append([][]annOpt{}, common...), kind.own...)
		sub := "/Subtype/" + kind.name
		var more []gen.Obj
		if storage[x.st] == "subtype" {
			sub = "/Subtype 29 0 R"
			more = append(more, gen.Obj{Num: 29, Body: "/" + kind.name})
		}
		want := types.Annotation{ID: "50", Type: kind.typ, PageNumber: 1}
		parts := []string{"/Type/Annot", sub}
		for j, o := range x.dev {
			op := attrs[j][o]
			parts = append(parts, op.src)
			more = append(more, op.more...)
			op.set(&want)
		}
		if i%2 == 1 { // the order of entries is free
			for a, b := 0, len(parts)-1; a < b; a, b = a+1, b-1 {
				parts[a], parts[b] = parts[b], parts[a]
			}
		}
		body := "<<" + strings.Join(parts, "") + ">>"
		page := "/Annots[50 0 R]"
		switch storage[x.st] {
		case "direct":
			page = "/Annots[" + body + "]"
			want.ID = ""
		case "array":
			page = "/Annots 51 0 R"
			more = append(more, gen.Obj{Num: 51, Body: "[50 0 R]"})
		case "comments":
			page = "/Annots[% 4 0 R\n50 0 R% 3 0 R ]\n]"
		}
		if storage[x.st] != "direct" {
			more = append(more, gen.Obj{Num: 50, Body: body})
		}
		b := infoDoc([]string{"table", "packed"}[i%2], "", page, more)
		t.Attach("document.pdf", b)
		t.State(showAnnot(want))
		cd, err := extract.ExtractContent(b, nil, false)
		t.Step(1)
		if err != nil || len(cd.Annotations) != 1 || len(cd.Pages) != 2 || len(cd.Pages[0].Annotations) != 1 {
			t.Fail("extract", "%s: %v", body, err)
			return
		}
		for _, a := range []types.Annotation{cd.Annotations[0], cd.Pages[0].Annotations[0]} {
			if want.ID == "" {
				a.ID = ""
			}
			if g, w := showAnnot(a), showAnnot(want); g != w {
				t.Fail("annotation", "%s: %s want %s", body, g, w)
			}
		}
		t.Outcome(showAnnot(want))
	})

	// annotations over the pages of a tree: order and page numbers
	sh := shapes(core.Pick(c, 3, 4), core.Pick(c, 2, 2))
	counts := []int{0, 1, 2}
	c.ForEach("pages", len(sh)*27*2, func(i int) string {
		return fmt.Sprintf("%s-%d-%s", sh[i/54], i%27, pageLayouts[i/27%2])
	}, func(t *core.T, i int) {
		var want []string
		b := pageDocX(sh[i/54], "own", pageLayouts[i/27%2], func(leaf, num int) (string, []gen.Obj) {
			n := counts[i%27/[]int{1, 3, 9}[(leaf-1)%3]%3]
			var objs []gen.Obj
			list := ""
			for k := 0; k < n; k++ {
				id := 300 + leaf*10 - k
				objs = append(objs, gen.Obj{Num: id, Body: fmt.Sprintf("<</Subtype/Square/Rect[%d 0 9 9]/Contents(%d.%d)>>", k, leaf, k)})
				list += fmt.Sprintf(" %d 0 R", id)
				want = append(want, fmt.Sprintf("%d %d %d.%d %d", leaf, id, leaf, k, k))
			}
			if n == 0 && leaf%2 == 0 {
				return "", nil
			}
			return "/Annots[" + list + "]", objs
		}, nil)
		t.Attach("document.pdf", b)
		cd, err := extract.ExtractContent(b, nil, false)
		t.Step(1)
		if err != nil {
			t.Fail("extract", "%v", err)
			return
		}
		var got []string
		for _, a := range cd.Annotations {
			got = append(got, fmt.Sprintf("%d %s %s %s", a.PageNumber, a.ID, a.Contents, num(a.Rect.LowerX)))
		}
		t.State(strings.Join(want, ";"))
		if strings.Join(got, ";") != strings.Join(want, ";") {
			t.Fail("order", "%v want %v", got, want)
		}
		t.Outcome(fmt.Sprint(len(got)))
	})
}

func showAnnot(a types.Annotation) string {
	s := fmt.Sprintf("%s %s p%d %q %q %q uri%q dest%q open%v %s", a.ID, a.Type, a.PageNumber, a.Contents, a.Title, a.Subject, a.URI, a.Destination, a.Open, a.Icon)
	if a.Rect != nil {
		s += fmt.Sprintf(" rect%v", *a.Rect)
	}
	if a.Color != nil {
		s += fmt.Sprintf(" color%+v", *a.Color)
	}
	if a.Border != nil {
		s += fmt.Sprintf(" border%v%v", a.Border.Width, a.Border.Dash)
	}
	return s + fmt.Sprintf(" quads%v", a.QuadPoints)
}
