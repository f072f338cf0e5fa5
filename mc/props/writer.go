package props

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/core"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
)

// ---------------------------------------------------------------------------
// Model of the document writer: a map from object numbers to values.

type wmodel struct {
	val  map[int]string // semantic value
	raw  map[int]string // what GetObject returns for non-stream objects
	next int
	root int
}

func newWModel() *wmodel { return &wmodel{val: map[int]string{}, raw: map[int]string{}, next: 1} }

func (m *wmodel) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d/%d", m.next, m.root)
	for n := 0; n <= m.next; n++ {
		if v, ok := m.val[n]; ok {
			fmt.Fprintf(&sb, ";%d=%s", n, v)
		}
	}
	return sb.String()
}

// wop is one writer operation.
type wop struct {
	name string
	do   func(w *write.PDFWriter, m *wmodel) string // returns a complaint or ""
}

var wContents = []string{
	"<</A 1/B[2 0 R(x)]>>",
	"(str \\) endobj)",
	"null",
	"<</T(stream)/U(endstream\nendobj)/N<</K<616263>>>>>",
	"[1 -2.50 /Na#20me true null % endobj\n 5 0 R]",
	"42",
}

type wdict struct {
	d    func() write.Dictionary
	want string
}

func dictA() write.Dictionary { return write.Dictionary{"Type": "/X", "N": 3} }

var wDicts = []wdict{
	{func() write.Dictionary { return write.Dictionary{} }, "<<>>"},
	{func() write.Dictionary {
		return write.Dictionary{"/K": "/V", "I": int64(-7), "F": 1.25, "S": "te xt", "B": []byte{0, 255, 62},
			"A": []interface{}{1, "/N", "2 0 R", []interface{}{}}, "D": write.Dictionary{"Z": "/Y"}, "T": true}
	}, "<</K/V/I -7/F 1.25/S(te xt)/B<00FF3E>/A[1/N 2 0 R[]]/D<</Z/Y>>/T true>>"},
}

var wDatas = []string{
	"", "x", "data\n", "a\rendstream\nendobj\n%%EOF", "\r\nq\r\n", "stream\n>>(\\", strings.Repeat("ab", 300) + "endobj",
}

func streamSem(dict, data string) string {
	o, err := ref.ParseOne([]byte(dict))
	if err != nil {
		panic(err)
	}
	return semantic(&ref.Stream{D: o.(ref.Dict), Raw: []byte(data)})
}

func addOp(c string) wop {
	return wop{"Add(" + c + ")", func(w *write.PDFWriter, m *wmodel) string {
		n := w.AddObject([]byte(c))
		if n != m.next {
			return fmt.Sprintf("AddObject returned %d, want %d", n, m.next)
		}
		m.val[n], m.raw[n] = mustCanon(c), c
		m.next++
		return ""
	}}
}

func addStreamOp(di int, data string, comp bool) wop {
	return wop{fmt.Sprintf("AddStream(d%d,%.12q,%v)", di, data, comp), func(w *write.PDFWriter, m *wmodel) string {
		var b []byte
		if data != "" {
			b = []byte(data)
		}
		n := w.AddStreamObject(wDicts[di].d(), b, comp)
		if n != m.next {
			return fmt.Sprintf("AddStreamObject returned %d, want %d", n, m.next)
		}
		m.val[n] = streamSem(wDicts[di].want, data)
		delete(m.raw, n)
		m.next++
		return ""
	}}
}

func setOp(rel string, c string) wop {
	return wop{"Set(" + rel + "," + c + ")", func(w *write.PDFWriter, m *wmodel) string {
		n := target(rel, m)
		w.SetObject(n, []byte(c))
		m.val[n], m.raw[n] = mustCanon(c), c
		if n >= m.next {
			m.next = n + 1
		}
		return ""
	}}
}

func setStreamOp(rel string, di int, data string, comp bool) wop {
	return wop{fmt.Sprintf("SetStream(%s,d%d,%.12q,%v)", rel, di, data, comp), func(w *write.PDFWriter, m *wmodel) string {
		n := target(rel, m)
		w.SetStreamObject(n, wDicts[di].d(), []byte(data), comp)
		m.val[n] = streamSem(wDicts[di].want, data)
		delete(m.raw, n)
		if n >= m.next {
			m.next = n + 1
		}
		return ""
	}}
}

func target(rel string, m *wmodel) int {
	switch rel {
	case "last":
		if m.next == 1 {
			return 1
		}
		return m.next - 1
	case "next":
		return m.next
	case "gap":
		return m.next + 2
	case "1":
		return 1
	}
	panic(rel)
}

// wAlphabet is the operation alphabet; catalog and root come first in every run.
func wAlphabet(rich bool) []wop {
	var ops []wop
	nc, nd := 4, 4
	if rich {
		nc, nd = len(wContents), len(wDatas)
	}
	for _, c := range wContents[:nc] {
		ops = append(ops, addOp(c))
	}
	for i, d := range wDatas[:nd] {
		ops = append(ops, addStreamOp(i%2, d, false), addStreamOp((i+1)%2, d, true))
	}
	for _, rel := range []string{"last", "gap"} {
		ops = append(ops, setOp(rel, wContents[0]), setOp(rel, wContents[3]))
		ops = append(ops, setStreamOp(rel, 1, wDatas[3], true), setStreamOp(rel, 0, "q", false))
	}
	ops = append(ops, setOp("next", wContents[1]))
	ops = append(ops, wop{"Write", func(w *write.PDFWriter, m *wmodel) string {
		if _, err := w.Bytes(); err != nil {
			return "Bytes: " + err.Error()
		}
		return ""
	}})
	ops = append(ops, wop{"Get", func(w *write.PDFWriter, m *wmodel) string {
		for n := 1; n < m.next+2; n++ {
			got, err := w.GetObject(n)
			_, exists := m.val[n]
			if exists != (err == nil) {
				return fmt.Sprintf("GetObject(%d): exists=%v err=%v", n, exists, err)
			}
			if r, ok := m.raw[n]; ok && string(got) != r {
				return fmt.Sprintf("GetObject(%d) = %q, want %q", n, got, r)
			}
		}
		if w.NextObjectNumber() != m.next {
			return fmt.Sprintf("NextObjectNumber %d, want %d", w.NextObjectNumber(), m.next)
		}
		return ""
	}})
	return ops
}

var layoutNames = []string{"table", "xrefstream", "objstm"}

func newWriter(layout int) *write.PDFWriter {
	w := write.NewPDFWriter()
	if layout == 1 {
		w.UseXRefStream(true)
	}
	if layout == 2 {
		w.UseObjectStream(true)
	}
	return w
}

// digits of i in base k, depth d
func seqOf(i, k, d int) []int {
	s := make([]int, d)
	for j := d - 1; j >= 0; j-- {
		s[j] = i % k
		i /= k
	}
	return s
}

func pow(k, d int) int {
	n := 1
	for ; d > 0; d-- {
		n *= k
	}
	return n
}

// runWriter replays a sequence of operations and returns the output.
func runWriter(t *core.T, ops []wop, seq []int, layout int) (*write.PDFWriter, *wmodel, bool) {
	w, m := newWriter(layout), newWModel()
	if msg := addOp("<</Type/Catalog/Pages 9 0 R>>").do(w, m); msg != "" {
		t.Fail("op", "%s", msg)
		return nil, nil, false
	}
	w.SetRoot(1)
	m.root = 1
	t.State(m.key())
	for _, i := range seq {
		msg := ops[i].do(w, m)
		t.Step(1)
		if msg != "" {
			t.Fail("op", "%s", msg)
			return nil, nil, false
		}
		t.State(m.key())
	}
	return w, m, true
}

func seqName(ops []wop, seq []int) string {
	var p []string
	for _, i := range seq {
		p = append(p, ops[i].name)
	}
	return strings.Join(p, ";")
}

// strict applies the strict reader to a written file.
func strict(t *core.T, tag string, b []byte, want map[int]string, root int) *ref.File {
	f, err := ref.Open(b)
	if err != nil {
		t.Fail(tag+":structure", "%v", err)
		return nil
	}
	if err := f.CheckAll(); err != nil {
		t.Fail(tag+":entries", "%v", err)
		return nil
	}
	if root > 0 {
		if r, ok := f.Trailer["Root"].(ref.Ref); !ok || r.N != root {
			t.Fail(tag+":root", "trailer /Root is %s, want object %d", ref.Canon(f.Trailer["Root"]), root)
		}
	}
	for n, wv := range want {
		o, ok, err := f.Get(n)
		if err != nil || !ok {
			t.Fail(tag+":lost", "object %d: found=%v err=%v", n, ok, err)
			continue
		}
		if got := semantic(o); got != wv {
			t.Fail(tag+":content", "object %d is %s, want %s", n, clips(got), clips(wv))
		}
	}
	for _, n := range f.Nums() {
		if _, ok := want[n]; !ok {
			o, _, _ := f.Get(n)
			if !infra(o) {
				t.Fail(tag+":stray", "object %d was never added: %s", n, clips(semantic(o)))
			}
		}
	}
	t.Step(len(want) + 1)
	return f
}

type wcheck func(t *core.T, layout int, w *write.PDFWriter, m *wmodel)

func gaps(m *wmodel) []int {
	var g []int
	for n := 1; n < m.next; n++ {
		if _, ok := m.val[n]; !ok {
			g = append(g, n)
		}
	}
	return append(g, m.next+5)
}

func checkRoundTrip(t *core.T, layout int, w *write.PDFWriter, m *wmodel) {
	b, err := w.Bytes()
	if err != nil {
		t.Fail("write", "%v", err)
		return
	}
	t.Attach("out.pdf", b)
	tag := layoutNames[layout]
	readBack(t, tag, b, m.val, gaps(m), false)
	readBack(t, tag+"-perfect", b, m.val, gaps(m), true)
	t.Outcome(fmt.Sprint(tag, len(b), m.val))
}

func checkStrict(t *core.T, layout int, w *write.PDFWriter, m *wmodel) {
	b, err := w.Bytes()
	if err != nil {
		t.Fail("write", "%v", err)
		return
	}
	t.Attach("out.pdf", b)
	tag := layoutNames[layout]
	strict(t, tag, b, m.val, m.root)
	b2, err := w.Bytes()
	if err != nil || !bytes.Equal(b, b2) {
		t.Fail(tag+":rewrite", "writing again gives a different file (%v)", err)
	}
	var c countingWriter
	if err := w.Write(&c); err != nil || !bytes.Equal(c.b, b) {
		t.Fail(tag+":sink", "Write and Bytes differ (%v)", err)
	}
	t.Outcome(fmt.Sprint(tag, len(b), m.val))
}

type countingWriter struct{ b []byte }

func (c *countingWriter) Write(p []byte) (int, error) { c.b = append(c.b, p...); return len(p), nil }

func runWriterProp(c *core.Ctx, check wcheck) {
	ops := wAlphabet(c.Thorough())
	for d := 0; d <= 2; d++ {
		n := pow(len(ops), d)
		c.ForEach(fmt.Sprintf("ops%d", d), n*3, func(i int) string {
			return layoutNames[i%3] + ":" + seqName(ops, seqOf(i/3, len(ops), d))
		}, func(t *core.T, i int) {
			if w, m, ok := runWriter(t, ops, seqOf(i/3, len(ops), d), i%3); ok {
				check(t, i%3, w, m)
			}
		})
	}
	// Depth 3 (quick) / 4 (thorough) over the small alphabet.
	small := wAlphabet(false)
	for d := 3; d <= core.Pick(c, 3, 4); d++ {
		n := pow(len(small), d)
		c.ForEach(fmt.Sprintf("ops%d", d), n*3, func(i int) string {
			return layoutNames[i%3] + ":" + seqName(small, seqOf(i/3, len(small), d))
		}, func(t *core.T, i int) {
			if w, m, ok := runWriter(t, small, seqOf(i/3, len(small), d), i%3); ok {
				check(t, i%3, w, m)
			}
		})
	}
	// Value sweep: every value of a small grammar, alone and followed by another object.
	vals := grammar(core.Pick(c, 2, 3))
	c.ForEach("values", len(vals)*3, func(i int) string { return layoutNames[i%3] + ":" + vals[i/3] }, func(t *core.T, i int) {
		ops := []wop{addOp(vals[i/3]), addOp("<</After true>>"), addStreamOp(0, vals[i/3], false)}
		if w, m, ok := runWriter(t, ops, []int{0, 1, 2}, i%3); ok {
			check(t, i%3, w, m)
		}
	})
	// Stream data sweep.
	datas := streamDatas(c.Thorough())
	c.ForEach("data", len(datas)*6, func(i int) string {
		return fmt.Sprintf("%s:%v:%s", layoutNames[i%3], i/3%2 == 1, dataName(datas[i/6]))
	}, func(t *core.T, i int) {
		ops := []wop{addStreamOp(0, datas[i/6], i/3%2 == 1), addOp("7")}
		if w, m, ok := runWriter(t, ops, []int{0, 1}, i%3); ok {
			check(t, i%3, w, m)
		}
	})
	// Size thresholds: object counts and offsets around powers of 256.
	counts := []int{1, 7, 8, 9, 10, 11, 98, 99, 100, 101, 254, 255, 256, 257, 300, 998, 1000, 1001}
	if c.Thorough() {
		counts = append(counts, 9999, 10001, 65534, 65536, 65537)
	}
	c.ForEach("counts", len(counts)*3, func(i int) string { return fmt.Sprintf("%s:%d", layoutNames[i%3], counts[i/3]) }, func(t *core.T, i int) {
		w, m := newWriter(i%3), newWModel()
		addOp("<</Type/Catalog>>").do(w, m)
		w.SetRoot(1)
		m.root = 1
		for k := 0; k < counts[i/3]; k++ {
			addOp(fmt.Sprintf("<</K %d/P %d 0 R>>", k, k+1)).do(w, m)
		}
		addStreamOp(0, "tail", false).do(w, m)
		t.State(m.key())
		if counts[i/3] > 2000 {
			checkSparse(t, i%3, w, m)
			return
		}
		check(t, i%3, w, m)
	})
	// Object numbers far beyond the number of objects.
	numbers := []int{254, 255, 256, 257, 999, 65533, 65534, 65535, 65536, 70000}
	if c.Thorough() {
		numbers = append(numbers, 100000, 1<<20)
	}
	c.ForEach("numbers", len(numbers)*6, func(i int) string {
		return fmt.Sprintf("%s:%d,%d", layoutNames[i%3], numbers[i/6], i/3%2)
	}, func(t *core.T, i int) {
		w, m := newWriter(i%3), newWModel()
		addOp("<</Type/Catalog/K 2 0 R>>").do(w, m)
		w.SetRoot(1)
		m.root = 1
		n := numbers[i/6]
		if i/3%2 == 0 {
			w.SetObject(n, []byte("(far)"))
			m.val[n], m.raw[n] = mustCanon("(far)"), "(far)"
		} else {
			w.SetStreamObject(n, wDicts[0].d(), []byte("far"), true)
			m.val[n] = streamSem(wDicts[0].want, "far")
		}
		m.next = n + 1
		addOp("<</Next 1 0 R>>").do(w, m)
		t.State(m.key())
		if n > 2000 {
			checkSparse(t, i%3, w, m)
			return
		}
		check(t, i%3, w, m)
	})
	// Complete streams given as the content of an object, with white space around them.
	ends := []string{"", "\n", " ", "\r\n", "\t \n\n", "\x00", "\f", " % endstream\n"}
	c.ForEach("raw streams", len(ends)*len(ends)*3, func(i int) string {
		return fmt.Sprintf("%s:%q,%q", layoutNames[i%3], ends[i/3%len(ends)], ends[i/3/len(ends)])
	}, func(t *core.T, i int) {
		w, m := newWriter(i%3), newWModel()
		addOp("<</Type/Catalog/K 2 0 R>>").do(w, m)
		w.SetRoot(1)
		m.root = 1
		n := w.AddObject([]byte(ends[i/3/len(ends)] + "<</Length 4/S(x)>>\nstream\ndata\nendstream" + ends[i/3%len(ends)]))
		m.val[n] = streamSem("<</S(x)>>", "data")
		m.next = n + 1
		addOp("(after)").do(w, m)
		t.State(m.key())
		check(t, i%3, w, m)
	})
	// Every byte in a name, first, in the middle and last.
	c.ForEach("names", 256, func(i int) string { return fmt.Sprintf("byte %02X", i) }, func(t *core.T, i int) {
		if i == '#' { // taken as the start of an escape
			return
		}
		b := string(rune(i))
		if i >= 0x80 {
			b = string([]byte{byte(i)})
		}
		for lay := range layoutNames {
			w, m := newWriter(lay), newWModel()
			addOp("<</Type/Catalog/Pages 9 0 R>>").do(w, m)
			w.SetRoot(1)
			m.root = 1
			hex := fmt.Sprintf("#%02X", i)
			d, want := write.Dictionary{"x" + b: 1, "/m" + b + "m": "/v", "E": write.Dictionary{"/" + b + "z": nil, "n" + b: []interface{}{2}}}, "<</x"+hex+" 1/m"+hex+"m/v/E<</"+hex+"z null/n"+hex+"[2]>>/N"+hex+"/V"+hex+">>"
			d[write.Name("N"+b)] = "/V" + hex
			n := w.AddStreamObject(d, []byte("data"), i%2 == 0)
			m.val[n] = streamSem(want, "data")
			m.next = n + 1
			t.State(m.val[n])
			check(t, lay, w, m)
		}
	})
	sizes := []int{200, 240, 250, 255, 256, 257, 300, 65300, 65400, 65500, 65536, 65600}
	if c.Thorough() {
		sizes = append(sizes, 1<<20, 1<<24-400, 1<<24-100, 1<<24, 1<<24+100)
		for s := 0; s < 512; s++ {
			sizes = append(sizes, s, 65536-512+s)
		}
	} else {
		for s := 0; s < 256; s += 8 {
			sizes = append(sizes, s, 65536-256+s)
		}
	}
	c.ForEach("offsets", len(sizes)*3, func(i int) string { return fmt.Sprintf("%s:%d", layoutNames[i%3], sizes[i/3]) }, func(t *core.T, i int) {
		ops := []wop{addStreamOp(0, strings.Repeat("z", sizes[i/3]), false), addOp("(after)"), addStreamOp(0, "end", false)}
		if w, m, ok := runWriter(t, ops, []int{0, 1, 2}, i%3); ok {
			check(t, i%3, w, m)
		}
	})
	// Stream dictionaries: every Go value the writer formats, nested two deep, under every key.
	dvs := dictValues(c.Thorough())
	keys := []struct{ key, text string }{{"K", "/K"}, {"/K", "/K"}, {"A B", "/A#20B"}, {"/Q#", "/Q#23"}, {"P(%)/<[]>{}", "/P#28#25#29#2F#3C#5B#5D#3E#7B#7D"}, {"\u00e9\x01", "/#C3#A9#01"}, {"Zz.-_'*", "/Zz.-_'*"}}
	c.ForEach("dictionary", len(dvs)*len(keys), func(i int) string {
		return fmt.Sprintf("%s=%.60s", keys[i%len(keys)].text, dvs[i/len(keys)].text)
	}, func(t *core.T, i int) {
		k, v := keys[i%len(keys)], dvs[i/len(keys)]
		for lay := range layoutNames {
			w, m := newWriter(lay), newWModel()
			addOp("<</Type/Catalog/Pages 9 0 R>>").do(w, m)
			w.SetRoot(1)
			m.root = 1
			d := write.Dictionary{k.key: v.val, "Before": 1, "zAfter": "end"}
			n := w.AddStreamObject(d, []byte("data"), i%2 == 0)
			m.val[n] = streamSem("<</Before 1/zAfter(end)"+k.text+" "+v.text+">>", "data")
			m.next = n + 1
			t.State(m.val[n])
			check(t, lay, w, m)
		}
	})
	// Header and trailer: version, catalogue and information dictionary, in every order of setting them.
	versions := []string{"", "1.0", "1.3", "1.4", "1.5", "1.6", "1.7", "2.0"}
	orders := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	c.ForEach("trailer", 3*len(versions)*len(orders)*4, func(i int) string {
		return fmt.Sprintf("%s:%s,%v,info%d", layoutNames[i%3], versions[i/3%len(versions)], orders[i/3/len(versions)%len(orders)], i/3/len(versions)/len(orders))
	}, func(t *core.T, i int) {
		lay, ver, order, info := i%3, versions[i/3%len(versions)], orders[i/3/len(versions)%len(orders)], i/3/len(versions)/len(orders)
		w, m := newWriter(lay), newWModel()
		// numbers 1 and 2 in another order than they are set
		infoNum := 2
		for _, s := range []string{"<</Type/Catalog/Pages 9 0 R>>", "<</Title(T)/Trapped/False>>", "<</Title(other)>>"} {
			addOp(s).do(w, m)
		}
		for _, o := range order {
			switch o {
			case 0:
				w.SetRoot(1)
				m.root = 1
			case 1:
				if ver != "" {
					w.SetVersion(ver)
				}
			case 2:
				switch info {
				case 1:
					w.SetInfo(2)
				case 2:
					w.SetInfo(2)
					w.SetInfo(3)
					infoNum = 3
				case 3:
					w.SetInfo(3)
					infoNum = w.SetMetadata(&types.DocumentMetadata{Title: "T", ModDate: "D:20240101000000Z"})
					m.val[infoNum] = mustCanon("<</Title(T)/ModDate(D:20240101000000Z)>>")
					m.next = infoNum + 1
				}
			}
		}
		if ver == "" {
			ver = "1.7"
		}
		var first []byte
		for round := 0; round < 2; round++ {
			b, err := w.Bytes()
			t.Step(1)
			if err != nil {
				t.Fail("write", "%v", err)
				return
			}
			t.Attach("written.pdf", b)
			if round == 1 && !bytes.Equal(b, first) {
				t.Fail("again", "a second Bytes gives another file")
			}
			first = b
			f := strict(t, layoutNames[lay], b, m.val, m.root)
			if f == nil {
				return
			}
			if lay == 0 || ver >= "1.5" {
				if !bytes.HasPrefix(b, []byte("%PDF-"+ver+"\n")) {
					t.Fail("version", "the header is %q, want version %s", clipb(b[:min(12, len(b))]), ver)
				}
			}
			r, isRef := f.Trailer["Info"].(ref.Ref)
			if info == 0 && f.Trailer["Info"] != nil || info > 0 && (!isRef || r.N != infoNum || r.G != 0) {
				t.Fail("info", "trailer /Info is %s, want object %d (choice %d)", ref.Canon(f.Trailer["Info"]), infoNum, info)
			}
			p, err := parse.Open(b)
			if err != nil {
				t.Fail("reopen", "%v", err)
				return
			}
			if v := p.Version(); lay == 0 && v != ver {
				t.Fail("version", "the parser reads version %q, want %q", v, ver)
			}
			want := ""
			if info > 0 {
				want = fmt.Sprintf("%d 0 R", infoNum)
			}
			if tr := p.Trailer(); tr == nil || tr.RootRef != "1 0 R" || tr.InfoRef != want {
				t.Fail("reopen", "the parser reads trailer %+v, want /Info %q", tr, want)
			}
		}
		t.State(fmt.Sprint(lay, ver, info))
		t.Outcome(fmt.Sprint(ver, info))
	})
	// Aliasing: one dictionary for two streams, caller reuses buffers afterwards.
	c.ForEach("alias", 3*16, func(i int) string { return fmt.Sprintf("%s:%04b", layoutNames[i%3], i/3) }, func(t *core.T, i int) {
		v := i / 3
		w, m := newWriter(i%3), newWModel()
		addOp("<</Type/Catalog>>").do(w, m)
		w.SetRoot(1)
		m.root = 1
		d := dictA()
		a, b := []byte("first data"), []byte("second")
		n1 := w.AddStreamObject(d, a, v&1 != 0)
		var n2 int
		if v&2 != 0 {
			n2 = n1 + 1
			w.SetStreamObject(n2, d, b, v&4 != 0)
		} else {
			n2 = w.AddStreamObject(d, b, v&4 != 0)
		}
		if v&8 != 0 {
			d["N"] = 99
			copy(a, "XXXXXXXXXX")
		}
		if len(d) != 2 {
			t.Fail("mutated", "the caller's dictionary became %v", d)
		}
		m.val[n1] = streamSem("<</Type/X/N 3>>", "first data")
		m.val[n2] = streamSem("<</Type/X/N 3>>", "second")
		m.next = n2 + 1
		t.State(m.key() + fmt.Sprint(v))
		check(t, i%3, w, m)
	})
}

type dval struct {
	val  interface{}
	text string
}

// dictValues returns the values of every type of a Dictionary with their meaning in PDF syntax.
func dictValues(deep bool) []dval {
	leaves := []dval{{0, "0"}, {-7, "-7"}, {2147483647, "2147483647"}, {int64(-2147483648), "-2147483648"}, {int64(1) << 40, "1099511627776"},
		{0.5, "0.5"}, {-0.001, "-0.001"}, {100.0, "100"}, {1e-7, "0.0000001"}, {123456.789, "123456.789"}, {nil, "null"}, {true, "true"}, {false, "false"},
		{"/Name", "/Name"}, {"/Name#20x", "/Name#20x"}, {"5 0 R", "5 0 R"}, {[]byte{}, "<>"}, {[]byte{0, 255, 10, 13}, "<00FF0A0D>"}}
	for _, s := range []string{"", "plain", "a(b)c", "(", ")", ")(", "((", "())", "\\", "a\\", "\\(", "\\)", "(\\)", "\\\\", "a\nb", "%", "<>", "[x]", "R", "5 0 Rx", "\\101", "\xe9\x00\x7f", "endstream", ">>", "tab\t"} {
		// a string that can stand between parentheses is the content of a literal string
		text := "(" + s + ")"
		if _, err := ref.ParseOne([]byte(text)); err != nil {
			text = fmt.Sprintf("<%X>", s)
		}
		leaves = append(leaves, dval{s, text})
	}
	out := append([]dval{}, leaves...)
	wrap := func(in []dval) (out []dval) {
		for i, l := range in {
			o := leaves[(i*7+3)%len(leaves)]
			out = append(out,
				dval{[]interface{}{l.val}, "[" + l.text + "]"},
				dval{[]interface{}{o.val, l.val, 3}, "[" + o.text + " " + l.text + " 3]"},
				dval{write.Dictionary{"X": l.val}, "<</X " + l.text + ">>"},
				dval{map[string]interface{}{"X y": l.val, "/W": o.val}, "<</X#20y " + l.text + "/W " + o.text + ">>"})
		}
		return out
	}
	one := wrap(leaves)
	out = append(out, one...)
	out = append(out, dval{[]interface{}{}, "[]"}, dval{write.Dictionary{}, "<<>>"}, dval{map[string]interface{}{}, "<<>>"})
	if deep {
		out = append(out, wrap(one)...)
	}
	return out
}

// checkSparse checks a large file on a stride of objects.
func checkSparse(t *core.T, layout int, w *write.PDFWriter, m *wmodel) {
	b, err := w.Bytes()
	if err != nil {
		t.Fail("write", "%v", err)
		return
	}
	strict(t, layoutNames[layout], b, m.val, m.root)
}

// grammar returns every value of nesting depth up to d over a small set of leaves.
func grammar(d int) []string {
	leaves := []string{"0", "-1.5", "+3", ".5", "/N", "/", "/A#2FB", "()", "(a(b)c)", "(\\))", "(\\\\)", "(>>)", "(\\\n)", "(endobj)", "<>", "<AbC>", "< 4 1 >", "true", "null", "3 0 R",
		"(\x00\xff\r)", "(\\053\\5)", "(% no comment)", "(stream\n)", "/endobj", "/stream", "(1 0 obj)"}
	out := append([]string{}, leaves...)
	level := leaves
	for k := 1; k < d; k++ {
		var nxt []string
		for i, a := range level {
			nxt = append(nxt, "["+a+"]", "<</K "+a+">>", "<</K "+a+"/Length 5>>", "[ "+a+"% c endobj >>\n]")
			for j, b := range leaves {
				if k > 1 && (i+j)%7 != 0 {
					continue // thin out deeper pairs (fixed stride)
				}
				nxt = append(nxt, "["+a+" "+b+"]", "<</K "+a+"/L "+b+">>")
			}
		}
		out = append(out, nxt...)
		level = nxt
		if len(level) > 400 {
			level = level[:400]
		}
	}
	return out
}

// streamDatas returns every string up to length 3 (4) over a delimiter alphabet plus known traps.
func streamDatas(thorough bool) []string {
	syms := []string{"\r", "\n", "e", ">", "\x00", "\xff"}
	d := 3
	if thorough {
		d = 5
	}
	var out []string
	for k := 0; k <= d; k++ {
		for i := 0; i < pow(len(syms), k); i++ {
			s := ""
			for _, x := range seqOf(i, len(syms), k) {
				s += syms[x]
			}
			out = append(out, s)
		}
	}
	traps := []string{"endstream", "endobj", "stream", "endstream\nendobj", "\nendstream\nendobj\n2 0 obj\n(fake)\nendobj\n", "%%EOF", "startxref\n0\n%%EOF\n",
		"xref\n0 1\n0000000000 65535 f \ntrailer\n<</Root 5 0 R>>\nstartxref\n9\n%%EOF", "1 0 obj\n<<>>\nendobj", "trailer<</Size 1>>", "/Length 3", ">>", "<<", "("}
	for _, a := range traps {
		out = append(out, a)
		for _, b := range []string{"\n", "\r", "\r\n", " ", "x"} {
			out = append(out, b+a, a+b, b+a+b)
		}
		for _, b := range traps {
			out = append(out, a+"\n"+b)
		}
	}
	return out
}

func dataName(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%016x", core.Hash64(s))
	}
	return fmt.Sprintf("%q", s)
}

func init() {
	core.Register(&core.Prop{ID: "P01", Level: "model_checking",
		Rule: "every sequence of writer operations up to the depth bound, plus exhaustive value, stream-data, size-threshold and aliasing sweeps, in every file layout; the output is read back with the library and compared with a map model; states are distinct model states",
		Run:  func(c *core.Ctx) { runWriterProp(c, checkRoundTrip) }})
	core.Register(&core.Prop{ID: "P02", Level: "model_checking",
		Rule: "the same operation space as the round trip, but the output is judged by an independent strict PDF reader (header, xref chain, every offset, /Size, /Root, /Length, object streams) and written twice",
		Run:  func(c *core.Ctx) { runWriterProp(c, checkStrict) }})
}
