package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"verifmc/core"
	"verifmc/gen"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/resources/font"
	"github.com/benedoc-inc/pdfer/types"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P22",
		Level: "model_checking",
		Rule:  "calls of the library on shared, write-protected inputs and shared handles in every order of two (three), and sessions with builders in every interleaving of two; the oracle is what each call gives on its own",
		Assumptions: []string{
			"random parts of encrypted output are left out by reading the output back",
		},
		Run: func(c *core.Ctx) {
			runHistoryPairs(c)
			runHistoryDocs(c)
			runSessions(c)
		},
	})
	core.Register(&core.Prop{
		ID:    "P23",
		Level: "model_checking",
		Rule:  "calls on the same document, handle and arguments in two goroutines, in both orders and at once, under the race detector; the oracle is what each call gives on its own and that no two accesses conflict",
		Assumptions: []string{
			"calls of two goroutines that make no conflicting accesses give in every schedule what they give in one, so that one schedule per order stands for all; conflicting accesses are found by the race detector, which is shown no synchronisation between the two calls",
		},
		Run: runSchedules,
	})
}

// readOnly returns a copy of b in memory that cannot be written, with room behind it:
// changing the copy or appending to it faults.
func readOnly(b []byte) []byte {
	page := syscall.Getpagesize()
	n := (len(b)/page + 2) * page
	m, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	copy(m, b)
	if err := syscall.Mprotect(m, syscall.PROT_READ); err != nil {
		panic(err)
	}
	return m[:len(b)]
}

// world is what the calls of a case share.
type world struct {
	d         *histDoc
	std, perf *parse.PDF
	af        *acroform.AcroForm
	form      forms.Form
	streams   *xfa.XFAStreams
	schema    *types.FormSchema
	settings  []interface{}
	data      types.FormData
	marks     []types.Bookmark
	meta      *types.DocumentMetadata
}

type histDoc struct {
	robustDoc
	in, pwd  []byte // write-protected
	other    []byte
	ttf, raw []byte
	ops      []histOp
	base     []string
	once     sync.Once
}

// histOp is a call; what it returns is shown by the function it gives back, which can be
// asked again later.
type histOp struct {
	name string
	run  func(w *world) func() string
}

// newWorld makes what the given calls share, and nothing else: what is set up on first use
// is left to the calls.
func newWorld(d *histDoc, calls ...int) *world {
	w := &world{d: d}
	for _, k := range calls {
		name := d.ops[k].name
		switch {
		case strings.HasPrefix(name, "handle."):
			w.std, _ = parse.OpenWithOptions(d.in, parse.ParseOptions{Password: d.pwd})
		case strings.HasPrefix(name, "perfect."):
			w.perf, _ = parse.OpenWithOptions(d.in, parse.ParseOptions{Password: d.pwd, BytePerfect: true})
		case strings.HasPrefix(name, "form."):
			w.form, _ = forms.Extract(d.in, d.pwd, false)
		case name == "acroform":
			w.af, _ = acroform.ExtractAcroForm(d.in, d.pwd, false)
		case name == "xfa.rebuild" || name == "xfa.build":
			w.streams, _ = xfa.ExtractAllXFAStreams(d.in, nil, false)
		}
	}
	if d.name == "xfa" {
		f := tfield{name: "f", descName: "desc", label: "L", options: []string{"a", "b"}, validate: 5, text: "p", box: [4]string{"1", "2", "3", "4"}, events: []tevent{{"change", "", "s", false}}}
		w.schema = &types.FormSchema{Metadata: types.FormMetadata{Title: "T"}}
		w.schema.Questions = append(w.schema.Questions, f.question(1, &w.schema.Rules))
		for _, k := range settingKinds() {
			var all []chosen
			for s := range k.settings {
				all = append(all, chosen{s, s})
			}
			v, _ := k.make([][]chosen{all}, "")
			w.settings = append(w.settings, v)
		}
	}
	w.data = types.FormData{"name": "x(y)", "box": true, "ch": "b", "grp.k1": "z", "a": "new", "grp": map[string]interface{}{"k1": "zz"}}
	w.marks = []types.Bookmark{{Title: "A", PageNumber: 1, Children: []types.Bookmark{{Title: "B", PageNumber: 2}}}}
	w.meta = &types.DocumentMetadata{Title: "T(x)", CreationDate: "2024-01-02T03:04:05Z", ModDate: "2024-01-02T03:04:05Z", Custom: map[string]string{"K": "v", "A": "w"}}
	return w
}

// shared shows the state the calls share, which none may change.
func (w *world) shared() string {
	return jsonOf(w.data) + jsonOf(w.marks) + jsonOf(w.meta) + jsonOf(w.streams) + jsonOf(w.af) + jsonOf(w.schema) + jsonOf(w.settings)
}

func seqTo(n int) (out []int) {
	for k := 0; k < n; k++ {
		out = append(out, k)
	}
	return out
}

func failed(err error) func() string { return func() string { return "error: " + err.Error() } }

// shown gives the bytes of a result.
func shownOf(parts ...interface{}) func() string {
	return func() string {
		var sb strings.Builder
		for _, p := range parts {
			switch x := p.(type) {
			case []byte:
				fmt.Fprintf(&sb, "%d:%s;", len(x), x)
			case [][]byte:
				for _, b := range x {
					fmt.Fprintf(&sb, "%d:%s,", len(b), b)
				}
			case string:
				fmt.Fprintf(&sb, "%s;", x)
			case error:
				fmt.Fprintf(&sb, "error %v;", x)
			case []error:
				fmt.Fprintf(&sb, "errors %v;", x)
			case func() string:
				sb.WriteString(x())
			default:
				j, err := json.Marshal(x)
				fmt.Fprintf(&sb, "%s%v;", j, err)
			}
		}
		return sb.String()
	}
}

// pdfOut shows a written document; encrypted ones by what they contain.
func (w *world) pdfOut(b []byte, err error) func() string {
	if err != nil {
		return failed(err)
	}
	return func() string {
		if w.d.kind != "crypt" {
			return string(b)
		}
		p, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: w.d.pwd})
		if err != nil {
			return "unreadable: " + err.Error()
		}
		return allObjects(p)()
	}
}

func allObjects(p *parse.PDF) func() string {
	if p == nil {
		return func() string { return "no document" }
	}
	nums := p.Objects()
	sort.Ints(nums)
	parts := []interface{}{jsonOf(nums)}
	for _, n := range nums {
		o, err := p.GetObject(n)
		parts = append(parts, o, err)
	}
	return shownOf(parts...)
}

func allStreams(p *parse.PDF) func() string {
	if p == nil {
		return func() string { return "no document" }
	}
	var parts []interface{}
	nums := p.Objects()
	sort.Ints(nums)
	for _, n := range nums {
		for _, f := range []func(int) ([]byte, error){p.StreamContent, p.StreamImageData, p.StreamRawContent} {
			o, err := f(n)
			parts = append(parts, o, err)
		}
	}
	return shownOf(parts...)
}

func rawObjects(p *parse.PDF) func() string {
	if p == nil || p.Document() == nil {
		return func() string { return "no document" }
	}
	doc := p.Document()
	parts := []interface{}{doc.Bytes(), p.Bytes()}
	for _, r := range doc.Revisions {
		parts = append(parts, r.RevisionBytes(doc))
		if r.XRef != nil {
			parts = append(parts, r.XRef.Bytes())
		}
	}
	nums := p.Objects()
	sort.Ints(nums)
	for _, n := range nums {
		if o, err := p.GetRawObject(n); err == nil {
			parts = append(parts, o.Content(), o.StreamData())
		}
	}
	return shownOf(parts...)
}

func histOps(d *histDoc) []histOp {
	var ops []histOp
	add := func(name string, f func(w *world) func() string) { ops = append(ops, histOp{name, f}) }
	value := func(v interface{}, err error) func() string {
		if err != nil {
			return failed(err)
		}
		return shownOf(v)
	}
	add("open", func(w *world) func() string {
		p, err := parse.OpenWithOptions(w.d.in, parse.ParseOptions{Password: w.d.pwd})
		if err != nil {
			return failed(err)
		}
		return shownOf(p.Version(), p.RevisionCount(), p.Trailer(), allObjects(p))
	})
	add("open-perfect", func(w *world) func() string {
		p, err := parse.OpenWithOptions(w.d.in, parse.ParseOptions{Password: w.d.pwd, BytePerfect: true})
		if err != nil {
			return failed(err)
		}
		return shownOf(p.Version(), p.RevisionCount(), p.Trailer(), rawObjects(p))
	})
	add("handle.objects", func(w *world) func() string { return allObjects(w.std) })
	add("handle.streams", func(w *world) func() string { return allStreams(w.std) })
	add("handle.info", func(w *world) func() string {
		p := w.std
		if p == nil {
			return shownOf("none")
		}
		return shownOf(p.Version(), p.RevisionCount(), p.ObjectCount(), p.Trailer(), p.Bytes(), p.Raw(), p.FileID(), p.CatalogValue("/Pages"), p.IsEncrypted(), p.DirectEncryptDict())
	})
	add("perfect.objects", func(w *world) func() string { return shownOf(allObjects(w.perf), rawObjects(w.perf)) })
	add("functions", func(w *world) func() string {
		b := w.d.in
		var parts []interface{}
		for n := 1; n < 8; n++ {
			o, err := parse.GetObject(b, n, nil, false)
			l, err2 := parse.FindObjectLocation(b, n, false)
			parts = append(parts, o, err, l, err2)
		}
		tr, err := parse.ParsePDFTrailer(b)
		parts = append(parts, tr, err, parse.CountRevisions(b), parse.GetRevisionBoundaries(b), parse.FindAllEOFMarkers(b), encrypt.ExtractFileID(b, false))
		r, err := parse.ExtractRevision(b, 1)
		return shownOf(append(parts, r, err)...)
	})
	add("decrypt", func(w *world) func() string {
		b, e, err := encrypt.DecryptPDF(w.d.in, w.d.pwd, false)
		if err != nil {
			return failed(err)
		}
		if e == nil {
			return shownOf(b)
		}
		o, err := encrypt.DecryptPDFObjects(b, e, false)
		return shownOf(b, e, o, err)
	})
	add("content", func(w *world) func() string { return value(extract.ExtractContent(w.d.in, w.d.pwd, false)) })
	add("json", func(w *world) func() string { return value(extract.ExtractContentToJSON(w.d.in, w.d.pwd, false)) })
	add("images", func(w *world) func() string { return value(extract.ExtractAllImages(w.d.in, w.d.pwd, false)) })
	add("handle.pages", func(w *world) func() string {
		if w.std == nil {
			return shownOf("none")
		}
		p, err := extract.ExtractPages(w.d.in, w.std, false)
		b, err2 := extract.ExtractBookmarks(w.d.in, w.std, false)
		m, err3 := extract.ExtractMetadata(w.d.in, w.std, false)
		return shownOf(p, err, b, err2, m, err3)
	})
	if d.kind != "form" {
		add("rotate-delete", func(w *world) func() string {
			m, err := manipulate.NewPDFManipulator(w.d.in, w.d.pwd, false)
			if err != nil {
				return failed(err)
			}
			e1, e2, e3 := m.RotateAllPages(90), m.RotatePage(1, 180), m.DeletePage(1)
			return shownOf(e1, e2, e3, w.pdfOut(m.Rebuild()))
		})
		add("handle.manipulate", func(w *world) func() string {
			if w.std == nil {
				return shownOf("none")
			}
			m, err := manipulate.NewManipulatorFor(w.std, w.d.in, false)
			if err != nil {
				return failed(err)
			}
			e1 := m.RotatePage(1, 270)
			e2 := m.InsertPage(1, 90, []byte("<</Type/Page/MediaBox[0 0 7 7]>>"))
			return shownOf(e1, e2, w.pdfOut(m.Rebuild()))
		})
		add("pick", func(w *world) func() string {
			return w.pdfOut(manipulate.ExtractPages(w.d.in, []int{1}, w.d.pwd, false))
		})
		add("split", func(w *world) func() string {
			bs, err := manipulate.SplitPDFByPageCount(w.d.in, 1, w.d.pwd, false)
			parts := []interface{}{err}
			for _, b := range bs {
				parts = append(parts, w.pdfOut(b, nil))
			}
			return shownOf(parts...)
		})
		add("merge", func(w *world) func() string {
			return w.pdfOut(manipulate.MergePDFs([][]byte{w.d.in, w.d.other, w.d.in}, [][]byte{w.d.pwd, nil, w.d.pwd}, false))
		})
		add("compare", func(w *world) func() string {
			r, err := compare.ComparePDFs(w.d.in, w.d.other, w.d.pwd, nil, false)
			if err != nil {
				return failed(err)
			}
			j, err := compare.GenerateJSONReport(r)
			return shownOf(r, compare.GenerateReport(r), j, err)
		})
	}
	add("detect", func(w *world) func() string { return value(forms.Detect(w.d.in, w.d.pwd, false)) })
	if d.kind == "form" {
		add("forms", func(w *world) func() string {
			f, err := forms.Extract(w.d.in, w.d.pwd, false)
			if err != nil || f == nil {
				return shownOf(err, f == nil)
			}
			return shownOf(f.Schema(), f.GetValues(), f.Validate(w.data))
		})
		add("form.read", func(w *world) func() string {
			if w.form == nil {
				return shownOf("none")
			}
			return shownOf(w.form.Schema(), w.form.GetValues(), w.form.Validate(w.data))
		})
		add("form.fill", func(w *world) func() string {
			if w.form == nil {
				return shownOf("none")
			}
			return value(w.form.Fill(w.d.in, w.data, w.d.pwd, false))
		})
		add("acroform", func(w *world) func() string {
			af := w.af
			if af == nil {
				return shownOf("none")
			}
			parts := []interface{}{af, af.GetFieldValues(), af.ToFormSchema(), acroform.ValidateFormData(af, w.data), af.FindFieldByName("grp.k1")}
			for _, f := range af.Fields {
				a, err := acroform.GetFieldAppearance(f, w.d.in, nil, false)
				parts = append(parts, a, err)
			}
			return shownOf(parts...)
		})
		add("fill", func(w *world) func() string { return value(acroform.FillForm(w.d.in, w.data, w.d.pwd, false)) })
		add("fill-streams", func(w *world) func() string {
			return value(acroform.FillFormFieldsWithStreams(w.d.in, w.data, w.d.pwd, false))
		})
		add("fill-fields", func(w *world) func() string {
			return value(acroform.FillFormFields(w.d.in, w.data, w.d.pwd, false))
		})
		add("flatten", func(w *world) func() string { return value(acroform.FlattenForm(w.d.in, w.d.pwd, false)) })
		add("schema", func(w *world) func() string { return value(acroform.ExtractFormSchema(w.d.in, w.d.pwd, false)) })
	}
	if d.name == "xfa" {
		add("xfa.streams", func(w *world) func() string {
			s, err := xfa.ExtractAllXFAStreams(w.d.in, nil, false)
			x, n, err2 := xfa.FindXFADatasetsStream(w.d.in, nil, false)
			return shownOf(s, err, x, n, err2)
		})
		add("xfa.update", func(w *world) func() string { return value(xfa.UpdateXFAInPDF(w.d.in, w.data, nil, false)) })
		add("xfa.rebuild", func(w *world) func() string {
			return value(xfa.RebuildPDFFromXFAStreams(w.d.in, w.streams, nil, false))
		})
		add("xfa.build", func(w *world) func() string { return value(xfa.BuildPDFFromXFAStreams(w.streams, false)) })
		add("xfa.parse", func(w *world) func() string {
			f, err := xfa.ParseXFAForm(xfaTemplate, false)
			s, err2 := xfa.ParseXFADatasets(xfaDatasets, false)
			u, err3 := xfa.UpdateXFAFieldValues(xfaDatasets, w.data, false)
			return shownOf(f, err, s, err2, u, err3)
		})
		add("xfa.write", func(w *world) func() string {
			f, err := xfa.FormToXFA(w.schema, false)
			parts := []interface{}{f, err}
			for i, k := range settingKinds() {
				o, err := k.write(w.settings[i])
				v, err2 := k.read(o)
				parts = append(parts, o, err, v, err2)
			}
			return shownOf(parts...)
		})
	}
	if d.name == "table" || d.name == "aes" {
		add("build", func(w *world) func() string {
			b := write.NewSimplePDFBuilder()
			for i := 0; i < 2; i++ {
				p := b.AddPage(write.PageSizeA4)
				n := p.AddStandardFont("Helvetica")
				p.Content().BeginText().SetFont(n, 12).ShowText("(a)").EndText()
				p.AddTextWatermark("W", 30, 45)
				b.FinalizePage(p)
			}
			b.Writer().SetMetadata(w.meta)
			err := b.SetBookmarks(w.marks)
			o, err2 := b.Bytes()
			return shownOf(err, o, err2)
		})
		add("fonts", func(w *world) func() string {
			f, err := font.NewFont("F", w.d.ttf)
			if err != nil {
				return failed(err)
			}
			f.AddString("AB")
			b := write.NewSimplePDFBuilder()
			p := b.AddPage(write.PageSizeA4)
			r, err := p.AddEmbeddedFont(f)
			p.Content().BeginText().SetFont(r, 9).ShowText("AB").EndText()
			b.FinalizePage(p)
			o, err2 := b.Bytes()
			return shownOf(r, err, o, err2)
		})
		add("codecs", func(w *world) func() string {
			var parts []interface{}
			enc := []func([]byte) []byte{parse.EncodeASCII85, parse.EncodeASCIIHex, parse.EncodeRunLength}
			for i, n := range []string{"ASCII85Decode", "ASCIIHexDecode", "RunLengthDecode"} {
				e := enc[i](w.d.raw)
				x, err := parse.DecodeFilter(e, n)
				y, err2 := parse.DecodeFilter(w.d.raw, n)
				parts = append(parts, e, x, err, y, err2)
			}
			z, err := xfa.CompressStream(w.d.raw)
			parts = append(parts, z, err)
			return shownOf(parts...)
		})
		add("crypt", func(w *world) func() string {
			b := write.NewSimplePDFBuilder()
			b.FinalizePage(b.AddPage(write.PageSizeA4))
			_, err := b.Writer().SetupEncryptionWithPasswords(w.d.raw, w.d.raw, -4, true)
			o, err2 := b.Bytes()
			p, err3 := parse.OpenWithOptions(o, parse.ParseOptions{Password: w.d.raw})
			if p == nil {
				return shownOf(err, err2, err3)
			}
			c, err4 := p.GetObject(1)
			_, err5 := parse.OpenWithOptions(o, parse.ParseOptions{Password: []byte("wrong")})
			return shownOf(err, err2, err3, p.Version(), p.ObjectCount(), c, err4, err5 != nil)
		})
	}
	return ops
}

// encodingsDoc shows every code in every encoding, so that a change of the tables shows.
func encodingsDoc() robustDoc {
	var codes []byte
	for k := 0x20; k < 0x100; k++ {
		codes = append(codes, byte(k))
	}
	content, fonts := "BT ", ""
	objs := []gen.Obj{
		{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"},
		{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1/MediaBox[0 0 9 9]>>"},
	}
	for k, e := range []string{"/WinAnsiEncoding", "/MacRomanEncoding", "/StandardEncoding", "<</BaseEncoding/WinAnsiEncoding/Differences[200/Lslash/uni0416/euro]>>"} {
		objs = append(objs, gen.Obj{Num: 10 + k, Body: "<</Type/Font/Subtype/Type1/BaseFont/Times/Encoding" + e + ">>"})
		fonts += fmt.Sprintf("/F%d %d 0 R", k, 10+k)
		content += fmt.Sprintf("/F%d 9 Tf <%X> Tj ", k, codes)
	}
	objs = append(objs, gen.Obj{Num: 3, Body: "<</Type/Page/Parent 2 0 R/Contents 4 0 R/Resources<</Font<<" + fonts + ">>>>>>"},
		gen.Obj{Num: 4, Body: "<<>>", Stream: true, Data: content + "ET"})
	b, _ := gen.Build("1.7", []gen.Rev{{Objs: objs, Trailer: "/Root 1 0 R"}})
	return robustDoc{"encodings", b, "", "pages"}
}

var histDocsOnce sync.Once
var histDocsAll []*histDoc

func histDocs() []*histDoc {
	histDocsOnce.Do(func() {
		ds := robustDocs()
		var other []byte
		for _, d := range ds {
			if d.name == "updated" {
				other = readOnly(d.pdf)
			}
		}
		ttf := readOnly(baseTTF().Bytes())
		raw := readOnly([]byte("secret \x00\xff zz zz zz zz"))
		ds = append(ds, encodingsDoc())
		for _, d := range ds {
			h := &histDoc{robustDoc: d, in: readOnly(d.pdf), pwd: readOnly([]byte(d.pw)), other: other, ttf: ttf, raw: raw}
			h.ops = histOps(h)
			histDocsAll = append(histDocsAll, h)
		}
	})
	return histDocsAll
}

// guarded runs f; a write to a protected input and any other panic fails the case.
func guarded(t *core.T, what string, f func()) (ok bool) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if r := recover(); r != nil {
			t.Fail("panic", "%s: %v\n%s", what, r, panicSite(debug.Stack()))
			ok = false
		}
	}()
	f()
	return true
}

// aloneVar names, in the environment, a document and the number of a call (or session) that
// this process is to do alone.
const aloneVar = "VERIFMC_ALONE"

func init() {
	if v := os.Getenv(togetherVar); v != "" {
		runTogether(v)
		os.Exit(0)
	}
	v := os.Getenv(aloneVar)
	if v == "" {
		return
	}
	debug.SetPanicOnFault(true)
	name, num, _ := strings.Cut(v, "/")
	k, _ := strconv.Atoi(num)
	if name == "session" {
		steps, result := sessions()[k].make()
		for _, f := range steps {
			f()
		}
		os.Stdout.WriteString(result())
		os.Exit(0)
	}
	for _, d := range histDocs() {
		if d.name == name {
			os.Stdout.WriteString(d.ops[k].run(newWorld(d, k))())
		}
	}
	os.Exit(0)
}

func aloneProcess(v string) string {
	self, err := os.Executable()
	if err != nil {
		return "no process: " + err.Error()
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), aloneVar+"="+v)
	b, err := cmd.Output()
	if err != nil {
		return "no result: " + err.Error()
	}
	return string(b)
}

func aloneAll(name string, n int) []string {
	out := make([]string, n)
	var wg sync.WaitGroup
	room := make(chan bool, 8)
	for k := range out {
		k := k
		wg.Add(1)
		room <- true
		go func() {
			defer wg.Done()
			out[k] = aloneProcess(fmt.Sprintf("%s/%d", name, k))
			<-room
		}()
	}
	wg.Wait()
	return out
}

// alone is what each call gives as the only one of a process.
func (d *histDoc) alone() []string {
	d.once.Do(func() { d.base = aloneAll(d.name, len(d.ops)) })
	return d.base
}

var sessionsOnce sync.Once
var sessionsBase []string

func sessionsAlone(ss []session) []string {
	sessionsOnce.Do(func() { sessionsBase = aloneAll("session", len(ss)) })
	return sessionsBase
}

func differ(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("from byte %d: …%q and …%q", i, clips(a[from:]), clips(b[from:]))
}

func runHistoryPairs(c *core.Ctx) {
	depth := core.Pick(c, 2, 3)
	for _, d := range histDocs() {
		d := d
		n := len(d.ops)
		depth := depth
		c.ForEach("orders-"+d.name, pow(n, depth), func(i int) string {
			var s []string
			for _, k := range seqOf(i, n, depth) {
				s = append(s, d.ops[k].name)
			}
			return strings.Join(s, ">")
		}, func(t *core.T, i int) {
			base := d.alone()
			seq := seqOf(i, n, depth)
			t.Attach("input.pdf", d.pdf)
			guarded(t, "calls", func() {
				w := newWorld(d, seq...)
				before := w.shared()
				var kept []func() string
				var ks []int
				for _, k := range append(append([]int{}, seq...), seq[0]) {
					r := d.ops[k].run(w)
					t.Step(1)
					kept, ks = append(kept, r), append(ks, k)
					if s := r(); s != base[k] {
						t.Fail("result", "%s gives something else as call %d than alone: %s", d.ops[k].name, len(ks), differ(s, base[k]))
						return
					}
				}
				for x, r := range kept {
					if s := r(); s != base[ks[x]] {
						t.Fail("earlier-result", "what call %d (%s) returned was changed by a later one: %s", x+1, d.ops[ks[x]].name, differ(s, base[ks[x]]))
						return
					}
				}
				if s := w.shared(); s != before {
					t.Fail("argument", "an argument was changed: %s", differ(s, before))
				}
				if !bytes.Equal(d.in, d.pdf) {
					t.Fail("input", "the document was changed")
				}
			})
			for _, k := range seq {
				t.State(d.name + d.ops[k].name + base[k])
			}
			if strings.HasPrefix(base[seq[0]], "error: ") {
				t.Outcome("error")
			} else {
				t.Outcome(d.ops[seq[0]].name)
			}
		})
	}
}

// runHistoryDocs does all calls on one document and then all on another.
func runHistoryDocs(c *core.Ctx) {
	ds := histDocs()
	n := len(ds)
	c.ForEach("documents", n*n, func(i int) string { return ds[i/n].name + ">" + ds[i%n].name }, func(t *core.T, i int) {
		for _, d := range []*histDoc{ds[i/n], ds[i%n]} {
			base := d.alone()
			guarded(t, d.name, func() {
				w := newWorld(d, seqTo(len(d.ops))...)
				for k, o := range d.ops {
					t.Step(1)
					if s := o.run(w)(); s != base[k] {
						t.Fail("result", "%s of %s gives something else than alone: %s", o.name, d.name, differ(s, base[k]))
						return
					}
				}
			})
		}
		t.State("documents " + ds[i/n].name + ds[i%n].name)
	})
}

// session is a use of something with state, in steps.
type session struct {
	name string
	make func() (steps []func(), result func() string)
}

func sessions() []session {
	var out []session
	add := func(name string, f func() ([]func(), func() string)) { out = append(out, session{name, f}) }
	byName := map[string]*histDoc{}
	for _, d := range histDocs() {
		byName[d.name] = d
	}
	// note collects what the steps return.
	type note struct{ parts []interface{} }
	put := func(n *note, v ...interface{}) { n.parts = append(n.parts, v...) }
	for _, name := range []string{"table", "packed"} {
		d := byName[name]
		add("manipulator-"+name, func() ([]func(), func() string) {
			n := &note{}
			var m *manipulate.PDFManipulator
			var out []byte
			return []func(){
				func() { m, _ = manipulate.NewPDFManipulator(d.in, d.pwd, false) },
				func() { put(n, m.RotatePage(1, 90)) },
				func() { put(n, m.InsertPage(1, 90, []byte("<</Type/Page/MediaBox[0 0 7 7]>>"))) },
				func() { o, err := m.Rebuild(); out = o; put(n, err) },
			}, func() string { return shownOf(append(n.parts, out)...)() }
		})
	}
	for _, packed := range []bool{false, true} {
		packed := packed
		add(fmt.Sprintf("writer-%v", packed), func() ([]func(), func() string) {
			n := &note{}
			w := write.NewPDFWriter()
			var s int
			return []func(){
				func() {
					w.UseXRefStream(packed)
					w.UseObjectStream(packed)
					put(n, w.AddObject([]byte("<</Type/Catalog/K 2 0 R>>")))
				},
				func() {
					s = w.AddStreamObject(write.Dictionary{"/A": "/B"}, []byte("data data data"), packed)
					put(n, s)
				},
				func() {
					w.SetRoot(1)
					w.SetMetadataFields(map[string]string{"Title": "t", "ModDate": "2024-01-02T03:04:05Z"})
				},
				func() { b, err := w.Bytes(); put(n, b, err) },
			}, func() string { return shownOf(n.parts...)() }
		})
	}
	for _, name := range []string{"Helvetica", "Courier"} {
		name := name
		add("builder-"+name, func() ([]func(), func() string) {
			n := &note{}
			b := write.NewSimplePDFBuilder()
			var p, q *write.PageBuilder
			return []func(){
				func() { p = b.AddPage(write.PageSizeA4); p.Content().SaveState().Rectangle(1, 2, 3, 4) },
				func() {
					q = b.AddPage(write.PageSizeLetter)
					f := q.AddStandardFont(name)
					q.Content().BeginText().SetFont(f, 9).ShowText(name).EndText()
					b.FinalizePage(q)
				},
				func() { p.Content().Fill().RestoreState(); put(n, p.AddTextWatermark(name, 30, 45)); b.FinalizePage(p) },
				func() {
					put(n, b.SetBookmarks([]types.Bookmark{{Title: name, PageNumber: 1}}))
					o, err := b.Bytes()
					put(n, o, err)
				},
			}, func() string { return shownOf(n.parts...)() }
		})
		add("font-"+name, func() ([]func(), func() string) {
			n := &note{}
			var f *font.Font
			b := write.NewSimplePDFBuilder()
			text := map[string]string{"Helvetica": "AB", "Courier": "BA é"}[name]
			return []func(){
				func() { f, _ = font.NewFont(name, byName["table"].ttf); f.AddString(text) },
				func() { g, err := f.GetSubsetGlyphs(); x, err2 := f.GetWidths(); put(n, g, err, x, err2) },
				func() {
					p := b.AddPage(write.PageSizeA4)
					r, err := p.AddEmbeddedFont(f)
					p.Content().BeginText().SetFont(r, 9).ShowText(text).EndText()
					put(n, r, err)
					b.FinalizePage(p)
				},
				func() { o, err := b.Bytes(); put(n, o, err) },
			}, func() string { return shownOf(n.parts...)() }
		})
		add("form-"+name, func() ([]func(), func() string) {
			n := &note{}
			b := write.NewSimplePDFBuilder()
			fb := acroform.NewFormBuilder(b)
			return []func(){
				func() {
					b.FinalizePage(b.AddPage(write.PageSizeA4))
					fb.AddTextField("t"+name, []float64{1, 2, 3, 4}, 0).SetValue(name)
				},
				func() { fb.AddChoiceField("c", []float64{1, 2, 3, 4}, 0, []string{name, "b"}) },
				func() { fb.AddCheckbox("k", []float64{1, 2, 3, 4}, 0); r, err := fb.BuildForm(); put(n, r, err) },
				func() { o, err := b.Bytes(); put(n, o, err) },
			}, func() string { return shownOf(n.parts...)() }
		})
		add("content-"+name, func() ([]func(), func() string) {
			cs := write.NewContentStream()
			return []func(){
				func() { cs.SaveState().SetFillColorRGB(1, 0, 0) },
				func() { cs.BeginText().SetFont(name, 5) },
				func() { cs.ShowText(name).EndText() },
				func() { cs.RestoreState() },
			}, func() string { return cs.String() }
		})
	}
	for i, data := range []types.FormData{{"name": "one"}, {"name": "two", "ch": "b"}} {
		data := data
		d := byName["acroform"]
		add(fmt.Sprintf("filling%d", i), func() ([]func(), func() string) {
			n := &note{}
			var f forms.Form
			var o []byte
			return []func(){
				func() { f, _ = forms.Extract(d.in, d.pwd, false); put(n, f.Schema(), f.GetValues()) },
				func() { o, _ = f.Fill(d.in, data, nil, false); put(n, o, f.GetValues()) },
				func() { f, _ = forms.Extract(o, nil, false); put(n, f.GetValues()) },
				func() { o, _ = acroform.FlattenForm(o, nil, false); put(n, o) },
			}, func() string { return shownOf(n.parts...)() }
		})
		x := byName["xfa"]
		add(fmt.Sprintf("xfa%d", i), func() ([]func(), func() string) {
			n := &note{}
			var s *xfa.XFAStreams
			var o []byte
			return []func(){
				func() { s, _ = xfa.ExtractAllXFAStreams(x.in, nil, false); put(n, s) },
				func() { o, _ = xfa.UpdateXFAInPDF(x.in, types.FormData{"a": data["name"]}, nil, false); put(n, o) },
				func() { s, _ = xfa.ExtractAllXFAStreams(o, nil, false) },
				func() { b, err := xfa.BuildPDFFromXFAStreams(s, false); put(n, b, err) },
			}, func() string { return shownOf(n.parts...)() }
		})
	}
	for _, name := range []string{"updated", "aes"} {
		d := byName[name]
		add("reader-"+name, func() ([]func(), func() string) {
			n := &note{}
			var p *parse.PDF
			return []func(){
				func() { p, _ = parse.OpenWithOptions(d.in, parse.ParseOptions{Password: d.pwd, BytePerfect: true}) },
				func() { put(n, allObjects(p)) },
				func() { put(n, allStreams(p)) },
				func() { put(n, rawObjects(p)); g, err := extract.ExtractPages(d.in, p, false); put(n, g, err) },
			}, func() string { return shownOf(n.parts...)() }
		})
	}
	return out
}

func merges() [][]int {
	var out [][]int
	var rec func(a, b int, p []int)
	rec = func(a, b int, p []int) {
		if a == 4 && b == 4 {
			out = append(out, append([]int(nil), p...))
			return
		}
		if a < 4 {
			rec(a+1, b, append(p, 0))
		}
		if b < 4 {
			rec(a, b+1, append(p, 1))
		}
	}
	rec(0, 0, nil)
	return out
}

func runSessions(c *core.Ctx) {
	ss := sessions()
	ms := merges()
	n := len(ss)
	c.ForEach("sessions", n*n, func(i int) string { return ss[i/n].name + "|" + ss[i%n].name }, func(t *core.T, i int) {
		base := sessionsAlone(ss)
		a, b := i/n, i%n
		for _, m := range ms {
			if t.Failed() {
				return
			}
			guarded(t, fmt.Sprint("interleaving ", m), func() {
				sa, ra := ss[a].make()
				sb, rb := ss[b].make()
				p, q := 0, 0
				for _, x := range m {
					if x == 0 {
						sa[p]()
						p++
					} else {
						sb[q]()
						q++
					}
				}
				t.Step(8)
				if s := ra(); s != base[a] {
					t.Fail("result", "%s, mixed with %s as %v, gives something else than alone: %s", ss[a].name, ss[b].name, m, differ(s, base[a]))
				} else if s := rb(); s != base[b] {
					t.Fail("result", "%s, mixed with %s as %v, gives something else than alone: %s", ss[b].name, ss[a].name, m, differ(s, base[b]))
				}
			})
		}
		t.State(ss[a].name + ss[b].name)
		t.Outcome(ss[a].name)
	})
}

// flag is set and awaited outside of what the race detector sees, so that it orders
// nothing.
type flag struct{ v uint32 }

//go:norace
//go:noinline
func (f *flag) set() { f.v = 1 }

//go:norace
//go:noinline
func (f *flag) isSet() bool { return f.v != 0 }

//go:norace
func (f *flag) wait() {
	for !f.isSet() {
	}
}

// together runs a and b in two goroutines; first, if not negative, is done before the other
// starts, without the race detector seeing that.
func together(a, b func(), first int) {
	var done [2]flag
	var started [2]flag
	var wg sync.WaitGroup
	wg.Add(2)
	for k, f := range []func(){a, b} {
		k, f := k, f
		go func() {
			defer wg.Done()
			started[k].set()
			started[1-k].wait()
			if first == 1-k {
				done[first].wait()
			}
			f()
			if first == k {
				// What pools of the standard library hold would order the calls.
				runtime.GC()
				runtime.GC()
			}
			done[k].set()
		}()
	}
	wg.Wait()
}

// togetherVar names, in the environment, a document (or "session") and two calls that this
// process is to make in two goroutines.
const togetherVar = "VERIFMC_TOGETHER"

// met is what a process that made two calls at once says.
type met struct {
	Results [][2]string // for each order
	Panics  []string
	Shared  string
}

// runTogether makes the two calls in a new process, so that whatever is set up on first use
// is set up by them.
func runTogether(v string) {
	f := strings.Split(v, "/")
	var call [2]int
	call[0], _ = strconv.Atoi(f[1])
	call[1], _ = strconv.Atoi(f[2])
	var m met
	var d *histDoc
	var ss []session
	if f[0] == "session" {
		ss = sessions()
	} else {
		for _, x := range histDocs() {
			if x.name == f[0] {
				d = x
			}
		}
	}
	// Two processes make each pair of calls: one of them starts with an order in which nothing
	// but the calls themselves orders the first use of what they share.
	orders := []int{0, -1}
	if f[3] == "1" {
		orders = []int{-1, 1}
	}
	for _, first := range orders {
		var res, panics [2]string
		var kept [2]func() string
		var w *world
		before := ""
		if d != nil {
			w = newWorld(d, call[0], call[1])
			before = w.shared()
		}
		run := func(k int) func() {
			return func() {
				old := debug.SetPanicOnFault(true)
				defer debug.SetPanicOnFault(old)
				defer func() {
					if r := recover(); r != nil {
						panics[k] = fmt.Sprintf("%v %s", r, panicSite(debug.Stack()))
					}
				}()
				if d != nil {
					kept[k] = d.ops[call[k]].run(w)
					return
				}
				steps, result := ss[call[k]].make()
				for _, f := range steps {
					f()
				}
				kept[k] = result
			}
		}
		together(run(0), run(1), first)
		for k := range kept {
			if kept[k] != nil {
				res[k] = kept[k]()
			}
		}
		m.Results = append(m.Results, res)
		for _, p := range panics {
			if p != "" {
				m.Panics = append(m.Panics, p)
			}
		}
		if d != nil && w.shared() != before {
			m.Shared = differ(w.shared(), before)
		}
	}
	for i := range m.Results {
		for k := range m.Results[i] {
			m.Results[i][k] = fmt.Sprintf("%016x", core.Hash64(m.Results[i][k]))
		}
	}
	json.NewEncoder(os.Stdout).Encode(m)
}

// meeting makes two calls in a new process and judges them.
func meeting(t *core.T, kind string, a, b int, names, base [2]string) {
	self, err := os.Executable()
	if err != nil {
		t.Fail("process", "%v", err)
		return
	}
	for half := 0; half < 2; half++ {
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), fmt.Sprintf("%s=%s/%d/%d/%d", togetherVar, kind, a, b, half), "GOMAXPROCS=4")
		var out, diag bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &diag
		err = cmd.Run()
		t.Step(4)
		if strings.Contains(diag.String(), "DATA RACE") || strings.Contains(diag.String(), "concurrent map") {
			t.Fail("race", "%s and %s, in two goroutines, access the same memory: %s", names[0], names[1], clips(diag.String()))
			return
		}
		var m met
		if err != nil || json.Unmarshal(out.Bytes(), &m) != nil {
			t.Fail("crash", "%s and %s, in two goroutines, end the process: %v %s", names[0], names[1], err, clips(diag.String()))
			return
		}
		for _, p := range m.Panics {
			t.Fail("panic", "%s and %s in two goroutines: %s", names[0], names[1], p)
		}
		for i, r := range m.Results {
			for k := range r {
				if r[k] != fmt.Sprintf("%016x", core.Hash64(base[k])) {
					t.Fail("result", "%s gives something else beside %s than alone (order %d.%d)", names[k], names[1-k], half, i)
				}
			}
		}
		if m.Shared != "" {
			t.Fail("argument", "an argument was changed: %s", m.Shared)
		}
		if t.Failed() {
			return
		}
	}
}

func runSchedules(c *core.Ctx) {
	if !core.Race {
		c.Note("built without the race detector: schedules are compared by result only")
	}
	pairsOf := func(n int) (pairs [][2]int) {
		for a := 0; a < n; a++ {
			for b := a; b < n; b++ {
				pairs = append(pairs, [2]int{a, b})
			}
		}
		return pairs
	}
	for _, d := range histDocs() {
		d := d
		switch d.name {
		case "table", "aes", "acroform", "xfa", "encodings":
		default:
			if !c.Thorough() {
				continue
			}
		}
		pairs := pairsOf(len(d.ops))
		c.ForEach("schedules-"+d.name, len(pairs), func(i int) string {
			return d.ops[pairs[i][0]].name + "|" + d.ops[pairs[i][1]].name
		}, func(t *core.T, i int) {
			base := d.alone()
			a, b := pairs[i][0], pairs[i][1]
			t.Attach("input.pdf", d.pdf)
			meeting(t, d.name, a, b, [2]string{d.ops[a].name, d.ops[b].name}, [2]string{base[a], base[b]})
			t.State(d.name + d.ops[a].name + d.ops[b].name)
			t.Outcome(d.ops[a].name)
		})
	}
	ss := sessions()
	pairs := pairsOf(len(ss))
	c.ForEach("schedules-sessions", len(pairs), func(i int) string { return ss[pairs[i][0]].name + "|" + ss[pairs[i][1]].name }, func(t *core.T, i int) {
		base := sessionsAlone(ss)
		a, b := pairs[i][0], pairs[i][1]
		meeting(t, "session", a, b, [2]string{ss[a].name, ss[b].name}, [2]string{base[a], base[b]})
		t.State("s" + ss[a].name + ss[b].name)
		t.Outcome(ss[a].name)
	})
}
