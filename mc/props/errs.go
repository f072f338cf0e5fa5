package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/resources/font"
	"github.com/benedoc-inc/pdfer/types"

	"verifmc/core"
	"verifmc/gen"
)

func init() {
	core.Register(&core.Prop{ID: "P25", Level: "model_checking", Run: runErrors,
		Rule: "A case is an error tree (every tree of the library's constructors and Go's wrapping up to a depth), a sequence of operations on a warning collector, one entry point with one document and password, one object number of a document, one failing byte of an output or input stream, or one set of obstacles in an output directory. Each is compared with a reference model of what was built or done. Non-trivial: the case has an error, a warning or a fault.",
		Assumptions: []string{
			"which of several errors joined with errors.Join or several %w is the first follows errors.As (depth first)",
			"obstacles in a directory are files where directories are needed, directories where files are needed, and links to a device that is always full",
			"encryption with RC4 and AES-128 by an independent implementation, and AES-256 as the library itself writes it",
		},
	})
}

func runErrors(c *core.Ctx) {
	runErrorTrees(c)
	runCollector(c)
	runKinds(c)
	runMissing(c)
	runStreams(c)
	runObstacles(c)
}

// --- error trees ---------------------------------------------------------------------

var errCodes = []struct {
	code     types.PDFErrorCode
	sentinel error
}{
	{types.ErrCodeInvalidPDF, types.ErrInvalidPDF}, {types.ErrCodeMalformedPDF, types.ErrMalformedPDF}, {types.ErrCodeUnsupportedPDF, types.ErrUnsupportedPDF},
	{types.ErrCodeObjectNotFound, types.ErrObjectNotFound}, {types.ErrCodeInvalidObject, types.ErrInvalidObject}, {types.ErrCodeStreamError, types.ErrStreamError},
	{types.ErrCodeXRefError, types.ErrXRefError}, {types.ErrCodeEncrypted, types.ErrEncrypted}, {types.ErrCodeDecryptionFailed, types.ErrDecryptionFailed},
	{types.ErrCodeWrongPassword, types.ErrWrongPassword}, {types.ErrCodeUnsupportedCrypto, types.ErrUnsupportedCrypto}, {types.ErrCodeNoForms, types.ErrNoForms},
	{types.ErrCodeInvalidForm, types.ErrInvalidForm}, {types.ErrCodeFieldNotFound, types.ErrFieldNotFound}, {types.ErrCodeInvalidValue, types.ErrInvalidValue},
	{types.ErrCodeValidationError, types.ErrValidationError}, {types.ErrCodeNoContent, types.ErrNoContent}, {types.ErrCodeExtractionError, types.ErrExtractionError},
	{types.ErrCodeFontError, types.ErrFontError}, {types.ErrCodeImageError, types.ErrImageError}, {types.ErrCodeWriteError, types.ErrWriteError},
	{types.ErrCodeInvalidInput, types.ErrInvalidInput}, {types.ErrCodeIOError, types.ErrIOError},
}

func errClass(code types.PDFErrorCode) (notFound, crypt, invalid bool) {
	switch code {
	case "OBJECT_NOT_FOUND", "FIELD_NOT_FOUND":
		notFound = true
	case "ENCRYPTED", "DECRYPTION_FAILED", "WRONG_PASSWORD", "UNSUPPORTED_CRYPTO":
		crypt = true
	case "VALIDATION_ERROR", "INVALID_VALUE":
		invalid = true
	}
	return
}

// merr is an error and what is known about it: its text and the library's errors in it, the outermost first.
type merr struct {
	err  error
	text string
	pdf  []*types.PDFError
	leaf []error // the errors of others in it
	how  string
}

func leafErrors() []merr {
	plain := errors.New("plain")
	out := []merr{{err: plain, text: "plain", leaf: []error{plain}, how: "plain"}, {err: io.EOF, text: "EOF", leaf: []error{io.EOF}, how: "EOF"}}
	for i, c := range errCodes {
		e := types.NewPDFError(c.code, fmt.Sprint("m", i))
		if i%2 == 1 {
			e = types.NewPDFErrorf(c.code, "m%d", i)
		}
		out = append(out, merr{err: e, text: fmt.Sprintf("[%s] m%d", c.code, i), pdf: []*types.PDFError{e}, how: string(c.code)})
	}
	return out
}

const wrapKinds = 9

// wrapped builds a larger error tree from one or two.
func wrapped(kind int, code types.PDFErrorCode, x, y merr) merr {
	lib := func(e *types.PDFError, how string) merr {
		return merr{err: e, text: fmt.Sprintf("[%s] w 100%%: %s", code, x.text), pdf: append([]*types.PDFError{e}, x.pdf...), leaf: x.leaf, how: how + "(" + x.how + ")"}
	}
	both := func(err error, text, how string, first, second merr) merr {
		return merr{err: err, text: text, pdf: append(append([]*types.PDFError{}, first.pdf...), second.pdf...), leaf: append(append([]error{}, first.leaf...), second.leaf...), how: how + "(" + first.how + "," + second.how + ")"}
	}
	switch kind {
	case 0:
		return lib(types.WrapError(code, "w 100%", x.err), "WrapError "+string(code))
	case 1:
		return lib(types.WrapErrorf(code, x.err, "w %d%%", 100), "WrapErrorf "+string(code))
	case 2:
		return merr{err: fmt.Errorf("go: %w", x.err), text: "go: " + x.text, pdf: x.pdf, leaf: x.leaf, how: "%w(" + x.how + ")"}
	case 3:
		return merr{err: fmt.Errorf("cut: %v", x.err), text: "cut: " + x.text, how: "%v(" + x.how + ")"}
	case 4:
		return both(errors.Join(x.err, y.err), x.text+"\n"+y.text, "join", x, y)
	case 5:
		return both(errors.Join(nil, y.err, x.err), y.text+"\n"+x.text, "join", y, x)
	case 6:
		return both(fmt.Errorf("%w/%w", x.err, y.err), x.text+"/"+y.text, "%w%w", x, y)
	case 7: // a context says nothing about the kind
		e := types.WrapError(code, "w 100%", x.err)
		if e.WithContext("k", 1).WithContext("l", x.err).WithContext("k", 2) != e || len(e.Context) != 2 || e.Context["k"] != 2 || e.Context["l"] != x.err {
			return merr{err: e, text: "WithContext does not return the same error with the context"}
		}
		return lib(e, "WithContext "+string(code))
	}
	return merr{err: &pathErr{x.err}, text: "path: " + x.text, pdf: x.pdf, leaf: x.leaf, how: "Unwrap(" + x.how + ")"}
}

// pathErr is somebody else's error with a cause.
type pathErr struct{ cause error }

func (e *pathErr) Error() string { return "path: " + e.cause.Error() }
func (e *pathErr) Unwrap() error { return e.cause }

func judgeError(t *core.T, m merr) {
	if m.err.Error() != m.text {
		t.Fail("text", "%s: %q, want %q", m.how, m.err.Error(), m.text)
	}
	has := map[types.PDFErrorCode]bool{}
	for _, e := range m.pdf {
		has[e.Code] = true
	}
	for _, c := range errCodes {
		if errors.Is(m.err, c.sentinel) != has[c.code] {
			t.Fail("is", "%s: errors.Is(%s) = %v", m.how, c.code, !has[c.code])
		}
		t.Step(1)
	}
	for _, l := range m.leaf {
		if !errors.Is(m.err, l) {
			t.Fail("is", "%s: the cause %q is lost", m.how, l)
		}
	}
	for _, e := range m.pdf {
		if !errors.Is(m.err, e) {
			t.Fail("is", "%s: not itself", m.how)
		}
	}
	p, ok := types.IsPDFError(m.err)
	code, okc := types.GetErrorCode(m.err)
	var nf, cr, iv bool
	if len(m.pdf) > 0 {
		if !ok || p != m.pdf[0] || !okc || code != m.pdf[0].Code {
			t.Fail("code", "%s: IsPDFError %v, GetErrorCode %q %v, want %s", m.how, ok, code, okc, m.pdf[0].Code)
		}
		nf, cr, iv = errClass(m.pdf[0].Code)
	} else if ok || p != nil || okc || code != "" {
		t.Fail("code", "%s: IsPDFError %v, GetErrorCode %q %v, want none", m.how, ok, code, okc)
	}
	if types.IsNotFound(m.err) != nf || types.IsEncryptionError(m.err) != cr || types.IsValidationError(m.err) != iv {
		t.Fail("class", "%s: IsNotFound %v, IsEncryptionError %v, IsValidationError %v, want %v %v %v", m.how, types.IsNotFound(m.err), types.IsEncryptionError(m.err), types.IsValidationError(m.err), nf, cr, iv)
	}
	t.Step(5)
	t.State(m.how)
}

func runErrorTrees(c *core.Ctx) {
	leaves := leafErrors()
	// one wrapping of every kind with every code around every leaf
	nc := len(errCodes)
	c.ForEach("errors", len(leaves)*nc, func(i int) string { return fmt.Sprint(leaves[i/nc].how, " in ", errCodes[i%nc].code) }, func(t *core.T, i int) {
		x := leaves[i/nc]
		judgeError(t, x)
		for k := 0; k < wrapKinds; k++ {
			for _, y := range leaves {
				judgeError(t, wrapped(k, errCodes[i%nc].code, x, y))
				if k < 4 || k > 6 {
					break
				}
			}
		}
		if i == 0 {
			if _, ok := types.IsPDFError(nil); ok || types.IsNotFound(nil) || types.IsEncryptionError(nil) || types.IsValidationError(nil) {
				t.Fail("nil", "no error has a kind")
			}
			if e := types.WrapError(errCodes[0].code, "m", nil); e.Unwrap() != nil || e.Error() != "[INVALID_PDF] m" {
				t.Fail("nil", "an error without a cause: %v", e)
			}
		}
	})
	// chains of kinds, with codes of each class
	few := []types.PDFErrorCode{"OBJECT_NOT_FOUND", "WRONG_PASSWORD", "INVALID_VALUE", "IO_ERROR"}
	depth := core.Pick(c, 4, 5)
	var start []merr
	for _, l := range leaves {
		switch l.how {
		case "plain", "FIELD_NOT_FOUND", "ENCRYPTED", "VALIDATION_ERROR", "NO_FORMS":
			start = append(start, l)
		}
	}
	n := wrapKinds * len(few)
	c.ForEach("chains", n*n, func(i int) string { return fmt.Sprint("chains ", i%n, " ", i/n) }, func(t *core.T, i int) {
		for s, l := range start {
			other := start[(s+1)%len(start)]
			x := wrapped(i%n/len(few), few[i%len(few)], l, other)
			x = wrapped(i/n/len(few), few[i/n%len(few)], x, other)
			for k := 0; k < pow(n, depth-3); k++ {
				y := x
				for j, q := range seqOf(k, n, depth-3) {
					y = wrapped(q/len(few), few[q%len(few)], y, start[(s+j+2)%len(start)])
				}
				judgeError(t, y)
			}
		}
	})
}

// --- the collector -------------------------------------------------------------------

func runCollector(c *core.Ctx) {
	levels := []types.WarningLevel{types.WarningLevelInfo, types.WarningLevelWarning, types.WarningLevelError}
	type mw struct{ level, code, msg string }
	names := []string{"Add(nil)", "Add", "AddWarning", "AddWarningf", "AddWarningWithCode", "Clear", "Enable", "Disable", "change results"}
	depth := core.Pick(c, 5, 7)
	nop := len(names)
	show := func(w *types.Warning) mw { return mw{string(w.Level), w.Code, w.Message} }
	list := func(ws []*types.Warning) string {
		var out []string
		for _, w := range ws {
			if w == nil {
				return "nil"
			}
			out = append(out, fmt.Sprint(show(w)))
		}
		return strings.Join(out, ",")
	}
	c.ForEach("collector", pow(nop, 2)*2, func(i int) string {
		return fmt.Sprint("enabled=", i%2 == 1, " ", names[i/2%nop], " ", names[i/2/nop])
	}, func(t *core.T, i int) {
		for k := 0; k < pow(nop, depth-2); k++ {
			wc := types.NewWarningCollector(i%2 == 1)
			on := i%2 == 1
			var want []mw
			type held struct {
				got  []*types.Warning
				is   string
				what string
			}
			var holds []held
			ops := append([]int{i / 2 % nop, i / 2 / nop}, seqOf(k, nop, depth-2)...)
			for j, op := range ops {
				lv := levels[j%3]
				add := func(m mw) {
					if on {
						want = append(want, m)
					}
				}
				switch op {
				case 0:
					wc.Add(nil)
				case 1:
					w := types.NewWarningf(lv, "a%d", j)
					wc.Add(w.WithContext("k", j))
					add(mw{string(lv), "", fmt.Sprint("a", j)})
				case 2:
					wc.AddWarning(lv, "b 100%")
					add(mw{string(lv), "", "b 100%"})
				case 3:
					wc.AddWarningf(lv, "c%d", j)
					add(mw{string(lv), "", fmt.Sprint("c", j)})
				case 4:
					wc.AddWarningWithCode(lv, []string{"X", "Y"}[j%2], "d%")
					add(mw{string(lv), []string{"X", "Y"}[j%2], "d%"})
				case 5:
					wc.Clear()
					want = nil
				case 6:
					wc.Enable()
					on = true
				case 7:
					wc.Disable()
					on = false
				case 8: // the results belong to the caller
					for _, l := range [][]*types.Warning{wc.Warnings(), wc.FilterByLevel(lv), wc.GetByCode("X"), wc.GetByCode("")} {
						l = append(l, types.NewWarning(lv, "mine"))
						for x := range l {
							l[x] = nil
						}
					}
				}
				sel := func(keep func(mw) bool) string {
					var out []string
					for _, m := range want {
						if keep(m) {
							out = append(out, fmt.Sprint(m))
						}
					}
					return strings.Join(out, ",")
				}
				if all := sel(func(mw) bool { return true }); list(wc.Warnings()) != all || wc.Count() != len(want) || wc.HasWarnings() != (len(want) > 0) || wc.IsEnabled() != on {
					t.Fail("collector", "after %v: %s (%d, %v, enabled %v), want %s (enabled %v)", ops[:j+1], list(wc.Warnings()), wc.Count(), wc.HasWarnings(), wc.IsEnabled(), all, on)
					return
				}
				for _, l := range levels {
					if g, w := list(wc.FilterByLevel(l)), sel(func(m mw) bool { return m.level == string(l) }); g != w {
						t.Fail("level", "after %v: %s: %s, want %s", ops[:j+1], l, g, w)
						return
					}
				}
				for _, code := range []string{"", "X", "Y", "Z"} {
					if g, w := list(wc.GetByCode(code)), sel(func(m mw) bool { return m.code == code }); g != w {
						t.Fail("code", "after %v: %q: %s, want %s", ops[:j+1], code, g, w)
						return
					}
				}
				for _, h := range holds {
					if list(h.got) != h.is {
						t.Fail("earlier result", "after %v: an earlier result of %s was %s and is now %s", ops[:j+1], h.what, h.is, list(h.got))
						return
					}
				}
				for what, g := range map[string][]*types.Warning{"Warnings": wc.Warnings(), "FilterByLevel": wc.FilterByLevel(lv), "GetByCode": wc.GetByCode("")} {
					holds = append(holds, held{g, list(g), what})
				}
				t.Step(10)
			}
			t.State(fmt.Sprint(on, want))
		}
		t.Outcome(names[i/2%nop])
	})
	c.ForEach("warning text", len(levels)*3, func(i int) string { return fmt.Sprint(levels[i/3], i%3) }, func(t *core.T, i int) {
		l := levels[i/3]
		w, want := types.NewWarning(l, "m%d"), fmt.Sprintf("[%s] m%%d", l)
		if i%3 == 1 {
			w, want = types.NewWarningWithCode(l, "C", "m"), fmt.Sprintf("[%s] C: m", l)
		} else if i%3 == 2 {
			w, want = types.NewWarningf(l, "m%d", 3), fmt.Sprintf("[%s] m3", l)
		}
		if w.Error() != want || w.WithContext("a", 1) != w || w.Context["a"] != 1 || w.Timestamp.IsZero() {
			t.Fail("text", "%q, want %q: %+v", w.Error(), want, w)
		}
		t.Step(3)
		t.State(want)
	})
}

// --- what entry points say ------------------------------------------------------------

type entryPoint struct {
	name string
	form bool // needs a form
	run  func(b, pw []byte) error
}

func entryPoints(t *core.T) []entryPoint {
	data := types.FormData{"nothing": "x"}
	fine, _ := kindDoc(0, "table")
	inDir := func(f func(dir string) error) error {
		dir, err := os.MkdirTemp("", "p25")
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer os.RemoveAll(dir)
		return f(dir)
	}
	return []entryPoint{
		{"parse.OpenWithOptions", false, func(b, pw []byte) error {
			_, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw})
			return err
		}},
		{"parse.OpenWithOptions BytePerfect", false, func(b, pw []byte) error {
			_, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw, BytePerfect: true, Warnings: types.NewWarningCollector(true)})
			return err
		}},
		{"extract.ExtractContent", false, func(b, pw []byte) error { _, err := extract.ExtractContent(b, pw, false); return err }},
		{"extract.ExtractContentToJSON", false, func(b, pw []byte) error { _, err := extract.ExtractContentToJSON(b, pw, false); return err }},
		{"extract.ExtractAllImages", false, func(b, pw []byte) error { _, err := extract.ExtractAllImages(b, pw, false); return err }},
		{"extract.ExtractToDirectory", false, func(b, pw []byte) error {
			return inDir(func(dir string) error { _, err := extract.ExtractToDirectory(b, pw, dir, false); return err })
		}},
		{"extract.ExtractToDirectoryFromFile", false, func(b, pw []byte) error {
			return inDir(func(dir string) error {
				in := filepath.Join(dir, "in.pdf")
				if err := os.WriteFile(in, b, 0o600); err != nil {
					panic("harness: " + err.Error())
				}
				_, err := extract.ExtractToDirectoryFromFile(in, pw, filepath.Join(dir, "out"), false)
				return err
			})
		}},
		{"manipulate.NewPDFManipulator", false, func(b, pw []byte) error { _, err := manipulate.NewPDFManipulator(b, pw, false); return err }},
		{"manipulate.ExtractPages", false, func(b, pw []byte) error { _, err := manipulate.ExtractPages(b, []int{1}, pw, false); return err }},
		{"manipulate.SplitPDF", false, func(b, pw []byte) error {
			_, err := manipulate.SplitPDF(b, []manipulate.PageRange{{Start: 1, End: 1}}, pw, false)
			return err
		}},
		{"manipulate.SplitPDFByPageCount", false, func(b, pw []byte) error { _, err := manipulate.SplitPDFByPageCount(b, 1, pw, false); return err }},
		{"manipulate.MergePDFs first", false, func(b, pw []byte) error {
			_, err := manipulate.MergePDFs([][]byte{b, fine}, [][]byte{pw, nil}, false)
			return err
		}},
		{"manipulate.MergePDFs last", false, func(b, pw []byte) error {
			_, err := manipulate.MergePDFs([][]byte{fine, b}, [][]byte{nil, pw}, false)
			return err
		}},
		{"compare.ComparePDFs first", false, func(b, pw []byte) error { _, err := compare.ComparePDFs(b, fine, pw, nil, false); return err }},
		{"compare.ComparePDFs second", false, func(b, pw []byte) error { _, err := compare.ComparePDFs(fine, b, nil, pw, false); return err }},
		{"acroform.ExtractAcroForm", true, func(b, pw []byte) error { _, err := acroform.ExtractAcroForm(b, pw, false); return err }},
		{"acroform.ExtractFormSchema", true, func(b, pw []byte) error { _, err := acroform.ExtractFormSchema(b, pw, false); return err }},
		{"acroform.FlattenForm", true, func(b, pw []byte) error { _, err := acroform.FlattenForm(b, pw, false); return err }},
		{"acroform.FillForm", true, func(b, pw []byte) error { _, err := acroform.FillForm(b, data, pw, false); return err }},
		{"acroform.FillFormFields", true, func(b, pw []byte) error { _, err := acroform.FillFormFields(b, data, pw, false); return err }},
		{"acroform.FillFormFieldsWithStreams", true, func(b, pw []byte) error {
			_, err := acroform.FillFormFieldsWithStreams(b, data, pw, false)
			return err
		}},
		{"acroform.ExtractAndFill", true, func(b, pw []byte) error { _, err := acroform.ExtractAndFill(b, data, pw, false); return err }},
		{"acroform.FillFormFromSchema", true, func(b, pw []byte) error {
			_, err := acroform.FillFormFromSchema(b, &types.FormSchema{}, types.FormData{}, pw, false)
			return err
		}},
		{"forms.ExtractAcroForm", true, func(b, pw []byte) error { _, err := forms.ExtractAcroForm(b, pw, false); return err }},
		{"forms.Detect", true, func(b, pw []byte) error { _, err := forms.Detect(b, pw, false); return err }},
		{"forms.Extract", true, func(b, pw []byte) error { _, err := forms.Extract(b, pw, false); return err }},
		{"forms.ExtractXFA", true, func(b, pw []byte) error { _, _, err := forms.ExtractXFA(b, pw, false); return err }},
		{"encrypt.DecryptPDF", false, func(b, pw []byte) error {
			if !bytes.Contains(b, []byte("/Encrypt")) {
				_, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw, Warnings: types.NewWarningCollector(false)})
				return err
			}
			_, _, err := encrypt.DecryptPDF(b, pw, false)
			return err
		}},
	}
}

// kindDoc builds a document with AcroForm fields (1), XFA (2), both (3) or none (0).
func kindDoc(form int, layout string) ([]byte, [][]byte) {
	objs := []gen.Obj{
		{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1/MediaBox[0 0 90 80]>>"},
		{Num: 3, Body: "<</Type/Page/Parent 2 0 R/Contents 4 0 R/Resources<</Font<</F1<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>>>>>>>"},
		{Num: 4, Stream: true, Body: "<<>>", Data: "BT /F1 9 Tf 9 9 Td (Text) Tj ET"},
	}
	acro := ""
	if form&1 == 1 {
		objs = append(objs, gen.Obj{Num: 6, Body: "<</FT/Tx/T(name)/V(value)/Type/Annot/Subtype/Widget/Rect[1 1 9 9]/P 3 0 R>>"})
		acro += "/Fields[6 0 R]"
	} else {
		acro += "/Fields[]"
	}
	if form&2 == 2 {
		objs = append(objs, gen.Obj{Num: 7, Stream: true, Body: "<<>>", Data: `<template><subform name="form1"><field name="name"><ui><textEdit/></ui></field></subform></template>`},
			gen.Obj{Num: 8, Stream: true, Body: "<<>>", Data: `<xfa:datasets xmlns:xfa="http://www.xfa.org/schema/xfa-data/1.0/"><xfa:data><form1><name>a</name></form1></xfa:data></xfa:datasets>`})
		acro += "/XFA[(template)7 0 R(datasets)8 0 R]"
	}
	root := "<</Type/Catalog/Pages 2 0 R"
	if form > 0 {
		objs = append(objs, gen.Obj{Num: 5, Body: "<<" + acro + ">>"})
		root += "/AcroForm 5 0 R"
	}
	objs = append(objs, gen.Obj{Num: 1, Body: root + ">>"})
	if layout == "own-aes256" {
		w := write.NewPDFWriter()
		sort.Slice(objs, func(i, j int) bool { return objs[i].Num < objs[j].Num })
		for _, o := range objs {
			if o.Stream {
				w.SetStreamObject(o.Num, write.Dictionary{}, []byte(o.Data), false)
			} else {
				w.SetObject(o.Num, []byte(o.Body))
			}
		}
		w.SetRoot(1)
		if _, err := w.SetupEncryptionWithPasswords([]byte("user"), []byte("owner"), -44, true); err != nil {
			panic("harness: " + err.Error())
		}
		b, err := w.Bytes()
		if err != nil {
			panic("harness: " + err.Error())
		}
		return b, [][]byte{[]byte("user")}
	}
	b, pw := imgDoc(objs, layout)
	if pw == nil {
		return b, [][]byte{nil, []byte("any")}
	}
	return b, [][]byte{[]byte("user"), []byte("owner")}
}

func runKinds(c *core.Ctx) {
	layouts := append([]string{"own-aes256"}, imgLayouts()...)
	wrong := [][]byte{nil, []byte("x"), []byte("use"), []byte("userr"), []byte("User"), []byte("owner "), []byte("USER"), []byte("user\x00"), bytes.Repeat([]byte("user"), 9), {0x28, 0xBF, 0x4E, 0x5E}}
	names := entryPoints(nil)
	c.ForEach("passwords", len(layouts)*4*len(names), func(i int) string {
		return fmt.Sprintf("%s of %s forms=%d", names[i/4%len(names)].name, layouts[i/4/len(names)], i%4)
	}, func(t *core.T, i int) {
		e := entryPoints(t)[i/4%len(names)]
		form := i % 4
		b, pws := kindDoc(form, layouts[i/4/len(names)])
		t.Attach("in.pdf", b)
		crypt := pws[0] != nil
		// with a password that opens it
		for _, pw := range pws {
			err := e.run(append([]byte{}, b...), pw)
			t.Step(1)
			absent := e.form && (form == 0 || strings.HasPrefix(e.name, "forms.ExtractXFA") && form&2 == 0)
			switch {
			case absent && err == nil:
				t.Fail("no forms", "%s: no error for a document without a form", e.name)
			case absent && e.name != "forms.ExtractXFA" && (!errors.Is(err, types.ErrNoForms) || types.IsEncryptionError(err) || errors.Is(err, types.ErrWrongPassword)):
				t.Fail("no forms", "%s: a document without a form: %v", e.name, err)
			case absent && (types.IsEncryptionError(err) || errors.Is(err, types.ErrWrongPassword)):
				t.Fail("no forms", "%s: a document without XFA: %v", e.name, err)
			case !absent && err != nil && strings.HasPrefix(e.name, "acroform.Fill") && (types.IsEncryptionError(err) || errors.Is(err, types.ErrWrongPassword)):
				t.Fail("right password", "%s with %q: %v", e.name, pw, err)
			case !absent && err != nil && !strings.HasPrefix(e.name, "acroform.Fill") && !strings.HasSuffix(e.name, "AndFill"):
				t.Fail("right password", "%s with %q: %v", e.name, pw, err)
			}
		}
		// with others
		if crypt {
			for _, pw := range wrong {
				err := e.run(append([]byte{}, b...), pw)
				t.Step(1)
				if err == nil {
					t.Fail("wrong password", "%s with %q: no error", e.name, pw)
				} else if !errors.Is(err, types.ErrWrongPassword) || !types.IsEncryptionError(err) || errors.Is(err, types.ErrNoForms) {
					code, _ := types.GetErrorCode(err)
					t.Fail("wrong password", "%s with %q: kind %q: %v", e.name, pw, code, err)
				}
			}
			t.Outcome("wrong password " + e.name)
		}
		t.State(fmt.Sprint(e.name, layouts[i/4/len(names)], form))
	})
	// what is too short to be a document
	c.ForEach("short", len(names)*8, func(i int) string { return fmt.Sprint(names[i/8].name, " of ", i%8, " bytes") }, func(t *core.T, i int) {
		e := entryPoints(t)[i/8]
		err := e.run([]byte("%PDF-1.7"[:i%8]), nil)
		if _, kind := types.GetErrorCode(err); i%8 == 0 && err != nil && !kind {
			return // nothing at all: also said without a kind
		}
		if err == nil || !errors.Is(err, types.ErrInvalidPDF) || types.IsEncryptionError(err) || errors.Is(err, types.ErrNoForms) {
			t.Fail("short", "%s of %d bytes: %v", e.name, i%8, err)
		} else if code, ok := types.GetErrorCode(err); !ok || code != types.ErrCodeInvalidPDF {
			t.Fail("short", "%s of %d bytes: code %q of %v", e.name, i%8, code, err)
		}
		t.Step(1)
		t.State(e.name + fmt.Sprint(i%8))
		t.Outcome("short " + e.name)
	})
	// what is no document
	nothing := []string{"%PDF-1.7\n%%EOF\n", "this is a text of some length, not a document", "%PDF-1.4\n1 0 obj\n<</Type/Catalog>>\nendobj\n", strings.Repeat("\x00", 64), "<html><body>/Root 1 0 R</body></html>"}
	c.ForEach("nothing", len(names)*len(nothing), func(i int) string { return fmt.Sprint(names[i/len(nothing)].name, " ", i%len(nothing)) }, func(t *core.T, i int) {
		e := entryPoints(t)[i/len(nothing)]
		err := e.run([]byte(nothing[i%len(nothing)]), []byte("pw"))
		t.Step(1)
		if err == nil {
			t.Fail("nothing", "%s: no error for %q", e.name, nothing[i%len(nothing)])
		} else if types.IsEncryptionError(err) || errors.Is(err, types.ErrWrongPassword) || errors.Is(err, types.ErrNoForms) {
			t.Fail("nothing", "%s of %q: %v", e.name, nothing[i%len(nothing)], err)
		} else if _, ok := types.GetErrorCode(err); !ok {
			t.Fail("nothing", "%s of %q: no kind: %v", e.name, nothing[i%len(nothing)], err)
		}
		t.State(e.name + fmt.Sprint(i%len(nothing)))
	})
}

func runMissing(c *core.Ctx) {
	layouts := append([]string{"own-aes256"}, imgLayouts()...)
	c.ForEach("missing", len(layouts)*4, func(i int) string { return fmt.Sprint(layouts[i/4], " ", i%4) }, func(t *core.T, i int) {
		b, pws := kindDoc(i%2*3, layouts[i/4])
		perfect := i%4 > 1
		wc := types.NewWarningCollector(true)
		pdf, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pws[0], BytePerfect: perfect, Warnings: wc})
		if err != nil {
			t.Fail("open", "%v", err)
			return
		}
		if pdf.Warnings() != wc || wc.HasWarnings() {
			t.Fail("warnings", "a sound document: %d warnings", wc.Count())
		}
		there := map[int]bool{}
		for _, n := range pdf.Objects() {
			there[n] = true
		}
		for n := -2; n < 100; n++ {
			_, err := pdf.GetObject(n)
			_, rawErr := pdf.GetRawObject(n)
			t.Step(2)
			if there[n] != (err == nil) {
				t.Fail("object", "object %d: listed %v, %v", n, there[n], err)
				continue
			}
			if !perfect && (rawErr == nil || !errors.Is(rawErr, types.ErrInvalidInput)) {
				t.Fail("raw", "object %d of a document not opened byte-perfect: %v", n, rawErr)
			}
			if there[n] {
				continue
			}
			p, ok := types.IsPDFError(err)
			if !errors.Is(err, types.ErrObjectNotFound) || !types.IsNotFound(err) || !ok || p.Context["object_number"] != n {
				t.Fail("missing", "object %d: %v", n, err)
			}
			if perfect && (rawErr == nil || !types.IsNotFound(rawErr)) {
				t.Fail("missing", "raw object %d: %v", n, rawErr)
			}
			t.State(fmt.Sprint(layouts[i/4], i%4, n))
		}
		t.Outcome(fmt.Sprint("missing", perfect))
	})
}

// --- streams -------------------------------------------------------------------------

var errFault = errors.New("injected fault")

// faultWriter takes n bytes and then fails, in one of several ways.
type faultWriter struct {
	got  []byte
	n    int
	how  int
	dead int // calls after the failure
	fail bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.fail {
		w.dead++
		return 0, errFault
	}
	room := w.n - len(w.got)
	if len(p) < room || len(p) == room && w.how == 0 {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.fail = true
	w.got = append(w.got, p[:room]...)
	switch w.how {
	case 0: // some bytes and an error
		return room, errFault
	}
	return room, errFault // all bytes, or the last ones, and an error
}

// faultReader gives pieces and fails at n.
type faultReader struct {
	data  []byte
	piece int
	fail  int // at this offset; -1 never
	late  bool
	at    int
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.fail >= 0 && r.at >= r.fail {
		return 0, errFault
	}
	if r.at == len(r.data) {
		return 0, io.EOF
	}
	n := min(len(p), r.piece, len(r.data)-r.at)
	if r.fail >= 0 {
		n = min(n, r.fail-r.at)
	}
	copy(p, r.data[r.at:r.at+n])
	r.at += n
	if r.late && r.at == len(r.data) {
		return n, io.EOF
	}
	if r.late && r.at == r.fail {
		return n, errFault
	}
	return n, nil
}

func runStreams(c *core.Ctx) {
	build := func(k int) *write.PDFWriter {
		b := write.NewSimplePDFBuilder()
		p := b.AddPage(write.PageSize{Width: 90, Height: 80})
		f := p.AddStandardFont("Helvetica")
		p.Content().BeginText().SetFont(f, 9).SetTextPosition(9, 9).ShowText("text").EndText()
		b.FinalizePage(p)
		w := b.Writer()
		if k&1 == 1 {
			w.UseXRefStream(true)
			w.UseObjectStream(true)
		}
		return w
	}
	for k := 0; k < 2; k++ {
		whole, err := build(k).Bytes()
		if err != nil {
			c.ForEach("write", 1, func(int) string { return "Bytes" }, func(t *core.T, _ int) { t.Fail("write", "%v", err) })
			return
		}
		c.ForEach(fmt.Sprint("write", k), len(whole)+1, func(i int) string { return fmt.Sprint("fault after ", i, " bytes") }, func(t *core.T, i int) {
			for how := 0; how < 2; how++ {
				if how == 0 && i == len(whole) {
					continue // no fault
				}
				w := build(k)
				f := &faultWriter{n: i, how: how}
				err := w.Write(f)
				t.Step(1)
				if err == nil {
					t.Fail("fault", "no error although the output failed after %d of %d bytes (kind %d)", i, len(whole), how)
				} else if !errors.Is(err, errFault) {
					t.Fail("cause", "the cause is lost: %v", err)
				}
				if f.dead > 0 || !bytes.Equal(f.got, whole[:len(f.got)]) {
					t.Fail("output", "%d writes after the failure at %d; written %q", f.dead, i, clipb(f.got))
				}
				again, err := w.Bytes()
				if err != nil || !bytes.Equal(again, whole) {
					t.Fail("again", "writing again after a failure gives another file (%v)", err)
				}
				t.State(fmt.Sprint(k, i, how))
			}
			t.Outcome(fmt.Sprint("write", i > 0, i == len(whole)))
		})
	}
	data := []byte("0123456789abcdefghijk")
	pieces := []int{1, 2, 3, 7, 20, 21, 100}
	c.ForEach("read", len(pieces)*2*(len(data)+2), func(i int) string {
		return fmt.Sprint("piece ", pieces[i%len(pieces)], " fault ", i/len(pieces)/2-1)
	}, func(t *core.T, i int) {
		r := &faultReader{data: data, piece: pieces[i%len(pieces)], late: i/len(pieces)%2 == 1, fail: i/len(pieces)/2 - 1}
		got, err := font.Read(r)
		t.Step(1)
		if r.fail < 0 && (err != nil || string(got) != string(data)) {
			t.Fail("read", "%q %v", got, err)
		}
		if r.fail >= 0 && !(r.fail == len(data) && r.late) && !errors.Is(err, errFault) {
			t.Fail("fault", "a reader that fails at %d: %q %v", r.fail, got, err)
		}
		t.State(fmt.Sprint(i))
	})
}

// --- a directory with obstacles -------------------------------------------------------

func runObstacles(c *core.Ctx) {
	// obstacle kinds for: the directory, images, image 1, image 2, content.json
	kinds := []int{4, 4, 4, 4, 4}
	total := 1
	for _, k := range kinds {
		total *= k
	}
	full := false
	if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
		_, err = f.Write([]byte("x"))
		full = err != nil
		f.Close()
	}
	c.ForEach("directory", total, func(i int) string { return fmt.Sprint("obstacles ", seqOf(i, 4, 5)) }, func(t *core.T, i int) {
		k := seqOf(i, 4, 5)
		base, err := os.MkdirTemp("", "p25")
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer os.RemoveAll(base)
		must := func(err error) {
			if err != nil {
				panic("harness: " + err.Error())
			}
		}
		dir := filepath.Join(base, "out")
		// 0 nothing there, 1 an earlier result, 2 something of the wrong kind, 3 a device that is full (or the wrong kind again)
		images := filepath.Join(dir, "images")
		one, two, cont := filepath.Join(images, "image_001.bin"), filepath.Join(images, "image_002.jpg"), filepath.Join(dir, "content.json")
		old := map[string]string{}
		file := func(p, s string) { must(os.WriteFile(p, []byte(s), 0o600)); old[p] = s }
		must(os.WriteFile(filepath.Join(base, "other"), []byte("other"), 0o600))
		blocked := map[string]bool{}
		switch k[0] {
		case 1:
			must(os.Mkdir(dir, 0o700))
			file(filepath.Join(dir, "mine"), "mine")
		case 2:
			file(dir, "a file")
			blocked[dir] = true
		case 3:
			must(os.Symlink(filepath.Join(base, "other"), dir))
			blocked[dir] = true
		}
		place := func(p string, kind int) {
			if kind == 0 || blocked[dir] || blocked[images] && p != cont {
				return
			}
			must(os.MkdirAll(filepath.Dir(p), 0o700))
			switch {
			case kind == 1:
				file(p, strings.Repeat("earlier result ", 500))
			case kind == 3 && full:
				must(os.Symlink("/dev/full", p))
				blocked[p] = true
			default:
				must(os.Mkdir(p, 0o700))
				file(filepath.Join(p, "inside"), "inside")
				blocked[p] = true
			}
		}
		if !blocked[dir] && k[1] > 0 {
			must(os.MkdirAll(dir, 0o700))
			switch {
			case k[1] == 1:
				must(os.Mkdir(images, 0o700))
				file(filepath.Join(images, "image_009.png"), "mine")
			case k[1] == 2:
				file(images, "a file")
				blocked[images] = true
			default:
				must(os.Symlink(filepath.Join(base, "nowhere", "at", "all"), images))
				blocked[images] = true
			}
		}
		place(one, k[2])
		place(two, k[3])
		place(cont, k[4])
		objs := []gen.Obj{
			{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"}, {Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1/MediaBox[0 0 90 80]>>"},
			{Num: 3, Body: "<</Type/Page/Parent 2 0 R/Contents 4 0 R/Resources<</XObject<</A 5 0 R/B 6 0 R>>>>>>"},
			{Num: 4, Stream: true, Body: "<<>>", Data: "/A Do /B Do"},
			{Num: 5, Stream: true, Body: "<</Type/XObject/Subtype/Image/Width 2/Height 1/BitsPerComponent 8/ColorSpace/DeviceGray>>", Data: "AB"},
			{Num: 6, Stream: true, Body: "<</Type/XObject/Subtype/Image/Width 1/Height 1/BitsPerComponent 8/ColorSpace/DeviceGray/Filter/DCTDecode>>", Data: "\xff\xd8jpeg\xff\xd9"},
		}
		pdf := layoutPages(objs, "table", "/Root 1 0 R")
		out, err := extract.ExtractToDirectory(pdf, nil, dir, false)
		t.Step(1)
		fatal := blocked[dir] || blocked[images] || blocked[cont]
		if fatal != (err != nil) {
			t.Fail("error", "blocked %v: error %v", sameOrder(strs(blocked)), err)
		}
		if err != nil {
			var pe *fs.PathError
			if !errors.As(err, &pe) {
				t.Fail("cause", "the cause is lost: %v", err)
			}
			if out != nil {
				t.Fail("result", "a result besides the error %v", err)
			}
		}
		// what was there and is not written stays
		for p, s := range old {
			if p == one || p == two || p == cont {
				continue
			}
			if g, err := os.ReadFile(p); err != nil || string(g) != s {
				t.Fail("others", "%s: %q %v", p, g, err)
			}
		}
		if g, _ := os.ReadFile(filepath.Join(base, "other")); string(g) != "other" {
			t.Fail("others", "a file next to the directory: %q", g)
		}
		if err == nil && out != nil {
			var want []string
			if !blocked[one] {
				want = append(want, one)
			}
			if !blocked[two] {
				want = append(want, two)
			}
			if fmt.Sprint(out.ImageFiles) != fmt.Sprint(want) {
				t.Fail("image files", "%v, want %v", out.ImageFiles, want)
			}
			raw, rerr := os.ReadFile(cont)
			var e extract.ExtractedContent
			if rerr == nil {
				rerr = json.Unmarshal(raw, &e)
			}
			if rerr != nil || len(e.Pages) != 1 {
				t.Fail("json", "%v %q", rerr, clipb(raw))
			}
			var refs []string
			for _, im := range e.Images {
				p := filepath.Join(dir, im.Filename)
				refs = append(refs, p)
				if fi, err := os.Stat(p); err != nil || fi.Size() != int64(im.Size) {
					t.Fail("image reference", "%s names a file that is not as described: %v", im.Filename, err)
				}
			}
			if fmt.Sprint(refs) != fmt.Sprint(want) {
				t.Fail("image reference", "%v, want %v", refs, want)
			}
			for p, s := range map[string]string{one: "AB", two: "\xff\xd8jpeg\xff\xd9"} {
				if blocked[p] {
					continue
				}
				if g, err := os.ReadFile(p); err != nil || string(g) != s {
					t.Fail("image", "%s: %q %v", p, clipb(g), err)
				}
			}
		}
		t.State(fmt.Sprint(k))
		t.Outcome(fmt.Sprint("blocked ", fatal))
	})
}

func strs(m map[string]bool) map[string]string {
	out := map[string]string{}
	for k := range m {
		out[filepath.Base(k)] = ""
	}
	return out
}
