package props

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"regexp"
	"sort"

	"verifmc/core"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/core/parse"
)

func init() { log.SetOutput(io.Discard) }

var hdrRe = regexp.MustCompile(`^\d+\s+\d+\s+obj`)

// value interprets what the library returned for object n: a complete indirect
// object or just its value.
func value(b []byte, n int) (ref.Obj, error) { return valueIn(nil, b, n) }

// valueIn is value for objects whose stream length may refer into f.
func valueIn(f *ref.File, b []byte, n int) (ref.Obj, error) {
	if hdrRe.Match(b) {
		on, _, o, err := ref.ParseIndirectIn(f, b)
		if err != nil {
			return nil, err
		}
		if on != n {
			return nil, fmt.Errorf("object header says %d, asked for %d", on, n)
		}
		return o, nil
	}
	return ref.ParseOne(b)
}

// semantic is the canonical text of an object with a stream's data decoded and its
// storage keys (Length, Filter, DecodeParms) removed.
func semantic(o ref.Obj) string {
	s, ok := o.(*ref.Stream)
	if !ok {
		return ref.Canon(o)
	}
	data, err := ref.DecodeStream(s)
	if err != nil {
		return "undecodable:" + err.Error()
	}
	d := ref.Dict{}
	for k, v := range s.D {
		if k != "Length" && k != "Filter" && k != "DecodeParms" {
			d[k] = v
		}
	}
	return ref.Canon(d) + fmt.Sprintf("stream%d:%q", len(data), string(data))
}

func mustCanon(src string) string {
	o, err := ref.ParseOne([]byte(src))
	if err != nil {
		panic(fmt.Sprintf("harness: %q: %v", src, err))
	}
	return ref.Canon(o)
}

func sorted(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func sortedInts(a []int) []int {
	b := append([]int(nil), a...)
	sort.Ints(b)
	return b
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// infra tells objects that belong to the file structure (xref and object streams).
func infra(o ref.Obj) bool {
	s, ok := o.(*ref.Stream)
	return ok && (s.D["Type"] == ref.Name("XRef") || s.D["Type"] == ref.Name("ObjStm"))
}

// readBack compares what the library's reader says about a file with the expected
// objects. want maps object numbers to semantic values; absent must not exist.
func readBack(t *core.T, tag string, b []byte, want map[int]string, absent []int, perfect bool) {
	p, err := parse.OpenWithOptions(b, parse.ParseOptions{BytePerfect: perfect})
	t.Step(1)
	if err != nil {
		t.Fail(tag+":open", "open: %v", err)
		return
	}
	compareObjects(t, tag, p, want, absent)
	if perfect && !bytes.Equal(p.Bytes(), b) {
		t.Fail(tag+":bytes", "byte-perfect reconstruction differs")
	}
}

func compareObjects(t *core.T, tag string, p *parse.PDF, want map[int]string, absent []int) {
	have := map[int]bool{}
	for _, n := range p.Objects() {
		have[n] = true
	}
	for n, w := range want {
		if !have[n] || !p.HasObject(n) {
			t.Fail(tag+":missing", "object %d is missing (have %v)", n, sorted(have))
			continue
		}
		raw, err := p.GetObject(n)
		t.Step(1)
		if err != nil {
			t.Fail(tag+":get", "object %d: %v", n, err)
			continue
		}
		o, err := value(raw, n)
		if err != nil {
			t.Fail(tag+":syntax", "object %d returned as %q: %v", n, clipb(raw), err)
			continue
		}
		if got := semantic(o); got != w {
			t.Fail(tag+":value", "object %d: got %s want %s", n, clips(got), clips(w))
		}
	}
	for _, n := range absent {
		if p.HasObject(n) || have[n] {
			t.Fail(tag+":ghost", "object %d exists but was never written or was deleted", n)
		}
		if raw, err := p.GetObject(n); err == nil {
			t.Fail(tag+":ghostget", "object %d does not exist but reads as %q", n, clipb(raw))
		}
		t.Step(1)
	}
	for n := range have {
		if _, ok := want[n]; ok {
			continue
		}
		raw, err := p.GetObject(n)
		if err != nil {
			t.Fail(tag+":extra", "unexpected object %d: %v", n, err)
			continue
		}
		o, err := value(raw, n)
		if err != nil || !infra(o) {
			t.Fail(tag+":extra", "unexpected object %d: %q (%v)", n, clipb(raw), err)
		}
	}
}

func clipb(b []byte) string { return clips(string(b)) }
func clips(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%s…(%d bytes)", s[:300], len(s))
	}
	return s
}
