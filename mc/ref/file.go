package ref

import (
	"bytes"
	"fmt"
	"sort"
)

// Entry is one cross-reference entry. T: 0 free, 1 direct, 2 compressed.
type Entry struct {
	T, A, B int // direct: A=offset B=gen; compressed: A=stream number B=index; free: A=next B=gen
}

type File struct {
	B        []byte
	X        map[int]Entry
	Trailer  Dict // newest trailer
	Sections int
	Start    int
	SelfNums []int // object numbers of xref streams
	cacheOS  map[int]map[int]Obj
	cacheIdx map[int][]int
	len      *File // resolves references to lengths, if not this file
	end      int   // end of the object objAt read last
	// Decrypt, if set, undoes the encryption of the strings and the stream data of
	// object n, generation g (stream = nil for strings).
	Decrypt func(raw []byte, n, g int, stream Dict) ([]byte, error)
	lax     bool // the text was returned by an API, not found in a file
}

// Open strictly parses the file structure of b: header, last startxref, the whole
// chain of cross-reference sections and every in-use entry.
func Open(b []byte) (*File, error) {
	if !bytes.HasPrefix(b, []byte("%PDF-")) {
		return nil, fmt.Errorf("no header at byte 0")
	}
	eof := bytes.LastIndex(b, []byte("%%EOF"))
	if eof < 0 {
		return nil, fmt.Errorf("no %%%%EOF")
	}
	if rest := bytes.TrimSpace(b[eof+5:]); len(rest) != 0 {
		return nil, fmt.Errorf("data after last %%%%EOF")
	}
	sx := bytes.LastIndex(b[:eof], []byte("startxref"))
	if sx < 0 {
		return nil, fmt.Errorf("no startxref")
	}
	l := NewLex(b[:eof], sx+9)
	o, err := l.Next()
	if err != nil {
		return nil, err
	}
	off, ok := Int(o)
	if !ok || off < 0 || off >= len(b) {
		return nil, fmt.Errorf("bad startxref %v", o)
	}
	if bytes.TrimSpace(b[l.P:eof]) != nil && len(bytes.TrimSpace(b[l.P:eof])) > 0 {
		return nil, fmt.Errorf("data between startxref and %%%%EOF")
	}
	f := &File{B: b, X: map[int]Entry{}, Start: off, cacheOS: map[int]map[int]Obj{}, cacheIdx: map[int][]int{}}
	seen := map[int]bool{}
	for {
		if seen[off] {
			return nil, fmt.Errorf("xref chain loops at %d", off)
		}
		seen[off] = true
		f.Sections++
		tr, ents, err := f.section(off)
		if err != nil {
			return nil, fmt.Errorf("xref section at %d: %w", off, err)
		}
		for n, e := range ents {
			if _, have := f.X[n]; !have {
				f.X[n] = e
			}
		}
		if f.Trailer == nil {
			f.Trailer = tr
		}
		if xs, ok := tr["XRefStm"]; ok {
			xo, ok := Int(xs)
			if !ok {
				return nil, fmt.Errorf("bad XRefStm")
			}
			_, e2, err := f.section(xo)
			if err != nil {
				return nil, fmt.Errorf("hybrid section: %w", err)
			}
			for n, e := range e2 {
				if h, have := f.X[n]; !have || h.T == 0 {
					f.X[n] = e
				}
			}
		}
		p, ok := tr["Prev"]
		if !ok {
			break
		}
		po, ok := Int(p)
		if !ok || po < 0 || po >= len(b) {
			return nil, fmt.Errorf("bad /Prev %v", p)
		}
		off = po
	}
	return f, nil
}

func (f *File) section(off int) (Dict, map[int]Entry, error) {
	b := f.B
	if off < 0 || off >= len(b) {
		return nil, nil, fmt.Errorf("offset out of file")
	}
	ents := map[int]Entry{}
	if bytes.HasPrefix(b[off:], []byte("xref")) {
		l := NewLex(b, off+4)
		for {
			l.SkipWS()
			if bytes.HasPrefix(b[l.P:], []byte("trailer")) {
				l.P += 7
				break
			}
			so, err := l.Next()
			if err != nil {
				return nil, nil, err
			}
			co, err := l.Next()
			if err != nil {
				return nil, nil, err
			}
			st, ok1 := Int(so)
			ct, ok2 := Int(co)
			if !ok1 || !ok2 || st < 0 || ct < 0 {
				return nil, nil, fmt.Errorf("bad subsection header %v %v", so, co)
			}
			// exactly one EOL (optionally preceded by spaces) before entries
			for l.P < len(b) && b[l.P] == ' ' {
				l.P++
			}
			if l.P < len(b) && b[l.P] == '\r' {
				l.P++
				if l.P < len(b) && b[l.P] == '\n' {
					l.P++
				}
			} else if l.P < len(b) && b[l.P] == '\n' {
				l.P++
			} else {
				return nil, nil, fmt.Errorf("no EOL after subsection header")
			}
			for i := 0; i < ct; i++ {
				if l.P+20 > len(b) {
					return nil, nil, fmt.Errorf("truncated entry")
				}
				e := b[l.P : l.P+20]
				l.P += 20
				a, okA := digits(e[0:10])
				g, okG := digits(e[11:16])
				eol := string(e[18:20])
				if !okA || !okG || e[10] != ' ' || e[16] != ' ' || (e[17] != 'n' && e[17] != 'f') ||
					(eol != " \n" && eol != " \r" && eol != "\r\n") {
					return nil, nil, fmt.Errorf("malformed 20-byte entry %q", string(e))
				}
				n := st + i
				if _, dup := ents[n]; dup {
					return nil, nil, fmt.Errorf("object %d listed twice in one section", n)
				}
				if e[17] == 'n' {
					ents[n] = Entry{1, a, g}
				} else {
					ents[n] = Entry{0, a, g}
				}
			}
		}
		o, err := l.Next()
		if err != nil {
			return nil, nil, err
		}
		d, ok := o.(Dict)
		if !ok {
			return nil, nil, fmt.Errorf("trailer is not a dictionary")
		}
		return d, ents, nil
	}
	// xref stream
	n, _, o, err := f.objAt(off)
	if err != nil {
		return nil, nil, err
	}
	s, ok := o.(*Stream)
	if !ok {
		return nil, nil, fmt.Errorf("not an xref stream")
	}
	if s.D["Type"] != Name("XRef") {
		return nil, nil, fmt.Errorf("/Type is not /XRef")
	}
	f.SelfNums = append(f.SelfNums, n)
	data, err := f.Decode(s)
	if err != nil {
		return nil, nil, err
	}
	wa, ok := s.D["W"].(Arr)
	if !ok || len(wa) != 3 {
		return nil, nil, fmt.Errorf("bad /W")
	}
	var w [3]int
	for i := range w {
		v, ok := Int(wa[i])
		if !ok || v < 0 || v > 8 {
			return nil, nil, fmt.Errorf("bad /W")
		}
		w[i] = v
	}
	size, ok := Int(s.D["Size"])
	if !ok {
		return nil, nil, fmt.Errorf("no /Size")
	}
	idx := []int{0, size}
	if ia, ok := s.D["Index"].(Arr); ok {
		idx = nil
		for _, e := range ia {
			v, ok := Int(e)
			if !ok {
				return nil, nil, fmt.Errorf("bad /Index")
			}
			idx = append(idx, v)
		}
	}
	if len(idx)%2 != 0 {
		return nil, nil, fmt.Errorf("odd /Index")
	}
	rec := w[0] + w[1] + w[2]
	p := 0
	for k := 0; k < len(idx); k += 2 {
		for i := 0; i < idx[k+1]; i++ {
			if p+rec > len(data) {
				return nil, nil, fmt.Errorf("xref stream too short")
			}
			rd := func(n int) int {
				v := 0
				for j := 0; j < n; j++ {
					v = v<<8 | int(data[p])
					p++
				}
				return v
			}
			t := 1
			if w[0] > 0 {
				t = rd(w[0])
			}
			a := rd(w[1])
			bb := rd(w[2])
			n := idx[k] + i
			if _, dup := ents[n]; dup {
				return nil, nil, fmt.Errorf("object %d listed twice", n)
			}
			if t > 2 {
				return nil, nil, fmt.Errorf("entry type %d", t)
			}
			ents[n] = Entry{t, a, bb}
		}
	}
	if p != len(data) {
		return nil, nil, fmt.Errorf("xref stream has %d surplus bytes", len(data)-p)
	}
	return s.D, ents, nil
}

func digits(b []byte) (int, bool) {
	v := 0
	for _, c := range b {
		if c < '0' || c > '9' {
			return 0, false
		}
		v = v*10 + int(c-'0')
	}
	return v, true
}

// objAt parses "N G obj ... endobj" at off.
func (f *File) objAt(off int) (int, int, Obj, error) {
	b := f.B
	if off < 0 || off >= len(b) || b[off] < '0' || b[off] > '9' {
		return 0, 0, nil, fmt.Errorf("offset %d does not start an object", off)
	}
	if off > 0 && !IsWS(b[off-1]) {
		return 0, 0, nil, fmt.Errorf("offset %d is inside a token", off)
	}
	l := NewLex(b, off)
	a, _ := l.Next()
	g, _ := l.Next()
	k, err := l.Next()
	n, ok1 := Int(a)
	gn, ok2 := Int(g)
	if err != nil || !ok1 || !ok2 || k != Keyword("obj") {
		return 0, 0, nil, fmt.Errorf("no object header at offset %d", off)
	}
	o, err := l.Next()
	if err != nil {
		return n, gn, nil, fmt.Errorf("object %d: %w", n, err)
	}
	if kw, isKw := o.(Keyword); isKw {
		if kw == "endobj" {
			return n, gn, nil, nil
		}
		return n, gn, nil, fmt.Errorf("object %d: keyword %q", n, string(kw))
	}
	l.SkipWS()
	if d, isD := o.(Dict); isD && bytes.HasPrefix(b[l.P:], []byte("stream")) {
		l.P += 6
		if l.P < len(b) && b[l.P] == '\r' {
			l.P++
		}
		if l.P >= len(b) || b[l.P] != '\n' {
			return n, gn, nil, fmt.Errorf("object %d: no EOL after stream keyword", n)
		}
		l.P++
		ln, ok := Int(d["Length"])
		if !ok {
			if r, isRef := d["Length"].(Ref); isRef {
				lf := f
				if f.len != nil {
					lf = f.len
				}
				if e, have := lf.X[r.N]; have && e.T == 1 {
					_, _, lo, err := lf.objAt(e.A)
					if err == nil {
						ln, ok = Int(lo)
					}
				}
			}
		}
		if !ok || ln < 0 || l.P+ln > len(b) {
			return n, gn, nil, fmt.Errorf("object %d: bad /Length %v", n, d["Length"])
		}
		raw := b[l.P : l.P+ln]
		l.P += ln
		q := l.P
		for q < len(b) && IsWS(b[q]) {
			q++
		}
		eol := string(b[l.P:q])
		if !(f.lax && q-l.P <= 4) && eol != "" && eol != "\n" && eol != "\r" && eol != "\r\n" || !bytes.HasPrefix(b[q:], []byte("endstream")) {
			return n, gn, nil, fmt.Errorf("object %d: /Length %d does not end at endstream (found %q)", n, ln, clip(b[l.P:]))
		}
		l.P = q + 9
		o = &Stream{D: d, Raw: raw}
	}
	e, err := l.Next()
	if err != nil || e != Keyword("endobj") {
		return n, gn, nil, fmt.Errorf("object %d: endobj expected, found %v", n, e)
	}
	f.end = l.P
	return n, gn, o, nil
}

// Get resolves an object number. found=false: absent or free.
func (f *File) Get(n int) (o Obj, found bool, err error) {
	e, ok := f.X[n]
	if !ok || e.T == 0 {
		return nil, false, nil
	}
	if e.T == 1 {
		on, og, o, err := f.objAt(e.A)
		if err != nil {
			return nil, true, fmt.Errorf("entry of object %d: %w", n, err)
		}
		if on != n || og != e.B {
			return nil, true, fmt.Errorf("entry of object %d %d leads to object %d %d", n, e.B, on, og)
		}
		o, err = f.decrypt(o, n, og)
		return o, true, err
	}
	m, idx, err := f.objStm(e.A)
	if err != nil {
		return nil, true, err
	}
	if e.B < 0 || e.B >= len(idx) || idx[e.B] != n {
		return nil, true, fmt.Errorf("object %d is not at index %d of object stream %d (%v)", n, e.B, e.A, idx)
	}
	return m[n], true, nil
}

func (f *File) objStm(sn int) (map[int]Obj, []int, error) {
	if m, ok := f.cacheOS[sn]; ok {
		return m, f.cacheIdx[sn], nil
	}
	e, ok := f.X[sn]
	if !ok || e.T != 1 {
		return nil, nil, fmt.Errorf("object stream %d is not a direct object", sn)
	}
	on, og, o, err := f.objAt(e.A)
	if err == nil {
		o, err = f.decrypt(o, on, og)
	}
	if err != nil {
		return nil, nil, err
	}
	s, ok := o.(*Stream)
	if !ok || on != sn || s.D["Type"] != Name("ObjStm") {
		return nil, nil, fmt.Errorf("object %d is not an object stream", sn)
	}
	data, err := f.Decode(s)
	if err != nil {
		return nil, nil, err
	}
	m, idx, err := ParseObjStm(s.D, data)
	if err != nil {
		return nil, nil, fmt.Errorf("object stream %d: %w", sn, err)
	}
	f.cacheOS[sn], f.cacheIdx[sn] = m, idx
	return m, idx, nil
}

// decrypt undoes the encryption of object n, generation g.
func (f *File) decrypt(o Obj, n, g int) (Obj, error) {
	if f.Decrypt == nil {
		return o, nil
	}
	switch v := o.(type) {
	case Str:
		b, err := f.Decrypt([]byte(v), n, g, nil)
		return Str(b), err
	case Arr:
		out := Arr{}
		for _, x := range v {
			y, err := f.decrypt(x, n, g)
			if err != nil {
				return nil, err
			}
			out = append(out, y)
		}
		return out, nil
	case Dict:
		out := Dict{}
		for k, x := range v {
			y, err := f.decrypt(x, n, g)
			if err != nil {
				return nil, err
			}
			out[k] = y
		}
		return out, nil
	case *Stream:
		if v.D["Type"] == Name("XRef") {
			return v, nil
		}
		d, err := f.decrypt(v.D, n, g)
		if err != nil {
			return nil, err
		}
		raw, err := f.Decrypt(v.Raw, n, g, v.D)
		return &Stream{D: d.(Dict), Raw: raw}, err
	}
	return o, nil
}

// ParseObjStm parses decoded object stream data strictly.
func ParseObjStm(d Dict, data []byte) (map[int]Obj, []int, error) {
	n, ok1 := Int(d["N"])
	first, ok2 := Int(d["First"])
	if !ok1 || !ok2 || first < 0 || first > len(data) {
		return nil, nil, fmt.Errorf("bad /N or /First")
	}
	l := NewLex(data[:first], 0)
	var nums, offs []int
	for i := 0; i < n; i++ {
		a, e1 := l.Next()
		b, e2 := l.Next()
		x, k1 := Int(a)
		y, k2 := Int(b)
		if e1 != nil || e2 != nil || !k1 || !k2 {
			return nil, nil, fmt.Errorf("bad header pair %d", i)
		}
		nums = append(nums, x)
		offs = append(offs, y)
	}
	l.SkipWS()
	if l.P != first {
		return nil, nil, fmt.Errorf("header longer than /N pairs")
	}
	m := map[int]Obj{}
	for i := range nums {
		st := first + offs[i]
		en := len(data)
		for j := range offs {
			if offs[j] > offs[i] && first+offs[j] < en {
				en = first + offs[j]
			}
		}
		if st < 0 || st > len(data) {
			return nil, nil, fmt.Errorf("object %d offset out of range", nums[i])
		}
		o, err := ParseOne(data[st:en])
		if err != nil {
			return nil, nil, fmt.Errorf("object %d: %w", nums[i], err)
		}
		if _, dup := m[nums[i]]; dup {
			return nil, nil, fmt.Errorf("object %d twice", nums[i])
		}
		m[nums[i]] = o
	}
	return m, nums, nil
}

// Decode undoes a stream's filters (none or FlateDecode, with PNG predictors).
func (f *File) Decode(s *Stream) ([]byte, error) { return DecodeStream(s) }

func unpng(d []byte, cols int) ([]byte, error) {
	if cols <= 0 || len(d)%(cols+1) != 0 {
		return nil, fmt.Errorf("predictor rows do not fit")
	}
	prev := make([]byte, cols)
	var out []byte
	for p := 0; p < len(d); p += cols + 1 {
		t := d[p]
		row := append([]byte(nil), d[p+1:p+1+cols]...)
		for i := range row {
			var a, b, c int
			if i > 0 {
				a = int(row[i-1])
				c = int(prev[i-1])
			}
			b = int(prev[i])
			switch t {
			case 0:
			case 1:
				row[i] += byte(a)
			case 2:
				row[i] += byte(b)
			case 3:
				row[i] += byte((a + b) / 2)
			case 4:
				pp := a + b - c
				pa, pb, pc := iabs(pp-a), iabs(pp-b), iabs(pp-c)
				switch {
				case pa <= pb && pa <= pc:
					row[i] += byte(a)
				case pb <= pc:
					row[i] += byte(b)
				default:
					row[i] += byte(c)
				}
			default:
				return nil, fmt.Errorf("PNG filter type %d", t)
			}
		}
		out = append(out, row...)
		prev = row
	}
	return out, nil
}

func iabs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// Nums returns the in-use object numbers in order.
func (f *File) Nums() []int {
	var ns []int
	for n, e := range f.X {
		if e.T != 0 {
			ns = append(ns, n)
		}
	}
	sort.Ints(ns)
	return ns
}

// CheckAll resolves every in-use entry and checks /Size and /Root.
func (f *File) CheckAll() error {
	size, ok := Int(f.Trailer["Size"])
	if !ok {
		return fmt.Errorf("trailer has no /Size")
	}
	for _, n := range f.Nums() {
		if n >= size {
			return fmt.Errorf("object %d not below /Size %d", n, size)
		}
		if _, _, err := f.Get(n); err != nil {
			return err
		}
	}
	return nil
}

// Resolve follows a reference.
func (f *File) Resolve(o Obj) Obj {
	for i := 0; i < 32; i++ {
		r, ok := o.(Ref)
		if !ok {
			return o
		}
		v, found, err := f.Get(r.N)
		if !found || err != nil {
			return nil
		}
		o = v
	}
	return nil
}

func (f *File) DictOf(o Obj) Dict {
	switch v := f.Resolve(o).(type) {
	case Dict:
		return v
	case *Stream:
		return v.D
	}
	return nil
}

// Page is one leaf of the page tree with inherited attributes resolved.
type Page struct {
	Num  int
	D    Dict
	Attr Dict // inheritable attributes after inheritance
}

// Pages walks the page tree strictly: /Type, /Parent and /Count must be right.
func (f *File) Pages() ([]Page, error) {
	root := f.DictOf(f.Trailer["Root"])
	if root == nil {
		return nil, fmt.Errorf("no catalog")
	}
	if root["Type"] != Name("Catalog") {
		return nil, fmt.Errorf("root is not a catalog: %s", Canon(root))
	}
	r, ok := root["Pages"].(Ref)
	if !ok {
		return nil, fmt.Errorf("/Pages is not a reference: %s", Canon(root["Pages"]))
	}
	var out []Page
	seen := map[int]bool{}
	if err := f.walk(r, nil, Dict{}, &out, seen); err != nil {
		return nil, err
	}
	return out, nil
}

var inheritable = []Name{"Resources", "MediaBox", "CropBox", "Rotate"}

func (f *File) walk(r Ref, parent *Ref, inh Dict, out *[]Page, seen map[int]bool) error {
	if seen[r.N] {
		return fmt.Errorf("page tree node %d reached twice", r.N)
	}
	seen[r.N] = true
	d := f.DictOf(r)
	if d == nil {
		return fmt.Errorf("page tree node %d missing", r.N)
	}
	if parent != nil {
		if d["Parent"] != Obj(*parent) {
			return fmt.Errorf("node %d: /Parent is %s, not %d", r.N, Canon(d["Parent"]), parent.N)
		}
	}
	a := Dict{}
	for k, v := range inh {
		a[k] = v
	}
	for _, k := range inheritable {
		if v, ok := d[k]; ok {
			a[k] = v
		}
	}
	switch d["Type"] {
	case Name("Page"):
		*out = append(*out, Page{r.N, d, a})
		return nil
	case Name("Pages"):
		kids, ok := f.Resolve(d["Kids"]).(Arr)
		if !ok {
			return fmt.Errorf("node %d: no /Kids", r.N)
		}
		before := len(*out)
		for _, k := range kids {
			kr, ok := k.(Ref)
			if !ok {
				return fmt.Errorf("node %d: kid %s", r.N, Canon(k))
			}
			if err := f.walk(kr, &r, a, out, seen); err != nil {
				return err
			}
		}
		c, ok := Int(f.Resolve(d["Count"]))
		if !ok || c != len(*out)-before {
			return fmt.Errorf("node %d: /Count %s but %d leaves", r.N, Canon(d["Count"]), len(*out)-before)
		}
		return nil
	}
	return fmt.Errorf("node %d: /Type %s", r.N, Canon(d["Type"]))
}

// ParseIndirect strictly parses a buffer holding one "N G obj ... endobj".
func ParseIndirect(b []byte) (int, int, Obj, error) { return ParseIndirectIn(nil, b) }

// ParseIndirectIn is ParseIndirect with stream lengths that may refer into file.
func ParseIndirectIn(file *File, b []byte) (int, int, Obj, error) {
	f := &File{B: b, X: map[int]Entry{}, len: file, lax: true}
	return f.objAt(0)
}

// Extent parses the object at an offset and returns where its text ends (after endobj).
func (f *File) Extent(off int) (num, gen, end int, o Obj, err error) {
	num, gen, o, err = f.objAt(off)
	return num, gen, f.end, o, err
}

// CheckRefs checks that every reference to an in-use object names its generation.
func (f *File) CheckRefs() error {
	var walk func(o Obj) error
	walk = func(o Obj) error {
		switch v := o.(type) {
		case Ref:
			g := 0
			e, ok := f.X[v.N]
			if ok && e.T == 1 {
				g = e.B
			}
			if ok && e.T != 0 && v.G != g {
				return fmt.Errorf("reference %d %d R to object %d %d", v.N, v.G, v.N, g)
			}
		case Arr:
			for _, x := range v {
				if err := walk(x); err != nil {
					return err
				}
			}
		case Dict:
			for _, x := range v {
				if err := walk(x); err != nil {
					return err
				}
			}
		case *Stream:
			return walk(v.D)
		}
		return nil
	}
	for _, n := range f.Nums() {
		o, _, err := f.Get(n)
		if err == nil {
			err = walk(o)
		}
		if err != nil {
			return fmt.Errorf("object %d: %w", n, err)
		}
	}
	return walk(f.Trailer)
}

// Section is one cross-reference section as it stands in the file.
type Section struct {
	Start, End         int // table: "xref" up to the trailer keyword; stream: the object
	Stream             bool
	Num, Gen           int // of the stream object
	Nums               []int
	Ents               map[int]Entry
	Dict               Dict
	DictStart, DictEnd int
	Rows               map[int][]byte // table: the 20 bytes of each entry
}

// SectionAt reads the cross-reference section at off and tells where its parts are.
func (f *File) SectionAt(off int) (*Section, error) {
	d, ents, err := f.section(off)
	if err != nil {
		return nil, err
	}
	s := &Section{Start: off, Ents: ents, Dict: d, Rows: map[int][]byte{}}
	b := f.B
	if bytes.HasPrefix(b[off:], []byte("xref")) {
		l := NewLex(b, off+4)
		for {
			l.SkipWS()
			if bytes.HasPrefix(b[l.P:], []byte("trailer")) {
				s.End = l.P
				l.P += 7
				break
			}
			so, _ := l.Next()
			co, _ := l.Next()
			st, _ := Int(so)
			ct, _ := Int(co)
			for IsWS(b[l.P]) && ct > 0 {
				l.P++
			}
			for i := 0; i < ct; i++ {
				s.Nums = append(s.Nums, st+i)
				s.Rows[st+i] = b[l.P : l.P+20]
				l.P += 20
			}
		}
		l.SkipWS()
		s.DictStart = l.P
		if _, err := l.Next(); err != nil {
			return nil, err
		}
		s.DictEnd = l.P
		return s, nil
	}
	s.Stream = true
	if s.Num, s.Gen, s.End, _, err = f.Extent(off); err != nil {
		return nil, err
	}
	l := NewLex(b, off)
	for i := 0; i < 3; i++ {
		l.Next()
	}
	l.SkipWS()
	s.DictStart = l.P
	l.Next()
	s.DictEnd = l.P
	size, _ := Int(d["Size"])
	idx := []int{0, size}
	if ia, ok := d["Index"].(Arr); ok {
		idx = nil
		for _, e := range ia {
			v, _ := Int(e)
			idx = append(idx, v)
		}
	}
	for k := 0; k < len(idx); k += 2 {
		for i := 0; i < idx[k+1]; i++ {
			s.Nums = append(s.Nums, idx[k]+i)
		}
	}
	return s, nil
}
