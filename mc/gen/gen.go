// Package gen writes legal PDF files in every file layout the format allows. It is
// independent of pdfer and produces the inputs of the reader checks.
package gen

import (
	"bytes"
	"compress/zlib"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
)

// Obj is one object of a revision.
type Obj struct {
	Num, Gen   int
	Body       string // value, or the stream dictionary without /Length
	Stream     bool
	Data       string
	Compressed bool // stored in an object stream
}

// Opt are the free choices of the file format.
type Opt struct {
	EntryEOL     string // of table entries: " \n", " \r", "\r\n"
	EOL          string
	Split        bool // one subsection per entry
	W            [3]int
	Predictor    int    // 0, 2 is not used; 10..15 (15: a different filter per row)
	Filter       string // "", "Flate", "Hex", "Flate+Hex"
	Indirect     bool   // stream lengths are references
	DictPad      int    // bytes of padding in cross-reference dictionaries
	PadLast      bool   // padding after the other entries
	Tight        bool   // no optional white space in dictionaries
	Index        bool   // always write /Index
	PerStm       int    // objects per object stream (0: all)
	StmFilter    string
	StmPad       string // between header and first object
	StmSep       string // between objects (default " ")
	StmPredictor int
	StreamEOL    string // after the stream keyword
	DataEOL      string // before endstream
	Header       string // after the %PDF line
	BeforeXref   string
	XrefHead     string // after the xref keyword
	NoObj0       bool
	Trail        string // after %%EOF
	HeadSep      string // between number, generation and obj
	ObjEOL       string // after obj ("-": nothing, where allowed)
	EndEOL       string // before endobj ("-": nothing, where allowed)
	SXEOL        string // around the startxref number
	SXWidth      int    // digits of it, filled with zeros
}

func (o Opt) norm() Opt {
	def := func(s *string, d string) {
		if *s == "" {
			*s = d
		}
	}
	def(&o.EOL, "\n")
	def(&o.EntryEOL, " \n")
	def(&o.StreamEOL, "\n")
	def(&o.DataEOL, "\n")
	if o.DataEOL == "-" {
		o.DataEOL = ""
	}
	if o.Trail == "-" {
		o.Trail = ""
	} else {
		def(&o.Trail, "\n")
	}
	def(&o.StmSep, " ")
	def(&o.HeadSep, " ")
	def(&o.ObjEOL, "\n")
	def(&o.EndEOL, "\n")
	def(&o.SXEOL, "\n")
	def(&o.XrefHead, "\n")
	return o
}

// Rev is one revision.
type Rev struct {
	XRefStream bool
	Objs       []Obj
	Free       map[int]int // number -> next generation
	Next       map[int]int // free number (or 0) -> next free number
	Trailer    string      // extra trailer entries, e.g. "/Root 1 0 R"
	Opt        Opt
	StmBase    int    // first number for object streams, xref stream and lengths
	Crypt      *Crypt // encrypts object streams (plain objects are encrypted by Crypt.Encrypt)
}

type entry struct{ t, a, b int }

// Build writes the revisions one after the other and returns the end of each.
func Build(version string, revs []Rev) ([]byte, []int) {
	var b bytes.Buffer
	var ends []int
	prev, size := 0, 1
	for i, r := range revs {
		o := r.Opt.norm()
		if i == 0 {
			b.WriteString("%PDF-" + version + strings.TrimLeft(o.EOL, " ") + o.Header)
		}
		x := map[int]entry{}
		if i == 0 && !o.NoObj0 {
			x[0] = entry{0, 0, 65535}
		}
		for n, g := range r.Free {
			x[n] = entry{0, r.Next[n], g}
		}
		if len(r.Next) > 0 {
			x[0] = entry{0, r.Next[0], 65535}
		}
		base := r.StmBase
		alloc := func() int { base++; return base - 1 }
		emit := func(n, g int, body string) {
			x[n] = entry{1, b.Len(), g}
			ob, eb := o.ObjEOL, o.EndEOL
			if ob == "-" {
				ob = sepBefore(body)
			}
			if eb == "-" {
				eb = sepAfter(body)
			}
			fmt.Fprintf(&b, "%d%s%d%sobj%s%s%sendobj%s", n, o.HeadSep, g, o.HeadSep, ob, body, eb, o.EOL)
		}
		var late []func()
		stream := func(dict string, data []byte) string {
			l := fmt.Sprintf("%d", len(data))
			if o.Indirect {
				ln := alloc()
				l = fmt.Sprintf("%d 0 R", ln)
				late = append(late, func() { emit(ln, 0, fmt.Sprintf("%d", len(data))) })
			}
			d := strings.TrimSuffix(strings.TrimSpace(dict), ">>") + "/Length " + l + ">>"
			return d + o.EOL + "stream" + o.StreamEOL + string(data) + o.DataEOL + "endstream"
		}
		var comp []Obj
		for _, ob := range r.Objs {
			if ob.Compressed {
				comp = append(comp, ob)
				continue
			}
			if ob.Stream {
				emit(ob.Num, ob.Gen, stream(ob.Body, []byte(ob.Data)))
			} else {
				emit(ob.Num, ob.Gen, ob.Body)
			}
		}
		per := o.PerStm
		if per <= 0 {
			per = len(comp)
		}
		for k := 0; k < len(comp); k += per {
			part := comp[k:min(k+per, len(comp))]
			sn := alloc()
			var head, body strings.Builder
			for idx, ob := range part {
				fmt.Fprintf(&head, "%d %d ", ob.Num, body.Len())
				body.WriteString(ob.Body)
				if idx < len(part)-1 {
					body.WriteString(o.StmSep)
				}
				x[ob.Num] = entry{2, sn, idx}
			}
			h := head.String() + o.StmPad
			data, extra := encode([]byte(h+body.String()), o.StmFilter, o.StmPredictor, 5)
			if r.Crypt != nil {
				data = r.Crypt.EncStream(data, sn, 0)
			}
			emit(sn, 0, stream(fmt.Sprintf("<</Type/ObjStm/N %d/First %d%s>>", len(part), len(h), extra), data))
		}
		for _, f := range late {
			f()
		}
		late = nil
		b.WriteString(o.BeforeXref)
		for n := range x {
			if n >= size {
				size = n + 1
			}
		}
		tr := r.Trailer
		if prev > 0 {
			tr += fmt.Sprintf("/Prev %d", prev)
		}
		pad := ""
		if o.DictPad > 0 {
			pad = "/Pad(" + strings.Repeat("p", o.DictPad) + ")"
		}
		var start int
		if r.XRefStream {
			xn := alloc()
			if base > size {
				size = base
			}
			start = b.Len()
			x[xn] = entry{1, start, 0}
			w := o.W
			if w == [3]int{} {
				w = [3]int{1, 4, 2}
			}
			mk := func() (string, []byte) {
				nums := keys(x)
				var raw bytes.Buffer
				var idx []string
				for p := 0; p < len(nums); {
					q := p + 1
					for q < len(nums) && nums[q] == nums[q-1]+1 && !o.Split {
						q++
					}
					idx = append(idx, fmt.Sprintf("%d %d", nums[p], q-p))
					for ; p < q; p++ {
						e := x[nums[p]]
						put(&raw, e.t, w[0])
						put(&raw, e.a, w[1])
						v := e.b
						if w[2] > 0 && w[2] < 8 && v >= 1<<(8*w[2]) {
							v = 1<<(8*w[2]) - 1
						}
						put(&raw, v, w[2])
					}
				}
				index := ""
				if o.Index || o.Split || len(idx) != 1 || idx[0] != fmt.Sprintf("0 %d", size) {
					index = "/Index[" + strings.Join(idx, " ") + "]"
				}
				data, extra := encode(raw.Bytes(), o.Filter, o.Predictor, w[0]+w[1]+w[2])
				sp := " "
				if o.Tight {
					sp = ""
				}
				core := fmt.Sprintf("/Type%s/XRef/Size %d/W%s[%d %d %d]%s%s%s", sp, size, sp, w[0], w[1], w[2], index, extra, tr)
				if o.PadLast {
					core += pad
				} else {
					core = pad + core
				}
				return core, data
			}
			var core string
			var data []byte
			core, data = mk()
			core += fmt.Sprintf("/Length %d", len(data)) // must be direct here
			emit(xn, 0, fmt.Sprintf("<<%s>>%sstream%s%s%sendstream", core, o.EOL, o.StreamEOL, data, o.DataEOL))
		} else {
			start = b.Len()
			b.WriteString("xref" + o.XrefHead)
			nums := keys(x)
			for p := 0; p < len(nums); {
				q := p + 1
				for q < len(nums) && nums[q] == nums[q-1]+1 && !o.Split {
					q++
				}
				fmt.Fprintf(&b, "%d %d%s", nums[p], q-p, strings.Replace(o.EOL, "\n\n", "\n", 1))
				for ; p < q; p++ {
					e := x[nums[p]]
					f := "n"
					if e.t == 0 {
						f = "f"
					}
					fmt.Fprintf(&b, "%010d %05d %s%s", e.a, e.b, f, o.EntryEOL)
				}
			}
			sp := o.EOL
			if o.Tight {
				sp = ""
			}
			body := fmt.Sprintf("/Size %d%s", size, tr)
			if o.PadLast {
				body += pad
			} else {
				body = pad + body
			}
			fmt.Fprintf(&b, "trailer%s<<%s%s>>%s", sp, sp, body, o.EOL)
		}
		fmt.Fprintf(&b, "startxref%s%0*d%s%%%%EOF%s", o.SXEOL, o.SXWidth, start, o.SXEOL, o.Trail)
		ends = append(ends, b.Len())
		prev = start
	}
	return b.Bytes(), ends
}

func delim(c byte) bool { return strings.IndexByte("()<>[]{}/%", c) >= 0 }

func sepBefore(body string) string {
	if delim(body[0]) {
		return ""
	}
	return " "
}

func sepAfter(body string) string {
	if delim(body[len(body)-1]) && body[len(body)-1] != '/' {
		return ""
	}
	return " "
}

func sortStrings(a []string) { sort.Strings(a) }

func keys(x map[int]entry) []int {
	var ns []int
	for n := range x {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	return ns
}

func put(b *bytes.Buffer, v, w int) {
	for i := w - 1; i >= 0; i-- {
		if i >= 8 {
			b.WriteByte(0)
			continue
		}
		b.WriteByte(byte(uint64(v) >> (8 * uint(i))))
	}
}

// Flate is zlib compression.
func Flate(d []byte) []byte {
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevel(&b, 6)
	w.Write(d)
	w.Close()
	return b.Bytes()
}

// Hex is ASCIIHex with line breaks.
func Hex(d []byte) []byte {
	s := hex.EncodeToString(d)
	var b bytes.Buffer
	for i := 0; i < len(s); i += 64 {
		b.WriteString(s[i:min(i+64, len(s))] + "\n")
	}
	b.WriteByte('>')
	return b.Bytes()
}

func encode(d []byte, filter string, predictor, cols int) ([]byte, string) {
	parms := ""
	if predictor >= 10 {
		for len(d)%cols != 0 {
			d = append(d, ' ')
		}
		d = PNG(d, cols, predictor)
		parms = fmt.Sprintf("<</Columns %d/Predictor %d>>", cols, predictor)
	}
	switch filter {
	case "":
		if predictor >= 10 {
			panic("gen: predictor without flate")
		}
		return d, ""
	case "Hex":
		return Hex(d), "/Filter/ASCIIHexDecode"
	case "Flate":
		if parms != "" {
			parms = "/DecodeParms" + parms
		}
		return Flate(d), "/Filter/FlateDecode" + parms
	case "[Flate]":
		if parms != "" {
			parms = "/DecodeParms [" + parms + "]"
		}
		return Flate(d), "/Filter[/FlateDecode]" + parms
	case "A85":
		return A85(d), "/Filter/ASCII85Decode"
	case "RL":
		return RunLength(d), "/Filter [/RunLengthDecode]"
	case "Flate+Hex":
		if parms != "" {
			parms = "/DecodeParms[null " + parms + "]"
		}
		return Hex(Flate(d)), "/Filter [ /ASCIIHexDecode /FlateDecode ]" + parms
	}
	panic(filter)
}

// PNG applies a PNG row predictor (10..14 fixed filter, 15 cycles through all).
func PNG(d []byte, cols, predictor int) []byte {
	var out []byte
	prev := make([]byte, cols)
	for r := 0; r*cols < len(d); r++ {
		row := d[r*cols : (r+1)*cols]
		f := predictor - 10
		if predictor == 15 {
			f = r % 5
		}
		out = append(out, byte(f))
		for i, c := range row {
			var a, bb, cc byte
			bb = prev[i]
			if i > 0 {
				a, cc = row[i-1], prev[i-1]
			}
			switch f {
			case 0:
				out = append(out, c)
			case 1:
				out = append(out, c-a)
			case 2:
				out = append(out, c-bb)
			case 3:
				out = append(out, c-byte((int(a)+int(bb))/2))
			case 4:
				p := int(a) + int(bb) - int(cc)
				pa, pb, pc := iabs(p-int(a)), iabs(p-int(bb)), iabs(p-int(cc))
				v := cc
				if pa <= pb && pa <= pc {
					v = a
				} else if pb <= pc {
					v = bb
				}
				out = append(out, c-v)
			}
		}
		prev = row
	}
	return out
}

func iabs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// A85 is ASCII85 with line breaks.
func A85(d []byte) []byte {
	var b bytes.Buffer
	for i := 0; i < len(d); i += 4 {
		var v uint32
		n := min(4, len(d)-i)
		for k := 0; k < 4; k++ {
			v <<= 8
			if k < n {
				v |= uint32(d[i+k])
			}
		}
		if n == 4 && v == 0 {
			b.WriteByte('z')
		} else {
			var e [5]byte
			for k := 4; k >= 0; k-- {
				e[k] = byte(v%85) + '!'
				v /= 85
			}
			b.Write(e[:n+1])
		}
		if i%40 == 36 {
			b.WriteByte('\n')
		}
	}
	b.WriteString("~>")
	return b.Bytes()
}

// RunLength stores everything as literals, with runs where three bytes are equal.
func RunLength(d []byte) []byte {
	var out []byte
	for i := 0; i < len(d); {
		j := i
		for j < len(d) && d[j] == d[i] && j-i < 128 {
			j++
		}
		if j-i >= 3 {
			out = append(out, byte(257-(j-i)), d[i])
			i = j
			continue
		}
		out = append(out, 0, d[i])
		i++
	}
	return append(out, 128)
}
