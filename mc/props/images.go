package props

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
)

func init() {
	core.Register(&core.Prop{ID: "P15", Level: "model_checking", Run: runImages,
		Rule: "A case is one kind and size of picture with every assignment of colours to its pixels, one sequence of images put on pages, one JPEG header, or one document whose page resources hold a chosen set of images, forms and fonts in a chosen storage. Written images are rendered from the strictly read file by an independent reader of samples and soft masks; extracted ones are compared byte by byte with what was stored. Non-trivial: at least one image or font is embedded or reported.",
		Assumptions: []string{
			"images of the pages' own (or inherited) resources; resources of form XObjects are not searched",
			"the family of a font is checked where its descriptor names it; the encoding where it is a name",
			"colours are compared to within one unit of 255 for 16-bit samples with transparency",
		},
	})
}

// --- an independent PNG writer -------------------------------------------------

type pngKind struct {
	name   string
	ct     int // colour type
	depth  int
	pal    []byte // PLTE
	trns   []byte
	pixels [][]int    // the samples of each pixel of the alphabet
	rgba   [][4]uint8 // what they look like
	loose  bool
}

func pngKinds() []pngKind {
	var out []pngKind
	scale := func(v, depth int) uint8 {
		if depth == 16 {
			return uint8(v >> 8)
		}
		return uint8(v * 255 / (1<<depth - 1))
	}
	for _, d := range []int{1, 2, 4, 8, 16} {
		vs := map[int][]int{1: {0, 1}, 2: {0, 1, 2, 3}, 4: {0, 5, 10, 15}, 8: {0, 1, 127, 255}, 16: {0, 0x00ff, 0x8001, 0xffff}}[d]
		k := pngKind{name: fmt.Sprintf("gray%d", d), ct: 0, depth: d}
		for _, v := range vs {
			g := scale(v, d)
			k.pixels, k.rgba = append(k.pixels, []int{v}), append(k.rgba, [4]uint8{g, g, g, 255})
		}
		out = append(out, k)
		k.name += "-key"
		k.trns = []byte{byte(vs[1] >> 8), byte(vs[1])}
		k.rgba = append([][4]uint8{}, k.rgba...)
		k.rgba[1][3] = 0
		out = append(out, k)
	}
	for _, d := range []int{8, 16} {
		k := pngKind{name: fmt.Sprintf("rgb%d", d), ct: 2, depth: d}
		for _, v := range [][3]int{{0, 0, 0}, {255, 1, 0}, {2, 254, 128}, {255, 255, 255}} {
			s := []int{v[0], v[1], v[2]}
			if d == 16 {
				s = []int{v[0]<<8 | 0x7f, v[1]<<8 | 0x80, v[2]<<8 | 3}
			}
			k.pixels, k.rgba = append(k.pixels, s), append(k.rgba, [4]uint8{uint8(v[0]), uint8(v[1]), uint8(v[2]), 255})
		}
		out = append(out, k)
		k.name += "-key"
		k.trns = nil
		for _, v := range k.pixels[1] {
			k.trns = append(k.trns, byte(v>>8), byte(v))
		}
		k.rgba = append([][4]uint8{}, k.rgba...)
		k.rgba[1][3] = 0
		out = append(out, k)
	}
	for _, d := range []int{1, 2, 4, 8} {
		pal := [][3]uint8{{10, 20, 30}, {255, 0, 1}, {0, 0, 0}, {250, 251, 252}}[:min(4, 1<<d)]
		for _, trns := range [][]byte{nil, {0}, {255, 128}, {255, 255, 1, 0}} {
			if len(trns) > len(pal) {
				continue
			}
			k := pngKind{name: fmt.Sprintf("pal%d-t%d", d, len(trns)), ct: 3, depth: d, trns: trns}
			for i, p := range pal {
				k.pal = append(k.pal, p[:]...)
				a := uint8(255)
				if i < len(trns) {
					a = trns[i]
				}
				k.pixels, k.rgba = append(k.pixels, []int{i}), append(k.rgba, [4]uint8{p[0], p[1], p[2], a})
			}
			k.loose = trns != nil
			out = append(out, k)
		}
	}
	for _, d := range []int{8, 16} {
		ga := pngKind{name: fmt.Sprintf("ga%d", d), ct: 4, depth: d, loose: d == 16}
		rgba := pngKind{name: fmt.Sprintf("rgba%d", d), ct: 6, depth: d, loose: d == 16}
		for _, v := range [][4]int{{0, 0, 0, 255}, {255, 3, 200, 255}, {200, 100, 50, 128}, {9, 255, 1, 1}, {77, 88, 99, 0}} {
			x := func(n int) int {
				if d == 16 {
					return n<<8 | n
				}
				return n
			}
			c := [4]uint8{uint8(v[0]), uint8(v[1]), uint8(v[2]), uint8(v[3])}
			ga.pixels, ga.rgba = append(ga.pixels, []int{x(v[0]), x(v[3])}), append(ga.rgba, [4]uint8{c[0], c[0], c[0], c[3]})
			rgba.pixels, rgba.rgba = append(rgba.pixels, []int{x(v[0]), x(v[1]), x(v[2]), x(v[3])}), append(rgba.rgba, c)
		}
		out = append(out, ga, rgba)
	}
	return out
}

func (k pngKind) encode(w, h int, px []int) []byte {
	var raw []byte
	for y := 0; y < h; y++ {
		raw = append(raw, 0)
		var acc, n uint
		for x := 0; x < w; x++ {
			for _, s := range k.pixels[px[y*w+x]] {
				if k.depth == 16 {
					raw = append(raw, byte(s>>8), byte(s))
					continue
				}
				acc, n = acc<<k.depth|uint(s), n+uint(k.depth)
				if n == 8 {
					raw, acc, n = append(raw, byte(acc)), 0, 0
				}
			}
		}
		if n > 0 {
			raw = append(raw, byte(acc<<(8-n)))
		}
	}
	var b bytes.Buffer
	chunk := func(name string, d []byte) {
		binary.Write(&b, binary.BigEndian, uint32(len(d)))
		body := append([]byte(name), d...)
		b.Write(body)
		binary.Write(&b, binary.BigEndian, crc32.ChecksumIEEE(body))
	}
	b.WriteString("\x89PNG\r\n\x1a\n")
	hd := make([]byte, 13)
	binary.BigEndian.PutUint32(hd, uint32(w))
	binary.BigEndian.PutUint32(hd[4:], uint32(h))
	hd[8], hd[9] = byte(k.depth), byte(k.ct)
	chunk("IHDR", hd)
	if k.pal != nil {
		chunk("PLTE", k.pal)
	}
	if k.trns != nil {
		chunk("tRNS", k.trns)
	}
	chunk("IDAT", deflate(string(raw), 6))
	chunk("IEND", nil)
	return b.Bytes()
}

// --- an independent reader of image XObjects -----------------------------------

// samples reads an 8-bit gray or RGB image XObject.
func samples(f *ref.File, o ref.Obj) (w, h, n int, data []byte, d ref.Dict, err error) {
	s, ok := f.Resolve(o).(*ref.Stream)
	if !ok {
		return 0, 0, 0, nil, nil, fmt.Errorf("not a stream")
	}
	d = s.D
	if f.Resolve(d["Type"]) != ref.Name("XObject") || f.Resolve(d["Subtype"]) != ref.Name("Image") {
		return 0, 0, 0, nil, nil, fmt.Errorf("Type %v Subtype %v", d["Type"], d["Subtype"])
	}
	w, _ = ref.Int(f.Resolve(d["Width"]))
	h, _ = ref.Int(f.Resolve(d["Height"]))
	bpc, _ := ref.Int(f.Resolve(d["BitsPerComponent"]))
	if bpc != 8 {
		return 0, 0, 0, nil, nil, fmt.Errorf("BitsPerComponent %d", bpc)
	}
	switch f.Resolve(d["ColorSpace"]) {
	case ref.Name("DeviceGray"):
		n = 1
	case ref.Name("DeviceRGB"):
		n = 3
	default:
		return 0, 0, 0, nil, nil, fmt.Errorf("ColorSpace %v", d["ColorSpace"])
	}
	for _, k := range []ref.Name{"Decode", "Mask", "ImageMask", "SMaskInData", "Matte"} {
		if d[k] != nil {
			return 0, 0, 0, nil, nil, fmt.Errorf("unexpected /%s", k)
		}
	}
	data, err = ref.DecodeStream(s)
	if err == nil && len(data) != w*h*n {
		err = fmt.Errorf("%d bytes of data for %dx%dx%d", len(data), w, h, n)
	}
	return
}

// render returns the pixels of an image XObject with its soft mask applied.
func render(f *ref.File, o ref.Obj) (w, h int, px [][4]uint8, raw []byte, err error) {
	w, h, n, data, d, err := samples(f, o)
	if err != nil {
		return 0, 0, nil, nil, err
	}
	for i := 0; i < w*h; i++ {
		p := [4]uint8{data[i*n], data[i*n], data[i*n], 255}
		if n == 3 {
			p[1], p[2] = data[i*n+1], data[i*n+2]
		}
		px = append(px, p)
	}
	if d["SMask"] != nil {
		mw, mh, mn, mask, md, err := samples(f, d["SMask"])
		if err != nil {
			return 0, 0, nil, nil, fmt.Errorf("soft mask: %v", err)
		}
		if mw != w || mh != h || mn != 1 || md["SMask"] != nil {
			return 0, 0, nil, nil, fmt.Errorf("soft mask %dx%dx%d for an image %dx%d", mw, mh, mn, w, h)
		}
		for i := range px {
			px[i][3] = mask[i]
		}
	}
	return w, h, px, data, nil
}

func samePixels(got, want [][4]uint8, loose bool) bool {
	if len(got) != len(want) {
		return false
	}
	tol := 0
	if loose {
		tol = 1
	}
	for i := range got {
		if got[i][3] != want[i][3] {
			return false
		}
		for c := 0; c < 3 && want[i][3] > 0; c++ {
			if d := int(got[i][c]) - int(want[i][c]); d > tol || d < -tol {
				return false
			}
		}
	}
	return true
}

func runImages(c *core.Ctx) {
	runImagePNG(c)
	runImageJPEG(c)
	runImageSeq(c)
	runImageRead(c)
	runImagePages(c)
	runFonts(c)
	runImageDir(c)
}

func runImagePNG(c *core.Ctx) {
	kinds := pngKinds()
	sizes := [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 1}, {1, 3}, {2, 2}}
	if c.Thorough() {
		sizes = append(sizes, [2]int{4, 1}, [2]int{5, 1}, [2]int{1, 5}, [2]int{3, 2}, [2]int{2, 3})
	}
	sizes = append(sizes, [2]int{9, 1}, [2]int{17, 3}) // these with a few assignments only
	type pics struct{ kind, size, from, to int }
	var cases []pics
	for s, wh := range sizes {
		for k, kind := range kinds {
			n := 12
			if wh[0]*wh[1] < 9 {
				n = pow(len(kind.pixels), wh[0]*wh[1])
			}
			for from := 0; from < n; from += 700 {
				cases = append(cases, pics{k, s, from, min(n, from+700)})
			}
		}
	}
	c.ForEach("png", len(cases), func(i int) string {
		p := cases[i]
		return fmt.Sprintf("%s-%dx%d-%d", kinds[p.kind].name, sizes[p.size][0], sizes[p.size][1], p.from)
	}, func(t *core.T, i int) {
		k, w, h := kinds[cases[i].kind], sizes[cases[i].size][0], sizes[cases[i].size][1]
		a, direct := len(k.pixels), w*h < 9
		for v := cases[i].from; v < cases[i].to && !t.Failed(); v++ {
			px := make([]int, w*h)
			want := make([][4]uint8, w*h)
			for j, x := 0, v; j < w*h; j++ {
				if direct {
					px[j], x = x%a, x/a
				} else {
					px[j] = (j*(v+1) + j/(v+2)) % a
				}
				want[j] = k.rgba[px[j]]
			}
			src := k.encode(w, h, px)
			b := write.NewSimplePDFBuilder()
			info, err := b.Writer().AddImage(src, "Pic")
			if err != nil {
				t.Attach("image.png", src)
				t.Fail("add", "%v", err)
				return
			}
			if info.Width != w || info.Height != h || info.Name != "Pic" {
				t.Fail("info", "%+v", *info)
			}
			p := b.AddPage(write.PageSizeLetter)
			name := p.AddImage(info)
			p.Content().DrawImageAt(name, 10, 20, 30, 40)
			b.FinalizePage(p)
			out, err := b.Bytes()
			t.Step(1)
			if err != nil {
				t.Fail("bytes", "%v", err)
				return
			}
			f, err := ref.Open(out)
			if err == nil {
				err = f.CheckAll()
			}
			if err == nil {
				err = f.CheckRefs()
			}
			if err != nil {
				t.Attach("out.pdf", out)
				t.Fail("valid", "%v", err)
				return
			}
			pages, _ := f.Pages()
			xo := f.DictOf(f.DictOf(resolveAttrs(f, pages[0].D)["Resources"])["XObject"])
			gw, gh, got, raw, err := render(f, xo[ref.Name(strings.TrimPrefix(name, "/"))])
			if err != nil || gw != w || gh != h || !samePixels(got, want, k.loose) {
				t.Attach("image.png", src)
				t.Attach("out.pdf", out)
				t.Fail("pixels", "%v: %dx%d %v, want %v", err, gw, gh, got, want)
				return
			}
			t.State(fmt.Sprint(k.name, w, h, px))
			t.Outcome(fmt.Sprint(got))
			if v%7 == 0 {
				ims, err := extract.ExtractAllImages(out, nil, false)
				if err != nil || len(ims) != 1 || ims[0].Width != w || ims[0].Height != h || !bytes.Equal(ims[0].Data, raw) || ims[0].BitsPerComponent != 8 || ims[0].ID != name {
					t.Attach("out.pdf", out)
					t.Fail("extract", "%v %+v", err, ims)
				}
				doc, err := extract.ExtractContent(out, nil, false)
				if err != nil || len(doc.Pages) != 1 || len(doc.Pages[0].Images) != 1 || doc.Pages[0].Images[0].ImageID != name {
					t.Fail("draw", "%v", err)
				}
			}
		}
	})
}

// --- JPEG ------------------------------------------------------------------------

func jpegSegment(marker byte, data string) string {
	return string([]byte{0xff, marker, byte((len(data) + 2) >> 8), byte(len(data) + 2)}) + data
}

func jpegSOF(marker byte, w, h, comps int) string {
	d := string([]byte{8, byte(h >> 8), byte(h), byte(w >> 8), byte(w), byte(comps)})
	for i := 0; i < comps; i++ {
		d += string([]byte{byte(i + 1), 0x11, 0})
	}
	return jpegSegment(marker, d)
}

func jpegTail() string {
	return jpegSegment(0xda, "\x01\x01\x00\x00\x3f\x00") + "\x12\xff\x00\x34\xff\xd0endstream\nendobj\xff\xc0\x00\x0b\x08" + "\xff\xd9"
}

func jpegPreludes() []string {
	thumb := "\xff\xd8" + jpegSOF(0xc0, 7, 7, 1) + "\xff\xd9"
	return []string{
		jpegSegment(0xe0, "JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00"),
		jpegSegment(0xe1, "Exif\x00\x00"+thumb),
		jpegSegment(0xdb, "\x00"+strings.Repeat("\x10", 64)),
		jpegSegment(0xc4, "\x00"+strings.Repeat("\xff", 16)+"\xc0\x00\x11\x08\x00\x01\x00\x01\x03"),
		jpegSegment(0xcc, "\x00\x10"),
		jpegSegment(0xc8, "\x08\x00\x05\x00\x05\x01"),
		jpegSegment(0xee, "Adobe\x00\x64\x00\x00\x00\x00\x00"),
		jpegSegment(0xfe, ""),
		jpegSegment(0xdd, "\x00\x04"),
		"\xff\xff\xff", // fill bytes before a marker
		"\xff\x01",     // TEM has no length
		jpegSegment(0xfe, strings.Repeat("\xff\xc0", 300)),
	}
}

// jpegSize is the size and the number of components in the frame header of a JPEG file.
func jpegFile(prelude []int, sof byte, w, h, comps int) []byte {
	s := "\xff\xd8"
	for _, p := range prelude {
		s += jpegPreludes()[p]
	}
	return []byte(s + jpegSOF(sof, w, h, comps) + jpegTail())
}

func checkJPEG(t *core.T, src []byte, w, h, comps int) {
	pw := write.NewPDFWriter()
	in := append([]byte{}, src...)
	info, err := pw.AddJPEGImage(in, "J")
	t.Step(1)
	if err != nil {
		t.Attach("image.jpg", src)
		t.Fail("jpeg", "%v", err)
		return
	}
	if !bytes.Equal(in, src) {
		t.Fail("input", "the input was changed")
	}
	for i := range in { // the caller may reuse its buffer
		in[i] = 'x'
	}
	cs := map[int]string{1: "DeviceGray", 3: "DeviceRGB", 4: "DeviceCMYK"}[comps]
	if info.Width != w || info.Height != h || info.ColorSpace != "/"+cs {
		t.Attach("image.jpg", src)
		t.Fail("jpeg info", "%+v, want %dx%d %s", *info, w, h, cs)
		return
	}
	pages := pw.AddObject([]byte("<</Type/Pages/Kids[]/Count 0>>"))
	pw.SetRoot(pw.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pages))))
	out, err := pw.Bytes()
	if err != nil {
		t.Fail("jpeg", "%v", err)
		return
	}
	f, err := ref.Open(out)
	if err == nil {
		err = f.CheckAll()
	}
	if err != nil {
		t.Attach("out.pdf", out)
		t.Fail("valid", "%v", err)
		return
	}
	o, _, _ := f.Get(info.ObjectNum)
	s, ok := o.(*ref.Stream)
	if !ok || !bytes.Equal(s.Raw, src) {
		t.Attach("out.pdf", out)
		t.Fail("jpeg data", "the stream is not the file")
		return
	}
	want := fmt.Sprintf("<</Type/XObject/Subtype/Image/Width %d/Height %d/ColorSpace/%s/BitsPerComponent 8/Filter/DCTDecode/Length %d>>", w, h, cs, len(src))
	if got := ref.Canon(s.D); got != mustCanon(want) {
		t.Fail("jpeg dictionary", "%s, want %s", got, want)
	}
	t.State(fmt.Sprintf("%x", src[:len(src)-20]))
	t.Outcome(want)
}

func runImageJPEG(c *core.Ctx) {
	sofs := []byte{0xc0, 0xc1, 0xc2, 0xc3, 0xc5, 0xc6, 0xc7, 0xc9, 0xca, 0xcb, 0xcd, 0xce, 0xcf}
	dims := [][2]int{{1, 1}, {640, 480}, {255, 256}, {65535, 1}, {1, 65535}, {0x0100, 0xffd9}}
	var pre [][]int
	n := len(jpegPreludes())
	for l := 0; l <= core.Pick(c, 2, 3); l++ {
		for v := 0; v < pow(n, l); v++ {
			pre = append(pre, seqOf(v, n, l))
		}
	}
	c.ForEach("jpeg", len(sofs)*len(pre), func(i int) string {
		return fmt.Sprintf("sof%x-%v", sofs[i%len(sofs)], pre[i/len(sofs)])
	}, func(t *core.T, i int) {
		for j, d := range dims {
			for _, comps := range []int{1, 3, 4} {
				if (i+j)%4 != 0 && i/len(sofs) > n {
					continue
				}
				checkJPEG(t, jpegFile(pre[i/len(sofs)], sofs[i%len(sofs)], d[0], d[1], comps), d[0], d[1], comps)
			}
		}
	})
	// a truncated file is an error until its frame header is complete
	c.ForEach("jpeg prefix", len(sofs)*n, func(i int) string { return fmt.Sprintf("sof%x-%d", sofs[i%len(sofs)], i/len(sofs)) }, func(t *core.T, i int) {
		full := jpegFile([]int{i / len(sofs)}, sofs[i%len(sofs)], 300, 200, 3)
		end := bytes.Index(full, []byte{0xff, sofs[i%len(sofs)], 0, 17, 8, 0, 200}) + 10 // up to the number of components
		for cut := 0; cut < len(full); cut++ {
			pw := write.NewPDFWriter()
			info, err := pw.AddJPEGImage(full[:cut], "J")
			_, err2 := pw.AddImage(full[:cut], "J")
			t.Step(2)
			if cut < end && (err == nil || err2 == nil) {
				t.Fail("prefix", "a file cut at %d is accepted as %+v", cut, info)
				return
			}
			if cut >= end+10 && (err != nil || info.Width != 300 || info.Height != 200) {
				t.Fail("prefix", "a file cut at %d: %v", cut, err)
				return
			}
		}
		t.State(fmt.Sprint(i))
		t.Outcome("truncated")
	})
}

// --- sequences of images on pages --------------------------------------------------

func runImageSeq(c *core.Ctx) {
	type step struct {
		kind, name, page int
	}
	names := []string{"Im1", "", "/A B(c)#é"}
	var steps []step
	for k := 0; k < 4; k++ {
		for nm := range names {
			for p := 0; p < 2; p++ {
				steps = append(steps, step{k, nm, p})
			}
		}
	}
	var kind pngKind
	for _, k := range pngKinds() {
		if k.name == "rgba8" {
			kind = k
		}
	}
	n := len(steps)
	max := core.Pick(c, 2, 3)
	total := 0
	for l := 1; l <= max; l++ {
		total += pow(n, l)
	}
	at := func(i int) []int {
		for l := 1; ; l++ {
			if i < pow(n, l) {
				return seqOf(i, n, l)
			}
			i -= pow(n, l)
		}
	}
	// in the quick tier a third step is taken from a smaller set
	extra := core.Pick(c, n*n*4, 0)
	seq := func(i int) []int {
		if i < total {
			return at(i)
		}
		i -= total
		return append(seqOf(i%(n*n), n, 2), []int{0, 5, 14, 19}[i/(n*n)])
	}
	c.ForEach("sequence", total+extra, func(i int) string { return fmt.Sprint(seq(i)) }, func(t *core.T, i int) {
		b := write.NewSimplePDFBuilder()
		pages := []*write.PageBuilder{b.AddPage(write.PageSizeLetter), b.AddPage(write.PageSizeLetter)}
		type placed struct {
			want [][4]uint8
			jpeg []byte
			obj  int
		}
		model := []map[string]placed{{}, {}}
		var last *write.ImageInfo
		var lastP placed
		for j, s := range seq(i) {
			st := steps[s]
			var info *write.ImageInfo
			var err error
			var p placed
			switch {
			case st.kind == 0 || st.kind == 3 && last == nil:
				px := []int{j % 5, (j + 2) % 5}
				info, err = b.Writer().AddImage(kind.encode(2, 1, px), names[st.name])
				p.want = [][4]uint8{kind.rgba[px[0]], kind.rgba[px[1]]}
			case st.kind == 1:
				p.jpeg = jpegFile(nil, 0xc0, 10+j, 20, 3)
				info, err = b.Writer().AddImage(p.jpeg, names[st.name])
				if err != nil { // the decoder of the library wants a complete image
					info, err = b.Writer().AddJPEGImage(p.jpeg, names[st.name])
				}
			case st.kind == 2:
				g := pngKinds()[6]
				info, err = b.Writer().AddImage(g.encode(1, 1, []int{j}), names[st.name])
				p.want = [][4]uint8{g.rgba[j]}
			default: // the same image again
				info, p = last, lastP
			}
			if err != nil {
				t.Fail("add", "%v", err)
				return
			}
			p.obj = info.ObjectNum
			last, lastP = info, p
			name := pages[st.page].AddImage(info)
			if old, used := model[st.page][name]; used && old.obj != p.obj {
				t.Fail("name", "page %d: %s now means another image", st.page, name)
			}
			model[st.page][name] = p
			pages[st.page].Content().DrawImageAt(name, 1, 2, 3, 4)
		}
		for _, p := range pages {
			b.FinalizePage(p)
		}
		out, err := b.Bytes()
		t.Step(1)
		if err != nil {
			t.Fail("bytes", "%v", err)
			return
		}
		t.Attach("out.pdf", out)
		f, err := ref.Open(out)
		if err == nil {
			err = f.CheckAll()
		}
		if err == nil {
			err = f.CheckRefs()
		}
		if err != nil {
			t.Fail("valid", "%v", err)
			return
		}
		ps, _ := f.Pages()
		raws := map[int][]byte{}
		for pi, m := range model {
			xo := f.DictOf(f.DictOf(resolveAttrs(f, ps[pi].D)["Resources"])["XObject"])
			if len(xo) != len(m) {
				t.Fail("resources", "page %d has XObjects %v, want %d", pi, xo, len(m))
				return
			}
			for name, p := range m {
				no, err := ref.ParseOne([]byte(name))
				key, isName := no.(ref.Name)
				if err != nil || !isName {
					t.Fail("name", "%q is no name", name)
					return
				}
				if p.jpeg != nil {
					s, _ := f.Resolve(xo[key]).(*ref.Stream)
					if s == nil || !bytes.Equal(s.Raw, p.jpeg) {
						t.Fail("pixels", "page %d %s is not the JPEG file", pi, name)
					}
					raws[p.obj] = p.jpeg
					continue
				}
				_, _, got, raw, err := render(f, xo[key])
				if err != nil || !samePixels(got, p.want, false) {
					t.Fail("pixels", "page %d %s: %v %v, want %v", pi, name, err, got, p.want)
				}
				raws[p.obj] = raw
			}
		}
		doc, err := extract.ExtractContent(out, nil, false)
		ims, err2 := extract.ExtractAllImages(out, nil, false)
		t.Step(2)
		if err != nil || err2 != nil {
			t.Fail("extract", "%v %v", err, err2)
			return
		}
		if len(ims) != len(raws) {
			t.Fail("extract", "%d images, want %d", len(ims), len(raws))
		}
		used := map[int]bool{}
		for _, im := range ims {
			found := -1
			for _, m := range model {
				for name, p := range m {
					if string(must(ref.ParseOne([]byte(name))).(ref.Name)) == strings.TrimPrefix(im.ID, "/") && bytes.Equal(raws[p.obj], im.Data) && !used[p.obj] {
						found = p.obj
					}
				}
			}
			if found < 0 {
				t.Fail("extract", "image %s of %d bytes is none of the images", im.ID, len(im.Data))
			}
			used[found] = true
		}
		for pi, m := range model {
			if len(doc.Pages[pi].Resources.Images) != len(m) {
				t.Fail("resources", "page %d: %d images are reported, want %d", pi, len(doc.Pages[pi].Resources.Images), len(m))
			}
			for _, r := range doc.Pages[pi].Images {
				if _, ok := doc.Pages[pi].Resources.Images[strings.TrimPrefix(r.ImageID, "/")]; !ok {
					t.Fail("draw", "page %d draws %q, which is not in its images", pi, r.ImageID)
				}
			}
		}
		t.State(fmt.Sprint(seq(i)))
		t.Outcome(fmt.Sprint(len(raws), len(model[0]), len(model[1])))
	})
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// --- reading stored images -----------------------------------------------------------

// imgLayouts are the layouts of the files that are read.
func imgLayouts() []string {
	return []string{"table", "packed", "updated", "gen", "v1r2", "v2r3-128", "v4-aestrue---nometafalse", "v4-aestrue---nometafalse-direct"}
}

// imgDoc builds the file; the second result is its password.
func imgDoc(objs []gen.Obj, layout string) ([]byte, []byte) {
	for _, cf := range cryptCfgs() {
		if cf.name != strings.TrimSuffix(layout, "-direct") {
			continue
		}
		k := cf.make([]byte("user"), []byte("owner"), -44, cryptID)
		id := fmt.Sprintf("/Root 1 0 R/ID[<%x><%x>]/Encrypt", cryptID, cryptID)
		if strings.HasSuffix(layout, "-direct") {
			b, _ := gen.Build("1.7", []gen.Rev{{Objs: k.Encrypt(objs, 90), Trailer: id + k.Dict()}})
			return b, []byte("user")
		}
		objs = append(objs, gen.Obj{Num: 90, Body: k.Dict()})
		b, _ := gen.Build("1.7", []gen.Rev{{Objs: k.Encrypt(objs, 90), Trailer: id + " 90 0 R"}})
		return b, []byte("owner")
	}
	return layoutPages(objs, layout, "/Root 1 0 R"), nil
}

// pngRows applies a PNG row filter to rows of samples.
func pngRows(d []byte, row, pixel, filter int) []byte {
	var out []byte
	at := func(r, i int) int {
		if r < 0 || i < 0 {
			return 0
		}
		return int(d[r*row+i])
	}
	for r := 0; r*row < len(d); r++ {
		ft := filter
		if filter == 5 {
			ft = (r + 1) % 5
		}
		out = append(out, byte(ft))
		for i := 0; i < row; i++ {
			a, b, c := at(r, i-pixel), at(r-1, i), at(r-1, i-pixel)
			pred := 0
			switch ft {
			case 1:
				pred = a
			case 2:
				pred = b
			case 3:
				pred = (a + b) / 2
			case 4:
				p := a + b - c
				pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
				switch {
				case pa <= pb && pa <= pc:
					pred = a
				case pb <= pc:
					pred = b
				default:
					pred = c
				}
			}
			out = append(out, byte(at(r, i)-pred))
		}
	}
	return out
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// tiffRows applies horizontal differencing to samples of the given number of bits.
func tiffRows(d []byte, row, colors, bits int) []byte {
	out := make([]byte, len(d))
	get := func(b []byte, i int) int {
		v := 0
		for k := i * bits; k < (i+1)*bits; k++ {
			v = v<<1 | int(b[k/8]>>(7-k%8)&1)
		}
		return v
	}
	for r := 0; r*row < len(d); r++ {
		in, o := d[r*row:(r+1)*row], out[r*row:(r+1)*row]
		for i := 0; i < row*8/bits; i++ {
			v := get(in, i)
			if i >= colors {
				v -= get(in, i-colors)
			}
			v &= 1<<bits - 1
			for k := 0; k < bits; k++ {
				if v>>(bits-1-k)&1 == 1 {
					o[(i*bits+k)/8] |= 1 << (7 - (i*bits+k)%8)
				}
			}
		}
	}
	return out
}

var imgCodecs = []string{"", "DCTDecode", "JPXDecode", "CCITTFaxDecode", "JBIG2Decode"}

type storage struct {
	chain []int // outermost first: 0 hex, 1 a85, 2 run length, 3 flate
	codec string
	pred  int // predictor of the innermost Flate filter: 0, 2 or 10..15
	form  int // spelling of the filter entry
}

// store encodes data; aux takes the objects that entries refer to.
func (s storage) store(data []byte, row, colors, bits int, aux *[]gen.Obj) (enc []byte, entries string) {
	var names, parms []string
	for _, f := range s.chain {
		names = append(names, []string{"/ASCIIHexDecode", "/ASCII85Decode", "/RunLengthDecode", "/FlateDecode"}[f])
		parms = append(parms, "null")
	}
	enc = data
	if n := len(s.chain); n > 0 && s.chain[n-1] == 3 && s.pred > 0 && s.codec == "" {
		switch {
		case s.pred == 2:
			enc = tiffRows(enc, row, colors, bits)
		default:
			enc = pngRows(enc, row, max(1, colors*bits/8), s.pred-10)
		}
		parms[n-1] = fmt.Sprintf("<</Predictor %d/Colors %d/BitsPerComponent %d/Columns %d>>", s.pred, colors, bits, row*8/bits/colors)
	}
	for i := len(s.chain) - 1; i >= 0; i-- {
		switch s.chain[i] {
		case 0:
			enc = gen.Hex(enc)
		case 1:
			enc = gen.A85(enc)
		case 2:
			enc = gen.RunLength(enc)
		case 3:
			enc = deflate(string(enc), 6)
		}
	}
	if s.codec != "" {
		names, parms = append(names, "/"+s.codec), append(parms, "<</K -1>>")
	}
	if len(names) == 0 {
		return enc, ""
	}
	ft, pm := "["+strings.Join(names, " ")+"]", "["+strings.Join(parms, " ")+"]"
	switch {
	case s.form == 1: // the array and the parameters are indirect
		*aux = append(*aux, gen.Obj{Num: 61, Body: ft}, gen.Obj{Num: 62, Body: pm})
		ft, pm = " 61 0 R", " 62 0 R"
	case s.form == 2: // their elements are
		for i := range names {
			*aux = append(*aux, gen.Obj{Num: 61 + i, Body: names[i]}, gen.Obj{Num: 71 + i, Body: parms[i]})
			names[i], parms[i] = fmt.Sprintf("%d 0 R", 61+i), fmt.Sprintf("%d 0 R", 71+i)
		}
		ft, pm = "["+strings.Join(names, " ")+"]", "["+strings.Join(parms, " ")+"]"
	case len(names) == 1 && s.form == 0:
		ft, pm = names[0], parms[0]
	}
	return enc, "/Filter" + ft + "/DecodeParms " + pm
}

func runImageRead(c *core.Ctx) {
	var sts []storage
	chains := [][]int{nil}
	for l := 1; l <= core.Pick(c, 2, 3); l++ {
		for v := 0; v < pow(4, l); v++ {
			chains = append(chains, seqOf(v, 4, l))
		}
	}
	for _, ch := range chains {
		for _, codec := range imgCodecs {
			preds := []int{0}
			if len(ch) > 0 && ch[len(ch)-1] == 3 && codec == "" {
				preds = []int{0, 2, 10, 11, 12, 13, 14, 15}
			}
			for _, p := range preds {
				for form := 0; form < 3; form++ {
					sts = append(sts, storage{ch, codec, p, form})
				}
			}
		}
	}
	type shape struct {
		w, h, colors, bits int
		cs                 string
	}
	shapes := []shape{{2, 2, 1, 8, "/DeviceGray"}, {3, 2, 3, 8, "/DeviceRGB"}, {8, 3, 1, 1, "[/Indexed/DeviceRGB 1 <000000 ffffff>]"}, {4, 2, 4, 8, "/DeviceCMYK"}, {2, 3, 3, 16, "[/ICCBased 60 0 R]"}, {4, 1, 1, 4, "/DeviceGray"}, {2, 2, 1, 2, "[/Separation/Spot/DeviceGray 60 0 R]"}}
	lays := imgLayouts()
	per := core.Pick(c, 4, len(shapes)*len(lays))
	c.ForEach("read", len(sts)*per, func(i int) string {
		s := sts[i%len(sts)]
		return fmt.Sprintf("%v-%s-p%d-f%d-%d", s.chain, s.codec, s.pred, s.form, i/len(sts))
	}, func(t *core.T, i int) {
		s, v := sts[i%len(sts)], i/len(sts)
		sh := shapes[(i+v*3)%len(shapes)]
		lay := lays[(i/3+v*5)%len(lays)]
		if c.Thorough() {
			sh, lay = shapes[v%len(shapes)], lays[v/len(shapes)]
		}
		row := (sh.w*sh.colors*sh.bits + 7) / 8
		if row*8 != sh.w*sh.colors*sh.bits && s.pred != 0 {
			t.Outcome("padded")
			return
		}
		var data []byte
		for j := 0; j < row*sh.h; j++ {
			data = append(data, byte(j*j*37+i*11+j*97))
		}
		if s.codec != "" {
			data = []byte("\xff\xd8\xff\xfe\x00\x04hi" + s.codec + "\xff\xd9")
		}
		var aux []gen.Obj
		enc, entries := s.store(data, row, sh.colors, sh.bits, &aux)
		ind := (i / 7) % 8 // which entries are indirect
		val := func(k int, num int, s string) string {
			if ind>>k&1 == 0 {
				return " " + s
			}
			aux = append(aux, gen.Obj{Num: num, Body: s})
			return fmt.Sprintf(" %d 0 R", num)
		}
		body := "<</Note(/Width 77/Filter/DCTDecode)/Subtype" + val(0, 81, "/Image") + "/Width" + val(0, 82, fmt.Sprint(sh.w)) + "/Height" + val(1, 83, fmt.Sprint(sh.h)) + "/BitsPerComponent" + val(1, 84, fmt.Sprint(sh.bits)) + "/ColorSpace" + val(2, 85, sh.cs) + entries + "/PieceInfo<</Width 9/Height 9/Subtype/Form>>>>"
		objs := append([]gen.Obj{
			{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"},
			{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1/MediaBox[0 0 9 9]/Resources<</XObject<</Im7 30 0 R>>>>>>"},
			{Num: 3, Body: "<</Type/Page/Parent 2 0 R>>"},
			{Num: 30, Stream: true, Body: body, Data: string(enc)},
			{Num: 60, Stream: true, Body: "<</N 3>>", Data: "profile"},
		}, aux...)
		pdf, pw := imgDoc(objs, lay)
		t.Attach("in.pdf", pdf)
		before := string(pdf)
		ims, err := extract.ExtractAllImages(pdf, pw, false)
		t.Step(1)
		if err != nil || len(ims) != 1 {
			t.Fail("extract", "%v: %d images", err, len(ims))
			return
		}
		im := ims[0]
		if im.ID != "/Im7" || im.Width != sh.w || im.Height != sh.h || im.BitsPerComponent != sh.bits {
			t.Fail("attributes", "%s %dx%d %d bits, want %+v", im.ID, im.Width, im.Height, im.BitsPerComponent, sh)
		}
		if got := must(ref.ParseOne([]byte(im.ColorSpace))); strings.ReplaceAll(ref.Canon(got), " 3 R", " 0 R") != mustCanon(sh.cs) {
			t.Fail("color space", "%q, want %s", im.ColorSpace, sh.cs)
		}
		if !bytes.Equal(im.Data, data) {
			t.Fail("data", "%q, want %q", im.Data, data)
		}
		format := "unknown"
		switch last := len(s.chain); {
		case s.codec == "DCTDecode":
			format = "jpeg"
		case s.codec == "JPXDecode":
			format = "jpeg2000"
		case s.codec == "CCITTFaxDecode":
			format = "tiff"
		case s.codec == "" && last > 0 && s.chain[last-1] == 3:
			format = "png"
		case s.codec == "" && last == 0:
			format = ""
		}
		if im.Format != format {
			t.Fail("format", "%q, want %q", im.Format, format)
		}
		doc, err := extract.ExtractContent(pdf, pw, false)
		if err != nil || len(doc.Images) != 1 || doc.Images[0].Width != sh.w || doc.Images[0].Height != sh.h || doc.Images[0].ID != "/Im7" {
			t.Fail("resources", "%v %+v", err, doc.Images)
		}
		if string(pdf) != before {
			t.Fail("input", "the input was changed")
		}
		t.State(fmt.Sprint(s, sh, lay, ind))
		t.Outcome(fmt.Sprintf("%s %x", im.Format, im.Data))
	})
}

// --- which images a document has ---------------------------------------------------------

var resNames = []string{"Im1", "A#20#42", "B"}
var resPlain = []string{"Im1", "A B", "B"}

// resTargets: two images, a form, nothing, a null entry, a stream without subtype.
var resTargets = []string{"31 0 R", "32 0 R", "33 0 R", "99 0 R", "null", "34 0 R"}

func runImagePages(c *core.Ctx) {
	// a page's XObjects: each of the three names absent or one of the targets
	per := pow(len(resTargets)+1, 3)
	forms := 7
	total := per * core.Pick(c, 40, per) // pairs of pages; quick: the second page follows the first
	lays := imgLayouts()
	c.ForEach("pages", total, func(i int) string { return fmt.Sprintf("%d-%d", i%per, i/per) }, func(t *core.T, i int) {
		sel := [2]int{i % per, i / per}
		if !c.Thorough() {
			sel[1] = (i/per*61 + i%per*7) % per
		}
		var aux []gen.Obj
		pageRes := [2]string{}
		type entry struct {
			name   string
			target int
		}
		var model [2][]entry
		for p := 0; p < 2; p++ {
			x := "<<"
			for n, a := range seqOf(sel[p], len(resTargets)+1, 3) {
				if a > 0 {
					x += "/" + resNames[n] + " " + resTargets[a-1]
					model[p] = append(model[p], entry{resPlain[n], a - 1})
				}
			}
			x += ">>"
			form := (i/3 + p*2) % forms
			switch form % 3 {
			case 1:
				aux = append(aux, gen.Obj{Num: 50 + p, Body: x})
				x = fmt.Sprintf(" %d 0 R", 50+p)
			case 2:
				x = "%c >> /XObject\n" + x
			}
			res := "<</Font<</XObject<</Bad 31 0 R>>>>/XObject" + x + "/ProcSet[/PDF]>>"
			if form >= 3 {
				aux = append(aux, gen.Obj{Num: 52 + p, Body: res})
				res = fmt.Sprintf(" %d 0 R", 52+p)
			}
			pageRes[p] = res
		}
		pages, inh := [2]string{"/Resources" + pageRes[0], "/Resources" + pageRes[1]}, "/Resources<</XObject<</Up 31 0 R>>>>"
		if i%5 == 1 { // the second page inherits
			inh, pages[1] = pages[1], ""
		}
		objs := append([]gen.Obj{
			{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"},
			{Num: 2, Body: "<</Type/Pages/Kids[3 0 R 7 0 R]/Count 2/MediaBox[0 0 9 9]" + inh + ">>"},
			{Num: 7, Body: "<</Type/Pages/Parent 2 0 R/Kids[4 0 R]/Count 1>>"},
			{Num: 3, Body: "<</Type/Page/Parent 2 0 R" + pages[0] + ">>"},
			{Num: 4, Body: "<</Type/Page/Parent 7 0 R" + pages[1] + ">>"},
			{Num: 31, Stream: true, Body: "<</Type/XObject/Subtype/Image/Width 3/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8>>", Data: "abc"},
			{Num: 32, Stream: true, Body: "<</Subtype/Image/Width 3/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8/SMask 35 0 R>>", Data: "xyz"},
			{Num: 33, Stream: true, Body: "<</Type/XObject/Subtype/Form/BBox[0 0 1 1]/Width 4>>", Data: "/Im1 Do"},
			{Num: 34, Stream: true, Body: "<</Type/XObject/Sub(/Subtype/Image)>>", Data: "none"},
			{Num: 35, Stream: true, Body: "<</Subtype/Image/Width 3/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8>>", Data: "123"},
		}, aux...)
		lay := lays[i%len(lays)]
		pdf, pw := imgDoc(objs, lay)
		t.Attach("in.pdf", pdf)
		doc, err := extract.ExtractContent(pdf, pw, false)
		ims, err2 := extract.ExtractAllImages(pdf, pw, false)
		t.Step(2)
		if err != nil || err2 != nil || len(doc.Pages) != 2 {
			t.Fail("extract", "%v %v", err, err2)
			return
		}
		// the images of the document: each object once, pages in order
		var wantData []string
		seen := map[int]bool{}
		names := map[string]map[string]bool{}
		uniq := map[string]bool{}
		for p := 0; p < 2; p++ {
			var here []string
			wantX := map[string]string{}
			wantI := map[string]bool{}
			for _, e := range model[p] {
				switch e.target {
				case 0, 1:
					d := []string{"abc", "xyz"}[e.target]
					wantX[e.name] = "/Image 3 1"
					wantI[e.name] = true
					uniq[fmt.Sprint(e.name, e.target)] = true
					if names[d] == nil {
						names[d] = map[string]bool{}
					}
					names[d]["/"+e.name] = true
					if !seen[e.target] {
						seen[e.target] = true
						here = append(here, d)
					}
				case 2:
					wantX[e.name] = "/Form 0 0"
				}
			}
			sort.Strings(here)
			wantData = append(wantData, here...)
			if len(here) == 2 {
				wantData[len(wantData)-1] += "?" // either order
				wantData[len(wantData)-2] += "?"
			}
			gotX, gotI := map[string]string{}, map[string]bool{}
			if r := doc.Pages[p].Resources; r != nil {
				for n, x := range r.XObjects {
					gotX[n] = fmt.Sprintf("%s %g %g", x.Subtype, x.Width, x.Height)
					if x.ID != "/"+n {
						t.Fail("resources", "%s has the ID %s", n, x.ID)
					}
				}
				for n, x := range r.Images {
					gotI[n] = x.Width == 3 && x.Height == 1 && x.ID == "/"+n
				}
			}
			if fmt.Sprint(gotX) != fmt.Sprint(wantX) || fmt.Sprint(gotI) != fmt.Sprint(wantI) {
				t.Fail("resources", "page %d: %v %v, want %v %v", p+1, gotX, gotI, wantX, wantI)
				return
			}
		}
		var got []string
		for _, im := range ims {
			got = append(got, string(im.Data))
			if !names[string(im.Data)][im.ID] {
				t.Fail("image name", "%s names %q", im.ID, im.Data)
			}
			if im.Width != 3 || im.Height != 1 {
				t.Fail("attributes", "%+v", im)
			}
		}
		for j := range got {
			if j < len(wantData) && strings.HasSuffix(wantData[j], "?") {
				got[j] += "?"
			}
		}
		if len(got) == 2 && strings.HasSuffix(got[0], "?") && strings.HasSuffix(got[1], "?") {
			sort.Strings(got)
		}
		if strings.Join(got, " ") != strings.Join(wantData, " ") {
			t.Fail("images", "%q, want %q", got, wantData)
		}
		if len(doc.Images) != len(uniq) {
			t.Fail("document images", "%d entries, want %d", len(doc.Images), len(uniq))
		}
		t.State(fmt.Sprint(sel, i%5, i/3%forms))
		t.Outcome(fmt.Sprint(got, len(doc.Images)))
	})
}

// --- fonts ---------------------------------------------------------------------------------

func runFonts(c *core.Ctx) {
	subtypes := []string{"Type1", "TrueType", "Type0", "MMType1", "Type3"}
	embed := []string{"", "FontFile", "FontFile2", "FontFile3", "decoy", "null"}
	encs := []string{"", "/WinAnsiEncoding", "/MacRomanEncoding", "<</Type/Encoding/BaseEncoding/WinAnsiEncoding/Differences[65/B]>>"}
	tou := []string{"", "stream", "decoy", "null"}
	bases := []string{"Helvetica-Bold", "ABCDEF+Arial", "My#20Font#2dX"}
	basePlain := []string{"Helvetica-Bold", "ABCDEF+Arial", "My Font-X"}
	lays := imgLayouts()
	n := len(subtypes) * len(embed) * len(encs) * len(tou)
	ind := core.Pick(c, 16, 128)
	c.ForEach("fonts", n*ind, func(i int) string { return fmt.Sprintf("%d-%d", i%n, i/n) }, func(t *core.T, i int) {
		v := i % n
		st, em, enc, tu := v%5, v/5%6, v/30%4, v/120
		mask := i / n
		if !c.Thorough() {
			mask = (i/n*8 + i%8) % 128
		}
		base := (i + i/n) % 3
		lay := lays[(i/5+i/n)%len(lays)]
		var aux []gen.Obj
		num := 60
		val := func(bit int, s string) string {
			if mask>>bit&1 == 0 {
				return " " + s
			}
			aux = append(aux, gen.Obj{Num: num, Body: s})
			num++
			return fmt.Sprintf(" %d 0 R", num-1)
		}
		desc := "<</Type/FontDescriptor/Note(/FontFile 9 0 R)/FontFamily" + val(0, "(Fam \\(x\\))")
		switch embed[em] {
		case "":
		case "decoy":
			desc += "/Style<</FontFile2 40 0 R>>/X[/FontFile3 40 0 R]/FontFileName 40 0 R"
		case "null":
			desc += "/FontFile2 null/FontFile " + val(1, "null")
		default:
			desc += "/" + embed[em] + " 40 0 R"
		}
		desc += ">>"
		font := "<</Type/Font/Subtype" + val(2, "/"+subtypes[st]) + "/BaseFont" + val(3, "/"+bases[base])
		if encs[enc] != "" {
			font += "/Encoding" + val(4, encs[enc])
		}
		switch tou[tu] {
		case "stream":
			font += "/ToUnicode 41 0 R"
		case "decoy":
			font += "/Note(/ToUnicode 41 0 R)/Sub<</ToUnicode 41 0 R/FontFile 40 0 R/Subtype/TrueType>>"
		case "null":
			font += "/ToUnicode" + val(5, "null")
		}
		if subtypes[st] == "Type0" {
			font += "/DescendantFonts" + val(6, "["+val(5, "<</Type/Font/Subtype/CIDFontType2/BaseFont/Other/FontDescriptor"+val(1, desc)+">>")+"]")
		} else {
			font += "/FontDescriptor" + val(5, desc)
		}
		font += ">>"
		res := "<</XObject<</F1 40 0 R>>/Font" + val(6, "<</F#31"+val(1, font)+"/F2 null/F3 98 0 R>>") + ">>"
		objs := append([]gen.Obj{
			{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"},
			{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1/MediaBox[0 0 9 9]>>"},
			{Num: 3, Body: "<</Type/Page/Parent 2 0 R/Contents 42 0 R/Resources" + val(4, res) + ">>"},
			{Num: 40, Stream: true, Body: "<</Length1 3>>", Data: "ttf"},
			{Num: 41, Stream: true, Body: "<<>>", Data: "/CMapName /X def 1 begincodespacerange <00> <ff> endcodespacerange 1 beginbfchar <41> <005A> endbfchar"},
			{Num: 42, Stream: true, Body: "<<>>", Data: "BT /F1 5 Tf (A) Tj ET"},
		}, aux...)
		pdf, pw := imgDoc(objs, lay)
		t.Attach("in.pdf", pdf)
		doc, err := extract.ExtractContent(pdf, pw, false)
		t.Step(1)
		if err != nil || len(doc.Pages) != 1 || doc.Pages[0].Resources == nil {
			t.Fail("extract", "%v", err)
			return
		}
		fonts := doc.Pages[0].Resources.Fonts
		if len(fonts) != 1 || len(doc.Fonts) != 1 {
			t.Fail("fonts", "%v %v", fonts, doc.Fonts)
			return
		}
		want := types.FontInfo{ID: "/F1", Name: "/" + basePlain[base], Family: "Fam (x)", Subtype: "/" + subtypes[st], Embedded: strings.HasPrefix(embed[em], "Font"), ToUnicode: tou[tu] == "stream"}
		got := fonts["F1"]
		if enc < 3 {
			want.Encoding = encs[enc]
		} else {
			want.Encoding = got.Encoding
		}
		if got != want || doc.Fonts[0] != want {
			t.Fail("font", "%+v, want %+v", got, want)
		}
		text := ""
		for _, e := range doc.Pages[0].Text {
			text += e.Text
		}
		wantText := "A"
		if tou[tu] == "stream" {
			wantText = "Z"
		} else if enc == 3 {
			wantText = "B"
		}
		if subtypes[st] == "Type0" {
			text = wantText // one byte is no character of a composite font
		}
		if text != wantText {
			t.Fail("text", "%q, want %q", text, wantText)
		}
		t.State(fmt.Sprint(v, mask, base, lay))
		t.Outcome(fmt.Sprintf("%+v", got))
	})
}

// --- extraction to a directory --------------------------------------------------------------

func runImageDir(c *core.Ctx) {
	// images on the two pages: a set of four images for each page
	lays := imgLayouts()
	opts := 16 // text on page 1, bookmarks, form, outlines
	c.ForEach("directory", 256*core.Pick(c, 4, opts), func(i int) string { return fmt.Sprintf("%d-%d", i%256, i/256) }, func(t *core.T, i int) {
		set := i % 256
		opt := (i/256*5 + i%16) % opts
		if c.Thorough() {
			opt = i / 256
		}
		data := []string{"abc", "\xff\xd8 jpeg \xff\xd9", "raw gray", "more gray"}
		filt := []string{"", "/Filter/DCTDecode", "/Filter/FlateDecode", "/Filter[/FlateDecode]"}
		ext := []string{".bin", ".jpg", ".png", ".png"}
		var objs []gen.Obj
		cat, extra := "", [2]string{}
		if opt&1 == 1 {
			extra[0] = "/Contents 42 0 R"
			objs = append(objs, gen.Obj{Num: 42, Stream: true, Body: "<<>>", Data: "BT /F1 5 Tf (Hello) Tj ET"})
		}
		if opt&2 == 2 {
			cat += "/Outlines 43 0 R"
			objs = append(objs, gen.Obj{Num: 43, Body: "<</First 44 0 R/Last 44 0 R/Count 1>>"}, gen.Obj{Num: 44, Body: "<</Title(T)/Parent 43 0 R/Dest[3 0 R/Fit]>>"})
		}
		if opt&4 == 4 {
			cat += "/AcroForm<</Fields[45 0 R]>>"
			objs = append(objs, gen.Obj{Num: 45, Body: "<</FT/Tx/T(a)/V(b)>>"})
		} else if opt&8 == 8 {
			cat += "/AcroForm<</Fields[]>>"
		}
		order := []int{}
		first := map[int]int{} // the page that has an image first
		names := map[string]bool{}
		for p := 0; p < 2; p++ {
			x := ""
			for k := 0; k < 4; k++ {
				if set>>(p*4+k)&1 == 1 {
					name := (k + p*(i/4%3)) % 4 // the pages may use the same names for different images
					x += fmt.Sprintf("/I%d %d 0 R", name, 31+k)
					names[fmt.Sprintf("/I%d %d", name, k)] = true
					if !containsInt(order, k) {
						order = append(order, k)
						first[k] = p
					}
				}
			}
			extra[p] += "/Resources<</Font<</F1<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>>>/XObject<<" + x + ">>>>"
		}
		for k := 0; k < 4; k++ {
			d := data[k]
			if k >= 2 {
				d = string(deflate(d, 6))
			}
			objs = append(objs, gen.Obj{Num: 31 + k, Stream: true, Body: fmt.Sprintf("<</Subtype/Image/Width %d/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8%s>>", k+1, filt[k]), Data: d})
		}
		objs = append(objs, gen.Obj{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R" + cat + ">>"},
			gen.Obj{Num: 2, Body: "<</Type/Pages/Kids[3 0 R 4 0 R]/Count 2/MediaBox[0 0 90 80]>>"},
			gen.Obj{Num: 3, Body: "<</Type/Page/Parent 2 0 R" + extra[0] + ">>"},
			gen.Obj{Num: 4, Body: "<</Type/Page/Parent 2 0 R/Rotate 90" + extra[1] + ">>"})
		lay := lays[i%len(lays)]
		pdf, pw := imgDoc(objs, lay)
		t.Attach("in.pdf", pdf)
		dir, err := os.MkdirTemp("", "p15")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		target := filepath.Join(dir, "a", "b")
		var out *extract.DirectoryOutput
		if i%3 == 0 {
			in := filepath.Join(dir, "in.pdf")
			if os.WriteFile(in, pdf, 0o600) != nil {
				panic("write")
			}
			out, err = extract.ExtractToDirectoryFromFile(in, pw, target, false)
			os.Remove(in)
		} else {
			out, err = extract.ExtractToDirectory(pdf, pw, target, false)
		}
		t.Step(1)
		if err != nil {
			t.Fail("directory", "%v", err)
			return
		}
		var files []string
		filepath.Walk(dir, func(p string, fi os.FileInfo, _ error) error {
			if !fi.IsDir() {
				r, _ := filepath.Rel(dir, p)
				files = append(files, r)
			}
			return nil
		})
		want := []string{"a/b/content.json"}
		for _, p := range out.ImageFiles {
			r, _ := filepath.Rel(dir, p)
			if filepath.Dir(r) != "a/b/images" {
				t.Fail("files", "%s is in the wrong place", p)
			}
			want = append(want, r)
		}
		sort.Strings(files)
		sort.Strings(want)
		if strings.Join(files, " ") != strings.Join(want, " ") || len(want) != len(order)+1 {
			t.Fail("files", "%v, want %v (%d images)", files, want, len(order))
			return
		}
		text := opt&1 == 1
		sum := extract.ContentSummary{PageCount: 2, ImageCount: len(order), HasText: text, HasImages: len(order) > 0, HasForms: opt&4 == 4, HasBookmarks: opt&2 == 2, IsScannedPDF: len(order) > 0 && !text}
		if text {
			sum.TextCharCount = 5
		}
		if out.Path != target || out.StructureFile != filepath.Join(target, "content.json") || out.PageCount != 2 || out.ImageCount != len(order) || out.HasText != text || out.HasImages != sum.HasImages || out.IsScannedPDF != sum.IsScannedPDF || out.TextCharCount != sum.TextCharCount || out.HasForms != sum.HasForms || len(out.ImageFiles) != len(order) {
			t.Fail("output", "%+v", *out)
		}
		raw, err := os.ReadFile(out.StructureFile)
		var cont extract.ExtractedContent
		if err == nil {
			err = json.Unmarshal(raw, &cont)
		}
		if err != nil {
			t.Fail("json", "%v", err)
			return
		}
		if cont.Summary != sum {
			t.Fail("summary", "%+v, want %+v", cont.Summary, sum)
		}
		if len(cont.Images) != len(order) || len(cont.Pages) != 2 || (len(cont.Bookmarks) > 0) != sum.HasBookmarks || cont.IsEncrypted != (pw != nil) {
			t.Fail("json", "%d images, %d pages, %d bookmarks, encrypted %v", len(cont.Images), len(cont.Pages), len(cont.Bookmarks), cont.IsEncrypted)
			return
		}
		left := append([]int{}, order...)
		page := 0
		for n, im := range cont.Images {
			k := -1
			g, err := os.ReadFile(out.ImageFiles[n])
			for j, l := range left {
				if err == nil && string(g) == data[l] {
					k, left = l, append(left[:j:j], left[j+1:]...)
					break
				}
			}
			if k < 0 {
				t.Fail("image file", "%s: %v %q is none of the images or was written before", out.ImageFiles[n], err, g)
				return
			}
			if first[k] < page {
				t.Fail("image order", "an image of page %d follows one of page %d", first[k]+1, page+1)
			}
			page = first[k]
			if !names[fmt.Sprintf("%s %d", im.ID, k)] || filepath.Join(target, im.Filename) != out.ImageFiles[n] || filepath.Ext(im.Filename) != ext[k] || im.Size != len(data[k]) || im.Width != k+1 || im.Height != 1 {
				t.Fail("image reference", "%+v", im)
			}
		}
		doc, err := extract.ExtractContent(pdf, pw, false)
		if err != nil {
			t.Fail("extract", "%v", err)
			return
		}
		for p, pg := range cont.Pages {
			d := doc.Pages[p]
			if pg.PageNumber != p+1 || pg.Width != 90 || pg.Height != 80 || pg.Rotation != p*90 || jsonOf(pg.Text) != jsonOf(d.Text) && len(d.Text) > 0 || jsonOf(pg.Resources) != jsonOf(d.Resources) || jsonOf(pg.MediaBox) != jsonOf(d.MediaBox) {
				t.Fail("page", "%+v", pg)
			}
		}
		js, err := extract.ExtractContentToJSON(pdf, pw, false)
		var back types.ContentDocument
		if err == nil {
			err = json.Unmarshal([]byte(js), &back)
		}
		if err != nil || jsonOf(&back) != jsonOf(doc) {
			t.Fail("content json", "%v", err)
		}
		t.State(fmt.Sprint(set, opt, lay))
		t.Outcome(fmt.Sprint(files, sum))
	})
}

func jsonOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func containsInt(a []int, v int) bool {
	for _, x := range a {
		if x == v {
			return true
		}
	}
	return false
}
