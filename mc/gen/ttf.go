package gen

import (
	"encoding/binary"
	"sort"
	"unicode/utf16"
)

// TTF describes a minimal TrueType font.
type TTF struct {
	UPM       int
	Ascent    int
	Descent   int
	Advances  []int // one per long metric
	Glyphs    int
	Cmap      map[rune]int
	Format    int // 4 (delta), 40 (glyph id array), 12
	Plat, Enc int
	Names     map[int]string
	Fixed     bool
	Italic    int
	OS2       bool
	Cap, XHt  int
	Reverse   bool // table directory data order reversed
	Sig       uint32
	OS2Ver    int
	NamePlats []int             // platforms of the names, default 3
	Tables    map[string][]byte // tables that are added or replaced; nil: left out
	Pad       int               // bytes before the first table
}

func be16(vs ...int) []byte {
	var b []byte
	for _, v := range vs {
		b = binary.BigEndian.AppendUint16(b, uint16(v))
	}
	return b
}

func be32(vs ...int) []byte {
	var b []byte
	for _, v := range vs {
		b = binary.BigEndian.AppendUint32(b, uint32(v))
	}
	return b
}

// CmapTable is a cmap table with the given subtables (platform, encoding, data).
func CmapTable(plats [][2]int, subs [][]byte) []byte {
	b := be16(0, len(plats))
	off := 4 + 8*len(plats)
	var data []byte
	for i, p := range plats {
		b = append(b, be16(p[0], p[1])...)
		b = append(b, be32(off+len(data))...)
		data = append(data, subs[i]...)
	}
	return append(b, data...)
}

// Cmap4 is a subtable of format 4 with the given segments (end, start, delta, range offset)
// and glyph ids.
func Cmap4(segs [][4]int, ids []int) []byte {
	var end, start, delta, ro []byte
	for _, s := range segs {
		end = append(end, be16(s[0])...)
		start = append(start, be16(s[1])...)
		delta = append(delta, be16(s[2])...)
		ro = append(ro, be16(s[3])...)
	}
	sub := append(append(append(append(append(end, 0, 0), start...), delta...), ro...), be16(ids...)...)
	return append(be16(4, 14+len(sub), 0, 2*len(segs), 0, 0, 0), sub...)
}

// Cmap12 is a subtable of format 12 with the given groups (start, end, first glyph).
func Cmap12(groups [][3]int) []byte {
	var sub []byte
	for _, g := range groups {
		sub = append(sub, be32(g[:]...)...)
	}
	return append(append(be16(12, 0), be32(16+len(sub), 0, len(groups))...), sub...)
}

// CmapSub is the subtable for the character map of the font.
func (f TTF) CmapSub() []byte { return f.cmap()[12:] }

func (f TTF) cmap() []byte {
	var rs []int
	for r := range f.Cmap {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	type seg struct{ a, b, g int }
	var segs []seg
	for _, r := range rs {
		g := f.Cmap[rune(r)]
		if n := len(segs); n > 0 && segs[n-1].b == r-1 && (f.Format == 40 || segs[n-1].g+r-segs[n-1].a == g) {
			segs[n-1].b = r
			continue
		}
		segs = append(segs, seg{r, r, g})
	}
	var sub []byte
	if f.Format == 12 {
		for _, s := range segs {
			sub = append(sub, be32(s.a, s.b, s.g)...)
		}
		sub = append(append(be16(12, 0), be32(16+len(sub), 0, len(segs))...), sub...)
	} else {
		segs = append(segs, seg{0xFFFF, 0xFFFF, 0})
		n := len(segs)
		var end, start, delta, ro, ids []byte
		for i, s := range segs {
			end = append(end, be16(s.b)...)
			start = append(start, be16(s.a)...)
			if f.Format == 40 && i < n-1 {
				delta = append(delta, be16(0)...)
				ro = append(ro, be16(2*(n-i)+len(ids))...)
				for r := s.a; r <= s.b; r++ {
					ids = append(ids, be16(f.Cmap[rune(r)])...)
				}
			} else if i == n-1 {
				delta = append(delta, be16(1)...)
				ro = append(ro, be16(0)...)
			} else {
				delta = append(delta, be16(s.g-s.a)...)
				ro = append(ro, be16(0)...)
			}
		}
		sub = append(sub, end...)
		sub = append(sub, 0, 0)
		sub = append(sub, start...)
		sub = append(sub, delta...)
		sub = append(sub, ro...)
		sub = append(sub, ids...)
		sub = append(be16(4, 14+len(sub), 0, 2*n, 0, 0, 0), sub...)
	}
	return append(append(be16(0, 1, f.Plat, f.Enc), be32(12)...), sub...)
}

// Bytes writes the font file.
func (f TTF) Bytes() []byte {
	if f.Sig == 0 {
		f.Sig = 0x00010000
	}
	head := append(be32(0x10000, 0x10000, 0, 0x5F0F3CF5), be16(0, f.UPM)...)
	head = append(head, make([]byte, 16)...)
	head = append(head, be16(0, 0, f.UPM, f.UPM, 0, 8, 2, 0, 0)...)
	hhea := append(be32(0x10000), be16(f.Ascent, f.Descent)...)
	hhea = append(hhea, make([]byte, 26)...)
	hhea = append(hhea, be16(len(f.Advances))...)
	var hmtx []byte
	for i := 0; i < f.Glyphs; i++ {
		if i < len(f.Advances) {
			hmtx = append(hmtx, be16(f.Advances[i], 7)...)
		} else {
			hmtx = append(hmtx, be16(13)...)
		}
	}
	maxp := append(be32(0x10000), be16(f.Glyphs)...)
	maxp = append(maxp, make([]byte, 26)...)
	var ids []int
	for i := range f.Names {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	var recs, strs []byte
	plats := f.NamePlats
	if plats == nil {
		plats = []int{3}
	}
	for _, p := range plats {
		for _, i := range ids {
			var u []byte
			for _, v := range utf16.Encode([]rune(f.Names[i])) {
				if p == 1 {
					u = append(u, byte(v))
				} else {
					u = append(u, be16(int(v))...)
				}
			}
			enc, lang := 1, 0x409
			if p != 3 {
				enc, lang = 0, 0
			}
			recs = append(recs, be16(p, enc, lang, i, len(u), len(strs))...)
			strs = append(strs, u...)
		}
	}
	name := append(append(be16(0, len(ids)*len(plats), 6+len(recs)), recs...), strs...)
	post := append(be32(0x30000, f.Italic), be16(-75, 50)...)
	fx := 0
	if f.Fixed {
		fx = 1
	}
	post = append(post, be32(fx, 0, 0, 0, 0)...)
	tabs := map[string][]byte{"head": head, "hhea": hhea, "hmtx": hmtx, "maxp": maxp, "name": name, "post": post, "cmap": f.cmap()}
	if f.OS2 {
		os2 := make([]byte, 96)
		copy(os2, be16(f.OS2Ver))
		copy(os2[86:], be16(f.XHt, f.Cap))
		tabs["OS/2"] = os2
	}
	for tag, b := range f.Tables {
		tabs[tag] = b
		if b == nil {
			delete(tabs, tag)
		}
	}
	var tags []string
	for t := range tabs {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	out := append(be32(int(f.Sig)), be16(len(tags), 0, 0, 0)...)
	off := 12 + 16*len(tags) + f.Pad
	offs := map[string]int{}
	order := append([]string{}, tags...)
	if f.Reverse {
		sort.Sort(sort.Reverse(sort.StringSlice(order)))
	}
	var data []byte
	for _, t := range order {
		offs[t] = off + len(data)
		data = append(data, tabs[t]...)
		for len(data)%4 != 0 {
			data = append(data, 0)
		}
	}
	for _, t := range tags {
		out = append(out, t...)
		out = append(out, be32(0, offs[t], len(tabs[t]))...)
	}
	out = append(out, make([]byte, f.Pad)...)
	return append(out, data...)
}
