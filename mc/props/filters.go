package props

import (
	"bytes"
	"compress/zlib"
	"fmt"

	"verifmc/core"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/core/parse"
)

func init() {
	core.Register(&core.Prop{
		ID: "P05", Level: "exploration", Run: runFilters,
		Rule:        "A case is one block of byte strings, each encoded and decoded (or, for the decoders, a block of encoded texts). Blocks exhaust all byte strings of length 0..2, all strings up to a length bound over a small alphabet chosen per filter (zero, run-breaking and marker bytes), all compositions of up to three runs with lengths at the 1/127/128/129/256 boundaries, and boundary 32-bit groups. Encoded text is decoded by an independent strict decoder as well as by the library; every text over the encoded alphabet is decoded and compared with that strict decoder where it accepts; every proper prefix of compressed data must be rejected. Non-trivial: the string is not empty.",
		Assumptions: []string{"texts outside the filter's format only have to be rejected or decoded without a crash; the compressor used for inputs is Go's zlib at four levels"},
	})
}

type codec struct {
	name string
	enc  func([]byte) []byte
	dec  func([]byte) ([]byte, error)
	ref  func([]byte) ([]byte, error)
	abc  string // data alphabet
	eabc string // encoded alphabet
}

func codecs() []codec {
	return []codec{
		{"ASCIIHexDecode", parse.EncodeASCIIHex, parse.DecodeASCIIHex, ref.DecodeHex, "\x00\x0f\xf0\xff>", "09aFf \n>\x00g"},
		{"ASCII85Decode", parse.EncodeASCII85, parse.DecodeASCII85, func(b []byte) ([]byte, error) {
			// the delimited form is what the encoder documents; strip the optional opener
			return ref.DecodeA85(bytes.TrimPrefix(b, []byte("<~")))
		}, "\x00\x01z~\xff", "!5sutz~> \x00"},
		{"RunLengthDecode", parse.EncodeRunLength, parse.DecodeRunLength, ref.DecodeRL, "\x00a\x80\xff", "\x00\x01\x02\x7f\x80\x81\xfe\xff"},
	}
}

// nth writes the i-th string of length n over abc.
func nth(abc string, n, i int) []byte {
	b := make([]byte, n)
	for k := n - 1; k >= 0; k-- {
		b[k] = abc[i%len(abc)]
		i /= len(abc)
	}
	return b
}

func runFilters(c *core.Ctx) {
	for _, cd := range codecs() {
		cd := cd
		try := func(t *core.T, data []byte) {
			in := append([]byte(nil), data...)
			e := cd.enc(in)
			t.Step(1)
			d, err := cd.dec(e)
			if err != nil || !bytes.Equal(d, data) {
				t.Fail("inverse", "%q encodes to %q which decodes to %q (%v)", clipb(data), clipb(e), clipb(d), err)
			}
			if r, err := cd.ref(e); err != nil || !bytes.Equal(r, data) {
				t.Fail("format", "%q encodes to %q which a strict decoder reads as %q (%v)", clipb(data), clipb(e), clipb(r), err)
			}
			for _, n := range []string{cd.name, "/" + cd.name} {
				if d, err := parse.DecodeFilter(e, n); err != nil || !bytes.Equal(d, data) {
					t.Fail("byname", "DecodeFilter(%s) of %q gives %q (%v)", n, clipb(e), clipb(d), err)
				}
			}
			if !bytes.Equal(in, data) {
				t.Fail("mutates", "encoding changes its input %q", clipb(data))
			}
			t.State(cd.name + string(data))
			if len(data) > 0 {
				t.Outcome(fmt.Sprintf("%s%d/%d", cd.name, len(data), len(e)))
			}
		}
		c.ForEach(cd.name+"-bytes2", 257, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
			if i == 256 {
				try(t, nil)
				for a := 0; a < 256; a++ {
					try(t, []byte{byte(a)})
				}
				return
			}
			for a := 0; a < 256; a++ {
				try(t, []byte{byte(i), byte(a)})
			}
		})
		max := core.Pick(c, 8, 10)
		for n := 3; n <= max; n++ {
			n := n
			tot := pow(len(cd.abc), n)
			blk := pow(len(cd.abc), 4)
			if blk > tot {
				blk = tot
			}
			c.ForEach(fmt.Sprintf("%s-words%d", cd.name, n), tot/blk, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
				for k := 0; k < blk; k++ {
					try(t, nth(cd.abc, n, i*blk+k))
				}
			})
		}
		lens := []int{0, 1, 2, 3, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 384, 385}
		c.ForEach(cd.name+"-runs", len(lens)*len(lens), func(i int) string { return fmt.Sprintf("%d,%d", lens[i/len(lens)], lens[i%len(lens)]) }, func(t *core.T, i int) {
			for _, l3 := range lens {
				for _, v := range []int{0, 1, 2, 3} { // runs of equal or of changing bytes
					var d []byte
					for k, l := range []int{lens[i/len(lens)], lens[i%len(lens)], l3} {
						for j := 0; j < l; j++ {
							b := byte(k + 65)
							if v>>uint(k%2)&1 == 1 {
								b += byte(j%2) * 32
							}
							d = append(d, b)
						}
					}
					try(t, d)
				}
			}
		})
		vals := []byte{0, 1, 0x7f, 0x80, 0xfe, 0xff}
		c.ForEach(cd.name+"-groups", pow(6, 4), func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
			g := nth(string(vals), 4, i)
			for l := 0; l <= 4; l++ {
				try(t, append(append([]byte{}, g...), g[:l]...))
			}
		})
		// decoder against the strict decoder
		emax := core.Pick(c, 6, 7)
		for n := 0; n <= emax; n++ {
			n := n
			tot := pow(len(cd.eabc), n)
			blk := pow(len(cd.eabc), 3)
			if blk > tot {
				blk = tot
			}
			c.ForEach(fmt.Sprintf("%s-decode%d", cd.name, n), tot/blk, func(i int) string { return fmt.Sprint(i) }, func(t *core.T, i int) {
				for k := 0; k < blk; k++ {
					for _, tail := range []string{"", ">", "~>", "\x80"} {
						e := append(nth(cd.eabc, n, i*blk+k), tail...)
						want, werr := cd.ref(e)
						in := append([]byte(nil), e...)
						got, err := cd.dec(in)
						t.Step(1)
						if werr == nil && (err != nil || !bytes.Equal(got, want)) {
							t.Fail("decode", "%q is legal and means %q, decoded as %q (%v)", e, want, clipb(got), err)
						}
						if !bytes.Equal(in, e) {
							t.Fail("mutates", "decoding changes its input %q", e)
						}
						if werr == nil {
							t.Outcome(cd.name + "ok" + string(want))
						}
					}
				}
			})
		}
	}
	// Flate
	var payloads []string
	for n := 0; n <= 4; n++ {
		for i := 0; i < pow(3, n); i++ {
			payloads = append(payloads, string(nth("a\x00\xff", n, i)))
		}
	}
	long := make([]byte, 70000)
	for i := range long {
		long[i] = byte(i * i >> 3)
	}
	payloads = append(payloads, string(long[:3000]), string(bytes.Repeat([]byte("abc"), 2000)))
	levels := []int{0, 1, 6, 9}
	c.ForEach("flate", len(payloads)*len(levels), func(i int) string { return fmt.Sprintf("%d-level%d", i/len(levels), levels[i%len(levels)]) }, func(t *core.T, i int) {
		data := payloads[i/len(levels)]
		e := deflate(data, levels[i%len(levels)])
		t.State(data)
		d, err := parse.DecodeFlateDecode(e)
		if err != nil || string(d) != data {
			t.Fail("inverse", "decoding %d bytes: %d bytes, %v", len(e), len(d), err)
		}
		for _, n := range []string{"FlateDecode", "/FlateDecode"} {
			if d, err := parse.DecodeFilter(e, n); err != nil || string(d) != data {
				t.Fail("byname", "DecodeFilter(%s): %d bytes, %v", n, len(d), err)
			}
		}
		step := 1
		if len(e) > 600 {
			step = 37
		}
		for k := 0; k < len(e); k += step {
			if d, err := parse.DecodeFlateDecode(e[:k]); err == nil {
				t.Fail("truncated", "%d of %d bytes decode without error to %q", k, len(e), clipb(d))
			}
			t.Step(1)
			for _, x := range []byte{1, 0x10, 0x80} {
				m := append([]byte(nil), e...)
				m[k] ^= x
				if d, err := parse.DecodeFlateDecode(m); err == nil && string(d) != data {
					t.Fail("corrupt", "byte %d of %d flipped: decodes without error to %q", k, len(e), clipb(d))
				}
				t.Step(1)
			}
		}
		t.Outcome(fmt.Sprint("flate", len(e)))
	})
	c.ForEach("flate-long", 4, func(i int) string { return fmt.Sprint(levels[i]) }, func(t *core.T, i int) {
		e := deflate(string(long), levels[i])
		if d, err := parse.DecodeFlateDecode(e); err != nil || string(d) != string(long) {
			t.Fail("inverse", "%d bytes, %v", len(d), err)
		}
	})
	// names and pass-through
	c.ForEachSerial("names", 1, func(int) string { return "all" }, func(t *core.T, _ int) {
		for _, n := range []string{"", "/", "Flate", "/LZWDecodes", "flatedecode", "/FlateDecode ", "//FlateDecode", "/Crypt"} {
			if d, err := parse.DecodeFilter([]byte("abc>"), n); err == nil {
				t.Fail("unknown", "DecodeFilter(%q) succeeds with %q", n, d)
			}
			t.Step(1)
		}
		jpg := []byte{0xff, 0xd8, 1, 2, 3}
		for _, n := range []string{"DCTDecode", "/DCTDecode"} {
			if d, err := parse.DecodeFilter(jpg, n); err != nil || !bytes.Equal(d, jpg) {
				t.Fail("dct", "DCTDecode changes its data: %q (%v)", d, err)
			}
		}
		if d, err := parse.EncodeDCTDecode(jpg); err != nil || !bytes.Equal(d, jpg) {
			t.Fail("dct", "EncodeDCTDecode: %q (%v)", d, err)
		}
		for _, bad := range [][]byte{nil, {0xff}, {0xd8, 0xff}, []byte("xx")} {
			if _, err := parse.DecodeDCTDecode(bad); err == nil {
				t.Fail("dctbad", "DCTDecode accepts %q", bad)
			}
			if _, err := parse.EncodeDCTDecode(bad); err == nil {
				t.Fail("dctbad", "EncodeDCTDecode accepts %q", bad)
			}
			t.Step(2)
		}
	})
}

func deflate(s string, level int) []byte {
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevel(&b, level)
	w.Write([]byte(s))
	w.Close()
	return b.Bytes()
}
