package props

import (
	"fmt"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/content/extract"
)

// --- lexical forms and division into streams ---------------------------------

// formPrograms are token lists; one token is a complete operand or operator.
func formPrograms() [][]string {
	var out [][]string
	for _, s := range []string{
		`/F1 12 Tf BT 10 -20.5 Td (AB) Tj 0 .5 TD [(C) -120 <4445>] TJ T* (F(x)y) ' ET`,
		`/F1 9 Tf q 2 0 0 3 10 20 cm 1 0 0 rg 0 .5 1 RG 5 w 1 2 -3 4 re f /I1 Do Q 1 2 3 4 re S BT (Z) Tj ET`,
		`/F2 8 Tf BT 2 0 0 2 30 40 Tm 14 TL 3 Ts 1 -2 (G\)H) " <4142> Tj 2 Tc -1.5 Tw (I) Tj ET 1 2 m 3 4 l S`,
		`/F1 7 Tf /P <</K[(BT) <</D(ET q)>>]/S/Q>> BDC BT (q Q BT) Tj ET EMC BI /W 2 /H 1 /BPC 8 /CS /G ID ab EI BT <3c> Tj ET`,
	} {
		var toks []string
		for p := 0; ; {
			for p < len(s) && s[p] == ' ' {
				p++
			}
			if p >= len(s) {
				break
			}
			e := p + 1
			switch {
			case strings.HasPrefix(s[p:], "ID "):
				e = p + len("ID ab EI")
			case s[p] == '<' && s[p+1] == '<' || s[p] == '[' || s[p] == '(':
				d := 0
				for e = p; ; e++ {
					if s[e] == '\\' {
						e++
						continue
					}
					if s[e] == '(' || s[e] == '[' || s[e] == '<' {
						d++
					}
					if s[e] == ')' || s[e] == ']' || s[e] == '>' {
						d--
					}
					if d == 0 {
						break
					}
				}
				e++
			default:
				for e < len(s) && s[e] != ' ' {
					e++
				}
			}
			toks = append(toks, s[p:e])
			p = e
		}
		out = append(out, toks)
	}
	return out
}

// formModel interprets the token list (already tokenised, so this needs no lexer).
func formModel(toks []string) *cstate {
	s := newCState()
	var args []string
	f := func(i int) float64 {
		var v float64
		fmt.Sscanf(args[i], "%g", &v)
		return v
	}
	str := func(x string) string {
		o, err := ref.ParseOne([]byte(x))
		if err != nil {
			panic(err)
		}
		r := ""
		switch v := o.(type) {
		case ref.Str:
			r = string(v)
		case ref.Arr:
			for _, e := range v {
				if b, ok := e.(ref.Str); ok {
					r += string(b)
				}
			}
		}
		return r
	}
	for _, k := range toks {
		if strings.HasPrefix(k, "ID ") {
			args = nil
			continue
		}
		if strings.IndexByte("(<[/+-.0123456789", k[0]) >= 0 {
			args = append(args, k)
			continue
		}
		m6 := func() mat { return mat{f(0), f(1), f(2), f(3), f(4), f(5)} }
		switch k {
		case "Tf":
			s.g.font, s.g.size = args[0], f(1)
		case "BT":
			s.lm = ident
		case "Td":
			s.next(f(0), f(1))
		case "TD":
			s.g.tl = -f(1)
			s.next(f(0), f(1))
		case "TL":
			s.g.tl = f(0)
		case "Ts":
			s.g.ts = f(0)
		case "Tc":
			s.g.tc = f(0)
		case "Tw":
			s.g.tw = f(0)
		case "Tm":
			s.lm = m6()
		case "T*":
			s.next(0, -s.g.tl)
		case "Tj", "TJ":
			s.show(str(args[0]))
		case "'":
			s.next(0, -s.g.tl)
			s.show(str(args[0]))
		case "\"":
			s.g.tw, s.g.tc = f(0), f(1)
			s.next(0, -s.g.tl)
			s.show(str(args[2]))
		case "q":
			s.stack = append(s.stack, s.g)
		case "Q":
			s.g = s.stack[len(s.stack)-1]
			s.stack = s.stack[:len(s.stack)-1]
		case "cm":
			s.g.ctm = m6().mul(s.g.ctm)
		case "rg":
			s.g.fill = "rgb " + nums(f(0), f(1), f(2))
		case "RG":
			s.g.stroke = "rgb " + nums(f(0), f(1), f(2))
		case "w":
			s.g.lw = f(0)
		case "re":
			s.rect(f(0), f(1), f(2), f(3))
		case "l":
			s.line()
		case "Do":
			s.draw(args[0])
		}
		args = nil
	}
	return s
}

func regularTok(b byte) bool { return !delimTok(b) }
func delimTok(b byte) bool   { return strings.IndexByte("()<>[]{}/%", b) >= 0 }

// seps are the separators between tokens a and b.
func seps(a, b string) []string {
	out := []string{"\n", "\r", "\r\n", "\t", "\f", "\x00", "   ", " %c\n", "%(\r", " %BT ET\n\n", "%>>\r\n"}
	if delimTok(a[len(a)-1]) || delimTok(b[0]) {
		out = append(out, "")
	}
	if strings.HasPrefix(a, "ID ") {
		out = []string{"\n", "\r", " %c\n", "\t"}
	}
	return out
}

// spellings are other ways to write a token.
func spellings(k string) []string {
	var out []string
	switch {
	case strings.IndexByte("+-.0123456789", k[0]) >= 0:
		if !strings.ContainsRune(k, '.') {
			out = append(out, k+".", k+".0", k+".000")
		} else {
			out = append(out, k+"0")
		}
		if k[0] != '-' {
			out = append(out, "+"+k, "0"+k, "00"+k)
		} else {
			out = append(out, "-0"+k[1:])
		}
		if strings.HasPrefix(k, ".") {
			out = append(out, "0"+k, "+0"+k)
		}
		if k == "0" {
			out = append(out, "-0", ".0", "-.0")
		}
	case k[0] == '(' || k[0] == '<' && k[1] != '<':
		o, _ := ref.ParseOne([]byte(k))
		s := string(o.(ref.Str))
		oct, oct3, split, hex, hexws, nest := "", "", "", "", "", ""
		for i := 0; i < len(s); i++ {
			oct3 += fmt.Sprintf("\\%03o", s[i])
			if i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '7' {
				oct += fmt.Sprintf("\\%03o", s[i])
			} else {
				oct += fmt.Sprintf("\\%o", s[i])
			}
			e := string(s[i])
			if strings.Contains("()\\", e) {
				e = "\\" + e
			}
			split += e + "\\\n"
			nest += e
			hex += fmt.Sprintf("%02x", s[i])
			hexws += fmt.Sprintf("%X \n%X\t", s[i]>>4, s[i]&15)
		}
		out = append(out, "("+oct+")", "("+oct3+")", "("+split+")", "(\\\r\n"+nest+"\\\r)", "<"+hex+">", "<"+hexws+">", escStr([]byte(s), 0), escStr([]byte(s), 1), escStr([]byte(s), 2), "("+nest+"\\\r\n)")
	case k[0] == '[' && strings.Contains(k, "120"):
		out = append(out, "[(C)-120<4445>]", "[ (C)\n-120%c]\n<44>0(E) ]", "[(\\C)-120(\\D\\\rE)]", "[(\\103)-120(D\\E\\\r\n)]", "[()(C)<>.5 +7<44><45>-1.]", "[(C)-120 (DE)]", "[\n<43\n>\r(\\104\\105)\x00]")
	}
	return out
}

func runContentForms(c *core.Ctx) {
	progs := formPrograms()
	type dev struct {
		prog, at int
		kind     string
		text     string
	}
	var devs []dev
	for p, toks := range progs {
		for i, k := range toks {
			if i > 0 {
				for _, s := range seps(toks[i-1], k) {
					devs = append(devs, dev{p, i, "sep", s})
				}
				devs = append(devs, dev{p, i, "split", ""}, dev{p, i, "splitempty", ""}, dev{p, i, "splitws", ""})
			}
			for _, s := range spellings(k) {
				devs = append(devs, dev{p, i, "spell", s})
			}
		}
		for _, s := range []string{"\n", "%c\n", " "} {
			devs = append(devs, dev{p, 0, "sep", s}, dev{p, len(toks), "sep", s})
		}
	}
	arrays := []func([]string) string{
		nil,
		func(r []string) string { return "[" + strings.Join(r, "\n%x\n") + "]" },
	}
	render := func(toks []string, ds []dev) []string {
		var streams []string
		cur := ""
		for i, k := range toks {
			sep := " "
			if i == 0 {
				sep = ""
			}
			for _, d := range ds {
				if d.at != i {
					continue
				}
				switch d.kind {
				case "sep":
					sep = d.text
				case "spell":
					k = d.text
				case "split", "splitempty", "splitws":
					streams = append(streams, cur)
					cur, sep = "", ""
					if d.kind == "splitempty" {
						streams = append(streams, "")
					}
					if d.kind == "splitws" {
						sep = "\n"
						streams[len(streams)-1] += " "
					}
				}
			}
			cur += sep + k
		}
		for _, d := range ds {
			if d.at == len(toks) {
				cur += d.text
			}
		}
		return append(streams, cur)
	}
	compatible := func(a, b dev) bool {
		if a.prog != b.prog || a.at == b.at && (a.kind == "spell") == (b.kind == "spell") {
			return false
		}
		// a separator may only vanish between tokens whose spelling keeps them apart
		for _, x := range [][2]dev{{a, b}, {b, a}} {
			if x[0].kind == "sep" && x[0].text == "" && x[1].kind == "spell" {
				return false
			}
		}
		return true
	}
	// one case per first deviation, with every second one
	c.ForEach("forms", len(devs), func(i int) string {
		return fmt.Sprintf("p%d-t%d-%s-%q", devs[i].prog, devs[i].at, devs[i].kind, devs[i].text)
	}, func(t *core.T, i int) {
		d := devs[i]
		var pages [][]string
		var srcs []string
		add := func(ds ...dev) {
			s := render(progs[d.prog], ds)
			pages = append(pages, s)
			srcs = append(srcs, strings.Join(s, "|"))
		}
		add(d)
		limit := core.Pick(c, i+20, len(devs))
		for j := i + 1; j < len(devs) && j < limit; j++ {
			if compatible(d, devs[j]) {
				add(d, devs[j])
			}
		}
		want := formModel(progs[d.prog])
		for n, a := range arrays {
			doc, err := extract.ExtractContent(contentDoc(pages, a), nil, false)
			t.Step(len(pages))
			if err != nil || len(doc.Pages) != len(pages) {
				t.Fail("extract", "array form %d: error %v", n, err)
				return
			}
			for k := range pages {
				t.State(srcs[k])
				if !comparePage(t, "form", srcs[k], &doc.Pages[k], want) {
					return
				}
			}
			if len(pages[0]) == 1 {
				break
			}
		}
	})

	// one content stream behind every kind of /Contents and every filter
	kinds := []string{"direct", "array", "indirect array", "array in object stream", "flate", "hex flate", "a85", "runlength", "lzw-free predictor"}
	c.ForEach("contents", len(kinds)*len(progs), func(i int) string { return fmt.Sprintf("%s-p%d", kinds[i/len(progs)], i%len(progs)) }, func(t *core.T, i int) {
		toks := progs[i%len(progs)]
		src := strings.Join(toks, " ")
		half := strings.Join(toks[:len(toks)/2], " ")
		rest := strings.Join(toks[len(toks)/2:], " ")
		type o = gen.Obj
		res, objs := cfonts()
		contents := "4 0 R"
		stream := gen.Obj{Num: 4, Body: "<<>>", Stream: true, Data: src}
		x := false
		switch kinds[i/len(progs)] {
		case "array":
			contents = "[4 0 R]"
		case "indirect array":
			contents = "5 0 R"
			stream.Data = half
			objs = append(objs, o{Num: 5, Body: "[4 0 R 6 0 R]"}, o{Num: 6, Body: "<<>>", Stream: true, Data: rest})
		case "array in object stream":
			x, contents = true, "5 0 R"
			stream.Data = half
			objs = append(objs, o{Num: 5, Body: "[ 4 0 R%x\n6 0 R ]", Compressed: true}, o{Num: 6, Body: "<<>>", Stream: true, Data: rest})
		case "flate":
			stream.Body, stream.Data = "<</Filter/FlateDecode>>", string(gen.Flate([]byte(src)))
		case "hex flate":
			stream.Body, stream.Data = "<</Filter[/ASCIIHexDecode/FlateDecode]>>", string(gen.Hex(gen.Flate([]byte(src))))
		case "a85":
			stream.Body, stream.Data = "<</Filter/ASCII85Decode>>", string(gen.A85([]byte(src)))
		case "runlength":
			stream.Body, stream.Data = "<</Filter[/RunLengthDecode]>>", string(gen.RunLength([]byte(src)))
		case "lzw-free predictor":
			for len(src)%5 != 0 {
				src += " "
			}
			stream.Body, stream.Data = "<</Filter/FlateDecode/DecodeParms<</Predictor 15/Columns 5>>>>", string(gen.Flate(gen.PNG([]byte(src), 5, 15)))
		}
		objs = append(objs, stream, o{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"}, o{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1>>"},
			o{Num: 3, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Resources<<" + res + ">>/Contents " + contents + ">>", Compressed: x})
		pdf, _ := gen.Build("1.7", []gen.Rev{{XRefStream: x, Trailer: "/Root 1 0 R", Objs: objs, StmBase: 50}})
		doc, err := extract.ExtractContent(pdf, nil, false)
		t.Step(1)
		t.State(string(pdf))
		if err != nil || len(doc.Pages) != 1 {
			t.Fail("extract", "error %v", err)
			return
		}
		comparePage(t, "contents", kinds[i/len(progs)], &doc.Pages[0], formModel(toks))
	})
}

// --- strings -------------------------------------------------------------------

// runContentStrings shows every string of a bounded alphabet, written as it is.
func runContentStrings(c *core.Ctx) {
	lit := []string{"a", "(", ")", "\\", "\n", "\r", "0", "7", "8", "n", "\xe9", " ", "T", ">"}
	hex := []string{"0", "4", "F", "a", " ", "\n", "2"}
	n := core.Pick(c, 4, 5)
	run := func(section string, alpha []string, open, close string, n int) {
		var pre [][]string
		for _, a := range alpha {
			for _, b := range alpha {
				pre = append(pre, []string{a, b})
			}
		}
		pre = append(pre, nil)
		c.ForEach(section, len(pre), func(i int) string { return fmt.Sprintf("%q", strings.Join(pre[i], "")) }, func(t *core.T, i int) {
			var strs []string
			var rec func(s string, k int)
			rec = func(s string, k int) {
				if o, err := ref.ParseOne([]byte(open + s + close)); err == nil {
					if _, ok := o.(ref.Str); ok {
						strs = append(strs, s)
					}
				}
				if k == 0 {
					return
				}
				for _, a := range alpha {
					rec(s+a, k-1)
				}
			}
			if pre[i] == nil {
				rec("", 1)
			} else {
				rec(strings.Join(pre[i], ""), n-2)
			}
			var want []string
			var src strings.Builder
			src.WriteString("BT /F1 9 Tf\n")
			for k, s := range strs {
				o, _ := ref.ParseOne([]byte(open + s + close))
				v := string(o.(ref.Str))
				w := ""
				for _, b := range []byte(v) {
					w += string(rune(b)) // WinAnsi agrees with Latin-1 on these codes
				}
				want = append(want, w)
				tok := open + s + close
				switch k % 4 {
				case 0:
					src.WriteString(tok + " Tj\n")
				case 1:
					src.WriteString("[" + tok + "]TJ\n")
				case 2:
					src.WriteString(tok + "'\n")
				case 3:
					src.WriteString("0 0" + tok + "\"\n")
				}
				t.State(tok)
			}
			src.WriteString("ET")
			doc, err := extract.ExtractContent(contentDoc([][]string{{src.String()}}, nil), nil, false)
			t.Step(len(strs))
			if err != nil || len(doc.Pages) != 1 {
				t.Fail("extract", "error %v", err)
				return
			}
			got := doc.Pages[0].Text
			for k, w := range want {
				if k >= len(got) || got[k].Text != w {
					g := "nothing"
					if k < len(got) {
						g = fmt.Sprintf("%q", got[k].Text)
					}
					t.Fail("string", "%q (operator %d) shows %s, want %q", open+strs[k]+close, k%4, g, w)
					return
				}
			}
			if len(got) != len(want) {
				t.Fail("string", "%d texts, want %d", len(got), len(want))
			}
		})
	}
	run("literal", lit, "(", ")", n)
	run("hex", hex, "<", ">", n+1)
	run("escapes", []string{"\\", "n", "r", "t", "b", "f", "x", "1", "\r", "\n"}, "(", ")", core.Pick(c, 4, 5))
}

// --- fonts ---------------------------------------------------------------------

// the Latin character set of ISO 32000-1 Annex D: glyph name and character
const latinGlyphs = `A A|AE Æ|Aacute Á|Acircumflex Â|Adieresis Ä|Agrave À|Aring Å|Atilde Ã|B B|C C|Ccedilla Ç|D D|E E|Eacute É|Ecircumflex Ê|Edieresis Ë|Egrave È|Eth Ð|Euro €|F F|G G|H H|I I|Iacute Í|Icircumflex Î|Idieresis Ï|Igrave Ì|J J|K K|L L|Lslash Ł|M M|N N|Ntilde Ñ|O O|OE Œ|Oacute Ó|Ocircumflex Ô|Odieresis Ö|Ograve Ò|Oslash Ø|Otilde Õ|P P|Q Q|R R|S S|Scaron Š|T T|Thorn Þ|U U|Uacute Ú|Ucircumflex Û|Udieresis Ü|Ugrave Ù|V V|W W|X X|Y Y|Yacute Ý|Ydieresis Ÿ|Z Z|Zcaron Ž|a a|aacute á|acircumflex â|acute ´|adieresis ä|ae æ|agrave à|ampersand &|aring å|asciicircum ^|asciitilde ~|asterisk *|at @|atilde ã|b b|backslash \|bar BAR|braceleft {|braceright }|bracketleft [|bracketright ]|breve ˘|brokenbar ¦|bullet •|c c|caron ˇ|ccedilla ç|cedilla ¸|cent ¢|circumflex ˆ|colon :|comma ,|copyright ©|currency ¤|d d|dagger †|daggerdbl ‡|degree °|dieresis ¨|divide ÷|dollar $|dotaccent ˙|dotlessi ı|e e|eacute é|ecircumflex ê|edieresis ë|egrave è|eight 8|ellipsis …|emdash —|endash –|equal =|eth ð|exclam !|exclamdown ¡|f f|fi ﬁ|five 5|fl ﬂ|florin ƒ|four 4|fraction ⁄|g g|germandbls ß|grave ` + "`" + `|greater >|guillemotleft «|guillemotright »|guilsinglleft ‹|guilsinglright ›|h h|hungarumlaut ˝|hyphen -|i i|iacute í|icircumflex î|idieresis ï|igrave ì|j j|k k|l l|less <|logicalnot ¬|lslash ł|m m|macron ¯|minus −|mu µ|multiply ×|n n|nine 9|ntilde ñ|numbersign #|o o|oacute ó|ocircumflex ô|odieresis ö|oe œ|ogonek ˛|ograve ò|one 1|onehalf ½|onequarter ¼|onesuperior ¹|ordfeminine ª|ordmasculine º|oslash ø|otilde õ|p p|paragraph ¶|parenleft (|parenright )|percent %|period .|periodcentered ·|perthousand ‰|plus +|plusminus ±|q q|question ?|questiondown ¿|quotedbl "|quotedblbase „|quotedblleft “|quotedblright ”|quoteleft ‘|quoteright ’|quotesinglbase ‚|quotesingle '|r r|registered ®|ring ˚|s s|scaron š|section §|semicolon ;|seven 7|six 6|slash /|space SPACE|sterling £|t t|thorn þ|three 3|threequarters ¾|threesuperior ³|tilde ˜|trademark ™|two 2|twosuperior ²|u u|uacute ú|ucircumflex û|udieresis ü|ugrave ù|underscore _|v v|w w|x x|y y|yacute ý|ydieresis ÿ|yen ¥|z z|zcaron ž|zero 0`

func glyphTable() (names []string, char map[string]rune) {
	char = map[string]rune{}
	for _, e := range strings.Split(latinGlyphs, "|") {
		n, v, _ := strings.Cut(e, " ")
		switch v {
		case "BAR":
			v = "|"
		case "SPACE":
			v = " "
		}
		names = append(names, n)
		char[n] = []rune(v)[0]
	}
	return
}

// encodings by code: characters of the PDF encodings (0: no character or not asserted)
func encodingTables() map[string][256]rune {
	var win, mac, std [256]rune
	for c := 32; c < 127; c++ {
		win[c], mac[c], std[c] = rune(c), rune(c), rune(c)
	}
	for c := 161; c < 256; c++ {
		win[c] = rune(c)
	}
	win[173] = 0 // hyphen or soft hyphen
	for i, r := range []rune("€\x00‚ƒ„…†‡ˆ‰Š‹Œ\x00Ž\x00\x00‘’“”•–—˜™š›œ\x00žŸ") {
		win[128+i] = r
	}
	for i, r := range []rune("ÄÅÇÉÑÖÜáàâäãåçéèêëíìîïñóòôöõúùûü†°¢£§•¶ß®©™´¨\x00ÆØ\x00±\x00\x00¥µ\x00\x00\x00\x00\x00ªº\x00æø¿¡¬\x00ƒ\x00\x00«»…\x00ÀÃÕŒœ–—“”‘’÷\x00ÿŸ⁄\x00‹›ﬁﬂ‡·‚„‰ÂÊÁËÈÍÎÏÌÓÔ\x00ÒÚÛÙıˆ˜¯˘˙˚¸˝˛ˇ") {
		mac[128+i] = r
	}
	std[39], std[96] = '’', '‘'
	_, g := glyphTable()
	for code, n := range map[int]string{161: "exclamdown", 162: "cent", 163: "sterling", 164: "fraction", 165: "yen", 166: "florin", 167: "section", 168: "currency", 169: "quotesingle", 170: "quotedblleft", 171: "guillemotleft", 172: "guilsinglleft", 173: "guilsinglright", 174: "fi", 175: "fl", 177: "endash", 178: "dagger", 179: "daggerdbl", 180: "periodcentered", 182: "paragraph", 183: "bullet", 184: "quotesinglbase", 185: "quotedblbase", 186: "quotedblright", 187: "guillemotright", 188: "ellipsis", 189: "perthousand", 191: "questiondown", 193: "grave", 194: "acute", 195: "circumflex", 196: "tilde", 197: "macron", 198: "breve", 199: "dotaccent", 200: "dieresis", 202: "ring", 203: "cedilla", 205: "hungarumlaut", 206: "ogonek", 207: "caron", 208: "emdash", 225: "AE", 227: "ordfeminine", 232: "Lslash", 233: "Oslash", 234: "OE", 235: "ordmasculine", 241: "ae", 245: "dotlessi", 248: "lslash", 249: "oslash", 250: "oe", 251: "germandbls"} {
		std[code] = g[n]
	}
	return map[string][256]rune{"WinAnsiEncoding": win, "MacRomanEncoding": mac, "StandardEncoding": std}
}

// fontDoc is a document with one font and one page that shows the given content.
func fontDoc(font string, objs []gen.Obj, content string) []byte {
	type o = gen.Obj
	objs = append(objs, o{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"}, o{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1>>"},
		o{Num: 3, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Resources<</Font<</F1 5 0 R>>>>/Contents 4 0 R>>"},
		o{Num: 4, Body: "<<>>", Stream: true, Data: content}, o{Num: 5, Body: font})
	b, _ := gen.Build("1.7", []gen.Rev{{Trailer: "/Root 1 0 R", Objs: objs}})
	return b
}

func fontTexts(t *core.T, pdf []byte) ([]string, bool) {
	doc, err := extract.ExtractContent(pdf, nil, false)
	t.Step(1)
	if err != nil || len(doc.Pages) != 1 {
		t.Fail("extract", "error %v", err)
		return nil, false
	}
	var out []string
	for _, e := range doc.Pages[0].Text {
		out = append(out, e.Text)
	}
	return out, true
}

func runContentFonts(c *core.Ctx) {
	tables := encodingTables()
	names, char := glyphTable()
	type fcase struct {
		name, font string
		base       string
		objs       []gen.Obj
		diff       map[int]rune
	}
	var cases []fcase
	for _, e := range []string{"WinAnsiEncoding", "MacRomanEncoding", "StandardEncoding"} {
		if e != "StandardEncoding" { // not a legal name for /Encoding
			for _, st := range []string{"Type1", "TrueType"} {
				cases = append(cases, fcase{name: "name-" + st + e, base: e, font: "<</Type/Font/Subtype/" + st + "/BaseFont/X/Encoding/" + e + ">>"})
			}
			cases = append(cases, fcase{name: "indirect-" + e, base: e, font: "<</Type/Font/Subtype/Type1/BaseFont/X/Encoding 6 0 R>>", objs: []gen.Obj{{Num: 6, Body: "/" + e}}})
		}
		base := "/BaseEncoding/" + e
		if e == "StandardEncoding" {
			base = ""
			for _, f := range []string{"Helvetica", "Courier-Bold", "Times-Roman"} {
				cases = append(cases, fcase{name: "default-" + f, base: e, font: "<</Type/Font/Subtype/Type1/BaseFont/" + f + ">>"})
			}
		}
		// every glyph name at every place of a Differences array
		for _, form := range []string{"runs", "single", "indirect", "pieces"} {
			for off := 0; off < 3; off++ {
				diff := map[int]rune{}
				d := ""
				code := 33 + off
				for i, n := range names {
					if i%len(names) > 0 && (form == "single" || i%5 == 4) || i == 0 {
						d += fmt.Sprintf(" %d", code)
					}
					sep := ""
					if form == "pieces" {
						sep = []string{" ", "\n", "%c]\n", "\r\n"}[i%4]
					}
					d += "/" + n + sep
					diff[code] = char[n]
					code++
					if code == 127 {
						code = 128
					}
					if code > 255 {
						break
					}
					if code == 128 {
						d += " 128"
					}
				}
				fc := fcase{name: fmt.Sprintf("diff-%s-%s-%d", e, form, off), base: e, diff: diff}
				enc := "<</Type/Encoding" + base + "/Differences[" + d + "]>>"
				if form == "indirect" {
					fc.objs = []gen.Obj{{Num: 6, Body: "<</Type/Encoding" + base + "/Differences 7 0 R>>"}, {Num: 7, Body: "[" + d + "]"}}
					enc = " 6 0 R"
				}
				fc.font = "<</Type/Font/Subtype/Type1/BaseFont/X/Encoding" + enc + ">>"
				cases = append(cases, fc)
			}
		}
		// single differences: the remaining glyphs and computed names
		for _, n := range append([]string{"uni00E9", "uni20AC", "uni0416", "u0416", "u1F600"}, names...) {
			r := char[n]
			switch n {
			case "uni00E9":
				r = 'é'
			case "uni20AC":
				r = '€'
			case "uni0416", "u0416":
				r = 'Ж'
			case "u1F600":
				r = 0x1F600
			}
			for _, code := range []int{1, 65, 200} {
				cases = append(cases, fcase{name: fmt.Sprintf("one-%s-%s-%d", e, n, code), base: e, diff: map[int]rune{code: r},
					font: fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/X/Encoding<<%s/Differences[%d/%s]>>>>", base, code, n)})
			}
		}
	}
	c.ForEach("encodings", len(cases), func(i int) string { return cases[i].name }, func(t *core.T, i int) {
		k := cases[i]
		tab := tables[k.base]
		src := "BT /F1 9 Tf "
		var codes []int
		for code := 0; code < 256; code++ {
			if _, ok := k.diff[code]; !ok && len(k.diff) == 1 && code%16 != 5 {
				continue // one difference: a few of the other codes are enough
			}
			codes = append(codes, code)
			src += fmt.Sprintf("<%02X> Tj (\\%03o) Tj ", code, code)
		}
		got, ok := fontTexts(t, fontDoc(k.font, k.objs, src+"ET"))
		t.State(k.font)
		if !ok {
			return
		}
		if len(got) != 2*len(codes) {
			t.Fail("texts", "%d texts, want %d", len(got), 2*len(codes))
			return
		}
		for n, code := range codes {
			w := tab[code]
			if d, ok := k.diff[code]; ok {
				w = d
			}
			if w != 0 && (got[2*n] != string(w) || got[2*n+1] != string(w)) {
				t.Fail("code", "%s: code %d is %q (hexadecimal) and %q (literal), want %q", k.font, code, got[2*n], got[2*n+1], string(w))
				return
			}
		}
	})

	// ToUnicode maps
	assigns := []string{"none", "char", "lig", "pair", "range", "array", "arraylig", "ranglig"}
	styles := []string{"lines", "spaces", "tight", "blocks", "split hex", "lower"}
	kinds := []string{"simple", "diff", "composite"}
	total := len(assigns) * len(assigns) * len(assigns) * len(styles) * len(kinds)
	c.ForEach("tounicode", total, func(i int) string {
		return fmt.Sprintf("%s-%s-%d", kinds[i%len(kinds)], styles[i/len(kinds)%len(styles)], i/len(kinds)/len(styles))
	}, func(t *core.T, i int) {
		kind := kinds[i%len(kinds)]
		style := styles[i/len(kinds)%len(styles)]
		n := i / len(kinds) / len(styles)
		width := 1
		if kind == "composite" {
			width = 2
		}
		hexn := func(v, w int) string {
			s := fmt.Sprintf("%0*X", 2*w, v)
			if style == "split hex" {
				s = s[:1] + " " + s[1:]
			}
			if style == "lower" {
				s = strings.ToLower(s)
			}
			return "<" + s + ">"
		}
		uni := func(s string) string {
			h := ""
			for _, r := range s {
				if r > 0xffff {
					h += fmt.Sprintf("%04X%04X", 0xD800+(r-0x10000)>>10, 0xDC00+(r-0x10000)&0x3ff)
				} else {
					h += fmt.Sprintf("%04X", r)
				}
			}
			if style == "lower" {
				h = strings.ToLower(h)
			}
			if style == "split hex" {
				h = h[:3] + "\n" + h[3:]
			}
			return "<" + h + ">"
		}
		var chars, ranges []string
		want := map[int]string{}
		codes := []int{0x20, 0x41, 0xA0}
		if kind == "composite" {
			codes = []int{0x20, 0x141, 0xFF00}
		}
		for j, code := range codes {
			a := assigns[n%len(assigns)]
			n /= len(assigns)
			base := rune(0x416 + 16*j)
			switch a {
			case "char":
				chars = append(chars, hexn(code, width)+"@"+uni(string(base)))
				want[code] = string(base)
			case "lig":
				chars = append(chars, hexn(code+1, width)+"@"+uni("f"+string(base)+"i"))
				want[code+1] = "f" + string(base) + "i"
			case "pair":
				chars = append(chars, hexn(code, width)+"@"+uni("\U0001F600"))
				want[code] = "\U0001F600"
			case "range":
				ranges = append(ranges, hexn(code, width)+"@"+hexn(code+3, width)+"@"+uni(string(base)))
				for k := 0; k < 4; k++ {
					want[code+k] = string(base + rune(k))
				}
			case "array", "arraylig":
				s := "["
				for k := 0; k < 3; k++ {
					v := string(base + rune(5*k))
					if a == "arraylig" {
						v += "x"
					}
					want[code+k] = v
					s += "^" + uni(v)
				}
				ranges = append(ranges, hexn(code, width)+"@"+hexn(code+2, width)+"@"+s+"^]")
			case "ranglig":
				ranges = append(ranges, hexn(code, width)+"@"+hexn(code+2, width)+"@"+uni("q"+string(base)))
				for k := 0; k < 3; k++ {
					want[code+k] = "q" + string(base+rune(k))
				}
			}
		}
		cmap := "/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /X def /CMapType 2 def\n1 begincodespacerange\n" + hexn(0, width) + " " + hexn(1<<(8*width)-1, width) + "\nendcodespacerange\n"
		block := func(what string, es []string) {
			join := func(sep, in, arr string) string {
				s := strings.Join(es, sep)
				return strings.ReplaceAll(strings.ReplaceAll(s, "@", in), "^", arr)
			}
			if len(es) == 0 {
				return
			}
			switch style {
			case "spaces":
				cmap += fmt.Sprintf("%d begin%s %s end%s ", len(es), what, join("  ", " ", " "), what)
			case "tight":
				cmap += fmt.Sprintf("%d begin%s%send%s\r", len(es), what, join("", "", ""), what)
			case "blocks":
				all := es
				for _, e := range all {
					es = []string{e}
					cmap += fmt.Sprintf("1 begin%s\r\n%s\r\nend%s\r\n", what, join("", "\t", "\n"), what)
				}
			default:
				cmap += fmt.Sprintf("%d begin%s\n%s\nend%s\n", len(es), what, join("\n", " ", " "), what)
			}
		}
		block("bfchar", chars)
		block("bfrange", ranges)
		cmap += "endcmap CMapName currentdict /CMap defineresource pop end end"
		objs := []gen.Obj{{Num: 6, Body: "<<>>", Stream: true, Data: cmap}}
		font := "<</Type/Font/Subtype/TrueType/BaseFont/X/Encoding/WinAnsiEncoding/ToUnicode 6 0 R>>"
		switch kind {
		case "diff":
			font = "<</Type/Font/Subtype/Type1/BaseFont/X/Encoding<</Differences[32/Z/Y/X/W 65/V/U/T/S 160/R/Q/P/O]>>/ToUnicode 6 0 R>>"
		case "composite":
			font = "<</Type/Font/Subtype/Type0/BaseFont/X/Encoding/Identity-H/DescendantFonts[7 0 R]/ToUnicode 6 0 R>>"
			objs = append(objs, gen.Obj{Num: 7, Body: "<</Type/Font/Subtype/CIDFontType2/BaseFont/X/CIDSystemInfo<</Registry(Adobe)/Ordering(Identity)/Supplement 0>>>>"})
		default:
		}
		src := "BT /F1 9 Tf "
		all, whole := "", ""
		var expect []string
		for _, code := range codes {
			for k := 0; k < 4; k++ {
				w, ok := want[code+k]
				if !ok {
					if kind != "diff" {
						continue
					}
					w = string(rune("ZYXWVUTSRQPO"[4*indexInt(codes, code)+k]))
				}
				h := fmt.Sprintf("%0*X", 2*width, code+k)
				l := ""
				for b := 0; b < len(h); b += 2 {
					var v int
					fmt.Sscanf(h[b:b+2], "%X", &v)
					l += fmt.Sprintf("\\%03o", v)
				}
				src += "<" + h + "> Tj (" + l + ") Tj [<" + h + ">(" + l + ")] TJ "
				expect = append(expect, w, w, w+w)
				all += h
				whole += w
			}
		}
		src += "<" + all + "> Tj ET"
		expect = append(expect, whole)
		got, ok := fontTexts(t, fontDoc(font, objs, src))
		t.State(cmap + kind)
		if !ok {
			return
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", expect) {
			t.Fail("tounicode", "%s with %q: texts %q, want %q", kind, cmap, got, expect)
		}
	})
}

func indexInt(a []int, v int) int {
	for i, x := range a {
		if x == v {
			return i
		}
	}
	return -1
}
