package props

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
)

func init() {
	core.Register(&core.Prop{
		ID: "P08", Level: "model_checking", Run: runCrypt,
		Rule: "A read case is one document encrypted by an independent implementation of the standard security handler (every version, revision, key length, crypt filter choice and metadata flag), with one pair of user and owner passwords, in one file layout; it is opened with every right and every wrong password through every access path. A write case is one sequence of writer operations with one encryption set-up, password pair and layout; the output is read back and decrypted independently. Non-trivial: at least one string or stream of the document is encrypted.",
		Assumptions: []string{
			"AES-256 (V5) output uses the library's own key derivation, which its tests pin and which is not that of ISO 32000-2; it is checked for consistency (write then read) and for correct AES-256-CBC of every string and stream, not for interoperability",
			"public-key handlers and per-stream Crypt filters are outside the bound",
		},
	})
}

type cryptCfg struct {
	name       string
	v, r, n    int
	aes        bool
	stmF, strF string
	noMeta     bool
}

func cryptCfgs() []cryptCfg {
	out := []cryptCfg{{name: "v1r2", v: 1, r: 2, n: 5}}
	for n := 5; n <= 16; n++ {
		out = append(out, cryptCfg{name: fmt.Sprintf("v2r3-%d", n*8), v: 2, r: 3, n: n})
	}
	for _, a := range []bool{false, true} {
		for _, f := range [][2]string{{"", ""}, {"Identity", ""}, {"", "Identity"}, {"Identity", "Identity"}} {
			for _, nm := range []bool{false, true} {
				out = append(out, cryptCfg{name: fmt.Sprintf("v4-aes%v-%s-%s-nometa%v", a, f[0], f[1], nm), v: 4, r: 4, n: 16, aes: a, stmF: f[0], strF: f[1], noMeta: nm})
			}
		}
	}
	return out
}

func (c cryptCfg) make(user, owner []byte, p int32, id []byte) *gen.Crypt {
	k := gen.NewCryptMeta(c.v, c.r, c.n, c.aes, user, owner, p, id, !c.noMeta)
	k.StmF, k.StrF = c.stmF, c.strF
	return k
}

var cryptID = []byte("\x00fedcba98)7654(\xff")

var userPws = []string{"", "user", "\xe9\xff(\\", "12345678901234567890123456789012", "1234567890123456789012345678901234567890"}
var ownerPws = []string{"", "owner", "user", "own90123456789012345678901234567890"}

// pwEqual tells whether the standard handler treats two passwords as the same.
func pwEqual(a, b string) bool { return a[:min(32, len(a))] == b[:min(32, len(b))] }

func wrongPws(user, owner string) []string {
	if owner == "" {
		owner = user
	}
	var out []string
	for _, w := range []string{"", "wrong", "User", user + "x", owner + "x", strings.TrimSuffix(user, "r"), "123456789012345678901234567890123"} {
		if !pwEqual(w, user) && !pwEqual(w, owner) {
			out = append(out, w)
		}
	}
	return out
}

func cryptDoc() []gen.Obj {
	type o = gen.Obj
	lens := []int{0, 1, 15, 16, 17, 31, 32, 33}
	arr := "["
	for _, n := range lens {
		arr += "(" + strings.Repeat("s", n) + ")"
	}
	arr += "<</K(a\\)b\\(\\\\)/L[[<00FF0d0a>]]>>]"
	objs := []o{
		{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R/Lang(en-US)/Metadata 9 0 R>>"},
		{Num: 2, Body: "<</Type/Pages/Kids[3 0 R]/Count 1>>"},
		{Num: 3, Body: "<</Type/Page/Parent 2 0 R/MediaBox[0 0 99 99]/Contents 4 0 R/Resources<</Font<</F1 6 0 R>>>>/Tag(page)>>"},
		{Num: 4, Body: "<</S(in a stream dictionary)>>", Stream: true, Data: "BT /F1 9 Tf 7 8 Td (Secret) Tj ET"},
		{Num: 5, Body: arr},
		{Num: 6, Body: "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>", Compressed: true},
		{Num: 7, Body: "<</Packed(string in an object stream)>>", Compressed: true},
		{Num: 8, Body: "<</Title(The title)/Author<FEFF00E9>>>"},
		{Num: 9, Body: "<</Type/Metadata/Subtype/XML>>", Stream: true, Data: "<x:xmpmeta/>"},
		{Num: 300, Gen: 0, Body: "(object 300)"},
		{Num: 13, Body: "<</Filter/FlateDecode>>", Stream: true, Data: string(gen.Flate([]byte(strings.Repeat("flate ", 20))))},
	}
	for i, n := range lens {
		objs = append(objs, o{Num: 20 + i, Body: "<<>>", Stream: true, Data: strings.Repeat("d", n)})
	}
	return objs
}

// cryptFile builds the encrypted file and the plain values of its objects.
func cryptFile(k *gen.Crypt, layout string) ([]byte, map[int]string) {
	objs := cryptDoc()
	want := map[int]string{}
	put := func(os []gen.Obj) {
		for _, o := range os {
			v, err := ref.ParseOne([]byte(o.Body))
			if err != nil {
				panic(err)
			}
			if o.Stream {
				v = &ref.Stream{D: v.(ref.Dict), Raw: []byte(o.Data)}
			}
			want[o.Num] = semantic(v)
		}
	}
	stream := strings.Contains(layout, "s")
	if !stream {
		for i := range objs {
			objs[i].Compressed = false
		}
	}
	if strings.Contains(layout, "g") { // generations in use
		for i := range objs {
			if objs[i].Num == 300 || objs[i].Num == 20 {
				objs[i].Gen = 258
			}
		}
	}
	put(objs)
	tr := "/Root 1 0 R/Info 8 0 R"
	if k.ID != nil {
		tr += fmt.Sprintf("/ID[<%X><%X>]", k.ID, "other")
	}
	if strings.Contains(layout, "d") {
		tr += "/Encrypt " + k.Dict()
	} else {
		tr += "/Encrypt 40 0 R"
		objs = append(objs, gen.Obj{Num: 40, Body: k.Dict()})
		put(objs[len(objs)-1:])
	}
	revs := []gen.Rev{{XRefStream: stream, Trailer: tr, StmBase: 50, Crypt: k, Objs: k.Encrypt(objs, 40)}}
	if strings.Contains(layout, "u") { // an update of the encrypted document
		up := []gen.Obj{{Num: 5, Body: "(replaced in an update)"}, {Num: 21, Body: "<<>>", Stream: true, Data: "new data"}, {Num: 41, Body: "[(added)]", Compressed: stream}}
		put(up)
		revs = append(revs, gen.Rev{XRefStream: stream, Trailer: tr, StmBase: 60, Crypt: k, Objs: k.Encrypt(up, 40)})
	}
	pdf, _ := gen.Build("1.7", revs)
	return pdf, want
}

func runCrypt(c *core.Ctx) {
	cfgs := cryptCfgs()
	layouts := core.Pick(c, []string{"", "s", "d", "su"}, []string{"", "s", "d", "sd", "u", "su", "sud", "g", "ug"})
	type rc struct {
		cfg          cryptCfg
		user, owner  string
		layout, name string
	}
	var rcs []rc
	for _, g := range cfgs {
		for ui, u := range userPws {
			for oi, o := range ownerPws {
				for _, l := range layouts {
					rcs = append(rcs, rc{g, u, o, l, fmt.Sprintf("%s/u%d,o%d/%s", g.name, ui, oi, l)})
				}
			}
		}
	}
	c.ForEach("read", len(rcs), func(i int) string { return rcs[i].name }, func(t *core.T, i int) {
		x := rcs[i]
		k := x.cfg.make([]byte(x.user), []byte(x.owner), -44, cryptID)
		pdf, want := cryptFile(k, x.layout)
		checkEncrypted(t, pdf, want, x.user, x.owner)
	})
	// permissions and file identifiers take part in the key
	ids := []struct {
		n  string
		id []byte
	}{{"none", nil}, {"empty", []byte{}}, {"one", []byte{0}}, {"text", []byte("0123456789abcdef")}, {"long", bytes.Repeat([]byte{0xA5}, 40)}}
	perms := []int32{-1, -4, -44, -3904, 0, 4, 2147483647, -2147483648}
	c.ForEach("params", len(cfgs)*len(ids)*len(perms), func(i int) string {
		return fmt.Sprintf("%s/id-%s/p%d", cfgs[i%len(cfgs)].name, ids[i/len(cfgs)%len(ids)].n, perms[i/len(cfgs)/len(ids)])
	}, func(t *core.T, i int) {
		k := cfgs[i%len(cfgs)].make([]byte("user"), []byte("owner"), perms[i/len(cfgs)/len(ids)], ids[i/len(cfgs)%len(ids)].id)
		pdf, want := cryptFile(k, "")
		checkEncrypted(t, pdf, want, "user", "owner")
	})
	runCryptWrite(c)
	runCryptRebuild(c)
	runCryptISO(c)
	runCryptGuess(c)
	runCryptObject(c)
}

// runCryptObject encrypts and decrypts single values of every object number and generation whose
// bytes matter in the object key, against an independent implementation.
func runCryptObject(c *core.Ctx) {
	cfgs := cryptCfgs()
	nums := []int{1, 2, 255, 256, 257, 65535, 65536, 65793, 8388607}
	gens := []int{0, 1, 255, 256, 257, 65535}
	c.ForEach("object", len(cfgs)*len(nums)*len(gens), func(i int) string {
		return fmt.Sprintf("%s/%d-%d", cfgs[i%len(cfgs)].name, nums[i/len(cfgs)%len(nums)], gens[i/len(cfgs)/len(nums)])
	}, func(t *core.T, i int) {
		n, g := nums[i/len(cfgs)%len(nums)], gens[i/len(cfgs)/len(nums)]
		k := cfgs[i%len(cfgs)].make([]byte("user"), []byte("owner"), -44, cryptID)
		pdf, _ := cryptFile(k, "")
		_, enc, err := encrypt.DecryptPDF(pdf, []byte("user"), false)
		if err != nil {
			t.Fail("open", "DecryptPDF: %v", err)
			return
		}
		one := func(d []byte) {
			in := append([]byte(nil), d...)
			e, err := encrypt.EncryptObject(d, n, g, enc)
			t.Step(1)
			if err != nil || !bytes.Equal(in, d) {
				t.Fail("encrypt", "EncryptObject(%q) %v, input now %q", in, err, d)
				return
			}
			want := e
			if k.StmF != "Identity" {
				if want, err = k.Dec(e, n, g); err != nil {
					t.Fail("encrypt", "EncryptObject(%q): %v", d, err)
					return
				}
			}
			if !bytes.Equal(want, d) {
				t.Fail("encrypt", "EncryptObject(%q) decrypts independently to %q", d, want)
			}
			e = k.EncStream(d, n, g)
			in = append([]byte(nil), e...)
			got, err := encrypt.DecryptObject(e, n, g, enc)
			t.Step(1)
			if err != nil || !bytes.Equal(got, d) {
				t.Fail("decrypt", "DecryptObject gives %q (%v), want %q", got, err, d)
			}
			if !bytes.Equal(in, e) {
				t.Fail("decrypt", "DecryptObject changes its input")
			}
		}
		for l := 0; l <= 49; l++ {
			d := make([]byte, l)
			for j := range d {
				d[j] = byte(j*37 + l + n)
			}
			one(d)
		}
		one(bytes.Repeat([]byte{16}, 4096))
		one(make([]byte, 4095))
		obj := "<</A(x\\)\\(\\\\\\101)/B[<00ff0a0d> () [(nested)]]/C/Name#28x/D 5 0 R/E(" + strings.Repeat("long ", 30) + ")>>"
		same := mustCanon(obj)
		e, err := encrypt.EncryptStrings([]byte(obj), n, g, enc)
		t.Step(1)
		if err != nil {
			t.Fail("strings", "EncryptStrings: %v", err)
			return
		}
		v, err := ref.ParseOne(e)
		if err != nil {
			t.Fail("strings", "EncryptStrings writes %q: %v", clipb(e), err)
			return
		}
		plain := gen.Format(v, func(s []byte) []byte {
			if k.StrF == "Identity" {
				return s
			}
			d, err := k.Dec(s, n, g)
			if err != nil {
				t.Fail("strings", "a string does not decrypt: %v", err)
			}
			return d
		})
		if mustCanon(plain) != same {
			t.Fail("strings", "EncryptStrings gives %s", clips(plain))
		}
		v, _ = ref.ParseOne([]byte(obj))
		back := encrypt.DecryptStrings([]byte(gen.Format(v, func(s []byte) []byte { return k.EncString(s, n, g) })), n, g, enc)
		t.Step(1)
		if v, err := ref.ParseOne(back); err != nil || semantic(v) != same {
			t.Fail("strings", "DecryptStrings gives %q (%v)", clipb(back), err)
		}
		t.State(fmt.Sprint(i))
		t.Outcome(cfgs[i%len(cfgs)].name)
	})
}

// runCryptGuess tries every password of up to two characters: none but the document's own opens
// it. A check of the password that is only a weak one (a padding byte, a truncated comparison)
// accepts some of them.
func runCryptGuess(c *core.Ctx) {
	const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ."
	guesses := []string{""}
	for _, a := range alphabet {
		guesses = append(guesses, string(a))
		for _, b := range alphabet {
			guesses = append(guesses, string(a)+string(b))
		}
	}
	cfgs := cryptCfgs()
	owners := []string{"Zz", "an owner password"}
	n := (len(cfgs) + 1) * len(owners)
	c.ForEach("guess", n, func(i int) string {
		if j := i / len(owners); j < len(cfgs) {
			return fmt.Sprintf("%s/%d", cfgs[j].name, i%len(owners))
		}
		return fmt.Sprintf("aes256/%d", i%len(owners))
	}, func(t *core.T, i int) {
		owner := owners[i%len(owners)]
		var pdf []byte
		if j := i / len(owners); j < len(cfgs) {
			pdf, _ = cryptFile(cfgs[j].make([]byte("aB"), []byte(owner), -44, cryptID), "")
		} else {
			w := write.NewPDFWriter()
			if _, err := w.SetupEncryptionWithPasswords([]byte("aB"), []byte(owner), -44, true); err != nil {
				t.Fail("setup", "SetupEncryptionWithPasswords: %v", err)
				return
			}
			w.SetRoot(w.AddObject([]byte("<</Type/Catalog/Pages 9 0 R/L(PLAIN)>>")))
			b, err := w.Bytes()
			if err != nil {
				t.Fail("bytes", "Bytes: %v", err)
				return
			}
			pdf = b
		}
		t.Attach("encrypted.pdf", pdf)
		id := encrypt.ExtractFileID(pdf, false)
		opened := 0
		parsed, err := encrypt.ParseEncryptionDictionary(pdf, false)
		if err != nil {
			t.Fail("encdict", "ParseEncryptionDictionary: %v", err)
			return
		}
		for _, g := range guesses {
			dict := *parsed
			enc := &dict
			err = encrypt.Authenticate([]byte(g), enc, id, false)
			t.Step(1)
			if right := g == "aB" || g == owner; right != (err == nil) {
				t.Fail("guess", "password %q for a document of %q and %q: %v", g, "aB", owner, err)
				return
			}
			if err == nil {
				opened++
			} else if len(enc.EncryptKey) > 0 && enc.R >= 5 {
				t.Fail("key", "rejected password %q leaves a key", g)
			}
		}
		t.State(fmt.Sprint(i, opened))
		t.Outcome(fmt.Sprint("opened by ", opened, " of ", len(guesses)))
	})
}

func checkEncrypted(t *core.T, pdf []byte, want map[int]string, user, owner string) {
	t.Attach("encrypted.pdf", pdf)
	t.State(string(pdf))
	in := append([]byte(nil), pdf...)
	right := []string{user}
	if owner != "" && owner != user {
		right = append(right, owner)
	}
	for _, pw := range right {
		for _, perfect := range []bool{false, true} {
			tag := fmt.Sprintf("open(%.6q,%v)", pw, perfect)
			p, err := parse.OpenWithOptions(pdf, parse.ParseOptions{Password: []byte(pw), BytePerfect: perfect})
			t.Step(1)
			if err != nil {
				t.Fail(tag, "%v", err)
				continue
			}
			if !p.IsEncrypted() {
				t.Fail(tag+":flag", "IsEncrypted is false")
			}
			compareObjects(t, tag, p, want, nil)
			if perfect && !bytes.Equal(p.Bytes(), pdf) {
				t.Fail(tag+":bytes", "byte-perfect reconstruction differs")
			}
		}
		_, enc, err := encrypt.DecryptPDF(pdf, []byte(pw), false)
		t.Step(1)
		if err != nil {
			t.Fail("decryptpdf", "DecryptPDF: %v", err)
		} else {
			for _, n := range []int{1, 4, 5, 20, 25} {
				b, err := parse.GetObject(pdf, n, enc, false)
				t.Step(1)
				if err != nil {
					t.Fail("getobject", "GetObject(%d): %v", n, err)
					continue
				}
				if o, err := value(b, n); err != nil || semantic(o) != want[n] {
					t.Fail("getobject", "GetObject(%d) reads %q (%v), want %s", n, clipb(b), err, want[n])
				}
			}
		}
		doc, err := extract.ExtractContent(pdf, []byte(pw), false)
		t.Step(1)
		if err != nil {
			t.Fail("extract", "ExtractContent: %v", err)
		} else {
			var text []string
			for _, pg := range doc.Pages {
				for _, e := range pg.Text {
					text = append(text, e.Text)
				}
			}
			if strings.Join(text, "|") != "Secret" || doc.Metadata == nil || doc.Metadata.Title != "The title" || doc.Metadata.Author != "é" {
				t.Fail("extract", "text %q metadata %+v", text, doc.Metadata)
			}
		}
		t.Outcome("opened")
	}
	for _, pw := range wrongPws(user, owner) {
		for _, perfect := range []bool{false, true} {
			if _, err := parse.OpenWithOptions(pdf, parse.ParseOptions{Password: []byte(pw), BytePerfect: perfect}); err == nil {
				t.Fail("wrong", "password %q opens a document of %q and %q (byte-perfect %v)", pw, user, owner, perfect)
			}
			t.Step(1)
		}
		if _, _, err := encrypt.DecryptPDF(pdf, []byte(pw), false); err == nil {
			t.Fail("wrong", "DecryptPDF accepts %q for a document of %q and %q", pw, user, owner)
		}
		if _, err := extract.ExtractContent(pdf, []byte(pw), false); err == nil {
			t.Fail("wrong", "ExtractContent accepts %q for a document of %q and %q", pw, user, owner)
		}
		t.Step(2)
		t.Outcome("rejected")
	}
	if !bytes.Equal(in, pdf) {
		t.Fail("mutated", "the input was modified")
	}
}

// --- writing ---------------------------------------------------------------

type cwop struct {
	name string
	do   func(w *write.PDFWriter, want map[int]string)
}

func cryptOps() []cwop {
	add := func(c string) cwop {
		return cwop{"add" + c, func(w *write.PDFWriter, want map[int]string) { want[w.AddObject([]byte(c))] = mustCanon(c) }}
	}
	str := func(dict write.Dictionary, wd, data string, comp bool) cwop {
		return cwop{fmt.Sprintf("stream%s%.8q%v", wd, data, comp), func(w *write.PDFWriter, want map[int]string) {
			want[w.AddStreamObject(dict, []byte(data), comp)] = streamSem(wd, data)
		}}
	}
	return []cwop{
		add("<</S(PLAINSTR)/A[(x)<00ff>(\\)\\\\\\101)]/N/Name/R 1 0 R/I 5>>"),
		add("()"),
		add("[1 2 % (comment)\n null]"),
		str(write.Dictionary{"S": "PLAINSTR", "B": []byte{1, 2}}, "<</S(PLAINSTR)/B<0102>>>", "PLAINDATA in a stream", false),
		str(write.Dictionary{}, "<<>>", strings.Repeat("PLAINDATA", 9), true),
		str(write.Dictionary{}, "<<>>", "", false),
		{"metadata", func(w *write.PDFWriter, want map[int]string) {
			want[w.AddStreamObject(write.Dictionary{"Type": "/Metadata", "Subtype": "/XML"}, []byte("<x/>"), false)] = streamSem("<</Type/Metadata/Subtype/XML>>", "<x/>")
		}},
		{"rawstream", func(w *write.PDFWriter, want map[int]string) {
			d := "PLAINDATA endstream-like\nendobj"
			want[w.AddObject([]byte(fmt.Sprintf("<</T(PLAINSTR)/Length %d>>\nstream\n%s\nendstream", len(d), d)))] = streamSem("<</T(PLAINSTR)>>", d)
		}},
		{"set300", func(w *write.PDFWriter, want map[int]string) {
			w.SetObject(300, []byte("[(PLAINSTR)]"))
			want[300] = mustCanon("[(PLAINSTR)]")
		}},
		{"info", func(w *write.PDFWriter, want map[int]string) {
			n := w.SetMetadata(&types.DocumentMetadata{Title: "PLAINSTR", ModDate: "D:20240101000000Z"})
			want[n] = mustCanon("<</Title(PLAINSTR)/ModDate(D:20240101000000Z)>>")
		}},
	}
}

type cryptSetup struct {
	name   string
	early  bool
	noMeta bool
	cfg    *cryptCfg // nil: AES-256
}

func runCryptWrite(c *core.Ctx) {
	ops := cryptOps()
	var seqs [][]int
	for i := range ops {
		seqs = append(seqs, []int{i})
		for j := range ops {
			seqs = append(seqs, []int{i, j})
			if c.Thorough() {
				for k := range ops {
					seqs = append(seqs, []int{i, j, k})
				}
			}
		}
	}
	var setups []cryptSetup
	for _, e := range []bool{false, true} {
		setups = append(setups, cryptSetup{name: "aes256", early: e}, cryptSetup{name: "aes256-nometa", early: e, noMeta: true})
	}
	for _, g := range cryptCfgs() {
		if g.name == "v1r2" || g.name == "v2r3-40" || g.name == "v2r3-128" || g.v == 4 {
			g := g
			setups = append(setups, cryptSetup{name: g.name, cfg: &g, noMeta: g.noMeta})
		}
	}
	pws := [][2]string{{"", "owner"}, {"user", "owner"}, {"same", "same"}, {"\xe9\xff(\\", "12345678901234567890123456789012"}}
	lay := []string{"table", "xref", "objstm"}
	n := len(seqs) * len(setups) * len(pws) * len(lay)
	c.ForEach("write", n, func(i int) string {
		s := seqs[i%len(seqs)]
		j := i / len(seqs)
		return fmt.Sprintf("%s,%v/pw%d/%s/%v", setups[j%len(setups)].name, setups[j%len(setups)].early, j/len(setups)%len(pws), lay[j/len(setups)/len(pws)], s)
	}, func(t *core.T, i int) {
		s := seqs[i%len(seqs)]
		j := i / len(seqs)
		cryptWriteCase(t, ops, s, setups[j%len(setups)], pws[j/len(setups)%len(pws)], lay[j/len(setups)/len(pws)])
	})
}

func cryptWriteCase(t *core.T, ops []cwop, seq []int, st cryptSetup, pw [2]string, layout string) {
	w := write.NewPDFWriter()
	switch layout {
	case "xref":
		w.UseXRefStream(true)
	case "objstm":
		w.UseXRefStream(true)
		w.UseObjectStream(true)
	}
	want := map[int]string{}
	var k *gen.Crypt
	encNum := 0
	setup := func() {
		if st.cfg == nil {
			n, err := w.SetupEncryptionWithPasswords([]byte(pw[0]), []byte(pw[1]), -44, !st.noMeta)
			if err != nil {
				t.Fail("setup", "SetupEncryptionWithPasswords: %v", err)
			}
			encNum = n
			return
		}
		k = st.cfg.make([]byte(pw[0]), []byte(pw[1]), -44, cryptID)
		encNum = w.AddObject([]byte(k.Dict()))
		m := "V2"
		if k.AES {
			m = "AESV2"
		}
		sm, tm := m, m
		if k.StmF == "Identity" {
			sm = "None"
		}
		if k.StrF == "Identity" {
			tm = "None"
		}
		w.SetEncryption(&types.PDFEncryption{Version: k.V, V: k.V, R: k.R, Revision: k.R, KeyLength: k.Bytes, Filter: "Standard",
			O: k.O, U: k.U, P: k.P, EncryptMetadata: !st.noMeta, EncryptKey: k.Key, StreamMethod: sm, StringMethod: tm, DictObjNum: encNum}, cryptID)
		w.SetEncryptRef(encNum)
	}
	if st.early {
		setup()
	}
	for _, o := range seq {
		ops[o].do(w, want)
	}
	if !st.early {
		setup()
	}
	cat := w.AddObject([]byte("<</Type/Catalog/Pages 200 0 R/L(PLAINSTR)>>"))
	want[cat] = mustCanon("<</Type/Catalog/Pages 200 0 R/L(PLAINSTR)>>")
	w.SetRoot(cat)
	b, err := w.Bytes()
	t.Step(1)
	if err != nil {
		t.Fail("bytes", "Bytes: %v", err)
		return
	}
	t.Attach("written.pdf", b)
	t.State(fmt.Sprint(st.name, layout, seq))
	clearStm, clearStr := k != nil && k.StmF == "Identity", k != nil && k.StrF == "Identity"
	if bytes.Contains(b, []byte("PLAINSTR")) && !clearStr && !(clearStm && layout == "objstm") {
		t.Fail("leak", "the output contains a string in clear")
	}
	if bytes.Contains(b, []byte("PLAINDATA")) && !clearStm {
		t.Fail("leak", "the output contains stream data in clear")
	}
	f, err := ref.Open(b)
	if err != nil {
		t.Fail("strict", "the output is not valid: %v", err)
		return
	}
	eo, found, err := f.Get(encNum)
	if err != nil || !found {
		t.Fail("encdict", "no encryption dictionary: %v", err)
		return
	}
	want[encNum] = semantic(eo)
	// decrypt independently
	dec := func(d []byte, n, g int) ([]byte, error) { return k.Dec(d, n, g) }
	if k == nil {
		_, enc, err := encrypt.DecryptPDF(b, []byte(pw[0]), false)
		if err != nil || len(enc.EncryptKey) != 32 {
			t.Fail("key", "no 256-bit key: %v", err)
			return
		}
		v5 := &gen.Crypt{V: 5, R: 5, Bytes: 32, AES: true, Key: enc.EncryptKey}
		dec = v5.Dec
	}
	f.Decrypt = func(d []byte, n, g int, stream ref.Dict) ([]byte, error) {
		if n == encNum || stream == nil && clearStr || stream != nil && (clearStm || st.noMeta && stream["Type"] == ref.Name("Metadata")) {
			return d, nil
		}
		return dec(d, n, g)
	}
	if err := f.CheckAll(); err != nil {
		t.Fail("strict", "the output is not valid: %v", err)
		return
	}
	for n, wv := range want {
		o, found, err := f.Get(n)
		if err != nil || !found {
			t.Fail("cipher", "object %d does not decrypt: %v %v", n, found, err)
			continue
		}
		if got := semantic(o); got != wv {
			t.Fail("cipher", "object %d decrypts independently to %s, want %s", n, clips(got), clips(wv))
		}
	}
	// open with both passwords, reject others
	for _, p := range []string{pw[0], pw[1]} {
		for _, perfect := range []bool{false, true} {
			d, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: []byte(p), BytePerfect: perfect})
			t.Step(1)
			if err != nil {
				t.Fail("open", "password %q: %v", p, err)
				continue
			}
			compareObjects(t, "back", d, want, nil)
		}
	}
	for _, p := range wrongPws(pw[0], pw[1]) {
		if _, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: []byte(p)}); err == nil {
			t.Fail("wrong", "password %q opens a document of %q", p, pw)
		}
		t.Step(1)
	}
	t.Outcome(fmt.Sprint(st.name, layout, len(seq)))
}

// --- rewriting an encrypted document ---------------------------------------

func runCryptRebuild(c *core.Ctx) {
	cfgs := cryptCfgs()
	lays := []string{"", "s", "d", "u", "su"}
	c.ForEach("rebuild", len(cfgs)*len(lays)*2, func(i int) string {
		return fmt.Sprintf("%s/%s/%d", cfgs[i%len(cfgs)].name, lays[i/len(cfgs)%len(lays)], i/len(cfgs)/len(lays))
	}, func(t *core.T, i int) {
		k := cfgs[i%len(cfgs)].make([]byte("user"), []byte("owner"), -44, cryptID)
		pdf, want := cryptFile(k, lays[i/len(cfgs)%len(lays)])
		t.Attach("encrypted.pdf", pdf)
		pw := []string{"user", "owner"}[i/len(cfgs)/len(lays)]
		m, err := manipulate.NewPDFManipulator(pdf, []byte(pw), false)
		t.Step(1)
		if err != nil {
			t.Fail("manipulator", "%v", err)
			return
		}
		if err := m.RotatePage(1, 90); err != nil {
			t.Fail("rotate", "%v", err)
			return
		}
		out, err := m.Rebuild()
		t.Step(1)
		if err != nil {
			t.Fail("rebuild", "%v", err)
			return
		}
		t.Attach("rebuilt.pdf", out)
		t.State(fmt.Sprint(i))
		p, err := parse.OpenWithOptions(out, parse.ParseOptions{Password: []byte("user")})
		if err != nil {
			t.Fail("reopen", "%v", err)
			return
		}
		if p2, err := parse.OpenWithOptions(out, parse.ParseOptions{Password: []byte("owner")}); err != nil || p2 == nil {
			t.Fail("reopen", "owner: %v", err)
		}
		for _, w := range []string{"", "wrong"} {
			if p.IsEncrypted() {
				if _, err := parse.OpenWithOptions(out, parse.ParseOptions{Password: []byte(w)}); err == nil {
					t.Fail("unprotected", "the rebuilt document opens with %q", w)
				}
			}
		}
		for n, w := range want {
			if n == 3 || n == 40 {
				continue
			}
			raw, err := p.GetObject(n)
			t.Step(1)
			if err != nil {
				t.Fail("lost", "object %d: %v", n, err)
				continue
			}
			o, err := value(raw, n)
			if err != nil || semantic(o) != w {
				t.Fail("value", "object %d reads %q (%v), want %s", n, clipb(raw), err, clips(w))
			}
		}
		doc, err := extract.ExtractContent(out, []byte("user"), false)
		if err != nil || len(doc.Pages) != 1 || doc.Pages[0].Rotation != 90 || len(doc.Pages[0].Text) != 1 || doc.Pages[0].Text[0].Text != "Secret" {
			t.Fail("content", "content of the rebuilt document: %v", err)
		}
		t.Outcome(fmt.Sprint(p.IsEncrypted()))
	})
}

// --- interoperability of AES-256 -------------------------------------------

func runCryptISO(c *core.Ctx) {
	names := []string{"write", "read-r5", "read-r6"}
	c.ForEach("iso", len(names), func(i int) string { return names[i] }, func(t *core.T, i int) {
		if i > 0 {
			k := gen.NewCrypt256(4+i, []byte("user"), []byte("owner"))
			enc := func(s []byte) []byte { return k.Enc(s) }
			objs := []gen.Obj{{Num: 1, Body: "<</Type/Catalog/Pages 2 0 R>>"}, {Num: 2, Body: "<</Type/Pages/Kids[]/Count 0>>"},
				{Num: 3, Body: gen.Format(ref.Arr{ref.Str("secret")}, enc)}, {Num: 4, Body: k.Dict()}}
			b, _ := gen.Build("1.7", []gen.Rev{{Objs: objs, Trailer: fmt.Sprintf("/Root 1 0 R/Encrypt 4 0 R/ID[<%X><%X>]", cryptID, cryptID)}})
			t.Attach("aes256.pdf", b)
			for _, pw := range []string{"user", "owner"} {
				t.Step(1)
				p, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: []byte(pw)})
				if err != nil {
					t.Fail("open", "an AES-256 document does not open with its password %q: %v", pw, err)
					return
				}
				raw, err := p.GetObject(3)
				if o, err2 := value(raw, 3); err != nil || err2 != nil || semantic(o) != mustCanon("[(secret)]") {
					t.Fail("open", "an AES-256 document reads %q (%v)", raw, err)
				}
			}
			t.State("opened")
			return
		}
		w := write.NewPDFWriter()
		n, err := w.SetupEncryptionWithPasswords([]byte("user"), []byte("owner"), -44, true)
		w.SetRoot(w.AddObject([]byte("<</Type/Catalog/Pages 9 0 R/L(secret)>>")))
		b, err2 := w.Bytes()
		if err != nil || err2 != nil {
			t.Fail("write", "%v %v", err, err2)
			return
		}
		t.Attach("written.pdf", b)
		f, err := ref.Open(b)
		if err != nil {
			t.Fail("strict", "%v", err)
			return
		}
		o, _, _ := f.Get(n)
		d, _ := o.(ref.Dict)
		r, _ := ref.Int(d["R"])
		u, _ := d["U"].(ref.Str)
		ue, _ := d["UE"].(ref.Str)
		t.Step(1)
		t.State(fmt.Sprint(r))
		if gen.Open256(r, []byte("user"), u, ue) == nil || d["StmF"] == nil || d["StrF"] == nil {
			t.Fail("standard", "the encryption dictionary of an AES-256 document is not that of the standard handler: no conforming reader can open it")
		}
	})
}
