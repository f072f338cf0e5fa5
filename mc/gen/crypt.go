package gen

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
	"fmt"
	"strings"

	"verifmc/ref"
)

// Crypt is the standard security handler of ISO 32000-1 7.6, revisions 2 to 4.
type Crypt struct {
	V, R, Bytes int
	AES         bool
	P           int32
	ID          []byte
	EncMeta     bool
	O, U, Key   []byte
	StmF, StrF  string // crypt filter names of V4 (default StdCF)
	Direct      bool
	Extra       string // more entries of the dictionary
}

var padding = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

func pad(pw []byte) []byte { return append(append([]byte{}, pw...), padding...)[:32] }

func rc(key, d []byte) []byte {
	c, _ := rc4.NewCipher(key)
	out := make([]byte, len(d))
	c.XORKeyStream(out, d)
	return out
}

func xorKey(k []byte, i int) []byte {
	o := make([]byte, len(k))
	for j := range k {
		o[j] = k[j] ^ byte(i)
	}
	return o
}

// NewCrypt derives O, U and the file key.
func NewCrypt(v, r, n int, aesv2 bool, user, owner []byte, p int32, id []byte) *Crypt {
	return NewCryptMeta(v, r, n, aesv2, user, owner, p, id, true)
}

// NewCryptMeta is NewCrypt with a choice for /EncryptMetadata.
func NewCryptMeta(v, r, n int, aesv2 bool, user, owner []byte, p int32, id []byte, encMeta bool) *Crypt {
	c := &Crypt{V: v, R: r, Bytes: n, AES: aesv2, P: p, ID: id, EncMeta: encMeta}
	if v == 1 {
		c.Bytes = 5
	}
	if len(owner) == 0 {
		owner = user
	}
	h := md5.Sum(pad(owner))
	ok := h[:]
	if r >= 3 {
		for i := 0; i < 50; i++ {
			x := md5.Sum(ok)
			ok = x[:]
		}
	}
	ok = ok[:c.Bytes]
	c.O = rc(ok, pad(user))
	if r >= 3 {
		for i := 1; i <= 19; i++ {
			c.O = rc(xorKey(ok, i), c.O)
		}
	}
	m := md5.New()
	m.Write(pad(user))
	m.Write(c.O)
	m.Write([]byte{byte(p), byte(p >> 8), byte(p >> 16), byte(p >> 24)})
	m.Write(id)
	if r >= 4 && !encMeta {
		m.Write([]byte{0xff, 0xff, 0xff, 0xff})
	}
	k := m.Sum(nil)
	if r >= 3 {
		for i := 0; i < 50; i++ {
			x := md5.Sum(k[:c.Bytes])
			k = x[:]
		}
	}
	c.Key = append([]byte{}, k[:c.Bytes]...)
	if r == 2 {
		c.U = rc(c.Key, padding)
	} else {
		m := md5.New()
		m.Write(padding)
		m.Write(id)
		u := rc(c.Key, m.Sum(nil))
		for i := 1; i <= 19; i++ {
			u = rc(xorKey(c.Key, i), u)
		}
		c.U = append(u, make([]byte, 16)...)
	}
	return c
}

// EncStream encrypts stream data with the filter for streams.
func (c *Crypt) EncStream(d []byte, n, g int) []byte {
	if c.StmF == "Identity" {
		return d
	}
	return c.Enc(d, n, g)
}

// EncString encrypts a string with the filter for strings.
func (c *Crypt) EncString(d []byte, n, g int) []byte {
	if c.StrF == "Identity" {
		return d
	}
	return c.Enc(d, n, g)
}

// Dec is the inverse of Enc.
func (c *Crypt) Dec(d []byte, n, g int) ([]byte, error) {
	if !c.AES {
		return c.Enc(d, n, g), nil
	}
	if len(d) == 0 {
		return d, nil
	}
	if len(d)%16 != 0 || len(d) < 32 {
		return nil, fmt.Errorf("%d bytes of AES data", len(d))
	}
	k := append(append([]byte{}, c.Key...), byte(n), byte(n>>8), byte(n>>16), byte(g), byte(g>>8), 0x73, 0x41, 0x6C, 0x54)
	h := md5.Sum(k)
	b, _ := aes.NewCipher(h[:min(16, c.Bytes+5)])
	out := make([]byte, len(d)-16)
	cipher.NewCBCDecrypter(b, d[:16]).CryptBlocks(out, d[16:])
	p := int(out[len(out)-1])
	if p < 1 || p > 16 || !bytes.Equal(out[len(out)-p:], bytes.Repeat([]byte{byte(p)}, p)) {
		return nil, fmt.Errorf("bad padding")
	}
	return out[:len(out)-p], nil
}

// Enc encrypts a string or stream of object n g.
func (c *Crypt) Enc(d []byte, n, g int) []byte {
	k := append(append([]byte{}, c.Key...), byte(n), byte(n>>8), byte(n>>16), byte(g), byte(g>>8))
	if c.AES {
		k = append(k, 0x73, 0x41, 0x6C, 0x54)
	}
	h := md5.Sum(k)
	key := h[:min(16, c.Bytes+5)]
	if !c.AES {
		return rc(key, d)
	}
	iv := md5.Sum([]byte(fmt.Sprintf("iv %d %d %d", n, g, len(d))))
	p := 16 - len(d)%16
	d = append(append([]byte{}, d...), bytes.Repeat([]byte{byte(p)}, p)...)
	b, _ := aes.NewCipher(key)
	out := make([]byte, len(d))
	cipher.NewCBCEncrypter(b, iv[:]).CryptBlocks(out, d)
	return append(iv[:], out...)
}

// Dict is the encryption dictionary.
func (c *Crypt) Dict() string {
	s := fmt.Sprintf("<</Filter/Standard/V %d/R %d/O%s/U%s/P %d", c.V, c.R, strForm(c.O), strForm(c.U), c.P)
	if c.V > 1 {
		s += fmt.Sprintf("/Length %d", c.Bytes*8)
	}
	if c.V == 4 {
		m := "V2"
		if c.AES {
			m = "AESV2"
		}
		name := func(s string) string {
			if s == "" {
				return "StdCF"
			}
			return s
		}
		s += fmt.Sprintf("/CF<</StdCF<</CFM/%s/AuthEvent/DocOpen/Length %d>>>>/StmF/%s/StrF/%s", m, c.Bytes, name(c.StmF), name(c.StrF))
		if !c.EncMeta {
			s += "/EncryptMetadata false"
		}
	}
	s += c.Extra
	return s + ">>"
}

// EscStr writes a string with every kind of escape: the named ones, short octal codes,
// backslashes that mean nothing, continued lines and line ends.
func EscStr(b []byte, shift int) string {
	bal, depth := true, 0
	for _, c := range b {
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
		}
		bal = bal && depth >= 0
	}
	bal = bal && depth == 0
	named := map[byte]string{'\n': "\\n", '\r': "\\r", '\t': "\\t", '\b': "\\b", '\f': "\\f"}
	var sb strings.Builder
	sb.WriteByte('(')
	for i, c := range b {
		how := (i + shift) % 6
		digit := i+1 < len(b) && b[i+1] >= '0' && b[i+1] <= '7'
		switch {
		case c == '\n' && how < 4:
			if i+1 < len(b) && b[i+1] == '\n' && how == 1 {
				how = 0 // a raw CR before a raw LF would be one line end
			}
			sb.WriteString([]string{"\\n", "\r", "\r\n", "\n"}[how])
		case c == '(' || c == ')':
			if !bal || shift%2 == 0 {
				sb.WriteByte('\\')
			}
			sb.WriteByte(c)
		case c == '\\':
			sb.WriteString("\\\\")
		case named[c] != "":
			sb.WriteString(named[c])
		case how == 0 && c > ' ' && c < 0x7f && strings.IndexByte("nrtbf01234567", c) < 0:
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case how == 1 && !digit && c < 0o100:
			fmt.Fprintf(&sb, "\\%o", c)
		case how == 2 && c != '\n':
			sb.WriteString("\\" + []string{"\r\n", "\n", "\r"}[i/6%3])
			sb.WriteByte(c)
		case how == 3:
			fmt.Fprintf(&sb, "\\%03o", c)
		default:
			sb.WriteByte(c)
		}
	}
	return sb.String() + ")"
}

// strForm writes a string in one of its forms, chosen by its content.
func strForm(b []byte) string {
	h := len(b)
	for _, c := range b {
		h += int(c)
	}
	switch h % 5 {
	case 0:
		return fmt.Sprintf("<%X>", b)
	case 1:
		return fmt.Sprintf("<%x>", b)
	case 2:
		return "< " + strings.ReplaceAll(fmt.Sprintf("% x", b), " ", "\n") + ">"
	case 3: // as little escaped as possible
		return "(" + strings.NewReplacer("(", "\\(", ")", "\\)", "\\", "\\\\", "\r", "\\r").Replace(string(b)) + ")"
	}
	return EscStr(b, h/5)
}

// Format writes a value as PDF text, passing every string through f.
func Format(o ref.Obj, f func([]byte) []byte) string {
	switch v := o.(type) {
	case ref.Str:
		return strForm(f(v))
	case ref.Name:
		var b strings.Builder
		b.WriteByte('/')
		for i := 0; i < len(v); i++ {
			ch := v[i]
			if ch <= ' ' || ch > '~' || ref.IsDelim(ch) || ch == '#' {
				fmt.Fprintf(&b, "#%02X", ch)
			} else {
				b.WriteByte(ch)
			}
		}
		return b.String()
	case ref.Arr:
		var p []string
		for _, x := range v {
			p = append(p, Format(x, f))
		}
		return "[" + strings.Join(p, " ") + "]"
	case ref.Dict:
		var ks []string
		for k := range v {
			ks = append(ks, string(k))
		}
		sortStrings(ks)
		var b strings.Builder
		b.WriteString("<<")
		for _, k := range ks {
			b.WriteString(Format(ref.Name(k), f) + " " + Format(v[ref.Name(k)], f))
		}
		return b.String() + ">>"
	case ref.Ref:
		return fmt.Sprintf("%d %d R", v.N, v.G)
	case ref.Num:
		return string(v)
	case nil:
		return "null"
	case bool:
		return fmt.Sprint(v)
	case ref.Keyword:
		return string(v)
	}
	panic(fmt.Sprintf("format %T", o))
}

// Encrypt encrypts the objects of a revision (not the one with number skip, nor compressed ones).
func (c *Crypt) Encrypt(objs []Obj, skip int) []Obj {
	var out []Obj
	for _, o := range objs {
		if o.Num != skip && !o.Compressed {
			n, g := o.Num, o.Gen
			v, err := ref.ParseOne([]byte(o.Body))
			if err != nil {
				panic(err)
			}
			o.Body = Format(v, func(s []byte) []byte { return c.EncString(s, n, g) })
			if d, ok := v.(ref.Dict); o.Stream && !(ok && !c.EncMeta && d["Type"] == ref.Name("Metadata")) {
				o.Data = string(c.EncStream([]byte(o.Data), n, g))
			}
		}
		out = append(out, o)
	}
	return out
}
