// Package ref is a small, strict and independent PDF object/file reader. It is
// the oracle of the checks in /verif: nothing in it is taken from pdfer.
package ref

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Name string
type Str []byte
type Num string // source text of a number
type Ref struct{ N, G int }
type Arr []Obj
type Dict map[Name]Obj
type Stream struct {
	D   Dict
	Raw []byte
}
type Keyword string
type Obj interface{}

// Lexer over a byte slice.
type Lex struct {
	B   []byte
	P   int
	Max int // nesting bound
}

func NewLex(b []byte, p int) *Lex { return &Lex{B: b, P: p, Max: 200} }

func IsWS(c byte) bool {
	return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32
}
func IsDelim(c byte) bool { return strings.IndexByte("()<>[]{}/%", c) >= 0 }

func (l *Lex) SkipWS() {
	for l.P < len(l.B) {
		c := l.B[l.P]
		if IsWS(c) {
			l.P++
		} else if c == '%' {
			for l.P < len(l.B) && l.B[l.P] != '\n' && l.B[l.P] != '\r' {
				l.P++
			}
		} else {
			return
		}
	}
}

func (l *Lex) word() string {
	s := l.P
	for l.P < len(l.B) && !IsWS(l.B[l.P]) && !IsDelim(l.B[l.P]) {
		l.P++
	}
	return string(l.B[s:l.P])
}

func isNum(s string) bool {
	if s == "" {
		return false
	}
	i, d, dots := 0, 0, 0
	if s[0] == '+' || s[0] == '-' {
		i = 1
	}
	for ; i < len(s); i++ {
		switch {
		case s[i] >= '0' && s[i] <= '9':
			d++
		case s[i] == '.':
			dots++
		default:
			return false
		}
	}
	return d > 0 && dots <= 1
}

func isUint(s string) bool {
	if s == "" || len(s) > 10 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// Next parses one object (references are recognised).
func (l *Lex) Next() (Obj, error) { return l.next(0) }

func (l *Lex) next(depth int) (Obj, error) {
	if depth > l.Max {
		return nil, fmt.Errorf("nesting too deep")
	}
	l.SkipWS()
	if l.P >= len(l.B) {
		return nil, fmt.Errorf("unexpected end at %d", l.P)
	}
	c := l.B[l.P]
	switch {
	case c == '/':
		return l.name()
	case c == '(':
		return l.str()
	case c == '<':
		if l.P+1 < len(l.B) && l.B[l.P+1] == '<' {
			l.P += 2
			d := Dict{}
			for {
				l.SkipWS()
				if l.P+1 < len(l.B) && l.B[l.P] == '>' && l.B[l.P+1] == '>' {
					l.P += 2
					return d, nil
				}
				if l.P >= len(l.B) || l.B[l.P] != '/' {
					return nil, fmt.Errorf("dict key expected at %d", l.P)
				}
				k, err := l.name()
				if err != nil {
					return nil, err
				}
				v, err := l.next(depth + 1)
				if err != nil {
					return nil, err
				}
				if _, isKw := v.(Keyword); isKw {
					return nil, fmt.Errorf("bad value %v for key %s at %d", v, k, l.P)
				}
				if _, dup := d[k]; dup {
					return nil, fmt.Errorf("duplicate key %s", k)
				}
				d[k] = v
			}
		}
		return l.hex()
	case c == '[':
		l.P++
		a := Arr{}
		for {
			l.SkipWS()
			if l.P < len(l.B) && l.B[l.P] == ']' {
				l.P++
				return a, nil
			}
			v, err := l.next(depth + 1)
			if err != nil {
				return nil, err
			}
			if _, isKw := v.(Keyword); isKw {
				return nil, fmt.Errorf("bad array element %v at %d", v, l.P)
			}
			a = append(a, v)
		}
	case c == ')' || c == '>' || c == ']' || c == '{' || c == '}':
		return nil, fmt.Errorf("unexpected %q at %d", c, l.P)
	}
	w := l.word()
	if isNum(w) {
		if isUint(w) {
			save := l.P
			l.SkipWS()
			w2 := l.word()
			if isUint(w2) && l.P > save {
				l.SkipWS()
				w3 := l.word()
				if w3 == "R" {
					n, _ := strconv.Atoi(w)
					g, _ := strconv.Atoi(w2)
					return Ref{n, g}, nil
				}
			}
			l.P = save
		}
		return Num(w), nil
	}
	switch w {
	case "true":
		return true, nil
	case "false":
		return false, nil
	case "null":
		return nil, nil
	}
	return Keyword(w), nil
}

func (l *Lex) name() (Name, error) {
	l.P++
	var out []byte
	for l.P < len(l.B) && !IsWS(l.B[l.P]) && !IsDelim(l.B[l.P]) {
		c := l.B[l.P]
		if c == '#' && l.P+2 < len(l.B) && hv(l.B[l.P+1]) >= 0 && hv(l.B[l.P+2]) >= 0 {
			out = append(out, byte(hv(l.B[l.P+1])<<4|hv(l.B[l.P+2])))
			l.P += 3
			continue
		}
		out = append(out, c)
		l.P++
	}
	return Name(out), nil
}

func hv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (l *Lex) hex() (Str, error) {
	l.P++
	var ds []int
	for {
		if l.P >= len(l.B) {
			return nil, fmt.Errorf("unterminated hex string")
		}
		c := l.B[l.P]
		l.P++
		if c == '>' {
			break
		}
		if IsWS(c) {
			continue
		}
		v := hv(c)
		if v < 0 {
			return nil, fmt.Errorf("bad hex digit %q", c)
		}
		ds = append(ds, v)
	}
	if len(ds)%2 == 1 {
		ds = append(ds, 0)
	}
	out := Str{}
	for i := 0; i < len(ds); i += 2 {
		out = append(out, byte(ds[i]<<4|ds[i+1]))
	}
	return out, nil
}

func (l *Lex) str() (Str, error) {
	l.P++
	out := Str{}
	depth := 1
	for {
		if l.P >= len(l.B) {
			return nil, fmt.Errorf("unterminated string")
		}
		c := l.B[l.P]
		l.P++
		switch c {
		case '(':
			depth++
			out = append(out, c)
		case ')':
			depth--
			if depth == 0 {
				return out, nil
			}
			out = append(out, c)
		case '\r':
			if l.P < len(l.B) && l.B[l.P] == '\n' {
				l.P++
			}
			out = append(out, '\n')
		case '\\':
			if l.P >= len(l.B) {
				return nil, fmt.Errorf("unterminated string")
			}
			e := l.B[l.P]
			l.P++
			switch e {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case '\n':
			case '\r':
				if l.P < len(l.B) && l.B[l.P] == '\n' {
					l.P++
				}
			default:
				if e >= '0' && e <= '7' {
					v := int(e - '0')
					for k := 0; k < 2 && l.P < len(l.B) && l.B[l.P] >= '0' && l.B[l.P] <= '7'; k++ {
						v = v*8 + int(l.B[l.P]-'0')
						l.P++
					}
					out = append(out, byte(v))
				} else {
					out = append(out, e)
				}
			}
		default:
			out = append(out, c)
		}
	}
}

// ParseOne parses a complete buffer as one object, nothing but white space after it.
func ParseOne(b []byte) (Obj, error) {
	l := NewLex(b, 0)
	o, err := l.Next()
	if err != nil {
		return nil, err
	}
	if k, ok := o.(Keyword); ok {
		return nil, fmt.Errorf("unexpected keyword %q", string(k))
	}
	l.SkipWS()
	if l.P != len(b) {
		return nil, fmt.Errorf("trailing data %q", clip(b[l.P:]))
	}
	return o, nil
}

func clip(b []byte) string {
	if len(b) > 40 {
		b = b[:40]
	}
	return string(b)
}

// Canon gives a canonical text of an object; two objects are the same PDF value iff
// their canonical texts are equal. Numbers compare numerically.
func Canon(o Obj) string {
	var sb strings.Builder
	canon(&sb, o)
	return sb.String()
}

func canon(sb *strings.Builder, o Obj) {
	switch v := o.(type) {
	case nil:
		sb.WriteString("null")
	case bool:
		fmt.Fprintf(sb, "%v", v)
	case Num:
		f, err := strconv.ParseFloat(string(v), 64)
		if err != nil {
			sb.WriteString("num?" + string(v))
		} else {
			sb.WriteString(strconv.FormatFloat(f, 'g', -1, 64))
		}
	case Name:
		fmt.Fprintf(sb, "/%q", string(v))
	case Str:
		fmt.Fprintf(sb, "(%q)", string(v))
	case Ref:
		fmt.Fprintf(sb, "%d %d R", v.N, v.G)
	case Arr:
		sb.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				sb.WriteByte(' ')
			}
			canon(sb, e)
		}
		sb.WriteByte(']')
	case Dict:
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, string(k))
		}
		sort.Strings(ks)
		sb.WriteString("<<")
		for _, k := range ks {
			fmt.Fprintf(sb, "/%q ", k)
			canon(sb, v[Name(k)])
			sb.WriteByte(' ')
		}
		sb.WriteString(">>")
	case *Stream:
		canon(sb, v.D)
		fmt.Fprintf(sb, "stream%d:%q", len(v.Raw), string(v.Raw))
	case Keyword:
		fmt.Fprintf(sb, "kw:%s", string(v))
	default:
		fmt.Fprintf(sb, "?%T", o)
	}
}

// Int returns an integer object value.
func Int(o Obj) (int, bool) {
	n, ok := o.(Num)
	if !ok {
		return 0, false
	}
	i, err := strconv.Atoi(string(n))
	if err != nil {
		f, err2 := strconv.ParseFloat(string(n), 64)
		if err2 != nil || f != float64(int(f)) {
			return 0, false
		}
		return int(f), true
	}
	return i, true
}

// Float returns a numeric object value.
func Float(o Obj) (float64, bool) {
	n, ok := o.(Num)
	if !ok {
		return 0, false
	}
	f, err := strconv.ParseFloat(string(n), 64)
	return f, err == nil
}

var _ = bytes.Equal
