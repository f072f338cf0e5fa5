package ref

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// XML is a node of a document: an element (Name), a comment ("!"), a processing instruction
// or declaration ("?"), or text ("").
type XML struct {
	Name string
	Attr map[string]string
	Text string
	Kids []*XML
}

// ParseXML reads a well-formed document; character data is decoded, comments and
// processing instructions are kept, white space is kept.
func ParseXML(s string) (*XML, error) {
	root := &XML{Name: "#"}
	stack := []*XML{root}
	top := func() *XML { return stack[len(stack)-1] }
	text := func(t string) {
		if t == "" {
			return
		}
		k := top().Kids
		if len(k) > 0 && k[len(k)-1].Name == "" {
			k[len(k)-1].Text += t
			return
		}
		top().Kids = append(k, &XML{Text: t})
	}
	until := func(p int, end string) (string, int, error) {
		i := strings.Index(s[p:], end)
		if i < 0 {
			return "", 0, fmt.Errorf("no %q after %d", end, p)
		}
		return s[p : p+i], p + i + len(end), nil
	}
	for p := 0; p < len(s); {
		var body string
		var err error
		switch {
		case strings.HasPrefix(s[p:], "<!--"):
			if body, p, err = until(p+4, "-->"); err != nil {
				return nil, err
			}
			top().Kids = append(top().Kids, &XML{Name: "!", Text: body})
		case strings.HasPrefix(s[p:], "<![CDATA["):
			if body, p, err = until(p+9, "]]>"); err != nil {
				return nil, err
			}
			text(body)
		case strings.HasPrefix(s[p:], "<?"):
			if body, p, err = until(p+2, "?>"); err != nil {
				return nil, err
			}
			top().Kids = append(top().Kids, &XML{Name: "?", Text: body})
		case strings.HasPrefix(s[p:], "<!"):
			return nil, fmt.Errorf("declaration at %d", p)
		case strings.HasPrefix(s[p:], "</"):
			if body, p, err = until(p+2, ">"); err != nil {
				return nil, err
			}
			if n := strings.TrimRight(body, " \t\r\n"); n != top().Name {
				return nil, fmt.Errorf("</%s> closes <%s>", n, top().Name)
			}
			stack = stack[:len(stack)-1]
		case s[p] == '<':
			e := &XML{Attr: map[string]string{}}
			p++
			name := func() string {
				q := p
				for p < len(s) && strings.IndexByte(" \t\r\n/>=<'\"&", s[p]) < 0 {
					p++
				}
				return s[q:p]
			}
			ws := func() bool {
				q := p
				for p < len(s) && strings.IndexByte(" \t\r\n", s[p]) >= 0 {
					p++
				}
				return p > q
			}
			if e.Name = name(); e.Name == "" {
				return nil, fmt.Errorf("no element name at %d", p)
			}
			for {
				sep := ws()
				if strings.HasPrefix(s[p:], "/>") || strings.HasPrefix(s[p:], ">") {
					break
				}
				a := name()
				ws()
				if a == "" || !sep || p >= len(s) || s[p] != '=' {
					return nil, fmt.Errorf("bad attribute at %d", p)
				}
				p++
				ws()
				if p >= len(s) || s[p] != '"' && s[p] != '\'' {
					return nil, fmt.Errorf("no quotes at %d", p)
				}
				var v string
				if v, p, err = until(p+1, s[p:p+1]); err != nil {
					return nil, err
				}
				if _, dup := e.Attr[a]; dup || strings.Contains(v, "<") {
					return nil, fmt.Errorf("bad attribute %s", a)
				}
				v = strings.NewReplacer("\r\n", " ", "\r", " ", "\n", " ", "\t", " ").Replace(v)
				if e.Attr[a], err = unescape(v); err != nil {
					return nil, err
				}
			}
			top().Kids = append(top().Kids, e)
			if s[p] == '/' {
				p += 2
			} else {
				p++
				stack = append(stack, e)
			}
		default:
			i := strings.IndexByte(s[p:], '<')
			if i < 0 {
				i = len(s) - p
			}
			raw := s[p : p+i]
			if strings.Contains(raw, "]]>") {
				return nil, fmt.Errorf("]]> in text")
			}
			t, err := unescape(strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(raw))
			if err != nil {
				return nil, err
			}
			text(t)
			p += i
		}
	}
	if len(stack) != 1 {
		return nil, fmt.Errorf("<%s> is not closed", top().Name)
	}
	return root, nil
}

func unescape(s string) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 || !xmlChar(r) {
			return "", fmt.Errorf("character %q", s[i:i+n])
		}
		if r != '&' {
			b.WriteRune(r)
			i += n
			continue
		}
		e := strings.IndexByte(s[i:], ';')
		if e < 0 {
			return "", fmt.Errorf("bare & in %q", s)
		}
		ent := s[i+1 : i+e]
		i += e + 1
		switch {
		case strings.HasPrefix(ent, "#"):
			num, base := ent[1:], 10
			if strings.HasPrefix(num, "x") {
				num, base = num[1:], 16
			}
			v, err := strconv.ParseUint(num, base, 32)
			if err != nil || !xmlChar(rune(v)) {
				return "", fmt.Errorf("entity %s", ent)
			}
			b.WriteRune(rune(v))
		default:
			c, ok := map[string]string{"lt": "<", "gt": ">", "amp": "&", "quot": `"`, "apos": "'"}[ent]
			if !ok {
				return "", fmt.Errorf("entity %s", ent)
			}
			b.WriteString(c)
		}
	}
	return b.String(), nil
}

func xmlChar(r rune) bool {
	return r == '\t' || r == '\n' || r == '\r' || r >= 0x20 && r <= 0xd7ff || r >= 0xe000 && r <= 0xfffd || r >= 0x10000 && r <= 0x10ffff
}

// Local is the name of an element without its prefix.
func (x *XML) Local() string { return x.Name[strings.LastIndexByte(x.Name, ':')+1:] }

// String is the canonical text of a node.
func (x *XML) String() string {
	if x.Name == "" {
		return fmt.Sprintf("%q", x.Text)
	}
	if x.Name == "!" || x.Name == "?" {
		return fmt.Sprintf("<%s%q>", x.Name, x.Text)
	}
	var a []string
	for k, v := range x.Attr {
		a = append(a, fmt.Sprintf(" %s=%q", k, v))
	}
	sort.Strings(a)
	out := "<" + x.Name + strings.Join(a, "") + ">"
	for _, k := range x.Kids {
		out += k.String()
	}
	return out + "</>"
}
