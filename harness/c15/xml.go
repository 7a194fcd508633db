package c15

import "strings"

// node is an element of a document.
type node struct {
	name  string
	attrs [][2]string
	kids  []*node
	text  string   // all of it, without white space at the ends
	items []string // pieces of text, and "" for each child
}

func (n *node) attr(name string) string {
	for _, a := range n.attrs {
		if a[0] == name {
			return a[1]
		}
	}
	return ""
}

func (n *node) has(name string) bool {
	for _, a := range n.attrs {
		if a[0] == name {
			return true
		}
	}
	return false
}

// same compares names, attributes, text and children.
func same(a, b *node) bool {
	if a.name != b.name || a.text != b.text || len(a.attrs) != len(b.attrs) || len(a.kids) != len(b.kids) {
		return false
	}
	for _, x := range a.attrs {
		if !b.has(x[0]) || b.attr(x[0]) != x[1] {
			return false
		}
	}
	for i := range a.kids {
		if !same(a.kids[i], b.kids[i]) {
			return false
		}
	}
	return true
}

type parser struct {
	s   string
	i   int
	bad bool
}

func space(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }

func (p *parser) at(t string) bool { return strings.HasPrefix(p.s[p.i:], t) }

func (p *parser) spaces() {
	for p.i < len(p.s) && space(p.s[p.i]) {
		p.i++
	}
}

// until moves behind the next t and returns what is before it.
func (p *parser) until(t string) string {
	k := strings.Index(p.s[p.i:], t)
	if k < 0 {
		p.bad = true
		return ""
	}
	r := p.s[p.i : p.i+k]
	p.i += k + len(t)
	return r
}

func (p *parser) name() string {
	k := p.i
	for p.i < len(p.s) {
		b := p.s[p.i]
		if b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_' || b == ':' || b >= 0x80 || p.i > k && (b == '-' || b == '.' || b >= '0' && b <= '9') {
			p.i++
		} else {
			break
		}
	}
	if p.i == k {
		p.bad = true
	}
	return p.s[k:p.i]
}

// value resolves references.
func (p *parser) value(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '<' || s[i] < 32 && !space(s[i]):
			p.bad = true
		case s[i] == '&':
			k := strings.IndexByte(s[i:], ';')
			if k < 0 {
				p.bad = true
				return ""
			}
			switch e := s[i+1 : i+k]; e {
			case "lt":
				b = append(b, '<')
			case "gt":
				b = append(b, '>')
			case "amp":
				b = append(b, '&')
			case "quot", "#34":
				b = append(b, '"')
			case "apos", "#39":
				b = append(b, '\'')
			case "#x9":
				b = append(b, 9)
			case "#xA":
				b = append(b, 10)
			case "#xD":
				b = append(b, 13)
			default:
				p.bad = true
			}
			i += k
		default:
			b = append(b, s[i])
		}
	}
	return string(b)
}

// misc skips white space, comments and instructions.
func (p *parser) misc() {
	for !p.bad {
		p.spaces()
		switch {
		case p.at("<!--"):
			p.until("-->")
		case p.at("<?"):
			p.until("?>")
		case p.at("<!DOCTYPE"):
			for depth := 0; !p.bad; p.i++ {
				if p.i >= len(p.s) {
					p.bad = true
				} else if p.s[p.i] == '<' {
					depth++
				} else if p.s[p.i] == '>' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			p.i++
		default:
			return
		}
	}
}

func (p *parser) element() *node {
	n := &node{}
	if !p.at("<") {
		p.bad = true
		return n
	}
	p.i++
	n.name = p.name()
	for !p.bad {
		k := p.i
		p.spaces()
		if p.at("/>") {
			p.i += 2
			return n
		}
		if p.at(">") {
			p.i++
			break
		}
		if p.i == k {
			p.bad = true
			return n
		}
		a := p.name()
		p.spaces()
		if p.bad || !p.at("=") {
			p.bad = true
			return n
		}
		p.i++
		p.spaces()
		q := ""
		if p.at("\"") {
			q = "\""
		} else if p.at("'") {
			q = "'"
		} else {
			p.bad = true
			return n
		}
		p.i++
		v := p.value(p.until(q))
		if n.has(a) {
			p.bad = true
		}
		n.attrs = append(n.attrs, [2]string{a, v})
	}
	text := ""
	piece := ""
	end := func() {
		if t := strings.TrimSpace(piece); t != "" {
			n.items = append(n.items, t)
		}
		text, piece = text+piece, ""
	}
	for !p.bad {
		switch {
		case p.i >= len(p.s):
			p.bad = true
		case p.at("</"):
			p.i += 2
			if p.name() != n.name {
				p.bad = true
			}
			p.spaces()
			if !p.at(">") {
				p.bad = true
			}
			p.i++
			end()
			n.text = strings.TrimSpace(text)
			return n
		case p.at("<!--"):
			p.until("-->")
		case p.at("<![CDATA["):
			p.i += 9
			piece += p.until("]]>")
		case p.at("<?"):
			p.until("?>")
		case p.at("<"):
			end()
			n.items = append(n.items, "")
			n.kids = append(n.kids, p.element())
		default:
			k := p.i
			for p.i < len(p.s) && p.s[p.i] != '<' {
				p.i++
			}
			piece += p.value(p.s[k:p.i])
		}
	}
	return n
}

// parse reads a document; ok tells whether it is well-formed.
func parse(s string) (root *node, ok bool) {
	p := &parser{s: s}
	p.misc()
	root = p.element()
	p.misc()
	return root, !p.bad && p.i == len(p.s)
}
