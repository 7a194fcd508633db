// Package c15: the composite SVG has exactly the visible components, correctly placed.
package c15

import (
	"strconv"
	"strings"

	t "github.com/SKAARHOJ/rawpanel-lib/topology"
	"github.com/SKAARHOJ/rawpanel-lib/zzverif/topo"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
	xmldom "github.com/subchen/go-xmldom"
)

const Harness = "c15"

const maxU = 0xFFFFFFFF

// tree turns the generated document into our own kind.
func tree(n *xmldom.Node) *node {
	r := &node{name: n.Name, text: strings.TrimSpace(n.Text)}
	for _, a := range n.Attributes {
		r.attrs = append(r.attrs, [2]string{a.Name, a.Value})
	}
	for _, k := range n.Children {
		r.kids = append(r.kids, tree(k))
	}
	return r
}

// options are the arguments of GenerateCompositeSVGdoc; GenerateCompositeSVG shows labels and ids.
type options struct{ label, id, typ, size bool }

var usual = options{label: true, id: true}

// resolved is what a component's type comes out as.
func resolved(top *t.Topology, c *topo.Comp) topo.Def {
	d := top.TypeIndex[c.Type]
	if o := c.TypeOverride; o != nil {
		if o.W > 0 {
			d.W = o.W
		}
		if o.H > 0 {
			d.H = o.H
		}
		if o.Rotate != 0 {
			d.Rotate = o.Rotate
		}
		if o.Disp != nil {
			d.Disp = o.Disp
		}
		if len(o.Sub) > 0 {
			d.Sub = o.Sub
		}
		if o.Render != "" {
			d.Render = o.Render
		}
	}
	return d
}

func num(n *node, a string) int {
	v, err := strconv.Atoi(n.attr(a))
	z.Assert(err == nil, "a coordinate is not a number")
	return v
}

// rotated checks the transformation of something that belongs to a component.
func rotated(n *node, d *topo.Def, c *topo.Comp) {
	if d.Rotate == 0 {
		z.Assert(!n.has("transform"), "rotated although the type is not")
		return
	}
	at := " " + strconv.Itoa(c.X) + " " + strconv.Itoa(c.Y) + ")"
	v := n.attr("transform")
	z.Assert(strings.HasPrefix(v, "rotate(") && strings.HasSuffix(v, at), "not rotated around the component's coordinates")
	f, err := strconv.ParseFloat(v[7:7+strings.IndexByte(v[7:], ' ')], 32)
	z.Assert(err == nil && float32(f) == d.Rotate, "another angle")
}

func option(d *topo.Def, s string) bool {
	return strings.Contains(","+d.Render+",", ","+s+",")
}

// component checks the elements of one component and returns the rest.
func component(l []*node, top *t.Topology, c *topo.Comp, o options) []*node {
	d := resolved(top, c)
	z.Assert(len(l) > 0, "a visible component has no shape")
	z.Assume(len(l) > 0)
	m := l[0]
	l = l[1:]
	z.Assert(m.attr("id") == "HWc"+strconv.Itoa(int(c.Id)), "the main shape is identified as another component or not at all")
	z.Assert(m.text == "" && len(m.kids) == 0, "content in the main shape")
	if d.H > 0 {
		z.Assert(m.name == "rect", "the main shape is no rectangle")
		w, h := num(m, "width"), num(m, "height")
		z.Assert(w == d.W && h == d.H, "the rectangle is of another size")
		x, y := 2*num(m, "x")+w-2*c.X, 2*num(m, "y")+h-2*c.Y
		z.Assert(x >= -1 && x <= 1 && y >= -1 && y <= 1, "the rectangle is not centred on the component's coordinates")
	} else {
		z.Assert(m.name == "circle", "the main shape is no circle")
		z.Assert(num(m, "cx") == c.X && num(m, "cy") == c.Y, "the circle is not centred on the component's coordinates")
		r := 2*num(m, "r") - d.W
		z.Assert(r >= -1 && r <= 1, "the circle is of another size")
	}
	rotated(m, &d, c)
	for i := range d.Sub {
		s := &d.Sub[i]
		if s.ObjType != "r" && s.ObjType != "c" {
			continue
		}
		z.Assert(len(l) > 0, "a sub-shape is missing")
		z.Assume(len(l) > 0)
		n := l[0]
		l = l[1:]
		z.Assert(!n.has("id"), "a sub-shape is identified as a component")
		if s.ObjType == "r" {
			z.Assert(n.name == "rect", "a sub-shape is no rectangle")
			z.Assert(num(n, "x") == c.X+s.X && num(n, "y") == c.Y+s.Y && num(n, "width") == s.W && num(n, "height") == s.H, "a rectangular sub-shape is placed elsewhere")
		} else {
			z.Assert(n.name == "circle", "a sub-shape is no circle")
			z.Assert(num(n, "cx") == c.X+s.X && num(n, "cy") == c.Y+s.Y && num(n, "r") == s.R, "a circular sub-shape is placed elsewhere")
		}
		z.Assert(s.Rx == 0 || num(n, "rx") == s.Rx, "rounding of a sub-shape")
		z.Assert(s.Ry == 0 || num(n, "ry") == s.Ry, "rounding of a sub-shape")
		z.Assert(s.Style == "" || n.attr("style") == s.Style, "style of a sub-shape")
		rotated(n, &d, c)
	}
	if o.label || option(&d, "txt") {
		p := strings.Split(c.Txt, "|")
		if len(p) > 2 {
			p = p[:2]
		}
		if len(p) == 2 && p[1] == "" {
			p = p[:1]
		}
		for _, line := range p {
			if strings.TrimSpace(line) == "" {
				// an empty line may be left out
				if len(l) == 0 || l[0].name != "text" || l[0].text != "" {
					continue
				}
			}
			l = text(l, line, "a label line is missing or differs")
		}
	}
	if o.typ {
		l = text(l, "[TYPE="+strconv.Itoa(int(c.Type))+"]", "the type is missing or differs")
	}
	if o.size && d.Disp != nil {
		s := strconv.Itoa(d.Disp.W) + "x" + strconv.Itoa(d.Disp.H)
		if d.Disp.Type != "" {
			s += " " + d.Disp.Type
		}
		l = text(l, s, "the display size is missing or differs")
	}
	if o.id || option(&d, "hwcid") {
		l = text(l, strconv.Itoa(int(c.Id)), "the id text is missing or differs")
	}
	return l
}

func text(l []*node, s, msg string) []*node {
	z.Assert(len(l) > 0 && l[0].name == "text" && l[0].text == strings.TrimSpace(s), msg)
	z.Assume(len(l) > 0)
	z.Assert(!l[0].has("id"), "a text is identified as a component")
	return l[1:]
}

// composite checks that root is base and everything of the visible components.
func composite(root, base *node, top *t.Topology, m map[uint32]uint32, o options) {
	k := len(base.kids)
	z.Assert(len(root.kids) >= k, "content of the base is missing")
	z.Assume(len(root.kids) >= k)
	l := root.kids[k:]
	z.Assert(same(&node{name: root.name, attrs: root.attrs, text: root.text, kids: root.kids[:k]}, base), "the content of the base differs")
	for i := range top.HWc {
		c := &top.HWc[i]
		if m != nil && m[c.Id] == 0 {
			continue
		}
		l = component(l, top, c, o)
	}
	z.Observe("rest", len(l))
	z.Assert(len(l) == 0, "something else is added")
}

const minimal = `<svg width="10" height="20"></svg>`

func both(top *t.Topology, svg string, m map[uint32]uint32) {
	base, ok := parse(svg)
	z.Assert(ok, "the check's own base is broken")
	js := top.ToJSON()
	doc := t.GenerateCompositeSVGdoc(js, svg, m, true, true, false, false)
	z.Assert(doc != nil && doc.Root != nil, "no document")
	composite(tree(doc.Root), base, top, m, usual)
	s := t.GenerateCompositeSVG(js, svg, m)
	root, ok := parse(s)
	z.Assert(ok, "the result is not well-formed")
	composite(root, base, top, m, usual)
}

func asDoc(top *t.Topology, m map[uint32]uint32, o options) {
	base, _ := parse(minimal)
	doc := t.GenerateCompositeSVGdoc(top.ToJSON(), minimal, m, o.label, o.id, o.typ, o.size)
	z.Assert(doc != nil && doc.Root != nil, "no document")
	composite(tree(doc.Root), base, top, m, o)
}

// CheckShape: one component with any numbers.
func CheckShape() {
	d := topo.Def{W: z.Int("w", 0, 90000), H: z.Int("h", 0, 90000), Rotate: []float32{0, 90, -45.5, 0.25}[z.Choice("rotate", 4)]}
	c := topo.Comp{Id: z.Uint32("id", 0, maxU), X: z.Int("x", -90000, 90000), Y: z.Int("y", -90000, 90000), Txt: "a", Type: 7}
	switch z.Choice("override", 4) {
	case 1:
		c.TypeOverride = &topo.Def{W: z.Int("ow", 0, 90000), H: z.Int("oh", 0, 90000)}
	case 2:
		c.TypeOverride = &topo.Def{Rotate: 30}
	case 3:
		c.Type = 8
	}
	asDoc(&t.Topology{HWc: []topo.Comp{c}, TypeIndex: map[uint32]topo.Def{7: d}}, nil, usual)
}

// CheckSubs: sub-elements of any kind, one of them with any numbers.
func CheckSubs() {
	d := topo.Def{W: 40}
	c := topo.Comp{Id: 3, X: z.Int("x", -90000, 90000), Y: 12, Txt: "a", Type: 7}
	n := 1 + z.Choice("subs", z.Pick(2, 3))
	at := z.Choice("arbitrary", n)
	var l []topo.Sub
	for i := 0; i < n; i++ {
		s := topo.Sub{X: 7, Y: -4, W: 9, H: 11, R: 4, Ry: 2}
		if i == at {
			s = topo.NewSub("sub")
		}
		s.ObjType = []string{"r", "c", "d", ""}[z.Choice("kind", 4)]
		if i == at {
			s.Style = []string{"", "fill:red", "a\"b<c>&'d"}[z.Choice("style", z.Pick(2, 3))]
		} else {
			s.Style = ""
		}
		l = append(l, s)
	}
	d.Sub = l
	switch z.Choice("variant", 3) {
	case 1:
		d.H, d.Rotate = 30, 90
	case 2:
		d.Sub = []topo.Sub{{ObjType: "r", X: 1}}
		c.TypeOverride = &topo.Def{Sub: l}
	}
	asDoc(&t.Topology{HWc: []topo.Comp{c}, TypeIndex: map[uint32]topo.Def{7: d}}, nil, usual)
}

func label() string {
	switch z.Choice("label", z.Pick(7, 9)) {
	case 0:
		return ""
	case 1:
		return z.StringIn("line", 1, 32, 126)
	case 2:
		return z.StringIn("line", 2, 32, 126) + "|" + z.StringIn("second", 1, 32, 126)
	case 3:
		return "|second"
	case 4:
		return "first|"
	case 5:
		return "a|b|c"
	case 6:
		return "<&\">' \u00e6\u4e2d|]]>&amp;"
	case 7:
		return z.StringIn("line", 4, 32, 126)
	}
	return "||"
}

// CheckLabels: labels of any shape, in the document and in the text.
func CheckLabels() {
	d := topo.Def{W: 40, H: 30 * z.Choice("rectangle", 2), Render: []string{"", "invtxt,txt"}[z.Choice("render", 2)]}
	c := topo.Comp{Id: 3, X: 5, Y: 12, Txt: label(), Type: 7}
	both(&t.Topology{HWc: []topo.Comp{c}, TypeIndex: map[uint32]topo.Def{7: d}}, minimal, nil)
}

// CheckMask: any subset of several components.
func CheckMask() {
	top := &t.Topology{TypeIndex: map[uint32]topo.Def{5: {W: 20}, 6: {W: 30, H: 20, Sub: []topo.Sub{{ObjType: "r", X: 1}, {ObjType: "c", R: 2}}}}}
	ids := []uint32{1, 2, 70000, 4}
	n := z.Choice("components", z.Pick(4, 5))
	for i := 0; i < n; i++ {
		top.HWc = append(top.HWc, topo.Comp{Id: ids[i], X: z.Int("x", -99, 999), Y: 7 * i, Txt: []string{"a", "b|c"}[i%2], Type: []uint32{5, 6, 0, 9}[z.Choice("type", z.Pick(3, 4))]})
	}
	var m map[uint32]uint32
	if z.Choice("map", 2) == 1 {
		m = map[uint32]uint32{}
		for i := 0; i < n; i++ {
			if z.Choice("in map", 2) == 1 {
				m[ids[i]] = z.Uint32("entry", 0, maxU)
			}
		}
		m[99] = 1
	}
	before := len(m)
	asDoc(top, m, usual)
	z.Assert(len(m) == before, "the map is changed")
}

// CheckAnyID: ids over their whole range and a map with any keys.
func CheckAnyID() {
	a, b := z.Uint32("a", 0, maxU), z.Uint32("b", 0, maxU)
	z.Assume(a != b)
	top := &t.Topology{HWc: []topo.Comp{{Id: a, X: 1, Txt: "a", Type: 5}, {Id: b, X: 2, Txt: "b", Type: 5}}, TypeIndex: map[uint32]topo.Def{5: {W: 20}}}
	asDoc(top, map[uint32]uint32{z.Uint32("key", 0, maxU): z.Uint32("entry", 0, 2)}, usual)
}

// CheckOptions: every way to call GenerateCompositeSVGdoc.
func CheckOptions() {
	d := topo.Def{W: 40, H: 30 * z.Choice("rectangle", 2), Rotate: 90 * float32(z.Choice("rotate", 2)), Render: []string{"", "txt", "hwcid", "x,hwcid,txt", "txt90"}[z.Choice("render", 5)]}
	switch z.Choice("display", 3) {
	case 1:
		d.Disp = &topo.Disp{W: z.Int("dw", 0, 999), H: z.Int("dh", 0, 999), Subidx: z.Int("subidx", -3, 3)}
	case 2:
		d.Disp = &topo.Disp{W: 64, H: 32, Subidx: 1, Type: "gray"}
		d.Sub = []topo.Sub{{ObjType: "d", X: 4, Y: 5, W: 6, H: 7}, {ObjType: "r", X: 4, Y: 5, W: 6, H: 7}}
	}
	c := topo.Comp{Id: 3, X: 5, Y: 12, Txt: "a|b", Type: 7}
	flag := func(n string) bool { return z.Choice(n, 2) == 1 }
	asDoc(&t.Topology{HWc: []topo.Comp{c}, TypeIndex: map[uint32]topo.Def{7: d}}, nil, options{flag("labels"), flag("ids"), flag("types"), flag("sizes")})
}

var some = &t.Topology{HWc: []topo.Comp{{Id: 1, X: 10, Y: 10, Txt: "a<b", Type: 5}, {Id: 2, X: 30, Y: 10, Txt: "c|d", Type: 6}, {Id: 3, Txt: "no", Type: 6}},
	TypeIndex: map[uint32]topo.Def{5: {W: 20}, 6: {W: 30, H: 20, Rotate: 10, Sub: []topo.Sub{{ObjType: "r", X: 1}}}}}

var bases = []string{
	minimal,
	`<svg/>`,
	"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<svg xmlns=\"http://www.w3.org/2000/svg\" viewBox=\"0 0 10 10\">\n  <g id=\"a\">\n    <g><path d=\"M 0 0\n L 1 1\" style='fill:none;\n  stroke:red'/></g>\n    <rect x=\"1\"/>\n  </g>\n</svg>\n",
	"<svg><!-- comment --><title>a &amp; b &lt;c&gt;</title><desc>\n  two\n  lines\n</desc></svg>",
	"<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\">\n<svg><text x=\"1\">\u00e6\u4e2d &quot;'</text></svg>",
	`<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"><use xlink:href="#a" href="#a"/><rect id="HWc1" xml:space="preserve"/></svg>`,
	`<svg xmlns:svg="http://www.w3.org/2000/svg" xmlns:sodipodi="http://x"><sodipodi:namedview id="n" sodipodi:type="arc" type="b"/><svg:rect svg:x="1"/></svg>`,
	"<svg><style type=\"text/css\">\n<![CDATA[\n .a > .b {fill:red}\n]]>\n</style><script>a<!-- b -->c</script></svg>",
	"<?xml version=\"1.0\"?><?xml-stylesheet href=\"a.css\"?><!-- c --><svg a=\"&#9;&#10;b\" b='\"'></svg><!-- end -->\n",
}

// CheckBase: the base stays.
func CheckBase() {
	b := bases[z.Choice("base", len(bases))]
	var m map[uint32]uint32
	if z.Choice("map", 2) == 1 {
		m = map[uint32]uint32{1: 1, 2: 5}
	}
	decimal(b, m)
}

func decimal(b string, m map[uint32]uint32) {
	top := topo.Clone(some)
	base, ok := parse(strings.NewReplacer("&#9;", "&#x9;", "&#10;", "&#xA;").Replace(b))
	z.Assert(ok, "the check's own base is broken")
	s := t.GenerateCompositeSVG(top.ToJSON(), b, m)
	root, ok := parse(s)
	z.Assert(ok, "the result is not well-formed")
	composite(root, base, top, m, usual)
}

// CheckMixed: text between and around elements keeps its place.
func CheckMixed() {
	b := []string{"<svg><text>a<tspan>b</tspan>c</text></svg>", "<svg><text>a <tspan>b</tspan></text></svg>", "<svg><text><tspan>b</tspan>c</text></svg>", "<svg>a<g/></svg>"}[z.Choice("base", 4)]
	base, _ := parse(b)
	root, ok := parse(t.GenerateCompositeSVG((&t.Topology{}).ToJSON(), b, nil))
	z.Assert(ok, "the result is not well-formed")
	z.Assert(same(root, base), "the content of the base differs")
	z.Assert(order(root, base), "text has moved")
}

func order(a, b *node) bool {
	if len(a.items) != len(b.items) || len(a.kids) != len(b.kids) {
		return false
	}
	for i := range a.items {
		if a.items[i] != b.items[i] {
			return false
		}
	}
	for i := range a.kids {
		if !order(a.kids[i], b.kids[i]) {
			return false
		}
	}
	return true
}

var broken = []string{"", " ", "text", "<", "<svg", "<svg>", "<svg></g>", "<svg></svg", "</svg>", "<svg><g></svg>", "<svg a=b></svg>", "<svg a=\"1></svg>", "<svg a></svg>", "<svg>&nope;</svg>", "<!-- <svg/>", "<!-- -->", "<?xml version=\"1.0\"?>", "<!DOCTYPE svg>", "<svg/></svg>", "\x00", "<svg>\x01</svg>", "<svg a=\"<\"/>", "{}", "<?xml version=\"1.0\" encoding=\"latin1\"?><svg/>"}

// CheckBroken: a base that cannot be parsed.
func CheckBroken() {
	b := broken[z.Choice("base", len(broken))]
	top := topo.Clone(some)
	z.Assert(t.GenerateCompositeSVG(top.ToJSON(), b, nil) == "", "something is generated from a broken base")
	doc := t.GenerateCompositeSVGdoc(top.ToJSON(), b, nil, true, true, true, true)
	z.Assert(doc == nil, "a document is generated from a broken base")
}

// CheckAnyBytes: bases with arbitrary bytes in them never make it panic.
func CheckAnyBytes() {
	b := []byte(`<?xml?><svg a="b"><g>c</g></svg>`)
	switch z.Choice("where", 3) {
	case 0:
		b = z.Bytes("bytes", z.Choice("length", z.Pick(3, 4)))
	case 1:
		b[z.Choice("position", len(b))] = z.Byte("byte", 0, 255)
	case 2:
		b = append(b[:z.Choice("cut", len(b)+1)], z.Bytes("end", z.Choice("more", 2))...)
	}
	top := &t.Topology{HWc: []topo.Comp{{Id: 1, Type: 5}}, TypeIndex: map[uint32]topo.Def{5: {W: 20}}}
	s := t.GenerateCompositeSVG(top.ToJSON(), string(b), nil)
	z.Assert(s == "" || strings.Contains(s, `id="HWc1"`), "a component is missing")
}
