// Package topo builds arbitrary topologies and says what their look-ups have to return.
package topo

import (
	t "github.com/SKAARHOJ/rawpanel-lib/topology"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

type Def = t.TopologyHWcTypeDef
type Disp = t.TopologyHWcTypeDef_Display
type Sub = t.TopologyHWcTypeDefSubEl
type Comp = t.TopologyHWcomponent

func word(name string, n int) string { return z.StringIn(name, n, 'a', 'z') }

// NewSub is a sub-element with arbitrary numbers.
func NewSub(name string) Sub {
	return Sub{ObjType: word(name+".o", 1), X: z.Int(name+".x", -5000, 5000), Y: z.Int(name+".y", -5000, 5000), W: z.Int(name+".w", -5000, 5000), H: z.Int(name+".h", -5000, 5000),
		R: z.Int(name+".r", -500, 500), Rx: z.Int(name+".rx", -500, 500), Ry: z.Int(name+".ry", -500, 500), Style: word(name+".s", 1), Idx: z.Int(name+".i", -9999, 9999)}
}

// NewDisp is a display with arbitrary numbers.
func NewDisp(name string) *Disp {
	return &Disp{W: z.Int(name+".w", -5000, 5000), H: z.Int(name+".h", -5000, 5000), Subidx: z.Int(name+".si", -5, 500), Type: word(name+".t", 1), Shrink: z.Int(name+".sh", 0, 3), Border: z.Int(name+".b", -5, 50)}
}

// Base is a type with every attribute present and arbitrary; n sub-elements.
func Base(name string, n int) Def {
	d := Def{W: z.Int(name+".w", -9000, 90000), H: z.Int(name+".h", -9000, 90000), Out: word(name+".out", 1), In: word(name+".in", 1), Desc: word(name+".desc", 1), Ext: word(name+".ext", 1),
		Subidx: z.Int(name+".si", -5, 500), Rotate: z.Float32(name + ".rot"), Disp: NewDisp(name + ".disp"), Render: word(name+".rend", 1)}
	for i := 0; i < n; i++ {
		d.Sub = append(d.Sub, NewSub(name+".sub"))
	}
	return d
}

// Override is a definition of which every attribute may be absent.
func Override(name string) *Def {
	s := func(k string) string { return word(name+"."+k, 2*z.Choice(name+"."+k+".len", 2)) }
	d := &Def{W: z.Int(name+".w", -9000, 90000), H: z.Int(name+".h", -9000, 90000), Out: s("out"), In: s("in"), Desc: s("desc"), Ext: s("ext"),
		Subidx: z.Int(name+".si", -5, 500), Rotate: z.Float32(name + ".rot"), Render: s("rend")}
	switch z.Choice(name+".hasdisp", 3) {
	case 1:
		d.Disp = NewDisp(name + ".disp")
	case 2:
		d.Disp = NewDisp(name + ".disp")
		d.Disp.Type = ""
	}
	switch z.Choice(name+".sub", 4) {
	case 1:
		d.Sub = []Sub{}
	case 2:
		d.Sub = []Sub{NewSub(name + ".sub")}
	case 3:
		d.Sub = []Sub{NewSub(name + ".sub"), NewSub(name + ".sub")}
	}
	return d
}

// Sparse is a definition with a few attributes present.
func Sparse(name string) Def {
	d := Def{W: z.Int(name+".w", 1, 90000)}
	switch z.Choice(name+".kind", 5) {
	case 1:
		d.In, d.Subidx = "b,x", -1
	case 2:
		d.Disp = &Disp{W: 64, H: z.Int(name+".dh", 0, 64)}
	case 3:
		d.Ext, d.Sub = "steps", []Sub{{ObjType: "r", X: z.Int(name+".sx", -9, 9), Idx: 1}, {ObjType: "c", Idx: 4}}
	case 4:
		d.Out, d.Desc, d.Render, d.Rotate, d.H = "rgb", "d", "txt", 90, 5
	}
	return d
}

// Same compares two definitions by content.
func Same(a, b *Def) bool {
	if a.W != b.W || a.H != b.H || a.Out != b.Out || a.In != b.In || a.Desc != b.Desc || a.Ext != b.Ext || a.Subidx != b.Subidx || a.Rotate != b.Rotate || a.Render != b.Render {
		return false
	}
	return SameDisp(a.Disp, b.Disp) && SameSub(a.Sub, b.Sub)
}

func SameDisp(a, b *Disp) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func SameSub(a, b []Sub) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// SameTop compares topologies by content. An absent and an empty list are the same.
func SameTop(a, b *t.Topology) bool {
	if a.Title != b.Title || len(a.HWc) != len(b.HWc) || len(a.TypeIndex) != len(b.TypeIndex) {
		return false
	}
	for i := range a.HWc {
		if !SameComp(&a.HWc[i], &b.HWc[i]) {
			return false
		}
	}
	for k := range a.TypeIndex {
		x := a.TypeIndex[k]
		y, ok := b.TypeIndex[k]
		if !ok || !Same(&x, &y) {
			return false
		}
	}
	return true
}

func SameComp(a, b *Comp) bool {
	if a.Type != b.Type || !SameButType(a, b) {
		return false
	}
	return true
}

// SameButType leaves out the type number.
func SameButType(a, b *Comp) bool {
	if a.Id != b.Id || a.X != b.X || a.Y != b.Y || a.Txt != b.Txt || a.UIparent != b.UIparent || a.UIyang != b.UIyang {
		return false
	}
	if a.TypeOverride == nil || b.TypeOverride == nil {
		return a.TypeOverride == nil && b.TypeOverride == nil
	}
	return Same(a.TypeOverride, b.TypeOverride)
}

// CloneDef is a deep copy.
func CloneDef(d *Def) Def {
	c := Def{W: d.W, H: d.H, Out: d.Out, In: d.In, Desc: d.Desc, Ext: d.Ext, Subidx: d.Subidx, Rotate: d.Rotate, Render: d.Render}
	if d.Disp != nil {
		x := *d.Disp
		c.Disp = &x
	}
	if d.Sub != nil {
		c.Sub = append([]Sub{}, d.Sub...)
	}
	return c
}

// Clone is a deep copy.
func Clone(a *t.Topology) *t.Topology {
	c := &t.Topology{Title: a.Title}
	if a.HWc != nil {
		c.HWc = []Comp{}
	}
	for i := range a.HWc {
		h := a.HWc[i]
		if h.TypeOverride != nil {
			d := CloneDef(h.TypeOverride)
			h.TypeOverride = &d
		}
		c.HWc = append(c.HWc, h)
	}
	if a.TypeIndex != nil {
		c.TypeIndex = map[uint32]Def{}
	}
	for k := range a.TypeIndex {
		d := a.TypeIndex[k]
		c.TypeIndex[k] = CloneDef(&d)
	}
	return c
}

func num(got, base, ov int) bool {
	switch {
	case ov > 0:
		return got == ov
	case ov == 0:
		return got == base
	}
	return got == base || got == ov // a negative number is neither clearly a value nor clearly absent
}

func str(got, base, ov string) bool {
	if ov != "" {
		return got == ov
	}
	return got == base
}

// Resolved checks got against base overlaid with ov (may be nil). shared leaves out description and render hints.
func Resolved(got, base, ov *Def, shared bool) {
	if ov == nil {
		ov = &Def{}
	}
	z.Assert(num(got.W, base.W, ov.W), "width")
	z.Assert(num(got.H, base.H, ov.H), "height")
	z.Assert(num(got.Subidx, base.Subidx, ov.Subidx), "handle index")
	z.Assert(str(got.In, base.In, ov.In), "input kind")
	z.Assert(str(got.Out, base.Out, ov.Out), "output kind")
	z.Assert(str(got.Ext, base.Ext, ov.Ext), "extended kind")
	if shared {
		z.Assert(got.Desc == base.Desc || got.Desc == ov.Desc, "description")
		z.Assert(got.Render == base.Render || got.Render == ov.Render, "render hints")
	} else {
		z.Assert(str(got.Desc, base.Desc, ov.Desc), "description")
		z.Assert(str(got.Render, base.Render, ov.Render), "render hints")
	}
	if ov.Rotate != 0 {
		z.Assert(got.Rotate == ov.Rotate, "rotation")
	} else {
		z.Assert(got.Rotate == base.Rotate, "rotation")
	}
	if ov.Disp != nil && *ov.Disp == (Disp{}) { // Whether this is an empty value stays open
		z.Assert(SameDisp(got.Disp, ov.Disp) || SameDisp(got.Disp, base.Disp), "display")
	} else if ov.Disp != nil {
		z.Assert(SameDisp(got.Disp, ov.Disp), "display")
	} else {
		z.Assert(SameDisp(got.Disp, base.Disp), "display")
	}
	if len(ov.Sub) > 0 {
		z.Assert(SameSub(got.Sub, ov.Sub), "sub-elements")
	} else {
		z.Assert(SameSub(got.Sub, base.Sub), "sub-elements")
	}
}

// Agree checks the attributes both resolvers share.
func Agree(a, b *Def) {
	z.Assert(a.W == b.W && a.H == b.H && a.In == b.In && a.Out == b.Out && a.Ext == b.Ext && a.Subidx == b.Subidx && a.Rotate == b.Rotate, "the resolvers agree on the attributes")
	z.Assert(SameDisp(a.Disp, b.Disp) && SameSub(a.Sub, b.Sub), "the resolvers agree on display and sub-elements")
}
