// Package c13: look-ups resolve type plus override and change nothing.
package c13

import (
	"strings"

	t "github.com/SKAARHOJ/rawpanel-lib/topology"
	"github.com/SKAARHOJ/rawpanel-lib/zzverif/topo"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

const Harness = "c13"

const maxU = 0xFFFFFFFF

// CheckOverlay: every subset of override attributes, all values, both resolvers and all ways to them.
func CheckOverlay() {
	base := topo.Base("base", z.Choice("subs", 3))
	c := topo.Comp{Id: z.Uint32("id", 0, maxU), X: z.Int("x", -9, 99999), Y: z.Int("y", -9, 99999), Txt: "t", Type: 7}
	c.TypeOverride = topo.Override("ov")
	resolve(&t.Topology{Title: "p", HWc: []topo.Comp{c}, TypeIndex: map[uint32]topo.Def{7: base, 9: {W: 1, Desc: "other"}}})
}

// CheckNoOverride: the type as it is, with any attribute missing.
func CheckNoOverride() {
	base := *topo.Override("base")
	c := topo.Comp{Id: z.Uint32("id", 0, maxU), Type: 7}
	if z.Choice("empty", 2) == 1 {
		c.TypeOverride = &topo.Def{}
	}
	resolve(&t.Topology{HWc: []topo.Comp{c}, TypeIndex: map[uint32]topo.Def{7: base}})
}

func resolve(top *t.Topology) {
	before := topo.Clone(top)
	base, ov := before.TypeIndex[7], before.HWc[0].TypeOverride
	a := top.GetTypeDefWithOverride(&top.HWc[0])
	topo.Resolved(&a, &base, ov, false)
	b, err := top.GetHWCtype(top.HWc[0].Id)
	z.Assert(err == nil && b != nil, "GetHWCtype finds the component")
	topo.Resolved(b, &base, ov, false)
	c := top.GetHWCTypeDefinition(0)
	topo.Resolved(c, &base, ov, true)
	topo.Agree(&a, c)
	d := top.GetHWCTypeDefinitionFromHWCid(int(top.HWc[0].Id))
	topo.Resolved(d, &base, ov, true)
	topo.Agree(&a, d)
	z.Assert(topo.SameTop(before, top), "a look-up changes the topology")
	// a second look-up gives the same
	e := top.GetTypeDefWithOverride(&top.HWc[0])
	z.Assert(topo.Same(&a, &e), "a second look-up gives the same")
}

func list(n int) *t.Topology {
	top := &t.Topology{TypeIndex: map[uint32]topo.Def{3: topo.Sparse("t3"), 5: {W: 7, In: "pb", Disp: &topo.Disp{W: 8}}}}
	for i := 0; i < n; i++ {
		c := topo.Comp{Id: z.Uint32("id", 0, maxU), X: z.Int("x", -9, 99999), Y: z.Int("y", -9, 99999), Txt: z.StringIn("txt", 1, ' ', '~'), Type: []uint32{0, 3, 5, 8}[z.Choice("type", 4)]}
		switch z.Choice("ov", z.Pick(3, 4)) {
		case 1:
			c.TypeOverride = &topo.Def{In: "gpi", Subidx: 3}
		case 2:
			c.TypeOverride = &topo.Def{Disp: &topo.Disp{W: 3, H: z.Int("dh", 0, 99)}, H: 4}
		case 3:
			c.TypeOverride = &topo.Def{Sub: []topo.Sub{{X: 1}}, Out: "rgb", Desc: "o", Rotate: 1}
		}
		top.HWc = append(top.HWc, c)
	}
	return top
}

// CheckLookup: component lists with any ids, distinct or not, any type, present in the index or not; any query.
func CheckLookup() {
	n := z.Choice("n", z.Pick(3, 4))
	top := list(n)
	before := topo.Clone(top)
	q := z.Uint32("q", 0, maxU)
	at := -1
	for i := range before.HWc {
		if before.HWc[i].Id == q {
			at = i
			break
		}
	}
	x, y := top.GetHWCxy(q)
	txt := top.GetHWCtext(q)
	def, err := top.GetHWCtype(q)
	comp := top.GetHWCDefinitionFromHWCid(int(q))
	def2 := top.GetHWCTypeDefinitionFromHWCid(int(q))
	z.Assert(comp != nil && def2 != nil, "definitions are never nil")
	if at < 0 {
		z.Reach("unknown id")
		z.Assert(x == -1 && y == -1, "unknown id: coordinates -1, -1")
		z.Assert(txt == "", "unknown id: no text")
		z.Assert(def == nil && err != nil, "unknown id: no type but an error")
		z.Assert(topo.SameComp(comp, &topo.Comp{}), "unknown id: empty component")
		z.Assert(topo.Same(def2, &topo.Def{}), "unknown id: empty definition")
	} else {
		h := &before.HWc[at]
		z.Assert(x == h.X && y == h.Y, "coordinates")
		z.Assert(txt == h.Txt, "text")
		z.Assert(err == nil && def != nil, "type found")
		z.Assert(topo.SameComp(comp, h), "component")
		base, indexed := before.TypeIndex[h.Type]
		topo.Resolved(def, &base, h.TypeOverride, false)
		if indexed {
			z.Reach("indexed")
			topo.Resolved(def2, &base, h.TypeOverride, true)
			topo.Agree(def, def2)
		} else {
			z.Reach("not indexed")
			z.Assert(topo.Same(def2, &topo.Def{}), "type not indexed: empty definition")
		}
	}
	z.Assert(topo.SameTop(before, top), "a look-up changes the topology")
}

// CheckAnyNumber: ids given as int and positions, over their whole range.
func CheckAnyNumber() {
	n := z.Choice("n", 3)
	top := list(n)
	before := topo.Clone(top)
	q := z.Int("q", -1<<62, 1<<62)
	at := -1
	for i := range before.HWc {
		if int(before.HWc[i].Id) == q {
			at = i
			break
		}
	}
	comp := top.GetHWCDefinitionFromHWCid(q)
	def := top.GetHWCTypeDefinitionFromHWCid(q)
	k := z.Int("k", -1<<62, 1<<62)
	pos := top.GetHWCTypeDefinition(k)
	z.Assert(comp != nil && def != nil && pos != nil, "definitions are never nil")
	if at < 0 {
		z.Assert(topo.SameComp(comp, &topo.Comp{}), "unknown id: empty component")
		z.Assert(topo.Same(def, &topo.Def{}), "unknown id: empty definition")
	} else {
		z.Assert(topo.SameComp(comp, &before.HWc[at]), "component")
		base, ok := before.TypeIndex[before.HWc[at].Type]
		if ok {
			topo.Resolved(def, &base, before.HWc[at].TypeOverride, true)
		} else {
			z.Assert(topo.Same(def, &topo.Def{}), "type not indexed: empty definition")
		}
	}
	if k < 0 || k >= n {
		z.Assert(topo.Same(pos, &topo.Def{}), "unknown position: empty definition")
	} else {
		k = z.Concrete(k)
		base, ok := before.TypeIndex[before.HWc[k].Type]
		if ok {
			topo.Resolved(pos, &base, before.HWc[k].TypeOverride, true)
		} else {
			z.Assert(topo.Same(pos, &topo.Def{}), "type not indexed: empty definition")
		}
	}
	z.Assert(topo.SameTop(before, top), "a look-up changes the topology")
}

// CheckLists: the id list and the list of components with a display.
func CheckLists() {
	top := list(z.Choice("n", z.Pick(4, 5)))
	before := topo.Clone(top)
	ids := top.GetHWCs()
	disp := top.GetHWCsWithDisplay()
	z.Assert(ids != nil && disp != nil && len(ids) == len(before.HWc), "number of ids")
	k := 0
	for i := range before.HWc {
		z.Assert(ids[i] == before.HWc[i].Id, "id list")
		d := before.TypeIndex[before.HWc[i].Type].Disp
		if o := before.HWc[i].TypeOverride; o != nil && o.Disp != nil {
			d = o.Disp
		}
		if d != nil {
			z.Assert(k < len(disp) && disp[k] == before.HWc[i].Id, "list of components with a display")
			k++
		}
	}
	z.Assert(k == len(disp), "list of components with a display")
	z.Assert(topo.SameTop(before, top), "a look-up changes the topology")
}

// CheckSerialised: no look-up changes the serialised form, with an index or without one.
func CheckSerialised() {
	top := &t.Topology{Title: "p", TypeIndex: map[uint32]topo.Def{3: topo.Sparse("t3"), 5: {W: 7, In: "pb", Disp: &topo.Disp{W: 8}}}}
	switch z.Choice("list", 4) {
	case 1:
		top.HWc = []topo.Comp{}
	case 2:
		top.HWc = []topo.Comp{{Id: z.Uint32("id", 0, maxU), Type: 3, X: z.Int("x", -9, 99999), TypeOverride: &topo.Def{Disp: topo.NewDisp("d"), Subidx: z.Int("si", -3, 9)}}, {Id: z.Uint32("id", 0, maxU), Type: 5, Txt: "a|b"}}
	case 3:
		top.HWc = []topo.Comp{{Id: z.Uint32("id", 0, maxU), Type: 8, TypeOverride: &topo.Def{}}, {Id: 4, Type: 5, TypeOverride: &topo.Def{W: z.Int("ow", -3, 900), Sub: []topo.Sub{{X: z.Int("sx", -9, 9)}}}}}
	}
	switch z.Choice("index", 3) {
	case 1:
		top.TypeIndex = nil
	case 2:
		top.TypeIndex = map[uint32]topo.Def{}
	}
	before := top.ToJSON()
	q := z.Uint32("q", 0, maxU)
	top.GetHWCs()
	top.GetHWCxy(q)
	top.GetHWCtext(q)
	if d, _ := top.GetHWCtype(q); d != nil {
		predicates(d)
	}
	top.GetHWCsWithDisplay()
	predicates(top.GetHWCTypeDefinitionFromHWCid(int(q)))
	top.GetHWCDefinitionFromHWCid(int(q))
	for i := range top.HWc {
		predicates(top.GetHWCTypeDefinition(i))
		d := top.GetTypeDefWithOverride(&top.HWc[i])
		predicates(&d)
	}
	z.Assert(top.ToJSON() == before, "look-ups change the serialised form")
}

// ---- predicates

type answers struct {
	button, binary, pulsed, absolute, intensity, display, led, motor bool
	bar, steps                                                       int
	in                                                               string
	disp                                                             *topo.Disp
}

func predicates(d *topo.Def) answers {
	return answers{d.IsButton(), d.IsBinary(), d.IsPulsed(), d.IsAbsolute(), d.IsIntensity(), d.HasDisplay(), d.HasLED(), d.IsMotorized(), d.LedBarSteps(), d.HasSteps(), d.GetInputType(), d.DisplayInfo()}
}

func oneOf(s string, of ...string) bool {
	for _, o := range of {
		if s == o {
			return true
		}
	}
	return false
}

func check(d *topo.Def) {
	before := topo.CloneDef(d)
	twin := topo.CloneDef(d)
	a := predicates(d)
	first := before.In
	if i := strings.Index(first, ","); i >= 0 {
		first = first[:i]
	}
	button := oneOf(first, "b", "b4", "b2h", "b2v", "pb")
	z.Assert(a.in == first, "input kind is the first token")
	z.Assert(a.button == button, "button")
	z.Assert(a.binary == (button || first == "gpi"), "binary")
	z.Assert(a.pulsed == oneOf(first, "pb", "p"), "pulsed")
	z.Assert(a.absolute == oneOf(first, "av", "ah", "ar", "a"), "absolute")
	z.Assert(a.intensity == oneOf(first, "iv", "ih", "ir", "i"), "intensity")
	z.Assert(a.display == (before.Disp != nil) && topo.SameDisp(a.disp, before.Disp), "display")
	z.Assert(a.motor == (before.Ext == "pos"), "motorised")
	if before.Out == "rgb" {
		z.Assert(a.led, "an rgb output is a LED")
	}
	if !oneOf(before.Out, "rgb", "rg", "rb", "mono") && !oneOf(before.In, "rgb", "rg", "rb", "mono") {
		z.Assert(!a.led, "no LED output, no LED")
	}
	if strings.Contains(before.Ext, "steps") {
		z.Assert(a.bar == len(before.Sub), "LED bar steps")
	} else {
		z.Assert(a.bar == 0, "no LED bar")
	}
	if before.Ext != "steps" {
		z.Assert(a.steps == 0, "no steps")
	} else if len(before.Sub) > 0 {
		lo, hi := before.Sub[0].Idx, before.Sub[0].Idx
		for _, s := range before.Sub {
			if s.Idx < lo {
				lo = s.Idx
			}
			if s.Idx > hi {
				hi = s.Idx
			}
		}
		z.Assert(a.steps == hi-lo+1, "steps")
	}
	z.Assert(topo.Same(d, &before), "a predicate changes the definition")
	b := predicates(&twin)
	a.disp, b.disp = nil, nil
	z.Assert(a == b, "predicates of equal definitions differ")
	b = predicates(d)
	b.disp = nil
	z.Assert(a == b, "predicates asked again differ")
}

// CheckInput: arbitrary input kinds.
func CheckInput() {
	in := z.String("in", z.Choice("len", z.Pick(5, 6)))
	check(&topo.Def{In: in, Out: []string{"", "rgb", "mono"}[z.Choice("out", 3)]})
}

// CheckTokens: comma-separated lists of known and near kinds.
func CheckTokens() {
	kinds := []string{"b", "b4", "b2h", "b2v", "pb", "gpi", "p", "av", "ah", "ar", "a", "iv", "ih", "ir", "i", "rg", "rb", "mono", "rgb", "", "B", "b4x", "pb4", " b", "b ", "b2", "gp"}
	in := kinds[z.Choice("first", len(kinds))]
	switch z.Choice("more", 4) {
	case 1:
		in += ","
	case 2:
		in += "," + kinds[z.Choice("second", len(kinds))]
	case 3:
		in += z.String("tail", 1) + kinds[z.Choice("second", len(kinds))]
	}
	check(&topo.Def{In: in, Out: kinds[15+z.Choice("out", 5)]})
}

// CheckOutput: arbitrary output kinds.
func CheckOutput() {
	check(&topo.Def{Out: z.String("out", z.Choice("len", 5)), In: z.StringIn("in", z.Choice("in.len", 3), 'a', 'z')})
}

// CheckExtended: arbitrary extended kinds, steps with any indices.
func CheckExtended() {
	d := &topo.Def{}
	switch z.Choice("kind", 5) {
	case 0:
		d.Ext = z.String("ext", z.Choice("len", 6))
	case 1:
		d.Ext = "steps"
	case 2:
		d.Ext = z.StringIn("ext", 1, ' ', '~') + "steps"
	case 3:
		d.Ext = "steps" + z.StringIn("ext", 1, ' ', '~')
	case 4:
		d.Ext = "po" + z.String("ext", 1)
	}
	for i := z.Choice("subs", z.Pick(4, 5)); i > 0; i-- {
		d.Sub = append(d.Sub, topo.Sub{Idx: z.Int("idx", -9999, 9999), ObjType: "r"})
	}
	if z.Choice("disp", 2) == 1 {
		d.Disp = topo.NewDisp("disp")
	}
	check(d)
}
