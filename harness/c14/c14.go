// Package c14: serialisation, renumbering and removal of section markers preserve the topology.
package c14

import (
	"encoding/json"
	"strings"

	t "github.com/SKAARHOJ/rawpanel-lib/topology"
	"github.com/SKAARHOJ/rawpanel-lib/zzverif/topo"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

const Harness = "c14"

const maxU = 0xFFFFFFFF

// ---- serialisation

func roundTrip(top *t.Topology) {
	before := topo.Clone(top)
	js := top.ToJSON()
	z.Assert(topo.SameTop(before, top), "serialising changes the topology")
	z.Assert(top.JSONstring() == js, "the serialisers agree")
	z.Assert(js != "", "serialisation fails")
	var back t.Topology
	err := json.Unmarshal([]byte(js), &back)
	z.Assert(err == nil, "the serialised form parses")
	z.Assert(topo.SameTop(before, &back), "the topology survives a round trip")
	z.Assert((before.HWc == nil) == (back.HWc == nil) && (before.TypeIndex == nil) == (back.TypeIndex == nil), "absent and empty lists stay what they are")
	z.Assert(back.ToJSON() == js, "serialisation is a fixpoint")
	z.Assert(back.JSONstring() == js, "serialisation is a fixpoint")
}

// number is an arbitrary number; which of those around zero and the edges it is decides the branch.
func comp() topo.Comp {
	return topo.Comp{Id: z.Uint32("id", 0, maxU), X: z.Int("x", -1<<62, 1<<62), Y: z.Int("y", -1<<62, 1<<62), Txt: "a|b", Type: z.Uint32("type", 0, maxU), UIparent: z.Uint32("par", 0, maxU), UIyang: z.Uint32("yang", 0, maxU)}
}

// CheckJSONComponents: component lists, all numbers, absent and empty lists.
func CheckJSONComponents() {
	top := &t.Topology{}
	if z.Choice("title", 2) == 1 {
		top.Title = "Panel"
	}
	switch n := z.Choice("n", z.Pick(4, 5)); n {
	case 0:
	default:
		top.HWc = []topo.Comp{}
		for i := 1; i < n; i++ {
			c := comp()
			if i == 1 && z.Choice("ov", 2) == 1 {
				c.TypeOverride = &topo.Def{}
			}
			top.HWc = append(top.HWc, c)
		}
	}
	switch z.Choice("index", 3) {
	case 1:
		top.TypeIndex = map[uint32]topo.Def{}
	case 2:
		top.TypeIndex = map[uint32]topo.Def{4294967295: {}, 10: {W: 1}, 9: {H: 2}}
	}
	roundTrip(top)
}

// def is a definition with one group of attributes arbitrary.
func def(group int) *topo.Def {
	d := &topo.Def{}
	switch group {
	case 0:
		d.W, d.H, d.Subidx = z.Int("w", -1<<62, 1<<62), z.Int("h", -1<<62, 1<<62), z.Int("si", -1<<62, 1<<62)
	case 1:
		d.In, d.Out = z.StringIn("in", z.Choice("in.len", 3), 'a', 'z'), z.StringIn("out", z.Choice("out.len", 3), 'a', 'z')
		d.Ext, d.Desc = z.StringIn("ext", z.Choice("ext.len", 3), 'a', 'z'), z.StringIn("desc", z.Choice("desc.len", 3), 'a', 'z')
		d.Render = z.StringIn("rend", z.Choice("rend.len", 3), 'a', 'z')
	case 2:
		d.Rotate = z.Float32("rot")
	case 3:
		d.Disp = &topo.Disp{W: z.Int("dw", -1<<62, 1<<62), H: z.Int("dh", -1<<62, 1<<62), Subidx: z.Int("dsi", -1<<62, 1<<62)}
	case 4:
		d.Disp = &topo.Disp{Type: z.StringIn("dt", z.Choice("dt.len", 3), 'a', 'z'), Shrink: z.Int("dsh", -1<<62, 1<<62), Border: z.Int("db", -1<<62, 1<<62), Subidx: -1}
	case 5:
		d.Sub = []topo.Sub{{ObjType: "r", X: z.Int("x", -1<<62, 1<<62), Y: z.Int("y", -1<<62, 1<<62), W: z.Int("w", -1<<62, 1<<62), H: z.Int("h", -1<<62, 1<<62)}}
	case 6:
		d.Sub = []topo.Sub{{R: z.Int("r", -1<<62, 1<<62), Rx: z.Int("rx", -1<<62, 1<<62), Ry: z.Int("ry", -1<<62, 1<<62), Idx: z.Int("idx", -1<<62, 1<<62)}, {}}
	case 7:
		d.Sub = []topo.Sub{{ObjType: z.StringIn("ot", z.Choice("ot.len", 3), 'a', 'z'), Style: z.StringIn("st", z.Choice("st.len", 3), 'a', 'z')}, {X: 1}, {Idx: 3}}
	case 8:
		d.Sub = []topo.Sub{}
	}
	return d
}

// CheckJSONDefs: every attribute of a type and of an override.
func CheckJSONDefs() {
	g := z.Choice("group", 9)
	top := &t.Topology{HWc: []topo.Comp{{Id: 1, Type: 3}}, TypeIndex: map[uint32]topo.Def{3: {W: 1}}}
	if z.Choice("where", 2) == 0 {
		top.TypeIndex[7] = *def(g)
	} else {
		top.HWc[0].TypeOverride = def(g)
	}
	roundTrip(top)
}

// CheckJSONSubset: every subset of attributes present.
func CheckJSONSubset() {
	d := &topo.Def{}
	bits := z.Choice("subset", 1<<10)
	on := func() bool { bits /= 2; return bits%2 == 1 }
	if bits%2 == 1 {
		d.W = z.Int("w", 1, 99999)
	}
	if on() {
		d.H = z.Int("h", -99999, -1)
	}
	if on() {
		d.Out = "rgb"
	}
	if on() {
		d.In = "b4," + z.StringIn("in", 1, 'a', 'z')
	}
	if on() {
		d.Desc = "d"
	}
	if on() {
		d.Ext = "steps"
	}
	if on() {
		d.Rotate = -12.5
	}
	if on() {
		d.Disp = &topo.Disp{W: z.Int("dw", 1, 99999), Subidx: z.Int("dsi", -9, 9)}
	}
	if on() {
		d.Sub = []topo.Sub{{X: z.Int("sx", -99, 99), R: 4}, {}}
	}
	if on() {
		d.Render, d.Subidx = "txt", z.Int("si", -9, 9)
	}
	top := &t.Topology{Title: "T", HWc: []topo.Comp{{Id: 1, Type: 3, TypeOverride: d}}, TypeIndex: map[uint32]topo.Def{3: {}, 4: topo.CloneDef(d)}}
	roundTrip(top)
}

// CheckJSONText: arbitrary characters in every text.
func CheckJSONText() {
	s := ""
	switch z.Choice("kind", 3) {
	case 0:
		s = z.StringIn("s", z.Choice("len", z.Pick(3, 4)), 0, 0x7f)
	case 1:
		s = "é漢" + z.StringIn("s", 1, 0, 0x7f) + "\u2028\u2029\U0001F600"
	case 2:
		s = "\u00a0" + z.StringIn("s", 1, 0, 0x7f) + "<&>\\\"\u007f\u0085\ufffd"
	}
	top := &t.Topology{HWc: []topo.Comp{{Id: 1, Type: 3}}, TypeIndex: map[uint32]topo.Def{3: {W: 1}}}
	d := topo.Def{}
	switch z.Choice("field", 10) {
	case 0:
		top.Title = s
	case 1:
		top.HWc[0].Txt = s
	case 2:
		d.In = s
	case 3:
		d.Out = s
	case 4:
		d.Ext = s
	case 5:
		d.Desc = s
	case 6:
		d.Render = s
	case 7:
		d.Disp = &topo.Disp{Type: s}
	case 8:
		d.Sub = []topo.Sub{{ObjType: s}}
	case 9:
		d.Sub = []topo.Sub{{Style: s}}
	}
	top.TypeIndex[4] = d
	roundTrip(top)
}

// ---- renumbering

// index is n types with arbitrary distinct numbers, told apart by their width.
func index(n int, any bool) ([]uint32, map[uint32]topo.Def) {
	keys := []uint32{}
	set := z.Choice("set", 3)
	m := map[uint32]topo.Def{}
	for i := 0; i < n; i++ {
		k := [][]uint32{{1, 2, 3, 4}, {4, 3, 2, 1}, {250, 7, maxU, 999999}}[set][i]
		if any && set == 2 {
			k = z.Uint32("key", 1, maxU)
		}
		for j := range keys {
			z.Assume(keys[j] != k)
		}
		keys = append(keys, k)
		m[k] = topo.Def{W: 10 + i, Subidx: z.Int("si", -3, 99), Desc: strings.Repeat("d", i), Disp: &topo.Disp{W: i}}
	}
	return keys, m
}

func renumbered(top, before *t.Topology, sequence bool) {
	n := len(before.TypeIndex)
	z.Assert(len(top.TypeIndex) == n, "number of types")
	z.Assert(top.Title == before.Title && len(top.HWc) == len(before.HWc), "component list")
	if sequence {
		for i := 1; i <= n; i++ {
			_, ok := top.TypeIndex[uint32(i)]
			z.Assert(ok, "sequential numbers are 1..n")
		}
	}
	for i := range before.HWc {
		z.Assert(topo.SameButType(&top.HWc[i], &before.HWc[i]), "component list")
		a, b := before.GetTypeDefWithOverride(&before.HWc[i]), top.GetTypeDefWithOverride(&top.HWc[i])
		z.Assert(topo.Same(&a, &b), "resolved definition of a component")
		_, was := before.TypeIndex[before.HWc[i].Type]
		_, is := top.TypeIndex[top.HWc[i].Type]
		z.Assert(was == is, "a component whose type is not in the index gets one that is")
		z.Assert((before.HWc[i].Type == 0) == (top.HWc[i].Type == 0), "a component becomes disabled or enabled")
	}
	sum := 0
	for _, d := range top.TypeIndex {
		sum += 1 << uint(d.W)
	}
	want := 0
	for _, d := range before.TypeIndex {
		want += 1 << uint(d.W)
	}
	z.Assert(sum == want, "the definitions in the index stay the same")
}

func renumber(types, comps int, sequence, any bool) {
	z.RandLimit(types + 3)
	keys, m := index(types, any)
	top := &t.Topology{Title: "T", TypeIndex: m}
	for i := 0; i < comps; i++ {
		c := topo.Comp{Id: z.Uint32("id", 0, maxU), X: i, Txt: "x"}
		more := 1
		if i == 0 {
			more = 2
		}
		if k := z.Choice("of", len(keys)+more); k > len(keys) { // not in the index
			c.Type = z.Uint32("gone", 1, maxU)
			for _, k := range keys {
				z.Assume(k != c.Type)
			}
		} else if k > 0 {
			c.Type = keys[k-1]
		}
		if i == 0 && z.Choice("ov", 2) == 1 {
			c.TypeOverride = &topo.Def{Ext: "e", H: z.Int("oh", -3, 99)}
		}
		top.HWc = append(top.HWc, c)
	}
	before := topo.Clone(top)
	z.MapOrder(4)
	top.RandomizeTypes(sequence)
	z.MapOrder(0)
	renumbered(top, before, sequence)
}

// CheckSequential: sequential renumbering for every iteration order of the index.
func CheckSequential() { renumber(z.Choice("types", 5), z.Choice("comps", z.Pick(3, 4)), true, true) }

// CheckRandom: random renumbering, every number drawn being arbitrary.
func CheckRandom() { renumber(z.Choice("types", z.Pick(4, 5)), z.Choice("comps", z.Pick(3, 4)), false, false) }

// CheckTwice: one renumbering after the other.
func CheckTwice() {
	z.RandLimit(8)
	keys, m := index(2, true)
	top := &t.Topology{TypeIndex: m, HWc: []topo.Comp{{Id: 1, Type: keys[z.Choice("of", 2)]}, {Id: 2, Type: keys[1]}, {Id: 3}}}
	before := topo.Clone(top)
	z.MapOrder(3)
	first := z.Choice("first", 2) == 1
	top.RandomizeTypes(first)
	second := z.Choice("second", 2) == 1
	top.RandomizeTypes(second)
	z.MapOrder(0)
	renumbered(top, before, second)
}

// CheckManyTypes: an index with many types, numbered like real ones.
func CheckManyTypes() {
	top := &t.Topology{TypeIndex: map[uint32]topo.Def{}}
	n := []int{9, 10, 11, 40}[z.Choice("n", 4)]
	from := uint32([]int{1, 2, 5, 100, 249}[z.Choice("from", 5)])
	for i := 0; i < n; i++ {
		top.TypeIndex[from+uint32(i)*uint32(1+z.Choice("gap", 1))] = topo.Def{W: i + 1}
		top.HWc = append(top.HWc, topo.Comp{Id: uint32(i), Type: from + uint32(n-1-i)})
	}
	before := topo.Clone(top)
	z.MapOrder(64)
	top.RandomizeTypes(true)
	z.MapOrder(0)
	renumbered(top, before, true)
}

// ---- section markers

// CheckClean: any number and position of section markers.
func CheckClean() {
	n := z.Choice("n", z.Pick(7, 10))
	top := &t.Topology{Title: "T", TypeIndex: map[uint32]topo.Def{250: {W: 1}, 3: {W: 2}}}
	var want []topo.Comp
	for i := 0; i < n; i++ {
		c := topo.Comp{Id: z.Uint32("id", 0, maxU), X: z.Int("x", -9, 9999), Type: z.Uint32("type", 0, maxU), Txt: "t"}
		top.HWc = append(top.HWc, c)
		if c.Type != 250 {
			want = append(want, c)
		}
	}
	before := topo.Clone(top)
	for k := 0; k < 2; k++ {
		top.CleanSections()
		z.Assert(len(top.HWc) == len(want), "exactly the section markers are removed")
		for i := range want {
			z.Assert(topo.SameComp(&top.HWc[i], &want[i]), "the others stay, in order")
		}
		before.HWc, top.HWc, want = nil, top.HWc, want
		c := topo.Clone(top)
		c.HWc = nil
		z.Assert(topo.SameTop(before, c), "the rest of the topology stays")
	}
}

// CheckCleanOverride: overrides stay with their components, markers with an override go.
func CheckCleanOverride() {
	n := z.Choice("n", 5)
	top := &t.Topology{}
	var want []topo.Comp
	for i := 0; i < n; i++ {
		c := topo.Comp{Id: uint32(i), Type: []uint32{250, 249, 251, 0}[z.Choice("type", 4)]}
		if i%2 == 0 {
			c.TypeOverride = &topo.Def{W: z.Int("w", 0, 999)}
		}
		top.HWc = append(top.HWc, c)
		if c.Type != 250 {
			want = append(want, c)
		}
	}
	top.CleanSections()
	z.Assert(len(top.HWc) == len(want), "exactly the section markers are removed")
	for i := range want {
		z.Assert(topo.SameComp(&top.HWc[i], &want[i]), "the others stay, in order")
	}
}
