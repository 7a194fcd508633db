// Package spec is an independent reading of the Raw Panel ASCII grammar, written from the protocol
// description and used as the oracle for the library's converters. It never calls the converters.
package spec

import (
	"strconv"
	"strings"

	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

// Effect is one thing a line (or a message) makes the receiver do.
type Effect struct {
	Kind string
	Id   int // component id, where there is one
	N    []int
	S    []string
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// num reads an unsigned decimal number.
func num(s string) (int, bool) {
	if s == "" {
		return 0, false
	}
	if strings.HasPrefix(s, "-") || strings.HasPrefix(s, "+") {
		return 0, false
	}
	v, err := strconv.Atoi(s)
	return v, err == nil
}

// snum reads a signed decimal number.
func snum(s string) (int, bool) {
	if s == "" {
		return 0, false
	}
	if strings.HasPrefix(s, "+") {
		return 0, false
	}
	v, err := strconv.Atoi(s)
	return v, err == nil
}

func bad(line string) Effect { return Effect{Kind: "malformed", S: []string{line}} }

// Same asserts that two effects are equal.
func Same(a, b Effect, what string) {
	z.Assert(a.Kind == b.Kind, what+": kind of effect")
	if a.Kind != b.Kind {
		return
	}
	z.Assert(a.Id == b.Id, what+": component of "+a.Kind)
	z.Assert(len(a.N) == len(b.N) && len(a.S) == len(b.S), what+": shape of "+a.Kind)
	if len(a.N) != len(b.N) || len(a.S) != len(b.S) {
		return
	}
	for i := range a.N {
		z.Assert(a.N[i] == b.N[i], what+": value "+strconv.Itoa(i)+" of "+a.Kind)
	}
	for i := range a.S {
		z.Assert(a.S[i] == b.S[i], what+": text "+strconv.Itoa(i)+" of "+a.Kind)
	}
}

// SameSeq asserts that two effect sequences are equal, in order.
func SameSeq(got, want []Effect, what string) {
	if len(got) != len(want) {
		z.Observe("got-kinds", kinds(got))
		z.Observe("want-kinds", kinds(want))
	}
	z.Assert(len(got) == len(want), what+": number of effects")
	if len(got) != len(want) {
		return
	}
	for i := range got {
		Same(got[i], want[i], what)
	}
}

func kinds(l []Effect) []string {
	r := make([]string, len(l))
	for i := range l {
		r[i] = l[i].Kind
	}
	return r
}

// SameByKind asserts that two effect lists are equal kind by kind; effects of different kinds do not
// interact, except that clearing commands must come before the states of the same message.
func SameByKind(got, want []Effect, what string) {
	seen := map[string]bool{}
	var order []string
	for _, l := range [][]Effect{want, got} {
		for _, e := range l {
			if !seen[e.Kind] {
				seen[e.Kind] = true
				order = append(order, e.Kind)
			}
		}
	}
	for _, k := range order {
		SameSeq(pick(got, k), pick(want, k), what)
	}
	lastClear, firstState := -1, len(got)
	for i, e := range got {
		switch e.Kind {
		case "ClearAll", "ClearLEDs", "ClearDisplays":
			lastClear = i
		case "mode", "color.rgb", "color.index", "ext", "text", "gfx", "adc":
			if i < firstState {
				firstState = i
			}
		}
	}
	z.Assert(lastClear < firstState, what+": clearing after a state")
}

func pick(l []Effect, k string) []Effect {
	var r []Effect
	for _, e := range l {
		if e.Kind == k {
			r = append(r, e)
		}
	}
	return r
}
