package t0

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
)

const Harness = "t0"

func CheckArith() {
	a := z.Int("a", -100, 100)
	b := z.Int32("b", 1, 7)
	q := a / int(b)
	z.Assert(q*int(b)+a%int(b) == a, "div")
	if a > 50 {
		z.Reach("big")
	} else {
		z.Reach("small")
	}
	z.Observe("q", q)
	z.Assert(a != 77, "a77")
}

func CheckStr() {
	s := z.String("s", 4)
	n := strings.Count(s, ",")
	p := strings.Split(s, ",")
	z.Assert(len(p) == n+1, "split")
	z.Observe("p", p)
	v, err := strconv.Atoi(s)
	if err == nil {
		z.Reach("num")
		z.Observe("v", v)
	}
	z.Observe("f", fmt.Sprintf("%q|%5d|%x", "x", n, n))
	q := append([]string(nil), p...)
	sort.Strings(q)
	z.Observe("q", q)
}

func CheckPanic() {
	x := []int{1, 2, 3}
	i := z.Int("i", 0, 3)
	z.Observe("x", x[i])
}

func CheckEnc() {
	m := &rwp.InboundMessage{Command: &rwp.Command{PanelBrightness: &rwp.Brightness{OLEDs: z.Uint32("o", 0, 100), LEDs: z.Uint32("l", 0, 100)}}}
	l := rp.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{m})
	z.Observe("l", l)
	z.Assert(len(l) == 1, "one")
}

func CheckDec() {
	s := "PanelBrightness=" + z.String("s", 3)
	l := rp.RawPanelASCIIstringsToInboundMessages([]string{s})
	z.Observe("n", len(l))
	if len(l) == 1 && l[0].Command != nil && l[0].Command.PanelBrightness != nil {
		z.Reach("br")
		z.Observe("o", l[0].Command.PanelBrightness.OLEDs)
	}
}
