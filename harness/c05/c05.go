// Package c05: chunked graphics transfers.
package c05

import (
	"encoding/base64"
	"encoding/json"
	"strconv"
	"strings"

	rp "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	cb "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzcbind"
	z "github.com/SKAARHOJ/rawpanel-lib/zzverif/zzsym"
	"google.golang.org/protobuf/proto"
)

const Harness = "c05"

const maxU = 0xFFFFFFFF

// images are the graphics states among messages, one per component.
type image struct {
	ids []uint32
	g   *rwp.HWCGfx
}

func images(ms []*rwp.InboundMessage) []image {
	var r []image
	for _, m := range ms {
		for _, s := range m.GetStates() {
			if s.HWCGfx != nil {
				r = append(r, image{s.HWCIDs, s.HWCGfx})
			}
		}
	}
	return r
}

// restore passes the reader's state through JSON, as the C binding does between any two lines.
func restore(r *rp.ASCIIreader) *rp.ASCIIreader {
	d, err := json.Marshal(*r)
	z.Assert(err == nil, "state cannot be serialised")
	n := &rp.ASCIIreader{}
	z.Assert(json.Unmarshal(d, n) == nil, "state cannot be restored")
	return n
}

// ---- clean transfers of encoded images

var lengths = []int{1, 2, 84, 169, 170, 171, 339, 340, 341, 510, 511, 680}

func length() int {
	if z.Thorough() {
		return 1 + z.Choice("bytes", 1030)
	}
	return lengths[z.Choice("bytes", len(lengths))]
}

func picture(n int) *rwp.HWCGfx {
	g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(z.Choice("type", 3)), W: z.Uint32("w", 0, maxU), H: z.Uint32("h", 0, maxU), ImageData: z.Bytes("img", n)}
	if z.Choice("offset", 2) == 1 {
		g.XYoffset, g.X, g.Y = true, z.Uint32("x", 0, maxU), z.Uint32("y", 0, maxU)
	}
	return g
}

func same(got image, id uint32, g *rwp.HWCGfx, what string) {
	z.Assert(len(got.ids) == 1 && got.ids[0] == id, what+": component")
	z.Assert(got.g.ImageType == g.ImageType, what+": format")
	z.Assert(got.g.W == g.W && got.g.H == g.H, what+": dimensions")
	z.Assert(got.g.XYoffset == g.XYoffset && got.g.X == g.X && got.g.Y == g.Y, what+": offset")
	z.Assert(len(got.g.ImageData) == len(g.ImageData), what+": number of bytes")
	z.Assert(string(got.g.ImageData) == string(g.ImageData), what+": bytes")
}

// split encodes an image for two components and checks how it is cut into lines.
func split(g *rwp.HWCGfx, ids ...uint32) []string {
	lines := rp.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{{States: []*rwp.HWCState{{HWCIDs: ids, HWCGfx: g}}}})
	per := (len(g.ImageData) + 169) / 170
	z.Assert(len(lines) == per*len(ids), "number of chunk lines")
	return lines
}

// CheckSplit: the encoder numbers the lines and puts at most 170 bytes into each.
func CheckSplit() {
	g := picture(length())
	lines := split(g, z.Uint32("id", 0, maxU))
	var all []byte
	for i, l := range lines {
		c := strings.Index(l, ":")
		e := strings.Index(l, "=")
		z.Assert(e > 0 && c > e, "chunk line format")
		if e < 0 || c < e {
			return
		}
		d, err := base64.StdEncoding.DecodeString(l[c+1:])
		z.Assert(err == nil, "chunk payload")
		z.Assert(len(d) <= 170 && len(d) > 0, "chunk payload length")
		num := l[e+1 : c]
		if i == 0 {
			z.Assert(strings.HasPrefix(num, "0/"+strconv.Itoa(len(lines)-1)+","), "header of the first chunk")
		} else {
			z.Assert(num == strconv.Itoa(i), "number of the chunk")
		}
		all = append(all, d...)
	}
	z.Assert(string(all) == string(g.ImageData), "bytes of all chunks")
}

// CheckBatch: all lines at once, alone or with another line between two of them.
func CheckBatch() {
	g := picture(length())
	ids := []uint32{z.Uint32("id", 0, maxU), z.Uint32("id2", 0, maxU)}[:1+z.Choice("two", 2)]
	lines := split(g, ids...)
	in := lines
	if z.Choice("inter", 2) == 1 {
		in = nil
		at := z.Choice("at", min(len(lines)+1, 4))
		for i, l := range lines {
			if i == at {
				in = append(in, other(""))
			}
			in = append(in, l)
		}
	}
	got := images(rp.RawPanelASCIIstringsToInboundMessages(in))
	z.Assert(len(got) == len(ids), "batch: number of images")
	for i := range got {
		same(got[i], ids[i], g, "batch")
	}
}

// CheckReader: one line at a time, the state restored where the mode says, other lines between.
func CheckReader() {
	g := picture(length())
	id := z.Uint32("id", 0, maxU)
	lines := split(g, id)
	mode := z.Choice("mode", 4) // 0 plain, 1 restored always, 2 restored once, 3 another line once
	at := 0
	if mode > 1 {
		at = z.Choice("at", min(len(lines), 4))
	}
	r := &rp.ASCIIreader{}
	for i, l := range lines {
		if mode == 1 || mode == 2 && i == at {
			r = restore(r)
		}
		if mode == 3 && i == at {
			z.Assert(len(images(r.Parse(other("")))) == 0, "reader: image out of another line")
		}
		got := images(r.Parse(l))
		if i < len(lines)-1 {
			z.Assert(len(got) == 0, "reader: image before its last line")
			continue
		}
		z.Assert(len(got) == 1, "reader: no image at its last line")
		if len(got) == 1 {
			same(got[0], id, g, "reader")
		}
	}
}

func other(t string) string {
	switch z.Choice("other"+t, 7) {
	case 0:
		return "HWC#" + strconv.Itoa(z.Int("ov"+t, 0, maxU)) + "=5"
	case 1:
		return "HWCt#1=5|1||T"
	case 2:
		return ""
	case 3:
		return "ping"
	case 4:
		return "HWCx#1=" + strconv.Itoa(z.Int("ov"+t, 0, 65535))
	case 5:
		return `{"HWCIDs":[1],"HWCMode":{"State":4}}`
	}
	return "not a line of the grammar"
}

// ---- the C binding, which gets the reader's state with every line and gives it back

type binding struct{ state []byte }

func (b *binding) parse(line string) []*rwp.InboundMessage {
	msg, n, st, sn := cb.RawPanelASCIIstringToInboundMessage(line, b.state)
	z.Assert(sn == len(st) && n == len(msg), "binding: length")
	b.state = st
	if n == 0 {
		return nil
	}
	m := &rwp.InboundMessage{}
	z.Assert(proto.Unmarshal(msg, m) == nil, "binding: message")
	return []*rwp.InboundMessage{m}
}

// CheckBinding: one line at a time through the binding, with another line between.
func CheckBinding() {
	if !cb.Available {
		return
	}
	g := picture([]int{1, 170, 171, 341}[z.Choice("bytes", z.Pick(3, 4))])
	z.Assume(g.W < 128 && g.H < 128 && g.X < 128 && g.Y < 128) // one-byte numbers on the wire
	id := z.Uint32("id", 0, 127)
	lines := split(g, id)
	at := z.Choice("at", len(lines)+1)
	b := &binding{}
	for i, l := range lines {
		if i == at {
			z.Assert(len(images(b.parse(other("")))) == 0, "binding: image out of another line")
		}
		got := images(b.parse(l))
		if i < len(lines)-1 {
			z.Assert(len(got) == 0, "binding: image before its last line")
			continue
		}
		z.Assert(len(got) == 1, "binding: no image at its last line")
		if len(got) == 1 {
			same(got[0], id, g, "binding")
		}
	}
}

// CheckHistoryBinding: every short history through the binding.
func CheckHistoryBinding() {
	if !cb.Available {
		return
	}
	h, lines := history(z.Pick(4, 5), 1)
	b := &binding{}
	seen := map[int]bool{}
	for i, l := range lines {
		for _, im := range images(b.parse(l)) {
			i0 := judge(h[:i+1], im, string(im.g.ImageData), "binding")
			z.Assert(!seen[i0], "binding: image delivered twice")
			seen[i0] = true
		}
	}
}

// ---- arbitrary histories

// ev is one line of a history: the i-th line carries payload byte i+1.
type ev struct {
	gfx       bool
	kind      int // format prefix
	target    int
	list      int // of several components
	idx       int
	max       int // of an advanced header
	advanced  bool
	delivered bool
}

var kinds = []string{"HWCg", "HWCgRGB", "HWCgGray"}

// anyLine makes an arbitrary line.
func anyLine(i, nk int) (ev, string) {
	t := strconv.Itoa(i)
	f := z.Choice("form"+t, 3) // chunk without header, with header, other line
	if f == 2 {
		return ev{}, "HWC#" + strconv.Itoa(z.Int("ov"+t, 0, 99)) + "=5"
	}
	e := ev{gfx: true, kind: z.Choice("kind"+t, nk), target: z.Int("target"+t, 1, 2), idx: z.Int("idx"+t, 0, 3), advanced: f == 1}
	s := kinds[e.kind] + "#" + strconv.Itoa(e.target) + "=" + strconv.Itoa(e.idx)
	if e.advanced {
		e.max = z.Int("max"+t, 0, 3)
		s += "/" + strconv.Itoa(e.max) + ",8x" + strconv.Itoa(i+1)
		if i&1 == 1 {
			s += ",7," + strconv.Itoa(i+1)
		}
	}
	return e, s + ":" + base64.StdEncoding.EncodeToString([]byte{byte(i + 1)})
}

// judge: a delivered image is exactly the chunks 0..N, in order, of one transfer.
func judge(h []ev, im image, payload string, what string) int {
	z.Assert(len(payload) > 0, what+": empty image")
	if len(payload) == 0 {
		return -1
	}
	prev := -1
	at := make([]int, len(payload))
	for k := 0; k < len(payload); k++ {
		at[k] = int(payload[k]) - 1
		z.Assert(at[k] > prev && at[k] < len(h), what+": chunks of the image out of order")
		if at[k] <= prev || at[k] >= len(h) {
			return -1
		}
		prev = at[k]
	}
	f := h[at[0]]
	last := at[len(at)-1]
	n := 2
	if f.advanced {
		n = f.max
	}
	z.Assert(len(at) == n+1, what+": number of chunks of a delivered image")
	for k, x := range at {
		z.Assert(h[x].idx == k, what+": chunk number")
		z.Assert(h[x].kind == f.kind && h[x].target == f.target && h[x].list == f.list, what+": chunk of another transfer")
	}
	for x := at[0] + 1; x <= last; x++ {
		if h[x].gfx && h[x].kind == f.kind {
			z.Assert(h[x].target != f.target || h[x].list != f.list || h[x].idx != 0, what+": image from two transfers")
		}
	}
	if f.list > 0 {
		ok := len(im.ids) == len(lists[f.list])
		for k := 0; ok && k < len(im.ids); k++ {
			ok = im.ids[k] == lists[f.list][k]
		}
		z.Assert(ok, what+": components")
	} else {
		z.Assert(len(im.ids) == 1 && int(im.ids[0]) == f.target, what+": component")
	}
	z.Assert(int(im.g.ImageType) == []int{int(rwp.HWCGfx_MONO), int(rwp.HWCGfx_RGB16bit), int(rwp.HWCGfx_Gray4bit)}[f.kind], what+": format")
	if f.advanced {
		z.Assert(im.g.W == 8 && int(im.g.H) == at[0]+1, what+": dimensions")
		off := at[0]&1 == 1
		z.Assert(im.g.XYoffset == off && (!off || im.g.X == 7 && int(im.g.Y) == at[0]+1), what+": offset")
	} else {
		z.Assert(im.g.W == 64 && im.g.H == 32 && !im.g.XYoffset, what+": dimensions")
	}
	return at[0]
}

func history(n, nk int) ([]ev, []string) {
	var h []ev
	var lines []string
	for i := 0; i < n; i++ {
		e, l := anyLine(i, nk)
		h = append(h, e)
		lines = append(lines, l)
	}
	z.Observe("lines", lines)
	return h, lines
}

func checkBatch(h []ev, lines []string) {
	seen := map[int]bool{}
	for _, im := range images(rp.RawPanelASCIIstringsToInboundMessages(lines)) {
		i0 := judge(h, im, string(im.g.ImageData), "batch")
		z.Assert(!seen[i0], "batch: image delivered twice")
		seen[i0] = true
	}
}

func checkReader(h []ev, lines []string, js bool) {
	r := &rp.ASCIIreader{}
	seen := map[int]bool{}
	var all []image
	var was []string
	for i, l := range lines {
		if js {
			r = restore(r)
		}
		for _, im := range images(r.Parse(l)) {
			p := string(im.g.ImageData)
			i0 := judge(h[:i+1], im, p, "reader")
			z.Assert(!seen[i0], "reader: image delivered twice")
			seen[i0] = true
			all = append(all, im)
			was = append(was, p)
		}
	}
	for i, im := range all {
		z.Assert(string(im.g.ImageData) == was[i], "reader: image altered after delivery")
	}
}

// CheckHistoryBatch and CheckHistoryReader: every history of chunk lines.
func CheckHistoryBatch() { checkBatch(history(z.Pick(5, 6), 1)) }

func CheckHistoryReader() {
	h, l := history(z.Pick(5, 6), 1)
	checkReader(h, l, false)
}

// CheckHistoryRestored: as above, the state restored from JSON before every line.
func CheckHistoryRestored() {
	h, l := history(z.Pick(4, 5), 1)
	checkReader(h, l, true)
}

// CheckHistoryKinds: with several formats.
func CheckHistoryKinds() {
	h, l := history(z.Pick(3, 4), 3)
	if z.Choice("reader", 2) == 1 {
		checkReader(h, l, false)
	} else {
		checkBatch(h, l)
	}
}

var lists = [][]uint32{{1}, {1, 2}, {12}, {1, 12}, {2, 1}}

// CheckHistoryLists: transfers to lists of components that resemble each other.
func CheckHistoryLists() {
	n := z.Pick(3, 4)
	var h []ev
	var lines []string
	for i := 0; i < n; i++ {
		t := strconv.Itoa(i)
		e := ev{gfx: true, list: 1 + z.Choice("list"+t, 2), idx: z.Int("idx"+t, 0, 2), advanced: z.Choice("form"+t, 2) == 1}
		if e.list == 2 {
			e.list = 2 + z.Choice("other"+t, 3)
		}
		var ids []string
		for _, id := range lists[e.list] {
			ids = append(ids, strconv.Itoa(int(id)))
		}
		s := kinds[0] + "#" + strings.Join(ids, ",") + "=" + strconv.Itoa(e.idx)
		if e.advanced {
			e.max = z.Int("max"+t, 0, 2)
			s += "/" + strconv.Itoa(e.max) + ",8x" + strconv.Itoa(i+1)
			if i&1 == 1 {
				s += ",7," + strconv.Itoa(i+1)
			}
		}
		h = append(h, e)
		lines = append(lines, s+":"+base64.StdEncoding.EncodeToString([]byte{byte(i + 1)}))
	}
	z.Observe("lines", lines)
	if z.Choice("reader", 2) == 1 {
		checkReader(h, lines, false)
	} else {
		checkBatch(h, lines)
	}
}

// CheckCleanAfter: after any history, a clean consecutive run yields exactly its image.
func CheckCleanAfter() {
	_, lines := history(z.Pick(2, 3), 2)
	n := 1 + z.Choice("chunks", 3)
	simple := n == 3 && z.Choice("simple", 2) == 1
	target := strconv.Itoa(z.Int("target", 1, 2))
	var run []string
	var data []byte
	for k := 0; k < n; k++ {
		s := "HWCg#" + target + "=" + strconv.Itoa(k)
		if k == 0 && !simple {
			s += "/" + strconv.Itoa(n-1) + ",8x9"
		}
		d := z.Bytes("d"+strconv.Itoa(k), 2)
		data = append(data, d...)
		run = append(run, s+":"+base64.StdEncoding.EncodeToString(d))
	}
	if z.Choice("reader", 2) == 1 {
		r := &rp.ASCIIreader{}
		for _, l := range lines {
			r.Parse(l)
		}
		if z.Choice("restore", 2) == 1 {
			r = restore(r)
		}
		for k, l := range run {
			got := images(r.Parse(l))
			if k < n-1 {
				z.Assert(len(got) == 0, "clean run: image before its last line")
				continue
			}
			z.Assert(len(got) == 1, "clean run: no image at its last line")
			if len(got) == 1 {
				z.Assert(string(got[0].g.ImageData) == string(data), "clean run: bytes")
			}
		}
		return
	}
	got := images(rp.RawPanelASCIIstringsToInboundMessages(append(lines, run...)))
	z.Assert(len(got) > 0, "clean run: no image")
	if len(got) > 0 {
		im := got[len(got)-1]
		z.Assert(string(im.g.ImageData) == string(data), "clean run: bytes")
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
