package main

import (
	"bytes"

	"verifsim/rt"
)

// Op is one operation of a simulated caller.  Selectors are interpreted modulo
// what exists when the operation runs.
type Op struct {
	ID    int    `json:"id"`
	K     string `json:"k"`
	V     int    `json:"v,omitempty"` // version or stream selector
	S     int    `json:"s,omitempty"` // private slot
	A     int    `json:"a,omitempty"` // key
	X     uint64 `json:"x,omitempty"` // value token or seed
	N     int    `json:"n,omitempty"` // count
	Kill  int64  `json:"kill,omitempty"`
	Boom  int64  `json:"boom,omitempty"` // comparison or callback panics at that call
	Pause int64  `json:"pause,omitempty"`
}

// Scenario is everything that determines a run.
type Scenario struct {
	Prop    string    `json:"prop"`
	Like    string    `json:"like,omitempty"` // judged as for this property
	Fam     string    `json:"fam"`
	Seed    uint64    `json:"seed"`
	Style   int       `json:"style"`
	Cmp     int       `json:"cmp"`
	CmpSeed uint64    `json:"cmpseed"`
	Plain   bool      `json:"plain,omitempty"`
	Keys    []Key     `json:"keys"`
	Init    []Op      `json:"init,omitempty"`
	Threads [][]Op    `json:"threads"`
	Policy  rt.Policy `json:"policy"`
	EnvSeed uint64    `json:"envseed"`
	Audit   uint64    `json:"audit,omitempty"` // seed of audits in mid-operation
	Gap     int       `json:"gap,omitempty"`   // mean steps between audits
	Sweep   int       `json:"sweep"`           // 1 in Sweep derivations is followed by a full comparison
	Texts   []string  `json:"-"`
	Wide    bool      `json:"wide,omitempty"`
	Weak    bool      `json:"weak,omitempty"`   // at the end see what the last version keeps alive
	Fill    int       `json:"fill,omitempty"`   // entries which come in one operation
	Keep    int       `json:"keep,omitempty"`   // versions kept
	Sparse  int       `json:"sparse,omitempty"` // one in so many versions is kept at all
	Pool    int       `json:"pool,omitempty"`   // values come from a small set
}

type G struct{ *rt.Rng }

func (g G) in(a, b int) int { return a + g.Intn(b-a+1) }

func (g G) pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := g.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func (g G) logu(max int) int {
	// log-uniform in 1..max
	n := 1
	for n < max && g.P(2, 3) {
		n *= 2
	}
	v := g.in((n+1)/2, n)
	if v > max {
		v = max
	}
	if v < 1 {
		v = 1
	}
	return v
}

// Keys.

func (g G) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.U64())
	}
	return b
}

func (g G) strKeys(n int) []Key {
	out := []Key{}
	style := g.pick(4, 3, 2, 2, 1)
	var long []byte
	if style == 4 {
		// long keys which differ little
		l := []int{g.in(7, 20), g.in(30, 70), g.in(120, 140), g.in(250, 260), g.in(1000, 1100), g.in(65530, 65540)}[g.pick(4, 4, 3, 3, 1, 1)]
		if l > 2000 && n > 12 {
			n = 12
		}
		if g.P(1, 2) {
			long = bytes.Repeat([]byte{"aA\x00\xff"[g.Intn(4)]}, l)
		} else {
			long = g.bytes(l)
		}
	}
	for i := 0; i < n; i++ {
		var s []byte
		switch style {
		case 4:
			s = g.near(long)
		case 0:
			l := g.in(0, 3)
			for j := 0; j < l; j++ {
				s = append(s, "abAB"[g.Intn(4)])
			}
		case 1:
			v := i
			if g.P(1, 10) {
				v = g.Intn(n)
			}
			s = []byte{byte('A' + v/(26*26)%26), byte('A' + v/26%26), byte('a' + v%26)}
		case 2:
			s = g.bytes(g.in(0, 6))
		default:
			s = append([]byte("prefix/"), g.bytes(g.in(0, 2))...)
		}
		out = append(out, Key{R: s})
	}
	return out
}

// near gives a text which differs little from a long one.
func (g G) near(long []byte) []byte {
	s := append([]byte(nil), long...)
	for k := g.pick(2, 5, 2); k > 0 && len(s) > 0; k-- {
		at := len(s) - 1 - g.logu(len(s)) + 1
		if g.P(1, 3) {
			at = g.Intn(len(s))
		}
		s[at] += byte(g.in(1, 3))
	}
	switch g.Intn(5) {
	case 0:
		s = s[:len(s)-g.logu(len(s))]
	case 1:
		s = append(s, g.bytes(g.in(1, 3))...)
	}
	return s
}

// longLabel does it for labels.
func (g G) longLabel(long []byte) string {
	l := upper(g.near(long))
	if len(l) > 63 {
		l = l[:63]
	}
	if len(l) == 0 {
		l = []byte{'A'}
	}
	return string(l)
}

var labelPool = []string{"A", "B", "C", "COM", "ORG", "WWW", "1", "-", "AB", "A.B", "\x00", "\xff", " ", "\\", "Z9", "@[", "_", "é", "É", "ß", "ſ", "\u212a", "Ǆ"}

func (g G) label(alpha int) string {
	if g.P(1, 12) {
		n := g.in(1, 6)
		if g.P(1, 6) {
			n = g.in(58, 63)
		}
		return string(upper(g.bytes(n)))
	}
	return labelPool[g.Intn(alpha)]
}

func wire(labels []string) []byte {
	var b []byte
	for _, l := range labels {
		b = append(b, byte(len(l)))
		b = append(b, l...)
	}
	return b
}

func nameLen(labels []string) int {
	n := 0
	for _, l := range labels {
		n += len(l) + 1
	}
	return n
}

func (g G) sp() int {
	if g.P(1, 2) {
		return 0
	}
	return 1 + g.Intn(60)
}

func (g G) labelKeys(n int) []Key {
	out := []Key{}
	alpha := g.in(3, len(labelPool))
	seq := g.P(1, 3)
	var long []byte
	if g.P(1, 6) {
		long = upper(g.bytes(g.in(6, 63)))
		seq = false
	}
	for i := 0; i < n; i++ {
		l := ""
		switch {
		case long != nil:
			l = g.longLabel(long)
		case seq:
			l = string([]byte{byte('A' + i/(26*26)%26), byte('A' + i/26%26), byte('A' + i%26)})
		case g.P(1, 40):
		default:
			l = g.label(alpha)
			if g.P(1, 3) {
				l += g.label(alpha)
			}
		}
		if len(l) > 63 {
			l = l[:63]
		}
		out = append(out, Key{R: []byte(l), Sp: g.sp()})
	}
	return out
}

func (g G) domKeys(n int) []Key {
	out := []Key{}
	alpha := g.in(2, len(labelPool))
	deep := g.P(1, 12)
	var spine []string
	if deep {
		for i := 0; i < 127; i++ {
			spine = append(spine, string(byte('A'+i%26)))
		}
	}
	var prev [][]string
	var long []byte
	if !deep && g.P(1, 8) {
		long = upper(g.bytes(g.in(6, 63)))
	}
	for i := 0; i < n; i++ {
		var ls []string
		switch {
		case long != nil && g.P(2, 3):
			for d := g.in(1, 5); d > 0; d-- {
				if g.P(1, 3) {
					ls = append(ls, g.label(alpha))
				} else {
					ls = append(ls, g.longLabel(long))
				}
			}
		case deep && g.P(2, 3):
			d := 127 - g.pick(6, 3, 2, 1)
			if g.P(1, 4) {
				d = g.in(0, 127)
			}
			ls = append([]string{}, spine[127-d:]...)
			if d > 0 && g.P(1, 3) {
				ls[0] = "Q"
			}
		case g.P(1, 25):
			// the root
		case len(prev) > 0 && g.P(1, 2):
			p := prev[g.Intn(len(prev))]
			switch g.Intn(4) {
			case 0:
				ls = append([]string{g.label(alpha)}, p...)
			case 1:
				if len(p) > 0 {
					ls = append(ls, p[1:]...)
				}
			case 2:
				ls = append(ls, p...)
				if len(ls) > 0 {
					ls[0] = g.label(alpha)
				}
			case 3:
				ls = append(append([]string{}, g.label(alpha), g.label(alpha)), p...)
			}
		default:
			d := g.in(1, 4)
			for j := 0; j < d; j++ {
				ls = append(ls, g.label(alpha))
			}
		}
		for nameLen(ls) > 255 || len(ls) > 127 {
			ls = ls[1:]
		}
		prev = append(prev, ls)
		out = append(out, Key{R: wire(ls), Sp: g.sp()})
	}
	return out
}

func (g G) bitLen(w int) int {
	switch g.Intn(4) {
	case 0:
		return g.Intn(w + 1)
	case 1:
		k := []int{0, 1, 2, w - 2, w - 1, w, w / 2, w/2 - 1, w/2 + 1, w / 4, w/4*3 + 1}
		return k[g.Intn(len(k))]
	case 2:
		return clamp(8*g.Intn(w/8+1)+g.in(-1, 1), w)
	}
	return g.in(w*2/3, w)
}

func (g G) flip(b []byte, bit int) {
	if bit >= 0 && bit < 8*len(b) {
		b[bit/8] ^= 0x80 >> uint(bit%8)
	}
}

// prefixes makes nested and neighbouring prefixes of w bits.
func (g G) prefixes(n, w int) []Key {
	out := []Key{}
	small := g.P(1, 3) // few distinct bits, so that collisions abound
	base := g.bytes(w / 8)
	lo, hi := 0, w
	if small {
		c := g.bitLen(w)
		lo, hi = clamp(c-3, w), clamp(c+3, w)
	}
	for i := 0; i < n; i++ {
		k := Key{}
		switch {
		case len(out) > 0 && g.P(1, 3):
			p := out[g.Intn(len(out))]
			k.R = append([]byte(nil), p.R...)
			switch g.Intn(4) {
			case 0:
				k.B = p.B + g.in(-2, 2)
			case 1:
				k.B = p.B
				g.flip(k.R, p.B-1-g.pick(5, 2, 1))
			case 2:
				k.B = p.B + g.in(1, 2)
				g.flip(k.R, p.B)
			case 3:
				k.B = g.bitLen(w)
			}
		case g.P(1, 12) && !small:
			k.R, k.B = g.bytes(w/8), g.bitLen(w)
		default:
			k.R = append([]byte(nil), base...)
			k.B = g.bitLen(w)
			if small {
				k.B = g.in(lo, hi)
			}
			if g.P(1, 2) {
				g.flip(k.R, g.in(lo, hi))
			}
			if g.P(1, 4) {
				g.flip(k.R, g.in(lo, hi))
			}
		}
		k.B = clamp(k.B, w)
		// noise beyond the prefix
		if g.P(1, 3) {
			z := g.bytes(w / 8)
			for j := k.B; j < w; j++ {
				if z[j/8]&(0x80>>uint(j%8)) != 0 {
					g.flip(k.R, j)
				}
			}
		} else {
			for j := k.B; j < w; j++ {
				k.R[j/8] &^= 0x80 >> uint(j%8)
			}
		}
		out = append(out, k)
	}
	return out
}

func (g G) numKeys(n, w int) []Key {
	out := g.prefixes(n, w)
	for i := range out {
		if out[i].B == w && g.P(1, 4) {
			out[i].B = w + g.in(1, 300)
		}
		if out[i].B == 0 && g.P(1, 2) {
			out[i].B = -g.in(1, 300)
		}
		out[i].Sp = g.Intn(2)
	}
	return out
}

func (g G) ipKeys(n int) []Key {
	mode := g.pick(4, 5, 6) // v4, v6, both
	var out []Key
	switch mode {
	case 0:
		out = g.prefixes(n, 32)
	case 1:
		out = g.prefixes(n, 128)
	default:
		out = append(g.prefixes((n+1)/2, 32), g.prefixes((n+1)/2, 128)...)
		if g.P(1, 2) {
			// the same bits on both sides: v4-mapped and v4-prefixed
			for i := range out {
				if len(out[i].R) == 4 && g.P(1, 3) {
					r := make([]byte, 16)
					if g.P(1, 2) {
						r[10], r[11] = 0xff, 0xff
						copy(r[12:], out[i].R)
						out = append(out, Key{R: r, B: 96 + clamp(out[i].B, 32)})
					} else {
						copy(r, out[i].R)
						out = append(out, Key{R: r, B: clamp(out[i].B, 32)})
					}
				}
			}
		}
	}
	for i := range out {
		w := 8 * len(out[i].R)
		switch {
		case out[i].B == w && g.P(1, 2):
			out[i].Sp = 1 + g.Intn(2)
		case g.P(1, 60):
			out[i].Sp = 3 + g.Intn(4)
		}
	}
	return out
}

func (g G) keys(f *Fam, n int) []Key {
	switch f.Kind {
	case "str":
		return g.strKeys(n)
	case "label":
		return g.labelKeys(n)
	case "dom":
		return g.domKeys(n)
	case "num":
		return g.numKeys(n, f.W)
	}
	return g.ipKeys(n)
}

// wideKeys gives n siblings in key order.
func (g G) wideKeys(f *Fam, n int) []Key {
	out := make([]Key, n)
	var tail []string
	for j := g.Intn(3); j > 0; j-- {
		tail = append(tail, g.label(5))
	}
	v6, shape := g.Intn(2), g.pick(4, 2, 1)
	for i := range out {
		s := []byte{byte('A' + i/(26*26)%26), byte('A' + i/26%26), byte('A' + i%26)}
		switch f.Kind {
		case "dom":
			out[i] = Key{R: wire(append([]string{string(s)}, tail...))}
		case "num", "ip":
			w := f.W
			if f.Kind == "ip" {
				w = []int{32, 128}[v6]
			}
			r := make([]byte, w/8)
			b := w
			switch shape {
			case 0:
				r[w/8-1], r[w/8-2] = byte(i), byte(i>>8)
			case 1: // at the other end
				r[0], r[1] = byte(i>>8), byte(i)
				b = []int{16, w, w / 2}[i%3]
			default: // around the middle of an IPv6 address
				r[w/16-1], r[w/16] = byte(i>>8), byte(i)
				b = w/2 + 8
			}
			out[i] = Key{R: r, B: b}
		default:
			out[i] = Key{R: s}
		}
	}
	return out
}

// Schedules.

func (g G) policy(est int) rt.Policy {
	p := rt.Policy{Seed: g.U64()}
	switch g.pick(5, 4, 1, 2) {
	case 0:
		p.Kind = "rand"
		p.Gap = []int{1, 2, 4, 8, 20, 60, 200}[g.Intn(7)]
	case 1:
		p.Kind = "pct"
		p.Depth = g.in(1, 8)
		p.Len = est
	case 2:
		p.Kind = "rr"
		p.Gap = []int{1, 3, 11, 50}[g.Intn(4)]
	default:
		p.Kind = "block"
	}
	return p
}

// Mix says what a property's callers do.
type Mix struct {
	Ins, Del, Sub         int
	Get, Exact, Dot, Emp  int
	EnOpen, EnStep, EnEnd int
	EnFull, EnAband       int
	Sleep                 int
	PNew, PInp, PIns      int
	PDel, PGet, PPub      int
	PUpd, PEnum, PDot     int
	KillPct               int // of derivations
	Parse                 int // domain conversions mixed in
}

func (g G) ops(f *Fam, m Mix, n, nkeys int, fresh bool) []Op {
	out := make([]Op, 0, n)
	sub := m.Sub
	if f.Sub == nil {
		sub = 0
	}
	exact, dot, emp, upd := m.Exact, m.Dot, m.Emp, m.PUpd
	if f.Exact == nil {
		exact = 0
	}
	if f.Dot == nil {
		dot = 0
	}
	if f.Empty == nil {
		emp = 0
	}
	if f.Upd == nil {
		upd = 0
	}
	names := []string{"ins", "del", "sub", "get", "exact", "dot", "empty", "eopen", "estep", "eend", "efull", "eaband", "sleep", "pnew", "pinp", "pins", "pdel", "pget", "ppub", "pupd", "penum", "parse", "pdot"}
	w := []int{m.Ins, m.Del, sub, m.Get, exact, dot, emp, m.EnOpen, m.EnStep, m.EnEnd, m.EnFull, m.EnAband, m.Sleep, m.PNew, m.PInp, m.PIns, m.PDel, m.PGet, m.PPub, upd, m.PEnum, m.Parse, m.PDot}
	same := g.P(1, 3)
	for len(out) < n {
		o := Op{K: names[g.pick(w...)], V: g.Intn(1 << 16), A: g.Intn(nkeys), X: g.U64() >> 8, S: g.Intn(2)}
		if same && len(out) > 0 && g.P(1, 2) {
			// the same key, and often the same tree, again and again
			p := out[len(out)-1]
			o.A, o.S = p.A, p.S
			if g.P(1, 2) {
				o.V = p.V
			}
		}
		switch o.K {
		case "ins", "del", "sub":
			if g.Intn(100) < m.KillPct {
				if f.Kind == "str" && g.P(1, 4) {
					o.Boom = int64(g.in(1, 8))
				} else {
					o.Kill = int64(g.logu(400))
				}
			}
			if g.P(1, 15) {
				o.Pause = int64(g.logu(3000))
			}
		case "estep":
			o.N = g.logu(12)
		case "sleep":
			o.N = g.logu(40)
		case "pdel":
			if f.Sub != nil && g.P(1, 3) {
				o.N = 1
			}
		case "pupd":
			if g.P(1, 4) {
				o.Boom = int64(g.logu(10))
			}
			o.N = g.Intn(1 << 16)
		case "pnew":
			o.N = g.Intn(4)
		case "parse":
			o.N = g.Intn(6)
		case "efull":
			if g.P(1, 10) {
				o.V = -1 // an empty or nil tree
			}
			o.N = g.Intn(4)
		}
		out = append(out, o)
	}
	if m.Del+m.PDel > 0 && nkeys <= 48 && g.P(1, 4) {
		// a phase which removes everything, entry by entry
		at := g.Intn(len(out) + 1)
		k, slot := "del", g.Intn(2)
		if m.Del == 0 || m.PDel > 0 && m.PInp > 0 && g.P(1, 2) {
			k = "pdel"
		}
		var all []Op
		for _, a := range g.order(nkeys) {
			if g.P(1, 30) {
				continue
			}
			all = append(all, Op{K: k, V: 2, S: slot, A: a, X: g.U64() >> 8})
		}
		out = append(out[:at:at], append(all, out[at:]...)...)
	}
	return out
}
