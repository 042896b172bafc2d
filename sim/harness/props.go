package main

import (
	"os"
	"strings"

	"verifsim/rt"
)

// Prop says how runs for a property are made and judged.
type Prop struct {
	ID   string
	Fl   Flags
	Fams []string
	Gen  func(g G, p *Prop, deep bool) *Scenario
	Race bool
}

var (
	strFams   = []string{"strtree", "strtree", "uintX/strtree8", "uintX/strtree16", "uintX/strtree32", "uintX/strtree64"}
	labelFams = []string{"dltree", "dltree"}
	domFams   = []string{"domaintree", "domaintree", "domaintree", "uintX/domaintree8", "uintX/domaintree16", "uintX/domaintree32", "uintX/domaintree64"}
	numFams   = []string{"numtree32", "numtree64"}
	ipFams    = []string{"iptree", "iptree", "iptree", "uintX/iptree8", "uintX/iptree16", "uintX/iptree32", "uintX/iptree64"}
)

func cat(l ...[]string) []string {
	var out []string
	for _, x := range l {
		out = append(out, x...)
	}
	return out
}

var allFams = cat(strFams, labelFams, domFams, numFams, ipFams)

var dotFams = cat(strFams, labelFams, labelFams, numFams, numFams)

var props = []*Prop{
	{ID: "C01", Fl: Flags{Base: true}, Fams: allFams, Gen: genC01},
	{ID: "C02", Fl: Flags{Race: true}, Fams: allFams, Gen: genC02, Race: true},
	{ID: "C03", Fl: Flags{Res: true}, Fams: cat(strFams, labelFams), Gen: genMap},
	{ID: "C04", Fl: Flags{Res: true}, Fams: numFams, Gen: genMap},
	{ID: "C05", Fl: Flags{Res: true}, Fams: ipFams, Gen: genMap},
	{ID: "C06", Fl: Flags{Res: true}, Fams: domFams, Gen: genMap},
	{ID: "C07", Fl: Flags{Enum: true}, Fams: allFams, Gen: genEnum},
	{ID: "C08", Fl: Flags{Life: true}, Fams: allFams, Gen: genLife},
	{ID: "C09", Fl: Flags{Priv: true}, Fams: allFams, Gen: genPriv},
	{ID: "C10", Fl: Flags{Upd: true}, Fams: []string{"iptree"}, Gen: genUpd},
	{ID: "C11", Fl: Flags{Cost: true}, Fams: cat(strFams, labelFams, labelFams, domFams), Gen: genCost},
	{ID: "C17", Fl: Flags{Dump: true}, Fams: dotFams, Gen: genDump},
	{ID: "C18", Fl: Flags{Space: true}, Fams: allFams, Gen: genSpace},
	{ID: "C19", Fl: Flags{Path: true}, Fams: allFams, Gen: genPath},
	{ID: "C12", Fl: Flags{Conv: true}, Fams: []string{"domain"}, Gen: genConv},
	{ID: "C13", Fl: Flags{Iter: true}, Fams: []string{"domain"}, Gen: genConv},
}

func init() {
	// the packages made from templates, with all they have to do
	props = append(props, &Prop{ID: "C21", Fams: widthFams(allFams), Gen: genLike})
}

func widthFams(l []string) []string {
	var out []string
	for _, f := range l {
		if strings.HasPrefix(f, "uintX/") {
			out = append(out, f)
		}
	}
	return out
}

var likeProps = []string{"C01", "C03", "C03", "C05", "C05", "C06", "C06", "C07", "C08", "C09", "C11", "C17", "C18", "C19"}

func genLike(g G, p *Prop, deep bool) *Scenario {
	q := *propByID(likeProps[g.Intn(len(likeProps))])
	q.Fams = widthFams(q.Fams)
	sc := q.Gen(g, &q, deep)
	sc.Like = q.ID
	return sc
}

func propByID(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func (p *Prop) make(seed uint64, deep bool) *Scenario {
	h := uint64(0)
	for _, c := range p.ID {
		h = h*131 + uint64(c)
	}
	g := G{rt.NewRng(rt.Mix(seed, h))}
	sc := p.Gen(g, p, deep)
	sc.Prop = p.ID
	sc.Seed = seed
	sc.EnvSeed = g.U64()
	n := 0
	id := func(ops []Op) {
		for i := range ops {
			n++
			ops[i].ID = n
		}
	}
	id(sc.Init)
	for _, t := range sc.Threads {
		id(t)
	}
	return sc
}

// base picks what all scenarios have.
func (g G) base(p *Prop) (*Scenario, *Fam) {
	sc := &Scenario{Fam: p.Fams[g.Intn(len(p.Fams))], Style: g.Intn(9), Sweep: 6}
	if sc.Style == 8 {
		sc.Style = 9
	}
	if (p.Fl.Space || p.Fl.Path) && sc.Style >= 7 {
		sc.Style = 2
	}
	f := famByName(sc.Fam)
	if g.P(1, 3) {
		sc.Pool = g.in(1, 3)
	}
	if f != nil && f.Kind == "str" {
		sc.Cmp = g.pick(3, 2, 1, 1, 1, 1, 1)
		sc.CmpSeed = g.U64()
		sc.Plain = g.P(1, 3)
	}
	return sc, f
}

func (g G) size(deep bool) (nkeys, nthreads, nops int) {
	nthreads = 1 + g.pick(3, 6, 5, 3, 1)
	max := 48
	if deep && g.P(1, 4) {
		max = 300
	}
	nkeys = 1 + g.logu(max)
	nops = 2 + g.logu(64)
	if deep && g.P(1, 4) {
		nops += g.logu(400)
	}
	return
}

// fill gives the operations which build a first version.
func (g G) fill(f *Fam, nkeys int) []Op {
	var out []Op
	m := nkeys
	if g.P(1, 2) {
		m = g.Intn(nkeys + 1)
	}
	if m > 60 && !g.P(1, 3) {
		m = 60
	}
	inp := g.P(1, 3)
	for i := 0; i < m; i++ {
		o := Op{K: "ins", V: 2, A: i, X: g.U64() >> 8}
		if inp {
			o.K = "pinp"
		}
		out = append(out, o)
	}
	if inp {
		if f.Kind == "str" || f.Kind == "label" || f.Kind == "dom" || f.Kind == "ip" || m > 0 {
			out = append(out, Op{K: "ppub"})
		}
	}
	if len(out) > 0 && g.P(1, 3) {
		for i := len(out) - 1; i > 0; i-- {
			if out[i].K != "ppub" {
				j := g.Intn(i + 1)
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func steps(sc *Scenario) int {
	n := len(sc.Init)
	for _, t := range sc.Threads {
		n += len(t)
	}
	return 50 + n*60
}

func genC01(g G, p *Prop, deep bool) *Scenario {
	sc, f := g.base(p)
	if huger || g.P(1, 80) {
		g.giant(sc, f, Mix{Ins: 6, Del: 8, Sub: 1, EnOpen: 1, EnStep: 1, KillPct: 20}, g.in(1, 3), g.big(deep), false)
		if f.Kind == "dom" && sc.Fill > 5000 && g.P(7, 8) {
			// takes long to look at
			sc.Fill = g.in(3000, 5000)
			sc.Init[0].N = sc.Fill
		}
		sc.Audit = g.U64() | 1
		return sc
	}
	if g.P(1, 10) {
		m := Mix{Ins: 20, Del: []int{0, 1, 8, 16}[g.Intn(4)], EnOpen: 1, EnAband: 1, KillPct: g.pick(3, 1) * 10}
		if m.Del > 0 {
			m.Sub = 1
		}
		g.marathon(sc, f, m, deep)
		sc.Audit = g.U64() | 1
		return sc
	}
	nk, nt, no := g.size(deep)
	sc.Keys = g.keys(f, nk)
	sc.Init = g.fill(f, nk)
	m := Mix{Ins: 12, Del: 7, Sub: 3, Get: 2, Dot: 1, EnOpen: 1, EnStep: 2, EnEnd: 1, EnAband: 1, Sleep: 1, KillPct: g.pick(2, 1, 1) * 18}
	if g.P(1, 2) {
		m.PInp, m.PPub, m.PIns, m.PDel = 5, 1, 1, 1
	}
	for ; nt > 0; nt-- {
		sc.Threads = append(sc.Threads, g.ops(f, m, no, len(sc.Keys), false))
	}
	sc.Policy = g.policy(steps(sc))
	sc.Audit = g.U64() | 1
	sc.Gap = []int{4, 15, 40, 120}[g.Intn(4)]
	if n := len(sc.Keys); n > 20 {
		sc.Gap *= 3
	}
	sc.Keep = 16
	for _, k := range sc.Keys {
		if f.Kind == "dom" && len(k.R) > 120 {
			// deep names make observations dear
			sc.Gap = 3000
			sc.Keep = 6
			for i, t := range sc.Threads {
				if len(t) > 12 {
					sc.Threads[i] = t[:12]
				}
			}
			if len(sc.Init) > 12 {
				sc.Init = append(sc.Init[:11:11], sc.Init[len(sc.Init)-1])
			}
			break
		}
	}
	return sc
}

func genC02(g G, p *Prop, deep bool) *Scenario {
	sc, f := g.base(p)
	if huger || g.P(1, 80) {
		g.giant(sc, f, Mix{Ins: 6, Del: 6, Sub: 1, Get: 8, Exact: 2, Dot: 2, Emp: 1, EnOpen: 2, EnStep: 3, EnFull: 4}, g.in(1, 3), g.big(deep), false)
		if len(sc.Threads) < 2 {
			sc.Threads = append(sc.Threads, sc.Threads[0])
		}
		return sc
	}
	nk, nt, no := g.size(false)
	if nt < 2 {
		nt = 2
	}
	if nk > 30 {
		nk = 30
	}
	sc.Keys = g.keys(f, nk)
	sc.Init = g.fill(f, nk)
	m := Mix{Ins: 8, Del: 5, Sub: 2, Get: 8, Exact: 3, Dot: 2, Emp: 1, EnOpen: 3, EnStep: 6, EnEnd: 2, EnFull: 2, EnAband: 1, Parse: 2}
	switch g.Intn(4) {
	case 0: // readers only
		m.Ins, m.Del, m.Sub = 0, 0, 0
	case 1:
		m.EnOpen, m.EnStep, m.EnEnd, m.EnFull, m.EnAband = 0, 0, 0, 0, 0
	case 2: // also trees of one's own
		m.PNew, m.PInp, m.PIns, m.PDel, m.PGet, m.PEnum, m.PPub, m.PUpd = 1, 8, 3, 2, 3, 2, 1, 3
	}
	if f.Kind == "dom" {
		m.Parse = 5
	}
	for ; nt > 0; nt-- {
		sc.Threads = append(sc.Threads, g.ops(f, m, no, len(sc.Keys), false))
	}
	for _, th := range sc.Threads {
		for i := range th {
			if th[i].K == "pupd" {
				// what a callback that panics leaves behind goes on using the tree
				th[i].Boom = 0
			}
		}
	}
	sc.Policy = g.policy(steps(sc))
	sc.Keep = 12
	return sc
}

// genMap: C03 to C06.
func genMap(g G, p *Prop, deep bool) *Scenario {
	sc, f := g.base(p)
	if huger || g.P(1, 2000) {
		m := Mix{Ins: 6, Del: 8, Sub: 1, Get: 10, Exact: 4, Emp: 1, EnFull: 1, KillPct: 10}
		own := g.P(1, 3)
		if own {
			m = Mix{PInp: 6, PIns: 6, PDel: 8, PGet: 10}
		}
		g.huge(sc, f, m, g.in(1, 2), own, deep)
		return sc
	}
	if g.P(1, 9) {
		g.wide(sc, f, deep)
		return sc
	}
	if g.P(1, 40) {
		m := Mix{Ins: 20, Del: []int{0, 1, 8, 16}[g.Intn(4)], Get: 4, Exact: 2, KillPct: g.pick(3, 1) * 10}
		if m.Del > 0 {
			m.Sub = 1
		}
		if g.P(1, 3) {
			m.PInp, m.PPub, m.PNew, m.PIns, m.PDel = 10, 1, 1, 5, 5
		}
		g.marathon(sc, f, m, deep)
		return sc
	}
	nk, nt, no := g.size(deep)
	if g.P(1, 3) {
		no *= 4
	}
	sc.Keys = g.keys(f, nk)
	sc.Init = g.fill(f, nk)
	m := Mix{Ins: 10, Del: 8, Sub: 3, Get: 4, Exact: 2, Emp: 1, EnOpen: 1, EnStep: 1, EnAband: 1, Sleep: 1, KillPct: g.pick(3, 1, 1) * 12}
	if g.P(1, 3) {
		m.PInp, m.PPub, m.PNew = 6, 1, 1
		if g.P(1, 2) {
			m.PGet, m.PIns, m.PDel, m.PUpd = 6, 2, 2, 1
		}
	}
	if g.P(1, 6) {
		m.Del, m.Sub = 20, 3
	}
	for ; nt > 0; nt-- {
		sc.Threads = append(sc.Threads, g.ops(f, m, no, len(sc.Keys), false))
	}
	sc.Policy = g.policy(steps(sc))
	sc.Sweep = []int{1, 2, 6}[g.Intn(3)]
	if len(sc.Keys) > 60 {
		sc.Sweep *= 6
	}
	return sc
}

// huger makes all large trees huge, for tests of the machinery.
var huger = os.Getenv("VERIF_HUGE") != ""

// giant: callers with few operations on a large tree, their own or a shared one.
func (g G) giant(sc *Scenario, f *Fam, m Mix, nt int, n int, own bool) {
	if m.Dot != 8 && (huger || g.P(1, 20)) {
		g.huge(sc, f, m, nt, own, n > 3400)
		return
	}
	sc.Keys = g.wideKeys(f, n)
	inp := g.P(4, 5)
	for _, a := range g.order(n) {
		o := Op{K: "pins", A: a, V: 2, X: g.U64() >> 8}
		if inp {
			o.K = "pinp"
		}
		sc.Init = append(sc.Init, o)
	}
	if own {
		sc.Threads = append(sc.Threads, append(sc.Init, g.ops(f, m, g.in(2, 12), n, false)...))
		sc.Init = nil
		nt--
	} else {
		sc.Init = append(sc.Init, Op{K: "ppub"})
	}
	for ; nt > 0; nt-- {
		sc.Threads = append(sc.Threads, g.ops(f, m, g.in(1, 8), n, false))
	}
	sc.Policy = g.policy(steps(sc))
	if sc.Policy.Kind == "rand" && sc.Policy.Gap < 8 {
		sc.Policy.Gap = 20
	}
	sc.Gap = 60 * n
	sc.Sweep = 50
	sc.Keep = 4
}

// huge: as giant, on a tree of several thousand to over 65,536 entries which come in one operation.
func (g G) huge(sc *Scenario, f *Fam, m Mix, nt int, own bool, deep bool) {
	n := [][2]int{{3000, 9000}, {9000, 20000}, {32700, 33500}, {65500, 66500}}[g.pick(4, 2, 1, 2)]
	sc.Fill = g.in(n[0], n[1])
	if deep && g.P(1, 8) {
		sc.Fill = g.in(100000, 200000)
	}
	x := g.U64() >> 8
	at := []int{0, 1, sc.Fill - 1, sc.Fill, sc.Fill + 1, 4096, 32768, 65535, 65536}
	for len(at) < 24 {
		at = append(at, g.Intn(sc.Fill+sc.Fill/10))
	}
	for _, i := range at {
		sc.Keys = append(sc.Keys, fillKey(f, x, i))
	}
	sc.Keys = append(sc.Keys, g.probes(f, sc.Keys)...)
	fill := Op{K: "pfill", N: sc.Fill, V: 2, X: x}
	m.Dot, m.PDot = 0, 0
	k := len(sc.Keys)
	if own {
		ops := g.ops(f, m, g.in(4, 16), k, false)
		for i := range ops {
			ops[i].S = 0
		}
		sc.Threads = append(sc.Threads, append([]Op{fill}, ops...))
		nt--
	} else {
		sc.Init = []Op{fill, {K: "ppub"}}
	}
	for ; nt > 0; nt-- {
		sc.Threads = append(sc.Threads, g.ops(f, m, g.in(1, 10), k, false))
	}
	sc.Policy = g.policy(steps(sc))
	if sc.Policy.Kind == "rand" && sc.Policy.Gap < 20 {
		sc.Policy.Gap = 200
	}
	sc.Gap = 4000 * sc.Fill
	sc.Sweep = 40
	sc.Keep = 3
}

// fillKey is the i-th of many keys.
func fillKey(f *Fam, x uint64, i int) Key {
	s := []byte{byte('A' + i/(26*26*26)%26), byte('A' + i/(26*26)%26), byte('A' + i/26%26), byte('A' + i%26)}
	b3 := []byte{byte(i >> 16), byte(i >> 8), byte(i)}
	switch f.Kind {
	case "dom":
		switch x % 3 {
		case 0:
			return Key{R: wire([]string{string(s), "TAIL"})}
		case 1:
			return Key{R: wire([]string{string(s[2:]), string(s[:2])})}
		}
		return Key{R: wire([]string{string(s)})}
	case "num", "ip":
		w := f.W
		if f.Kind == "ip" {
			w = []int{32, 128}[x%2]
		}
		r, b := make([]byte, w/8), w
		switch x / 2 % 4 {
		case 0, 1:
			copy(r[w/8-3:], b3)
		case 2: // at the other end
			copy(r, b3)
			b = []int{24, w}[x/8%2]
		default: // around the middle
			copy(r[w/16-2:], b3)
			b = w/2 + 8
		}
		return Key{R: r, B: b}
	}
	return Key{R: s}
}

// marathon: a long chain of versions, each derived from the one before, on a tree of moderate size.
func (g G) marathon(sc *Scenario, f *Fam, m Mix, deep bool) {
	sc.Keys = g.keys(f, g.in(4, 64))
	long := 0
	for _, k := range sc.Keys {
		if f.Kind == "dom" && len(k.R) > long {
			long = len(k.R)
		}
	}
	sc.Init = g.fill(f, len(sc.Keys))
	n := g.in(300, 1000)
	if deep {
		n += g.logu(2000)
	}
	if long > 60 {
		n = g.in(20, 60)
	}
	skew := g.in(0, 3)
	for nt := g.in(1, 2); nt > 0; nt-- {
		ops := g.ops(f, m, n, len(sc.Keys), false)
		for i := range ops {
			if !g.P(1, 30) {
				ops[i].V = 2
			}
			if skew > 0 && !g.P(1, 4*skew) {
				// most operations meet few keys
				ops[i].A %= 1 + len(sc.Keys)/8
			}
		}
		sc.Threads = append(sc.Threads, ops)
		n = g.in(3, 40)
	}
	sc.Policy = g.policy(steps(sc))
	if sc.Policy.Kind == "rand" && sc.Policy.Gap < 8 {
		sc.Policy.Gap = 20
	}
	sc.Gap = 3000
	sc.Sweep = 40
	sc.Keep = 24
	sc.Sparse = []int{1, 7, 15, 31}[g.pick(1, 3, 3, 3)]
}

// steady: thousands of updates of a tree which stays as large as it is.
func (g G) steady(sc *Scenario, f *Fam, n int, deep bool) {
	sc.Keys = g.bigKeys(f, n)
	n = len(sc.Keys)
	for _, a := range g.order(n) {
		sc.Init = append(sc.Init, Op{K: "pinp", A: a, V: 2, X: g.U64() >> 8})
	}
	m := Mix{Ins: 10, Del: 4 * g.pick(3, 1, 1)}
	if g.P(1, 3) {
		m = Mix{PInp: 10 * g.pick(1, 3), PIns: 1 + 4*g.pick(1, 1, 1), PDel: 4 * g.pick(3, 1, 1)}
	} else {
		sc.Init = append(sc.Init, Op{K: "ppub"})
	}
	no := g.in(500, 1200) << g.Intn(4)
	if deep {
		no = g.in(500, 1200) << g.Intn(6)
	}
	ops := g.ops(f, m, no, n, false)
	for i := range ops {
		ops[i].V, ops[i].S = 2, 0
	}
	if m.PIns > 0 {
		ops = append(sc.Init, ops...)
		sc.Init = nil
		for i := range ops {
			ops[i].S = 0
		}
	}
	sc.Threads = [][]Op{ops}
	if g.P(1, 2) {
		o := g.ops(f, Mix{Ins: 4, Del: 2, Get: 2}, g.in(2, 10), n, false)
		sc.Threads = append(sc.Threads, o)
	}
	sc.Policy = g.policy(steps(sc))
	if sc.Policy.Kind == "rand" && sc.Policy.Gap < 20 {
		sc.Policy.Gap = 100
	}
	sc.Gap = 60 * n
	sc.Sweep = 400
	sc.Keep = 4
}

// big tells how large a giant is.
func (g G) big(deep bool) int {
	n := g.in(200, 400) << g.pick(4, 3, 2, 1)
	if deep {
		n += g.logu(4000)
	}
	return n
}

// wide: many siblings, inserted and removed in patterns, by one or two callers.
func (g G) wide(sc *Scenario, f *Fam, deep bool) {
	n := g.in(30, 160)
	if g.P(1, 4) {
		n = g.in(150, 500)
	}
	if deep && g.P(1, 6) {
		n = g.in(500, 2000)
	}
	sc.Wide = true
	sc.Keys = g.wideKeys(f, n)
	sc.Sweep = 40
	sc.Keep = 8
	nt := g.in(1, 2)
	for t := 0; t < nt; t++ {
		var ops []Op
		phases := g.in(1, 4)
		priv := g.P(1, 3)
		for ph := 0; ph < phases; ph++ {
			order := g.order(n)
			kind := g.pick(5, 4)
			if ph == 0 {
				kind = 0
			}
			frac := g.in(1, 4)
			for i, a := range order {
				if kind == 1 && i*4 >= n*frac {
					break
				}
				o := Op{A: a, V: 2, X: g.U64() >> 8}
				switch {
				case kind == 0 && priv:
					o.K = "pinp"
				case kind == 0:
					o.K = "ins"
				case priv:
					o.K = "pdel"
				default:
					o.K = "del"
				}
				ops = append(ops, o)
				if g.P(1, 24) {
					// delete something, perhaps absent
					d := Op{K: "del", A: g.Intn(n), V: 2, X: g.U64() >> 8}
					if priv {
						d.K = "pdel"
					}
					ops = append(ops, d)
				}
				if !priv && g.P(1, 60) {
					ops = append(ops, Op{K: o.K, A: g.Intn(n), V: 2, X: g.U64() >> 8, Kill: int64(g.logu(400))})
				}
				if !priv && f.Kind == "str" && sc.Cmp != 0 && g.P(1, 60) {
					ops = append(ops, Op{K: o.K, A: g.Intn(n), V: 2, X: g.U64() >> 8, Boom: int64(g.in(1, 12))})
				}
				if g.P(1, 10) {
					k := "get"
					if priv {
						k = "pget"
					}
					ops = append(ops, Op{K: k, A: g.Intn(n), V: 2, X: g.U64() >> 8})
				}
			}
			if priv && g.P(1, 3) {
				ops = append(ops, Op{K: "ppub"})
				priv = false
			}
		}
		if priv {
			ops = append(ops, Op{K: "ppub"})
		}
		for i := 0; i < 8; i++ {
			ops = append(ops, Op{K: "get", A: g.Intn(n), V: 2})
		}
		sc.Threads = append(sc.Threads, ops)
	}
	sc.Policy = g.policy(steps(sc))
	if sc.Policy.Kind == "rand" && sc.Policy.Gap < 8 {
		sc.Policy.Gap = 60
	}
	if sc.Policy.Kind == "rr" {
		sc.Policy.Gap = 500
	}
}

func (g G) order(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	switch g.Intn(6) {
	case 0:
	case 1:
		for i := range o {
			o[i] = n - 1 - i
		}
	case 2: // from both ends
		for i := range o {
			if i%2 == 0 {
				o[i] = i / 2
			} else {
				o[i] = n - 1 - i/2
			}
		}
	case 3: // every other
		k := 0
		s := g.in(2, 5)
		for j := 0; j < s; j++ {
			for i := j; i < n; i += s {
				o[k] = i
				k++
			}
		}
	case 4: // blocks
		b := g.in(2, 17)
		for i := range o {
			bl := i / b * b
			e := bl + b
			if e > n {
				e = n
			}
			o[i] = e - 1 - (i - bl)
		}
	default:
		for i := n - 1; i > 0; i-- {
			j := g.Intn(i + 1)
			o[i], o[j] = o[j], o[i]
		}
	}
	return o
}

func genEnum(g G, p *Prop, deep bool) *Scenario {
	sc, f := g.base(p)
	if huger || g.P(1, 80) {
		g.giant(sc, f, Mix{Ins: 4, Del: 4, Sub: 1, EnOpen: 2, EnStep: 4, EnEnd: 2, EnFull: 4, Sleep: 1}, g.in(1, 3), g.big(deep), false)
		return sc
	}
	nk, nt, no := g.size(deep)
	sc.Keys = g.keys(f, nk)
	if g.P(1, 15) {
		sc.Keys = g.wideKeys(f, g.in(50, 300))
	}
	sc.Init = g.fill(f, len(sc.Keys))
	m := Mix{Ins: 8, Del: 5, Sub: 2, EnOpen: 6, EnStep: 14, EnEnd: 3, EnFull: 3, EnAband: 1, Sleep: 2, KillPct: g.pick(3, 1) * 10}
	if g.P(1, 3) {
		m.PInp, m.PPub, m.PEnum, m.PDel = 6, 1, 2, 1
	}
	if nt > 1 && g.P(1, 4) {
		// one caller only derives
		sc.Threads = append(sc.Threads, g.ops(f, Mix{Ins: 10, Del: 6, Sub: 2, Sleep: 1}, no, len(sc.Keys), false))
		nt--
	}
	for ; nt > 0; nt-- {
		sc.Threads = append(sc.Threads, g.ops(f, m, no, len(sc.Keys), false))
	}
	sc.Policy = g.policy(steps(sc))
	return sc
}

func genLife(g G, p *Prop, deep bool) *Scenario {
	sc, f := g.base(p)
	if huger || g.P(1, 80) {
		g.giant(sc, f, Mix{Ins: 4, Del: 4, Sub: 1, Get: 2, Exact: 1, Emp: 1, Dot: 1, EnOpen: 4, EnStep: 4, EnEnd: 2, EnFull: 4, EnAband: 3, Sleep: 1}, g.in(1, 3), g.big(deep), false)
		return sc
	}
	nk, nt, no := g.size(false)
	if g.P(1, 20) {
		nk = g.in(60, 260)
	}
	sc.Keys = g.keys(f, nk)
	sc.Init = g.fill(f, len(sc.Keys))
	m := Mix{Ins: 5, Del: 4, Sub: 2, Get: 4, Exact: 2, Dot: 1, Emp: 1, EnOpen: 8, EnStep: 8, EnEnd: 3, EnFull: 5, EnAband: 8, Sleep: 2, PInp: 1, PPub: 1, KillPct: g.pick(4, 1) * 10}
	if g.P(1, 12) {
		// a great many abandoned enumerations
		n := g.in(30, 90)
		if g.P(1, 3) {
			n = g.in(90, 300)
			if g.P(1, 8) {
				n = g.in(1000, 1500)
			}
		}
		for i := 0; i < n; i++ {
			sc.Init = append(sc.Init, Op{K: "eopen", V: 2, X: g.U64() >> 8})
			if g.P(1, 3) {
				sc.Init = append(sc.Init, Op{K: "estep", V: 1, N: g.logu(6)})
			}
			sc.Init = append(sc.Init, Op{K: "eaband", V: 0})
		}
	}
	if g.P(1, 5) && f.Upd != nil {
		m.PUpd, m.PIns = 4, 6
	}
	for ; nt > 0; nt-- {
		sc.Threads = append(sc.Threads, g.ops(f, m, no, len(sc.Keys), false))
	}
	sc.Policy = g.policy(steps(sc))
	return sc
}

func genPriv(g G, p *Prop, deep bool) *Scenario {
	sc, f := g.base(p)
	if huger || g.P(1, 80) {
		g.giant(sc, f, Mix{PNew: 1, PInp: 10, PIns: 5, PDel: 8, PEnum: 3, PGet: 3}, g.in(1, 3), g.big(deep), true)
		return sc
	}
	if g.P(1, 10) {
		n := g.in(20, 160)
		sc.Keys = g.wideKeys(f, n)
		for i := range sc.Keys {
			if f.Kind == "dom" && g.P(1, 5) {
				sc.Keys[i].R = append(wire([]string{"X"}), sc.Keys[i].R...)
			}
		}
		var ops []Op
		inp := g.P(2, 3)
		for _, a := range g.order(n) {
			o := Op{K: "pinp", A: a, X: g.U64() >> 8}
			if !inp && g.P(1, 2) {
				o.K = "pins"
			}
			if g.P(1, 6) {
				ops = append(ops, Op{K: "pdel", A: g.Intn(n), X: g.U64() >> 8})
			}
			ops = append(ops, o)
		}
		ops = append(ops, Op{K: "penum"})
		for _, a := range g.order(n)[:n/2] {
			ops = append(ops, Op{K: "pdel", A: a, X: g.U64() >> 8})
		}
		ops = append(ops, Op{K: "penum"})
		for i := 0; i < n/4; i++ {
			ops = append(ops, Op{K: []string{"pinp", "pins"}[g.Intn(2)], A: g.Intn(n), X: g.U64() >> 8})
		}
		ops = append(ops, Op{K: "penum"})
		sc.Threads = [][]Op{ops}
		sc.Sweep = 30
		sc.Policy = g.policy(steps(sc))
		return sc
	}
	nk, nt, no := g.size(deep)
	sc.Keys = g.keys(f, nk)
	m := Mix{PNew: 2, PInp: 14, PIns: 8, PDel: 7, PGet: 2, PEnum: 2, Sleep: 1}
	switch g.Intn(4) {
	case 0:
		m.PIns, m.PDel = 0, 0
	case 1:
		m.PNew = 0
	}
	if g.P(1, 4) {
		// few keys, the one above all others among them: trees are emptied
		// and filled again and again
		if len(sc.Keys) > 4 {
			sc.Keys = sc.Keys[:g.in(1, 4)]
		}
		if f.Kind == "dom" {
			sc.Keys = append(sc.Keys, Key{R: wire(nil)})
		}
		m.PDel, m.PIns = 12, g.Intn(8)
	}
	for ; nt > 0; nt-- {
		ops := g.ops(f, m, no, len(sc.Keys), false)
		ops = append(ops, Op{K: "penum", S: 0, X: g.U64()}, Op{K: "penum", S: 1, X: g.U64()})
		sc.Threads = append(sc.Threads, ops)
	}
	sc.Policy = g.policy(steps(sc))
	sc.Sweep = g.in(1, 3)
	return sc
}

func genUpd(g G, p *Prop, deep bool) *Scenario {
	sc, f := g.base(p)
	if huger || g.P(1, 80) {
		g.giant(sc, f, Mix{PInp: 4, PIns: 4, PDel: 2, PUpd: 10}, g.in(1, 3), g.big(deep), true)
		return sc
	}
	nk, nt, no := g.size(deep)
	if nt > 3 {
		nt = 3
	}
	sc.Keys = g.ipKeys(nk)
	if g.P(1, 2) {
		// one big network at the top of each family
		for _, w := range []int{32, 128} {
			for b := 0; b < 3; b++ {
				for _, k := range sc.Keys {
					if 8*len(k.R) == w {
						sc.Keys = append(sc.Keys, Key{R: k.R, B: g.Intn(w + 1)})
						break
					}
				}
			}
		}
	}
	m := Mix{PNew: 1, PInp: 10, PIns: 8, PDel: 3, PUpd: 8, Sleep: 1}
	for ; nt > 0; nt-- {
		var ops []Op
		for i := range sc.Keys {
			if g.P(3, 4) {
				ops = append(ops, Op{K: []string{"pinp", "pins"}[g.Intn(2)], A: i, X: g.U64() >> 8})
			}
		}
		ops = append(ops, g.ops(f, m, no, len(sc.Keys), false)...)
		sc.Threads = append(sc.Threads, ops)
	}
	sc.Policy = g.policy(steps(sc))
	return sc
}

func genCost(g G, p *Prop, deep bool) *Scenario {
	sc, f := g.base(p)
	if f.Kind == "str" && sc.Cmp != 0 {
		sc.Cmp = g.in(1, 5)
	}
	if huger || g.P(1, 200) {
		m := Mix{Ins: 6, Del: 8, Get: 10}
		own := g.P(1, 2)
		if own {
			m = Mix{PInp: 6, PIns: 6, PDel: 8, PGet: 10}
		}
		g.huge(sc, f, m, 1, own, deep)
		return sc
	}
	if g.P(1, 12) {
		g.steady(sc, f, g.in(10, 300), deep)
		sc.Wide = true
		return sc
	}
	g.wide(sc, f, deep)
	return sc
}

func genConv(g G, p *Prop, deep bool) *Scenario {
	sc := &Scenario{Fam: "domain"}
	nt := 1 + g.pick(2, 6, 5, 3, 2)
	kill := g.pick(3, 1) * 12
	if g.P(1, 40) {
		// more names than anything may keep
		n := g.in(100, 300) << g.pick(4, 3, 2, 1)
		if huger || g.P(1, 60) {
			n <<= 4
		}
		sc.Keys = g.convKeys(n)
		for nt = g.in(1, 3); nt > 0; nt-- {
			ops := g.convOps(n+g.in(0, n), n, p.ID == "C13", kill/6)
			for i, a := range g.order(n) {
				ops[i].A = a
			}
			for i := n; i < len(ops); i++ {
				if g.P(1, 2) {
					ops[i].A = ops[g.Intn(i)].A
				}
			}
			sc.Threads = append(sc.Threads, ops)
		}
		sc.Policy = g.policy(steps(sc) * 3)
		if sc.Policy.Kind == "rand" && sc.Policy.Gap < 8 {
			sc.Policy.Gap = 20
		}
		return sc
	}
	sc.Keys = g.convKeys(1 + g.logu(32))
	for ; nt > 0; nt-- {
		sc.Threads = append(sc.Threads, g.convOps(4+g.logu(64), len(sc.Keys), p.ID == "C13", kill))
	}
	sc.Policy = g.policy(steps(sc) * 3)
	return sc
}

// genDump: dumps of versions being derived from.
func genDump(g G, p *Prop, deep bool) *Scenario {
	sc, f := g.base(p)
	if huger || g.P(1, 80) {
		g.giant(sc, f, Mix{Ins: 4, Del: 4, Dot: 8}, g.in(1, 3), g.big(deep), false)
		return sc
	}
	nk, nt, no := g.size(deep)
	sc.Keys = g.keys(f, nk)
	if g.P(1, 20) {
		sc.Keys = g.wideKeys(f, g.in(30, 120))
	}
	for _, k := range sc.Keys {
		if len(k.R) > 2000 && len(sc.Keys) > 4 {
			sc.Keys = sc.Keys[:4]
			break
		}
	}
	if f.Kind == "str" && g.P(1, 4) {
		sc.Keys = append(sc.Keys, Key{R: []byte("N0")}, Key{R: []byte("\" v: \"")}, Key{R: []byte("\\")}, Key{R: []byte("a\nN0 -> { N1 N2 }")})
	}
	sc.Init = g.fill(f, len(sc.Keys))
	m := Mix{Ins: 10, Del: 7, Dot: 8, EnOpen: 1, EnStep: 1, Sleep: 1, KillPct: g.pick(3, 1) * 12}
	if g.P(1, 3) {
		m.PInp, m.PPub, m.PDel, m.PDot = 6, 1, 2, 3
	}
	for ; nt > 0; nt-- {
		sc.Threads = append(sc.Threads, g.ops(f, m, no, len(sc.Keys), false))
	}
	sc.Policy = g.policy(steps(sc))
	return sc
}

// genSpace: long histories over few and many keys.
func genSpace(g G, p *Prop, deep bool) *Scenario {
	sc, f := g.base(p)
	if g.P(1, 100) {
		g.held(sc, f)
		return sc
	}
	if huger || g.P(1, 1000) {
		g.huge(sc, f, Mix{PInp: 6, PIns: 6, PDel: 8, PGet: 2}, 1, true, deep)
		return sc
	}
	if g.P(1, 8) {
		g.wide(sc, f, false)
		return sc
	}
	if g.P(1, 20) {
		g.steady(sc, f, 2+g.logu(60), false)
		return sc
	}
	nk, nt, no := g.size(deep)
	if g.P(1, 3) {
		no *= 4
	}
	sc.Keys = g.keys(f, nk)
	sc.Init = g.fill(f, nk)
	m := Mix{Ins: 10, Del: 10, Sub: 3, EnOpen: 1, EnStep: 1, EnAband: 1, Sleep: 1, KillPct: g.pick(3, 1, 1) * 12}
	if g.P(1, 2) {
		m.PInp, m.PPub, m.PNew, m.PIns, m.PDel = 6, 1, 1, 3, 6
		m.PUpd = 2
	}
	for ; nt > 0; nt-- {
		sc.Threads = append(sc.Threads, g.ops(f, m, no, len(sc.Keys), false))
	}
	sc.Policy = g.policy(steps(sc))
	return sc
}

// held: many entries come and nearly all of them go; then it is seen what the version at the end keeps alive.
func (g G) held(sc *Scenario, f *Fam) {
	n := g.in(300, 900) << g.pick(3, 2, 2, 1)
	x := g.U64() >> 8
	sc.Style = 8
	sc.Pool = 0
	sc.Weak = true
	sc.Fill = n
	for i := 0; i < 24; i++ {
		sc.Keys = append(sc.Keys, fillKey(f, x, g.Intn(n)))
	}
	ops := []Op{{K: "pfill", N: n, X: x, V: 2}}
	for i := g.Intn(6); i > 0; i-- {
		ops = append(ops, g.ops(f, Mix{PInp: 6, PIns: 6, PDel: 4}, 1, len(sc.Keys), false)...)
	}
	ops = append(ops, Op{K: "pdrop", N: n, X: x, A: 1 + g.logu(12)})
	if g.P(1, 3) {
		ops = append(ops, Op{K: "pins", A: g.Intn(24), X: g.U64() >> 8})
	}
	for i := range ops {
		ops[i].S = 0
	}
	sc.Threads = [][]Op{append(ops, Op{K: "ppub"})}
	sc.Policy = g.policy(steps(sc))
	sc.Keep = 2
}

// genPath: updates and lookups in trees with many entries.
func genPath(g G, p *Prop, deep bool) *Scenario {
	sc, f := g.base(p)
	switch g.pick(30, 60, 20, 12) {
	case 0:
		g.wide(sc, f, deep)
		return sc
	case 3:
		g.steady(sc, f, g.in(60, 300), deep)
		return sc
	case 2:
		m := Mix{PInp: 8, PIns: 4, PDel: 8, PGet: 4}
		g.giant(sc, f, m, g.in(1, 2), g.big(deep), true)
		return sc
	}
	n := g.big(deep)
	sc.Keys = g.bigKeys(f, n)
	n = len(sc.Keys)
	probes := g.probes(f, sc.Keys)
	sc.Keys = append(sc.Keys, probes...)
	for _, a := range g.order(n) {
		sc.Init = append(sc.Init, Op{K: "pinp", A: a, V: 2, X: g.U64() >> 8})
	}
	sc.Init = append(sc.Init, Op{K: "ppub"})
	big := 8
	if f.Kind == "str" && sc.Cmp != 0 {
		big = 4
	}
	m := Mix{Ins: 5, Del: 6, Sub: 6, Get: 6, Exact: 3, Emp: 1, PInp: 3, PPub: 1, KillPct: g.pick(3, 1) * 12}
	if f.Sub == nil {
		m.Del += m.Sub
	}
	for nt := g.in(1, 3); nt > 0; nt-- {
		ops := g.ops(f, m, g.in(10, 50), len(sc.Keys), false)
		for i := range ops {
			if g.P(2, 3) {
				ops[i].A = n + g.Intn(len(probes))
			}
			if g.P(2, 3) {
				ops[i].V = big
			}
		}
		sc.Threads = append(sc.Threads, ops)
	}
	sc.Policy = g.policy(steps(sc))
	if sc.Policy.Kind == "rand" && sc.Policy.Gap < 8 {
		sc.Policy.Gap = 20
	}
	sc.Gap = 60 * n
	sc.Keep = 80
	return sc
}

// bigKeys are many keys, less regular than wideKeys.
func (g G) bigKeys(f *Fam, n int) []Key {
	if g.P(1, 3) {
		return g.wideKeys(f, n)
	}
	out := make([]Key, n)
	switch f.Kind {
	case "str", "label":
		m := g.in(3, 8)
		for i := range out {
			out[i].R = g.bytes(g.in(2, m))
			if f.Kind == "label" {
				out[i].R = upper(out[i].R)
			}
		}
	case "dom":
		m := 1 + g.logu(n/4)
		for i := range out {
			l := []string{string(upper(g.bytes(g.in(2, 4)))), string([]byte{'P', byte(i % m), byte(i % m >> 8)}), "TAIL"}
			switch {
			case m == 1:
				l = append(l[:1:1], "T")
			case g.P(1, 12):
				l = l[1:]
			}
			out[i].R = wire(mapUpper(l))
		}
	default:
		w := f.W
		if f.Kind == "ip" {
			w = 32
			if g.P(3, 4) {
				w = 128
			}
		}
		from, base := g.in(0, w-12), g.bytes(w/8)
		for i := range out {
			k, x := append([]byte(nil), base...), g.bytes(w/8)
			for b := from; b < w; b++ {
				k[b/8] = k[b/8]&^(0x80>>uint(b%8)) | x[b/8]&(0x80>>uint(b%8))
			}
			out[i] = Key{R: k, B: w - g.pick(6, 1, 1, 1, 1)}
		}
	}
	return out
}

func mapUpper(l []string) []string {
	out := make([]string, len(l))
	for i, s := range l {
		out[i] = string(upper([]byte(s)))
	}
	return out
}

// probes are keys around the given ones: above, below, beside, elsewhere.
func (g G) probes(f *Fam, keys []Key) []Key {
	out := []Key{}
	for len(out) < 24 {
		k := keys[g.Intn(len(keys))]
		r := append([]byte(nil), k.R...)
		switch f.Kind {
		case "str", "label":
			switch g.Intn(6) {
			case 0:
				r = r[:g.Intn(len(r)+1)]
			case 1:
				r = append(r, g.bytes(g.in(1, 3))...)
			case 2:
				r = g.bytes(g.in(1, 12))
			case 3:
				r = []byte{byte(g.pick(1, 1) * 255)}
			default:
				if len(r) > 0 {
					r[g.Intn(len(r))] = byte(g.Intn(256))
				}
			}
			if f.Kind == "label" {
				r = upper(r)
			}
			out = append(out, Key{R: r})
		case "dom":
			l := wireLabels(r)
			switch g.Intn(6) {
			case 0, 1:
				l = l[g.Intn(len(l)+1):]
			case 2:
				l = append([]string{string(upper(g.bytes(g.in(1, 5))))}, l...)
			case 3:
				l = []string{string(upper(g.bytes(3)))}
			default:
				if len(l) > 0 {
					l[g.Intn(len(l))] = string(upper(g.bytes(g.in(1, 5))))
				}
			}
			out = append(out, Key{R: wire(l)})
		default:
			w := 8 * len(r)
			b := k.B
			switch g.Intn(5) {
			case 0, 1:
				b = g.Intn(w + 1)
			case 2:
				b = g.Intn(w + 1)
				i := g.Intn(w)
				r[i/8] ^= 0x80 >> uint(i%8)
			case 3:
				b = 0
			default:
				r = g.bytes(len(r))
			}
			out = append(out, Key{R: r, B: b})
		}
	}
	return out
}
