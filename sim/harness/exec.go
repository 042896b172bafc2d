package main

import (
	"fmt"
	"math"
	"net"
	"runtime/debug"
	"sort"
	"strings"

	"verifsim/rt"
)

// Flags say which oracles are armed.
type Flags struct {
	Res, Base, Enum, Life, Priv, Upd, Cost, Race, Conv, Iter, Dump, Space, Path bool
}

// Violation of the property under check.
type Violation struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Msg   string `json:"message"`
	Where string `json:"where"`
}

type item struct {
	k string
	v uint64
}

type getRes struct {
	v  uint64
	ok bool
}

// Obs is what can be observed of a version.
type Obs struct {
	items []item
	dot   string
	empty bool
	gets  []getRes
	err   string
}

type Ver struct {
	T   any
	M   Model
	obs *Obs
	hb  byte
	id  int
	by  string
}

type Strm struct {
	s       *Stream
	v       *Ver
	id      int
	owner   int
	got     []item
	who     []int
	closed  bool
	aband   bool
	readers map[int]bool
	raw     bool
}

type priv struct {
	T    any
	M    Model
	log  []plog
	last bool // what the last deletion reported
}

// plog is one update of a private tree.
type plog struct {
	k   string
	a   *Arg
	tok uint64
}

type thread struct {
	k     int
	cur   *Ver
	priv  [2]*priv
	open  []*Strm
	opStr string
}

// Counts of what happened in a run.
type Counts struct {
	Ops, Derive, Lookups, EnumItems, Streams, Abandoned, Killed, Boomed, CbPanics int
	Paused, Audits, Observations, Sweeps, Sleeps, SharedStreams, PrivOps, Updates int
	Convs, ConvErrs, Iters, IterStops, IterPanics, StalledAtEnd, Foreign          int
	Dumps, SpaceChecks, PathChecks                                                int
	HeldChecks, MaxEntries, Versions, ObsStuck, MidOpAudits                       int
}

type Run struct {
	sc    *Scenario
	f     *Fam
	fl    Flags
	cmp   *Cmp
	args  []*Arg
	vers  []*Ver
	last  *Ver
	nver  int
	strms []*Strm
	viol  *Violation
	sim   *rt.Sim
	gate  rt.WaitQ
	open  bool
	done  int
	n     Counts
	audit *rt.Rng
	obsIx []int
	inflt int // derivations in progress
	stop  bool
	conv  *convRun
	maxL  int // labels in the longest key
	maxB  int // bytes in the longest label
	veto  map[*rt.Task]func() bool
}

func (r *Run) fail(class, f string, a ...any) {
	if v := r.veto[rt.Cur()]; v != nil && r.viol == nil && !r.stop {
		delete(r.veto, rt.Cur())
		if v() {
			r.foreign()
			return
		}
	}
	if r.viol == nil {
		where := ""
		if t := rt.Cur(); t != nil {
			where = fmt.Sprintf("%s op %d", t.Name, t.Op)
		}
		r.viol = &Violation{Prop: r.sc.Prop, Class: class, Msg: r.f.Name + ": " + fmt.Sprintf(f, a...), Where: where}
	}
	r.stop = true
	rt.Abort()
}

type outcome int

const (
	okOut outcome = iota
	killedOut
	boomOut
	cbOut
	capOut
	panicOut
)

type cbPanic struct{ n int }

func (r *Run) try(f func()) (o outcome, v any, stack string) {
	defer func() {
		if x := recover(); x != nil {
			switch {
			case rt.IsDead(x) || rt.IsObsStuck(x):
				panic(x)
			case rt.IsKilled(x):
				o = killedOut
			case rt.IsCap(x):
				o, v = capOut, x
			default:
				switch x.(type) {
				case cmpPanic:
					o = boomOut
				case cbPanic:
					o = cbOut
				default:
					o, v, stack = panicOut, x, string(debug.Stack())
				}
			}
		}
	}()
	f()
	return
}

func trim(stack string) string {
	var out []string
	ls := strings.Split(stack, "\n")
	for i, l := range ls {
		if strings.Contains(l, "infobloxopen/go-trees") && !strings.Contains(l, "/rt.") && i+1 < len(ls) {
			w := strings.TrimSpace(ls[i+1])
			if j := strings.LastIndex(w, "/"); j >= 0 {
				w = w[j+1:]
			}
			if j := strings.Index(w, " "); j >= 0 {
				w = w[:j]
			}
			out = append(out, w)
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// Versions.

func (r *Run) keep() int {
	if r.sc.Keep > 0 {
		return r.sc.Keep
	}
	return 48
}

func (r *Run) addVer(th *thread, T any, m Model, by string) *Ver {
	v := &Ver{T: T, M: m, id: r.nver, by: by}
	r.nver++
	rt.Release(&v.hb)
	skip := r.sc.Sparse > 1 && len(r.vers) > 1 && r.nver%r.sc.Sparse != 0
	if r.fl.Base && !skip {
		v.obs = r.observe(v)
	}
	if skip {
		// only in passing
	} else if len(r.vers) < r.keep() {
		r.vers = append(r.vers, v)
	} else if i := r.victim(); i >= 0 {
		if r.fl.Base && r.audit.Intn(8) == 0 {
			r.reobserve(r.vers[i], "before it was let go")
		}
		r.vers[i] = v
	}
	th.cur = v
	r.last = v
	if len(m) > r.n.MaxEntries {
		r.n.MaxEntries = len(m)
	}
	r.n.Versions++
	return v
}

// victim tells which of the kept versions gives way to the next one: mostly those of the first half in turn, the
// others the more rarely the higher their index, so that versions of all ages are kept.
func (r *Run) victim() int {
	n := len(r.vers)
	h := rt.Mix(uint64(r.nver), 0x51)
	if n < 4 || h&3 != 0 {
		return (r.nver * 7) % ((n + 1) / 2)
	}
	j := int(h>>8) % (n - (n+1)/2)
	if j < 0 {
		j = -j
	}
	k := j
	if k > 7 {
		k = 7
	}
	if h>>32&(1<<k-1) != 0 {
		return (r.nver * 7) % ((n + 1) / 2)
	}
	return (n+1)/2 + j
}

func (r *Run) version(th *thread, sel int) *Ver {
	var v *Ver
	switch {
	case sel%4 == 0:
		v = r.vers[(sel/4)%len(r.vers)]
	case sel%4 == 1:
		v = r.last
	default:
		v = th.cur
		if v == nil {
			v = r.last
		}
	}
	rt.Acquire(&v.hb)
	return v
}

// Observation.

func (r *Run) drain(s *Stream, max int) ([]item, string) {
	var out []item
	for {
		k, v, ok := s.next()
		if !ok {
			return out, ""
		}
		out = append(out, item{k, v})
		if len(out) > max {
			return out, "more items than the content allows"
		}
	}
}

// observe looks at v from all sides, atomically.
func (r *Run) observe(v *Ver) *Obs {
	o := &Obs{}
	done := rt.Observe(func() {
		out, val, st := r.try(func() {
			tag := rt.Cur().Tag
			rt.Cur().Tag = -5
			s := r.f.Enum(v.T)
			var e string
			o.items, e = r.drain(s, 2*len(v.M)+50)
			if e != "" {
				o.err = e
			}
			rt.Cur().Tag = tag
			if r.f.Dot != nil && len(v.M) < 200 {
				o.dot = r.f.Dot(v.T)
			}
			if r.f.Empty != nil {
				o.empty = r.f.Empty(v.T)
			}
			for _, i := range r.obsIx {
				x, ok := r.f.Get(v.T, r.args[i])
				o.gets = append(o.gets, getRes{x, ok})
			}
		})
		if out == panicOut {
			o.err = "panic: " + rt.Show(val) + " at " + trim(st)
		} else if out == capOut {
			o.err = "no end"
		}
	})
	r.n.Observations++
	if !done {
		r.n.ObsStuck++
		return nil
	}
	return o
}

func (o *Obs) diff(p *Obs, r *Run) string {
	if o.err != p.err {
		return fmt.Sprintf("was %q, now %q", o.err, p.err)
	}
	if len(o.items) != len(p.items) {
		return fmt.Sprintf("enumeration had %d entries, now %d", len(o.items), len(p.items))
	}
	for i := range o.items {
		if o.items[i] != p.items[i] {
			return fmt.Sprintf("entry %d of the enumeration was %q=%d, now %q=%d", i, o.items[i].k, o.items[i].v, p.items[i].k, p.items[i].v)
		}
	}
	if o.empty != p.empty {
		return fmt.Sprintf("emptiness was %v, now %v", o.empty, p.empty)
	}
	for i := range o.gets {
		if i < len(p.gets) && o.gets[i] != p.gets[i] {
			return fmt.Sprintf("lookup of %s was %v, now %v", r.showArg(r.args[r.obsIx[i]]), o.gets[i], p.gets[i])
		}
	}
	if o.dot != p.dot {
		return "dump differs"
	}
	return ""
}

func (r *Run) showArg(a *Arg) string {
	switch r.f.Kind {
	case "num":
		return fmt.Sprintf("%x/%d", a.num, a.bits)
	case "ip":
		if a.byIP {
			return fmt.Sprintf("IP %v", a.ip)
		}
		return fmt.Sprintf("net %v", a.net)
	}
	return fmt.Sprintf("%q", a.str)
}

// reobserve compares v with its baseline.
func (r *Run) reobserve(v *Ver, when string) {
	if v.obs == nil || r.stop {
		return
	}
	o := r.observe(v)
	if o == nil {
		return
	}
	if d := v.obs.diff(o, r); d != "" {
		r.fail("changed", "version %d (by %s) changed, seen %s: %s", v.id, v.by, when, d)
	}
}

func (r *Run) hook(t *rt.Task) {
	if r.stop {
		return
	}
	r.n.Audits++
	if t.Lib || r.inflt > 0 {
		r.n.MidOpAudits++
	}
	k := 1 + r.audit.Intn(2)
	for ; k > 0 && len(r.vers) > 0; k-- {
		r.reobserve(r.vers[r.audit.Intn(len(r.vers))], "in the middle of "+t.Name+"'s operation")
	}
	if r.inflt > 0 && r.last != nil {
		r.reobserve(r.last, "in the middle of "+t.Name+"'s operation")
	}
	r.nextAudit()
}

func (r *Run) nextAudit() {
	g := r.sc.Gap
	if g < 1 {
		g = 50
	}
	// rarer as the run goes on
	g += g * r.n.Audits / 40
	r.sim.SetHook(r.sim.Now()+1+int64(r.audit.Intn(2*g)), r.hook)
}

// Comparison with the model.

func (r *Run) chkGet(what string, T any, m Model, a *Arg) {
	want, wok := r.f.mGet(m, a)
	got, ok := r.f.Get(T, a)
	r.n.Lookups++
	if ok != wok || ok && got != want {
		r.fail("get", "%s of %s gives %v,%v, the history implies %v,%v (%d entries)", what, r.showArg(a), got, ok, want, wok, len(m))
		return
	}
	if r.f.Exact != nil {
		want, wok := m.get(a.canon)
		got, ok := r.f.Exact(T, a)
		if ok != wok || ok && got != want {
			r.fail("exact", "exact lookup of %s gives %v,%v, the history implies %v,%v (%d entries)", r.showArg(a), got, ok, want, wok, len(m))
		}
	}
}

// chkKids steps through a number tree from its root.
func (r *Run) chkKids(what string, T any, m Model) {
	if r.f.Kids == nil || r.stop {
		return
	}
	i, nodes := 0, 0
	var walk func(T any, in string)
	walk = func(T any, in string) {
		if r.stop {
			return
		}
		k := r.f.Kids(T)
		if k == nil {
			return
		}
		if nodes++; nodes > 4*len(m)+4 || k.bits < 0 || k.bits > r.f.W {
			r.fail("children", "%s: stepping from the root through %d entries meets a strange node %x/%d (%d nodes)", what, len(m), k.key, k.bits, nodes)
			return
		}
		c := numCanon(r.f.W, k.key, k.bits)
		if in != "" && (!containsBits(in, c) || in[len(in)-1] == c[len(c)-1]) {
			r.fail("children", "%s: a child %s of %s", what, r.f.show(c), r.f.show(in))
			return
		}
		if k.leaf {
			if i >= len(m) || m[i].C != c || m[i].Tok != k.tok {
				r.fail("children", "%s: stepping from the root meets %s=%d as entry %d of %d, which the history does not imply", what, r.f.show(c), k.tok, i, len(m))
				return
			}
			i++
		}
		walk(k.l, c)
		walk(k.r, c)
	}
	walk(T, "")
	if !r.stop && i < len(m) {
		r.fail("children", "%s: stepping from the root meets %d of %d entries", what, i, len(m))
	}
}

func (r *Run) chkEmpty(T any, m Model) {
	if r.f.Empty != nil {
		if e := r.f.Empty(T); e != (len(m) == 0) {
			r.fail("empty", "IsEmpty gives %v for %d entries", e, len(m))
		}
	}
}

// sweep compares all lookups of a tree with the model.
func (r *Run) sweep(what string, T any, m Model) {
	if r.stop {
		return
	}
	r.n.Sweeps++
	body := func() {
		r.chkKids(what, T, m)
		for _, a := range r.args {
			if r.stop {
				return
			}
			r.chkGet(what, T, m, a)
		}
		r.chkEmpty(T, m)
	}
	if r.fl.Race {
		body()
		return
	}
	rt.Observe(body)
}

// chkEnum compares an enumeration with the model.
func (r *Run) chkItems(class string, got []item, m Model, what string) {
	for i, g := range got {
		k := g.k
		if r.f.Kind == "str" {
			k = r.cmp.class(k)
		}
		if i >= len(m) {
			r.fail(class, "%s delivers %q=%d beyond the %d entries", what, g.k, g.v, len(m))
			return
		}
		if want := r.f.show(m[i].C); k != want || g.v != m[i].Tok {
			r.fail(class, "%s: item %d is %q=%d, the content implies %q=%d", what, i, k, g.v, want, m[i].Tok)
			return
		}
	}
	if len(got) < len(m) {
		r.fail(class, "%s ends after %d of %d entries", what, len(got), len(m))
	}
}

func (r *Run) fullEnum(class, what string, T any, m Model, raw bool) {
	t := rt.Cur()
	tag := t.Tag
	id := len(r.strms)
	st := &Strm{id: id, owner: -1, v: &Ver{M: m}, readers: map[int]bool{}}
	r.strms = append(r.strms, st)
	t.Tag = id
	en := r.f.Enum
	if raw && r.f.Raw != nil {
		en = r.f.Raw
	}
	s := en(T)
	t.Tag = tag
	st.s = s
	r.n.Streams++
	got, e := r.drain(s, 2*len(m)+50)
	st.closed = e == ""
	r.n.EnumItems += len(got)
	if r.stop {
		return
	}
	if class != "" {
		r.chkItems(class, got, m, what)
		if !s.retained() {
			r.fail(class, "%s: a key handed out earlier changed", what)
		}
	}
}

func bound(n int) float64 { return 2 * math.Log2(float64(n+1)) }

func (r *Run) chkShape(T any) {
	for _, s := range shapes(T) {
		if float64(s.h) > bound(s.n)+1 {
			r.fail("shape", "a tree of %d sibling keys is %d levels high (2*log2(n+1) = %.1f)", s.n, s.h, bound(s.n))
			return
		}
	}
}

func (r *Run) calls(t *rt.Task) int64 {
	if t.ID < 63 && r.fl.Cost {
		r.cmp.begin(t.ID)
		return r.cmp.calls[t.ID]
	}
	return 0
}

// cost checks the number of comparisons of the operation just made.
func (r *Run) chkCost(t *rt.Task, what string, before, y0 int64, n int, update bool, a *Arg) {
	if !r.fl.Cost {
		return
	}
	b := bound(n) + 2
	if update {
		b = 3*b + 8
	}
	if r.f.Kind == "str" && r.cmp.kind != 0 {
		if d := r.calls(t) - before; float64(d) > b {
			r.fail("cost", "%s makes %d comparisons among %d keys (allowed %.0f)", what, d, n, b)
		}
	}
	if r.f.Kind != "str" && !update && !a.fresh {
		if d := t.Y() - y0; float64(d) > float64(60+8*r.maxB)*(bound(n)+3)*float64(a.nlab+2) {
			r.fail("cost", "%s takes %d steps among %d keys", what, d, n)
		}
	}
}

// Operations.

func (r *Run) usableNil() bool { return r.f.Kind != "str" || r.cmp.kind == 0 }

// val is the value an operation stores.
func (r *Run) val(x uint64) uint64 {
	if r.sc.Pool == 0 {
		return x
	}
	switch y := rt.Mix(x, 71) % uint64(2+r.sc.Pool); y {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	default:
		return y
	}
}

func (r *Run) derive(t *rt.Task, th *thread, op *Op, a *Arg) {
	v := r.version(th, op.V)
	r.n.Derive++
	if op.Boom > 0 && t.ID < 63 {
		r.cmp.boom[t.ID] = op.Boom
	}
	c0, y0 := r.calls(t), t.Y()
	r.inflt++
	out := false
	defer func() {
		if !out {
			r.inflt--
		}
	}()
	var nt any
	nm := v.M
	switch op.K {
	case "ins":
		nt = r.f.Ins(v.T, a, r.val(op.X))
		nm = r.f.mPut(v.M, a, r.f.norm(r.val(op.X)))
	case "del", "sub":
		var ok, mok bool
		if op.K == "sub" && r.f.Sub != nil {
			nt, ok = r.f.Sub(v.T, a)
			nm, mok = r.f.mSub(v.M, a)
		} else {
			nt, ok = r.f.Del(v.T, a)
			nm, mok = r.f.mDel(v.M, a)
		}
		if r.fl.Res && ok != mok {
			r.fail("deleted", "%s of %s reports %v, the history implies %v (%d entries)", op.K, r.showArg(a), ok, mok, len(v.M))
		}
	}
	r.inflt--
	out = true
	if t.ID < 63 {
		r.cmp.boom[t.ID] = 0
	}
	t.NoKill()
	r.chkCost(t, op.K, c0, y0, len(v.M), true, a)
	r.chkWork(t, op.K, y0, v.T, len(v.M), a)
	if r.fl.Path && op.X%uint64(3+len(v.M)/50) == 0 {
		r.chkShare(op.K, reaches(v.T), nt, len(v.M), a)
	}
	if r.stop {
		return
	}
	if a.changed() {
		r.fail("argument", "%s wrote to its argument %s", op.K, r.showArg(a))
		return
	}
	nv := r.addVer(th, nt, nm, fmt.Sprintf("%s op %d %s %s", t.Name, op.ID, op.K, r.showArg(a)))
	if r.fl.Res {
		r.chkGet("lookup after "+op.K, nt, nm, a)
		if r.sc.Sweep > 0 && int(op.X%uint64(r.sc.Sweep)) == 0 {
			r.sweep("lookup", nt, nm)
		}
	}
	if r.fl.Cost && op.X%16 == 0 {
		r.chkShape(nt)
	}
	if r.fl.Space && op.X%4 == 0 {
		r.chkSpace("a version", nt, nm)
	}
	_ = nv
}

func (r *Run) stream(th *thread, sel int) *Strm {
	if len(th.open) > 0 && sel%3 != 0 {
		return th.open[(sel/3)%len(th.open)]
	}
	var c []*Strm
	for _, s := range r.strms {
		if s.owner >= 0 && !s.aband && s.s != nil {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[(sel/3)%len(c)]
}

func (r *Run) step(th *thread, s *Strm, n int) {
	s.readers[th.k] = true
	for i := 0; (n < 0 || i < n) && !r.stop; i++ {
		k, v, ok := s.s.next()
		if !ok {
			s.closed = true
			return
		}
		r.n.EnumItems++
		s.got = append(s.got, item{k, v})
		s.who = append(s.who, th.k)
		if len(s.got) > 2*len(s.v.M)+50 {
			if r.fl.Enum {
				r.fail("enum", "an enumeration of %d entries goes on after %d items", len(s.v.M), len(s.got))
			} else if r.fl.Life {
				r.fail("endless", "an enumeration of %d entries goes on after %d items", len(s.v.M), len(s.got))
			}
			s.aband = true
			return
		}
	}
}

func (r *Run) slot(th *thread, s int) *priv {
	if th.priv[s%2] == nil {
		th.priv[s%2] = &priv{T: r.f.New(r.cmp)}
	}
	return th.priv[s%2]
}

func (r *Run) isNil(T any) bool {
	switch r.f.Kind {
	case "num":
		return false
	}
	return fmt.Sprintf("%p", T) == "0x0" || fmt.Sprintf("%p", T) == "%!p(<nil>)"
}

func (r *Run) exec(t *rt.Task, th *thread, op *Op) {
	f := r.f
	var a *Arg
	if len(r.args) > 0 {
		a = r.args[op.A%len(r.args)]
		if (a.net != nil || a.ip != nil) && op.X>>5%3 == 0 {
			a = a.loan()
			defer a.spoil()
		}
	}
	switch op.K {
	case "ins", "del", "sub":
		r.derive(t, th, op, a)
	case "get":
		v := r.version(th, op.V)
		c0, y0 := r.calls(t), t.Y()
		if r.fl.Res {
			r.chkGet("lookup", v.T, v.M, a)
		} else {
			f.Get(v.T, a)
			r.chkCost(t, "a lookup", c0, y0, len(v.M), false, a)
			r.chkWork(t, "a lookup", y0, v.T, len(v.M), a)
		}
		if a.changed() {
			r.fail("argument", "a lookup wrote to its argument %s", r.showArg(a))
		}
	case "exact":
		v := r.version(th, op.V)
		y0 := t.Y()
		got, ok := f.Exact(v.T, a)
		r.chkWork(t, "an exact lookup", y0, v.T, len(v.M), a)
		if r.fl.Res {
			want, wok := v.M.get(a.canon)
			if ok != wok || ok && got != want {
				r.fail("exact", "exact lookup of %s gives %v,%v, the history implies %v,%v", r.showArg(a), got, ok, want, wok)
			}
			if op.X%3 == 0 && len(v.M) < 100 {
				r.chkKids("a walk", v.T, v.M)
			}
		}
	case "dot":
		v := r.version(th, op.V)
		d := f.Dot(v.T)
		if r.fl.Dump {
			r.n.Dumps++
			r.chkDot("a dump", d, v.M)
		}
	case "empty":
		v := r.version(th, op.V)
		y0 := t.Y()
		e := f.Empty(v.T)
		r.chkWork(t, "IsEmpty", y0, v.T, len(v.M), a)
		if r.fl.Res && e != (len(v.M) == 0) {
			r.fail("empty", "IsEmpty gives %v for %d entries", e, len(v.M))
		}
	case "eopen":
		v := r.version(th, op.V)
		st := &Strm{v: v, id: len(r.strms), owner: th.k, readers: map[int]bool{}}
		r.strms = append(r.strms, st)
		t.Tag = st.id
		en := f.Enum
		if f.Raw != nil && op.X%2 == 1 {
			en = f.Raw
		}
		st.s = en(v.T)
		t.Tag = -1
		th.open = append(th.open, st)
		r.n.Streams++
	case "estep":
		if s := r.stream(th, op.V); s != nil {
			r.step(th, s, op.N)
		}
	case "eend":
		if s := r.stream(th, op.V); s != nil {
			r.step(th, s, -1)
		}
	case "eaband":
		if s := r.stream(th, op.V*3+1); s != nil && s.owner == th.k && !s.closed {
			s.aband = true
			r.n.Abandoned++
			for i, x := range th.open {
				if x == s {
					th.open = append(th.open[:i:i], th.open[i+1:]...)
					break
				}
			}
		}
	case "efull":
		class := ""
		if r.fl.Enum {
			class = "enum"
		}
		if op.V < 0 {
			T := f.New(r.cmp)
			if op.N%2 == 1 {
				T = f.Nil()
			}
			r.fullEnum(class, "the enumeration of an empty tree", T, nil, op.N > 1)
			if r.fl.Life {
				r.emptyCalls(T, a)
			}
			return
		}
		v := r.version(th, op.V)
		r.fullEnum(class, "an enumeration", v.T, v.M, op.N%2 == 1)
	case "sleep":
		r.n.Sleeps++
		rt.Sleep(int64(1) << uint(op.N%44))
	case "pnew", "pinp", "pfill", "pdrop", "pins", "pdel", "pget", "pdot", "ppub", "pupd", "penum":
		r.private(t, th, op, a)
	case "parse":
		r.parse(op, a)
	default:
		panic("harness: unknown operation " + op.K)
	}
}

// emptyCalls: everything else one can ask of an empty tree.
func (r *Run) emptyCalls(T any, a *Arg) {
	f := r.f
	f.Get(T, a)
	if f.Exact != nil {
		f.Exact(T, a)
	}
	if f.Empty != nil {
		f.Empty(T)
	}
	f.Del(T, a)
	if f.Sub != nil {
		f.Sub(T, a)
	}
	if f.Dot != nil {
		f.Dot(T)
	}
	if f.Kids != nil {
		f.Kids(T)
	}
}

// rebuild makes a private tree again by copy-on-write updates only.
func (r *Run) rebuild(p *priv) (T any, last bool) {
	T = r.f.New(r.cmp)
	for _, l := range p.log {
		switch l.k {
		case "del":
			T, last = r.f.Del(T, l.a)
		case "sub":
			T, last = r.f.Sub(T, l.a)
		default:
			T = r.f.Ins(T, l.a, l.tok)
		}
	}
	return
}

// cowToo says whether copy-on-write updates alone give the same (wrong)
// outcome, so that it is not in-place insertion which is to blame.
func (r *Run) cowToo(p *priv) bool {
	same := false
	done := rt.Observe(func() {
		var T any
		var last bool
		out, _, _ := r.try(func() { T, last = r.rebuild(p) })
		if out != okOut {
			same = true
			return
		}
		if last != p.last {
			return
		}
		var x, y []item
		out, _, _ = r.try(func() {
			x, _ = r.drain(r.f.Enum(p.T), 2*len(p.M)+50)
			y, _ = r.drain(r.f.Enum(T), 2*len(p.M)+50)
			same = len(x) == len(y)
			for i := 0; same && i < len(x); i++ {
				same = x[i] == y[i]
			}
			for _, a := range r.args {
				v, ok := r.f.Get(p.T, a)
				w, wk := r.f.Get(T, a)
				if v != w || ok != wk {
					same = false
				}
			}
		})
		if out != okOut {
			same = false
		}
	})
	return same && done
}

func (r *Run) private(t *rt.Task, th *thread, op *Op, a *Arg) {
	f := r.f
	p := r.slot(th, op.S)
	r.n.PrivOps++
	if r.fl.Priv {
		r.veto[t] = func() bool { return r.cowToo(p) }
		defer func() {
			if x := recover(); x != nil {
				if rt.IsDead(x) || rt.IsKilled(x) || rt.IsObsStuck(x) {
					panic(x)
				}
				if op.K != "pinp" && rt.IsCap(x) == false && r.cowToo(p) {
					r.foreign()
				}
				delete(r.veto, t)
				panic(x)
			}
			delete(r.veto, t)
		}()
	}
	note := func(k string, tok uint64) {
		if r.fl.Priv {
			p.log = append(p.log, plog{k, a.own(), tok})
		}
	}
	chk := func(what string) {
		if r.stop || !r.fl.Priv && !(r.fl.Res && op.X%4 == 0) {
			return
		}
		r.chkGet("lookup after "+what, p.T, p.M, a)
		if r.sc.Sweep > 0 && op.X%uint64(r.sc.Sweep) == 0 {
			r.sweep("lookup after "+what, p.T, p.M)
		}
		if a.changed() {
			r.fail("argument", "%s wrote to its argument %s", what, r.showArg(a))
		}
	}
	c0, y0 := r.calls(t), t.Y()
	n0 := len(p.M)
	if r.fl.Path && (op.K == "pinp" || op.K == "pins" || op.K == "pdel") {
		var was *reach
		if op.X%uint64(3+n0/50) == 0 {
			was = reaches(p.T)
		}
		y0 = t.Y()
		defer func() {
			if x := recover(); x != nil {
				panic(x)
			}
			r.chkWork(t, privName[op.K], y0, p.T, n0, a)
			if was != nil {
				r.chkShare(privName[op.K], was, p.T, n0, a)
			}
		}()
	}
	if r.fl.Space {
		defer func() {
			if !r.stop && op.X%4 == 0 && op.K != "ppub" && th.priv[op.S%2] == p {
				r.chkSpace("a tree updated in place", p.T, p.M)
			}
		}()
	}
	switch op.K {
	case "pnew":
		np := &priv{T: f.New(r.cmp)}
		if op.N%4 >= 1 && op.N%4 <= 2 {
			if op.N%4 == 1 && r.usableNil() {
				np.T = f.Nil()
			}
			for i := 0; i < 3; i++ {
				b := r.args[(op.A+i*int(1+op.X%5))%len(r.args)]
				x := r.val(op.X + uint64(i))
				np.T = f.Ins(np.T, b, x)
				np.M = f.mPut(np.M, b, f.norm(x))
				np.log = append(np.log, plog{"ins", b, x})
			}
		}
		th.priv[op.S%2] = np
	case "pinp":
		if !f.NilInp && r.isNil(p.T) {
			p.T = f.New(r.cmp)
		}
		x := r.val(op.X)
		note("ins", x)
		p.T = f.Inp(p.T, a, x)
		p.M = f.mPut(p.M, a, f.norm(x))
		r.chkCost(t, "an in-place insertion", c0, y0, n0, true, a)
		chk("in-place insertion")
		if r.fl.Cost && op.X%16 == 0 {
			r.chkShape(p.T)
		}
	case "pfill":
		if !f.NilInp && r.isNil(p.T) {
			p.T = f.New(r.cmp)
		}
		g, toks := G{rt.NewRng(op.X)}, map[string]uint64{}
		for _, i := range g.order(op.N) {
			a := prepare(f, r.cmp, fillKey(f, op.X, i))
			x := r.val(op.X + uint64(i))
			if r.fl.Priv {
				p.log = append(p.log, plog{"ins", a, x})
			}
			if op.X&64 == 0 || op.X&128 == 0 && i%16 != 0 {
				p.T = f.Inp(p.T, a, x)
			} else {
				p.T = f.Ins(p.T, a, x)
			}
			toks[a.canon] = f.norm(x)
		}
		for _, e := range p.M {
			if _, ok := toks[e.C]; !ok {
				toks[e.C] = e.Tok
			}
		}
		m := make(Model, 0, len(toks))
		for c, x := range toks {
			m = append(m, Entry{c, x})
		}
		sort.Slice(m, func(i, j int) bool { return m[i].C < m[j].C })
		p.M = m
		if r.fl.Cost {
			r.chkShape(p.T)
		}
		if r.fl.Priv {
			r.sweep("lookup after many insertions", p.T, p.M)
		}
	case "pdrop":
		// nearly all of what came at once goes, one by one
		left := map[string]bool{}
		for i := 0; i < op.A; i++ {
			left[prepare(f, r.cmp, fillKey(f, op.X, (i*op.N/op.A+int(op.X>>16)%op.N)%op.N)).canon] = true
		}
		gone := map[string]bool{}
		for _, i := range (G{rt.NewRng(op.X + 1)}).order(op.N) {
			a := prepare(f, r.cmp, fillKey(f, op.X, i))
			if !left[a.canon] {
				p.T, _ = f.Del(p.T, a)
				gone[a.canon] = true
			}
		}
		p.M, _ = p.M.delIf(func(c string) bool { return gone[c] })
	case "pins":
		x := r.val(op.X)
		note("ins", x)
		p.T = f.Ins(p.T, a, x)
		p.M = f.mPut(p.M, a, f.norm(x))
		r.chkCost(t, "an insertion", c0, y0, n0, true, a)
		chk("insertion")
	case "pdel":
		var ok, mok bool
		if op.N == 1 && f.Sub != nil {
			note("sub", 0)
			p.T, ok = f.Sub(p.T, a)
			p.M, mok = f.mSub(p.M, a)
		} else {
			note("del", 0)
			p.T, ok = f.Del(p.T, a)
			p.M, mok = f.mDel(p.M, a)
		}
		p.last = ok
		if (r.fl.Priv || r.fl.Res) && ok != mok {
			r.fail("deleted", "deletion of %s reports %v, the history implies %v (%d entries)", r.showArg(a), ok, mok, n0)
		}
		r.chkCost(t, "a deletion", c0, y0, n0, true, a)
		chk("deletion")
		if r.fl.Cost && op.X%16 == 0 {
			r.chkShape(p.T)
		}
	case "pdot":
		if f.Dot != nil {
			d := f.Dot(p.T)
			if r.fl.Dump {
				r.n.Dumps++
				r.chkDot("a dump of a tree built in place", d, p.M)
			}
		}
	case "pget":
		if r.fl.Priv || r.fl.Upd || r.fl.Res {
			r.chkGet("lookup", p.T, p.M, a)
		} else {
			f.Get(p.T, a)
			r.chkCost(t, "a lookup", c0, y0, n0, false, a)
			r.chkWork(t, "a lookup", y0, p.T, n0, a)
		}
	case "penum":
		class := ""
		if r.fl.Priv || r.fl.Upd || r.fl.Enum {
			class = "enum"
		}
		r.fullEnum(class, "the enumeration of a tree built in place", p.T, p.M, op.N%2 == 1)
	case "ppub":
		r.addVer(th, p.T, p.M, fmt.Sprintf("%s op %d published", t.Name, op.ID))
		th.priv[op.S%2] = nil
	case "pupd":
		r.update(t, th, p, op)
	}
}

// update checks a bulk update of the descendants of a stored network.
func (r *Run) update(t *rt.Task, th *thread, p *priv, op *Op) {
	if r.f.Upd == nil {
		return
	}
	var k Key
	target, stored := "", false
	a := r.args[op.A%len(r.args)]
	if len(p.M) > 0 && op.X%5 != 0 {
		target, stored = p.M[op.N%len(p.M)].C, true
	} else if a.usable {
		target = a.canon
		_, stored = p.M.get(target)
	}
	r.n.Updates++
	if target != "" {
		k = Key{R: []byte(target[1 : len(target)-1]), B: int(target[len(target)-1])}
		if op.X%3 == 0 {
			// host bits in the target do not matter
			for j := k.B; j < 8*len(k.R); j++ {
				if rt.Mix(op.X, uint64(j))%2 == 0 {
					k.R[j/8] ^= 0x80 >> uint(j%8)
				}
			}
		}
		a = prepare(r.f, r.cmp, k)
		if op.X%4 == 0 {
			b := a.loan()
			a = b
			defer b.spoil()
		}
	}
	want := map[string]int{}
	for i, e := range p.M {
		if target != "" && e.C != target && containsBits(target, e.C) {
			want[r.f.show(e.C)] = i
		}
	}
	if !r.asModel(p) {
		// what went wrong before is another property's business
		r.foreign()
		return
	}
	nm := append(Model(nil), p.M...)
	total := len(want)
	g := rt.NewRng(op.X)
	n := 0
	tag := t.Tag
	id := len(r.strms)
	r.strms = append(r.strms, &Strm{id: id, owner: -1, v: &Ver{}, aband: true})
	t.Tag = id
	kept := ""
	out, val, st := r.try(func() {
		kept = r.f.Upd(p.T, a, func(key string, tok uint64) (uint64, bool) {
			n++
			i, ok := want[key]
			if !ok {
				r.fail("update", "the update of %s is offered %s, which is not (or no longer) a descendant to be offered", r.showArg(a), key)
				return 0, false
			}
			delete(want, key)
			if nm[i].Tok != tok {
				r.fail("update", "the update of %s offers %s with value %d, the history implies %d", r.showArg(a), key, tok, nm[i].Tok)
			}
			for j := g.Intn(4); j > 0; j-- {
				rt.Point()
			}
			if g.P(1, 6) {
				rt.Sleep(int64(1) << uint(g.Intn(36)))
			}
			if g.P(1, 3) {
				b := r.args[g.Intn(len(r.args))]
				if target != "" && !b.canonWithin(target) {
					r.chkGet("lookup by the callback", p.T, nm, b)
				}
			}
			if op.Boom > 0 && int64(n) == op.Boom {
				r.n.CbPanics++
				panic(cbPanic{n})
			}
			if g.P(2, 3) {
				v := r.val(g.U64() >> 8)
				nm[i].Tok = r.f.norm(v)
				return v, true
			}
			return 0, false
		})
	})
	t.Tag = tag
	p.M = nm
	if r.stop {
		return
	}
	if !stored {
		// what is below a network without an entry need not be offered
		want = nil
	}
	switch out {
	case okOut:
		if kept != "" {
			r.fail("update", "the update of %s: %s", r.showArg(a), kept)
			return
		}
		r.strms[id].aband = false
		r.strms[id].closed = true
		if len(want) > 0 {
			for k := range want {
				_ = k
			}
			ks := make([]string, 0, len(want))
			for k := range want {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			r.fail("update", "the update of %s is not offered %d of %d descendants, such as %s", r.showArg(a), len(want), total, ks[0])
			return
		}
	case cbOut:
	case capOut:
		r.fail("update", "the update of %s does not end", r.showArg(a))
		return
	default:
		if out == panicOut {
			r.fail("update", "the update of %s panics: %s at %s", r.showArg(a), rt.Show(val), trim(st))
		}
		return
	}
	r.sweep("lookup after a bulk update", p.T, p.M)
	if !r.stop {
		r.fullEnum("update", "the enumeration after a bulk update", p.T, p.M, false)
	}
}

// asModel says whether a private tree answers as its history implies.
func (r *Run) asModel(p *priv) bool {
	good := true
	done := rt.Observe(func() {
		out, _, _ := r.try(func() {
			for _, a := range r.args {
				want, wok := r.f.mGet(p.M, a)
				got, ok := r.f.Get(p.T, a)
				if ok != wok || ok && got != want {
					good = false
				}
			}
			x, _ := r.drain(r.f.Enum(p.T), 2*len(p.M)+50)
			good = good && len(x) == len(p.M)
			for i := 0; good && i < len(x); i++ {
				good = x[i].k == r.f.show(p.M[i].C) && x[i].v == p.M[i].Tok
			}
		})
		good = good && out == okOut
	})
	return good && done
}

func (a *Arg) canonWithin(target string) bool {
	return !a.usable || containsBits(target, a.canon)
}

// do runs one operation of a thread.
func (r *Run) do(t *rt.Task, th *thread, op *Op) {
	if r.stop {
		return
	}
	r.n.Ops++
	t.Tag = -1
	t.BeginOp(op.ID, op.Kill, op.Pause)
	if op.Pause > 0 {
		r.n.Paused++
	}
	out, val, st := r.try(func() {
		if r.conv != nil {
			r.conv.exec(r, t, th, op)
		} else {
			r.exec(t, th, op)
		}
	})
	if out != okOut {
		t.Recovered()
	}
	t.EndOp()
	t.Tag = -1
	if t.ID < 63 {
		r.cmp.boom[t.ID] = 0
	}
	if r.stop {
		return
	}
	switch out {
	case killedOut:
		r.n.Killed++
	case boomOut:
		r.n.Boomed++
	case cbOut:
	case capOut:
		if r.fl.Base || r.fl.Race || r.fl.Space || r.fl.Dump && !r.relevant(op.K) {
			r.foreign()
			return
		}
		r.fail("no-end", "%s: %s", op.K, rt.Show(val))
	case panicOut:
		if strings.HasPrefix(rt.Show(val), "harness:") {
			panic(val)
		}
		if r.relevant(op.K) {
			r.fail("panic", "%s panics: %s at %s", op.K, rt.Show(val), trim(st))
		} else {
			r.foreign()
		}
	}
	if (out == killedOut || out == boomOut) && r.fl.Base {
		// after an aborted update all versions must be what they were
		for i := 0; i < 3 && len(r.vers) > 0; i++ {
			r.reobserve(r.vers[r.audit.Intn(len(r.vers))], "after an aborted "+op.K)
		}
		r.reobserve(r.last, "after an aborted "+op.K)
	}
}

// foreign: the run went wrong in a way which is another property's business.
func (r *Run) foreign() {
	r.n.Foreign++
	r.stop = true
	rt.Abort()
}

func (r *Run) relevant(k string) bool {
	switch {
	case r.fl.Res, r.fl.Conv, r.fl.Iter, r.fl.Life:
		return true
	case r.fl.Priv, r.fl.Upd:
		return k[0] == 'p'
	case r.fl.Enum:
		return k[0] == 'e'
	case r.fl.Dump:
		return k == "dot" || k == "pdot"
	}
	return false
}

// finish lets a thread read its streams to the end.
func (r *Run) finish(t *rt.Task, th *thread) {
	for i, s := range th.open {
		if r.stop {
			return
		}
		if s.aband {
			continue
		}
		s := s
		t.Tag = -1
		t.BeginOp(1<<20+i, 0, 0)
		out, _, _ := r.try(func() {
			r.step(th, s, -1)
			// a stream which has ended stays ended
			if s.closed && !s.aband {
				if k, _, ok := s.s.next(); ok && (r.fl.Enum || r.fl.Life) {
					r.fail("enum", "item %q after the end of a stream", k)
				}
			}
		})
		t.EndOp()
		if out == capOut {
			if r.fl.Life || r.fl.Enum {
				r.fail("no-end", "reading an enumeration to its end takes too many steps")
			} else {
				r.foreign()
			}
		}
	}
}

// final runs when all threads are through.
func (r *Run) final(t *rt.Task) {
	if r.stop {
		return
	}
	t.BeginOp(1<<21, 0, 0)
	out, val, st := r.try(func() { r.finalChecks(t) })
	t.EndOp()
	if out == panicOut && !r.stop {
		if r.relevant("e") || r.relevant("p") {
			r.fail("panic", "final checks: %s at %s", rt.Show(val), trim(st))
		} else {
			r.foreign()
		}
	}
	if out == capOut && !r.stop {
		r.fail("no-end", "final checks do not end")
	}
}

func (r *Run) finalChecks(t *rt.Task) {
	if r.conv != nil {
		r.conv.final(r)
		return
	}
	if r.fl.Base {
		for _, v := range r.vers {
			r.reobserve(v, "at the end")
		}
	}
	if r.fl.Res {
		k := len(r.vers)
		st := 1
		if k > 10 {
			st = k / 10
		}
		for i := int(r.sc.Seed % uint64(st)); i < k && !r.stop; i += st {
			r.sweep("lookup at the end", r.vers[i].T, r.vers[i].M)
		}
	}
	if r.fl.Enum {
		for _, s := range r.strms {
			if s.owner < 0 || r.stop {
				continue
			}
			r.chkStream(s)
		}
		k := len(r.vers)
		for i := 0; i < 6 && i < k && !r.stop; i++ {
			v := r.vers[(int(r.sc.Seed)&0xffff+i*5)%k]
			r.fullEnum("enum", "the enumeration at the end", v.T, v.M, i%2 == 1)
		}
	}
	for i, v := range r.vers {
		if r.stop {
			break
		}
		if r.fl.Cost {
			r.chkShape(v.T)
		}
		if r.fl.Space {
			r.chkSpace("a version", v.T, v.M)
		}
		if r.fl.Dump && (i < 8 || v == r.last) && r.f.Dot != nil {
			r.n.Dumps++
			r.chkDot("a dump at the end", r.f.Dot(v.T), v.M)
		}
	}
}

func (r *Run) chkStream(s *Strm) {
	got := s.got
	if len(s.readers) > 1 {
		r.n.SharedStreams++
		// each reader sees its share in order
		last := map[int]int{}
		pos := map[string]int{}
		for i, e := range s.v.M {
			pos[r.f.show(e.C)] = i
		}
		for i, g := range got {
			k := g.k
			if r.f.Kind == "str" {
				k = r.cmp.class(k)
			}
			p, ok := pos[k]
			if !ok {
				r.fail("enum", "an enumeration delivers %q, which is not in the content", k)
				return
			}
			if l, ok := last[s.who[i]]; ok && l >= p {
				r.fail("enum", "a reader of an enumeration gets %q out of order or twice", k)
				return
			}
			last[s.who[i]] = p
		}
		got = append([]item(nil), got...)
		sort.SliceStable(got, func(i, j int) bool {
			ki, kj := got[i].k, got[j].k
			if r.f.Kind == "str" {
				ki, kj = r.cmp.class(ki), r.cmp.class(kj)
			}
			return pos[ki] < pos[kj]
		})
	}
	m := s.v.M
	if !s.closed {
		n := len(got)
		if n > len(m) {
			n = len(m)
		}
		m = m[:n]
	}
	r.chkItems("enum", got, m, "an enumeration")
	if !r.stop && s.s != nil && !s.s.retained() {
		r.fail("enum", "a key handed out by an enumeration changed later")
	}
}

// Result of a run.
type Result struct {
	Viol   *Violation
	N      Counts
	St     rt.Stats
	Rec    []rt.Decision
	Races  int
	Result uint64
}

func runScenario(sc *Scenario, fl Flags, record bool) *Result {
	leaks = nil
	res, last := runScenario1(sc, fl, record)
	if last != nil && res.Viol == nil && res.N.Foreign == 0 {
		res.Viol = chkHeld(sc, last)
		res.N.HeldChecks++
	}
	return res
}

func runScenario1(sc *Scenario, fl Flags, record bool) (*Result, *Ver) {
	r := &Run{sc: sc, fl: fl, f: famByName(sc.Fam), veto: map[*rt.Task]func() bool{}}
	if r.f == nil {
		r.f = &Fam{Name: sc.Fam, Kind: "conv"}
	}
	valStyle = sc.Style
	twins = map[*twin]uint64{}
	rt.Fresh()
	r.cmp = &Cmp{kind: sc.Cmp, seed: sc.CmpSeed, plain: sc.Plain, costs: fl.Cost}
	if r.f.Kind == "conv" {
		r.conv = newConv(sc)
	} else {
		for _, k := range sc.Keys {
			a := prepare(r.f, r.cmp, k)
			if a.bad != "" && fl.Res {
				return &Result{Viol: &Violation{Prop: sc.Prop, Class: "refused", Msg: sc.Fam + ": " + a.bad}}, nil
			}
			if a.nlab > r.maxL {
				r.maxL = a.nlab
			}
			switch r.f.Kind {
			case "label":
				if len(a.raw) > r.maxB {
					r.maxB = len(a.raw)
				}
			case "dom":
				for _, l := range wireLabels(k.R) {
					if len(l) > r.maxB {
						r.maxB = len(l)
					}
				}
			}
			r.args = append(r.args, a)
		}
		st := 1 + len(r.args)/24
		for i := 0; i < len(r.args); i += st {
			r.obsIx = append(r.obsIx, i)
		}
	}
	races := rt.RaceErrors()
	r.audit = rt.NewRng(sc.Audit)
	fs := make([]func(*rt.Task), len(sc.Threads))
	for k := range sc.Threads {
		k := k
		fs[k] = func(t *rt.Task) {
			th := &thread{k: k}
			if k == 0 {
				t.BeginOp(0, 0, 0)
				if r.conv == nil {
					r.addVer(th, r.f.New(r.cmp), nil, "empty")
					if r.usableNil() {
						r.addVer(th, r.f.Nil(), nil, "nil")
					}
				} else {
					r.conv.setup(r)
				}
				t.EndOp()
				for i := range sc.Init {
					r.do(t, th, &sc.Init[i])
				}
				r.open = true
				r.gate.Wake(true)
			} else {
				for !r.open {
					r.gate.Park()
				}
			}
			ops := sc.Threads[k]
			for i := range ops {
				if r.stop {
					return
				}
				r.do(t, th, &ops[i])
			}
			r.finish(t, th)
			r.done++
			if r.done == len(sc.Threads) {
				r.final(t)
			}
		}
	}
	cfg := rt.Config{Policy: sc.Policy, EnvSeed: sc.EnvSeed, Record: record}
	if fl.Life {
		n := len(sc.Keys)
		cfg.LibCap = int64(50000 + 800*n*(r.maxL+2))
		cfg.OpCap = cfg.LibCap
	}
	if sc.Wide || sc.Fam == "domain" && len(sc.Keys) > 64 {
		cfg.OpCap = int64(3000000 + 4000*len(sc.Keys))
	}
	if sc.Fill > 0 {
		cap := int64(5000000 + 6000*sc.Fill*(r.maxL+1))
		cfg.OpCap, cfg.LibCap, cfg.ObsCap = cap, cap, cap
	}
	s := rt.Run(cfg, fs, func(s *rt.Sim) {
		r.sim = s
		if fl.Base && sc.Audit != 0 {
			r.nextAudit()
		}
	})
	if r.viol == nil && r.n.Foreign == 0 {
		r.after(s)
	}
	res := &Result{Viol: r.viol, N: r.n, St: s.St, Rec: s.Rec}
	s.Close()
	res.St.Kills = s.St.Kills
	res.Races = rt.RaceErrors() - races
	h := s.St.Hash
	h = rt.Mix(h, uint64(r.n.Lookups))
	h = rt.Mix(h, uint64(r.n.EnumItems))
	h = rt.Mix(h, uint64(s.St.Steps))
	h = rt.Mix(h, uint64(s.St.Spawned))
	res.Result = h
	if sc.Weak && r.last != nil {
		return res, &Ver{T: r.last.T, M: r.last.M}
	}
	return res, nil
}

// after judges how the run ended.
func (r *Run) after(s *rt.Sim) {
	if s.Crash != nil {
		msg := fmt.Sprintf("background goroutine %s panics: %s at %s", s.Crash.Task, s.Crash.Value, trim(s.Crash.Stack))
		switch {
		case r.fl.Enum || r.fl.Life || r.fl.Res || r.fl.Upd || r.fl.Priv || r.fl.Conv || r.fl.Iter:
			r.fail("crash", "%s", msg)
		default:
			r.n.Foreign++
		}
		return
	}
	for _, t := range s.Live() {
		if !t.Lib {
			if r.fl.Base || r.fl.Race || r.fl.Cost || r.fl.Space || r.fl.Path || r.fl.Dump {
				r.n.Foreign++
				return
			}
			r.fail("wedged", "caller %s is blocked for ever in operation %d", t.Name, t.Op)
			return
		}
	}
	if !r.fl.Life {
		return
	}
	for _, t := range s.Live() {
		if t.Tag == -3 {
			continue
		}
		if t.Tag >= 0 && t.Tag < len(r.strms) {
			st := r.strms[t.Tag]
			if !st.closed {
				r.n.StalledAtEnd++
				continue
			}
			r.fail("leak", "goroutine %s of an enumeration read to its end (%d entries) is still there", t.Name, len(st.v.M))
			return
		}
		r.fail("leak", "goroutine %s outlives the call which started it", t.Name)
		return
	}
}

var _ = net.IPv4len
