package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/infobloxopen/go-trees/domain"
	"verifsim/rt"
)

// Reference: what a text means as a name or a label, written from the
// documentation (RFC 1035 limits, RFC 4343 escapes), not from the code.

type refName struct {
	labels []string // binary, upper case, leaf first
	errs   map[error]bool
}

// refSplit decodes text into labels; dots says whether dots separate.
func refSplit(s string) (labels []string, bad map[error]bool) {
	bad = map[error]bool{}
	if s == "" || s == "." {
		return nil, bad
	}
	var cur []byte
	some := false
	flush := func() {
		if !some {
			bad[domain.ErrEmptyLabel] = true
		}
		if len(cur) > 63 {
			bad[domain.ErrLabelTooLong] = true
		}
		labels = append(labels, string(upper(cur)))
		cur, some = nil, false
	}
	dig := func(i int) bool { return i < len(s) && s[i] >= '0' && s[i] <= '9' }
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '.':
			flush()
		case s[i] == '\\' && dig(i+1):
			some = true
			if !dig(i+2) || !dig(i+3) {
				bad[domain.ErrInvalidEscape] = true
				continue
			}
			v := int(s[i+1]-'0')*100 + int(s[i+2]-'0')*10 + int(s[i+3]-'0')
			if v > 255 {
				bad[domain.ErrInvalidEscape] = true
			}
			cur = append(cur, byte(v))
			i += 3
		case s[i] == '\\' && i+1 == len(s):
			some = true
			bad[domain.ErrInvalidEscape] = true
		case s[i] == '\\':
			some = true
			i++
			cur = append(cur, s[i])
		default:
			some = true
			cur = append(cur, s[i])
		}
	}
	if some {
		flush()
	}
	if len(labels) > 127 {
		bad[domain.ErrTooManyLabels] = true
	}
	if nameLen(labels) > 255 {
		bad[domain.ErrNameTooLong] = true
	}
	if bad[domain.ErrInvalidEscape] && len(s) > 127 {
		// a broken escape makes the lengths a matter of reading
		bad[domain.ErrNameTooLong] = true
		bad[domain.ErrTooManyLabels] = true
		bad[domain.ErrLabelTooLong] = true
	}
	return labels, bad
}

// firstLabel cuts a text after its first label, keeping an ending dot.
func firstLabel(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' {
			i++
		} else if s[i] == '.' {
			return s[:i+1]
		}
	}
	return s
}

func refLabel(s string) (string, map[error]bool) {
	if s == "" || s == "." {
		return "", nil
	}
	l, bad := refSplit(s)
	delete(bad, domain.ErrEmptyLabel)
	if len(l) == 0 {
		return "", bad
	}
	return l[0], bad
}

type convKey struct {
	text   string
	cp     string
	labels []string // leaf first
	errs   map[error]bool
	name   domain.Name
	ok     bool
	lab    string // text of a single label
	labVal string
	labErr map[error]bool
	raw    string // binary label
	hum    string
}

type kept struct {
	name  *domain.Name
	k     *convKey
	str   string
	want  string
	what  string
	isStr bool
}

type convRun struct {
	keys []*convKey
	kept []kept
	nest map[*rt.Task]int // nested iterations left in the operation
}

func newConv(sc *Scenario) *convRun {
	c := &convRun{nest: map[*rt.Task]int{}}
	for _, k := range sc.Keys {
		x := &convKey{text: string(k.R), cp: strings.Clone(string(k.R))}
		x.labels, x.errs = refSplit(x.text)
		x.ok = len(x.errs) == 0
		x.lab = firstLabel(x.text)
		x.labVal, x.labErr = refLabel(x.lab)
		b := k.R
		if len(b) > 63 {
			b = b[:63]
		}
		x.raw = string(upper(b))
		x.hum = human(x.raw)
		c.keys = append(c.keys, x)
	}
	return c
}

// setup parses the names shared by all callers.
func (c *convRun) setup(r *Run) {
	for _, x := range c.keys {
		if x.ok {
			x.name, _ = domain.MakeNameFromString(x.text)
		}
	}
}

func labelsOf(n domain.Name) []string {
	var out []string
	n.GetLabels(func(l string) error { out = append(out, l); return nil })
	return out
}

func (x *convKey) want() []string {
	out := make([]string, len(x.labels))
	for i, l := range x.labels {
		out[len(out)-1-i] = l
	}
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func errNames(m map[error]bool) string {
	var out []string
	for _, e := range []error{domain.ErrEmptyLabel, domain.ErrInvalidEscape, domain.ErrLabelTooLong, domain.ErrNameTooLong, domain.ErrTooManyLabels} {
		if m[e] {
			out = append(out, e.Error())
		}
	}
	if len(out) == 0 {
		return "no error"
	}
	return strings.Join(out, " or ")
}

func (c *convRun) chkName(r *Run, x *convKey, n domain.Name, what string) {
	if n.String() != x.cp {
		r.fail("text", "%s of %q gives a name which reads %q", what, x.cp, n.String())
		return
	}
	if got := labelsOf(n); !same(got, x.want()) {
		r.fail("labels", "%s of %q gives labels %q, the text says %q", what, x.cp, got, x.want())
	}
}

func (c *convRun) chkErr(r *Run, what, text string, err error, want map[error]bool) bool {
	if len(want) == 0 && err != nil {
		r.fail("refused", "%s of %q is refused: %v", what, text, err)
		return false
	}
	if len(want) > 0 {
		r.n.ConvErrs++
		if err == nil {
			r.fail("accepted", "%s of %q is accepted, it should be refused with: %s", what, text, errNames(want))
			return false
		}
		for e := range want {
			if errors.Is(err, e) {
				return true
			}
		}
		r.fail("wrong-error", "%s of %q is refused with %q, it should be: %s", what, text, err, errNames(want))
		return false
	}
	return true
}

type myErr struct{ n int }

func (e *myErr) Error() string { return "mine" }

var errPool = []error{domain.ErrEmptyLabel, domain.ErrNameTooLong, domain.ErrInvalidEscape, io.EOF, context.Canceled, (*myErr)(nil)}

func (c *convRun) exec(r *Run, t *rt.Task, th *thread, op *Op) {
	x := c.keys[op.A%len(c.keys)]
	keep := func(k kept) {
		if len(c.kept) < 400 {
			c.kept = append(c.kept, k)
		} else {
			c.kept[int(op.X)%len(c.kept)] = k
		}
	}
	switch op.K {
	case "name":
		r.n.Convs++
		n, err := domain.MakeNameFromString(x.text)
		if x.text != x.cp {
			r.fail("argument", "the text %q is changed into %q", x.cp, x.text)
			return
		}
		if c.chkErr(r, "conversion to a name", x.cp, err, x.errs) && x.ok {
			c.chkName(r, x, n, "conversion to a name")
			keep(kept{name: &n, k: x, what: "name"})
		}
	case "label":
		r.n.Convs++
		l, err := domain.MakeLabel(x.lab)
		if c.chkErr(r, "conversion to a label", x.lab, err, x.labErr) && len(x.labErr) == 0 {
			if l != x.labVal {
				r.fail("label", "label of %q is %q, the text says %q", x.lab, l, x.labVal)
				return
			}
			keep(kept{str: l, want: x.labVal, isStr: true, what: "label of " + x.lab})
		}
	case "human":
		r.n.Convs++
		if op.X%8 == 3 {
			// no label is that long; what fits of its text must come back
			rng := rt.NewRng(op.X)
			raw := make([]byte, 64+rng.Intn(400))
			set := "AZ.\\\x00a-\xff"
			m := 1 + rng.Intn(len(set))
			for i := range raw {
				raw[i] = set[rng.Intn(m)]
			}
			if h, ok := longHuman(domain.MakeHumanReadableLabel(string(raw)), string(raw)); !ok {
				r.fail("human", "text of %q is %q", raw, h)
			}
			return
		}
		h := domain.MakeHumanReadableLabel(x.raw)
		if h != x.hum {
			r.fail("human", "text of label %q is %q, it should be %q", x.raw, h, x.hum)
			return
		}
		if op.X%2 == 0 && x.raw != "" {
			if l, err := domain.MakeLabel(h); err != nil || l != x.raw {
				r.fail("human", "text %q of label %q is read back as %q, %v", h, x.raw, l, err)
				return
			}
		}
		keep(kept{str: h, want: x.hum, isStr: true, what: fmt.Sprintf("text of label %q", x.raw)})
	case "refl":
		r.n.Convs++
		c.refl(r, x, op, keep)
	case "recheck":
		if len(c.kept) > 0 {
			c.recheck(r, c.kept[op.V%len(c.kept)])
		}
	case "iter":
		c.nest[t] = 8
		c.iter(r, t, x, op, int(op.X)&3)
	case "walk":
		r.n.Iters++
		if x.ok {
			c.walk(r, t, x.name, x.want(), x.cp, op)
		}
	case "sleep":
		r.n.Sleeps++
		rt.Sleep(int64(1) << uint(op.N%44))
	default:
		panic("harness: unknown operation " + op.K)
	}
}

func (c *convRun) refl(r *Run, x *convKey, op *Op, keep func(kept)) {
	var v reflect.Value
	isName := false
	switch op.N % 4 {
	case 0:
		v = reflect.ValueOf(x.text)
	case 1:
		s := x.text
		v = reflect.ValueOf(&s)
	case 2:
		v, isName = reflect.ValueOf(x.name), true
	case 3:
		n := x.name
		v, isName = reflect.ValueOf(&n), true
	}
	if isName && !x.ok {
		return
	}
	var n domain.Name
	out, val, _ := r.try(func() { n = domain.MakeNameFromReflection(v) })
	if out == killedOut {
		panic(rt.Killed)
	}
	if out == panicOut {
		if x.ok {
			r.fail("refused", "name from a reflected value of %q panics: %s", x.cp, rt.Show(val))
		}
		r.n.ConvErrs++
		return
	}
	if out != okOut {
		r.fail("no-end", "name from a reflected value of %q does not end", x.cp)
		return
	}
	if !x.ok {
		r.fail("accepted", "name from a reflected value of %q is accepted, it should be refused with: %s", x.cp, errNames(x.errs))
		return
	}
	c.chkName(r, x, n, "name from a reflected value")
	keep(kept{name: &n, k: x, what: "reflected name"})
}

func (c *convRun) recheck(r *Run, k kept) {
	if k.isStr {
		if k.str != k.want {
			r.fail("changed", "the %s, once %q, now reads %q", k.what, k.want, k.str)
		}
		return
	}
	if k.name.String() != k.k.cp {
		r.fail("changed", "the name %q now reads %q", k.k.cp, k.name.String())
		return
	}
	if got := labelsOf(*k.name); !same(got, k.k.want()) {
		r.fail("changed", "the labels of name %q, once %q, are now %q", k.k.cp, k.k.want(), got)
	}
}

// iter iterates the labels of a shared name; the callback may stop, stall,
// panic, or iterate names itself.
func (c *convRun) iter(r *Run, t *rt.Task, x *convKey, op *Op, depth int) {
	if !x.ok {
		return
	}
	r.n.Iters++
	want := x.want()
	g := rt.NewRng(op.X)
	n := x.name
	stopAt, mode := -1, op.N%5
	if mode >= 1 && mode <= 2 {
		stopAt = g.Intn(len(want) + 1)
	}
	var stopErr error = &myErr{op.ID}
	if g.P(1, 2) {
		stopErr = errPool[g.Intn(len(errPool))]
	}
	stall := g.Intn(4)
	i := 0
	var handed []string
	var got error
	out, val, st := r.try(func() {
		got = n.GetLabels(func(l string) error {
			if i >= len(want) {
				r.fail("iter", "iteration of %q calls back %d times for %d labels", x.cp, i+1, len(want))
				return io.EOF
			}
			if l != want[i] {
				r.fail("iter", "iteration of %q gives %q as label %d, it is %q", x.cp, l, i, want[i])
				return io.EOF
			}
			handed = append(handed, l)
			switch stall {
			case 1:
				rt.Point()
			case 2:
				rt.Point()
				rt.Point()
				if g.P(1, 8) {
					rt.Sleep(int64(1) << uint(g.Intn(40)))
				}
			}
			if mode >= 3 && depth > 0 && c.nest[t] > 0 && g.P(1, 3) {
				c.nest[t]--
				y := x
				if g.P(1, 3) {
					y = c.keys[g.Intn(len(c.keys))]
				}
				if g.P(1, 3) && y.ok {
					c.walk(r, t, y.name, y.want(), y.cp, op)
				} else {
					sub := Op{ID: op.ID, X: g.U64(), N: g.Intn(5)}
					c.iter(r, t, y, &sub, depth-1)
				}
				if r.stop {
					return io.EOF
				}
			}
			if i == stopAt {
				if mode == 2 {
					panic(cbPanic{op.ID*1000 + i})
				}
				i++
				return stopErr
			}
			i++
			return nil
		})
	})
	if r.stop {
		return
	}
	for j, l := range handed {
		if l != want[j] {
			r.fail("iter", "a label handed out by an iteration of %q changed from %q to %q", x.cp, want[j], l)
			return
		}
	}
	stopped := stopAt >= 0 && stopAt < len(want)
	switch {
	case out == killedOut:
		panic(rt.Killed)
	case out == panicOut:
		r.fail("iter", "iteration of %q panics: %s at %s", x.cp, rt.Show(val), trim(st))
	case out == capOut:
		r.fail("iter", "iteration of %q does not end", x.cp)
	case mode == 2 && stopped:
		r.n.IterPanics++
		if out != cbOut {
			r.fail("iter", "a panic of the callback at label %d of %q does not come through", stopAt, x.cp)
		}
	case out == cbOut:
		r.fail("iter", "iteration of %q panics with something an earlier callback threw", x.cp)
	case mode == 1 && stopped:
		r.n.IterStops++
		if got != stopErr {
			r.fail("iter", "iteration of %q stopped at label %d with error %v returns %v", x.cp, stopAt, stopErr, got)
		} else if i != stopAt+1 {
			r.fail("iter", "iteration of %q goes on after its callback failed at label %d", x.cp, stopAt)
		}
	default:
		if got != nil {
			r.fail("iter", "iteration of %q returns %v though no callback failed", x.cp, got)
		} else if i != len(want) {
			r.fail("iter", "iteration of %q ends after %d of %d labels", x.cp, i, len(want))
		}
	}
}

// walk steps through the labels by offset.
func (c *convRun) walk(r *Run, t *rt.Task, n domain.Name, want []string, text string, op *Op) {
	off := 0
	for i := 0; ; i++ {
		l, next := n.GetLabel(off)
		if len(want) == 0 {
			if l != "" || next != 0 {
				r.fail("walk", "the first label of the empty name %q is %q, next offset %d", text, l, next)
			}
			break
		}
		if i >= len(want) {
			r.fail("walk", "stepping through %q gives more than %d labels", text, len(want))
			return
		}
		if l != want[i] || next < 0 {
			r.fail("walk", "stepping through %q gives %q (next %d) as label %d, it is %q", text, l, next, i, want[i])
			return
		}
		if op.X%7 == 0 {
			rt.Point()
		}
		if next == 0 {
			if i != len(want)-1 {
				r.fail("walk", "stepping through %q ends after %d of %d labels", text, i+1, len(want))
			}
			break
		}
		off = next
	}
	if op.X%5 == 0 && !r.stop {
		for _, o := range []int{-1, -1 << 40, 256, 1 << 40} {
			if l, next := n.GetLabel(o); next != -1 {
				r.fail("walk", "GetLabel(%d) of %q gives %q and offset %d instead of an error", o, text, l, next)
				return
			}
		}
	}
}

// final rechecks everything ever returned.
func (c *convRun) final(r *Run) {
	// when there are many, some of them
	for i := 0; i < len(c.kept); i += 1 + len(c.kept)/100 {
		if r.stop {
			return
		}
		c.recheck(r, c.kept[i])
	}
	for i := 0; i < len(c.keys); i += 1 + len(c.keys)/100 {
		if x := c.keys[i]; x.ok && !r.stop {
			c.recheck(r, kept{name: &x.name, k: x})
		}
	}
}

// parse mixes conversions into runs on trees.
func (r *Run) parse(op *Op, a *Arg) {
	r.n.Convs++
	text, raw, name := "Www.Example.\\099om", "A.B\x00c", domain.Name{}
	if a != nil && r.f.Kind == "dom" {
		text, name = a.str, a.name
	} else if a != nil && r.f.Kind == "label" {
		raw = a.raw
		name, _ = domain.MakeNameFromString(a.str)
	}
	switch op.N % 6 {
	case 0:
		domain.MakeNameFromString(text)
	case 1:
		domain.MakeLabel(firstLabel(text))
	case 2:
		domain.MakeHumanReadableLabel(raw)
	case 3:
		i := 0
		name.GetLabels(func(l string) error {
			i++
			if op.X%3 == 0 && i > 1 {
				return io.EOF
			}
			rt.Point()
			return nil
		})
	case 4:
		off := 0
		for i := 0; i < 130; i++ {
			if _, off = name.GetLabel(off); off <= 0 {
				break
			}
		}
	case 5:
		domain.MakeNameFromReflection(reflect.ValueOf(&name))
	}
}

// Texts.

func (g G) convLabel(long bool) string {
	n := 1 + g.Intn(3)
	if long {
		n = g.in(60, 66)
	}
	if g.P(1, 30) {
		n = g.in(60, 66)
	}
	b := make([]byte, n)
	k := g.Intn(6)
	if k == 5 {
		// letters which are none in ASCII
		t := ""
		for len(t) < n {
			t += []string{"é", "É", "ß", "ı", "ſ", "\u212a", "ǆ", "a", "Z", "\xe9"}[g.Intn(10)]
		}
		return string(upper([]byte(t[:n])))
	}
	for i := range b {
		switch k {
		case 0:
			b[i] = "abcXYZ019-"[g.Intn(10)]
		case 1:
			b[i] = byte(g.U64())
		case 2:
			b[i] = "aA.\\ @[`{z!~\x7f"[g.Intn(13)]
		default:
			b[i] = byte('a' + i%26)
		}
	}
	return string(upper(b))
}

func (g G) convKeys(n int) []Key {
	out := []Key{}
	var names [][]string
	for i := 0; i < n; i++ {
		var ls []string
		switch g.pick(3, 6, 2, 2, 2, 1) {
		case 0:
			if len(names) > 0 {
				ls = append(ls, names[g.Intn(len(names))]...) // another spelling
				break
			}
			fallthrough
		case 1:
			for d := g.in(1, 4); d > 0; d-- {
				ls = append(ls, g.convLabel(false))
			}
		case 2: // near the limit on labels
			for d := g.in(124, 129); d > 0; d-- {
				ls = append(ls, string(byte('A'+len(ls)%26)))
			}
		case 3: // near the limit on names
			want := g.in(252, 258)
			for left := want; left > 1; {
				l := g.in(1, 63)
				if l > left-1 {
					l = left - 1
				}
				if left-l-1 == 1 {
					l--
				}
				if l < 1 {
					break
				}
				b := make([]byte, l)
				for j := range b {
					b[j] = byte('A' + (j+len(ls))%26)
				}
				ls = append(ls, string(b))
				left -= l + 1
			}
		case 4: // near the limit on a label
			for d := g.in(1, 3); d > 0; d-- {
				ls = append(ls, g.convLabel(d == 1))
			}
		}
		names = append(names, ls)
		s := spellName(ls, g.sp())
		if g.P(1, 4) {
			s = g.damage(s)
		}
		out = append(out, Key{R: []byte(s)})
	}
	return out
}

// damage makes a text malformed, mostly.
func (g G) damage(s string) string {
	at := g.Intn(len(s) + 1)
	bits := []string{".", "..", "\\", "\\2", "\\25", "\\256", "\\300", "\\999", "\\255", "\\000", "\\097", "\\1a2", "\\12x", "\\.", "\\\\", " ", "\xff", "\\260", "\\z"}
	ins := bits[g.Intn(len(bits))]
	switch g.Intn(4) {
	case 0:
		return ins + s
	case 1:
		return s + ins
	}
	return s[:at] + ins + s[at:]
}

func (g G) convOps(n, nkeys int, iter bool, kill int) []Op {
	w := []int{10, 8, 8, 4, 4, 1, 1, 0}
	if iter {
		w = []int{2, 1, 1, 1, 1, 12, 8, 1}
	}
	names := []string{"name", "label", "human", "refl", "recheck", "iter", "walk", "sleep"}
	var out []Op
	for len(out) < n {
		o := Op{K: names[g.pick(w...)], A: g.Intn(nkeys), V: g.Intn(1 << 16), X: g.U64() >> 8, N: g.Intn(64)}
		if g.Intn(100) < kill {
			o.Kill = int64(g.logu(600))
		}
		if g.P(1, 20) {
			o.Pause = int64(g.logu(2000))
		}
		out = append(out, o)
	}
	return out
}

// longHuman judges the text of something longer than a label: all of it if
// that fits into the text of a label, else a part from its start.
func longHuman(h, raw string) (string, bool) {
	const room = 4 * domain.MaxLabel
	if w := human(raw); len(w) <= room {
		return h, h == w
	}
	if len(h) > room {
		return h, false
	}
	for i := range []byte(raw) {
		w := human(raw[:i])
		if len(w) >= len(h) {
			return h, w == h && len(h) > room-4
		}
	}
	return h, false
}
