package main

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"unsafe"

	"verifsim/rt"
)

// Dumps, judged against the content a version's history implies.

type dnode struct {
	label string
	kids  [2]int
	seen  bool
	edges bool
	up    int
}

var (
	reNode = regexp.MustCompile(`^N(\d+) \[label=(.*)\]$`)
	reEdge = regexp.MustCompile(`^N(\d+) -> \{ N(\d+) N(\d+) \}$`)
	reNum  = regexp.MustCompile(`^"k: ([0-9a-f]+), b: (\d+)(?:, v: \\"(.*)\\")?"$`)
)

// quoted gives the length of the Graphviz string s starts with.
func quoted(s string) int {
	if s == "" || s[0] != '"' {
		return 0
	}
	for i := 1; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
		case '"':
			return i + 1
		}
	}
	return 0
}

// parseDot reads a dump.
func parseDot(s string) ([]dnode, string) {
	const head, tail = "digraph d {\n", "}\n"
	if !strings.HasPrefix(s, head) || !strings.HasSuffix(s, tail) || len(s) < len(head)+len(tail) {
		return nil, "is not a digraph"
	}
	s = s[len(head) : len(s)-len(tail)]
	var ns []dnode
	at := func(x string) *dnode {
		i, err := strconv.Atoi(x)
		if err != nil || i > 1<<20 {
			return &dnode{}
		}
		for i >= len(ns) {
			ns = append(ns, dnode{up: -1})
		}
		return &ns[i]
	}
	for s != "" {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return nil, "has an unfinished line"
		}
		l := s[:i]
		s = s[i+1:]
		if m := reEdge.FindStringSubmatch(l); m != nil {
			n := at(m[1])
			if n.edges {
				return nil, "lists the edges of N" + m[1] + " twice"
			}
			a, _ := strconv.Atoi(m[2])
			b, _ := strconv.Atoi(m[3])
			p, _ := strconv.Atoi(m[1])
			n.edges = true
			n.kids = [2]int{a, b}
			for _, k := range m[2:4] {
				c := at(k)
				if c.up >= 0 {
					return nil, "gives N" + k + " two parents"
				}
				c.up = p
			}
			continue
		}
		m := reNode.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Sprintf("has an unknown line %q", l)
		}
		q := quoted(m[2])
		if q == 0 {
			return nil, fmt.Sprintf("has a malformed label in %q", l)
		}
		n := at(m[1])
		if n.seen {
			return nil, "lists N" + m[1] + " twice"
		}
		n.seen = true
		n.label = m[2][:q]
	}
	for i := range ns {
		if !ns[i].seen {
			return nil, fmt.Sprintf("has edges to N%d, which it does not list", i)
		}
		if i > 0 && ns[i].up < 0 {
			return nil, fmt.Sprintf("has no edge to N%d", i)
		}
		if ns[i].up >= i {
			return nil, fmt.Sprintf("has an edge from N%d to N%d", ns[i].up, i)
		}
	}
	return ns, ""
}

func quoteIn(s string) string {
	q := fmt.Sprintf("%q", s)
	return q[1 : len(q)-1]
}

// valText is how a dump shows a value.
func (f *Fam) valText(tok uint64) string {
	if f.Bits > 0 {
		return fmt.Sprintf("%d", tok)
	}
	return quoteIn(fmt.Sprintf("%#v", tokVal(tok)))
}

func tokVal(tok uint64) any {
	switch tok {
	case nilTok:
		return nil
	case typedNilTok:
		return (*box)(nil)
	case zeroTok:
		return 0.0
	case zeroTok + 1:
		return math.Copysign(0, -1)
	case nanTok:
		return math.NaN()
	}
	return encVal(tok)
}

func (f *Fam) dotLabel(key string, tok uint64) string {
	if f.Bits == 0 && tok == nilTok {
		return fmt.Sprintf("%q", key)
	}
	return fmt.Sprintf(`"k: \"%s\" v: \"%s\""`, quoteIn(key), f.valText(tok))
}

// chkDot compares a dump with the content.
func (r *Run) chkDot(what, d string, m Model) {
	if r.stop {
		return
	}
	ns, bad := parseDot(d)
	if bad != "" {
		r.fail("dump", "%s of %d entries %s", what, len(m), bad)
		return
	}
	i := 0
	texts := map[string][]string{}
	if r.f.Kind != "num" {
		for _, a := range r.args {
			k := a.str
			if r.f.Kind == "label" {
				k = a.raw
			}
			texts[a.canon] = append(texts[a.canon], k)
		}
	}
	entry := func(n *dnode) {
		if i >= len(m) {
			r.fail("dump", "%s lists %s beyond the %d entries", what, n.label, len(m))
			return
		}
		e := m[i]
		i++
		for _, k := range texts[e.C] {
			if r.f.dotLabel(k, e.Tok) == n.label {
				return
			}
		}
		r.fail("dump", "%s lists %s as entry %d, the content implies %q=%d", what, n.label, i-1, r.f.show(e.C), e.Tok)
	}
	var walk func(k int, in string, depth int)
	walk = func(k int, in string, depth int) {
		n := &ns[k]
		if r.stop || depth > 1000 {
			return
		}
		if n.label == `"nil"` && !n.edges && (r.f.Kind == "num" || i >= len(m) || !r.isNilKey(texts[m[i].C], m[i].Tok)) {
			return
		}
		if r.f.Kind != "num" {
			if n.edges {
				walk(n.kids[0], in, depth+1)
			}
			if r.stop {
				return
			}
			entry(n)
			if n.edges {
				walk(n.kids[1], in, depth+1)
			}
			return
		}
		x := reNum.FindStringSubmatch(n.label)
		if x == nil {
			r.fail("dump", "%s has an unknown label %s", what, n.label)
			return
		}
		key, err1 := strconv.ParseUint(x[1], 16, 64)
		bits, err2 := strconv.Atoi(x[2])
		if err1 != nil || err2 != nil || bits > r.f.W {
			r.fail("dump", "%s has a strange label %s", what, n.label)
			return
		}
		c := numCanon(r.f.W, key, bits)
		if in != "" && !containsBits(in, c) {
			r.fail("dump", "%s puts %s below a prefix which does not contain it", what, n.label)
			return
		}
		if strings.Contains(n.label, "v: ") {
			if i >= len(m) {
				r.fail("dump", "%s lists %s beyond the %d entries", what, n.label, len(m))
				return
			}
			e := m[i]
			i++
			if e.C != c || x[3] != r.f.valText(e.Tok) {
				r.fail("dump", "%s lists %s as entry %d, the content implies %q=%d", what, n.label, i-1, r.f.show(e.C), e.Tok)
				return
			}
		}
		if n.edges {
			walk(n.kids[0], c, depth+1)
			walk(n.kids[1], c, depth+1)
		}
	}
	if len(ns) > 0 {
		walk(0, "", 0)
	}
	if !r.stop && i < len(m) {
		r.fail("dump", "%s lists %d of %d entries", what, i, len(m))
	}
}

// isNilKey: an entry whose label reads "nil" is not a missing node.
func (r *Run) isNilKey(keys []string, tok uint64) bool {
	for _, k := range keys {
		if r.f.dotLabel(k, tok) == `"nil"` {
			return true
		}
	}
	return false
}

// Space: what a version keeps alive.

type space struct {
	seen  map[uintptr]bool
	nodes int
	vals  map[uint64]bool
	deep  bool
	at    int // nodes above
	ptrs  int // the most there were
}

var libTypes = map[reflect.Type]bool{}

func libType(t reflect.Type) bool {
	b, ok := libTypes[t]
	if !ok {
		b = strings.Contains(t.PkgPath(), "infobloxopen/go-trees")
		libTypes[t] = b
	}
	return b
}

func (s *space) walk(v reflect.Value, d int) {
	if !v.IsValid() {
		return
	}
	if d > 2000 || s.nodes > 1<<20 {
		s.deep = true
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		e := v.Elem()
		if !e.IsValid() {
			return
		}
		t := e.Type()
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		if libType(t) {
			s.walk(e, d+1)
			return
		}
		s.value(e)
	case reflect.Ptr:
		if v.IsNil() || !libType(v.Type().Elem()) || s.seen[v.Pointer()] {
			return
		}
		s.seen[v.Pointer()] = true
		s.nodes++
		if s.at++; s.at > s.ptrs {
			s.ptrs = s.at
		}
		s.walk(v.Elem(), d+1)
		s.at--
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.walk(v.Field(i), d+1)
		}
	case reflect.Array, reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				s.walk(v.Index(i), d+1)
			}
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			s.nodes++
			s.walk(it.Key(), d+1)
			s.walk(it.Value(), d+1)
		}
	}
}

// value notes a value of the harness which the tree holds.
func (s *space) value(e reflect.Value) {
	switch e.Kind() {
	case reflect.Int:
		s.vals[uint64(e.Int())] = true
	case reflect.String:
		var t uint64
		if _, err := fmt.Sscanf(e.String(), "v%d", &t); err == nil {
			s.vals[t] = true
		}
	case reflect.Ptr:
		if !e.IsNil() && e.Type() == reflect.TypeOf((*box)(nil)) {
			s.vals[e.Elem().Field(0).Uint()] = true
		}
	case reflect.Struct:
		if e.Type() == reflect.TypeOf(rec{}) {
			s.vals[e.Field(1).Uint()] = true
		}
	case reflect.Slice:
		if e.Len() == 2 && e.Type().Elem().Kind() == reflect.Uint64 {
			s.vals[e.Index(0).Uint()] = true
		}
	}
}

// units is the size of a content.
func (f *Fam) units(m Model) int {
	switch f.Kind {
	case "dom":
		seen := map[string]bool{}
		for _, e := range m {
			for c := e.C; c != "" && !seen[c]; c = parentCanon(c) {
				seen[c] = true
			}
		}
		return len(seen)
	}
	return len(m)
}

func (f *Fam) room(m Model) int {
	n := f.units(m)
	switch f.Kind {
	case "str", "label":
		return 2*n + 12
	case "num":
		return 4*n + 12
	case "dom":
		return 6*n + 12
	}
	return 8*n + 16
}

// chkSpace: a version keeps no more than its content needs.
func (r *Run) chkSpace(what string, T any, m Model) {
	if r.stop {
		return
	}
	s := &space{seen: map[uintptr]bool{}, vals: map[uint64]bool{}}
	s.walk(reflect.ValueOf(T), 0)
	r.n.SpaceChecks++
	if max := r.f.room(m); s.nodes > max || s.deep {
		r.fail("space", "%s of %d entries holds %d nodes (allowed %d)", what, len(m), s.nodes, max)
		return
	}
	if r.f.Bits > 0 || len(s.vals) == 0 {
		return
	}
	have := map[uint64]bool{}
	for _, e := range m {
		have[e.Tok] = true
	}
	for v := range s.vals {
		if !have[v] {
			r.fail("retained", "%s of %d entries still holds value %d, which was removed or replaced", what, len(m), v)
			return
		}
	}
}

// chkHeld sees what a version keeps alive once there is nothing else.
func chkHeld(sc *Scenario, v *Ver) *Violation {
	f := famByName(sc.Fam)
	heap := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	have, live, which := map[uint64]bool{}, 0, uint64(0)
	for _, e := range v.M {
		have[e.Tok] = true
	}
	T, room, n := v.T, f.room(v.M), len(v.M)
	*v = Ver{}
	with := heap()
	var old []leakRef
	for _, l := range leaks {
		if l.w.Value() != nil && !have[l.tok] {
			old = append(old, l)
		}
	}
	runtime.KeepAlive(T)
	T = nil
	held := with - heap()
	for _, l := range old {
		// what is still there is not the version's fault
		if l.w.Value() == nil {
			live++
			which = l.tok
		}
	}
	held += int64(cap(old)) * int64(unsafe.Sizeof(leakRef{}))
	if leakDbg {
		fmt.Println("held", sc.Fam, n, room, held, live, len(leaks))
	}
	fail := func(class, s string, a ...any) *Violation {
		return &Violation{Prop: sc.Prop, Class: class, Msg: sc.Fam + ": " + fmt.Sprintf(s, a...), Where: "at the end"}
	}
	if live > 3 {
		return fail("held", "a version of %d entries keeps %d values alive which were removed or replaced, value %d among them", n, live, which)
	}
	if max := int64(16384 + 512*room); held > max {
		return fail("held", "a version of %d entries keeps %d bytes alive (allowed %d)", n, held, max)
	}
	return nil
}

var leakDbg = os.Getenv("VERIF_HELD") != ""

var _ = rt.Point
