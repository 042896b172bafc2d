package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"net"
	"strconv"
	"strings"
	"weak"

	"github.com/infobloxopen/go-trees/dltree"
	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
	"github.com/infobloxopen/go-trees/iptree"
	"github.com/infobloxopen/go-trees/numtree"
	"github.com/infobloxopen/go-trees/strtree"
	"verifsim/rt"
)

// Arg is a key made ready for calls.  It may be shared by several callers.
type Arg struct {
	key    Key
	canon  string
	usable bool   // the library must treat it as a key
	str    string // text form
	raw    string // binary label
	name   domain.Name
	fresh  bool // parse the name inside the operation
	nlab   int
	net    *net.IPNet
	ip     net.IP
	byIP   bool
	num    uint64
	bits   int
	savIP  []byte
	savMsk []byte
	bad    string // the library refused a valid key
	orig   *Arg   // what it is a copy of
}

func clamp(b, w int) int {
	if b < 0 {
		return 0
	}
	if b > w {
		return w
	}
	return b
}

func prepare(f *Fam, cmp *Cmp, k Key) *Arg {
	a := &Arg{key: k, usable: true}
	switch f.Kind {
	case "str":
		a.str = string(k.R)
		a.canon = cmp.class(a.str)
	case "label":
		a.raw = string(k.R)
		a.str = spell(a.raw, k.Sp)
		if k.Sp > 0 && k.Sp%5 == 0 && a.str != "" {
			a.str += "."
		}
		a.canon = canonLabels([]string{a.raw})
	case "dom":
		ls := wireLabels(k.R)
		a.str = spellName(ls, k.Sp)
		a.nlab = len(ls)
		rev := make([]string, len(ls))
		for i, l := range ls {
			rev[len(ls)-1-i] = l
		}
		a.canon = canonLabels(rev)
		n, err := domain.MakeNameFromString(a.str)
		if err != nil {
			a.bad = fmt.Sprintf("valid name %q is refused: %v", a.str, err)
		}
		a.name = n
		a.fresh = k.Sp > 0 && k.Sp%4 == 2
	case "num":
		var b [8]byte
		copy(b[8-len(k.R):], k.R)
		a.num = binary.BigEndian.Uint64(b[:])
		a.bits = k.B
		a.canon = canonBits('n', k.R, clamp(k.B, 8*len(k.R)))
	case "ip":
		w := 8 * len(k.R)
		fam := byte(4)
		if w == 128 {
			fam = 6
		}
		switch k.Sp {
		case 0:
			a.net = &net.IPNet{IP: append(net.IP(nil), k.R...), Mask: net.CIDRMask(k.B, w)}
			a.canon = canonBits(fam, k.R, k.B)
		case 1, 2:
			a.byIP = true
			ip := append(net.IP(nil), k.R...)
			if k.Sp == 2 && w == 32 {
				ip = net.IPv4(ip[0], ip[1], ip[2], ip[3])
			}
			a.ip = ip
			a.canon = canonBits(fam, k.R, w)
			if v4 := ip.To4(); v4 != nil && w == 128 {
				a.canon = canonBits(4, v4, 32)
			}
		case 3: // mask of the other family
			a.net = &net.IPNet{IP: append(net.IP(nil), k.R...), Mask: net.CIDRMask(k.B%32, 160-w)}
			a.usable = false
		case 4: // no network
			a.usable = false
		case 5: // mask with holes
			m := net.CIDRMask(w/2, w)
			m[len(m)-1] |= 1
			a.net = &net.IPNet{IP: append(net.IP(nil), k.R...), Mask: m}
			a.usable = false
		case 6: // broken address
			a.byIP = true
			a.ip = append(net.IP(nil), k.R[:3]...)
			a.usable = false
		}
		a.nlab = 1
		if a.net != nil {
			a.savIP = append([]byte(nil), a.net.IP...)
			a.savMsk = append([]byte(nil), a.net.Mask...)
		} else {
			a.savIP = append([]byte(nil), a.ip...)
		}
	}
	return a
}

// changed says whether a call wrote to the argument.
func (a *Arg) changed() bool {
	if a.net != nil {
		return !bytes.Equal(a.savIP, a.net.IP) || !bytes.Equal(a.savMsk, a.net.Mask)
	}
	return a.ip != nil && !bytes.Equal(a.savIP, a.ip)
}

// loan is the argument in memory of its own, which the caller uses again for
// something else (spoil) when the call has returned.
func (a *Arg) loan() *Arg {
	b := *a
	b.orig = a
	if a.net != nil {
		b.net = &net.IPNet{IP: append(net.IP(nil), a.net.IP...), Mask: append(net.IPMask(nil), a.net.Mask...)}
	}
	if a.ip != nil {
		b.ip = append(net.IP(nil), a.ip...)
	}
	return &b
}

func (a *Arg) spoil() {
	if a.net != nil {
		for i := range a.net.IP {
			a.net.IP[i] ^= 0xa5
		}
		for i := range a.net.Mask {
			a.net.Mask[i] = 0
		}
	}
	for i := range a.ip {
		a.ip[i] ^= 0xa5
	}
}

// own is the argument as the run keeps it.
func (a *Arg) own() *Arg {
	if a.orig != nil {
		return a.orig
	}
	return a
}

func (a *Arg) dom() domain.Name {
	if a.fresh {
		n, _ := domain.MakeNameFromString(a.str)
		return n
	}
	return a.name
}

// Stream is an enumeration in progress.
type Stream struct {
	next func() (string, uint64, bool)
	keys []*net.IPNet
	strs []string
	nets bool
}

// retained checks that keys handed out earlier are still what they were.
func (s *Stream) retained() bool {
	for i, n := range s.keys {
		if showNet(n) != s.strs[i] {
			return false
		}
	}
	return true
}

func showNet(n *net.IPNet) string {
	if n == nil {
		return "nil"
	}
	ones, bits := n.Mask.Size()
	if bits != 8*len(n.IP) {
		return fmt.Sprintf("%x/%x", []byte(n.IP), []byte(n.Mask))
	}
	// show16 keeps ::ffff:a.b.c.d apart from a.b.c.d in the family prefix
	return famIP(len(n.IP)) + fmt.Sprintf("%v/%d", n.IP, ones)
}

func famIP(n int) string {
	if n == 4 {
		return "v4 "
	}
	return "v6 "
}

// Fam is a tree implementation under test behind one interface.
type Fam struct {
	Name string
	Kind string // str, label, dom, num, ip
	Bits int    // width of values, 0 for arbitrary ones
	W    int    // width of number keys

	New    func(c *Cmp) any
	Nil    func() any
	Ins    func(t any, a *Arg, v uint64) any
	Inp    func(t any, a *Arg, v uint64) any // gives the tree to go on with
	Get    func(t any, a *Arg) (uint64, bool)
	Exact  func(t any, a *Arg) (uint64, bool)
	Del    func(t any, a *Arg) (any, bool)
	Sub    func(t any, a *Arg) (any, bool)
	Enum   func(t any) *Stream
	Raw    func(t any) *Stream
	Dot    func(t any) string
	Empty  func(t any) bool
	Kids   func(t any) *kid // a number tree's node; nil: none
	Upd    func(t any, a *Arg, cb func(string, uint64) (uint64, bool)) string
	NilInp bool // in-place insertion into a nil tree is fine
}

// kid is a node of a number tree.
type kid struct {
	key  uint64
	bits int
	leaf bool
	tok  uint64
	l, r any
}

func numCanon(w int, key uint64, bits int) string {
	b := make([]byte, w/8)
	for j := range b {
		b[j] = byte(key >> uint(8*(len(b)-1-j)))
	}
	return canonBits('n', b, bits)
}

// delContained: deleting a key removes everything it contains.
func (f *Fam) delContained() bool { return f.Kind == "num" || f.Kind == "ip" }

// Model operations of a family.

func (f *Fam) mGet(m Model, a *Arg) (uint64, bool) {
	if !a.usable {
		return 0, false
	}
	switch f.Kind {
	case "str", "label":
		return m.get(a.canon)
	case "dom":
		best, ok := m.get(a.canon)
		if ok {
			return best, true
		}
		c := a.canon
		for {
			if c == "" {
				return 0, false
			}
			c = parentCanon(c)
			if v, ok := m.get(c); ok {
				return v, true
			}
		}
	default:
		best, ok, blen := uint64(0), false, -1
		for i := range m {
			e := &m[i]
			if l := int(e.C[len(e.C)-1]); l > blen && containsBits(e.C, a.canon) {
				best, ok, blen = e.Tok, true, l
			}
		}
		return best, ok
	}
}

// parentCanon drops the last label of a canonical name.
func parentCanon(c string) string {
	last := 0
	for i := 0; i < len(c); i += int(c[i]) + 1 {
		last = i
	}
	return c[:last]
}

func (f *Fam) mDel(m Model, a *Arg) (Model, bool) {
	if !a.usable {
		return m, false
	}
	if f.delContained() {
		return m.delIf(func(c string) bool { return containsBits(a.canon, c) })
	}
	return m.del(a.canon)
}

func (f *Fam) mSub(m Model, a *Arg) (Model, bool) {
	return m.delIf(func(c string) bool { return len(c) >= len(a.canon) && c[:len(a.canon)] == a.canon })
}

func (f *Fam) mPut(m Model, a *Arg, v uint64) Model {
	if !a.usable {
		return m
	}
	return m.put(a.canon, v)
}

// show gives the key of an entry as an enumeration shows it (canonicalised).
func (f *Fam) show(c string) string {
	if f.Kind == "ip" {
		return famIP(len(c)-2) + showKey("ip", c)
	}
	return showKey(f.Kind, c)
}

// mask keeps a token within the width of the values.
func (f *Fam) mask(v uint64) uint64 {
	if f.Bits > 0 && f.Bits < 64 {
		return v & (1<<uint(f.Bits) - 1)
	}
	return v
}

// Arbitrary values.  style says how tokens are represented.

type box struct {
	tok  uint64
	more []byte
}

type rec struct {
	A string
	N uint64
}

var oddTexts = []string{"x", `a "quoted" text`, "back\\slash\\", "two\nlines", `"`, "%d %!s", "\xff\x00", `N0 -> { N1 N2 }`, `\"]`, "é世"}

var valStyle int

// styleOf says how a token is represented.
func styleOf(tok uint64) int {
	s := valStyle
	if s == 4 {
		s = [...]int{0, 1, 2, 3, 5, 6}[int(tok>>3)%6]
	}
	return s
}

type notVal struct{}

const badTok = ^uint64(0) - 77

func encVal(tok uint64) any {
	switch styleOf(tok) {
	case 1:
		if tok%5 == 0 {
			return nil
		}
		return "v" + strconv.FormatUint(tok, 10)
	case 5:
		if tok%11 == 0 {
			return (*box)(nil)
		}
		return rec{A: oddTexts[tok%uint64(len(oddTexts))], N: tok}
	case 6:
		return "v" + strconv.FormatUint(tok, 10) + " " + oddTexts[tok%uint64(len(oddTexts))]
	case 2:
		return &box{tok: tok}
	case 3:
		return []uint64{tok, ^tok}
	case 9:
		// different values that look the same
		switch tok % 4 {
		case 0:
			t := &twin{}
			twins[t] = tok
			return t
		case 1:
			return zero(tok)
		case 2:
			switch v := tok >> 4; tok >> 2 % 4 {
			case 0:
				return alike(v)
			case 1:
				return int64(v)
			case 2:
				return uint64(v)
			default:
				return uintptr(v)
			}
		}
		t := &twin{}
		twins[t] = tok
		return hold{t}
	case 8:
		l := &leak{tok: tok}
		leaks = append(leaks, leakRef{weak.Make(l), tok})
		return l
	case 7:
		// types the trees use themselves, and some one cannot compare
		switch tok >> 7 % 8 {
		case 0, 1:
			return &numtree.Node64{Key: tok, Bits: uint8(tok % 65), Leaf: tok%2 == 0, Value: tok}
		case 2:
			return &numtree.Node32{Key: uint32(tok), Bits: uint8(tok % 33), Leaf: tok%2 == 0, Value: tok}
		case 3:
			return iptree.Pair{Value: tok}
		case 4:
			return strtree.Pair{Key: "k", Value: tok}
		case 5:
			return map[string]uint64{"t": tok}
		case 6:
			return odd{tok, nil}
		}
		return func() uint64 { return tok }
	}
	return int(tok)
}

// leak is a value of which one can tell whether something still holds it.
type leak struct {
	tok uint64
	pad [4]uint64
	me  *leak
}

type leakRef struct {
	w   weak.Pointer[leak]
	tok uint64
}

var leaks []leakRef

// twin is a value which looks like all others of its type.
type twin struct{ a, b uint64 }

type hold struct{ t *twin }

func (hold) GoString() string { return "hold" }

// alike is a number that prints like one of another type.
type alike uint64

var twins map[*twin]uint64

// zero is one of the zeros, or not a number.
func zero(tok uint64) float64 {
	switch tok >> 2 % 3 {
	case 0:
		return math.Copysign(0, -1)
	case 1:
		return 0
	}
	return math.NaN()
}

// odd is an error which one cannot compare.
type odd struct {
	tok  uint64
	more []int
}

func (odd) Error() string { return "odd" }

func decVal(v any) uint64 {
	switch x := v.(type) {
	case nil:
		return nilTok
	case int:
		return uint64(x)
	case string:
		d, _, _ := strings.Cut(x, " ")
		t, err := strconv.ParseUint(strings.TrimPrefix(d, "v"), 10, 64)
		if err != nil || encVal(t) != any(x) {
			return badTok
		}
		return t
	case rec:
		if x.A != oddTexts[x.N%uint64(len(oddTexts))] {
			return badTok
		}
		return x.N
	case *box:
		if x == nil {
			return typedNilTok
		}
		return x.tok
	case *leak:
		return x.tok
	case *twin:
		return twins[x]
	case hold:
		return twins[x.t]
	case alike:
		return uint64(x)<<4 | 2
	case int64:
		return uint64(x)<<4 | 6
	case uint64:
		return uint64(x)<<4 | 10
	case uintptr:
		return uint64(x)<<4 | 14
	case float64:
		switch {
		case x != x:
			return nanTok
		case math.Signbit(x):
			return zeroTok + 1
		}
		return zeroTok
	case *numtree.Node64:
		return tok7(x.Value, func(t uint64) bool {
			return x.Key == t && x.Bits == uint8(t%65) && x.Leaf == (t%2 == 0)
		})
	case *numtree.Node32:
		return tok7(x.Value, func(t uint64) bool {
			return x.Key == uint32(t) && x.Bits == uint8(t%33) && x.Leaf == (t%2 == 0)
		})
	case iptree.Pair:
		return tok7(x.Value, func(uint64) bool { return x.Key == nil })
	case strtree.Pair:
		return tok7(x.Value, func(uint64) bool { return x.Key == "k" })
	case map[string]uint64:
		return x["t"]
	case odd:
		return x.tok
	case func() uint64:
		return x()
	case []uint64:
		if len(x) != 2 || x[1] != ^x[0] {
			return badTok
		}
		return x[0]
	}
	return badTok
}

func tok7(v any, ok func(uint64) bool) uint64 {
	if t, is := v.(uint64); is && ok(t) {
		return t
	}
	return badTok
}

const (
	nilTok      = ^uint64(0) - 3
	typedNilTok = ^uint64(0) - 5
	zeroTok     = ^uint64(0) - 18 // and the next for the negative one
	nanTok      = ^uint64(0) - 26
)

// norm is the token a value comes back as.
func (f *Fam) norm(tok uint64) uint64 {
	if f.Bits > 0 {
		return f.mask(tok)
	}
	switch s := styleOf(tok); {
	case s == 1 && tok%5 == 0:
		return nilTok
	case s == 5 && tok%11 == 0:
		return typedNilTok
	case s == 9 && tok%4 == 1:
		return decVal(zero(tok))
	}
	return tok
}

func dec2(v any, ok bool) (uint64, bool) {
	if !ok {
		return 0, false
	}
	return decVal(v), true
}

var fams []*Fam

func famByName(n string) *Fam {
	for _, f := range fams {
		if f.Name == n {
			return f
		}
	}
	return nil
}

func netStream(recv func() (*net.IPNet, uint64, bool)) *Stream {
	s := &Stream{}
	s.next = func() (string, uint64, bool) {
		k, v, ok := recv()
		if !ok {
			return "", 0, false
		}
		x := showNet(k)
		s.keys = append(s.keys, k)
		s.strs = append(s.strs, x)
		return x, v, true
	}
	return s
}

func init() {
	fams = append(fams,
		&Fam{Name: "strtree", Kind: "str",
			New: func(c *Cmp) any {
				if c.kind == 0 {
					return strtree.NewTree()
				}
				return strtree.NewTreeWithCustomComparison(c.compare)
			},
			Nil:   func() any { return (*strtree.Tree)(nil) },
			Ins:   func(t any, a *Arg, v uint64) any { return t.(*strtree.Tree).Insert(a.str, encVal(v)) },
			Inp:   func(t any, a *Arg, v uint64) any { t.(*strtree.Tree).InplaceInsert(a.str, encVal(v)); return t },
			Get:   func(t any, a *Arg) (uint64, bool) { return dec2(t.(*strtree.Tree).Get(a.str)) },
			Del:   func(t any, a *Arg) (any, bool) { return t.(*strtree.Tree).Delete(a.str) },
			Dot:   func(t any) string { return t.(*strtree.Tree).Dot() },
			Empty: func(t any) bool { return t.(*strtree.Tree).IsEmpty() },
			Enum: func(t any) *Stream {
				ch := t.(*strtree.Tree).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					p, ok := rt.Recv2[strtree.Pair](ch)
					if !ok {
						return "", 0, false
					}
					return p.Key, decVal(p.Value), true
				}}
			},
		},
		&Fam{Name: "dltree", Kind: "label",
			New: func(c *Cmp) any { return dltree.NewTree() },
			Nil: func() any { return (*dltree.Tree)(nil) },
			Ins: func(t any, a *Arg, v uint64) any {
				if a.key.Sp%7 == 3 {
					return t.(*dltree.Tree).RawInsert(a.raw, encVal(v))
				}
				return t.(*dltree.Tree).Insert(a.str, encVal(v))
			},
			Inp: func(t any, a *Arg, v uint64) any {
				if a.key.Sp%7 == 3 {
					t.(*dltree.Tree).RawInplaceInsert(a.raw, encVal(v))
				} else {
					t.(*dltree.Tree).InplaceInsert(a.str, encVal(v))
				}
				return t
			},
			Get:   func(t any, a *Arg) (uint64, bool) { return dec2(t.(*dltree.Tree).Get(a.str)) },
			Exact: func(t any, a *Arg) (uint64, bool) { return dec2(t.(*dltree.Tree).RawGet(a.raw)) },
			Del: func(t any, a *Arg) (any, bool) {
				if a.key.Sp%7 == 3 {
					return t.(*dltree.Tree).RawDelete(a.raw)
				}
				return t.(*dltree.Tree).Delete(a.str)
			},
			Dot:   func(t any) string { return t.(*dltree.Tree).Dot() },
			Empty: func(t any) bool { return t.(*dltree.Tree).IsEmpty() },
			Enum: func(t any) *Stream {
				ch := t.(*dltree.Tree).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					p, ok := rt.Recv2[dltree.Pair](ch)
					if !ok {
						return "", 0, false
					}
					return p.Key, decVal(p.Value), true
				}}
			},
			Raw: func(t any) *Stream {
				ch := t.(*dltree.Tree).RawEnumerate()
				return &Stream{next: func() (string, uint64, bool) {
					p, ok := rt.Recv2[dltree.Pair](ch)
					if !ok {
						return "", 0, false
					}
					return human(p.Key), decVal(p.Value), true
				}}
			},
		},
		&Fam{Name: "domaintree", Kind: "dom",
			New: func(c *Cmp) any { return new(domaintree.Node) },
			Nil: func() any { return (*domaintree.Node)(nil) },
			Ins: func(t any, a *Arg, v uint64) any { return t.(*domaintree.Node).Insert(a.dom(), encVal(v)) },
			Inp: func(t any, a *Arg, v uint64) any {
				t.(*domaintree.Node).InplaceInsert(a.dom(), encVal(v))
				return t
			},
			Get: func(t any, a *Arg) (uint64, bool) { return dec2(t.(*domaintree.Node).Get(a.dom())) },
			Del: func(t any, a *Arg) (any, bool) { return t.(*domaintree.Node).Delete(a.dom()) },
			Sub: func(t any, a *Arg) (any, bool) { return t.(*domaintree.Node).DeleteSubdomains(a.dom()) },
			Enum: func(t any) *Stream {
				ch := t.(*domaintree.Node).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					p, ok := rt.Recv2[domaintree.Pair](ch)
					if !ok {
						return "", 0, false
					}
					return p.Key, decVal(p.Value), true
				}}
			},
		},
		&Fam{Name: "numtree32", Kind: "num", W: 32, NilInp: true,
			New: func(c *Cmp) any { return (*numtree.Node32)(nil) },
			Nil: func() any { return (*numtree.Node32)(nil) },
			Ins: func(t any, a *Arg, v uint64) any {
				return t.(*numtree.Node32).Insert(uint32(a.num), a.bits, encVal(v))
			},
			Inp: func(t any, a *Arg, v uint64) any {
				return t.(*numtree.Node32).InplaceInsert(uint32(a.num), a.bits, encVal(v))
			},
			Get: func(t any, a *Arg) (uint64, bool) { return dec2(t.(*numtree.Node32).Match(uint32(a.num), a.bits)) },
			Exact: func(t any, a *Arg) (uint64, bool) {
				if a.key.Sp%2 == 1 {
					n := t.(*numtree.Node32).FindNode(uint32(a.num), a.bits)
					if n == nil {
						return 0, false
					}
					if !n.Leaf || numCanon(32, uint64(n.Key), int(n.Bits)) != a.canon {
						return badTok, true
					}
					return decVal(n.Value), true
				}
				return dec2(t.(*numtree.Node32).ExactMatch(uint32(a.num), a.bits))
			},
			Del: func(t any, a *Arg) (any, bool) { return t.(*numtree.Node32).Delete(uint32(a.num), a.bits) },
			Dot: func(t any) string { return t.(*numtree.Node32).Dot() },
			Kids: func(t any) *kid {
				n := t.(*numtree.Node32)
				l, r := n.Children()
				if n == nil {
					if l != nil || r != nil {
						return &kid{}
					}
					return nil
				}
				k := &kid{key: uint64(n.Key), bits: int(n.Bits), leaf: n.Leaf, l: l, r: r}
				if n.Leaf {
					k.tok = decVal(n.Value)
				}
				return k
			},
			Enum: func(t any) *Stream {
				ch := t.(*numtree.Node32).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					n, ok := rt.Recv2[*numtree.Node32](ch)
					if !ok {
						return "", 0, false
					}
					if n == nil || !n.Leaf {
						return "not a leaf", 0, true
					}
					return fmt.Sprintf("%08x/%d", n.Key&^uint32(1<<(32-uint(n.Bits))-1), n.Bits), decVal(n.Value), true
				}}
			},
		},
		&Fam{Name: "numtree64", Kind: "num", W: 64, NilInp: true,
			New: func(c *Cmp) any { return (*numtree.Node64)(nil) },
			Nil: func() any { return (*numtree.Node64)(nil) },
			Ins: func(t any, a *Arg, v uint64) any { return t.(*numtree.Node64).Insert(a.num, a.bits, encVal(v)) },
			Inp: func(t any, a *Arg, v uint64) any {
				return t.(*numtree.Node64).InplaceInsert(a.num, a.bits, encVal(v))
			},
			Get: func(t any, a *Arg) (uint64, bool) { return dec2(t.(*numtree.Node64).Match(a.num, a.bits)) },
			Exact: func(t any, a *Arg) (uint64, bool) {
				if a.key.Sp%2 == 1 {
					n := t.(*numtree.Node64).FindNode(a.num, a.bits)
					if n == nil {
						return 0, false
					}
					if !n.Leaf || numCanon(64, uint64(n.Key), int(n.Bits)) != a.canon {
						return badTok, true
					}
					return decVal(n.Value), true
				}
				return dec2(t.(*numtree.Node64).ExactMatch(a.num, a.bits))
			},
			Del: func(t any, a *Arg) (any, bool) { return t.(*numtree.Node64).Delete(a.num, a.bits) },
			Dot: func(t any) string { return t.(*numtree.Node64).Dot() },
			Kids: func(t any) *kid {
				n := t.(*numtree.Node64)
				l, r := n.Children()
				if n == nil {
					if l != nil || r != nil {
						return &kid{}
					}
					return nil
				}
				k := &kid{key: uint64(n.Key), bits: int(n.Bits), leaf: n.Leaf, l: l, r: r}
				if n.Leaf {
					k.tok = decVal(n.Value)
				}
				return k
			},
			Enum: func(t any) *Stream {
				ch := t.(*numtree.Node64).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					n, ok := rt.Recv2[*numtree.Node64](ch)
					if !ok {
						return "", 0, false
					}
					if n == nil || !n.Leaf {
						return "not a leaf", 0, true
					}
					return fmt.Sprintf("%016x/%d", n.Key&^(1<<(64-uint(n.Bits))-1), n.Bits), decVal(n.Value), true
				}}
			},
		},
		&Fam{Name: "iptree", Kind: "ip",
			New: func(c *Cmp) any { return iptree.NewTree() },
			Nil: func() any { return (*iptree.Tree)(nil) },
			Ins: func(t any, a *Arg, v uint64) any {
				if a.byIP {
					return t.(*iptree.Tree).InsertIP(a.ip, encVal(v))
				}
				return t.(*iptree.Tree).InsertNet(a.net, encVal(v))
			},
			Inp: func(t any, a *Arg, v uint64) any {
				if a.byIP {
					t.(*iptree.Tree).InplaceInsertIP(a.ip, encVal(v))
				} else {
					t.(*iptree.Tree).InplaceInsertNet(a.net, encVal(v))
				}
				return t
			},
			Get: func(t any, a *Arg) (uint64, bool) {
				if a.byIP {
					return dec2(t.(*iptree.Tree).GetByIP(a.ip))
				}
				return dec2(t.(*iptree.Tree).GetByNet(a.net))
			},
			Del: func(t any, a *Arg) (any, bool) {
				if a.byIP {
					return t.(*iptree.Tree).DeleteByIP(a.ip)
				}
				return t.(*iptree.Tree).DeleteByNet(a.net)
			},
			Enum: func(t any) *Stream {
				ch := t.(*iptree.Tree).Enumerate()
				return netStream(func() (*net.IPNet, uint64, bool) {
					p, ok := rt.Recv2[iptree.Pair](ch)
					if !ok {
						return nil, 0, false
					}
					return p.Key, decVal(p.Value), true
				})
			},
			Upd: func(t any, a *Arg, cb func(string, uint64) (uint64, bool)) (bad string) {
				n := a.net
				if a.byIP {
					m := net.CIDRMask(8*len(a.ip), 8*len(a.ip))
					n = &net.IPNet{IP: a.ip, Mask: m}
				}
				var keys []*net.IPNet
				var strs []string
				// keys given to the callback stay what they were
				defer func() {
					for i, k := range keys {
						if s := showNet(k); s != strs[i] && bad == "" {
							bad = fmt.Sprintf("key %s given to the callback has become %s", strs[i], s)
						}
					}
				}()
				t.(*iptree.Tree).UpdateDescendants(n, func(p iptree.Pair) (any, bool) {
					k := showNet(p.Key)
					keys, strs = append(keys, p.Key), append(strs, k)
					v, ok := cb(k, decVal(p.Value))
					if !ok {
						return badVal, false
					}
					return encVal(v), true
				})
				return
			},
		},
	)
	addU8()
	addU16()
	addU32()
	addU64()
}

// badVal is returned by callbacks which ask for no update.
var badVal = notVal{}
