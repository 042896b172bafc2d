package main

import (
	"bytes"
	"fmt"
	"net"
	"sort"
	"strings"
)

// Key is one key of a scenario, as data.
//
//	str:   R is the key
//	label: R is the binary label (upper case), Sp selects a spelling
//	dom:   R is a list of length-prefixed binary labels, leaf first; Sp selects a spelling
//	num:   R is the number (4 or 8 bytes, bits beyond B are noise), B the prefix length as passed in
//	ip:    R is the address (4 or 16 bytes, bits beyond B are noise), B the length, Sp the form:
//	       0 network, 1 address, 2 address in 16 byte form, 3.. not a usable key
//	txt:   R is any text (C12, C13)
type Key struct {
	R  []byte `json:"r"`
	B  int    `json:"b,omitempty"`
	Sp int    `json:"sp,omitempty"`
}

// Entry of a model: canonical key and value token.
type Entry struct {
	C   string
	Tok uint64
}

// Model is the content a version has by its history: entries ordered by
// canonical key.  It is never changed once made.
type Model []Entry

func (m Model) find(c string) (int, bool) {
	i := sort.Search(len(m), func(i int) bool { return m[i].C >= c })
	return i, i < len(m) && m[i].C == c
}

func (m Model) get(c string) (uint64, bool) {
	if i, ok := m.find(c); ok {
		return m[i].Tok, true
	}
	return 0, false
}

func (m Model) put(c string, tok uint64) Model {
	i, ok := m.find(c)
	n := len(m)
	if !ok {
		n++
	}
	out := make(Model, 0, n)
	out = append(out, m[:i]...)
	out = append(out, Entry{c, tok})
	if ok {
		i++
	}
	return append(out, m[i:]...)
}

func (m Model) del(c string) (Model, bool) {
	i, ok := m.find(c)
	if !ok {
		return m, false
	}
	out := make(Model, 0, len(m)-1)
	out = append(out, m[:i]...)
	return append(out, m[i+1:]...), true
}

func (m Model) delIf(f func(c string) bool) (Model, bool) {
	out := make(Model, 0, len(m))
	for _, e := range m {
		if !f(e.C) {
			out = append(out, e)
		}
	}
	if len(out) == len(m) {
		return m, false
	}
	return out, true
}

// Canonical forms.

// canonBits: family byte, masked address, length.
func canonBits(fam byte, key []byte, bits int) string {
	b := make([]byte, 0, len(key)+2)
	b = append(b, fam)
	for i, x := range key {
		n := bits - 8*i
		switch {
		case n >= 8:
			b = append(b, x)
		case n <= 0:
			b = append(b, 0)
		default:
			b = append(b, x&^(0xff>>uint(n)))
		}
	}
	return string(append(b, byte(bits)))
}

// containsBits says whether prefix p contains (or equals) q.
func containsBits(p, q string) bool {
	if p[0] != q[0] || len(p) != len(q) {
		return false
	}
	n := int(p[len(p)-1])
	if n > int(q[len(q)-1]) {
		return false
	}
	i := 1
	for n >= 8 {
		if p[i] != q[i] {
			return false
		}
		i++
		n -= 8
	}
	return n == 0 || (p[i]^q[i])>>uint(8-n) == 0
}

// canonLabels encodes labels from the top-level one down so that byte order is
// key order (shorter labels first, then bytes; a domain before its subdomains)
// and prefixes are enclosing domains.
func canonLabels(labels []string) string {
	n := 0
	for _, l := range labels {
		n += len(l) + 1
	}
	b := make([]byte, 0, n)
	for _, l := range labels {
		b = append(b, byte(len(l)))
		b = append(b, l...)
	}
	return string(b)
}

func splitCanon(c string) []string { return wireLabels([]byte(c)) }

func upper(b []byte) []byte {
	out := append([]byte(nil), b...)
	for i, c := range out {
		if c >= 'a' && c <= 'z' {
			out[i] = c - 32
		}
	}
	return out
}

// wireLabels splits length-prefixed labels (leaf first).
func wireLabels(r []byte) []string {
	var out []string
	for len(r) > 0 {
		n := int(r[0])
		out = append(out, string(r[1:1+n]))
		r = r[1+n:]
	}
	return out
}

// human writes a label the way the library documents it (RFC 4343 escapes, lower case).
func human(l string) string {
	var b []byte
	for i := 0; i < len(l); i++ {
		c := l[i]
		switch {
		case c == '.' || c == '\\':
			b = append(b, '\\', c)
		case c < '!' || c > '~':
			b = append(b, '\\', '0'+c/100, '0'+c/10%10, '0'+c%10)
		case c >= 'A' && c <= 'Z':
			b = append(b, c+32)
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

// showKey gives the key in the form an enumeration delivers it.
func showKey(kind, c string) string {
	switch kind {
	case "label":
		return human(c[1:])
	case "dom":
		ls := splitCanon(c)
		for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
			ls[i], ls[j] = ls[j], ls[i]
		}
		for i := range ls {
			ls[i] = human(ls[i])
		}
		return strings.Join(ls, ".")
	case "num":
		return fmt.Sprintf("%x/%d", c[1:len(c)-1], c[len(c)-1])
	case "ip":
		return fmt.Sprintf("%v/%d", net.IP(c[1:len(c)-1]), c[len(c)-1])
	}
	return c
}

// spell writes a binary label as text; sp selects case and escapes.
func spell(l string, sp int) string {
	var b bytes.Buffer
	r := uint(sp) * 2654435761
	for i := 0; i < len(l); i++ {
		c := l[i]
		r = r*1103515245 + 12345
		k := (r >> 16) & 7
		switch {
		case sp == 0:
			k = 7
		case sp%8 == 3: // nothing escaped that need not be
			k = 3 + k&4
			if c < '!' || c > '~' {
				k = 1
			}
		case sp%16 == 5: // all escaped
			k = 0
		}
		switch {
		case c == '.' || c == '\\':
			if k == 0 {
				fmt.Fprintf(&b, "\\%03d", c)
			} else {
				b.WriteByte('\\')
				b.WriteByte(c)
			}
		case c < '!' || c > '~':
			if k == 0 || k == 1 {
				// raw bytes stand for themselves
				b.WriteByte(c)
			} else {
				fmt.Fprintf(&b, "\\%03d", c)
			}
		case c >= 'A' && c <= 'Z':
			switch k {
			case 0:
				fmt.Fprintf(&b, "\\%03d", c)
			case 1:
				fmt.Fprintf(&b, "\\%03d", c+32)
			case 2:
				b.WriteByte('\\')
				b.WriteByte(c + 32)
			case 3, 4:
				b.WriteByte(c)
			default:
				b.WriteByte(c + 32)
			}
		case c >= '0' && c <= '9':
			if k == 0 {
				fmt.Fprintf(&b, "\\%03d", c)
			} else {
				b.WriteByte(c)
			}
		default:
			switch k {
			case 0:
				fmt.Fprintf(&b, "\\%03d", c)
			case 1:
				b.WriteByte('\\')
				b.WriteByte(c)
			default:
				b.WriteByte(c)
			}
		}
	}
	return b.String()
}

func spellName(labels []string, sp int) string {
	if len(labels) == 0 {
		return []string{"", "."}[sp&1]
	}
	var b strings.Builder
	for i, l := range labels {
		if i > 0 {
			b.WriteByte('.')
		}
		s := 0
		if sp > 0 {
			s = sp + i
		}
		b.WriteString(spell(l, s))
	}
	if sp%3 == 1 {
		b.WriteByte('.')
	}
	return b.String()
}
