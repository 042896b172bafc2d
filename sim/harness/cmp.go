package main

import (
	"math"
	"strings"
	"unsafe"

	"verifsim/rt"
)

// Cmp is a user-supplied comparison: consistent with the order of class(), of
// arbitrary magnitude, interruptible, and panicking on demand.
type Cmp struct {
	kind  int
	seed  uint64
	plain bool // no scheduling points inside
	costs bool // count the pairs of keys compared
	calls [64]int64
	boom  [64]int64 // panic at that many more calls (per task)
	met   [64][]pairOf
}

// pairOf is two keys compared in the current operation; comparing them again
// does not look at another key.
type pairOf struct{ a, b string }

// begin starts an operation of task id.
func (c *Cmp) begin(id int) { c.met[id] = c.met[id][:0] }

func sameText(a, b string) bool {
	return len(a) == len(b) && (unsafe.StringData(a) == unsafe.StringData(b) || a == b)
}

func (c *Cmp) count(id int, a, b string) {
	for _, p := range c.met[id] {
		if sameText(p.a, a) && sameText(p.b, b) || sameText(p.a, b) && sameText(p.b, a) {
			return
		}
	}
	if len(c.met[id]) < 512 {
		c.met[id] = append(c.met[id], pairOf{a, b})
	}
	c.calls[id]++
}

type cmpPanic struct{}

func (c *Cmp) class(s string) string {
	switch c.kind {
	case 2:
		b := []byte(s)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return string(b)
	case 3:
		return string(upper([]byte(s)))
	case 4:
		return string([]byte{byte(len(s) >> 8), byte(len(s))}) + s
	case 5:
		b := make([]byte, 0, 2*len(s)+1)
		for i := 0; i < len(s); i++ {
			b = append(b, 0, ^s[i])
		}
		return string(append(b, 1))
	case 6:
		if len(s) > 2 {
			return s[:2]
		}
	}
	return s
}

func (c *Cmp) compare(a, b string) int {
	id := 63
	if t := rt.Cur(); t != nil {
		if t.ID < 63 {
			id = t.ID
		}
		if !c.plain {
			rt.Point()
		}
	}
	if c.costs {
		c.count(id, a, b)
	}
	if c.boom[id] > 0 {
		c.boom[id]--
		if c.boom[id] == 0 {
			panic(cmpPanic{})
		}
	}
	r := strings.Compare(c.class(a), c.class(b))
	if r == 0 || c.kind == 0 {
		return r
	}
	m := rt.Mix(c.seed, uint64(len(a))<<32|uint64(len(b))<<16|uint64(c.kind))
	switch m % 4 {
	case 0:
		return r
	case 1:
		return r * int(m>>40+2)
	case 2:
		if r < 0 {
			return math.MinInt64
		}
		return math.MaxInt64
	}
	return r * 1000
}
