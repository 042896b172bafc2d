package main

import (
	"reflect"

	"verifsim/rt"
)

// Path: operations work along the path to their key and nowhere else.

var privName = map[string]string{"pinp": "an in-place insertion", "pins": "an insertion", "pdel": "a deletion"}

// reach is what can be reached from a version: the nodes, and the longest way
// to one of them.
type reach struct {
	seen map[uintptr]bool
	d    int
}

func reaches(T any) *reach {
	s := &space{seen: map[uintptr]bool{}, vals: map[uint64]bool{}}
	s.walk(reflect.ValueOf(T), 0)
	return &reach{s.seen, s.ptrs}
}

// pathLen is how many nodes there may be on the way to a key. The paths of
// number and IP trees are as long as their content makes them.
func (f *Fam) pathLen(n int, a *Arg, d int) float64 {
	switch f.Kind {
	case "str", "label":
		return bound(n) + 3
	case "dom":
		nl := 0
		if a != nil {
			nl = a.nlab
		}
		return (bound(n) + 3) * float64(nl+1)
	}
	return float64(d + 4)
}

// pathUnit is how many steps may be made at one node.
func (r *Run) pathUnit() float64 {
	switch r.f.Kind {
	case "num":
		return float64(60 + 6*r.f.W)
	case "ip":
		return 60 + 6*64
	}
	return float64(30 + 5*r.maxB)
}

// chkShare: what an update makes anew.
func (r *Run) chkShare(what string, was *reach, T any, n int, a *Arg) {
	if r.stop || !r.fl.Path {
		return
	}
	now := reaches(T)
	k := 0
	for p := range now.seen {
		if !was.seen[p] {
			k++
		}
	}
	d := was.d
	if now.d > d {
		d = now.d
	}
	r.n.PathChecks++
	if max := 3*r.f.pathLen(n, a, d) + 16; float64(k) > max {
		r.fail("share", "%s of %s makes %d new nodes in a tree of %d entries (allowed %.0f)", what, r.showArg(a), k, n, max)
	}
}

// chkWork: how many steps an operation takes in T.
func (r *Run) chkWork(t *rt.Task, what string, y0 int64, T any, n int, a *Arg) {
	if r.stop || !r.fl.Path || a != nil && a.fresh {
		return
	}
	d := float64(t.Y() - y0)
	w := 0
	if r.f.Kind == "num" || r.f.Kind == "ip" {
		if d < 20*r.pathUnit() {
			return
		}
		w = reaches(T).d
	}
	r.n.PathChecks++
	if max := 300 + 60*float64(r.maxB) + 1.5*r.f.pathLen(n, a, w)*r.pathUnit(); d > max {
		r.fail("work", "%s of %s takes %.0f steps in a tree of %d entries (allowed %.0f)", what, r.showArg(a), d, n, max)
	}
}
