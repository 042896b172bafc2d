package main

import "reflect"

// Tree shapes are read by reflection, without knowing names: a node type is a
// struct holding two or more pointers to its own type.

type shaper struct {
	kinds map[reflect.Type]bool
	seen  map[uintptr]bool
	found []shape
	nodes int
}

type shape struct{ n, h int }

func binFields(t reflect.Type) bool {
	n := 0
	p := reflect.PointerTo(t)
	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i).Type
		switch {
		case ft == p:
			n++
		case (ft.Kind() == reflect.Array || ft.Kind() == reflect.Slice) && ft.Elem() == p:
			n += 2
		}
	}
	return n >= 2
}

func (s *shaper) isBin(t reflect.Type) bool {
	if t.Kind() != reflect.Struct {
		return false
	}
	b, ok := s.kinds[t]
	if !ok {
		b = binFields(t)
		s.kinds[t] = b
	}
	return b
}

func shapes(v any) []shape {
	s := &shaper{kinds: map[reflect.Type]bool{}, seen: map[uintptr]bool{}}
	s.walk(reflect.ValueOf(v), 0)
	return s.found
}

func (s *shaper) walk(v reflect.Value, d int) {
	if !v.IsValid() || d > 400 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		s.walk(v.Elem(), d+1)
	case reflect.Ptr:
		if v.IsNil() || s.seen[v.Pointer()] {
			return
		}
		s.seen[v.Pointer()] = true
		if s.isBin(v.Type().Elem()) {
			n, h := s.bin(v, d)
			s.found = append(s.found, shape{n, h})
			return
		}
		s.walk(v.Elem(), d+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			switch v.Field(i).Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Array, reflect.Slice:
				s.walk(v.Field(i), d+1)
			}
		}
	case reflect.Array, reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				s.walk(v.Index(i), d+1)
			}
		}
	}
}

// bin measures the binary tree at pointer v and walks what its nodes hold.
func (s *shaper) bin(v reflect.Value, d int) (int, int) {
	n, h := 1, 0
	p := v.Type()
	e := v.Elem()
	sub := func(c reflect.Value) {
		if c.IsNil() {
			return
		}
		if s.nodes++; s.nodes > 1<<17 {
			return
		}
		cn, ch := s.bin(c, d)
		n += cn
		if ch > h {
			h = ch
		}
	}
	for i := 0; i < e.NumField(); i++ {
		f := e.Field(i)
		switch {
		case f.Type() == p:
			sub(f)
		case (f.Kind() == reflect.Array || f.Kind() == reflect.Slice) && f.Type().Elem() == p:
			for j := 0; j < f.Len(); j++ {
				sub(f.Index(j))
			}
		default:
			switch f.Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Struct:
				s.walk(f, d+1)
			}
		}
	}
	return n, h + 1
}
