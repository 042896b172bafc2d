package a

import (
	"runtime"
	"sync"
	"time"
)

type C chan int

type P struct{ k string }

func work(a int, b interface{}, xs ...string) {}

func F(m map[string]int, c C, d chan<- *P, e <-chan P) (n int) {
	for k, v := range m {
		if k == "" {
			continue
		}
		n += v
	}
	for k := range m {
		_ = k
	}
	var k string
	for k = range m {
	}
	_ = k
	go work(1, nil, "x", "y")
	go work(n, n, []string{}...)
	go close(d)
	go func(i int) { n = i }(3)
	go func() {
		n++
	}()
L:
	for {
		select {
		case x := <-c:
			n += x
			break L
		case x, ok := <-c:
			_, _ = x, ok
			continue L
		case d <- &P{"x"}:
		case <-time.After(5 * time.Second):
			return -1
		default:
			runtime.Gosched()
		}
	}
	select {
	case <-e:
	}
	var mu sync.Mutex
	mu.Lock()
	defer mu.Unlock()
	c <- <-c
	q := make(C, len(c)+cap(c))
	r := make(chan P)
	_ = r
	_ = q
	d <- nil
	var i chan interface{}
	i <- 3
	i <- nil
	for range e {
	}
	var y P
	for y = range e {
		_ = y
	}
	v, ok := <-e
	_, _ = v, ok
	switch z := i; {
	case z == nil, <-c == 3:
		fallthrough
	default:
	}
	func() { defer close(d) }()
	if x := <-c; x > 0 {
	} else if y := <-c; y > 1 {
		return
	}
	var o sync.Once
	o.Do(func() {})
	goto end
end:
	return
}
