package main

// Several runs of the generator at the same time: real processes which take
// turns, one system call each, as the simulator decides.

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"syscall"
	"time"
)

type ePar struct {
	Sel    string   `json:"selector,omitempty"`
	Faults []eFault `json:"faults,omitempty"`
}

func (s *eScen) one(i int) *eScen {
	c := *s
	c.Sel = s.Par[i].Sel
	c.Par, c.Sched = nil, nil
	return &c
}

// soundPar: the runs do not contradict one another.
func (s *eScen) soundPar(root string) bool {
	var es []*eExpect
	for i := range s.Par {
		c := s.one(i)
		if !c.sound1(root) {
			return false
		}
		es = append(es, c.expect(root))
	}
	for i, e := range es {
		for _, f := range es[:i] {
			for p := range e.own {
				if !f.own[p] {
					continue
				}
				if e.dirs[p] != f.dirs[p] || !bytes.Equal(e.files[p], f.files[p]) {
					return false
				}
			}
			for _, x := range [][2]*eExpect{{e, f}, {f, e}} {
				for p := range x[0].files {
					for q := range x[1].own {
						if strings.HasPrefix(q, p+"/") {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// vary makes data of the same form with other values.
func vary(v any, r *rand.Rand) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for _, k := range keysOf(x) {
			m[k] = vary(x[k], r)
		}
		return m
	case []any:
		var l []any
		for _, e := range x {
			l = append(l, vary(e, r))
		}
		return l
	case string:
		if r.Intn(2) == 0 && x != "" && plainOK(x) && !strings.ContainsAny(x, "/ ") {
			return eWords[r.Intn(len(eWords))]
		}
	case int:
		if r.Intn(2) == 0 {
			return r.Intn(1000)
		}
	case bool:
		if r.Intn(3) == 0 {
			return !x
		}
	}
	return v
}

func genPar(seed uint64, root string) *eScen {
	for k := int64(0); ; k++ {
		r := rand.New(rand.NewSource(mix(seed, uint64(k))))
		s := genScen1(r)
		if !s.sound1(root) || len(s.Root.Kids) > 200 && r.Intn(8) > 0 {
			continue
		}
		n := 2 + r.Intn(3)
		var sels []string
		if eRepo[s.Root.Name] == s.Root {
			sels = keysOf(eRepoData)
		} else {
			top := map[string]any{}
			m := 1 + r.Intn(n)
			for i := 0; i < m; i++ {
				a := fmt.Sprintf("alt%d", i)
				d := s.Data
				if i > 0 {
					d = vary(d, r)
				}
				top[a] = d
				sels = append(sels, strings.TrimSuffix(a+"."+s.Sel, "."))
			}
			s.Data = top
			s.Yaml = strings.TrimPrefix(yamlOf(top, "", r), "\n")
		}
		for i := 0; i < n; i++ {
			p := ePar{Sel: sels[i%len(sels)]}
			if r.Intn(3) == 0 {
				p.Sel = sels[r.Intn(len(sels))]
			}
			s.Par = append(s.Par, p)
		}
		s.Sched = genSched(r, n)
		if s.sound(root) {
			return s
		}
	}
}

func genSched(r *rand.Rand, n int) []int {
	var out []int
	gap := []int{1, 1, 2, 4, 12, 40}[r.Intn(6)]
	max := 50 + r.Intn(400)
	for len(out) < max {
		p := r.Intn(n)
		for j := 1 + r.Intn(gap); j > 0; j-- {
			out = append(out, p)
		}
	}
	return out
}

type eProc struct {
	c    *exec.Cmd
	o    *eOut
	lf   *os.File
	eb   *bytes.Buffer
	fd   int
	done bool
	wait bool // for its turn
}

// poll says whether the process asks for its turn, has ended (and is
// collected) or is still at work after that many milliseconds.
func (p *eProc) poll(ms int) {
	if p.done || p.wait {
		return
	}
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	for {
		tv := syscall.NsecToTimeval(int64(time.Until(end)))
		if tv.Nano() <= 0 {
			tv = syscall.NsecToTimeval(1000)
		}
		syscall.SetsockoptTimeval(p.fd, syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &tv)
		var b [1]byte
		n, err := syscall.Read(p.fd, b[:])
		switch {
		case err == syscall.EINTR:
			continue
		case err == syscall.EAGAIN:
			if time.Now().After(end) {
				return
			}
			continue
		case n == 1:
			p.wait = true
			return
		}
		p.done = true
		return
	}
}

// runPar runs them all, and gives for each step which one made a call.
func (w *eRunner) runPar(s *eScen) (outs []*eOut, order []int, hung bool) {
	var ps []*eProc
	for i := range s.Par {
		x := *w
		x.log = fmt.Sprintf("%s.%d", w.log, i)
		p := &eProc{}
		p.c, p.o, p.lf, p.eb = x.command(s.one(i), s.Par[i].Faults)
		syscall.ForkLock.RLock()
		fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		syscall.ForkLock.RUnlock()
		if err != nil {
			die("%v", err)
		}
		p.fd = fds[0]
		peer := os.NewFile(uintptr(fds[1]), "turns")
		p.c.Env = append(p.c.Env, "VERIF_TURNS=1")
		p.c.ExtraFiles = append(p.c.ExtraFiles, peer)
		if err := p.c.Start(); err != nil {
			die("%v", err)
		}
		peer.Close()
		ps = append(ps, p)
	}
	limit := time.Now().Add(60 * time.Second)
	slow := 0
	for k := 0; ; {
		left, able := 0, 0
		for _, p := range ps {
			ms := 5000
			if slow > 0 {
				ms = 50 // something waits for something else than its turn
			}
			was := p.done || p.wait
			p.poll(ms)
			if !was && !p.done && !p.wait {
				slow++
			}
			if !p.done {
				left++
			}
			if p.wait {
				able++
			}
		}
		if left == 0 {
			break
		}
		if time.Now().After(limit) {
			hung = true
			for _, p := range ps {
				p.c.Process.Kill()
			}
			break
		}
		if able == 0 {
			continue
		}
		i := 0
		if k < len(s.Sched) {
			i = s.Sched[k] % len(ps)
		}
		k++
		for !ps[i].wait {
			i = (i + 1) % len(ps)
		}
		order = append(order, i)
		ps[i].wait = false
		for {
			_, err := syscall.Write(ps[i].fd, []byte{'g'})
			if err != syscall.EINTR {
				break
			}
		}
	}
	for _, p := range ps {
		err := p.c.Wait()
		syscall.Close(p.fd)
		w.outcome(p.o, err, p.lf, p.eb)
		outs = append(outs, p.o)
	}
	return
}

// execPar judges runs at the same time.
func (w *eRunner) execPar(s *eScen, t *eStats, digest *uint64, trace *[]string) *viol {
	var es []*eExpect
	all := &eExpect{own: map[string]bool{}}
	for i := range s.Par {
		e := s.one(i).expect(w.root)
		es = append(es, e)
		for p := range e.own {
			all.own[p] = true
		}
	}
	w.lay(s)
	before := w.snap()
	outs, order, hung := w.runPar(s)
	after := w.snap()
	if trace != nil {
		at := make([]int, len(outs))
		for _, i := range order {
			if at[i] >= len(outs[i].calls) {
				continue
			}
			c := outs[i].calls[at[i]]
			at[i]++
			if c.kind != "-" || c.wr || c.op == "getdents" || strings.HasPrefix(c.ret, "!") {
				*trace = append(*trace, fmt.Sprintf("  run %d: %d %s %s size %d fault %s result %s", i+1, c.idx, c.op, c.path, c.size, c.kind, c.ret))
			}
		}
		for i, o := range outs {
			*trace = append(*trace, fmt.Sprintf("run %d (selector %s): exit %d: %s", i+1, s.Par[i].Sel, o.code, o.msg))
		}
	}
	if t != nil {
		for _, o := range outs {
			t.note(o, after, digest)
		}
		h := fnv.New64a()
		at := make([]int, len(outs))
		sw := 0
		for k, i := range order {
			if k > 0 && order[k-1] != i {
				sw++
			}
			if at[i] < len(outs[i].calls) {
				c := outs[i].calls[at[i]]
				fmt.Fprintf(h, "%d %s %s %s\n", i, c.op, c.path, c.kind)
				at[i]++
			}
		}
		t.Lock()
		t.Turns += len(order)
		t.Switches += sw
		t.Orders[h.Sum64()] = true
		t.Unlock()
	}
	bad := func(class, f string, a ...any) *viol {
		return &viol{Prop: prop, Class: class, Msg: fmt.Sprintf(f, a...)}
	}
	if hung {
		return bad("hang", "%d runs at the same time do not end", len(outs))
	}
	for i, o := range outs {
		if es[i].err == "" && o.code != 0 && !hard(s.Par[i].Faults) {
			return bad("failed", "run %d of %d at the same time, without errors on the disk of its own, ended with %d: %s", i+1, len(outs), o.code, o.msg)
		}
		for _, x := range o.esc {
			return bad("outside", "run %d tried: %s", i+1, x)
		}
	}
	for i, o := range outs {
		if o.code != 0 || es[i].err != "" {
			continue
		}
		var ps []string
		for p := range es[i].own {
			ps = append(ps, p)
		}
		sort.Strings(ps)
	next:
		for _, p := range ps {
			for j, q := range outs {
				if q.code != 0 && es[j].own[p] {
					continue next // it may have been left halfway
				}
			}
			e := &eExpect{files: es[i].files, dirs: es[i].dirs, own: map[string]bool{p: true}}
			if m := output(e, after); m != "" {
				return bad("wrong", "run %d of %d at the same time ended successfully, but %s", i+1, len(outs), m)
			}
		}
	}
	if m := others(all, before, after, nil); m != "" {
		return bad("outside", "after %d runs at the same time %s", len(outs), m)
	}
	return nil
}

func (w *eRunner) seedPar(seed uint64, t *eStats, each func(*eScen, *viol) bool) {
	s := genPar(seed, w.root)
	r := rand.New(rand.NewSource(mix(seed, 1<<32)))
	var digest uint64
	refused := false
	defer func() {
		t.Lock()
		t.Digest ^= digest
		t.Scen++
		if refused {
			t.Expected++
		}
		t.Unlock()
	}()
	var calls [][]eCall
	for i := range s.Par {
		w.lay(s)
		calls = append(calls, w.run(s.one(i), nil).calls)
		if s.one(i).expect(w.root).err != "" {
			refused = true
		}
	}
	for k := 0; k < 8; k++ {
		c := *s
		c.Par = append([]ePar(nil), s.Par...)
		c.Sched = genSched(r, len(s.Par))
		if k%2 == 1 {
			for i := range c.Par {
				if len(calls[i]) == 0 {
					continue
				}
				switch r.Intn(6) {
				case 0:
					c.Par[i].Faults = soft(r, calls[i])
				case 1:
					c.Par[i].Faults = []eFault{hardAt(r, pickCall(r, calls[i]), true)}
				}
			}
		}
		v := w.exec(&c, t, &digest, nil, nil)
		t.Lock()
		if len(t.Samples) < 3 && k == 1 {
			var fs []string
			filesOf(s.Root, "", &fs, &[]*eItem{})
			t.Samples = append(t.Samples, map[string]any{"seed": seed, "template_files": fs, "at_the_same_time": c.Par, "first_turns": c.Sched[:20]})
		}
		t.Unlock()
		if !each(&c, v) {
			return
		}
	}
}

// minPar makes a scenario of runs at the same time smaller.
func minPar(s **eScen, clone func(*eScen) *eScen, try func(*eScen) bool) (again bool) {
	for i := 0; i < len((*s).Par) && len((*s).Par) > 1; i++ {
		c := clone(*s)
		c.Par = append(c.Par[:i], c.Par[i+1:]...)
		var sc []int
		for _, x := range c.Sched {
			switch {
			case x < i:
				sc = append(sc, x)
			case x > i:
				sc = append(sc, x-1)
			}
		}
		c.Sched = sc
		if try(c) {
			again = true
			i--
		}
	}
	for i := range (*s).Par {
		for j := 0; j < len((*s).Par[i].Faults); {
			c := clone(*s)
			f := c.Par[i].Faults
			c.Par[i].Faults = append(append([]eFault(nil), f[:j]...), f[j+1:]...)
			if try(c) {
				again = true
			} else {
				j++
			}
		}
	}
	for n := len((*s).Sched); n >= 1; n /= 2 {
		for j := 0; j+n <= len((*s).Sched); {
			c := clone(*s)
			c.Sched = append(append([]int(nil), c.Sched[:j]...), c.Sched[j+n:]...)
			if try(c) {
				again = true
			} else {
				j += n
			}
		}
	}
	return again
}
