package main

// The packages of uintX come out of the generator.  For C21 they are made
// again from the templates in the tree under test, by the real generator over
// a disk with faults, and the simulation of the trees is built with what came
// out instead of what lies in the tree.

import (
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// genSeed decides the faults under which the packages are made.
var genSeed uint64

// genRounds says how often each of them is made.
var genRounds = 16

var genStats = struct {
	sync.Mutex
	Packages, Variants, Runs, Failed, Killed, Calls, Lost int
	Fired                                                 map[string]int
	Names                                                 []string
}{Fired: map[string]int{}}

func loadItem(p string) *eItem {
	fi, err := os.Stat(p)
	if err != nil {
		return nil
	}
	it := &eItem{Name: filepath.Base(p), Dir: fi.IsDir()}
	if !fi.IsDir() {
		if it.Body, err = os.ReadFile(p); err != nil {
			die("%v", err)
		}
		return it
	}
	ds, err := os.ReadDir(p)
	if err != nil {
		die("%v", err)
	}
	for _, d := range ds {
		if k := loadItem(filepath.Join(p, d.Name())); k != nil {
			it.Kids = append(it.Kids, k)
		}
	}
	return it
}

// generate makes the packages of uintX and gives the tree which has them.
func generate() (string, *viol) {
	bin := buildEtc()
	src := filepath.Join(work, "src")
	ux := filepath.Join(src, "uintX")
	yamls, _ := filepath.Glob(filepath.Join(ux, "*.yaml"))
	ymls, _ := filepath.Glob(filepath.Join(ux, "*.yml"))
	yamls = append(yamls, ymls...)
	tmpls, _ := filepath.Glob(filepath.Join(ux, "*{{*}}*"))
	if len(yamls) == 0 || len(tmpls) == 0 {
		note("no templates or no data in uintX: looking at the packages as they are")
		return src, nil
	}
	disk := etcDisk(bin)
	type job struct {
		t    *eItem
		yaml string
		sels []string
		sets map[string]map[string]string
		v    *viol
	}
	var jobs []*job
	for k := 0; k < genRounds; k++ {
		for _, y := range yamls {
			yb, err := os.ReadFile(y)
			if err != nil {
				die("%v", err)
			}
			var sels []string
			for _, l := range strings.Split(string(yb), "\n") {
				if k, _, ok := strings.Cut(l, ":"); ok && k != "" && !strings.ContainsAny(k[:1], " \t#-\"'{[") {
					sels = append(sels, k)
				}
			}
			for _, t := range tmpls {
				jobs = append(jobs, &job{t: loadItem(t), yaml: string(yb), sels: sels})
			}
		}
	}
	var wg sync.WaitGroup
	var next int32 = -1
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := &eRunner{bin: bin, root: filepath.Join(disk, fmt.Sprint("scratch", k)), log: filepath.Join(disk, fmt.Sprint("log", k))}
			defer os.RemoveAll(w.root)
			for {
				i := int(atomic.AddInt32(&next, 1))
				if i >= len(jobs) {
					return
				}
				j := jobs[i]
				j.sets, j.v = w.packs(rand.New(rand.NewSource(mix(genSeed, uint64(i)))), j.t, j.yaml, j.sels)
			}
		}(k)
	}
	wg.Wait()
	// Each package as it came out of each history.  They should all be the
	// same: if not, the rarest is looked at.
	seen := map[string]map[string]int{}
	some := map[string]map[string]string{}
	for _, j := range jobs {
		if j.v != nil {
			return src, j.v
		}
		for name, fs := range j.sets {
			h := sha256.New()
			var ps []string
			for p := range fs {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			for _, p := range ps {
				fmt.Fprintf(h, "%q %q\n", p, fs[p])
			}
			k := string(h.Sum(nil))
			if seen[name] == nil {
				seen[name] = map[string]int{}
			}
			seen[name][k]++
			some[name+k] = fs
		}
	}
	for name, m := range seen {
		genStats.Packages++
		genStats.Names = append(genStats.Names, name)
		genStats.Variants += len(m)
		best := ""
		for k, n := range m {
			if best == "" || n < m[best] || n == m[best] && k < best {
				best = k
			}
		}
		dst := filepath.Join(ux, name)
		if err := os.RemoveAll(dst); err != nil {
			die("%v", err)
		}
		for rel, c := range some[name+best] {
			put(filepath.Join(dst, rel), []byte(c))
		}
	}
	sort.Strings(genStats.Names)
	if out, err := run(src, env(), "go", "build", "-p", "1", "./uintX/..."); err != nil {
		if o, err := run(repo, env(), "go", "build", "-o", os.DevNull, "./uintX/..."); err != nil {
			die("the packages of the tree do not build: %s", o)
		}
		return src, &viol{Prop: prop, Class: "build", Msg: "generated packages do not build: " + lines(out, 3), Where: "generation"}
	}
	return src, nil
}

func lines(s string, n int) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if x = strings.TrimSpace(x); x != "" && !strings.HasPrefix(x, "#") {
			l = append(l, x)
		}
	}
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "; ")
}

// packs makes the packages of a template, one for each selector, on one disk:
// disturbed runs and losses in between, and for each one run which has to succeed.
func (w *eRunner) packs(r *rand.Rand, it *eItem, yaml string, sels []string) (map[string]map[string]string, *viol) {
	s := &eScen{Root: it, Yaml: yaml, Arg: r.Intn(6)}
	if r.Intn(2) == 0 {
		s.Age = 1 + uint64(r.Intn(1<<30))
	}
	s.RO = r.Intn(4) == 0
	count := func(o *eOut) {
		genStats.Lock()
		defer genStats.Unlock()
		genStats.Runs++
		genStats.Calls += len(o.calls)
		if o.code < 0 {
			genStats.Killed++
		} else if o.code > 0 {
			genStats.Failed++
		}
		for _, c := range o.calls {
			if c.kind != "-" {
				genStats.Fired[c.kind]++
			}
		}
	}
	fail := func(class, sel, f string, a ...any) (map[string]map[string]string, *viol) {
		return nil, &viol{Prop: prop, Class: class, Msg: fmt.Sprintf("template %s with the data of %s: ", it.Name, sel) + fmt.Sprintf(f, a...), Where: "generation"}
	}
	// a look at the calls it makes and at what comes out
	sets := map[string]map[string]string{}
	calls := map[string][]eCall{}
	for _, sel := range sels {
		s.Sel = sel
		w.lay(s)
		before := w.snap()
		o := w.run(s, nil)
		count(o)
		if o.hung || o.code != 0 {
			return fail("refused", sel, "the generator refuses it: exit %d, %s", o.code, o.msg)
		}
		calls[sel] = o.calls
		n := 0
		for p, c := range w.snap() {
			if _, ok := before[p]; ok || c[0] != 'd' || !strings.HasPrefix(p, eWork+"/") || strings.Contains(p[len(eWork)+1:], "/") {
				continue
			}
			if sets[filepath.Base(p)] != nil {
				continue
			}
			sets[filepath.Base(p)] = map[string]string{}
			n++
		}
		if n == 0 {
			return fail("nothing", sel, "nothing of its own comes out")
		}
	}
	w.lay(s)
	var order []string
	for _, i := range r.Perm(len(sels)) {
		for k := r.Intn(3); k > 0; k-- {
			order = append(order, "!"+sels[r.Intn(len(sels))])
		}
		order = append(order, sels[i])
	}
	if r.Intn(2) == 0 { // first all that fails
		sort.SliceStable(order, func(i, j int) bool { return order[i][0] == '!' && order[j][0] != '!' })
	}
	done := map[string]bool{}
	for _, sel := range order {
		s.Sel = strings.TrimPrefix(sel, "!")
		if sel == s.Sel {
			var fs []eFault
			if r.Intn(2) == 0 {
				fs = soft(r, calls[sel])
			}
			o := w.run(s, fs)
			count(o)
			if o.hung || o.code != 0 {
				return fail("refused", sel, "the generator refuses it after runs which failed: exit %d, %s", o.code, o.msg)
			}
			done[sel] = true
			continue
		}
		if done[s.Sel] {
			continue
		}
		before := w.snap()
		o := w.run(s, []eFault{hardAt(r, pickCall(r, calls[s.Sel]), true)})
		count(o)
		if o.code == 0 || r.Intn(2) == 0 {
			continue
		}
		// what the run had written may be lost
		after := w.snap()
		var ps []string
		for p := range after {
			if after[p] != before[p] && after[p][0] == 'f' {
				ps = append(ps, p)
			}
		}
		sort.Strings(ps)
		for _, p := range ps {
			b, ok := body(after[p])
			if !ok || r.Intn(2) == 0 {
				continue
			}
			f := w.root + "/" + p
			switch n := r.Intn(len(b) + 1); r.Intn(3) {
			case 0:
				os.Remove(f)
			case 1:
				os.Truncate(f, int64(n))
			case 2:
				for j := n; j < len(b); j++ {
					b[j] = 0
				}
				os.WriteFile(f, b, 0o644)
			}
			genStats.Lock()
			genStats.Lost++
			genStats.Unlock()
		}
	}
	for p, c := range w.snap() {
		b, ok := body(c)
		if !ok || !strings.HasPrefix(p, eWork+"/") {
			continue
		}
		d, rel, ok := strings.Cut(p[len(eWork)+1:], "/")
		if ok && sets[d] != nil {
			sets[d][rel] = string(b)
		}
	}
	return sets, nil
}
