// Command harness runs simulations of the instrumented library.
package main

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verifsim/rt"
)

// Prelude: runs made before, in the same process.
type Prelude struct {
	From uint64 `json:"from"`
	N    int    `json:"n"`
	Deep bool   `json:"deep,omitempty"`
}

// Replay is a replay file.
type Replay struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	Engine    string     `json:"engine"`
	Seed      uint64     `json:"seed"`
	Deep      bool       `json:"deep,omitempty"`
	GenSeed   uint64     `json:"gen_seed,omitempty"` // the seed of the generation of packages (C21)
	GenRounds int        `json:"gen_rounds,omitempty"`
	Prelude   *Prelude   `json:"prelude,omitempty"`
	BySeed    bool       `json:"by_seed,omitempty"` // make the scenario from the seed (not minimised)
	Scenario  *Scenario  `json:"scenario,omitempty"`
	Note      string     `json:"note,omitempty"`
}

// Summary of a worker.
type Summary struct {
	Runs     int            `json:"runs"`
	Next     uint64         `json:"next"`
	Foreign  int            `json:"foreign"`
	NonTriv  int            `json:"nontrivial"`
	Steps    int64          `json:"steps"`
	Switches int64          `json:"switches"`
	Blocks   int64          `json:"blocks"`
	Spawned  int64          `json:"spawned"`
	Chan     int64          `json:"chan_ops"`
	SimNanos int64          `json:"sim_nanos"`
	Jumps    int64          `json:"clock_jumps"`
	N        map[string]int `json:"counts"`
	Policies map[string]int `json:"policies"`
	Fams     map[string]int `json:"families"`
	MaxTasks int            `json:"max_tasks"`
	Cover    string         `json:"cover"`
	Viol     *Violation     `json:"violation,omitempty"`
	Seed     uint64         `json:"seed,omitempty"`
	Sample   []any          `json:"samples,omitempty"`
	Digest   uint64         `json:"digest"`
	Wall     float64        `json:"wall"`
}

func addCounts(m map[string]int, c Counts) {
	v := reflect.ValueOf(c)
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		x := int(v.Field(i).Int())
		if strings.HasPrefix(n, "Max") {
			if x > m[n] {
				m[n] = x
			}
		} else {
			m[n] += x
		}
	}
}

func one(p *Prop, sc *Scenario, record bool) *Result {
	fl := p.Fl
	if sc.Like != "" {
		fl = propByID(sc.Like).Fl
	}
	res := runScenario(sc, fl, record)
	if p.Race && res.Viol == nil && res.Races > 0 {
		if m := raceReport(); m != "" {
			res.Viol = &Violation{Prop: p.ID, Class: "race", Msg: sc.Fam + ": " + m}
		}
	}
	return res
}

var raceLog string
var raceOff int64

// raceReport reads what the race detector wrote and keeps reports in which
// both accesses are made by the library.
func raceReport() string {
	if raceLog == "" {
		return ""
	}
	f, err := os.Open(raceLog)
	if err != nil {
		return ""
	}
	defer f.Close()
	st, _ := f.Stat()
	b := make([]byte, st.Size()-raceOff)
	f.ReadAt(b, raceOff)
	raceOff = st.Size()
	for _, rep := range strings.Split(string(b), "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		var acc []string
		lib := 0
		kind, top := "", ""
		end := func() {
			if kind != "" && top != "" {
				acc = append(acc, kind+" at "+top)
				lib++
			}
			kind, top = "", ""
		}
		ls := strings.Split(rep, "\n")
		for i, l := range ls {
			switch {
			case strings.HasPrefix(l, "Read at"), strings.HasPrefix(l, "Write at"), strings.HasPrefix(l, "Previous read at"), strings.HasPrefix(l, "Previous write at"):
				end()
				kind = strings.ToLower(strings.SplitN(l, " at", 2)[0])
			case strings.HasPrefix(l, "Goroutine"):
				end()
			case kind != "" && strings.HasPrefix(strings.TrimSpace(l), "verif") && strings.Contains(l, "("):
				// made by the simulator or the harness on behalf of the library
				kind, top = "", ""
			case kind != "" && top == "" && strings.Contains(l, "github.com/infobloxopen/go-trees") && i+1 < len(ls):
				w := strings.TrimSpace(ls[i+1])
				if j := strings.Index(w, " "); j >= 0 {
					w = w[:j]
				}
				if j := strings.LastIndex(w, "/src/"); j >= 0 {
					w = w[j+5:]
				}
				p := strings.Split(w, "/")
				if len(p) > 2 {
					p = p[len(p)-2:]
				}
				top = strings.Join(p, "/")
				end()
			}
		}
		end()
		if lib >= 2 {
			return "unordered accesses: " + strings.Join(acc, " and ")
		}
	}
	return ""
}

func main() {
	var (
		prop     = flag.String("prop", "", "property")
		mode     = flag.String("mode", "run", "run, replay, min, show")
		from     = flag.Uint64("from", 0, "first seed")
		n        = flag.Int("n", 1000, "number of runs")
		sec      = flag.Float64("sec", 1e9, "time limit")
		deep     = flag.Bool("deep", false, "bigger runs")
		file     = flag.String("file", "", "replay file")
		out      = flag.String("out", "", "output file")
		hashes   = flag.String("hashes", "", "file for run hashes")
		progress = flag.String("progress", "", "file for the seed in progress")
		rlog     = flag.String("racelog", "", "prefix of the race log")
		verbose  = flag.Bool("v", false, "verbose")
	)
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	if *rlog != "" {
		raceLog = fmt.Sprintf("%s.%d", *rlog, os.Getpid())
	}
	start := time.Now()
	switch *mode {
	case "run":
		p := propByID(*prop)
		s := &Summary{N: map[string]int{}, Policies: map[string]int{}, Fams: map[string]int{}}
		var hf, pf *os.File
		var hb []byte
		if *hashes != "" {
			hf, _ = os.Create(*hashes)
		}
		if *progress != "" {
			pf, _ = os.Create(*progress)
		}
		for i := 0; i < *n && time.Since(start).Seconds() < *sec; i++ {
			seed := *from + uint64(i)
			if pf != nil {
				pf.WriteAt([]byte(fmt.Sprintf("%20d\n", seed)), 0)
			}
			sc := p.make(seed, *deep)
			t0 := time.Now()
			res := one(p, sc, false)
			if *verbose {
				fmt.Printf("%d %s %s keys=%d threads=%d steps=%d %v foreign=%d res=%x\n", seed, sc.Fam, sc.Policy.Kind, len(sc.Keys), len(sc.Threads), res.St.Steps, time.Since(t0), res.N.Foreign, res.Result)
			}
			s.Runs++
			s.Next = seed + 1
			s.Steps += res.St.Steps
			s.Switches += res.St.Switches
			s.Blocks += res.St.Blocks
			s.Spawned += int64(res.St.Spawned)
			s.Chan += res.St.ChanOps
			s.SimNanos += res.St.SimNanos
			s.Jumps += int64(res.St.Jumps)
			if k := res.St.Spawned + len(sc.Threads); k > s.MaxTasks {
				s.MaxTasks = k
			}
			s.Policies[sc.Policy.Kind]++
			s.Fams[sc.Fam]++
			s.Digest = rt.Mix(s.Digest, res.Result)
			addCounts(s.N, res.N)
			if res.N.Foreign > 0 {
				s.Foreign++
			}
			nt := res.N.Foreign == 0 && res.N.Ops > 1 && (res.St.Switches > 0 || res.N.MaxEntries > 8)
			if nt {
				s.NonTriv++
				hb = binary.LittleEndian.AppendUint64(hb, res.Result)
			}
			if len(s.Sample) < 2 && nt && len(sc.Keys) < 12 && len(sc.Threads) > 1 && len(sc.Threads[0])+len(sc.Init) < 20 {
				s.Sample = append(s.Sample, map[string]any{"seed": seed, "scenario": sc, "steps": res.St.Steps, "switches": res.St.Switches, "goroutines": res.St.Spawned, "aborted": res.N.Killed + res.N.Boomed})
			}
			if res.Viol != nil {
				s.Viol, s.Seed = res.Viol, seed
				break
			}
		}
		if hf != nil {
			hf.Write(hb)
			hf.Close()
		}
		var bm []byte
		for i := 0; i < len(rt.Cover); i += 8 {
			b := byte(0)
			for j := 0; j < 8; j++ {
				b |= rt.Cover[i+j] << uint(j)
			}
			bm = append(bm, b)
		}
		for len(bm) > 0 && bm[len(bm)-1] == 0 {
			bm = bm[:len(bm)-1]
		}
		s.Cover = hex.EncodeToString(bm)
		s.Wall = time.Since(start).Seconds()
		write(*out, s)
		if s.Viol != nil {
			os.Exit(3)
		}
	case "show":
		write(*out, propByID(*prop).make(*from, *deep))
	case "replay":
		rp := load(*file)
		v := replay(rp)
		if v == nil {
			fmt.Printf("property %s: the violation does not occur\n", rp.Property)
			return
		}
		fmt.Printf("property %s violated (%s): %s\n  at %s\n", v.Prop, v.Class, v.Msg, v.Where)
		if *out != "" {
			write(*out, v)
		}
		os.Exit(3)
	case "min":
		rp := load(*file)
		minimise(rp, time.Now().Add(time.Duration(*sec*float64(time.Second))))
		write(*out, rp)
	}
}

func write(file string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	b = append(b, '\n')
	if file == "" {
		os.Stdout.Write(b)
		return
	}
	if err := os.WriteFile(file, b, 0o644); err != nil {
		panic(err)
	}
}

func load(file string) *Replay {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return rp
}

func replay(rp *Replay) *Violation {
	p := propByID(rp.Property)
	if rp.Prelude != nil {
		for i := 0; i < rp.Prelude.N; i++ {
			one(p, p.make(rp.Prelude.From+uint64(i), rp.Prelude.Deep), false)
		}
	}
	sc := rp.Scenario
	if rp.BySeed || sc == nil {
		sc = p.make(rp.Seed, rp.Deep)
	}
	return one(p, sc, false).Viol
}

// Minimisation.

func clone(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	o := &Scenario{}
	json.Unmarshal(b, o)
	return o
}

func minimise(rp *Replay, until time.Time) {
	p := propByID(rp.Property)
	sc := p.make(rp.Seed, rp.Deep)
	if rp.Scenario != nil {
		sc = rp.Scenario
	}
	var viol *Violation
	fails := func(c *Scenario) bool {
		if time.Now().After(until) {
			return false
		}
		v := one(p, clone(c), false).Viol
		if v != nil && v.Class == rp.Violation.Class {
			viol = v
			return true
		}
		return false
	}
	// fix the schedule
	c := clone(sc)
	r := one(p, c, true)
	if r.Viol == nil {
		rp.BySeed = true
		rp.Note = "does not fail again in a process which already ran it; not minimised"
		return
	}
	c = clone(sc)
	c.Policy = rt.Policy{Kind: "replay", Seed: sc.Policy.Seed, List: r.Rec}
	if !fails(c) {
		rp.Scenario = sc
		rp.Note = "schedule given by its seed"
		c = clone(sc)
	}
	sc = c
	try := func(c *Scenario) bool {
		if fails(c) {
			sc = c
			return true
		}
		return false
	}
	// fewer threads
	for i := len(sc.Threads) - 1; i >= 0; i-- {
		if len(sc.Threads[i]) > 0 {
			c := clone(sc)
			c.Threads[i] = nil
			try(c)
		}
	}
	for len(sc.Threads) > 1 && len(sc.Threads[len(sc.Threads)-1]) == 0 {
		c := clone(sc)
		c.Threads = c.Threads[:len(c.Threads)-1]
		if !try(c) {
			break
		}
	}
	for round := 0; round < 3; round++ {
		before := size(sc)
		cut(func() int { return len(sc.Policy.List) }, func(a, b int) bool {
			c := clone(sc)
			c.Policy.List = append(c.Policy.List[:a:a], c.Policy.List[b:]...)
			return try(c)
		})
		cut(func() int { return len(sc.Init) }, func(a, b int) bool {
			c := clone(sc)
			c.Init = append(c.Init[:a:a], c.Init[b:]...)
			return try(c)
		})
		for t := range sc.Threads {
			cut(func() int { return len(sc.Threads[t]) }, func(a, b int) bool {
				c := clone(sc)
				c.Threads[t] = append(c.Threads[t][:a:a], c.Threads[t][b:]...)
				return try(c)
			})
		}
		cut(func() int { return len(sc.Keys) }, func(a, b int) bool {
			if b-a >= len(sc.Keys) {
				return false
			}
			c := clone(sc)
			c.Keys = append(c.Keys[:a:a], c.Keys[b:]...)
			fix := func(ops []Op) []Op {
				out := []Op{}
				for _, o := range ops {
					switch {
					case o.A >= b:
						o.A -= b - a
					case o.A >= a:
						o.A = 0
						if o.K != "eopen" && o.K != "estep" && o.K != "eend" && o.K != "efull" && o.K != "eaband" && o.K != "ppub" && o.K != "penum" {
							continue
						}
					}
					out = append(out, o)
				}
				return out
			}
			c.Init = fix(c.Init)
			for i := range c.Threads {
				c.Threads[i] = fix(c.Threads[i])
			}
			return try(c)
		})
		// fewer faults
		each := func(f func(o *Op) bool) {
			for t := -1; t < len(sc.Threads); t++ {
				n := len(sc.Init)
				if t >= 0 {
					n = len(sc.Threads[t])
				}
				for i := 0; i < n; i++ {
					c := clone(sc)
					l := c.Init
					if t >= 0 {
						l = c.Threads[t]
					}
					if f(&l[i]) {
						try(c)
					}
				}
			}
		}
		if round == 0 {
			for _, d := range []int{2, 4, 8, 16} {
				each(func(o *Op) bool {
					if o.K == "pfill" && o.N >= d {
						o.N -= o.N / d
						return true
					}
					return false
				})
			}
		}
		each(func(o *Op) bool { d := o.Kill != 0; o.Kill = 0; return d })
		each(func(o *Op) bool { d := o.Pause != 0; o.Pause = 0; return d })
		each(func(o *Op) bool { d := o.Boom != 0; o.Boom = 0; return d })
		if round == 0 {
			for i := range sc.Keys {
				if sc.Keys[i].Sp != 0 && sc.Keys[i].Sp < 3 || sc.Keys[i].Sp > 6 {
					c := clone(sc)
					c.Keys[i].Sp = 0
					try(c)
				}
			}
		}
		if size(sc) == before {
			break
		}
	}
	if viol != nil {
		rp.Violation = viol
	}
	rp.Scenario = sc
	rp.BySeed = false
}

func size(sc *Scenario) int {
	n := len(sc.Policy.List) + len(sc.Init) + len(sc.Keys)
	for _, t := range sc.Threads {
		n += len(t)
	}
	return n
}

// cut removes ranges as long as that works.
func cut(n func() int, rm func(a, b int) bool) {
	for w := n(); w >= 1; w /= 2 {
		for a := 0; a < n(); {
			b := a + w
			if b > n() {
				b = n()
			}
			if !rm(a, b) {
				a += w
			}
		}
	}
}
