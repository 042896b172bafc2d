package main

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type viol struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Msg   string `json:"message"`
	Where string `json:"where"`
}

type summary struct {
	Runs     int            `json:"runs"`
	Next     uint64         `json:"next"`
	Foreign  int            `json:"foreign"`
	NonTriv  int            `json:"nontrivial"`
	Steps    int64          `json:"steps"`
	Switches int64          `json:"switches"`
	Blocks   int64          `json:"blocks"`
	Spawned  int64          `json:"spawned"`
	Chan     int64          `json:"chan_ops"`
	SimNanos int64          `json:"sim_nanos"`
	Jumps    int64          `json:"clock_jumps"`
	N        map[string]int `json:"counts"`
	Policies map[string]int `json:"policies"`
	Fams     map[string]int `json:"families"`
	MaxTasks int            `json:"max_tasks"`
	Cover    string         `json:"cover"`
	Viol     *viol          `json:"violation"`
	Seed     uint64         `json:"seed"`
	Sample   []any          `json:"samples"`
	Digest   json.Number    `json:"digest"`
	Wall     float64        `json:"wall"`
}

type prelude struct {
	From uint64 `json:"from"`
	N    int    `json:"n"`
	Deep bool   `json:"deep,omitempty"`
}

type replayFile struct {
	Property  string          `json:"property"`
	Violation *viol           `json:"violation"`
	Engine    string          `json:"engine"`
	Seed      uint64          `json:"seed"`
	Deep      bool            `json:"deep,omitempty"`
	GenSeed   uint64          `json:"gen_seed,omitempty"` // the seed of the generation of packages (C21)
	GenRounds int             `json:"gen_rounds,omitempty"`
	Prelude   *prelude        `json:"prelude,omitempty"`
	BySeed    bool            `json:"by_seed,omitempty"`
	Scenario  json.RawMessage `json:"scenario,omitempty"`
	Note      string          `json:"note,omitempty"`
}

var race bool

func wenv(id string) []string {
	e := []string{"GOMAXPROCS=1", "GODEBUG=randautoseed=0", "GOTRACEBACK=single"}
	if race {
		e = append(e, "GORACE=log_path="+filepath.Join(work, "race"+id)+" halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 atexit_sleep_ms=0 history_size=3")
	}
	return env(e...)
}

func buildTrees(tree string) string {
	race = prop == "C02"
	inst := filepath.Join(work, "instrument")
	must(filepath.Join(verif, "sim/instrument"), "go", "build", "-o", inst, ".")
	lib := filepath.Join(work, "lib")
	must(work, inst, "-repo", tree, "-out", lib, "-rt", filepath.Join(verif, "sim"), "-skip", "etc")
	mod := fmt.Sprintf("module verifharness\n\ngo 1.23\n\nrequire (\n\tgithub.com/infobloxopen/go-trees v0.0.0\n\tverifsim v0.0.0\n)\n\nreplace github.com/infobloxopen/go-trees => %s\n\nreplace verifsim => %s\n", lib, filepath.Join(verif, "sim"))
	if err := os.WriteFile(filepath.Join(work, "go.mod"), []byte(mod), 0o644); err != nil {
		die("%v", err)
	}
	w := filepath.Join(work, "worker")
	args := []string{"build", "-modfile", filepath.Join(work, "go.mod"), "-o", w}
	if race {
		args = append(args, "-race", "-gcflags=verifsim/...=-race=false", "-gcflags=verifharness/...=-race=false")
	}
	e := env()
	if race {
		// Code compiled without the race detector must still tell it about
		// allocations, or a recycled address looks like a shared one.
		e = append(e, "GOEXPERIMENT=nosizespecializedmalloc")
	}
	if out, err := run(filepath.Join(verif, "sim/harness"), e, "go", append(args, ".")...); err != nil {
		if len(out) > 3000 {
			out = out[:3000]
		}
		die("go build: %v\n%s", err, out)
	}
	return w
}

type total struct {
	sync.Mutex
	s        summary
	hashes   map[uint64]bool
	cover    []byte
	chunks   int
	fatal    int
	viol     *viol
	violSeed uint64
	violFrom uint64
	violDeep bool
	knownHit map[string]int
}

func (t *total) add(s *summary, hashes []byte) {
	t.chunks++
	t.s.Runs += s.Runs
	t.s.Foreign += s.Foreign
	t.s.NonTriv += s.NonTriv
	t.s.Steps += s.Steps
	t.s.Switches += s.Switches
	t.s.Blocks += s.Blocks
	t.s.Spawned += s.Spawned
	t.s.Chan += s.Chan
	t.s.SimNanos += s.SimNanos
	t.s.Jumps += s.Jumps
	for k, v := range s.N {
		if strings.HasPrefix(k, "Max") {
			if v > t.s.N[k] {
				t.s.N[k] = v
			}
		} else {
			t.s.N[k] += v
		}
	}
	for k, v := range s.Policies {
		t.s.Policies[k] += v
	}
	for k, v := range s.Fams {
		t.s.Fams[k] += v
	}
	if s.MaxTasks > t.s.MaxTasks {
		t.s.MaxTasks = s.MaxTasks
	}
	if len(t.s.Sample) < 3 {
		t.s.Sample = append(t.s.Sample, s.Sample...)
	}
	for i := 0; i+8 <= len(hashes); i += 8 {
		t.hashes[binary.LittleEndian.Uint64(hashes[i:])] = true
	}
	c, _ := hex.DecodeString(s.Cover)
	for len(t.cover) < len(c) {
		t.cover = append(t.cover, 0)
	}
	for i, b := range c {
		t.cover[i] |= b
	}
}

// fatalIsMine: a crash of the whole process breaks these properties.
func fatalIsMine() bool {
	switch prop {
	case "C01", "C02", "C11", "C18", "C19":
		return false
	}
	return true
}

func checkTrees(rpFile string) int {
	tree := repo
	if prop == "C21" {
		genSeed = seed
		if tier == "thorough" {
			genRounds = 150
		}
		if rpFile != "" {
			var x replayFile
			if b, err := os.ReadFile(rpFile); err == nil {
				json.Unmarshal(b, &x)
			}
			genSeed, genRounds = x.GenSeed, x.GenRounds
		}
		var v *viol
		if tree, v = generate(); v != nil {
			path := rpFile
			if path == "" {
				path = filepath.Join(verif, ".build", "replays", fmt.Sprintf("%s-generation-%d.json", prop, genSeed))
				write(path, &replayFile{Property: prop, Violation: v, Engine: "generation", GenSeed: genSeed, GenRounds: rounds()})
				t := &total{hashes: map[uint64]bool{}}
				t.s.N = map[string]int{}
				evidence(t, 1, "", 1)
			}
			violation(path, fmt.Sprintf("%s (%s) at %s, seed %d", v.Msg, v.Class, v.Where, genSeed))
			return 1
		}
		if genStats.Packages > 0 {
			note("made %d packages from the templates in %d runs of the generator", genStats.Packages, genStats.Runs)
		}
	}
	w := buildTrees(tree)
	note("built the simulation of %s", repo)
	if rpFile != "" {
		code, out, _ := child(wenv("r"), "", 10*time.Minute, w, "-mode", "replay", "-file", rpFile, "-racelog", filepath.Join(work, "racer"))
		fmt.Print(out)
		if code == 3 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rpFile)
			return 1
		}
		if code == 0 {
			return 0
		}
		return 2
	}
	t := &total{hashes: map[uint64]bool{}, knownHit: map[string]int{}}
	t.s.N, t.s.Policies, t.s.Fams = map[string]int{}, map[string]int{}, map[string]int{}
	knowns := loadKnown()
	deadline := time.Now().Add(time.Duration(limit * float64(time.Second)))
	var next uint64
	stop := false
	seedOf := func(chunk uint64) uint64 { return seed<<36 + chunk<<14 }
	per := 1500
	if tier == "thorough" {
		per = 4000
	}
	var wg sync.WaitGroup
	path, unconfirmed := "", 0
search:
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			id := strconv.Itoa(k)
			for {
				t.Lock()
				left := time.Until(deadline).Seconds()
				if stop || left < 0.3 {
					t.Unlock()
					return
				}
				chunk := next
				next++
				t.Unlock()
				deep := chunk%4 == 3
				from := seedOf(chunk)
				n := per
				for n > 0 {
					left = time.Until(deadline).Seconds()
					if left < 0.2 {
						return
					}
					sum := filepath.Join(work, "sum"+id)
					hs := filepath.Join(work, "hash"+id)
					pr := filepath.Join(work, "progress"+id)
					os.Remove(sum)
					args := []string{"-prop", prop, "-from", strconv.FormatUint(from, 10), "-n", strconv.Itoa(n), "-sec", fmt.Sprintf("%.2f", left), "-out", sum, "-hashes", hs, "-progress", pr, "-racelog", filepath.Join(work, "race"+id)}
					if deep {
						args = append(args, "-deep")
					}
					code, out, hung := child(wenv(id), pr, 100*time.Second, w, args...)
					if m, _ := filepath.Glob(filepath.Join(work, "race"+id+".*")); m != nil {
						for _, f := range m {
							os.Remove(f)
						}
					}
					t.Lock()
					if stop {
						t.Unlock()
						return
					}
					if code == 0 || code == 3 {
						var s summary
						b, err := os.ReadFile(sum)
						if err == nil {
							err = json.Unmarshal(b, &s)
						}
						if err != nil {
							t.Unlock()
							die("no summary of a worker: %v", err)
						}
						h, _ := os.ReadFile(hs)
						t.add(&s, h)
						if s.Viol != nil {
							isKnown := false
							for _, kn := range knowns {
								if (kn.class == "" || kn.class == s.Viol.Class) && strings.Contains(s.Viol.Msg, kn.match) {
									isKnown = true
									t.knownHit[kn.what]++
								}
							}
							if !isKnown {
								t.viol, t.violSeed, t.violFrom, t.violDeep = s.Viol, s.Seed, from, deep
								stop = true
								t.Unlock()
								return
							}
							t.Unlock()
							n -= int(s.Seed + 1 - from)
							from = s.Seed + 1
							continue
						}
						t.Unlock()
						break
					}
					// the process died or hung
					b, _ := os.ReadFile(pr)
					bad, err := strconv.ParseUint(strings.TrimSpace(string(b)), 10, 64)
					if err != nil || bad < from || strings.Contains(out, "harness:") || code < 0 && !hung && out == "" {
						t.Unlock()
						die("worker ended with %d: %s", code, out)
					}
					t.fatal++
					if fatalIsMine() {
						cl := "fatal"
						if hung {
							cl = "hang"
						}
						t.viol = &viol{Prop: prop, Class: cl, Msg: firstLine(out), Where: "whole process"}
						t.violSeed, t.violFrom, t.violDeep = bad, from, deep
						stop = true
						t.Unlock()
						return
					}
					t.Unlock()
					n -= int(bad + 1 - from)
					from = bad + 1
				}
			}
		}(k)
	}
	wg.Wait()
	searchWall := limit - time.Until(deadline).Seconds()
	if t.viol != nil {
		var ok bool
		path, ok = confirm(w, t)
		if c := t.viol.Class; !ok && (c == "race" || c == "hang" || c == "fatal") {
			// Not the doing of the schedule: the machine ran out of
			// something, or the detector took one address for another.
			note("not reproduced, going on: %s (%s), seed %d", t.viol.Msg, c, t.violSeed)
			os.Remove(path)
			unconfirmed++
			t.viol, stop = nil, false
			if d := time.Now().Add(5 * time.Second); deadline.Before(d) {
				deadline = d
			}
			if unconfirmed < 5 {
				goto search
			}
		}
	}
	// determinism: the same seeds again, twice, in processes of their own
	det := ""
	if t.viol == nil {
		var dg [2]string
		for i := range dg {
			sum := filepath.Join(work, "det")
			child(wenv("d"), "", 100*time.Second, w, "-prop", prop, "-from", strconv.FormatUint(seedOf(0), 10), "-n", "40", "-sec", "20", "-out", sum, "-racelog", filepath.Join(work, "raced"))
			b, _ := os.ReadFile(sum)
			var s summary
			json.Unmarshal(b, &s)
			dg[i] = fmt.Sprintf("%s/%d", s.Digest, s.Runs)
		}
		det = "40 seeds run twice in two processes: same schedules and results"
		if dg[0] != dg[1] {
			det = fmt.Sprintf("40 seeds run twice in two processes differ: %s %s", dg[0], dg[1])
		}
	}
	nviol := 0
	if t.viol != nil {
		nviol = 1
	}
	evidence(t, nviol, det, searchWall)
	for k, n := range t.knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d times)\n", prop, k, n)
	}
	if t.viol == nil {
		note("%s held in %d simulated runs, %d different ones (%.0f runs/s, %d steps, %.1f h simulated)", prop, t.s.Runs, len(t.hashes), float64(t.s.Runs)/searchWall, t.s.Steps, float64(t.s.SimNanos)/3.6e12)
		if t.fatal > 0 {
			note("%d runs ended the process in ways this property does not speak of", t.fatal)
		}
		return 0
	}
	violation(path, fmt.Sprintf("%s (%s) at %s, seed %d", t.viol.Msg, t.viol.Class, t.viol.Where, t.violSeed))
	return 1
}

func rounds() int {
	if prop == "C21" {
		return genRounds
	}
	return 0
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" && !strings.HasPrefix(l, "runtime:") {
			return strings.TrimSpace(l)
		}
	}
	return "no output"
}

// confirm reproduces a violation in fresh processes, minimises it and leaves a replay file.
func confirm(w string, t *total) (string, bool) {
	dir := filepath.Join(verif, ".build", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, t.violSeed))
	tmp := filepath.Join(work, "replay.json")
	try := func(rp *replayFile, file string) bool {
		write(file, rp)
		os.Remove(filepath.Join(work, "v"))
		code, _, hung := child(wenv("c"), "", 120*time.Second, w, "-mode", "replay", "-file", file, "-out", filepath.Join(work, "v"), "-racelog", filepath.Join(work, "racec"))
		switch t.viol.Class {
		case "fatal":
			return code != 0 && code != 3
		case "hang":
			return hung
		}
		if code != 3 {
			return false
		}
		var v viol
		b, _ := os.ReadFile(filepath.Join(work, "v"))
		json.Unmarshal(b, &v)
		return v.Class == t.viol.Class
	}
	rp := &replayFile{Property: prop, Violation: t.viol, Engine: "trees", Seed: t.violSeed, GenSeed: genSeed, GenRounds: rounds(), Deep: t.violDeep, BySeed: true}
	ok := try(rp, tmp)
	if !ok {
		idx := int(t.violSeed - t.violFrom)
		for k := 1; !ok && idx > 0; k *= 4 {
			if k > idx {
				k = idx
			}
			rp.Prelude = &prelude{t.violSeed - uint64(k), k, t.violDeep}
			ok = try(rp, tmp)
			if k == idx {
				break
			}
		}
		if ok {
			rp.Note = "the violation needs state left behind by earlier runs in the same process"
			// fewer earlier runs
			for n := rp.Prelude.N; n > 1; {
				n = n / 2
				c := *rp
				c.Prelude = &prelude{t.violSeed - uint64(n), n, t.violDeep}
				if !try(&c, tmp) {
					break
				}
				rp = &c
			}
		} else {
			rp.Prelude = nil
			rp.Note = "seen once; the code under test does not behave the same way when run again with the same schedule"
		}
		write(path, rp)
		return path, ok
	}
	write(path, rp)
	if t.viol.Class == "fatal" || t.viol.Class == "hang" {
		return path, true
	}
	mout := filepath.Join(work, "min.json")
	msec := "20"
	if tier == "thorough" {
		msec = "90"
	}
	code, _, _ := child(wenv("m"), "", 180*time.Second, w, "-mode", "min", "-file", tmp, "-sec", msec, "-out", mout, "-racelog", filepath.Join(work, "racem"))
	if code == 0 {
		b, err := os.ReadFile(mout)
		m := &replayFile{}
		if err == nil && json.Unmarshal(b, m) == nil && try(m, tmp) {
			t.viol = m.Violation
			write(path, m)
		}
	}
	return path, true
}

func pkgsOf(fams map[string]int) map[string]bool {
	out := map[string]bool{}
	for f := range fams {
		out[f] = true
		switch {
		case strings.HasPrefix(f, "numtree"):
			out["numtree"] = true
		case f == "iptree":
			out["numtree"] = true
		case f == "dltree":
			out["domain"] = true
		case f == "domaintree":
			out["dltree"], out["domain"] = true, true
		case strings.Contains(f, "domaintree"):
			out["domain"] = true
		}
	}
	return out
}

var rules = map[string]string{
	"C01": "callers derive versions by copy-on-write (aborted and paused at random points) while audits at random scheduling points compare versions with what they answered when made",
	"C02": "callers look up, enumerate, dump, derive and parse on shared versions, and update trees of their own, under the race detector, which sees only the ordering the library itself makes",
	"C03": "callers derive versions of string and label trees; results, lookups and emptiness are compared with an ordered map",
	"C04": "callers derive versions of number trees; results and lookups are compared with a list of prefixes",
	"C05": "callers derive versions of IP trees; results and lookups are compared with a list of networks",
	"C06": "callers derive versions of domain trees; results and lookups are compared with a list of names",
	"C07": "callers open, read, share, stall in and abandon enumerations while deriving versions; what each stream delivers is compared with the content the history implies",
	"C08": "as C07 with emphasis on abandoned and stalled streams (up to 300 at once) and empty trees; callers must never be blocked and drained streams leave no goroutine",
	"C09": "callers build trees of their own by mixtures of in-place and copy-on-write updates and deletes; content is compared with the ordered map and with a rebuild by copy-on-write only",
	"C10": "callers update descendants of stored networks with callbacks that look up, stall, sleep and panic; offers and outcome are compared with the content",
	"C11": "long patterned histories over up to 500 (thorough: 2000) siblings with aborted updates; comparisons are counted and shapes measured",
	"C12": "callers convert texts, labels and reflected values at the same time, aborted and paused at random points; results, errors and earlier results are compared with a reference decoder",
	"C17": "callers dump versions of string, label and number trees while others derive from them, aborted and paused at random points; every dump is parsed and compared with the content",
	"C18": "long histories with aborted updates and in-place insertion; nodes and values reachable from versions are counted and compared with the content, and what the garbage collector keeps of removed ones is measured",
	"C19": "long histories over up to 3,200 (thorough: 7,000) entries, or of thousands of updates of few, with aborted updates and in-place insertion; steps and new nodes of each operation are compared with the length of the path to its key",
	"C21": "the scenarios of the other properties of trees on packages made anew by the generator from the shipped templates",
	"C13": "callers iterate and step through shared names with callbacks that stop, stall, panic and iterate again; calls and outcomes are compared with the labels of the text",
}

func evidence(t *total, nviol int, det string, wall float64) {
	var sites []string
	if b, err := os.ReadFile(filepath.Join(work, "lib", "sites.json")); err == nil {
		json.Unmarshal(b, &sites)
	}
	pk := pkgsOf(t.s.Fams)
	reached, all := map[string]int{}, map[string]int{}
	var missed []string
	for i, s := range sites {
		d := filepath.Dir(s)
		if i == 0 || !pk[d] {
			continue
		}
		all[d]++
		if i/8 < len(t.cover) && t.cover[i/8]&(1<<uint(i%8)) != 0 {
			reached[d]++
		} else {
			missed = append(missed, s)
		}
	}
	cov := map[string]string{}
	for d := range all {
		cov[d] = fmt.Sprintf("%d of %d statements", reached[d], all[d])
	}
	sort.Strings(missed)
	if len(missed) > 60 {
		missed = missed[:60]
	}
	hours := wall / 3600
	c := map[string]any{
		"evaluations":         t.s.Runs,
		"distinct_nontrivial": len(t.hashes),
		"rule":                "One evaluation is one simulated run made from one seed: " + rules[prop] + ". Non-trivial: more than one operation, and either more than one task took turns or the tree held more than 8 entries, and the run was not cut short by something another property speaks of. Distinct: different hash of the sequence of task switches (task, code site, operation) and of what was read.",
		"samples":             t.s.Sample,
		"seeds_per_hour":      int(float64(t.s.Runs) / hours),
		"first_seed":          seed << 36,
		"processes":           t.chunks,
		"scheduler_steps":     t.s.Steps,
		"task_switches":       t.s.Switches,
		"blocks_on_channels":  t.s.Blocks,
		"channel_operations":  t.s.Chan,
		"goroutines_started":  t.s.Spawned,
		"most_tasks_in_a_run": t.s.MaxTasks,
		"simulated_seconds":   float64(t.s.SimNanos) / 1e9,
		"clock_jumps":         t.s.Jumps,
		"schedulers":          t.s.Policies,
		"families":            t.s.Fams,
		"faults_injected": map[string]int{
			"callers aborted at a scheduling point":      t.s.N["Killed"],
			"comparison panics":                          t.s.N["Boomed"],
			"callback panics":                            t.s.N["CbPanics"] + t.s.N["IterPanics"],
			"callback errors":                            t.s.N["IterStops"],
			"callers paused":                             t.s.N["Paused"],
			"consumers asleep":                           t.s.N["Sleeps"],
			"streams abandoned":                          t.s.N["Abandoned"],
			"goroutines left stalled at the end of runs": t.s.N["StalledAtEnd"],
		},
		"checks": map[string]int{
			"operations": t.s.N["Ops"], "versions_derived": t.s.N["Versions"], "lookups_compared": t.s.N["Lookups"],
			"full_sweeps": t.s.N["Sweeps"], "observations": t.s.N["Observations"], "audits": t.s.N["Audits"],
			"audits_in_mid_operation": t.s.N["MidOpAudits"], "streams": t.s.N["Streams"], "items_read": t.s.N["EnumItems"],
			"streams_shared_by_readers": t.s.N["SharedStreams"], "bulk_updates": t.s.N["Updates"], "space_measurements": t.s.N["SpaceChecks"], "path_measurements": t.s.N["PathChecks"], "private_tree_operations": t.s.N["PrivOps"],
			"conversions": t.s.N["Convs"], "refusals_compared": t.s.N["ConvErrs"], "iterations": t.s.N["Iters"], "largest_tree": t.s.N["MaxEntries"],
		},
		"runs_cut_short_by_other_properties": t.s.Foreign,
		"statements_reached":                 cov,
		"statements_not_reached":             missed,
		"determinism":                        det,
		"real_code":                          "all non-test code of the packages listed under statements_reached, compiled from the working tree with a scheduling point before each statement",
		"stubs":                              "goroutine scheduling, channels, select, sync, timers and clock (simulated); callers, comparisons and callbacks (harness)",
	}
	if t.s.Sample == nil {
		c["samples"] = []any{}
	}
	if prop == "C21" {
		c["packages_generated"] = genStats.Names
		c["generator_runs"] = map[string]any{"all": genStats.Runs, "ended_with_an_error": genStats.Failed, "killed": genStats.Killed, "files_spoilt_after_failed_runs": genStats.Lost, "different_outputs": genStats.Variants, "system_calls": genStats.Calls, "faults_injected": genStats.Fired}
	}
	write(filepath.Join(verif, "evidence", prop+".json"), map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": c,
		"assumptions": []string{
			"a scheduling point before every statement is fine enough; the order of memory accesses within a statement is not varied (the race detector covers what that could hide)",
			"the reference models written from the documentation are right",
			"a sample of schedules and histories, not all of them",
		},
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	})
}
