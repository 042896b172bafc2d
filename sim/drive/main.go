// Command drive decides one property: it builds the simulation of the current
// tree, searches over seeds, confirms and minimises what it finds, and writes
// the evidence.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	verif = "/verif"
	repo  = "/repo"
	start = time.Now()
	seed  uint64
	prop  string
	tier  string
	work  string
	limit float64
	procs = 8
	shm   string // scratch directory in memory
)

func clean() {
	killAll()
	os.RemoveAll(work)
	if shm != "" {
		os.RemoveAll(shm)
	}
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check %s: "+f+"\n", append([]any{prop}, a...)...)
	clean()
	os.Exit(2)
}

func note(f string, a ...any) {
	fmt.Printf("[%6.1fs] "+f+"\n", append([]any{time.Since(start).Seconds()}, a...)...)
}

func env(extra ...string) []string {
	var out []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "GORACE", "GODEBUG", "GOMAXPROCS", "GOWORK", "GOOS", "GOARCH", "GOEXPERIMENT":
			continue
		}
		out = append(out, e)
	}
	out = append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	return append(out, extra...)
}

func run(dir string, e []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = e
	b, err := c.CombinedOutput()
	return string(b), err
}

func must(dir, name string, args ...string) {
	if out, err := run(dir, env(), name, args...); err != nil {
		if len(out) > 3000 {
			out = out[:3000]
		}
		die("%s %s: %v\n%s", name, strings.Join(args, " "), err, out)
	}
}

func write(file string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

var (
	children   = map[*exec.Cmd]bool{}
	childrenMu sync.Mutex
)

func killAll() {
	childrenMu.Lock()
	defer childrenMu.Unlock()
	for c := range children {
		if c.Process != nil {
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		}
	}
}

// child runs a program in its own process group, with a limit on time without progress.
func child(e []string, progress string, idle time.Duration, name string, args ...string) (code int, out string, hung bool) {
	c := exec.Command(name, args...)
	c.Env = e
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	childrenMu.Lock()
	if err := c.Start(); err != nil {
		childrenMu.Unlock()
		return -1, err.Error(), false
	}
	children[c] = true
	childrenMu.Unlock()
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	last, at := "", time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			childrenMu.Lock()
			delete(children, c)
			childrenMu.Unlock()
			s := b.String()
			if len(s) > 20000 {
				s = s[:20000]
			}
			if err == nil {
				return 0, s, hung
			}
			if x, ok := err.(*exec.ExitError); ok {
				return x.ExitCode(), s, hung
			}
			return -1, s, hung
		case <-tick.C:
			now := ""
			if progress != "" {
				p, _ := os.ReadFile(progress)
				now = string(p)
			}
			if now != last {
				last, at = now, time.Now()
			}
			if time.Since(at) > idle {
				hung = true
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			}
		}
	}
}

// Known findings.

type known struct{ class, match, what string }

func loadKnown() []known {
	var out []known
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 class=changed match="text" what fails
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		k := known{what: l}
		if i := strings.Index(l, "class="); i >= 0 {
			k.class = strings.Fields(l[i+6:])[0]
		}
		if i := strings.Index(l, `match="`); i >= 0 {
			r := l[i+7:]
			if j := strings.Index(r, `"`); j >= 0 {
				k.match, k.what = r[:j], strings.TrimSpace(r[j+1:])
			}
		}
		out = append(out, k)
	}
	return out
}

func violation(replay, msg string) {
	note("%s", msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
}

func main() {
	p := flag.String("prop", "", "property")
	t := flag.String("tier", "", "quick or thorough")
	l := flag.Float64("sec", 0, "search time")
	rp := flag.String("replay", "", "replay a file")
	rr := flag.String("repo", "/repo", "tree to check")
	flag.Parse()
	prop, repo = *p, *rr
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	tier = *t
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		} else {
			for _, c := range []byte(s) {
				seed = seed*131 + uint64(c)
			}
		}
	}
	limit = 65
	if tier == "thorough" {
		limit = 600
	}
	if s := os.Getenv("VERIF_SEC"); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			limit = v
		}
	}
	if *l > 0 {
		limit = *l
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		<-sig
		clean()
		os.Exit(2)
	}()
	if *rp != "" && prop == "" {
		b, err := os.ReadFile(*rp)
		if err != nil {
			die("%v", err)
		}
		var x struct {
			Property string `json:"property"`
		}
		json.Unmarshal(b, &x)
		prop = x.Property
	}
	work = filepath.Join(verif, ".build", prop+"-"+tier+"-"+strconv.Itoa(os.Getpid()))
	if err := os.MkdirAll(work, 0o755); err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.MkdirAll(filepath.Join(verif, ".build", "replays"), 0o755)
	code := 0
	switch prop {
	case "C14", "C15", "C16", "C20":
		code = checkEtc(*rp)
	case "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C17", "C18", "C19", "C21":
		code = checkTrees(*rp)
	default:
		die("unknown property")
	}
	clean()
	os.Exit(code)
}
