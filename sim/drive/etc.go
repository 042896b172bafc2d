package main

// The generator (package etc) runs as a real process whose system calls go
// through the seam of sim/etcsys: one seed gives the template tree, the data,
// what lay on disk before, and the faults of each run.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"text/template"
	"time"
)

type eItem struct {
	Name string   `json:"name"`
	Dir  bool     `json:"dir,omitempty"`
	Link bool     `json:"link,omitempty"` // a symbolic link to a file kept elsewhere
	Body []byte   `json:"body,omitempty"`
	Kids []*eItem `json:"kids,omitempty"`

	Mode os.FileMode `json:"mode,omitempty"` // if not the usual one
}

type ePre struct {
	Path string `json:"path"` // relative to the scratch directory
	Dir  bool   `json:"dir,omitempty"`
	Body []byte `json:"body,omitempty"`
}

type eFault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg"`
	Arg2 int    `json:"arg2,omitempty"`
}

type eLoss struct {
	Path string `json:"path"`
	Kind string `json:"kind"` // cut, zero, gone
	Arg  int    `json:"arg"`
}

type eRun struct {
	Faults []eFault `json:"faults,omitempty"`
	Loss   []eLoss  `json:"loss,omitempty"`
	Broken string   `json:"broken,omitempty"` // file of the template spoilt for this run
}

type eScen struct {
	Root *eItem `json:"template"`
	Data any    `json:"data"`
	Yaml string `json:"yaml"`
	Pad  int    `json:"pad,omitempty"` // comments before the data
	Sel  string `json:"selector,omitempty"`
	Pre  []ePre `json:"before,omitempty"`
	Arg  int    `json:"arg"`                 // how the template is named on the command line
	Age  uint64 `json:"age,omitempty"`       // seed of the modification times, 0 for none
	RO   bool   `json:"read_only,omitempty"` // templates and data may only be read
	Runs []eRun `json:"runs"`

	Par   []ePar `json:"at_the_same_time,omitempty"`
	Sched []int  `json:"turns,omitempty"` // which of them makes the next call
}

type eReplay struct {
	Property  string   `json:"property"`
	Violation *viol    `json:"violation"`
	Engine    string   `json:"engine"`
	Seed      uint64   `json:"seed"`
	Scenario  *eScen   `json:"scenario"`
	Trace     []string `json:"trace,omitempty"`
	Note      string   `json:"note,omitempty"`
}

// Data.

func conv(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[interface{}]interface{}{}
		for k, v := range x {
			m[special(k)] = conv(v)
		}
		return m
	case []any:
		out := make([]interface{}, len(x))
		for i, v := range x {
			out[i] = conv(v)
		}
		return out
	case float64:
		return int(x)
	case string:
		return special(x)
	}
	return v
}

// special gives the value of a string which stands for something else in the scenario.
func special(s string) any {
	if !strings.HasPrefix(s, spec) {
		return s
	}
	s = s[len(spec):]
	if s == "null" || s == "~" {
		return nil
	}
	if n, err := strconv.Atoi(s); err == nil {
		return n
	}
	if n, err := strconv.ParseUint(s, 10, 64); err == nil {
		return n
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return f
	}
	return s == "true"
}

// spec starts strings which stand for other values or keys.
const spec = "\x01"

var eSpecial = []string{"null", "~", "1.5", "-0.25", "3.0", "6.02e+23", "4294967296", "-9223372036854775808", "18446744073709551615", "100000000"}

func keysOf(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func plainOK(s string) bool {
	if len(s) < 4 || strings.Trim(s, "abcdefghijklmnopqrstuvwxyz") != "" {
		return false
	}
	switch s {
	case "true", "false", "null":
		return false
	}
	return true
}

func yamlOf(v any, ind string, r *rand.Rand) string {
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 {
			return " {}\n"
		}
		var b strings.Builder
		b.WriteString("\n")
		for _, k := range keysOf(x) {
			if r.Intn(6) == 0 {
				b.WriteString(ind + "# " + strings.Repeat("note ", r.Intn(200)) + "\n")
			}
			b.WriteString(ind + strings.TrimPrefix(k, spec) + ":" + yamlOf(x[k], ind+"  ", r))
		}
		return b.String()
	case []any:
		if len(x) == 0 {
			return " []\n"
		}
		var b strings.Builder
		b.WriteString("\n")
		for _, e := range x {
			b.WriteString(ind + "-" + yamlOf(e, ind+"  ", r))
		}
		return b.String()
	case string:
		if strings.HasPrefix(x, spec) {
			return " " + x[len(spec):] + "\n"
		}
		if plainOK(x) && r.Intn(2) == 0 {
			return " " + x + "\n"
		}
		q, _ := json.Marshal(x)
		return " " + string(q) + "\n"
	case int:
		return " " + strconv.Itoa(x) + "\n"
	case float64:
		return " " + strconv.Itoa(int(x)) + "\n"
	case bool:
		return fmt.Sprintf(" %v\n", x)
	}
	return " null\n"
}

func selData(sel string, v any) (any, bool) {
	if sel == "" {
		return v, true
	}
	for _, p := range strings.Split(sel, ".") {
		m, ok := v.(map[string]any)
		if !ok {
			return nil, false
		}
		if v, ok = m[p]; !ok {
			return nil, false
		}
	}
	return v, true
}

// What should come out.

type eExpect struct {
	err   string            // why the run has to fail, or ""
	files map[string][]byte // relative to the scratch directory
	dirs  map[string]bool
	own   map[string]bool // everything which belongs to the instance
}

func render(name, text string, data any) (string, error) {
	t, err := template.New(name).Parse(text)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	if err := t.Execute(&b, data); err != nil {
		return "", err
	}
	return b.String(), nil
}

const eWork = "work"

func (s *eScen) expect(root string) *eExpect {
	e := &eExpect{files: map[string][]byte{}, dirs: map[string]bool{}, own: map[string]bool{}}
	fail := func(f string, a ...any) {
		if e.err == "" {
			e.err = fmt.Sprintf(f, a...)
		}
	}
	d, ok := selData(s.Sel, s.Data)
	if !ok {
		fail("selector")
		return e
	}
	data := conv(d)
	taken := map[string]string{}
	var walk func(it *eItem, dir string)
	walk = func(it *eItem, dir string) {
		abs := dir + "/" + it.Name
		n, err := render("string", abs, data)
		if err != nil {
			fail("name %q: %v", abs, err)
			return
		}
		if n == abs {
			fail("same name %q", abs)
			return
		}
		c := filepath.Clean(n)
		rel, err := filepath.Rel(root, c)
		if err != nil || strings.HasPrefix(rel, "..") || !it.Dir && strings.HasSuffix(n, "/") {
			fail("odd name %q", n)
			return
		}
		if o, ok := taken[rel]; ok {
			fail("collision of %q and %q", o, abs)
			return
		}
		taken[rel] = abs
		e.own[rel] = true
		if it.Dir {
			e.dirs[rel] = true
			for p := filepath.Dir(rel); p != "." && p != eWork; p = filepath.Dir(p) {
				e.dirs[p] = true
				e.own[p] = true
			}
			kids := append([]*eItem(nil), it.Kids...)
			sort.Slice(kids, func(i, j int) bool { return kids[i].Name < kids[j].Name })
			for _, k := range kids {
				walk(k, abs)
			}
			return
		}
		out, err := render(it.Name, string(it.Body), data)
		if err != nil {
			fail("content of %q: %v", abs, err)
			return
		}
		e.files[rel] = []byte(out)
	}
	walk(s.Root, root+"/"+eWork)
	return e
}

// ok tells whether the scenario means what it is meant to: no collisions and
// nothing rendered over something which is not of the instance.
func (s *eScen) sound(root string) bool {
	if len(s.Par) > 0 {
		return s.soundPar(root)
	}
	return s.sound1(root)
}

func (s *eScen) sound1(root string) bool {
	e := s.expect(root)
	if strings.HasPrefix(e.err, "collision") || strings.HasPrefix(e.err, "odd") {
		return false
	}
	snap := map[string]bool{eWork: true, eWork + "/data.yaml": true, "other": true, "links": true}
	var walk func(it *eItem, dir string)
	walk = func(it *eItem, dir string) {
		p := dir + "/" + it.Name
		snap[p] = true
		for _, k := range it.Kids {
			walk(k, p)
		}
	}
	walk(s.Root, eWork)
	for p := range snap {
		if e.own[p] {
			return false
		}
	}
	for p := range e.own {
		// within the template, or below one of its own files
		if strings.HasPrefix(p, eWork+"/"+s.Root.Name+"/") {
			return false
		}
		for f := range e.files {
			if strings.HasPrefix(p, f+"/") {
				return false
			}
		}
	}
	for _, x := range s.Pre {
		if x.Dir && e.files[x.Path] != nil || !x.Dir && e.dirs[x.Path] {
			return false
		}
		for f := range e.files {
			if strings.HasPrefix(x.Path, f+"/") {
				return false
			}
		}
		for p := range e.own {
			if !x.Dir && strings.HasPrefix(p, x.Path+"/") {
				return false
			}
		}
	}
	return true
}

// Making scenarios.

var eWords = []string{"alpha", "beta", "gamma", "delta", "omega", "north", "south", "eight", "sixteen"}

// Parts of names and names which tools may treat specially.
var eSuffixes = []string{"~", ".bak", ".orig", ".swp", ".tmp", ".tmpl", ".md", ".go", "_test.go", ".yaml", ".old", ".lock", ".txt", ".rej", ".gz", ".new", ".part", ".", " ", "-", "%", "%41", "%2F", "(1)", ".1", "\\"}
var ePrefixes = []string{".", "..", "...", "_", "-", "--", "#", "~", " ", "@", "$", "%s", "*", "?", "[a]", "'", "\"", "`", "&", "\\", "\t", "日本", "é"}
var eNames = []string{"README.md", "LICENSE", ".git", ".gitignore", "CVS", ".svn", "vendor", "testdata", "internal", "node_modules", "Makefile", "go.mod", "Thumbs.db", ".DS_Store", "core", "nul", "lost+found", "data.yaml", "a  b", "x=y", "%d%n", "$HOME", "-rf", "0", strings.Repeat("long", 50)}

var eModes = []os.FileMode{0o600, 0o400, 0o444, 0o640, 0o755, 0o700, 0o664, 0o500, 0o440}

type eGen struct {
	r     *rand.Rand
	strs  []string // paths of strings and numbers
	lists []string
	maps  []string
	bools []string
	dirs  []string // strings with a slash
	dot   bool     // the data itself is a value
	data  any      // to try templates with
}

func (g *eGen) pick(l []string) string { return l[g.r.Intn(len(l))] }

func (g *eGen) value(depth int) any {
	switch n := g.r.Intn(14); {
	case n == 12:
		return spec + g.pick(eSpecial)
	case n == 13:
		return g.pick([]string{"two\nlines\n", " lead", "yes", "12", "null", "", "#no", "- no", "{no", "01"})
	case n < 4:
		return g.pick(eWords) + strconv.Itoa(g.r.Intn(100))
	case n < 5:
		return g.pick(eWords)
	case n < 6:
		return "é \"quoted\" \\ <b> & 'x' \t" + g.pick(eWords)
	case n < 8:
		return g.r.Intn(200) - 50
	case n < 9:
		return g.r.Intn(2) == 0
	case n < 10 && depth > 0:
		var l []any
		for i := g.r.Intn(5); i >= 0; i-- {
			l = append(l, g.pick(eWords)+strconv.Itoa(i))
		}
		return l
	case depth > 0:
		return g.dict(depth - 1)
	}
	return strconv.Itoa(g.r.Intn(64))
}

func (g *eGen) dict(depth int) map[string]any {
	m := map[string]any{}
	for i, n := 0, 1+g.r.Intn(5); i < n; i++ {
		m[g.pick(eWords)+string(rune('a'+i))] = g.value(depth)
	}
	if g.r.Intn(6) == 0 {
		for i := g.r.Intn(4); i >= 0; i-- {
			m[spec+g.pick([]string{"8", "16", "32", "64", "100", "9", "true", "1.5"})] = g.value(0)
		}
	}
	return m
}

func (g *eGen) index(p string, v any) {
	switch x := v.(type) {
	case map[string]any:
		if p != "" {
			g.maps = append(g.maps, p)
		}
		for _, k := range keysOf(x) {
			if strings.HasPrefix(k, spec) {
				continue
			}
			g.index(p+"."+k, x[k])
		}
	case []any:
		g.lists = append(g.lists, p)
	case bool:
		g.bools = append(g.bools, p)
	case string:
		if strings.Contains(x, "/") {
			g.dirs = append(g.dirs, p)
		} else if !strings.Contains(x, "\"") {
			g.strs = append(g.strs, p)
		}
	default:
		g.strs = append(g.strs, p)
	}
}

func (g *eGen) val() string {
	if g.dot {
		return "{{.}}"
	}
	if len(g.strs) == 0 {
		return "{{len .}}"
	}
	return "{{" + g.pick(g.strs) + "}}"
}

func (g *eGen) frag(depth int) string {
	r := g.r
	switch n := r.Intn(22); {
	case n < 7:
		return g.val()
	case n < 9 && len(g.bools) > 0 && depth > 0:
		return "{{if " + g.pick(g.bools) + "}}" + g.text(depth-1) + "{{else}}" + g.text(depth-1) + "{{end}}"
	case n < 11 && len(g.lists) > 0:
		return "{{range $i, $e := " + g.pick(g.lists) + "}}{{$i}}: {{$e}}\n{{else}}none{{end}}"
	case n < 12 && len(g.maps) > 0:
		return "{{range $k, $v := " + g.pick(g.maps) + "}}{{$k}}={{printf \"%v\" $v}};{{end}}"
	case n < 13:
		return "{{/* " + g.pick(eWords) + " */}}"
	case n < 14 && len(g.strs) > 0:
		return "{{- printf \"%v|%5v\" " + g.pick(g.strs) + " " + g.pick(g.strs) + " -}}"
	case n < 15 && !g.dot:
		return "{{.nosuchkey}}"
	case n < 16:
		n := g.pick(eDefs)
		switch r.Intn(7) {
		case 3: // empty definitions don't replace others
			return "{{define \"" + n + "\"}} {{end}}{{template \"" + n + "\" 7}}"
		case 0:
			return "{{block \"" + n + "\" 3}}" + g.pick(eWords) + "{{.}}{{end}}"
		case 1:
			return "{{define \"" + n + "\"}}" + g.pick(eWords) + "{{end}}" // not used
		case 2:
			return "{{define \"" + n + "\"}}{{$.}}<" + g.pick(eWords) + ">{{end}}" + g.pick(eWords) + "{{template \"" + n + "\" " + g.pick([]string{"7", "true", "\"s\"", "1.5"}) + "}}"
		}
		return "{{define \"" + n + "\"}}[" + g.pick(eWords) + "{{.}}]{{end}}{{template \"" + n + "\" 7}}"
	case n < 17 && len(g.strs) > 0:
		return "{{with " + g.pick(g.strs) + "}}{{.}}{{end}}"
	case n < 18:
		if len(g.strs) > 0 && r.Intn(2) == 0 {
			return g.builtin(depth)
		}
		return "{{\"{{\"}}"
	case n < 19:
		return strings.Repeat(g.pick(eWords)+" ", r.Intn(40))
	}
	return g.pick(eWords) + "\n"
}

// eDefs name templates defined within files.
var eDefs = []string{"d", "item", "x.tmpl", "north"}

func (g *eGen) builtin(depth int) string {
	r := g.r
	a, b := g.pick(g.strs), g.pick(g.strs)
	switch r.Intn(12) {
	case 0:
		return "{{html " + a + "}}{{js " + b + "}}{{urlquery " + a + "}}"
	case 1:
		return "{{print " + a + " " + b + "}}{{println " + a + "}}"
	case 2:
		return "{{printf \"%v\" " + a + " | printf \"%q %x\" \"u\" | html}}"
	case 3:
		return "{{and " + a + " " + b + "}}{{or " + a + " " + b + "}}{{not " + a + "}}"
	case 4:
		return "{{$x := 1}}{{if true}}{{$x = " + a + "}}{{$x := 5}}{{$x}}{{end}}{{$x}}"
	case 5:
		return "{{if not " + a + "}}" + g.pick(eWords) + "{{else if " + b + "}}" + g.text(0) + "{{else}}no{{end}}"
	case 6:
		return "{{with 0}}x{{else}}" + g.pick(eWords) + "{{end}}"
	case 7:
		if len(g.lists) > 0 {
			l := g.pick(g.lists)
			return "{{range " + l + "}}{{if eq . (index $" + l + " 0)}}{{continue}}{{end}}{{.}}{{break}}{{end}}{{len " + l + "}}"
		}
	case 8:
		if len(g.lists) > 0 {
			return "{{range $i, $e := slice " + g.pick(g.lists) + " 1}}{{$i}}{{slice $e 1 2}}{{end}}"
		}
	case 9:
		return "{{`raw {{ text`}}{{'a'}}{{0x1F}}{{1e3}}{{3i}}"
	case 10:
		return " \n\t{{- " + a + " -}}\n \t{{- /* c */ -}} \n" + g.pick(eWords)
	}
	return "{{eq (printf \"%v\" " + a + ") (printf \"%v\" " + b + ")}}{{lt 1 2}}{{ge 2.5 2.5}}"
}

func (g *eGen) text(depth int) string {
	var b strings.Builder
	for i := g.r.Intn(5); i >= 0; i-- {
		if g.r.Intn(2) == 0 {
			b.WriteString(g.pick(eWords) + g.pick([]string{" ", "\n", "\r\n", "\t", "}", "{", "\x00\xff", "é"}))
		}
		b.WriteString(g.frag(depth))
	}
	return b.String()
}

func (g *eGen) body() []byte {
	r := g.r
	switch n := r.Intn(40); {
	case n == 0:
		return nil
	case n == 1:
		return []byte(strings.Repeat("0123456789abcdef\n", 1+r.Intn(8000)) + g.text(1))
	case n == 2:
		return []byte(g.val())
	case n == 3:
		return []byte("{{/* nothing */}}")
	case n < 7:
		// what tools may take for something of their own
		return []byte(g.pick(eHeads) + g.text(1) + g.pick(eTails))
	}
	for {
		t := g.text(2)
		if _, err := render("x", t, g.data); err == nil || r.Intn(12) == 0 {
			return []byte(t)
		}
	}
}

var eHeads = []string{"\ufeff", "\xff\xfe", "\xfe\xff", "#!/bin/sh\n", "\n\n", "  ", "---\n", "<no value>", "%!s(MISSING)", "\x1a", "\x00", "// Code generated by etc. DO NOT EDIT.\n", "{{/* generated */}}", "{{- /* x */ -}}\n", "<?xml version=\"1.0\"?>\n", "\x1f\x8b\x08", "package x\nimport \"fmt\"\n", "&lt;&amp;\"'<>"}
var eTails = []string{"", "\n", "\n\n\n", " ", "\r", "\r\n", "\x1a", "\x00\x00\x00\x00", "\\", "\ufeff", "\t", "<no value>", "EOF", "\xc3"}

func (g *eGen) bad() []byte {
	return []byte(g.text(1) + g.pick([]string{"{{if", "{{end}}", "{{nosuchfunction 1}}", "{{index .nosuchkey 1 2}}{{len 3}}", "{{len 12}}", "{{template \"nowhere\"}}", "{{template \"" + g.pick(eDefs) + "\"}}", "{{template \"" + g.pick(eDefs) + "\" 1}}", "{{template \"" + g.pick(eDefs) + "\" .}}", "{{range 5 6}}x{{end}}"}) + g.text(1))
}

func (g *eGen) name() string {
	n := g.pick(eWords) + string(rune('A'+g.r.Intn(26)))
	switch g.r.Intn(24) {
	case 0, 1:
		return n + g.pick(eSuffixes)
	case 2:
		return g.pick(ePrefixes) + n
	case 3:
		return g.pick(eNames)
	}
	switch g.r.Intn(6) {
	case 0, 1, 2:
	case 3:
		n = g.val() + n
	case 4:
		n += "." + g.val()
	case 5:
		if len(g.bools) > 0 {
			n += "{{if " + g.pick(g.bools) + "}}yes{{else}}no{{end}}"
		} else {
			n = "." + n
		}
	}
	return n
}

func (g *eGen) item(depth int, budget *int) *eItem {
	r := g.r
	it := &eItem{Name: g.name()}
	*budget--
	if r.Intn(8) == 0 {
		it.Mode = eModes[r.Intn(len(eModes))]
	}
	if depth > 0 && r.Intn(3) == 0 {
		it.Dir = true
		if it.Mode != 0 {
			it.Mode |= 0o500
		}
		if len(g.dirs) > 0 && r.Intn(6) == 0 {
			it.Name += "{{" + g.pick(g.dirs) + "}}"
		}
		for i := r.Intn(5); i > 0 && *budget > 0; i-- {
			it.Kids = append(it.Kids, g.item(depth-1, budget))
		}
		it.uniq()
		it.Link = r.Intn(16) == 0
		return it
	}
	it.Body = g.body()
	it.Link = r.Intn(25) == 0
	return it
}

func (it *eItem) uniq() {
	seen := map[string]bool{}
	for i, k := range it.Kids {
		if seen[k.Name] {
			k.Name = fmt.Sprintf("u%d", i) + k.Name
		}
		seen[k.Name] = true
	}
}

// twin gives one of the files a namesake elsewhere, equal in all but its content.
func (root *eItem) twin(r *rand.Rand) {
	var dirs, files, up []*eItem
	var walk func(it, p *eItem)
	walk = func(it, p *eItem) {
		if it.Dir {
			dirs = append(dirs, it)
		} else if !it.Link {
			files, up = append(files, it), append(up, p)
		}
		for _, k := range it.Kids {
			walk(k, it)
		}
	}
	walk(root, nil)
	if len(files) == 0 {
		return
	}
	n := r.Intn(len(files))
	f := files[n]
	d := dirs[r.Intn(len(dirs))]
	if d == up[n] {
		d = &eItem{Name: "other", Dir: true}
		up[n].Kids = append(up[n].Kids, d)
	}
	t := &eItem{Name: f.Name, Mode: f.Mode, Body: append([]byte("B"), f.Body...)}
	f.Body = append([]byte("A"), f.Body...)
	d.Kids = append(d.Kids, t)
	d.uniq()
	up[n].uniq()
}

func filesOf(it *eItem, dir string, out *[]string, at *[]*eItem) {
	p := dir + "/" + it.Name
	if !it.Dir {
		*out = append(*out, p)
		*at = append(*at, it)
	}
	for _, k := range it.Kids {
		filesOf(k, p, out, at)
	}
}

var eRepo = map[string]*eItem{}
var eRepoData map[string]any
var eRepoYaml string

// loadRepo reads the templates the repository itself uses.
func loadRepo() {
	b, err := os.ReadFile(filepath.Join(repo, "uintX", "uintX.yaml"))
	if err != nil {
		return
	}
	top := map[string]any{}
	var cur map[string]any
	for _, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		k, v, ok := strings.Cut(t, ":")
		if !ok {
			return
		}
		v = strings.TrimSpace(v)
		if !strings.HasPrefix(l, " ") {
			if v != "" {
				return
			}
			cur = map[string]any{}
			top[k] = cur
			continue
		}
		if cur == nil {
			return
		}
		if n, err := strconv.Atoi(v); err == nil {
			cur[k] = n
		} else if strings.HasPrefix(v, "\"") {
			q, err := strconv.Unquote(v)
			if err != nil {
				return
			}
			cur[k] = q
		} else if v == "go" {
			cur[k] = v
		} else {
			return
		}
	}
	ds, _ := filepath.Glob(filepath.Join(repo, "uintX", "*"))
	for _, d := range ds {
		if !strings.Contains(d, "{{") {
			continue
		}
		it := &eItem{Name: filepath.Base(d), Dir: true}
		fs, _ := os.ReadDir(d)
		for _, f := range fs {
			c, err := os.ReadFile(filepath.Join(d, f.Name()))
			if err != nil {
				return
			}
			it.Kids = append(it.Kids, &eItem{Name: f.Name(), Body: c})
		}
		eRepo[it.Name] = it
	}
	eRepoData, eRepoYaml = top, string(b)
}

// mix spreads seeds: a source keeps only its seed's remainder by 2^31-1, of
// which nearby seeds would leave nearby ones.
func mix(seed, k uint64) int64 {
	z := seed*0x9e3779b97f4a7c15 + k*0xd1342543de82ef95 + 0x632be59bd9b4e019
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return int64((z ^ z>>31) >> 1)
}

func genScen(seed uint64, root string) *eScen {
	for k := int64(0); ; k++ {
		r := rand.New(rand.NewSource(mix(seed, uint64(k))))
		s := genScen1(r)
		if s.sound(root) {
			return s
		}
	}
}

func genScen1(r *rand.Rand) *eScen {
	s := &eScen{Arg: r.Intn(6)}
	if r.Intn(3) > 0 {
		s.Age = 1 + uint64(r.Intn(1<<30))
	}
	s.RO = r.Intn(4) == 0
	if r.Intn(40) == 0 {
		s.Pad = 1 + r.Intn(1<<uint(4+r.Intn(12)))
	}
	if len(eRepo) > 0 && eRepoData != nil && r.Intn(30) == 0 {
		var ns []string
		for n := range eRepo {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		s.Root = eRepo[ns[r.Intn(len(ns))]]
		ks := keysOf(eRepoData)
		s.Sel = ks[r.Intn(len(ks))]
		s.Data, s.Yaml = eRepoData, eRepoYaml
	} else {
		g := &eGen{r: r}
		d := g.dict(2)
		d["flag"] = r.Intn(2) == 0
		d["name"] = g.pick(eWords)
		if r.Intn(4) == 0 {
			d["deep"] = g.pick(eWords) + "/" + g.pick(eWords)
		}
		var v any = d
		if r.Intn(4) == 0 {
			// data far down
			for i := 1 + r.Intn(5); i > 0; i-- {
				k := g.pick([]string{"alpha", "x", "x8", "a b", "north-2", "é", "_"})
				m := g.dict(1)
				m[k] = d
				d = m
				s.Sel = strings.TrimSuffix(k+"."+s.Sel, ".")
			}
		}
		s.Data = d
		for r.Intn(3) == 0 {
			m, ok := v.(map[string]any)
			if !ok {
				break
			}
			ks := keysOf(m)
			k := ks[r.Intn(len(ks))]
			if strings.HasPrefix(k, spec) {
				continue
			}
			switch m[k].(type) {
			case map[string]any:
			case string, int:
				if strings.ContainsAny(fmt.Sprint(m[k]), "/\"") {
					continue
				}
			default:
				continue
			}
			v = m[k]
			s.Sel = strings.TrimPrefix(s.Sel+"."+k, ".")
		}
		g.data = conv(v)
		if _, ok := v.(map[string]any); !ok {
			g.dot = true
		} else {
			g.index("", v)
		}
		if r.Intn(60) == 0 {
			s.Sel = strings.TrimPrefix(s.Sel+".nosuchkey", ".")
		} else if s.Sel != "" && r.Intn(40) == 0 {
			// nothing has no name
			if ps := strings.SplitAfter(s.Sel, "."); ps[0] != s.Sel && r.Intn(2) == 0 {
				s.Sel = ps[0] + "." + strings.Join(ps[1:], "")
			} else {
				s.Sel = "." + s.Sel
			}
		}
		s.Yaml = strings.TrimPrefix(yamlOf(d, "", r), "\n")
		budget := 1 + r.Intn(14)
		if r.Intn(8) == 0 {
			s.Root = &eItem{Body: g.body()}
		} else {
			s.Root = &eItem{Dir: true}
			for i := r.Intn(6); i >= 0 && budget > 0; i-- {
				s.Root.Kids = append(s.Root.Kids, g.item(3, &budget))
			}
			s.Root.uniq()
			if r.Intn(40) == 0 {
				n := 150
				if r.Intn(8) == 0 {
					n = 1000 + r.Intn(1500)
				}
				for i := 0; i < n; i++ {
					s.Root.Kids = append(s.Root.Kids, &eItem{Name: fmt.Sprintf("many%03d", i), Body: []byte(g.val())})
				}
			} else if r.Intn(30) == 0 {
				// far down
				k := s.Root.Kids[len(s.Root.Kids)-1]
				for i := 1 + r.Intn(1<<uint(3+r.Intn(4))); i > 0; i-- {
					d := &eItem{Name: g.pick([]string{"d", "x y", "{{if .}}e{{end}}", "é"}), Dir: true, Kids: []*eItem{k}}
					if r.Intn(8) == 0 {
						d.Kids = append(d.Kids, &eItem{Name: "file", Body: g.body()})
						d.uniq()
					}
					k = d
				}
				s.Root.Kids[len(s.Root.Kids)-1] = k
				s.Root.uniq()
			}
		}
		s.Root.Name = "t" + g.val()
		if r.Intn(16) == 0 {
			// a name which cannot be rendered
			it := s.Root
			for len(it.Kids) > 0 && r.Intn(4) > 0 {
				it = it.Kids[r.Intn(len(it.Kids))]
			}
			it.Name += g.pick([]string{"{{if", "{{end}}", "{{nosuchfunction}}", "{{index .nosuchkey 1 2}}", "{{len 3}}", "{{template \"x\"}}", "{{.name.name.name.name}}"}) + "z"
		}
		if r.Intn(20) == 0 {
			s.Root.Name = "plain"
		}
		if s.Root.Dir && r.Intn(4) == 0 {
			s.Root.twin(r)
		}
		if r.Intn(12) == 0 {
			var ps []string
			var at []*eItem
			filesOf(s.Root, "", &ps, &at)
			if len(at) > 0 {
				at[r.Intn(len(at))].Body = g.bad()
			}
		}
	}
	// what lay there before
	e := s.expect("/r")
	var own []string
	for p := range e.own {
		own = append(own, p)
	}
	sort.Strings(own)
	old := func() []byte {
		return []byte(strings.Repeat("old content\n", r.Intn(60)))
	}
	if r.Intn(2) == 0 {
		for _, p := range own {
			if r.Intn(3) == 0 {
				continue
			}
			if e.dirs[p] {
				s.Pre = append(s.Pre, ePre{Path: p, Dir: true})
				if r.Intn(3) == 0 {
					s.Pre = append(s.Pre, ePre{Path: p + "/stale.txt", Body: old()})
				}
			} else if _, ok := e.files[p]; ok {
				b := old()
				switch r.Intn(4) {
				case 0:
					b = append([]byte(nil), e.files[p]...)
					if len(b) > 0 && r.Intn(2) == 0 {
						b[r.Intn(len(b))] ^= 1
					}
				case 1:
					b = append(append([]byte(nil), e.files[p]...), "tail of an older, longer file"...)
				}
				s.Pre = append(s.Pre, ePre{Path: p, Body: b})
			}
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		n := []string{eWork + "/notes.txt", "other/keep", eWork + "/" + s.Root.Name + ".bak", eWork + "/out/x", eWork + "/.etc", eWork + "/data.yaml~"}[r.Intn(6)]
		dup := false
		for _, p := range s.Pre {
			dup = dup || p.Path == n
		}
		if !dup {
			s.Pre = append(s.Pre, ePre{Path: n, Body: old()})
		}
	}
	return s
}

// Running.

type eCall struct {
	idx   int
	op    string
	path  string
	path2 string
	wr    bool
	size  int
	kind  string
	ret   string
}

type eOut struct {
	code  int
	hung  bool
	calls []eCall
	esc   []string // refused
	msg   string
	raw   []byte
}

type eRunner struct {
	bin  string
	root string // scratch directory
	log  string
}

func (w *eRunner) reset() {
	if err := os.RemoveAll(w.root); err != nil {
		die("%v", err)
	}
	for _, d := range []string{w.root + "/" + eWork, w.root + "/other", w.root + "/links"} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			die("%v", err)
		}
	}
}

func put(p string, b []byte) {
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		die("%v", err)
	}
}

func (w *eRunner) lay(s *eScen) {
	w.reset()
	n := 0
	var walk func(it *eItem, dir string)
	walk = func(it *eItem, dir string) {
		p := dir + "/" + it.Name
		switch {
		case it.Dir && it.Link:
			n++
			t := fmt.Sprintf("%s/links/l%d", w.root, n)
			os.MkdirAll(t, 0o755)
			os.Symlink(t, p)
		case it.Dir:
			os.MkdirAll(p, 0o755)
		case it.Link:
			n++
			t := fmt.Sprintf("%s/links/l%d", w.root, n)
			put(t, it.Body)
			os.Symlink(t, p)
		default:
			put(p, it.Body)
			if it.Mode != 0 {
				os.Chmod(p, it.Mode)
			}
		}
		for _, k := range it.Kids {
			walk(k, p)
		}
		if it.Dir && it.Mode != 0 {
			os.Chmod(p, it.Mode)
		}
	}
	walk(s.Root, w.root+"/"+eWork)
	put(w.root+"/"+eWork+"/data.yaml", []byte(strings.Repeat("# nothing to see here, just a line\n", s.Pad)+s.Yaml))
	for _, p := range s.Pre {
		if p.Dir {
			os.MkdirAll(w.root+"/"+p.Path, 0o755)
		} else {
			put(w.root+"/"+p.Path, p.Body)
		}
	}
	defer w.give(s)
	if s.Age == 0 {
		return
	}
	// Everything gets an age: template, data and what was there before.
	now := time.Now().Truncate(time.Second)
	var all []string
	filepath.WalkDir(w.root, func(p string, d os.DirEntry, err error) error {
		if err == nil && d.Type()&os.ModeSymlink == 0 {
			all = append(all, p)
		}
		return nil
	})
	for i := len(all) - 1; i >= 0; i-- {
		h := fnv.New64a()
		fmt.Fprintf(h, "%d %s", s.Age, w.rel(all[i]))
		v := h.Sum64() * 0x9e3779b97f4a7c15 >> 20
		if s.Age%4 == 0 {
			v = 6 // all of the same age
		}
		t := now
		switch v % 7 {
		case 0, 1, 2:
			t = now.Add(-time.Duration(1+v/8%1000) * 24 * time.Hour)
		case 3, 4:
			t = now.Add(time.Duration(1+v/8%1000) * 24 * time.Hour)
		case 5:
			t = time.Unix(int64(v/8%3)*86400, 0)
		case 6:
			t = time.Unix(now.Unix()-400*86400, 0) // the same for many
		}
		os.Chtimes(all[i], t, t)
	}
}

// unpriv says that the generator can be run as a user of its own, for whom
// the permissions of files matter.
var unpriv = func() bool {
	if os.Geteuid() != 0 {
		return false
	}
	c := exec.Command("/bin/true")
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: etcUid, Gid: etcUid}}
	return c.Run() == nil
}()

const etcUid = 65534

// give hands the disk over to the user who runs the generator.
func (w *eRunner) give(s *eScen) {
	tmpl := w.root + "/" + eWork + "/" + s.Root.Name
	filepath.WalkDir(w.root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if unpriv {
			os.Lchown(p, etcUid, etcUid)
		}
		if s.RO && d.Type()&os.ModeSymlink == 0 && (p == tmpl || strings.HasPrefix(p, tmpl+"/") || p == w.root+"/"+eWork+"/data.yaml") {
			if d.IsDir() {
				os.Chmod(p, 0o555)
			} else {
				os.Chmod(p, 0o444)
			}
		}
		return nil
	})
}

func (w *eRunner) snap() map[string]string {
	m := map[string]string{}
	filepath.WalkDir(w.root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(w.root, p)
		fi, err := d.Info()
		if err != nil {
			return nil
		}
		switch {
		case d.IsDir():
			m[rel] = "d" + fi.Mode().Perm().String()
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "l" + t
		default:
			b, _ := os.ReadFile(p)
			m[rel] = "f" + fi.Mode().Perm().String() + string(b)
		}
		return nil
	})
	return m
}

// body gives the content of a file of a snapshot.
func body(s string) ([]byte, bool) {
	if len(s) < 11 || s[0] != 'f' {
		return nil, false
	}
	return []byte(s[11:]), true
}

func unpct(s string) string {
	if !strings.Contains(s, "%") {
		return s
	}
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			n, _ := strconv.ParseUint(s[i+1:i+3], 16, 8)
			b = append(b, byte(n))
			i += 2
		} else {
			b = append(b, s[i])
		}
	}
	return string(b)
}

func (w *eRunner) rel(p string) string {
	p = unpct(p)
	if p == w.root {
		return "."
	}
	return strings.TrimPrefix(p, w.root+"/")
}

func (w *eRunner) run(s *eScen, faults []eFault) *eOut {
	c, o, lf, eb := w.command(s, faults)
	if err := c.Start(); err != nil {
		die("%v", err)
	}
	tm := time.AfterFunc(60*time.Second, func() { o.hung = true; c.Process.Kill() })
	err := c.Wait()
	tm.Stop()
	w.outcome(o, err, lf, eb)
	return o
}

// command makes a run ready to be started.
func (w *eRunner) command(s *eScen, faults []eFault) (*exec.Cmd, *eOut, *os.File, *bytes.Buffer) {
	cwd, targ, darg := w.root+"/"+eWork, "", "data.yaml"
	switch s.Arg {
	case 0, 1:
		targ = "./" + s.Root.Name
	case 2:
		targ = s.Root.Name
	case 3:
		targ = w.root + "/" + eWork + "/" + s.Root.Name
		cwd, darg = w.root, eWork+"/data.yaml"
	case 4:
		cwd, targ, darg = w.root+"/other", "../"+eWork+"/"+s.Root.Name+"/", w.root+"/"+eWork+"/data.yaml"
	case 5:
		cwd, targ, darg = w.root, ".//"+eWork+"/./"+s.Root.Name, "./"+eWork+"/data.yaml"
	}
	args := []string{"-t", targ, "-d", darg}
	if s.Sel != "" {
		args = append(args, "-s", s.Sel)
	}
	var pl strings.Builder
	for _, f := range faults {
		fmt.Fprintf(&pl, "%d,%s,%d,%d;", f.At, f.Kind, f.Arg, f.Arg2)
	}
	lf, err := os.Create(w.log)
	if err != nil {
		die("%v", err)
	}
	c := exec.Command(w.bin, args...)
	c.Dir = cwd
	c.Env = []string{"VERIF_FS=" + w.root + "|" + pl.String(), "GOMAXPROCS=1", "TMPDIR=" + w.root + "/other", "HOME=" + w.root + "/other", "PATH=/nonexistent", "PWD=" + cwd, "GODEBUG=randautoseed=0", "TZ=UTC"}
	c.ExtraFiles = []*os.File{lf}
	eb := &bytes.Buffer{}
	c.Stderr = eb
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if unpriv {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: etcUid, Gid: etcUid}
	}
	return c, &eOut{}, lf, eb
}

// outcome reads what a run that has ended left in its log.
func (w *eRunner) outcome(o *eOut, err error, lf *os.File, eb *bytes.Buffer) {
	lf.Close()
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			die("%v", err)
		}
		o.code = x.ExitCode()
	}
	o.msg = eb.String()
	if i := strings.LastIndex(strings.TrimSpace(o.msg), "\n"); i >= 0 {
		o.msg = strings.TrimSpace(o.msg[i:])
	}
	if len(o.msg) > 400 {
		o.msg = o.msg[:400]
	}
	o.raw, _ = os.ReadFile(lf.Name())
	for _, l := range strings.Split(string(o.raw), "\n") {
		f := strings.Fields(l)
		if len(f) > 1 && f[0] == "X" {
			o.esc = append(o.esc, unpct(l))
			continue
		}
		if len(f) < 7 {
			continue
		}
		i, err := strconv.Atoi(f[0])
		if err != nil {
			continue
		}
		k := eCall{idx: i, op: f[1], path: w.rel(f[2]), path2: "", wr: f[4] == "w", kind: f[6]}
		if f[3] != "-" {
			k.path2 = w.rel(f[3])
		}
		k.size, _ = strconv.Atoi(f[5])
		if len(f) > 7 {
			k.ret = f[7]
		}
		o.calls = append(o.calls, k)
	}
}

// Judging.

func short(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func isFile(e *eExpect, p string) bool { _, ok := e.files[p]; return ok }

// output compares the instance with what it should be.
func output(e *eExpect, after map[string]string) string {
	var ps []string
	for p := range e.own {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		v, ok := after[p]
		switch {
		case !ok:
			return fmt.Sprintf("%q is missing", p)
		case e.dirs[p]:
			if v[0] != 'd' {
				return fmt.Sprintf("%q is not a directory", p)
			}
		default:
			b, ok := body(v)
			if !ok {
				return fmt.Sprintf("%q is not a file", p)
			}
			if !bytes.Equal(b, e.files[p]) {
				return fmt.Sprintf("%q holds %s instead of %s", p, short(b), short(e.files[p]))
			}
		}
	}
	return ""
}

// others finds effects outside of the instance.
func others(e *eExpect, before, after map[string]string, o *eOut) string {
	var ps []string
	for p := range before {
		ps = append(ps, p)
	}
	for p := range after {
		if _, ok := before[p]; !ok {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	for _, p := range ps {
		if e.own[p] {
			continue
		}
		b, inB := before[p]
		a, inA := after[p]
		switch {
		case !inB:
			return fmt.Sprintf("%q has been created and does not belong to the instance", p)
		case !inA:
			return fmt.Sprintf("%q has been removed", p)
		case a != b:
			return fmt.Sprintf("%q has been changed", p)
		}
	}
	if o != nil {
		for _, x := range o.esc {
			return "the generator tried: " + x
		}
		for _, c := range o.calls {
			if !c.wr {
				continue
			}
			for _, p := range []string{c.path, c.path2} {
				if p == "" || e.own[p] {
					continue
				}
				if c.op == "mkdir" {
					if v, ok := before[p]; ok && v[0] == 'd' {
						continue // asked for a directory which is there
					}
				}
				return fmt.Sprintf("the generator tried to change %q (%s), which does not belong to the instance", p, c.op)
			}
		}
	}
	return ""
}

func hard(fs []eFault) bool {
	for _, f := range fs {
		switch f.Kind {
		case "s", "d":
		case "e":
			if f.Arg != int(syscall.EINTR) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

type eStats struct {
	sync.Mutex
	Scen, Runs, Clean, Ok, Failed, Killed int
	Expected                              int // scenarios which have to be refused
	Calls                                 int
	Fired                                 map[string]int
	Losses                                map[string]int
	Seen                                  map[uint64]bool
	States                                map[uint64]bool
	Swept                                 int
	Foreign                               int
	Digest                                uint64
	Turns, Switches                       int
	Orders                                map[uint64]bool
	Samples                               []any
}

func (t *eStats) note(o *eOut, after map[string]string, digest *uint64) {
	h := fnv.New64a()
	for _, c := range o.calls {
		fmt.Fprintf(h, "%s %s %s %s %d\n", c.op, c.path, c.kind, c.ret, c.size)
	}
	fmt.Fprintf(h, "%d", o.code)
	g := fnv.New64a()
	var ps []string
	for p := range after {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		g.Write([]byte(p))
		g.Write([]byte{0})
		if !strings.HasPrefix(after[p], "l") {
			g.Write([]byte(after[p]))
		}
		g.Write([]byte{0})
	}
	t.Lock()
	defer t.Unlock()
	t.Runs++
	t.Calls += len(o.calls)
	switch {
	case o.code == 0:
		t.Ok++
	case o.code < 0:
		t.Killed++
	default:
		t.Failed++
	}
	for _, c := range o.calls {
		if c.kind == "-" {
			continue
		}
		k := map[string]string{"e": "error", "s": "short transfer", "d": "shuffled directory", "k": "kill before", "K": "kill after", "p": "kill within"}[c.kind]
		if c.kind == "e" {
			n, _ := strconv.Atoi(strings.TrimPrefix(c.ret, "!"))
			k = map[syscall.Errno]string{syscall.EINTR: "EINTR", syscall.EIO: "EIO", syscall.ENOSPC: "ENOSPC", syscall.EDQUOT: "EDQUOT", syscall.EMFILE: "EMFILE", syscall.ENOMEM: "ENOMEM", syscall.EACCES: "EACCES", syscall.EROFS: "EROFS", syscall.ESTALE: "ESTALE"}[syscall.Errno(n)]
		}
		t.Fired[c.op+": "+k]++
	}
	t.Seen[h.Sum64()] = true
	t.States[g.Sum64()] = true
	*digest = (*digest^h.Sum64())*0x100000001b3 ^ g.Sum64()
}

// exec runs a scenario; its last run is the undisturbed one for C16.
func (w *eRunner) exec(s *eScen, t *eStats, digest *uint64, trace *[]string, foreign *int) *viol {
	if len(s.Par) > 0 {
		return w.execPar(s, t, digest, trace)
	}
	e := s.expect(w.root)
	w.lay(s)
	var files []string
	var items []*eItem
	filesOf(s.Root, eWork, &files, &items)
	var found *viol
	hit := func(p, class, f string, a ...any) {
		if p == prop {
			if found == nil {
				found = &viol{Prop: p, Class: class, Msg: fmt.Sprintf(f, a...)}
			}
		} else if foreign != nil {
			*foreign++
		}
	}
	disturbed := false
	for i, rn := range s.Runs {
		var back []byte
		x := e
		if rn.Broken != "" {
			back, _ = os.ReadFile(w.root + "/" + rn.Broken)
			os.WriteFile(w.root+"/"+rn.Broken, []byte(string(back)+"{{if"), 0o644)
			x = &eExpect{err: "spoilt", files: e.files, dirs: e.dirs, own: e.own}
		}
		before := w.snap()
		o := w.run(s, rn.Faults)
		after := w.snap()
		if t != nil {
			t.note(o, after, digest)
		}
		if trace != nil {
			*trace = append(*trace, fmt.Sprintf("run %d: exit %d: %s", i+1, o.code, o.msg))
			for _, c := range o.calls {
				if c.kind != "-" || c.wr {
					*trace = append(*trace, fmt.Sprintf("  %d %s %s size %d fault %s result %s", c.idx, c.op, c.path, c.size, c.kind, c.ret))
				}
			}
		}
		last := i == len(s.Runs)-1 && len(rn.Faults) == 0 && rn.Broken == ""
		if o.hung {
			if !hard(rn.Faults) {
				hit("C14", "hang", "the generator does not end")
			}
			if last {
				hit("C16", "hang", "an undisturbed run does not end")
			}
			return found
		}
		what := "undisturbed run"
		if len(rn.Faults) > 0 {
			what = "run with faults"
		}
		switch {
		case o.code == 0 && x.err != "":
			hit("C14", "accepted", "a %s ended successfully, though %s", what, x.err)
		case o.code == 0:
			if m := output(e, after); m != "" {
				hit("C14", "wrong", "a %s ended successfully, but %s", what, m)
			}
		case x.err == "" && !hard(rn.Faults):
			hit("C14", "failed", "a %s without errors on the disk ended with %d: %s", what, o.code, o.msg)
		}
		if m := others(e, before, after, o); m != "" {
			hit("C15", "outside", "in a %s (exit %d) %s", what, o.code, m)
		}
		if last && e.err == "" && disturbed {
			if o.code != 0 {
				hit("C16", "rerun-failed", "a following undisturbed run ended with %d: %s", o.code, o.msg)
			} else {
				m := output(e, after)
				if m == "" {
					m = others(e, before, after, nil)
				}
				if m != "" {
					hit("C16", "rerun-wrong", "after a following undisturbed run %s", m)
				}
			}
		}
		if o.code != 0 {
			disturbed = true
		}
		if rn.Broken != "" {
			os.WriteFile(w.root+"/"+rn.Broken, back, 0o644)
		}
		for _, l := range rn.Loss {
			p := w.root + "/" + l.Path
			if o.code == 0 || !e.own[l.Path] {
				continue
			}
			b, err := os.ReadFile(p)
			switch {
			case l.Kind == "gone":
				os.RemoveAll(p)
			case err != nil:
				continue
			case l.Kind == "cut":
				n := l.Arg
				if n > len(b) {
					n = len(b)
				}
				os.WriteFile(p, b[:n], 0o644)
			case l.Kind == "zero":
				for j := l.Arg; j < len(b); j++ {
					b[j] = 0
				}
				os.WriteFile(p, b, 0o644)
			}
			if t != nil {
				t.Lock()
				t.Losses[l.Kind]++
				t.Unlock()
			}
			if trace != nil {
				*trace = append(*trace, fmt.Sprintf("  lost: %s %s %d", l.Path, l.Kind, l.Arg))
			}
		}
	}
	return found
}

var eErrs = []syscall.Errno{syscall.EIO, syscall.EIO, syscall.ENOSPC, syscall.ENOSPC, syscall.EDQUOT, syscall.EMFILE, syscall.ENOMEM, syscall.EACCES, syscall.EROFS, syscall.ESTALE}

// hardAt makes an error or a kill at a call.
func hardAt(r *rand.Rand, c *eCall, kills bool) eFault {
	f := eFault{At: c.idx}
	if kills && r.Intn(2) == 0 {
		f.Kind = []string{"k", "K"}[r.Intn(2)]
		if c.op == "write" && c.size > 0 && r.Intn(3) > 0 {
			f.Kind, f.Arg = "p", r.Intn(c.size+1)
		}
		return f
	}
	f.Kind, f.Arg = "e", int(eErrs[r.Intn(len(eErrs))])
	if c.op == "close" && c.wr {
		f.Arg = int([]syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}[r.Intn(3)])
		if r.Intn(4) > 0 {
			f.Arg2 = 1 + r.Intn(40)
		}
	}
	return f
}

func soft(r *rand.Rand, calls []eCall) []eFault {
	var fs []eFault
	dense := 1 + r.Intn(6)
	for _, c := range calls {
		if r.Intn(dense) != 0 {
			continue
		}
		f := eFault{At: c.idx}
		switch n := r.Intn(3); {
		case n == 0 && c.op != "close":
			f.Kind, f.Arg = "e", int(syscall.EINTR)
		case n == 1 && (c.op == "read" || c.op == "write" || c.op == "getdents") && c.size > 0:
			f.Kind, f.Arg = "s", 1+r.Intn(c.size)
			if r.Intn(2) == 0 {
				f.Arg = 1 + r.Intn(8)
			}
		case c.op == "getdents":
			f.Kind, f.Arg, f.Arg2 = "d", r.Intn(1<<30), r.Intn(2)
		default:
			continue
		}
		fs = append(fs, f)
	}
	// faults move later calls: spread more of them behind
	n := len(calls)
	for i := r.Intn(6); i > 0; i-- {
		fs = append(fs, eFault{At: n + r.Intn(n+1), Kind: "s", Arg: 1 + r.Intn(8)})
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].At < fs[j].At })
	return uniqFaults(fs)
}

func uniqFaults(fs []eFault) []eFault {
	var out []eFault
	for _, f := range fs {
		if len(out) > 0 && out[len(out)-1].At == f.At {
			continue
		}
		if len(out) < 250 {
			out = append(out, f)
		}
	}
	return out
}

func pickCall(r *rand.Rand, calls []eCall) *eCall {
	// prefer what is written, then directories, then anything
	for k := 0; k < 3; k++ {
		c := &calls[r.Intn(len(calls))]
		if c.wr && r.Intn(4) > 0 || c.op == "getdents" || k == 2 {
			return c
		}
	}
	return &calls[r.Intn(len(calls))]
}

func losses(r *rand.Rand, e *eExpect, pre []ePre) []eLoss {
	var ls []eLoss
	var ps []string
	for p := range e.own {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	old := map[string]bool{}
	for _, p := range pre {
		for q := p.Path; q != "."; q = filepath.Dir(q) {
			old[q] = true
		}
	}
	m := 1 + r.Intn(4)
	for _, p := range ps {
		if r.Intn(m) != 0 {
			continue
		}
		switch {
		case e.dirs[p]:
			if !old[p] && r.Intn(6) == 0 {
				ls = append(ls, eLoss{p, "gone", 0})
			}
		case !old[p] && r.Intn(3) == 0:
			ls = append(ls, eLoss{p, "gone", 0})
		case r.Intn(2) == 0:
			ls = append(ls, eLoss{p, "cut", r.Intn(len(e.files[p]) + 1)})
		default:
			ls = append(ls, eLoss{p, "zero", r.Intn(len(e.files[p]) + 1)})
		}
	}
	return ls
}

// onlyTouched keeps losses of files a run may have written.
func (w *eRunner) seedRuns(seed uint64, t *eStats, each func(*eScen, *viol) bool) {
	if prop == "C20" {
		w.seedPar(seed, t, each)
		return
	}
	s := genScen(seed, w.root)
	r := rand.New(rand.NewSource(mix(seed, 1<<32)))
	e := s.expect(w.root)
	var digest uint64
	foreign := 0
	defer func() {
		t.Lock()
		t.Digest = (t.Digest ^ digest) // independent of the order of seeds
		t.Scen++
		t.Foreign += foreign
		if e.err != "" {
			t.Expected++
		}
		t.Unlock()
	}()
	do := func(runs ...eRun) bool {
		c := *s
		c.Runs = runs
		v := w.exec(&c, t, &digest, nil, &foreign)
		t.Lock()
		if len(t.Samples) < 3 && len(runs[0].Faults) > 0 && len(runs[0].Faults) < 4 {
			var fs []string
			filesOf(s.Root, "", &fs, &[]*eItem{})
			t.Samples = append(t.Samples, map[string]any{"seed": seed, "template_files": fs, "runs": runs})
		}
		t.Unlock()
		return each(&c, v)
	}
	// where the calls are
	if !do(eRun{}) {
		return
	}
	w.lay(s)
	o := w.run(s, nil)
	calls := o.calls
	if len(calls) == 0 {
		return
	}
	plans := 14
	var files []string
	filesOf(s.Root, eWork, &files, &[]*eItem{})
	disturb := func(kills bool) []eFault {
		switch r.Intn(6) {
		case 0:
			// the disk stays full
			c := pickCall(r, calls)
			f := hardAt(r, c, false)
			f.Arg = int(syscall.ENOSPC)
			fs := []eFault{f}
			for _, d := range calls {
				if d.idx > c.idx && d.op == "write" {
					fs = append(fs, eFault{At: d.idx, Kind: "e", Arg: int(syscall.ENOSPC)})
				}
			}
			return uniqFaults(fs)
		case 1:
			// part of a write, then an error
			c := pickCall(r, calls)
			if c.op == "write" && c.size > 1 {
				return []eFault{{At: c.idx, Kind: "s", Arg: 1 + r.Intn(c.size-1)}, {At: c.idx + 1, Kind: "e", Arg: int(syscall.ENOSPC)}}
			}
			return []eFault{hardAt(r, c, kills)}
		case 2:
			fs := soft(r, calls)
			fs = append(fs, hardAt(r, pickCall(r, calls), kills))
			sort.SliceStable(fs, func(i, j int) bool { return fs[i].At < fs[j].At })
			return uniqFaults(fs)
		case 3:
			fs := []eFault{hardAt(r, pickCall(r, calls), false), hardAt(r, pickCall(r, calls), kills), hardAt(r, pickCall(r, calls), kills)}
			sort.SliceStable(fs, func(i, j int) bool { return fs[i].At < fs[j].At })
			return uniqFaults(fs)
		}
		return []eFault{hardAt(r, pickCall(r, calls), kills)}
	}
	switch prop {
	case "C14":
		for i := 0; i < plans; i++ {
			var fs []eFault
			if i%3 == 0 {
				fs = soft(r, calls)
			} else {
				fs = disturb(false)
			}
			if !do(eRun{Faults: fs}) {
				return
			}
		}
	case "C15":
		for i := 0; i < plans; i++ {
			if i%4 == 3 {
				if !do(eRun{Faults: disturb(true)}, eRun{Faults: disturb(true)}, eRun{}) {
					return
				}
			} else if !do(eRun{Faults: disturb(true)}) {
				return
			}
		}
	case "C16":
		if e.err != "" {
			return
		}
		for i := 0; i < plans/2; i++ {
			var runs []eRun
			for k := 1 + r.Intn(3); k > 0; k-- {
				if r.Intn(8) == 0 && len(files) > 0 {
					runs = append(runs, eRun{Broken: files[r.Intn(len(files))], Loss: losses(r, e, s.Pre)})
				} else {
					runs = append(runs, eRun{Faults: disturb(true), Loss: losses(r, e, s.Pre)})
				}
			}
			if !do(append(runs, eRun{})...) {
				return
			}
		}
	}
	// every place of every kind of fault in small scenarios
	if len(calls) > 60 || seed%8 != 0 {
		return
	}
	t.Lock()
	t.Swept++
	t.Unlock()
	for i := range calls {
		c := &calls[i]
		var fs []eFault
		add := func(kind string, a, b int) { fs = append(fs, eFault{c.idx, kind, a, b}) }
		add("e", int(syscall.EIO), 0)
		if c.op == "close" && c.wr {
			add("e", int(syscall.EIO), 1)
			add("e", int(syscall.ENOSPC), 4)
		}
		if c.wr {
			add("e", int(syscall.ENOSPC), 0)
		}
		if prop == "C14" {
			add("e", int(syscall.EINTR), 0)
			if c.op == "read" || c.op == "write" || c.op == "getdents" {
				add("s", 1, 0)
			}
		} else {
			add("k", 0, 0)
			add("K", 0, 0)
			if c.op == "write" {
				add("p", c.size/2, 0)
			}
		}
		for _, f := range fs {
			runs := []eRun{{Faults: []eFault{f}}}
			if prop == "C16" {
				runs = append(runs, eRun{})
			}
			if !do(runs...) {
				return
			}
		}
	}
}

func buildEtc() string {
	src := filepath.Join(work, "src")
	// a copy: the build may not touch the tree under test
	if out, err := run(work, env(), "sh", "-c", `mkdir -p src && cd "$1" && tar cf - --exclude=.git . | (cd "$2" && tar xf -)`, "sh", repo, src); err != nil {
		die("copy: %v %s", err, out)
	}
	root, err := run(src, env(), "go", "env", "GOROOT")
	if err != nil {
		die("%s", root)
	}
	root = strings.TrimSpace(root)
	file := filepath.Join(root, "src/syscall/syscall_linux.go")
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	sub := func(fn, args string) {
		i := bytes.Index(b, []byte("\nfunc "+fn+"("))
		if i < 0 {
			die("no %s in %s", fn, file)
		}
		j := i + bytes.Index(b[i:], []byte("{\n")) + 2
		b = []byte(string(b[:j]) + "\tif verifOn {\n\t\treturn verifSys(" + args + ")\n\t}\n" + string(b[j:]))
	}
	sub("Syscall", "trap, a1, a2, a3, 0, 0, 0")
	sub("Syscall6", "trap, a1, a2, a3, a4, a5, a6")
	patched := filepath.Join(work, "syscall_linux.go")
	if err := os.WriteFile(patched, b, 0o644); err != nil {
		die("%v", err)
	}
	ov := filepath.Join(work, "overlay.json")
	write(ov, map[string]any{"Replace": map[string]string{file: patched, filepath.Join(root, "src/syscall/zverif.go"): filepath.Join(verif, "sim/etcsys/hook.go")}})
	bin := filepath.Join(work, "etc")
	must(filepath.Join(src, "etc"), "go", "build", "-overlay", ov, "-ldflags=-checklinkname=0", "-o", bin, ".")
	return bin
}

// etcDisk gives the place of the scratch disks: in memory when there is room.
func etcDisk(bin string) string {
	disk := work
	if d, err := os.MkdirTemp("/dev/shm", "verif-etc-"); err == nil {
		var st syscall.Statfs_t
		if syscall.Statfs(d, &st) == nil && st.Bavail*uint64(st.Bsize) > 512<<20 {
			disk = d
		}
		shm = d
	}
	os.Chmod(disk, 0o755)
	if unpriv {
		c := exec.Command(bin, "-h")
		c.Dir = disk
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: etcUid, Gid: etcUid}}
		if err := c.Start(); err != nil {
			unpriv = false
		} else {
			c.Wait()
		}
	}
	return disk
}

func checkEtc(rp string) int {
	bin := buildEtc()
	loadRepo()
	note("built the generator of %s with its system calls behind the simulator's seam", repo)
	disk := etcDisk(bin)
	runner := func(k string) *eRunner {
		return &eRunner{bin: bin, root: filepath.Join(disk, "scratch"+k), log: filepath.Join(disk, "log"+k)}
	}
	if rp != "" {
		b, err := os.ReadFile(rp)
		if err != nil {
			die("%v", err)
		}
		var x eReplay
		if err := json.Unmarshal(b, &x); err != nil {
			die("%v", err)
		}
		var tr []string
		v := runner("r").exec(x.Scenario, nil, nil, &tr, nil)
		fmt.Println(strings.Join(tr, "\n"))
		if v == nil {
			fmt.Printf("property %s: the violation does not occur\n", prop)
			return 0
		}
		fmt.Printf("property %s violated (%s): %s\nVIOLATION property=%s replay=%s\n", prop, v.Class, v.Msg, prop, rp)
		return 1
	}
	newStats := func() *eStats {
		return &eStats{Fired: map[string]int{}, Losses: map[string]int{}, Orders: map[uint64]bool{}, Seen: map[uint64]bool{}, States: map[uint64]bool{}}
	}
	t := newStats()
	knowns := loadKnown()
	knownHit := map[string]int{}
	deadline := time.Now().Add(time.Duration(limit * float64(time.Second)))
	t0 := time.Now()
	next := seed << 36
	var mu sync.Mutex
	var bad *eScen
	var badV *viol
	var badSeed uint64
	var wg sync.WaitGroup
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := runner(strconv.Itoa(k))
			for {
				mu.Lock()
				if bad != nil || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				sd := next
				next++
				mu.Unlock()
				w.seedRuns(sd, t, func(c *eScen, v *viol) bool {
					mu.Lock()
					defer mu.Unlock()
					if v != nil {
						isKnown := false
						for _, kn := range knowns {
							if (kn.class == "" || kn.class == v.Class) && strings.Contains(v.Msg, kn.match) {
								isKnown = true
								knownHit[kn.what]++
							}
						}
						if !isKnown && bad == nil {
							bad, badV, badSeed = c, v, sd
						}
					}
					return bad == nil && time.Now().Before(deadline)
				})
			}
		}(k)
	}
	wg.Wait()
	wall := time.Since(t0).Seconds()
	det := ""
	if bad == nil {
		var dg [2]uint64
		for i := range dg {
			u := newStats()
			w := runner("d")
			for sd := seed << 36; sd < seed<<36+6; sd++ {
				w.seedRuns(sd, u, func(*eScen, *viol) bool { return true })
			}
			dg[i] = u.Digest
		}
		det = "6 seeds with all their runs twice: same calls, exits and files"
		if dg[0] != dg[1] {
			det = fmt.Sprintf("6 seeds run twice differ: %d %d", dg[0], dg[1])
		}
	}
	nv := 0
	path := ""
	if bad != nil {
		nv = 1
		path = filepath.Join(verif, ".build", "replays", fmt.Sprintf("%s-%d.json", prop, badSeed))
		w := runner("m")
		x := &eReplay{Property: prop, Violation: badV, Engine: "etc", Seed: badSeed, Scenario: bad}
		v := w.exec(bad, nil, nil, nil, nil)
		if v == nil || v.Class != badV.Class {
			x.Note = "seen once; the generator does not behave the same way when run again with the same faults"
			write(path, x)
			if badV.Class == "hang" {
				note("not reproduced: %s", badV.Msg)
				nv, bad = 0, nil
				os.Remove(path)
			}
		} else {
			x.Scenario, x.Violation = minimise(w, bad, v)
			var tr []string
			w.exec(x.Scenario, nil, nil, &tr, nil)
			x.Trace = tr
			write(path, x)
			badV = x.Violation
		}
	}
	evidenceEtc(t, nv, det, wall)
	for k, n := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d times)\n", prop, k, n)
	}
	if bad != nil {
		violation(path, fmt.Sprintf("%s (%s), seed %d", badV.Msg, badV.Class, badSeed))
		return 1
	}
	note("%s held in %d runs of the generator in %d scenarios (%.0f runs/s), %d different sequences of calls, %d different disks left behind", prop, t.Runs, t.Scen, float64(t.Runs)/wall, len(t.Seen), len(t.States))
	return 0
}

// minimise makes a failing scenario smaller as long as it fails the same way.
func minimise(w *eRunner, s *eScen, v *viol) (*eScen, *viol) {
	end := time.Now().Add(30 * time.Second)
	clone := func(s *eScen) *eScen {
		b, _ := json.Marshal(s)
		c := &eScen{}
		json.Unmarshal(b, c)
		return c
	}
	s = clone(s)
	if len(s.Par) > 0 {
		end = time.Now().Add(60 * time.Second)
	}
	over := func() bool { return time.Now().After(end) }
	try := func(c *eScen) bool {
		if over() || !c.sound(w.root) {
			return false
		}
		x := w.exec(c, nil, nil, nil, nil)
		if x == nil || x.Class != v.Class {
			return false
		}
		s, v = c, x
		return true
	}
	for again := true; again && time.Now().Before(end); {
		again = false
		for i := 0; i < len(s.Runs)-1; i++ {
			c := clone(s)
			c.Runs = append(c.Runs[:i], c.Runs[i+1:]...)
			if try(c) {
				again = true
				i--
			}
		}
		for i := range s.Runs {
			for n := len(s.Runs[i].Faults); n >= 1; n /= 2 {
				for j := 0; j+n <= len(s.Runs[i].Faults); {
					c := clone(s)
					f := c.Runs[i].Faults
					c.Runs[i].Faults = append(append([]eFault(nil), f[:j]...), f[j+n:]...)
					if try(c) {
						again = true
					} else {
						j += n
					}
				}
			}
			for j := 0; j < len(s.Runs[i].Loss); j++ {
				c := clone(s)
				l := c.Runs[i].Loss
				c.Runs[i].Loss = append(append([]eLoss(nil), l[:j]...), l[j+1:]...)
				if try(c) {
					again = true
					j--
				}
			}
		}
		again = minPar(&s, clone, try) || again
		if s.RO {
			c := clone(s)
			c.RO = false
			try(c)
		}
		if s.Pad > 0 {
			c := clone(s)
			c.Pad = 0
			try(c)
		}
		for n := len(s.Pre); n >= 1; n /= 2 {
			for i := 0; i+n <= len(s.Pre) && !over(); {
				c := clone(s)
				c.Pre = append(c.Pre[:i], c.Pre[i+n:]...)
				if try(c) {
					again = true
				} else {
					i += n
				}
			}
		}
		// items of the template; faults keep their distance from the end
		var paths [][]int
		var walk func(it *eItem, at []int)
		walk = func(it *eItem, at []int) {
			for i, k := range it.Kids {
				p := append(append([]int(nil), at...), i)
				paths = append(paths, p)
				walk(k, p)
			}
		}
		walk(s.Root, nil)
		// many at a time first
		if len(paths) > 16 {
			for at := range big(s.Root, nil) {
				for n := len(big(s.Root, nil)[at].Kids) / 2; n >= 2; n /= 2 {
					for i := 0; !over(); {
						b := big(s.Root, nil)
						if at >= len(b) || i+n > len(b[at].Kids) {
							break
						}
						c := clone(s)
						k := big(c.Root, nil)[at]
						k.Kids = append(k.Kids[:i], k.Kids[i+n:]...)
						if try(c) {
							again = true
						} else {
							i += n
						}
					}
					if at >= len(big(s.Root, nil)) {
						break
					}
				}
				if at >= len(big(s.Root, nil)) {
					break
				}
			}
			paths = nil
			walk(s.Root, nil)
		}
		hit := false
		for i := range s.Runs {
			hit = hit || len(s.Runs[i].Faults) > 0
		}
		for i := len(paths) - 1; i >= 0 && !over(); i-- {
			p := paths[i]
			drop := func(c *eScen) {
				it := c.Root
				for _, j := range p[:len(p)-1] {
					it = it.Kids[j]
				}
				j := p[len(p)-1]
				it.Kids = append(it.Kids[:j], it.Kids[j+1:]...)
			}
			c := clone(s)
			drop(c)
			if try(c) {
				again = true
				continue
			}
			if len(s.Par) > 0 || !hit {
				continue
			}
			// move the faults
			w.lay(s)
			n0 := len(w.run(s, nil).calls)
			c = clone(s)
			drop(c)
			w.lay(c)
			n1 := len(w.run(c, nil).calls)
			for _, d := range []int{n0 - n1, (n0 - n1) - 1, (n0 - n1) + 1, 1, 2, 3, 4, 5} {
				x := clone(c)
				neg := false
				for i := range x.Runs {
					for j := range x.Runs[i].Faults {
						x.Runs[i].Faults[j].At -= d
						neg = neg || x.Runs[i].Faults[j].At < 0
					}
				}
				if !neg && try(x) {
					again = true
					break
				}
			}
		}
		// contents
		var fs []string
		var at []*eItem
		filesOf(s.Root, "", &fs, &at)
		for i := range at {
			for _, b := range []string{"", "x", "text {{.}}\n"} {
				if len(at[i].Body) <= len(b) || over() {
					continue
				}
				c := clone(s)
				var fs2 []string
				var at2 []*eItem
				filesOf(c.Root, "", &fs2, &at2)
				if i >= len(at2) {
					break
				}
				at2[i].Body = []byte(b)
				if try(c) {
					again = true
					break
				}
			}
		}
	}
	return s, v
}

// big gives the directories with many entries.
func big(it *eItem, out []*eItem) []*eItem {
	if len(it.Kids) > 8 {
		out = append(out, it)
	}
	for _, k := range it.Kids {
		out = big(k, out)
	}
	return out
}

func evidenceEtc(t *eStats, nv int, det string, wall float64) {
	if t.Samples == nil {
		t.Samples = []any{}
	}
	rule := map[string]string{
		"C14": "one run of the real generator over a random template tree and data with one plan of faults; its exit and everything it left are compared with a reference rendering",
		"C15": "one run of the real generator with one plan of errors and kills; everything on the simulated disk and every call which changes something is compared with the names of the instance",
		"C16": "one run of the real generator within a history of disturbed runs and losses, ended by an undisturbed run whose exit and output are compared with a reference rendering",
		"C20": "one run of the real generator which takes turns with one to three others, a system call each; every run's exit and output, and the disk, are compared with the reference renderings of all runs",
	}[prop]
	cov := map[string]any{}
	if prop == "C20" {
		cov["turns_given"] = t.Turns
		cov["turns_which_went_to_another_run"] = t.Switches
		cov["distinct_interleavings"] = len(t.Orders)
	}
	write(filepath.Join(verif, "evidence", prop+".json"), map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": merge(cov, map[string]any{
			"evaluations":             t.Runs,
			"distinct_nontrivial":     len(t.Seen),
			"rule":                    "One evaluation is " + rule + ". Distinct: different hash of the sequence of system calls (call, path, fault, result, size) and exit code.",
			"samples":                 t.Samples,
			"scenarios":               t.Scen,
			"scenarios_to_be_refused": t.Expected,
			"scenarios_with_every_single_fault_at_every_call": t.Swept,
			"runs_ended_successfully":                         t.Ok,
			"runs_ended_with_an_error":                        t.Failed,
			"runs_killed":                                     t.Killed,
			"system_calls":                                    t.Calls,
			"faults_injected":                                 t.Fired,
			"losses_after_failed_runs":                        t.Losses,
			"distinct_disks_left_behind":                      len(t.States),
			"seeds_per_hour":                                  int(float64(t.Scen) / wall * 3600),
			"runs_per_hour":                                   int(float64(t.Runs) / wall * 3600),
			"first_seed":                                      seed << 36,
			"simulated_seconds":                               0,
			"simulated_time_note":                             "the generator uses no clock but to label its log",
			"hits_belonging_to_other_properties":              t.Foreign,
			"determinism":                                     det,
			"real_code":                                       "the whole of package etc and the libraries it uses, compiled from the working tree",
			"stubs":                                           "system calls on files pass through a layer in package syscall which injects the faults; loss of written data after a failed run is done by the simulator",
		}),
		"assumptions": []string{
			"the standard library's text/template defines what a template renders to",
			"data values do not make two items of the instance collide or place the instance inside the template",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": nv,
	})
}

func merge(a, b map[string]any) map[string]any {
	for k, v := range b {
		a[k] = v
	}
	return a
}
