// Command eng compiles generated projects with cssc under controlled schedules:
// the Resolver, the Reporter and (with fifos) the files are gates that the
// schedule opens.  It records what the environment of the engine sees.
package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/transforms"

	"verif/harness/pool"
)

type entry struct {
	F     int    `json:"f"`
	Spell string `json:"spell"` // how the path is spelled: "", rel, dot, dotdot
}

type project struct {
	Kind    []string `json:"kind"`
	Imp     [][]int  `json:"imp"`
	Entries []entry  `json:"entries"`
	Mode    string   `json:"mode"`
	Props   bool     `json:"props"`
	All     bool     `json:"all"`   // all transforms
	Calc    bool     `json:"calc"`  // some of the warnings are about calc()
	Spell   string   `json:"spell"` // how the resolver spells paths
	Tree    int      `json:"tree"`  // which tree of files it is in
	Names   string   `json:"names"` // how files are called
	Alike   bool     `json:"alike"` // the imports of a file that fail have the same specifier
}

type event struct {
	E string `json:"e"`
	K string `json:"k"`
	F int    `json:"f"`
	I int    `json:"i"`
}

type compile struct {
	P     int     `json:"p"` // project, from 1
	Hints []event `json:"hints"`
	Jump  bool    `json:"jump"` // let gates pass at once
}

type run struct {
	Fifo     bool      `json:"fifo"`
	Compiles []compile `json:"compiles"`
}

type testCase struct {
	ID       string    `json:"id"`
	Projects []project `json:"projects"`
	Runs     []run     `json:"runs"`
}

type trace struct {
	P      int               `json:"p"`
	Events []event           `json:"events"`
	Outs   map[string]string `json:"outs"`
	Errs   []string          `json:"errs"`
	Skips  int               `json:"skips"`
}

type runResult struct {
	Status string   `json:"status"`
	Detail string   `json:"detail,omitempty"`
	Traces []*trace `json:"traces"`
}

const progress = 10 * time.Second

// pathOf returns the path of a file, below the root. Paths can be alike, but are never equal.
func (p project) pathOf(f int) string {
	bits := func(zero, one string) string {
		var b strings.Builder
		for k := 3; k >= 0; k-- {
			if f>>k&1 == 1 {
				b.WriteString(one)
			} else {
				b.WriteString(zero)
			}
		}
		return b.String()
	}
	if f < 16 {
		switch p.Names {
		case "base":
			return fmt.Sprintf("d%d/f.css", f)
		case "case":
			return "d1/" + bits("f", "F") + ".css"
		case "accent":
			return "d1/" + bits("\u00e9", "e\u0301") + ".css"
		case "space":
			return "d1/" + bits(" ", "%20") + ".css"
		case "ext":
			return "d1/f" + strings.Repeat(".css", f)
		}
	}
	return fmt.Sprintf("d%d/f%d.css", f, f)
}

func (p project) dirOf(f int) string { return filepath.Dir(p.pathOf(f)) }

// fileIn returns the file that a text mentions, or 0.
func (p project) fileIn(root, text string) int {
	at, best := 0, 0
	for f := range p.Kind {
		if path := filepath.Join(root, p.pathOf(f+1)); len(path) > best && strings.Contains(text, path) {
			at, best = f+1, len(path)
		}
	}
	return at
}
func specOf(f, i int) string {
	return fmt.Sprintf("./f%d-i%d", f, i)
}

// none is the specifier of all imports of a file that fail, if they are alike.
func none(f int) string { return fmt.Sprintf("./f%d-none", f) }

func content(p project, f int, stale bool) string {
	mark := ""
	if stale {
		mark = "stale-"
	}
	switch p.Kind[f-1] {
	case "broken":
		return fmt.Sprintf(".%sf%d-0{a:b}@import \"%s\"", mark, f, specOf(f, 1))
	case "warn":
		mark += "w"
	}
	var b strings.Builder
	rule := func(k int) {
		v := fmt.Sprintf("v%d", f)
		if p.Kind[f-1] == "warn" && k == 0 {
			v = fmt.Sprintf("var(--undef-f%d)", f)
			if p.Calc && f%2 == 0 {
				v = "calc(1px * 2px)"
			}
		}
		fmt.Fprintf(&b, ".%sf%d-%d{a:%s}\n", strings.TrimSuffix(mark, "w"), f, k, v)
	}
	rule(0)
	for i, t := range p.Imp[f-1] {
		spec := specOf(f, i+1)
		if p.Alike && t == 0 {
			spec = none(f)
		}
		fmt.Fprintf(&b, "@import \"%s\";\n", spec)
		rule(i + 1)
	}
	return b.String()
}

type gate struct {
	ev      event
	release chan struct{}
}

// scheduler opens the gates of one compilation.
type scheduler struct {
	mu      sync.Mutex
	events  []event
	arrived []*gate
	changed chan struct{}
	closed  bool
	pass    bool
	skips   int
	moved   time.Time
}

func (s *scheduler) log(e event) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.closed {
		s.events = append(s.events, e)
		s.moved = time.Now()
	}
}

func (s *scheduler) wait(e event) {
	g := &gate{ev: e, release: make(chan struct{})}
	s.mu.Lock()
	if s.pass || s.closed {
		s.mu.Unlock()
		return
	}
	s.arrived = append(s.arrived, g)
	s.mu.Unlock()
	select {
	case s.changed <- struct{}{}:
	default:
	}
	<-g.release
}

// open opens the gate of an event, or the oldest one if e is nil.
func (s *scheduler) open(e *event) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, g := range s.arrived {
		if e == nil || g.ev.E == e.E && g.ev.F == e.F && g.ev.I == e.I {
			s.arrived = append(s.arrived[:i:i], s.arrived[i+1:]...)
			close(g.release)
			s.moved = time.Now()
			return true
		}
	}
	return false
}

// drive opens gates in the order of the hints as far as they arrive, then all others.
// It returns false if nothing happens any more.
func (s *scheduler) drive(hints []event, done chan struct{}) bool {
	pause := func(d time.Duration) bool {
		select {
		case <-done:
			return true
		case <-s.changed:
		case <-time.After(d):
		}
		return false
	}
	for _, h := range hints {
		h := h
		deadline := time.Now().Add(15 * time.Millisecond)
		for !s.open(&h) {
			if time.Now().After(deadline) {
				s.skips++
				break
			}
			if pause(time.Millisecond) {
				return true
			}
		}
	}
	for {
		select {
		case <-done:
			return true
		default:
		}
		// Let everything arrive before opening the oldest gate.
		if pause(2 * time.Millisecond) {
			return true
		}
		if s.open(nil) {
			continue
		}
		s.mu.Lock()
		stuck := time.Since(s.moved) > progress
		s.mu.Unlock()
		if stuck {
			return false
		}
	}
}

func (s *scheduler) close() []event {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closed = true
	for _, g := range s.arrived {
		close(g.release)
	}
	s.arrived = nil
	return s.events
}

func spell(root, rel, how string) string {
	switch how {
	case "dot":
		return root + "/./" + rel
	case "dotdot":
		return root + "/d1/../" + rel
	case "slashes":
		return root + "//" + strings.ReplaceAll(rel, "/", "//")
	case "rel":
		if cwd, err := os.Getwd(); err == nil {
			if r, err := filepath.Rel(cwd, filepath.Join(root, rel)); err == nil {
				return r
			}
		}
	}
	return filepath.Join(root, rel)
}

var importRE = regexp.MustCompile(`^\./f(\d+)-(?:i(\d+)|none)$`)

// alike tells apart imports that have the same specifier, which fail.
type alike struct {
	mu       sync.Mutex
	started  map[[2]int]bool
	ended    map[[2]int]bool
	reported map[[2]int]bool
}

func newAlike() *alike {
	return &alike{started: map[[2]int]bool{}, ended: map[[2]int]bool{}, reported: map[[2]int]bool{}}
}

// start returns an import of the file that fails and has not been started.
func (a *alike) start(p project, f int) int {
	a.mu.Lock()
	defer a.mu.Unlock()
	last := 0
	for i, t := range p.Imp[f-1] {
		if t == 0 {
			last = i + 1
			if !a.started[[2]int{f, i + 1}] {
				break
			}
		}
	}
	a.started[[2]int{f, last}] = true
	return last
}

func (a *alike) end(f, i int) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.ended[[2]int{f, i}] = true
}

// report returns the import that a failure is of, and whether or not it was resolved. Any of
// those that have not been reported will do, preferably one that has been resolved.
func (a *alike) report(p project, f, i int) (int, bool) {
	a.mu.Lock()
	defer a.mu.Unlock()
	at := 0
	for k, t := range p.Imp[f-1] {
		x := [2]int{f, k + 1}
		if t == 0 && !a.reported[x] && (at == 0 || a.ended[x] && !a.ended[[2]int{f, at}]) {
			at = k + 1
		}
	}
	if at == 0 {
		return i, true
	}
	a.reported[[2]int{f, at}] = true
	return at, a.ended[[2]int{f, at}]
}

type resolver struct {
	p     project
	root  string
	s     *scheduler
	alike *alike
}

func (r *resolver) Resolve(spec, fromDir string) (string, error) {
	m := importRE.FindStringSubmatch(spec)
	f, i := 0, 0
	if m != nil {
		f, _ = strconv.Atoi(m[1])
		i, _ = strconv.Atoi(m[2])
		if m[2] == "" && r.p.Alike && f >= 1 && f <= len(r.p.Imp) {
			i = r.alike.start(r.p, f)
		}
	}
	if f < 1 || f > len(r.p.Imp) || i < 1 || i > len(r.p.Imp[f-1]) || filepath.Clean(fromDir) != filepath.Join(r.root, r.p.dirOf(f)) {
		r.s.log(event{E: "rstart", K: fmt.Sprintf("%s from %s", spec, fromDir)})
		return "", fmt.Errorf("RESOLVE-UNKNOWN %s", spec)
	}
	r.s.log(event{E: "rstart", F: f, I: i})
	r.s.wait(event{E: "rend", F: f, I: i})
	r.s.log(event{E: "rend", F: f, I: i})
	r.alike.end(f, i)
	t := r.p.Imp[f-1][i-1]
	if t == 0 {
		return "", fmt.Errorf("RESOLVE-FAIL f%d-i%d", f, i)
	}
	return spell(r.root, r.p.pathOf(t), r.p.Spell), nil
}

var (
	resolveRE = regexp.MustCompile(`RESOLVE-FAIL f(\d+)-i(\d+)`)
	undefRE   = regexp.MustCompile(`--undef-f(\d+)`)
)

type reporter struct {
	p     project
	root  string
	s     *scheduler
	calls int // not synchronized: the engine has to
	errs  []string
	alike *alike
}

func (r *reporter) AddError(err error) {
	text := "nil"
	if err != nil {
		text = err.Error()
	}
	r.calls++
	e := event{E: "enter", K: "unknown"}
	if m := resolveRE.FindStringSubmatch(text); m != nil {
		e.K = "unresolved"
		e.F, _ = strconv.Atoi(m[1])
		e.I, _ = strconv.Atoi(m[2])
		if r.p.Alike && e.F >= 1 && e.F <= len(r.p.Imp) {
			var resolved bool
			if e.I, resolved = r.alike.report(r.p, e.F, e.I); !resolved {
				// The engine knows from another one.
				r.s.log(event{E: "rstart", F: e.F, I: e.I})
				r.s.log(event{E: "rend", F: e.F, I: e.I})
			}
		}
	} else if m := undefRE.FindStringSubmatch(text); m != nil {
		e.K = "warning"
		e.F, _ = strconv.Atoi(m[1])
	} else if f := r.p.fileIn(r.root, text); f != 0 {
		e.F = f
		e.K = map[string]string{"missing": "unreadable", "broken": "broken", "warn": "warning"}[r.p.Kind[e.F-1]]
		if e.K == "" {
			e.K = "unknown"
		}
	}
	if e.K == "unknown" {
		e.F = 0
	}
	r.s.log(e)
	r.s.wait(event{E: "exit"})
	line := strings.ReplaceAll(strings.SplitN(text, "\n    ", 2)[0], r.root, "$R")
	if e.K == "unreadable" || e.K == "unresolved" {
		line = e.K // The rest of the text is a stack trace.
	}
	r.errs = append(r.errs, fmt.Sprintf("%s %d %d %s", e.K, e.F, e.I, line))
	r.s.log(event{E: "exit"})
}

// feed hands out the content of a fifo, whenever somebody opens it.
func feed(root string, p project, f int, s *scheduler, stop chan struct{}, done *sync.WaitGroup) {
	defer done.Done()
	path := filepath.Join(root, p.pathOf(f))
	for n := 0; ; n++ {
		var fd int
		for {
			var err error
			fd, err = syscall.Open(path, syscall.O_WRONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
			if err == nil {
				break
			}
			select {
			case <-stop:
				return
			case <-time.After(100 * time.Microsecond):
			}
		}
		s.log(event{E: "read", F: f})
		s.wait(event{E: "content", F: f})
		s.log(event{E: "content", F: f})
		// The next one who opens it gets another fifo, and other content.
		if target, err := os.Readlink(path); err == nil {
			path = target
		}
		next := path + ".next"
		syscall.Mkfifo(next, 0o644)
		os.Rename(next, path)
		syscall.SetNonblock(fd, false)
		out := os.NewFile(uintptr(fd), path)
		out.WriteString(content(p, f, n > 0))
		out.Close()
		select {
		case <-stop:
			return
		default:
		}
	}
}

func writeProject(root string, p project, fifo bool) error {
	if err := os.MkdirAll(filepath.Join(root, "d1"), 0o755); err != nil {
		return err
	}
	for f := range p.Kind {
		f := f + 1
		path := filepath.Join(root, p.pathOf(f))
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			return err
		}
		if p.Names == "link" {
			// The path is a link to the file, which is elsewhere.
			if err := os.MkdirAll(filepath.Join(root, "real"), 0o755); err != nil {
				return err
			}
			target := filepath.Join(root, "real", fmt.Sprint(f))
			if err := os.Symlink(target, path); err != nil {
				return err
			}
			path = target
		}
		switch {
		case p.Kind[f-1] == "missing":
			if f%2 == 0 { // A directory cannot be read either.
				if err := os.MkdirAll(path, 0o755); err != nil {
					return err
				}
			}
		case fifo:
			if err := syscall.Mkfifo(path, 0o644); err != nil {
				return err
			}
		default:
			if err := os.WriteFile(path, []byte(content(p, f, false)), 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

func doRun(c testCase, r run, scratch string) (*runResult, error) {
	base := filepath.Join(scratch, "run")
	if err := os.MkdirAll(base, 0o755); err != nil {
		return nil, err
	}
	defer os.RemoveAll(base)
	if err := os.Chdir(base); err != nil {
		return nil, err
	}
	written := map[int]bool{}
	roots := make([]string, len(c.Projects))
	for i, p := range c.Projects {
		roots[i] = filepath.Join(base, fmt.Sprint("t", p.Tree))
		if !written[p.Tree] {
			written[p.Tree] = true
			if err := writeProject(roots[i], p, r.Fifo); err != nil {
				return nil, err
			}
		}
	}

	res := &runResult{Status: "ok"}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, comp := range r.Compiles {
		comp := comp
		p, root := c.Projects[comp.P-1], roots[comp.P-1]
		s := &scheduler{changed: make(chan struct{}, 1), pass: comp.Jump, moved: time.Now()}
		same := newAlike()
		rep := &reporter{p: p, root: root, s: s, alike: same}
		o := cssc.Options{Reporter: rep, Resolver: &resolver{p, root, s, same}}
		for _, e := range p.Entries {
			o.Entry = append(o.Entry, spell(root, p.pathOf(e.F), e.Spell))
		}
		switch p.Mode {
		case "follow":
			o.Transforms.ImportRules = transforms.ImportRulesFollow
		case "inline":
			o.Transforms.ImportRules = transforms.ImportRulesInline
		}
		if p.Props || p.All {
			o.Transforms.CustomProperties = transforms.CustomPropertiesTransformRoot
		}
		if p.All {
			o.Transforms.MediaFeatureRanges = transforms.MediaFeatureRangesTransform
			o.Transforms.AnyLink = transforms.AnyLinkTransform
			o.Transforms.CustomMediaQueries = transforms.CustomMediaQueriesTransform
			o.Transforms.CalcReduction = transforms.CalcReductionReduce
		}
		tr := &trace{P: comp.P, Outs: map[string]string{}}
		res.Traces = append(res.Traces, tr)
		wg.Add(1)
		go func() {
			defer wg.Done()
			stop := make(chan struct{})
			var feeders sync.WaitGroup
			if r.Fifo {
				for f := range p.Kind {
					if p.Kind[f] != "missing" {
						feeders.Add(1)
						go feed(root, p, f+1, s, stop, &feeders)
					}
				}
			}
			done := make(chan struct{})
			var result *cssc.Result
			go func() {
				result = cssc.Compile(o)
				s.log(event{E: "return"})
				close(done)
			}()
			ok := s.drive(comp.Hints, done)
			if ok {
				// Late calls of the reporter or the resolver.
				time.Sleep(time.Millisecond)
			}
			tr.Events = s.close()
			tr.Skips = s.skips
			close(stop)
			if !ok {
				mu.Lock()
				res.Status = "hang"
				mu.Unlock()
				return
			}
			feeders.Wait()
			for path, text := range result.Files {
				rel, err := filepath.Rel(root, path)
				if err != nil || !filepath.IsAbs(path) || filepath.Clean(path) != path {
					rel = "!" + path
				}
				for f := range p.Kind {
					if rel == p.pathOf(f+1) {
						rel = fmt.Sprintf("%d", f+1)
					}
				}
				tr.Outs[rel] = base64.StdEncoding.EncodeToString([]byte(text))
			}
			tr.Errs = rep.errs
		}()
	}
	wg.Wait()
	return res, nil
}

func main() {
	pool.Main(0, func(line []byte, scratch string, emit func(interface{})) error {
		var c testCase
		if err := json.Unmarshal(line, &c); err != nil {
			return err
		}
		for _, r := range c.Runs {
			res, err := doRun(c, r, scratch)
			if err != nil {
				return err
			}
			emit(res)
			if res.Status == "hang" {
				os.Exit(0)
			}
		}
		return nil
	})
}
