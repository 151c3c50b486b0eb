// Command esb runs the esbuild plugin of cssc on batches of cases, one JSON
// object per line: either its load callback directly, under a schedule, or
// whole esbuild builds. What the plugin hands to esbuild is put next to what
// cssc.Compile returns for the same file.
package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/evanw/esbuild/pkg/api"
	"github.com/stephen/cssc"
	"github.com/stephen/cssc/esbuildplugin"
	"github.com/stephen/cssc/transforms"

	"verif/harness/pool"
)

type opts struct {
	Ranges  bool `json:"ranges"`
	AnyLink bool `json:"anylink"`
	Props   bool `json:"props"`
	Media   bool `json:"media"`
	Calc    bool `json:"calc"`
}

// step is something a schedule waits for: load L begins, its import K is
// resolved (K > 0), or it is over (K < 0).
type step struct {
	L int `json:"l"`
	K int `json:"k"`
}

type run struct {
	Kind  string `json:"kind"` // load, build
	O     opts   `json:"o"`
	Mode  string `json:"mode"`
	Plain bool   `json:"plain"` // no plugin options at all
	// Names are specifiers that a resolver given to the plugin knows ("" for one it does
	// not). Without any, the default resolver is used.
	Names map[string]string `json:"names"`
	Loads []string          `json:"loads"`
	// Spelling is how the paths of loads are spelled: "" (as esbuild does) or "odd".
	Spelling string `json:"spelling"`
	Schedule []step `json:"schedule"`
	// Edits are made one after the other after the loads, which are repeated after each of them: files
	// and their new contents (in base64; null when a file goes away).
	Edits []map[string]*string `json:"edits"`
}

type testCase struct {
	ID    string            `json:"id"`
	Files map[string]string `json:"files"`
	Runs  []run             `json:"runs"`
}

type message struct {
	Text     string `json:"text"`
	Located  bool   `json:"located"`
	File     string `json:"file"`
	Line     int    `json:"line"`
	Column   int    `json:"column"`
	LineText string `json:"lineText"`
	Length   int    `json:"length"`
	LineSize int    `json:"lineSize"`
}

type loadResult struct {
	Skipped  bool      `json:"skipped"` // the filter does not match
	Panic    string    `json:"panic"`
	Err      string    `json:"err"`
	Has      bool      `json:"has"`
	Contents string    `json:"contents"` // base64
	CSS      bool      `json:"css"`
	Messages []message `json:"messages"`
	Failed   bool      `json:"failed"`
}

type reference struct {
	Has  bool     `json:"has"`
	Out  string   `json:"out"`
	Errs []string `json:"errs"`
}

type result struct {
	Status string                `json:"status"`
	Detail string                `json:"detail,omitempty"`
	Loads  []*loadResult         `json:"loads"`
	Refs   map[string]*reference `json:"refs"`
	// Again has the loads after each edit.
	Again []*result `json:"again,omitempty"`
	// Of builds:
	Built  map[string]string `json:"built"`
	Direct map[string]string `json:"direct"`
	Errs   []message         `json:"errs"`
	// DirectErrs are the errors of the build without the plugin.
	DirectErrs []message `json:"directErrs"`
}

type collector struct {
	mu   sync.Mutex
	errs []string
}

func (c *collector) AddError(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.errs = append(c.errs, err.Error())
}

// gates is a resolver that answers when it is told to.
type gates struct {
	root  string
	names map[string]string

	mu      sync.Mutex
	open    bool
	arrived map[step]chan struct{}
	allowed map[step]chan struct{}
}

func (g *gates) at(m map[step]chan struct{}, s step) chan struct{} {
	g.mu.Lock()
	defer g.mu.Unlock()
	if m[s] == nil {
		m[s] = make(chan struct{})
	}
	return m[s]
}

func (g *gates) Resolve(spec, fromDir string) (string, error) {
	var s step
	if _, err := fmt.Sscanf(spec, "gate:%d:%d:", &s.L, &s.K); err == nil && !g.isOpen() {
		arrived := g.at(g.arrived, s)
		g.mu.Lock()
		select {
		case <-arrived:
		default:
			close(arrived)
		}
		g.mu.Unlock()
		select {
		case <-g.at(g.allowed, s):
		case <-time.After(8 * time.Second):
		}
	}
	target := g.names[spec]
	if target == "" {
		return "", fmt.Errorf("nothing is called %s", spec)
	}
	return filepath.Join(g.root, target), nil
}

func (g *gates) isOpen() bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.open
}

func options(r run) transforms.Options {
	var o transforms.Options
	switch r.Mode {
	case "follow":
		o.ImportRules = transforms.ImportRulesFollow
	case "inline":
		o.ImportRules = transforms.ImportRulesInline
	}
	if r.O.Ranges {
		o.MediaFeatureRanges = transforms.MediaFeatureRangesTransform
	}
	if r.O.AnyLink {
		o.AnyLink = transforms.AnyLinkTransform
	}
	if r.O.Props {
		o.CustomProperties = transforms.CustomPropertiesTransformRoot
	}
	if r.O.Media {
		o.CustomMediaQueries = transforms.CustomMediaQueriesTransform
	}
	if r.O.Calc {
		o.CalcReduction = transforms.CalcReductionReduce
	}
	return o
}

// build stands in for esbuild while the plugin sets itself up.
type build struct {
	filters   []api.OnLoadOptions
	callbacks []func(api.OnLoadArgs) (api.OnLoadResult, error)
}

func (b *build) OnResolve(api.OnResolveOptions, func(api.OnResolveArgs) (api.OnResolveResult, error)) {
}

func (b *build) OnLoad(o api.OnLoadOptions, f func(api.OnLoadArgs) (api.OnLoadResult, error)) {
	b.filters = append(b.filters, o)
	b.callbacks = append(b.callbacks, f)
}

func messages(root string, lists ...[]api.Message) []message {
	out := []message{}
	for _, ms := range lists {
		for _, m := range ms {
			x := message{Text: strings.ReplaceAll(m.Text, root, "$R")}
			if l := m.Location; l != nil {
				x.Located, x.File, x.Line, x.Column, x.LineText, x.Length, x.LineSize = true, strings.ReplaceAll(l.File, root, "$R"), l.Line, l.Column, l.LineText, l.Length, len(l.LineText)
			}
			out = append(out, x)
		}
	}
	return out
}

func (b *build) load(root, path string) (res *loadResult) {
	res = &loadResult{Messages: []message{}}
	defer func() {
		if p := recover(); p != nil {
			res.Panic = fmt.Sprint(p)
		}
	}()
	for i, f := range b.filters {
		if (f.Namespace != "" && f.Namespace != "file") || !regexp.MustCompile(f.Filter).MatchString(path) {
			continue
		}
		got, err := b.callbacks[i](api.OnLoadArgs{Path: path, Namespace: "file"})
		res.Messages = messages(root, got.Errors, got.Warnings)
		res.Failed = err != nil || len(got.Errors) > 0
		if err != nil {
			// esbuild drops everything else.
			res.Err = err.Error()
			res.Messages = []message{{Text: strings.ReplaceAll(res.Err, root, "$R")}}
			got = api.OnLoadResult{}
		}
		if got.Contents != nil {
			res.Has = true
			res.Contents = base64.StdEncoding.EncodeToString([]byte(*got.Contents))
		}
		res.CSS = got.Loader == api.LoaderCSS
		if err != nil || got.Contents != nil || len(got.Errors) > 0 {
			return res
		}
	}
	// esbuild reads the file itself.
	res.Skipped = true
	return res
}

// spelled returns a path of a file. Paths from the OnResolve of other plugins can be any.
func spelled(r run, root, name string, i int) string {
	path := filepath.Join(root, name)
	if r.Spelling == "" {
		return path
	}
	switch i % 4 {
	case 0:
		return root + "/./" + name
	case 1:
		return root + "/none/../" + name
	case 2:
		if wd, err := os.Getwd(); err == nil {
			if rel, err := filepath.Rel(wd, path); err == nil {
				return rel
			}
		}
	}
	return root + "//" + name
}

func doRun(r run, root string) (res *result) {
	res = &result{Status: "ok", Refs: map[string]*reference{}}
	defer func() {
		if p := recover(); p != nil {
			res.Status, res.Detail = "panic", fmt.Sprint(p)
		}
	}()
	g := &gates{root: root, names: r.Names, arrived: map[step]chan struct{}{}, allowed: map[step]chan struct{}{}}
	var popts []esbuildplugin.Option
	if !r.Plain {
		popts = append(popts, esbuildplugin.WithTransforms(options(r)))
	}
	if len(r.Names) > 0 {
		popts = append(popts, esbuildplugin.WithResolver(g))
	}
	plugin := esbuildplugin.Plugin(popts...)

	// What Compile returns, one file after the other.
	ref := func(name string) *reference {
		path := filepath.Join(root, name)
		rep := &collector{}
		o := cssc.Options{Entry: []string{path}, Reporter: rep}
		if !r.Plain {
			o.Transforms = options(r)
		}
		if len(r.Names) > 0 {
			o.Resolver = &gates{root: root, names: r.Names, open: true}
		}
		got := cssc.Compile(o)
		out, ok := got.Files[path]
		x := &reference{Has: ok, Out: base64.StdEncoding.EncodeToString([]byte(out)), Errs: []string{}}
		for _, e := range rep.errs {
			x.Errs = append(x.Errs, strings.ReplaceAll(e, root, "$R"))
		}
		return x
	}
	refs := func(res *result) {
		for _, l := range r.Loads {
			if strings.HasSuffix(l, ".css") && res.Refs[l] == nil {
				res.Refs[l] = ref(l)
			}
		}
	}
	refs(res)

	if r.Kind == "build" {
		doBuild(r, root, plugin, ref, res)
		return res
	}

	b := &build{}
	plugin.Setup(b)
	res.Loads = make([]*loadResult, len(r.Loads))
	started := make([]chan struct{}, len(r.Loads))
	over := make([]chan struct{}, len(r.Loads))
	begun := make([]bool, len(r.Loads))
	for i := range r.Loads {
		started[i], over[i] = make(chan struct{}), make(chan struct{})
		go func(i int) {
			defer close(over[i])
			<-started[i]
			res.Loads[i] = b.load(root, spelled(r, root, r.Loads[i], i))
		}(i)
	}
	begin := func(i int) {
		if !begun[i] {
			begun[i] = true
			close(started[i])
		}
	}
	wait := func(c, over chan struct{}) {
		select {
		case <-c:
		case <-over:
		case <-time.After(time.Second):
		}
	}
	for _, s := range r.Schedule {
		i := s.L - 1
		switch {
		case s.K == 0:
			begin(i)
		case s.K < 0:
			wait(over[i], over[i])
		default:
			wait(g.at(g.arrived, s), over[i])
			close(g.at(g.allowed, s))
		}
	}
	for i := range r.Loads {
		begin(i)
	}
	for i := range r.Loads {
		<-over[i]
	}
	for k, edit := range r.Edits {
		if err := write(root, edit); err != nil {
			panic(err)
		}
		if k%2 == 1 {
			// Another build with the same plugin.
			b = &build{}
			plugin.Setup(b)
		}
		again := &result{Status: "ok", Refs: map[string]*reference{}, Loads: make([]*loadResult, len(r.Loads))}
		refs(again)
		var wg sync.WaitGroup
		for i := range r.Loads {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				again.Loads[i] = b.load(root, spelled(r, root, r.Loads[i], i))
			}(i)
		}
		wg.Wait()
		res.Again = append(res.Again, again)
	}
	return res
}

// write changes files.
func write(root string, files map[string]*string) error {
	for name, b64 := range files {
		p := filepath.Join(root, name)
		if b64 == nil {
			if err := os.Remove(p); err != nil && !os.IsNotExist(err) {
				return err
			}
			continue
		}
		data, err := base64.StdEncoding.DecodeString(*b64)
		if err != nil {
			return err
		}
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, data, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// doBuild has esbuild build the files with the plugin, and then builds what
// Compile makes of the files without it.
func doBuild(r run, root string, plugin api.Plugin, ref func(string) *reference, res *result) {
	var entries []string
	for _, l := range r.Loads {
		entries = append(entries, filepath.Join(root, l))
	}
	o := api.BuildOptions{EntryPoints: entries, Bundle: true, Outdir: filepath.Join(root, "out"), LogLevel: api.LogLevelSilent}
	outs := func(got api.BuildResult) map[string]string {
		m := map[string]string{}
		for _, f := range got.OutputFiles {
			rel, _ := filepath.Rel(root, f.Path)
			m[rel] = base64.StdEncoding.EncodeToString(f.Contents)
		}
		return m
	}
	with := o
	with.Plugins = []api.Plugin{plugin}
	got := api.Build(with)
	res.Built = outs(got)
	res.Errs = messages(root, got.Errors)
	var paths []string
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && strings.HasSuffix(p, ".css") {
			rel, _ := filepath.Rel(root, p)
			paths = append(paths, rel)
		}
		return nil
	})
	sort.Strings(paths)
	compiled := map[string]string{}
	for _, p := range paths {
		x := res.Refs[p]
		if x == nil {
			x = ref(p)
			res.Refs[p] = x
		}
		text, _ := base64.StdEncoding.DecodeString(x.Out)
		compiled[p] = string(text)
	}
	for _, p := range paths {
		if err := os.WriteFile(filepath.Join(root, p), []byte(compiled[p]), 0o644); err != nil {
			panic(err)
		}
	}
	without := api.Build(o)
	res.Direct = outs(without)
	res.DirectErrs = messages(root, without.Errors)
}

func runCase(c testCase, scratch string, emit func(*result)) error {
	for _, r := range c.Runs {
		root := filepath.Join(scratch, "case")
		if err := os.MkdirAll(root, 0o755); err != nil {
			return err
		}
		files := map[string]*string{}
		for name, b64 := range c.Files {
			b64 := b64
			files[name] = &b64
		}
		if err := write(root, files); err != nil {
			return err
		}
		emit(doRun(r, root))
		if err := os.RemoveAll(root); err != nil {
			return err
		}
	}
	return nil
}

func main() {
	pool.Main(8<<30, func(line []byte, scratch string, emit func(interface{})) error {
		var c testCase
		if err := json.Unmarshal(line, &c); err != nil {
			return err
		}
		return runCase(c, scratch, func(r *result) { emit(r) })
	})
}
