// Command def compiles batches of cases twice: with everything that can be left
// out of the options left out, and with the documented defaults spelled out. What
// a compilation prints goes to files that stand in for the standard streams.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/resolver"
	"github.com/stephen/cssc/transforms"
)

type opts struct {
	Ranges  bool `json:"ranges"`
	AnyLink bool `json:"anylink"`
	Props   bool `json:"props"`
	Media   bool `json:"media"`
	Calc    bool `json:"calc"`
}

type testCase struct {
	ID    string            `json:"id"`
	Files map[string]string `json:"files"`
	Entry []string          `json:"entry"`
	O     opts              `json:"o"`
	Mode  string            `json:"mode"`
	// What is left out: reporter, resolver.
	NoReporter bool `json:"noReporter"`
	NoResolver bool `json:"noResolver"`
	// Gone is whether the working directory does not exist any more, and entries are relative.
	Gone bool `json:"gone"`
	// Times is how many of the compilation there are at the same time.
	Times int `json:"times"`
}

type outcome struct {
	Panic  string            `json:"panic"`
	Files  map[string]string `json:"files"`  // base64
	Errs   []string          `json:"errs"`   // base64, those a reporter got
	Stderr string            `json:"stderr"` // base64
	Stdout string            `json:"stdout"`
}

type collector struct{ errs []string }

func (c *collector) AddError(err error) { c.errs = append(c.errs, err.Error()) }

// shared is a collector for several compilations.
type shared struct {
	mu sync.Mutex
	collector
}

func (c *shared) AddError(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.collector.AddError(err)
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

func options(c testCase) transforms.Options {
	var o transforms.Options
	switch c.Mode {
	case "follow":
		o.ImportRules = transforms.ImportRulesFollow
	case "inline":
		o.ImportRules = transforms.ImportRulesInline
	}
	if c.O.Ranges {
		o.MediaFeatureRanges = transforms.MediaFeatureRangesTransform
	}
	if c.O.AnyLink {
		o.AnyLink = transforms.AnyLinkTransform
	}
	if c.O.Props {
		o.CustomProperties = transforms.CustomPropertiesTransformRoot
	}
	if c.O.Media {
		o.CustomMediaQueries = transforms.CustomMediaQueriesTransform
	}
	if c.O.Calc {
		o.CalcReduction = transforms.CalcReductionReduce
	}
	return o
}

// spelled is the options with all defaults as they are documented.
func spelled(o transforms.Options) transforms.Options {
	if o.ImportRules == 0 {
		o.ImportRules = transforms.ImportRulesPassthrough
	}
	if o.MediaFeatureRanges == 0 {
		o.MediaFeatureRanges = transforms.MediaFeatureRangesPassthrough
	}
	if o.AnyLink == 0 {
		o.AnyLink = transforms.AnyLinkPassthrough
	}
	if o.CustomProperties == 0 {
		o.CustomProperties = transforms.CustomPropertiesPassthrough
	}
	if o.CustomMediaQueries == 0 {
		o.CustomMediaQueries = transforms.CustomMediaQueriesPassthrough
	}
	if o.CalcReduction == 0 {
		o.CalcReduction = transforms.CalcReductionPassthrough
	}
	return o
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(answers, err)
		panic(err)
	}
}

// answers is the standard output of this program.
var answers *os.File

// compile has a compilation write to files in the place of the standard streams.
func compile(root, scratch string, o cssc.Options, c *shared, times int) (res outcome) {
	var saved [2]int
	var files [2]*os.File
	for i := range saved {
		fd, err := syscall.Dup(i + 1)
		check(err)
		saved[i] = fd
		files[i], err = os.Create(filepath.Join(scratch, fmt.Sprintf("stream%d", i+1)))
		check(err)
		check(syscall.Dup3(int(files[i].Fd()), i+1, 0))
	}
	defer func() {
		if p := recover(); p != nil {
			res.Panic = fmt.Sprint(p)
		}
		for i := range saved {
			check(syscall.Dup3(saved[i], i+1, 0))
			check(syscall.Close(saved[i]))
			files[i].Close()
			text, err := os.ReadFile(files[i].Name())
			check(err)
			if i == 0 {
				res.Stdout = b64(string(text))
			} else {
				res.Stderr = b64(strings.ReplaceAll(string(text), root, "$R"))
			}
		}
		res.Errs = []string{}
		for _, e := range c.errs {
			res.Errs = append(res.Errs, b64(strings.ReplaceAll(e, root, "$R")))
		}
	}()
	got := make([]*cssc.Result, times)
	var wg sync.WaitGroup
	for i := range got[1:] {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			got[i+1] = cssc.Compile(o)
		}(i)
	}
	got[0] = cssc.Compile(o)
	wg.Wait()
	res.Files = map[string]string{}
	for i, r := range got {
		for name, text := range r.Files {
			name = strings.ReplaceAll(name, root, "$R")
			if have, ok := res.Files[name]; ok && have != b64(text) {
				// Another output of the same file.
				name = fmt.Sprint(name, " of ", i)
			}
			res.Files[name] = b64(text)
		}
	}
	return res
}

func run(c testCase, scratch string) (outcome, outcome) {
	root := filepath.Join(scratch, "case")
	check(os.MkdirAll(root, 0o755))
	defer os.RemoveAll(root)
	for name, data := range c.Files {
		text, err := base64.StdEncoding.DecodeString(data)
		check(err)
		p := filepath.Join(root, name)
		check(os.MkdirAll(filepath.Dir(p), 0o755))
		check(os.WriteFile(p, text, 0o644))
	}
	// What is in the working directory is not found unless it is asked for.
	check(os.Chdir(root))
	defer os.Chdir("/")
	var entry []string
	for _, e := range c.Entry {
		if !c.Gone {
			e = filepath.Join(root, e)
		}
		entry = append(entry, e)
	}
	if c.Gone {
		gone := filepath.Join(scratch, "gone")
		check(os.Mkdir(gone, 0o755))
		check(os.Chdir(gone))
		check(os.Remove(gone))
	}
	rep, rep2 := &shared{}, &shared{}
	all := cssc.Options{Entry: entry, Reporter: rep, Resolver: &resolver.NodeResolver{}, Transforms: spelled(options(c))}
	some := cssc.Options{Entry: entry, Transforms: options(c)}
	if !c.NoReporter {
		some.Reporter = rep2
	}
	if !c.NoResolver {
		some.Resolver = &resolver.NodeResolver{}
	}
	// Errors have stack traces, so this is one call.
	var res [2]outcome
	for i, o := range []cssc.Options{all, some} {
		res[i] = compile(root, scratch, o, []*shared{rep, rep2}[i], c.Times)
	}
	return res[0], res[1]
}

func main() {
	fd, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	answers = os.NewFile(uintptr(fd), "answers")
	scratch, err := os.MkdirTemp("", "cssc-def-")
	check(err)
	defer os.RemoveAll(scratch)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<26)
	out := json.NewEncoder(answers)
	for in.Scan() {
		var c testCase
		check(json.Unmarshal(in.Bytes(), &c))
		a, b := run(c, scratch)
		check(out.Encode(map[string]interface{}{"id": c.ID, "spelled": a, "left": b}))
	}
}
