// Command drv runs cssc on batches of cases, one JSON object per line, through
// its public API only. Every case runs in a worker process in a scratch
// directory of its own, so a crash or a hang is an observation, not the end.
//
//	drv [-j workers] [-t seconds] < cases > results
package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/transforms"

	"verif/harness/pool"
)

type opts struct {
	Ranges  bool `json:"ranges"`
	AnyLink bool `json:"anylink"`
	Props   bool `json:"props"`
	Media   bool `json:"media"`
	Calc    bool `json:"calc"`
}

type run struct {
	Entries []string `json:"entries"`
	Mode    string   `json:"mode"` // pass, follow, inline
	O       opts     `json:"o"`
	// Again compiles every output once more, as a file of the same name in an
	// otherwise empty directory.
	Again bool `json:"again"`
	// Group is not 0 for runs that are run at the same time as their neighbours of that group.
	Group int `json:"group"`
}

type testCase struct {
	ID    string            `json:"id"`
	Files map[string]string `json:"files"` // path -> base64
	Runs  []run             `json:"runs"`
}

type runResult struct {
	Status string                `json:"status"` // ok, panic, crash, timeout
	Detail string                `json:"detail,omitempty"`
	Outs   map[string]string     `json:"outs"` // path -> base64
	Errs   []string              `json:"errs"`
	Again  map[string]*runResult `json:"again,omitempty"`
	Ms     int64                 `json:"ms"`
}

type collector struct {
	mu   sync.Mutex
	errs []string
	root string
}

func errText(err error) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("RENDER-PANIC: %v", r)
		}
	}()
	return err.Error()
}

func (c *collector) AddError(err error) {
	s := strings.ReplaceAll(errText(err), c.root, "$R")
	c.mu.Lock()
	defer c.mu.Unlock()
	c.errs = append(c.errs, s)
}

func options(r run, root string, rep cssc.Reporter) cssc.Options {
	o := cssc.Options{Reporter: rep}
	for _, e := range r.Entries {
		o.Entry = append(o.Entry, filepath.Join(root, e))
	}
	switch r.Mode {
	case "follow":
		o.Transforms.ImportRules = transforms.ImportRulesFollow
	case "inline":
		o.Transforms.ImportRules = transforms.ImportRulesInline
	}
	if r.O.Ranges {
		o.Transforms.MediaFeatureRanges = transforms.MediaFeatureRangesTransform
	}
	if r.O.AnyLink {
		o.Transforms.AnyLink = transforms.AnyLinkTransform
	}
	if r.O.Props {
		o.Transforms.CustomProperties = transforms.CustomPropertiesTransformRoot
	}
	if r.O.Media {
		o.Transforms.CustomMediaQueries = transforms.CustomMediaQueriesTransform
	}
	if r.O.Calc {
		o.Transforms.CalcReduction = transforms.CalcReductionReduce
	}
	return o
}

func doRun(r run, root string) (res *runResult) {
	res = &runResult{Status: "ok", Outs: map[string]string{}}
	rep := &collector{root: root}
	start := time.Now()
	defer func() {
		res.Ms = time.Since(start).Milliseconds()
		rep.mu.Lock()
		res.Errs = rep.errs
		rep.mu.Unlock()
		if p := recover(); p != nil {
			res.Status = "panic"
			res.Detail = fmt.Sprint(p)
		}
	}()
	result := cssc.Compile(options(r, root, rep))
	for p, text := range result.Files {
		rel, err := filepath.Rel(root, p)
		if err != nil || strings.HasPrefix(rel, "..") || !filepath.IsAbs(p) {
			rel = "!" + p
		}
		res.Outs[rel] = base64.StdEncoding.EncodeToString([]byte(text))
	}
	return res
}

func writeTree(root string, files map[string]string) error {
	for name, b64 := range files {
		data, err := base64.StdEncoding.DecodeString(b64)
		if err != nil {
			return err
		}
		p := filepath.Join(root, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if strings.HasSuffix(name, "/") {
			if err := os.MkdirAll(p, 0o755); err != nil {
				return err
			}
			continue
		}
		if err := os.WriteFile(p, data, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func runCase(c testCase, scratch string, emit func(*runResult)) error {
	root := filepath.Join(scratch, "case")
	if err := os.MkdirAll(root, 0o755); err != nil {
		return err
	}
	defer os.RemoveAll(root)
	if err := writeTree(root, c.Files); err != nil {
		return err
	}
	results := make([]*runResult, len(c.Runs))
	for i, r := range c.Runs {
		if r.Group != 0 && results[i] == nil {
			var wg sync.WaitGroup
			for j := i; j < len(c.Runs) && c.Runs[j].Group == r.Group; j++ {
				j := j
				wg.Add(1)
				go func() {
					defer wg.Done()
					results[j] = doRun(c.Runs[j], root)
				}()
			}
			wg.Wait()
		}
		res := results[i]
		if res == nil {
			res = doRun(r, root)
		}
		if r.Again {
			res.Again = map[string]*runResult{}
			for p, b64 := range res.Outs {
				again := filepath.Join(scratch, "again")
				if err := writeTree(again, map[string]string{p: b64}); err != nil {
					return err
				}
				r2 := r
				r2.Entries = []string{p}
				res.Again[p] = doRun(r2, again)
				os.RemoveAll(again)
			}
		}
		emit(res)
	}
	return nil
}

func main() {
	pool.Main(6<<30, func(line []byte, scratch string, emit func(interface{})) error {
		var c testCase
		if err := json.Unmarshal(line, &c); err != nil {
			return err
		}
		return runCase(c, scratch, func(r *runResult) { emit(r) })
	})
}
