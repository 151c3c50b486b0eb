// Command res asks the real resolver about file trees it creates.
//
//	res [-j workers] [-t seconds] < cases > results
//	res -root marker < cases > results    (in a chroot that holds the file /marker)
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/stephen/cssc/resolver"

	"verif/harness/pool"
)

type entry struct {
	P    string `json:"p"`    // relative to the root of the tree
	K    string `json:"k"`    // dir, file, link
	Text string `json:"text"` // contents, or target of the link
	Mode int    `json:"mode"` // permissions, if not 0
}

type question struct {
	Spec string `json:"spec"`
	From string `json:"from"`
	Base string `json:"base"` // "?" is none
	Cwd  string `json:"cwd"`
	// How directories are given: absolute, relative to cwd, with a slash at the end.
	FromAs string `json:"fromAs"`
	BaseAs string `json:"baseAs"`
}

type testCase struct {
	ID   string     `json:"id"`
	Tree []entry    `json:"tree"`
	Runs []question `json:"runs"`
}

type answer struct {
	Status string `json:"status"`
	Err    string `json:"err"`
	NF     bool   `json:"nf"`   // the error is ErrNotFound
	Path   string `json:"path"` // as returned
	Rel    string `json:"rel"`  // below the root of the tree, "?" if it is not
	Kind   string `json:"kind"` // file, dir, none: what is there
}

func plant(root string, tree []entry) error {
	for _, e := range tree {
		p := filepath.Join(root, e.P)
		var err error
		switch e.K {
		case "dir":
			err = os.MkdirAll(p, 0o755)
		case "link":
			err = os.Symlink(e.Text, p)
		default:
			err = os.WriteFile(p, []byte(e.Text), 0o644)
		}
		if err != nil {
			return err
		}
	}
	for i := len(tree) - 1; i >= 0; i-- {
		if tree[i].Mode != 0 {
			if err := os.Chmod(filepath.Join(root, tree[i].P), os.FileMode(tree[i].Mode)); err != nil {
				return err
			}
		}
	}
	return nil
}

func spell(root, cwd, dir, as string) (string, error) {
	abs := filepath.Join(root, dir)
	switch as {
	case "rel":
		rel, err := filepath.Rel(cwd, abs)
		return rel, err
	case "dotrel":
		rel, err := filepath.Rel(cwd, abs)
		return "./" + rel, err
	case "slash":
		return abs + "/", nil
	case "dots":
		return abs + "/./none/..", nil
	}
	return abs, nil
}

func ask(root string, q question) (a answer) {
	cwd := filepath.Join(root, q.Cwd)
	if err := os.Chdir(cwd); err != nil {
		return answer{Status: "setup", Err: err.Error()}
	}
	defer os.Chdir("/")
	from, err := spell(root, cwd, q.From, q.FromAs)
	if err != nil {
		return answer{Status: "setup", Err: err.Error()}
	}
	r := resolver.NodeResolver{}
	if q.Base != "?" {
		if r.BaseURL, err = spell(root, cwd, q.Base, q.BaseAs); err != nil {
			return answer{Status: "setup", Err: err.Error()}
		}
	}
	defer func() {
		if x := recover(); x != nil {
			a = answer{Status: "panic", Err: fmt.Sprint(x)}
		}
	}()
	path, rerr := r.Resolve(q.Spec, from)
	a = answer{Status: "ok", Path: path}
	if rerr != nil {
		a.Err, a.NF = rerr.Error(), errors.Is(rerr, resolver.ErrNotFound)
		if a.Err == "" {
			a.Err = "error"
		}
	}
	if path == "" {
		return a
	}
	abs := path
	if !filepath.IsAbs(abs) {
		abs = filepath.Join(cwd, abs)
	}
	abs = filepath.Clean(abs)
	a.Rel, a.Kind = "?", "none"
	if rel, err := filepath.Rel(root, abs); err == nil && rel != ".." && !strings.HasPrefix(rel, "../") {
		a.Rel = rel
	}
	if info, err := os.Stat(abs); err == nil {
		a.Kind = "file"
		if info.IsDir() {
			a.Kind = "dir"
		}
	}
	return a
}

func handle(line []byte, root string, emit func(interface{})) error {
	var c testCase
	if err := json.Unmarshal(line, &c); err != nil {
		return err
	}
	if err := plant(root, c.Tree); err != nil {
		return fmt.Errorf("%s: %v", c.ID, err)
	}
	for _, q := range c.Runs {
		emit(ask(root, q))
	}
	os.Chdir("/")
	return nil
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-root" {
		if _, err := os.Stat("/" + os.Args[2]); err != nil {
			fmt.Fprintln(os.Stderr, "not in the chroot:", err)
			os.Exit(3)
		}
		in := bufio.NewScanner(os.Stdin)
		in.Buffer(nil, 1<<26)
		out := json.NewEncoder(os.Stdout)
		for in.Scan() {
			var c testCase
			if err := json.Unmarshal(in.Bytes(), &c); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			runs := []interface{}{}
			if err := handle(in.Bytes(), "/", func(a interface{}) { runs = append(runs, a) }); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			// Only what this process created, in the chroot.
			for i := len(c.Tree) - 1; i >= 0; i-- {
				if err := os.Remove("/" + c.Tree[i].P); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(3)
				}
			}
			out.Encode(map[string]interface{}{"id": c.ID, "runs": runs})
		}
		return
	}
	pool.Main(6<<30, func(line []byte, scratch string, emit func(interface{})) error {
		root := filepath.Join(scratch, "t")
		if err := os.RemoveAll(root); err != nil {
			return err
		}
		if err := os.MkdirAll(root, 0o755); err != nil {
			return err
		}
		return handle(line, root, emit)
	})
}
