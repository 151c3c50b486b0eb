// Package pool runs cases, one JSON object per line, in worker processes with a
// scratch directory each: a crash or a hang is an observation, not the end.
package pool

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"
	"time"
)

// Handler runs a case in a scratch directory, and emits one result per run.
type Handler func(line []byte, scratch string, emit func(result interface{})) error

type header struct {
	ID   string            `json:"id"`
	Runs []json.RawMessage `json:"runs"`
}

type caseResult struct {
	ID   string            `json:"id"`
	Runs []json.RawMessage `json:"runs"`
}

// Race is how a worker exits that found a data race.
const Race = 66

func failure(status, detail string) json.RawMessage {
	b, _ := json.Marshal(map[string]interface{}{"status": status, "detail": detail, "outs": map[string]string{}})
	return b
}

// worker reads cases from stdin and writes one line per run result.
func worker(scratch string, memory uint64, handle Handler) {
	if memory > 0 && limited {
		lim := syscall.Rlimit{Cur: memory, Max: memory}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		err = handle(line, scratch, func(r interface{}) {
			b, _ := json.Marshal(r)
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, "case setup:", err)
			os.Exit(3)
		}
	}
}

type proc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan []byte
	errb  *tail
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) < 4000 {
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.buf)
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

func startWorker(scratch string) (*proc, error) {
	if err := os.MkdirAll(scratch, 0o755); err != nil {
		return nil, err
	}
	cmd := exec.Command("/proc/self/exe", "-worker", scratch)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	outp, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p := &proc{cmd: cmd, in: in, lines: make(chan []byte, 64), errb: &tail{}}
	cmd.Stderr = p.errb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		r := bufio.NewReaderSize(outp, 1<<20)
		for {
			line, err := r.ReadBytes('\n')
			if err != nil {
				close(p.lines)
				return
			}
			p.lines <- line
		}
	}()
	return p, nil
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// Main is the main function of a driver. memory limits the address space of a worker.
func Main(memory uint64, handle Handler) {
	workerDir := flag.String("worker", "", "internal: run as a worker")
	jobs := flag.Int("j", 8, "workers")
	limit := flag.Int("t", 20, "seconds per run")
	flag.Parse()
	if *workerDir != "" {
		worker(*workerDir, memory, handle)
		return
	}

	root, err := os.MkdirTemp("", "cssc-"+filepath.Base(os.Args[0])+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(root)

	type job struct {
		i    int
		c    header
		line []byte
	}
	queue := make(chan job, 64)
	var mu sync.Mutex
	results := map[int]*caseResult{}
	var wg sync.WaitGroup
	failed := false
	for w := 0; w < *jobs; w++ {
		dir := filepath.Join(root, fmt.Sprint("w", w))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for j := range queue {
				cr := &caseResult{ID: j.c.ID}
				if p == nil {
					var err error
					if p, err = startWorker(dir); err != nil {
						fmt.Fprintln(os.Stderr, err)
						mu.Lock()
						failed = true
						mu.Unlock()
						continue
					}
				}
				p.in.Write(j.line)
				p.in.Write([]byte("\n"))
			runs:
				for range j.c.Runs {
					select {
					case line, ok := <-p.lines:
						if !ok {
							err := p.cmd.Wait()
							status := "crash"
							if ee, isExit := err.(*exec.ExitError); isExit && ee.ExitCode() == Race {
								status = "race"
							}
							if ee, isExit := err.(*exec.ExitError); isExit && ee.ExitCode() == 3 {
								fmt.Fprintln(os.Stderr, p.errb.String())
								mu.Lock()
								failed = true
								mu.Unlock()
							}
							cr.Runs = append(cr.Runs, failure(status, p.errb.String()))
							p = nil
							break runs
						}
						if !json.Valid(line) {
							line = failure("crash", "bad worker line: "+string(line))
						}
						cr.Runs = append(cr.Runs, json.RawMessage(line))
					case <-time.After(time.Duration(*limit) * time.Second):
						cr.Runs = append(cr.Runs, failure("timeout", ""))
						p.stop()
						p = nil
						break runs
					}
				}
				if p == nil {
					os.RemoveAll(dir)
				}
				mu.Lock()
				results[j.i] = cr
				mu.Unlock()
			}
		}()
	}

	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	n := 0
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var c header
			if e := json.Unmarshal(line, &c); e != nil {
				fmt.Fprintln(os.Stderr, "bad case:", e)
				os.Exit(3)
			}
			queue <- job{n, c, bytes.TrimSpace(line)}
			n++
		}
		if err != nil {
			break
		}
	}
	close(queue)
	wg.Wait()

	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for i := 0; i < n; i++ {
		b, _ := json.Marshal(results[i])
		out.Write(b)
		out.WriteByte('\n')
	}
	out.Flush()
	if failed {
		os.RemoveAll(root)
		os.Exit(3)
	}
}
