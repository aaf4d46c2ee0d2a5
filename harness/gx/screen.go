package gx

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"time"

	"github.com/frk/gosql/verifharness/vh"
)

// Answer is what the screening process says about a case.
type Answer struct {
	Pkg, Status, Msg, Suspect string
	Consts                    int
}

// screener is a process that has the tool's code in it.
type screener struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

// Screen has n cases looked at by processes that contain the tool's code. It is a sieve in front of the tool itself:
// when that code cannot be built in (its interfaces have changed), nothing is screened.
func (e *Env) Screen(run *vh.Run, dir string, n, workers int, draw func(i int) (pkg, text string), tell func(i int, a Answer)) bool {
	bin := filepath.Join(e.Scratch, "inproc")
	if _, err := os.Stat(bin); err != nil {
		cmd := exec.Command("go", "build", "-o", bin, "./cmd/inproc")
		cmd.Dir = filepath.Join(verifRoot(), "harness")
		if _, err := cmd.CombinedOutput(); err != nil {
			run.Count("screening not possible", 1)
			return false
		}
	}
	start := func() *screener {
		s := &screener{cmd: exec.Command("sh", "-c", `ulimit -v 16000000; exec "$0" "$@"`, bin, dir, e.DSN())}
		s.cmd.Dir = dir
		s.cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOMAXPROCS=2")
		var err error
		if s.in, err = s.cmd.StdinPipe(); err != nil {
			return nil
		}
		o, err := s.cmd.StdoutPipe()
		if err != nil {
			return nil
		}
		s.out = bufio.NewReaderSize(o, 1<<20)
		if s.cmd.Start() != nil {
			return nil
		}
		return s
	}
	stop := func(s *screener) {
		if s != nil {
			s.in.Close()
			s.cmd.Process.Kill()
			s.cmd.Wait()
		}
	}
	ss := [64]*screener{}
	var mu sync.Mutex
	failed := false
	Parallel(n, workers, func(i, w int) {
		mu.Lock()
		f := failed
		mu.Unlock()
		if f {
			return
		}
		if ss[w] != nil && ss[w].n > 4000 { // its caches have grown
			stop(ss[w])
			ss[w] = nil
		}
		if ss[w] == nil {
			if ss[w] = start(); ss[w] == nil {
				return
			}
		}
		s := ss[w]
		pkg, text := draw(i)
		b, _ := json.Marshal(map[string]string{"Pkg": pkg, "Text": text})
		c := make(chan []byte, 1)
		go func() {
			if _, err := fmt.Fprintf(s.in, "%s\n", b); err != nil {
				c <- nil
				return
			}
			l, err := s.out.ReadBytes('\n')
			if err != nil {
				l = nil
			}
			c <- l
		}()
		var a Answer
		select {
		case l := <-c:
			if l == nil || json.Unmarshal(l, &a) != nil {
				a = Answer{Pkg: pkg, Status: "died", Suspect: "died"}
			}
		case <-time.After(30 * time.Second):
			a = Answer{Pkg: pkg, Status: "hangs", Suspect: "hang"}
		}
		s.n++
		if a.Status == "died" || a.Status == "hangs" {
			first := s.n == 1
			stop(s)
			ss[w] = nil
			if first { // it may not work at all
				mu.Lock()
				failed = true
				mu.Unlock()
			}
		}
		mu.Lock()
		tell(i, a)
		mu.Unlock()
	})
	for _, s := range ss {
		stop(s)
	}
	if failed {
		run.Count("screening broke off", 1)
	}
	return true
}
