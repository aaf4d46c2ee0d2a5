package gx

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/frk/gosql/verifharness/vh"
)

// cutter is a proxy in front of the database that drops every connection after a number of bytes.
type cutter struct {
	l     net.Listener
	dir   string
	left  int64
	Moved int64
}

func newCutter(scratch, name string) (*cutter, error) {
	c := &cutter{dir: filepath.Join(scratch, name)}
	os.RemoveAll(c.dir)
	if err := os.MkdirAll(c.dir, 0o755); err != nil {
		return nil, err
	}
	var err error
	if c.l, err = net.Listen("unix", filepath.Join(c.dir, ".s.PGSQL.5432")); err != nil {
		return nil, err
	}
	go func() {
		for {
			a, err := c.l.Accept()
			if err != nil {
				return
			}
			b, err := net.Dial("unix", filepath.Join(os.Getenv("PGHOST"), ".s.PGSQL."+os.Getenv("PGPORT")))
			if err != nil {
				a.Close()
				continue
			}
			pipe := func(x, y net.Conn) {
				buf := make([]byte, 512)
				for {
					n, err := x.Read(buf)
					if n > 0 {
						atomic.AddInt64(&c.Moved, int64(n))
						if atomic.AddInt64(&c.left, -int64(n)) < 0 {
							break
						}
						if _, err := y.Write(buf[:n]); err != nil {
							break
						}
					}
					if err != nil {
						break
					}
				}
				x.Close()
				y.Close()
			}
			go pipe(a, b)
			go pipe(b, a)
		}
	}()
	return c, nil
}

func (c *cutter) dsn(e *Env) string {
	return strings.Replace(strings.Replace(e.DSN(), "host="+os.Getenv("PGHOST"), "host="+c.dir, 1), "port="+os.Getenv("PGPORT"), "port=5432", 1)
}

func (c *cutter) close() { c.l.Close(); os.RemoveAll(c.dir) }

// stage is a module whose sources yield outs[i] under flags[i].
type stage struct {
	p     *Project
	flags [][]string
	outs  []map[string]string
	src   Tree // sources alone
	paths []string
	cut   *cutter
	bytes int64         // that a run moves to and from the database
	took  time.Duration // a whole run
}

var stageFlags = [][]string{nil, {"-with-ctx"}, {"-qid"}}

// newStage draws a module and takes the output of undisturbed runs.
func newStage(e *Env, run *vh.Run, w int, seed int64) *stage {
	s := &stage{flags: stageFlags}
	for try := int64(0); try < 6; try++ {
		g := NewGen(seed + try*100003)
		s.p = NewProject(e, g, []string{"a", "a/b", "a/b/c"}, 2, 2)
		if err := s.p.Write(); err != nil {
			vh.Fatal("%v", err)
		}
		s.src = Snapshot(s.p.Dir)
		s.paths = nil
		for _, f := range s.p.Files {
			s.paths = append(s.paths, f.Out())
		}
		sort.Strings(s.paths)
		s.outs = nil
		for _, fl := range s.flags {
			t0 := time.Now()
			res := e.RunCmd(s.p.Dir, 0, s.argv(e, e.DSN(), fl)...)
			s.took = time.Since(t0)
			if res.Code != 0 {
				break
			}
			o := map[string]string{}
			for _, p := range s.paths {
				b, err := os.ReadFile(filepath.Join(s.p.Dir, p))
				if err != nil {
					run.Violate("no-output", nil, "a run that succeeded left no %s", p)
				}
				o[p] = string(b)
			}
			s.outs = append(s.outs, o)
			s.src.Restore(s.p.Dir)
		}
		if len(s.outs) == len(s.flags) {
			break
		}
		s.p.Remove()
	}
	if len(s.outs) < len(s.flags) {
		run.Violate("valid-rejected", nil, "valid packages are refused")
		return nil
	}
	var err error
	if s.cut, err = newCutter(e.Scratch, fmt.Sprintf("c%d", w)); err != nil {
		vh.Fatal("%v", err)
	}
	s.cut.left = 1 << 40
	if res := e.RunCmd(s.p.Dir, 0, s.argv(e, s.cut.dsn(e), nil)...); res.Code != 0 {
		vh.Fatal("a run through the proxy fails: %s", res.Out)
	}
	s.bytes = s.cut.Moved
	s.src.Restore(s.p.Dir)
	return s
}

func (s *stage) close() {
	if s != nil {
		s.cut.close()
		s.p.Remove()
	}
}

func (s *stage) argv(e *Env, dsn string, flags []string) []string {
	return append([]string{e.CLI, "-db", dsn, "-wd", "a", "-r"}, flags...)
}

// changed waits for the first sign of writing in the packages' directories.
func (s *stage) changed(stop chan bool) bool {
	dirs := map[string]time.Time{}
	for _, p := range s.paths {
		d := filepath.Join(s.p.Dir, filepath.Dir(p))
		fi, err := os.Stat(d)
		if err == nil {
			dirs[d] = fi.ModTime()
		}
	}
	files := map[string]os.FileInfo{}
	for _, p := range s.paths {
		if fi, err := os.Stat(filepath.Join(s.p.Dir, p)); err == nil {
			files[filepath.Join(s.p.Dir, p)] = fi
		}
	}
	for {
		select {
		case <-stop:
			return false
		default:
		}
		for d, t := range dirs {
			if fi, err := os.Stat(d); err != nil || !fi.ModTime().Equal(t) {
				return true
			}
		}
		for f, o := range files {
			if fi, err := os.Stat(f); err != nil || fi.Size() != o.Size() || !fi.ModTime().Equal(o.ModTime()) {
				return true
			}
		}
		time.Sleep(20 * time.Microsecond)
	}
}

var faults = []string{"invalid target", "connection cut", "killed at random", "killed while writing", "interrupted while writing", "file size limit", "directory at an output", "output over input", "bad flags", "two at once", "no fault"}

// Atomic disturbs runs of the tool and looks at what they leave on the disk.
func Atomic(run *vh.Run) {
	e, err := NewEnv(false)
	if err != nil {
		vh.Fatal("%v", err)
	}
	const workers = 8
	st := make([]*stage, workers)
	n := run.N(330, 20000)
	var recovered int64
	Parallel(n, workers, func(i, w int) {
		r := rand.New(rand.NewSource(run.Seed*1000003 + int64(i)))
		if st[w] == nil || i/workers%100 == 99 {
			st[w].close()
			if st[w] = newStage(e, run, w, run.Seed*7001+int64(i)*13); st[w] == nil {
				return
			}
		}
		s := st[w]
		fault := faults[i%len(faults)]
		k := r.Intn(len(s.flags))
		dir := s.p.Dir

		// what is there before the run
		s.src.Restore(dir)
		prev := map[string]string{}
		for _, p := range s.paths {
			switch x := r.Intn(5); x {
			case 0, 1, 2:
				prev[p] = s.outs[x][p]
			case 3:
				prev[p] = "package " + filepath.Base(filepath.Dir(p)) + "\n\n" + strings.Repeat("// left over\n", 20000) // longer than the new output
			}
		}
		if err := WriteFiles(dir, prev); err != nil {
			vh.Fatal("%v", err)
		}
		linked := false
		if r.Intn(4) == 0 { // an output that is a link to a file elsewhere
			p := pickS(r, s.paths...)
			if _, ok := prev[p]; ok {
				linked = true
				os.Rename(filepath.Join(dir, p), filepath.Join(dir, "elsewhere.txt"))
				os.Symlink(filepath.Join(dir, "elsewhere.txt"), filepath.Join(dir, p))
			}
		}
		argv := s.argv(e, e.DSN(), s.flags[k])
		other := k
		killed := false
		detail := ""
		blocked := ""
		var res CLIResult
		switch fault {
		case "invalid target":
			bads := BadDecls()
			b := bads[r.Intn(len(bads))]
			f := s.p.Files[r.Intn(len(s.p.Files))]
			name := pickS(r, "aa0.go", "zz9.go")
			detail = f.Pkg + "/" + name + " " + b.What
			os.WriteFile(filepath.Join(dir, f.Pkg, name), []byte(badFile(filepath.Base(f.Pkg), b.Render("X1"))), 0o644)
			res = e.RunCmd(dir, 0, argv...)
			os.Remove(filepath.Join(dir, f.Pkg, name))
		case "connection cut":
			at := r.Int63n(s.bytes)
			detail = fmt.Sprintf("after %d of %d bytes", at, s.bytes)
			atomic.StoreInt64(&s.cut.left, at)
			res = e.RunCmd(dir, 0, s.argv(e, s.cut.dsn(e), s.flags[k])...)
		case "killed at random":
			d := time.Duration(r.Int63n(int64(s.took)))
			detail = d.String()
			killed = true
			res = e.RunCmd(dir, d, argv...)
		case "killed while writing", "interrupted while writing":
			killed = true
			d := time.Duration(r.Int63n(int64(3 * time.Millisecond)))
			if r.Intn(2) == 0 {
				d = time.Duration(r.Int63n(int64(200 * time.Microsecond)))
			}
			detail = d.String()
			stop := make(chan bool)
			hit := make(chan bool, 1)
			pid := make(chan int, 1)
			go func() {
				p := <-pid
				ok := s.changed(stop)
				if ok {
					time.Sleep(d)
					if fault == "killed while writing" {
						syscall.Kill(-p, syscall.SIGKILL)
					} else {
						syscall.Kill(-p, syscall.SIGINT)
					}
				}
				hit <- ok
			}()
			res = e.runPid(dir, pid, argv...)
			close(stop)
			if <-hit && res.Code != 0 {
				run.Count("runs killed while they wrote", 1)
			}
		case "file size limit":
			kb := 1 + r.Intn(12)
			detail = fmt.Sprintf("%d KiB", kb)
			pre := ""
			if r.Intn(2) == 0 {
				pre = "trap '' XFSZ; "
			}
			res = e.RunCmd(dir, 0, append([]string{"bash", "-c", fmt.Sprintf("%sulimit -f %d; exec \"$@\"", pre, kb), "bash"}, argv...)...)
			if strings.Contains(res.Out, "SIGXFSZ") {
				killed, res.Panic = true, false
			}
		case "directory at an output":
			blocked = pickS(r, s.paths...)
			detail = blocked
			os.RemoveAll(filepath.Join(dir, blocked))
			delete(prev, blocked)
			os.MkdirAll(filepath.Join(dir, blocked, "inner"), 0o755)
			res = e.RunCmd(dir, 0, argv...)
		case "output over input":
			detail = pickS(r, "%s", ".go", "%s.go")
			res = e.RunCmd(dir, 0, append(argv, "-o", detail)...)
			if res.Code == 0 {
				run.Violate("over-input-accepted", map[string]string{"o": detail, "output": res.Out}, "-o %q, which makes outputs and inputs the same files, is accepted", detail)
			}
		case "bad flags":
			x := [][]string{{"-o", "%d"}, {"-o", "%s%s"}, {"-rx", "("}, {"-argtype", "nowhere"}, {"-argtype", "fmt.Stringer"}, {"-argtype", "gx.test/nope.T"}, {"-fcksep", "::"}, {"-fcktag", "a b"}, {"-config", "absent.json"}, {"-nope"}, {"-r=maybe"}, {"-db", ""}, {"-db", "host=/nonexistent dbname=x"}, {"-db", s.cutNone(e)}, {"-wd", "absent"}}[r.Intn(15)]
			detail = strings.Join(x, " ")
			res = e.RunCmd(dir, 0, append(append([]string{}, argv...), x...)...)
			if res.Code == 0 {
				run.Violate("bad-flags", map[string]string{"flags": detail, "output": res.Out}, "bad flags %q are accepted", detail)
			}
		case "two at once":
			other = r.Intn(len(s.flags))
			detail = fmt.Sprint(s.flags[k], " and ", s.flags[other])
			c := make(chan CLIResult)
			d := time.Duration(r.Int63n(int64(s.took)/10 + 1))
			go func() {
				time.Sleep(d)
				c <- e.RunCmd(dir, 0, s.argv(e, e.DSN(), s.flags[other])...)
			}()
			res = e.RunCmd(dir, 0, argv...)
			if x := <-c; x.Code != 0 {
				res = x
			}
			if res.Code != 0 {
				run.Violate("two-at-once", map[string]string{"output": res.Out, "flags": detail}, "of two runs at once one fails: %s", clip(res.Out, 300))
			}
		case "no fault":
			res = e.RunCmd(dir, 0, argv...)
			if res.Code != 0 {
				run.Violate("undisturbed", map[string]string{"output": res.Out}, "an undisturbed run fails: %s", clip(res.Out, 300))
			}
		}
		after := Snapshot(dir)
		if detail == "" {
			detail = "-"
		}
		d := map[string]interface{}{"fault": fault, "detail": detail, "flags": s.flags[k], "exit": res.Code, "output": clip(res.Out, 3000), "tree": s.p.Dir}
		if res.TimedOut {
			run.Violate("hang:"+fault, d, "%s (%s): the tool doesn't end", fault, detail)
		}
		if res.Panic {
			run.Violate("panic:"+fault, d, "%s (%s): the tool panics: %s", fault, detail, clip(res.Out, 300))
		}
		// the sources are as they were
		for p, t := range s.src {
			if x, ok := after[p]; !ok || x != t {
				run.Violate("source:"+fault, d, "%s (%s): a source file is changed: %s", fault, detail, p)
			}
		}
		// every output is the old or the new one
		state := ""
		for _, p := range s.paths {
			if p == blocked {
				continue
			}
			got, there := after[p]
			if strings.HasPrefix(got, "link ") {
				b, err := os.ReadFile(filepath.Join(dir, p))
				got, there = string(b), err == nil
			}
			old, was := prev[p]
			switch {
			case there && (got == s.outs[k][p] || got == s.outs[other][p]):
				state += "n"
			case there == was && got == old:
				state += "o"
				if res.Code == 0 && fault != "output over input" && fault != "bad flags" {
					d["file"] = p
					run.Violate("unwritten:"+fault, d, "%s (%s): exit status 0, but %s is not the new output", fault, detail, p)
				}
			default:
				d["file"], d["content"], d["new"] = p, clip(got, 6000), clip(s.outs[k][p], 6000)
				what := "damaged"
				if !there {
					what = "gone"
				}
				run.Violate(what+":"+fault, d, "%s (%s): %s is %s: %d bytes, the old output has %d, the new one %d", fault, detail, p, what, len(got), len(old), len(s.outs[k][p]))
			}
		}
		// nothing else is there
		for p := range after {
			if _, ok := s.src[p]; ok || linked && p == "elsewhere.txt" || blocked != "" && strings.HasPrefix(p, blocked+"/") {
				continue
			}
			if i := sort.SearchStrings(s.paths, p); i < len(s.paths) && s.paths[i] == p {
				continue
			}
			b := filepath.Base(p)
			if killed && (b[0] == '.' || b[0] == '_' || !strings.HasSuffix(b, ".go")) {
				run.Count("hidden leftovers of killed runs", 1)
				continue
			}
			d["file"] = p
			run.Violate("left:"+fault, d, "%s (%s): a file is left behind: %s", fault, detail, p)
		}
		// and a further run succeeds
		if blocked != "" {
			os.RemoveAll(filepath.Join(dir, blocked))
		}
		if i%3 == 0 || killed {
			again := e.RunCmd(dir, 0, argv...)
			atomic.AddInt64(&recovered, 1)
			if again.Code != 0 {
				d["again"] = again.Out
				run.Violate("recover:"+fault, d, "%s (%s): the run after it fails: %s", fault, detail, clip(again.Out, 300))
			} else {
				for _, p := range s.paths {
					if b, _ := os.ReadFile(filepath.Join(dir, p)); string(b) != s.outs[k][p] {
						d["file"] = p
						run.Violate("recover:"+fault, d, "%s (%s): the run after it leaves another %s", fault, detail, p)
					}
				}
			}
		}
		run.Eval(fault + "|" + state + "|" + fmt.Sprint(res.Code))
		run.Seen("fault", fault)
		run.Seen("outputs old or new", state)
		run.Sample(fault, map[string]interface{}{"detail": detail, "exit": res.Code, "outputs": state, "output": clip(res.Out, 300)})
	})
	for _, s := range st {
		s.close()
	}
	run.Count("runs after a fault", recovered)
}

// cutNone is the address of nobody.
func (s *stage) cutNone(e *Env) string {
	return strings.Replace(e.DSN(), "dbname="+e.DBName, "dbname=absent", 1)
}

// runPid runs a command and tells its process id.
func (e *Env) runPid(dir string, pid chan int, argv ...string) CLIResult {
	return e.runCmd(dir, 0, func(p int) { pid <- p }, argv...)
}
