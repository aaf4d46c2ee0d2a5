package gx

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// PFile is one source file of a project.
type PFile struct {
	Path    string // relative to the module
	Pkg     string // package directory relative to the module
	Targets []*Target
	Extra   string // further declarations
}

// Project is a module of several packages with drawn targets.
type Project struct {
	Env   *Env
	Dir   string
	Files []*PFile
	Recs  []*Rec
	Other map[string]string // further files
}

// Draw draws n targets.
func (g *Gen) Draw(n int, kinds string) (ts []*Target) {
	for i := 0; i < n; i++ {
		switch kinds[g.R.Intn(len(kinds))] {
		case 'S':
			ts = append(ts, g.Select(1))
		case 'I':
			ts = append(ts, g.Insert(1))
		case 'U':
			ts = append(ts, g.Update(1))
		case 'D':
			ts = append(ts, g.Delete(1))
		}
	}
	return
}

// NewProject lays out targets over packages: files per package, targets per file.
func NewProject(e *Env, g *Gen, pkgs []string, files, targets int) *Project {
	p := &Project{Env: e, Other: map[string]string{}}
	for _, d := range pkgs {
		for i := 0; i < files; i++ {
			f := &PFile{Path: fmt.Sprintf("%s/f%d.go", d, i), Pkg: d, Targets: g.Draw(targets, "SIUD")}
			p.Files = append(p.Files, f)
		}
	}
	p.Recs = g.Recs
	return p
}

// Header puts a package clause and imports before declarations.
func Header(pkg, src string) string { return header(pkg, src) }

func header(pkg, src string) string {
	return strings.Replace(qHeader(src), "package q\n", "package "+pkg+"\n", 1)
}

// Source renders a file; a package declares a record in the first file that needs it.
func (p *Project) Source(f *PFile) string {
	declared := map[*Rec]bool{}
	for _, o := range p.Files {
		if o == f {
			break
		}
		if o.Pkg == f.Pkg {
			for _, t := range o.Targets {
				for _, r := range t.recs() {
					declared[r] = true
				}
			}
		}
	}
	var s strings.Builder
	for _, t := range f.Targets {
		s.WriteString(t.Source() + "\n")
		for _, r := range t.recs() {
			if !r.Imported && !declared[r] {
				declared[r] = true
				s.WriteString(r.Source() + "\n")
			}
		}
	}
	return header(filepath.Base(f.Pkg), s.String()+f.Extra)
}

// Write writes the project into a fresh module.
func (p *Project) Write() error {
	p.Remove()
	var ms strings.Builder
	for _, r := range p.Recs {
		if r.Imported {
			ms.WriteString(r.Source())
		}
	}
	dir, err := p.Env.NewModule(ms.String())
	if err != nil {
		return err
	}
	p.Dir = dir
	files := map[string]string{}
	for n, s := range p.Other {
		files[n] = s
	}
	for _, f := range p.Files {
		files[f.Path] = p.Source(f)
	}
	return WriteFiles(dir, files)
}

// Remove deletes the module.
func (p *Project) Remove() {
	if p.Dir != "" {
		os.RemoveAll(p.Dir)
		p.Dir = ""
	}
}

// Out is the output file of a source file under the default name format.
func (f *PFile) Out() string { return strings.TrimSuffix(f.Path, ".go") + "_gosql.go" }

// Tree is the content of a directory.
type Tree map[string]string

// Snapshot reads a directory.
func Snapshot(dir string) Tree {
	t := Tree{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if rel == "driver" {
			return nil
		}
		switch {
		case d.IsDir():
			t[rel+"/"] = "dir"
		case d.Type()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			t[rel] = "link " + l
		default:
			b, _ := os.ReadFile(p)
			t[rel] = string(b)
		}
		return nil
	})
	return t
}

// Diff lists the paths where two trees differ.
func (t Tree) Diff(u Tree) (out []string) {
	for p, s := range t {
		if x, ok := u[p]; !ok {
			out = append(out, "-"+p)
		} else if x != s {
			out = append(out, "~"+p)
		}
	}
	for p := range u {
		if _, ok := t[p]; !ok {
			out = append(out, "+"+p)
		}
	}
	sort.Strings(out)
	return
}

// Restore makes dir hold exactly the tree.
func (t Tree) Restore(dir string) {
	for _, d := range Snapshot(dir).Diff(t) {
		p := filepath.Join(dir, strings.TrimSuffix(d[1:], "/"))
		if d[0] != '+' {
			os.RemoveAll(p)
		}
	}
	for p, s := range t {
		full := filepath.Join(dir, p)
		switch {
		case strings.HasSuffix(p, "/"):
			os.MkdirAll(full, 0o755)
		case strings.HasPrefix(s, "link "):
			if l, err := os.Readlink(full); err != nil || l != s[5:] {
				os.Remove(full)
				os.Symlink(s[5:], full)
			}
		default:
			if b, err := os.ReadFile(full); err != nil || string(b) != s {
				os.MkdirAll(filepath.Dir(full), 0o755)
				os.WriteFile(full, []byte(s), 0o644)
			}
		}
	}
}

// RunCmd runs a prepared command line (the tool, or a wrapper of it), killing its process group after kill (if positive).
func (e *Env) RunCmd(dir string, kill time.Duration, argv ...string) CLIResult {
	return e.runCmd(dir, kill, nil, argv...)
}

func (e *Env) runCmd(dir string, kill time.Duration, started func(pid int), argv ...string) CLIResult {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOGC=off", "GOMAXPROCS=1")
	cmd.SysProcAttr = pgroup()
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	r := CLIResult{}
	if err := cmd.Start(); err != nil {
		return CLIResult{Code: -1, Out: err.Error()}
	}
	if started != nil {
		started(cmd.Process.Pid)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := 4 * time.Minute
	if kill > 0 {
		limit = kill
	}
	var err error
	select {
	case err = <-done:
	case <-time.After(limit):
		killGroup(cmd.Process.Pid)
		err = <-done
		r.TimedOut = kill <= 0
	}
	if err != nil {
		r.Code = -1
		if x, ok := err.(*exec.ExitError); ok {
			r.Code = x.ExitCode()
		}
	}
	r.Out = ansi.ReplaceAllString(b.String(), "")
	r.Panic = strings.Contains(r.Out, "panic: ") || strings.Contains(r.Out, "fatal error: ") || strings.Contains(r.Out, "(PANIC=")
	return r
}

// Parallel runs f for 0 ≤ i < n on w workers.
func Parallel(n, w int, f func(i, worker int)) {
	ch := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := range ch {
				f(i, k)
			}
		}(k)
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
