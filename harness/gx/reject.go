package gx

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/frk/gosql/verifharness/vh"
)

// badHeader adds the imports that a file with an invalid declaration needs.
func badFile(pkg, body string) string { return header(pkg, body) }

// Mutate makes a valid target invalid: one name in it, or in its record, becomes unknown to the catalog.
func mutate(r *rand.Rand, t *Target) (src, what, want string) {
	src = t.Source()
	for _, rec := range t.recs() {
		if !rec.Imported {
			src += "\n" + rec.Source()
		}
	}
	type mut struct {
		re         *regexp.Regexp
		what, repl string
		want       string
	}
	muts := []mut{
		{regexp.MustCompile("rel:\"(?:s2\\.)?([a-z_]+)"), "relation", "", "t_nope"},
		{regexp.MustCompile("(?:Join|Relation) +`sql:\"(?:s2\\.)?([a-z_]+)"), "joined relation", "", "t_nope"},
		{regexp.MustCompile("`sql:\"([a-z_]+)[\",]"), "record column", "", "c_nope"},
		{regexp.MustCompile("sql:\"[a-z0-9]+\\.([a-z_]+)"), "qualified column", "", "c_nope"},
		{regexp.MustCompile("sql:\"([a-z0-9]+)\\.[a-z_]+"), "qualifier", "", "zzq"},
		{regexp.MustCompile(" = [a-z0-9]+\\.([a-z_]+)"), "right column", "", "c_nope"},
	}
	for _, i := range r.Perm(len(muts)) {
		m := muts[i]
		all := m.re.FindAllStringSubmatchIndex(src, -1)
		if len(all) == 0 {
			continue
		}
		x := all[r.Intn(len(all))]
		old := src[x[2]:x[3]]
		if m.what == "record column" {
			// the tool ignores a column that a target neither reads nor writes, and Return "*" takes those there are
			k := strings.LastIndex(src[:x[0]], "\ntype ")
			if t.Kind == "Delete" || k < 0 || !strings.HasPrefix(src[k+6:], "Rec") || src[x[3]] != '"' {
				continue
			}
		}
		if m.what == "record column" && (old == "x" || old == "y") {
			continue // bounds of a between
		}
		if strings.HasPrefix(src[x[3]:], ".") && m.what != "qualifier" {
			continue
		}
		if m.what == "qualified column" && strings.HasPrefix(src[x[0]:], "sql:\"s2.") || m.what == "qualifier" && old == "s2" {
			continue
		}
		return src[:x[2]] + m.want + src[x[3]:], m.what, m.want
	}
	return "", "", ""
}

var fileLine = regexp.MustCompile(`([\w/.-]+\.go):(\d+)`)

// Reject runs the tool on packages with exactly one invalid declaration.
func Reject(run *vh.Run) {
	e, err := NewEnv(false)
	if err != nil {
		vh.Fatal("%v", err)
	}
	bads := BadDecls()
	rounds := run.N(1, 8)
	drawn := run.N(120, 5000)
	run.Count("kinds of invalid declaration", int64(len(bads)))
	total := rounds*len(bads) + drawn
	const workers = 8
	type state struct {
		dir  string
		base Tree
		recs string
		p    *Project
	}
	st := make([]*state, workers)
	var mu sync.Mutex
	Parallel(total, workers, func(i, w int) {
		r := rand.New(rand.NewSource(run.Seed*1000003 + int64(i)))
		s := st[w]
		if s == nil || i%200 == w {
			// a module with two packages whose outputs exist
			if s != nil {
				s.p.Remove()
			}
			for try := int64(0); ; try++ {
				g := NewGen(run.Seed*7001 + int64(w)*31 + int64(i)*13 + try*100003)
				p := NewProject(e, g, []string{"a", "a/b"}, 2, 3)
				if err := p.Write(); err != nil {
					vh.Fatal("%v", err)
				}
				res := e.RunCmd(p.Dir, 0, e.CLI, "-db", e.DSN(), "-wd", "a", "-r")
				if res.Code == 0 {
					s = &state{dir: p.Dir, base: Snapshot(p.Dir), p: p}
					st[w] = s
					break
				}
				p.Remove()
				if try == 5 {
					run.Violate("valid-rejected", map[string]string{"output": res.Out}, "valid packages are refused: %s", clip(res.Out, 400))
					return
				}
			}
		}
		var src, what string
		var wants []string
		if i < rounds*len(bads) {
			b := bads[i%len(bads)]
			src, what, wants = b.Render(fmt.Sprintf("X%d", i)), b.What, b.Wants
		} else {
			var want, m string
			for src == "" {
				g := NewGen(run.Seed*9001 + int64(i)*17 + r.Int63n(1000))
				g.n = 9000
				src, m, want = mutate(r, g.Draw(1, "SIUD")[0])
			}
			_ = want // another part of the target may be the first not to fit
			what = "unknown " + m
		}
		pkg := pickS(r, "a", "a/b")
		// in a file of its own, or before or after the targets of an existing one
		name := pkg + "/" + pickS(r, "aa0.go", "zz9.go", "f0.go", "f1.go")
		var text string
		start := 1
		if old, ok := s.base[name]; ok {
			// keep the file's targets; imports are those of both
			body := old[strings.Index(old, ")\n")+2:]
			if strings.Contains(old, "\nimport (") {
				if r.Intn(2) == 0 {
					text = badFile(filepath.Base(pkg), src+"\n"+body)
				} else {
					text = badFile(filepath.Base(pkg), body+"\n"+src)
				}
			}
		} else {
			text = badFile(filepath.Base(pkg), src)
		}
		k := strings.Index(text, src)
		start = 1 + strings.Count(text[:k], "\n")
		end := start + strings.Count(src, "\n")
		full := filepath.Join(s.dir, name)
		os.WriteFile(full, []byte(text), 0o644)
		// outputs that are out of date, or not there, are of no concern to a refused run either
		for _, f := range s.p.Files {
			switch r.Intn(4) {
			case 0:
				os.WriteFile(filepath.Join(s.dir, f.Out()), []byte("package "+filepath.Base(f.Pkg)+"\n\n// of an earlier day\n"), 0o644)
			case 1:
				os.Remove(filepath.Join(s.dir, f.Out()))
			}
		}
		want := Snapshot(s.dir)
		res := e.RunCmd(s.dir, 0, e.CLI, "-db", e.DSN(), "-wd", "a", "-r")
		after := Snapshot(s.dir)
		s.base.Restore(s.dir)
		run.Eval(what + "|" + filepath.Base(name))
		run.Seen("invalid by", what)
		d := map[string]interface{}{"declaration": src, "file": name, "exit": res.Code, "output": clip(res.Out, 4000)}
		mu.Lock()
		defer mu.Unlock()
		run.Sample(what, map[string]interface{}{"declaration": src, "output": clip(res.Out, 600)})
		switch {
		case res.TimedOut:
			run.Violate("hang", d, "%s: the tool doesn't end", what)
		case res.Panic:
			run.Violate("panic", d, "%s: the tool panics: %s", what, clip(res.Out, 300))
		case res.Code == 0:
			run.Violate("accepted:"+what, d, "%s: accepted", what)
		}
		if x := want.Diff(after); len(x) > 0 {
			d["changed"] = x
			run.Violate("wrote", d, "%s: a refused run changed files: %v", what, x)
		}
		if res.Code == 0 || res.Panic || res.TimedOut {
			return
		}
		ok := false
		for _, m := range fileLine.FindAllStringSubmatch(res.Out, -1) {
			n, _ := strconv.Atoi(m[2])
			if strings.HasSuffix(m[1], "/"+name) && n >= start && n <= end {
				ok = true
			}
		}
		if !ok && !strings.Contains(src, " m.Hid") { // the fields of which are in package m
			run.Violate("place", d, "%s: the message doesn't point into the declaration (%s lines %d-%d): %s", what, name, start, end, clip(res.Out, 300))
		}
		for _, x := range wants {
			if !strings.Contains(res.Out, x) {
				run.Violate("unnamed", d, "%s: the message doesn't name %q: %s", what, x, clip(res.Out, 300))
			}
		}
	})
	for _, s := range st {
		if s != nil {
			s.p.Remove()
		}
	}
	run.Count("tool runs", int64(total))
}

func pickS(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }
