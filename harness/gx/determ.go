package gx

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/frk/gosql/verifharness/vh"
)

// Parts are the declarations of a generated file by the type (or name) they belong to.
type Parts struct {
	Decls   map[string]string
	Imports []string
	Order   []string
}

// Split parses a generated file.
func Split(src string) (*Parts, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	p := &Parts{Decls: map[string]string{}}
	for _, d := range f.Decls {
		name := ""
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				for _, s := range d.Specs {
					i := s.(*ast.ImportSpec)
					n := ""
					if i.Name != nil {
						n = i.Name.Name + " "
					}
					p.Imports = append(p.Imports, n+i.Path.Value)
				}
				continue
			}
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					name = s.Names[0].Name
				case *ast.TypeSpec:
					name = s.Name.Name
				}
			}
		case *ast.FuncDecl:
			name = d.Name.Name
			if d.Recv != nil {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				name = t.(*ast.Ident).Name
			}
		}
		if m := targetName.FindString(name); m != "" {
			name = m
		}
		if _, ok := p.Decls[name]; !ok {
			p.Order = append(p.Order, name)
		}
		a, b := d.Pos(), d.End()
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
			a = fd.Doc.Pos()
		}
		p.Decls[name] += src[fset.Position(a).Offset:fset.Position(b).Offset] + "\n"
	}
	sort.Strings(p.Imports)
	return p, nil
}

var mQual = regexp.MustCompile(`\bm\.([A-Z])`)

func unqualify(s string) string {
	s = mQual.ReplaceAllString(s, "$1")
	if b, err := format.Source([]byte(s)); err == nil { // the width of the types has changed
		s = string(b)
	}
	return s
}

// Determinism runs the tool over variations of the same declarations that must not matter.
func Determinism(run *vh.Run) {
	e, err := NewEnv(false)
	if err != nil {
		vh.Fatal("%v", err)
	}
	Parallel(run.N(24, 2000), 8, func(i, w int) {
		r := rand.New(rand.NewSource(run.Seed*1000003 + int64(i)))
		g := NewGen(run.Seed*7001 + int64(i)*13)
		g.Imported = i%2 == 0
		p := NewProject(e, g, []string{"a", "b/c"}, 2, 3)
		for _, f := range p.Files {
			for _, t := range f.Targets {
				t.Unignorable()
			}
		}
		flags := [][]string{nil, {"-with-ctx"}, {"-qid"}, {"-with-ctx", "-qid"}}[r.Intn(4)]
		if err := p.Write(); err != nil {
			vh.Fatal("%v", err)
		}
		defer p.Remove()
		src := Snapshot(p.Dir)
		argv := append([]string{e.CLI, "-db", e.DSN(), "-wd", ".", "-r"}, flags...)
		res := e.RunCmd(p.Dir, 0, argv...)
		if res.Code != 0 {
			run.Violate("valid-rejected", map[string]string{"output": res.Out}, "valid packages are refused: %s", clip(res.Out, 300))
			return
		}
		base := Snapshot(p.Dir)
		outs := map[string]string{}
		parts := map[string]*Parts{}
		for _, f := range p.Files {
			outs[f.Out()] = base[f.Out()]
			if parts[f.Out()], err = Split(base[f.Out()]); err != nil {
				run.Violate("unparsable", map[string]string{"generated": base[f.Out()]}, "an output is no Go: %v", err)
				return
			}
			// a method for each target, in the order of the declarations
			var want []string
			for _, t := range f.Targets {
				want = append(want, t.Name)
			}
			if strings.Join(want, " ") != strings.Join(parts[f.Out()].Order, " ") {
				run.Violate("order", map[string]string{"generated": base[f.Out()]}, "the targets of %s are %v, its output has %v", f.Path, want, parts[f.Out()].Order)
			}
		}
		check := func(what, dir string, res CLIResult, want map[string]string, absent ...string) {
			run.Eval(fmt.Sprintf("%s|%d", what, i))
			run.Seen("variation", what)
			if res.Code != 0 {
				run.Violate("refused:"+what, map[string]string{"output": res.Out}, "%s: refused: %s", what, clip(res.Out, 300))
				return
			}
			for f, s := range want {
				b, _ := os.ReadFile(filepath.Join(dir, f))
				run.Count("files compared", 1)
				if string(b) != s {
					run.Violate("differs:"+what, map[string]interface{}{"file": f, "want": clip(s, 20000), "got": clip(string(b), 20000), "flags": flags, "at": firstDiff(s, string(b))}, "%s: %s differs: %s", what, f, firstDiff(s, string(b)))
				}
			}
			for _, f := range absent {
				if _, err := os.Stat(filepath.Join(dir, f)); err == nil {
					run.Violate("unasked:"+what, map[string]string{"file": f}, "%s: %s was written", what, f)
				}
			}
		}
		checkParts := func(what string, res CLIResult, files map[string][]string) {
			run.Eval(fmt.Sprintf("%s|%d", what, i))
			run.Seen("variation", what)
			if res.Code != 0 {
				run.Violate("refused:"+what, map[string]string{"output": res.Out}, "%s: refused: %s", what, clip(res.Out, 300))
				return
			}
			now := Snapshot(p.Dir)
			for out, names := range files {
				s, ok := now[out]
				if !ok {
					if len(names) > 0 {
						run.Violate("missing:"+what, map[string]string{"file": out}, "%s: %s is missing", what, out)
					}
					continue
				}
				q, err := Split(s)
				if err != nil {
					run.Violate("unparsable", map[string]string{"generated": s}, "an output is no Go: %v", err)
					continue
				}
				if strings.Join(q.Order, " ") != strings.Join(names, " ") {
					run.Violate("targets:"+what, map[string]string{"generated": s}, "%s: %s should have the targets %v, it has %v", what, out, names, q.Order)
				}
				for _, n := range names {
					want := ""
					for _, pp := range parts {
						if d, ok := pp.Decls[n]; ok {
							want = d
						}
					}
					run.Count("methods compared", 1)
					if q.Decls[n] != want {
						run.Violate("differs:"+what, map[string]interface{}{"target": n, "want": want, "got": q.Decls[n], "flags": flags}, "%s: the method of %s differs: %s", what, n, firstDiff(want, q.Decls[n]))
					}
				}
			}
		}

		check("again over its own outputs", p.Dir, e.RunCmd(p.Dir, 0, argv...), outs)

		src.Restore(p.Dir)
		stale := map[string]string{}
		for f := range outs {
			stale[f] = pickS(r, "package "+filepath.Base(filepath.Dir(f))+"\n", strings.Replace(outs[f], "return", "if false { panic(0) }\n\treturn", 1), "")
			if stale[f] == "" {
				delete(stale, f)
			}
		}
		WriteFiles(p.Dir, stale)
		check("over stale outputs", p.Dir, e.RunCmd(p.Dir, 0, argv...), outs)

		src.Restore(p.Dir)
		check("with many processors, another locale and time zone", p.Dir, e.RunCmd(p.Dir, 0, append([]string{"env", "GOMAXPROCS=8", "GOGC=1", "TZ=Asia/Kathmandu", "LANG=de_DE.UTF-8", "LC_ALL=C"}, argv...)...), outs)

		src.Restore(p.Dir)
		far := filepath.Join(e.Scratch, fmt.Sprintf("far %d", i), "x-y.z")
		os.MkdirAll(filepath.Dir(far), 0o755)
		exec.Command("cp", "-a", p.Dir, far).Run()
		check("in another directory, run from elsewhere", far, e.RunCmd("/", 0, append([]string{e.CLI, "-r", "-wd", far, "-db", e.DSN()}, flags...)...), outs)
		os.RemoveAll(filepath.Dir(far))

		src.Restore(p.Dir)
		f := p.Files[r.Intn(len(p.Files))]
		want := map[string]string{f.Out(): outs[f.Out()]}
		var absent []string
		for o := range outs {
			if o != f.Out() {
				absent = append(absent, o)
			}
		}
		check("one file alone", p.Dir, e.RunCmd(p.Dir, 0, append([]string{e.CLI, "-db", e.DSN(), "-r", "-f", f.Path}, flags...)...), want, absent...)

		src.Restore(p.Dir)
		a := e.RunCmd(p.Dir, 0, append([]string{e.CLI, "-db", e.DSN(), "-wd", "a"}, flags...)...)
		check("one package at a time", p.Dir, a, map[string]string{p.Files[0].Out(): outs[p.Files[0].Out()], p.Files[1].Out(): outs[p.Files[1].Out()]}, p.Files[2].Out(), p.Files[3].Out())

		// comments, blank lines, and the place of the records do not matter
		src.Restore(p.Dir)
		for _, f := range p.Files {
			t := src[f.Path]
			t = strings.Replace(t, "\n)\n", "\n)\n\n// a comment\n\n/* and\nanother */\n\nconst z"+strings.TrimSuffix(filepath.Base(f.Path), ".go")+" = 1\n", 1)
			t = strings.ReplaceAll(t, "\n}\n", "\n\t// inside\n\n}\n\n\n")
			os.WriteFile(filepath.Join(p.Dir, f.Path), []byte("// Licence.\n\n// Package doc.\n"+t), 0o644)
		}
		check("comments and blank lines", p.Dir, e.RunCmd(p.Dir, 0, argv...), outs)

		// files renamed
		src.Restore(p.Dir)
		ren := map[string]string{}
		for _, f := range p.Files {
			n := filepath.Join(f.Pkg, pickS(r, "zz.", "A-", "_0", "ünï")+"") // below
			n = filepath.Join(f.Pkg, fmt.Sprintf("%s%s.go", pickS(r, "zz.", "A-", "q_", "ünï"), strings.TrimSuffix(filepath.Base(f.Path), ".go")))
			os.Rename(filepath.Join(p.Dir, f.Path), filepath.Join(p.Dir, n))
			ren[strings.TrimSuffix(n, ".go")+"_gosql.go"] = outs[f.Out()]
		}
		check("files renamed", p.Dir, e.RunCmd(p.Dir, 0, argv...), ren)

		// the targets of a file in another order
		src.Restore(p.Dir)
		perm := map[string][]string{}
		for _, f := range p.Files {
			old := f.Targets
			f.Targets = append([]*Target{}, old...)
			r.Shuffle(len(f.Targets), func(i, j int) { f.Targets[i], f.Targets[j] = f.Targets[j], f.Targets[i] })
			perm[f.Out()] = nil
			for _, t := range f.Targets {
				perm[f.Out()] = append(perm[f.Out()], t.Name)
			}
			os.WriteFile(filepath.Join(p.Dir, f.Path), []byte(p.Source(f)), 0o644)
			defer func(f *PFile) { f.Targets = old }(f)
		}
		checkParts("targets in another order", e.RunCmd(p.Dir, 0, argv...), perm)
		src.Restore(p.Dir)

		// some targets ignored, by every form of the directive
		some := map[string][]string{}
		for _, f := range p.Files {
			t := src[f.Path]
			some[f.Out()] = nil
			for _, x := range parts[f.Out()].Order {
				if r.Intn(2) == 0 {
					some[f.Out()] = append(some[f.Out()], x)
					continue
				}
				t = strings.Replace(t, "type "+x+" struct {", pickS(r, "// gosql:ignore\n", "//gosql:ignore\n", "/* gosql:ignore */\n", "// About it.\n//\n// gosql:ignore because\n")+"type "+x+" struct {", 1)
			}
			os.WriteFile(filepath.Join(p.Dir, f.Path), []byte(t), 0o644)
		}
		checkParts("some targets ignored", e.RunCmd(p.Dir, 0, argv...), some)

		// each target in a file of its own
		src.Restore(p.Dir)
		own := map[string][]string{}
		var files []*PFile
		for _, f := range p.Files {
			for _, t := range f.Targets {
				o := &PFile{Path: f.Pkg + "/o" + strings.ToLower(t.Name) + ".go", Pkg: f.Pkg, Targets: []*Target{t}}
				files = append(files, o)
				own[o.Out()] = []string{t.Name}
			}
			os.Remove(filepath.Join(p.Dir, f.Path))
		}
		q := &Project{Env: e, Dir: p.Dir, Files: files, Recs: p.Recs}
		for _, f := range files {
			os.WriteFile(filepath.Join(p.Dir, f.Path), []byte(q.Source(f)), 0o644)
		}
		checkParts("a file for each target", e.RunCmd(p.Dir, 0, argv...), own)

		// more packages: the one of the shared records with the same targets, and an unrelated one
		src.Restore(p.Dir)
		mine := map[string]string{}
		for k, f := range p.Files {
			s := strings.Replace(src[f.Path], "\n\t\"gx.test/m\"\n", "\n", 1)
			var recs []string
			for _, x := range f.Targets {
				for _, c := range x.recs() {
					if !c.Imported {
						recs = append(recs, c.Name)
					}
				}
			}
			if len(recs) > 0 {
				continue // these declare their records themselves
			}
			s = strings.Replace(unqualify(s), "package "+filepath.Base(f.Pkg)+"\n", "package m\n", 1)
			n := fmt.Sprintf("m/t%d.go", k)
			os.WriteFile(filepath.Join(p.Dir, n), []byte(s), 0o644)
			mine[fmt.Sprintf("m/t%d_gosql.go", k)] = f.Out()
		}
		g2 := NewGen(run.Seed*17 + int64(i))
		p2 := NewProject(e, g2, []string{"aa"}, 1, 2)
		WriteFiles(p.Dir, map[string]string{"aa/f0.go": p2.Source(p2.Files[0])})
		res = e.RunCmd(p.Dir, 0, argv...)
		check("more packages", p.Dir, res, outs)
		if res.Code == 0 {
			for n, of := range mine {
				b, _ := os.ReadFile(filepath.Join(p.Dir, n))
				x, err := Split(string(b))
				if err != nil {
					run.Violate("unparsable", map[string]string{"generated": string(b)}, "an output is no Go: %v", err)
					continue
				}
				for t, d := range parts[of].Decls {
					run.Count("methods compared", 1)
					if y := unqualify(d); y != unqualify(x.Decls[t]) {
						run.Violate("differs:local-imported", map[string]interface{}{"target": t, "imported": d, "local": x.Decls[t]}, "the method of %s depends on where its record lives: %s", t, firstDiff(y, x.Decls[t]))
					}
				}
			}
			namesakes(e, run, p, parts, src, argv)
			out, err := e.Go(p.Dir, "vet", "-composites=false", "-structtag=false", "./...")
			run.Count("modules compiled", 1)
			if err != nil && !strings.Contains(out, "unusedresult") {
				run.Violate("compile", map[string]string{"output": out}, "the packages don't compile: %s", clip(out, 400))
			}
		}
	})
}

var anyQual = regexp.MustCompile(`\b(?:m|m\d+|v\dm)\.([A-Z])`)

// namesakes puts the same targets side by side in one package, over records of the same name from four packages, three
// of which have the same name too.
func namesakes(e *Env, run *vh.Run, p *Project, parts map[string]*Parts, src Tree, argv []string) {
	quals := []string{"m.", "v1m.", "v2m.", ""}
	names := map[string]string{} // target to the original's
	of := map[string]*Parts{}    // target to its parts
	bodies := make([]string, len(quals))
	for _, f := range p.Files {
		for _, t := range f.Targets {
			local, any := false, false
			for _, c := range t.recs() {
				local, any = local || !c.Imported, true
			}
			if local || !any {
				continue
			}
			s := t.Source()
			for k, q := range quals {
				sfx := string(rune('A' + k))
				names[t.Name+sfx], of[t.Name+sfx] = t.Name, parts[f.Out()]
				x := strings.ReplaceAll(s, t.Name, t.Name+sfx)
				bodies[k] += mQual.ReplaceAllString(x, q+"$1") + "\n"
			}
		}
	}
	if len(names) == 0 {
		return
	}
	text := func(body string) string {
		h := header("tw", body)
		imp := ""
		if !mRef.MatchString(body) {
			h = strings.Replace(h, "\n)\n", "\n\t\"gx.test/m\"\n)\n", 1)
			imp = "_ "
		}
		for _, v := range []string{"v1", "v2"} {
			if strings.Contains(body, v+"m.") {
				h = strings.Replace(h, "\n)\n", "\n\t"+v+"m \"gx.test/"+v+"/m\"\n)\n", 1)
			}
		}
		return strings.Replace(h, "\t\"gx.test/m\"", "\t"+imp+"\"gx.test/m\"", 1)
	}
	// v1's records, and the local ones, have their fields the other way around
	reversed := mSource
	for _, c := range p.Recs {
		if c.Imported {
			d := *c
			d.Fields = nil
			for _, f := range c.Fields {
				d.Fields = append([]*Field{f}, d.Fields...)
			}
			reversed += d.Source()
		}
	}
	files := map[string]string{"v1/m/m.go": reversed, "v2/m/m.go": src["m/m.go"], "tw/m.go": strings.Replace(reversed, "package m\n", "package tw\n", 1)}
	const what = "records of the same name"
	gen := func(body string) map[string]string {
		files["tw/t.go"] = text(body)
		WriteFiles(p.Dir, files)
		os.Remove(filepath.Join(p.Dir, "tw/t_gosql.go"))
		a := append([]string{}, argv...)
		for i := range a {
			if a[i] == "-wd" {
				a[i+1] = "tw"
			}
		}
		res := e.RunCmd(p.Dir, 0, a...)
		if res.Code != 0 {
			run.Violate("refused:"+what, map[string]string{"output": res.Out, "source": files["tw/t.go"]}, "%s: refused: %s", what, clip(res.Out, 300))
			return nil
		}
		b, _ := os.ReadFile(filepath.Join(p.Dir, "tw/t_gosql.go"))
		x, err := Split(string(b))
		if err != nil {
			run.Violate("unparsable", map[string]string{"generated": string(b)}, "an output is no Go: %v", err)
			return nil
		}
		return x.Decls
	}
	norm := func(s, n string) string {
		s = anyQual.ReplaceAllString(strings.ReplaceAll(s, n, names[n]), "$1")
		if b, err := format.Source([]byte(s)); err == nil {
			s = string(b)
		}
		return s
	}
	alone := []map[string]string{nil, gen(bodies[1]), nil, gen(bodies[3])}
	all := gen(bodies[1] + bodies[0] + bodies[3] + bodies[2])
	if alone[1] == nil || alone[3] == nil || all == nil {
		return
	}
	run.Eval(what + fmt.Sprint(len(names)))
	run.Seen("variation", what)
	for n, orig := range names {
		run.Count("methods compared", 1)
		got, want := norm(all[n], n), ""
		if k := n[len(n)-1] - 'A'; alone[k] != nil {
			want = norm(alone[k][n], n)
		} else {
			want = norm(of[n].Decls[orig], n)
		}
		if want != got {
			run.Violate("differs:"+what, map[string]interface{}{"target": n, "want": want, "got": got}, "the method of %s depends on records of the same name elsewhere: %s", n, firstDiff(want, got))
		}
	}
}

// Unignorable makes the target's declaration start with its type.
func (t *Target) Unignorable() { t.Forms = nil }

func firstDiff(a, b string) string {
	x, y := bytes.Split([]byte(a), []byte("\n")), bytes.Split([]byte(b), []byte("\n"))
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = string(x[i])
		}
		if i < len(y) {
			q = string(y[i])
		}
		if p != q {
			return fmt.Sprintf("line %d: %q, now %q", i+1, clip(p, 200), clip(q, 200))
		}
	}
	return ""
}
