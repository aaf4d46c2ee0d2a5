package gx

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	"github.com/frk/gosql/verifharness/pgconv"
	"github.com/frk/gosql/verifharness/vh"
)

// pairSource renders the targets of a pair.
func pairSource(p pgconv.Pair) (targets, handle string) {
	n := strings.ToUpper(p.ID[:1]) + p.ID[1:]
	ft := p.Go
	conv, back := "v.("+p.Go+")", "rec.V"
	pre := ""
	switch p.Variant {
	case "ptr":
		ft = "*" + p.Go
	case "named":
		ft = "N" + n
		pre = "type " + ft + " " + p.Go + "\n"
		conv, back = ft+"(v.("+p.Go+"))", "("+p.Go+")(rec.V)"
	}
	t := p.Table()
	targets = fmt.Sprintf(`%[1]stype Rec%[2]s struct {
	Id int `+"`sql:\"id,pk\"`"+`
	V %[3]s `+"`sql:\"v\"`"+`
}
type Insert%[2]sQuery struct {
	Rel *Rec%[2]s `+"`rel:\"%[4]s\"`"+`
}
type Update%[2]sQuery struct {
	Rel *Rec%[2]s `+"`rel:\"%[4]s\"`"+`
}
type Select%[2]sQuery struct {
	Rel *Rec%[2]s `+"`rel:\"%[4]s\"`"+`
	Where struct {
		Id int `+"`sql:\"id\"`"+`
	}
}

`, pre, n, ft, t)
	set := fmt.Sprintf("if !null { rec.V = %s }", conv)
	get := fmt.Sprintf("return %s, false, nil", back)
	if p.Variant == "ptr" {
		set = fmt.Sprintf("if !null { x := %s; rec.V = &x }", conv)
		get = "if rec.V == nil { return nil, true, nil }; return *rec.V, false, nil"
	}
	handle = fmt.Sprintf(`	Handles = append(Handles, &pgconv.Handle{ID: %[1]q,
		Insert: func(c gosql.Conn, id int, v interface{}, null bool) error { rec := &Rec%[2]s{Id: id}; %[3]s; q := Insert%[2]sQuery{Rel: rec}; return q.Exec(c) },
		Update: func(c gosql.Conn, id int, v interface{}, null bool) error { rec := &Rec%[2]s{Id: id}; %[3]s; q := Update%[2]sQuery{Rel: rec}; return q.Exec(c) },
		Select: func(c gosql.Conn, id int) (interface{}, bool, error) { q := Select%[2]sQuery{}; q.Where.Id = id; if err := q.Exec(c); err != nil { return nil, false, err }; rec := q.Rel; %[4]s },
	})
`, p.ID, n, set, get)
	return
}

func pairHeader(src string, extra ...string) string {
	s := "package q\n\nimport (\n"
	for _, x := range []string{"net", "time", "database/sql"} {
		if strings.Contains(strings.ReplaceAll(src, "gosql.", ""), filepath.Base(x)+".") {
			s += "\t\"" + x + "\"\n"
		}
	}
	for _, x := range extra {
		s += "\t\"" + x + "\"\n"
	}
	return s + ")\n\n" + src
}

// PairRun is one generation of code for pairs.
type PairRun struct {
	Env      *Env
	Pairs    []pgconv.Pair
	Rejected map[string]string
	NoBuild  map[string]string
	Reports  []pgconv.PairReport
	Fatal    string
	Dir      string
	Max      int // attempts
}

func (x *PairRun) write(ps []pgconv.Pair) string {
	if x.Dir != "" {
		os.RemoveAll(x.Dir)
	}
	dir, err := x.Env.NewModule("")
	if err != nil {
		return err.Error()
	}
	x.Dir = dir
	mod, _ := os.ReadFile(filepath.Join(dir, "go.mod"))
	m := string(mod) + "\nrequire github.com/frk/gosql/verifharness v0.0.0\nreplace github.com/frk/gosql/verifharness => " + filepath.Join(verifRoot(), "harness") + "\n"
	files := map[string]string{"go.mod": m}
	const per = 12
	for i := 0; i < len(ps); i += per {
		var ts strings.Builder
		for j := i; j < i+per && j < len(ps); j++ {
			t, _ := pairSource(ps[j])
			ts.WriteString(t)
		}
		files[fmt.Sprintf("q/t%03d.go", i/per)] = pairHeader(ts.String())
	}
	if err := WriteFiles(dir, files); err != nil {
		return err.Error()
	}
	return ""
}

// Go generates, builds and runs.
func (x *PairRun) Go(n int, seed int64) {
	x.Rejected, x.NoBuild = map[string]string{}, map[string]string{}
	live := append([]pgconv.Pair{}, x.Pairs...)
	drop := func(id, msg string, into map[string]string) bool {
		for i, p := range live {
			if strings.EqualFold(p.ID, id) {
				into[p.ID] = msg
				live = append(live[:i:i], live[i+1:]...)
				return true
			}
		}
		return false
	}
	if x.Max == 0 {
		x.Max = 12
	}
	for a := 0; a < x.Max && len(live) > 0; a++ {
		if x.Fatal = x.write(live); x.Fatal != "" {
			return
		}
		q := filepath.Join(x.Dir, "q")
		res := x.Env.Run(x.Dir, nil, "-db", x.Env.DSN(), "-wd", q)
		if res.Code != 0 {
			ok := false
			if m := errPos.FindStringSubmatch(res.Out); m != nil && !res.Panic {
				src, _ := os.ReadFile(filepath.Join(x.Dir, "q", m[1]))
				lines := strings.Split(string(src), "\n")
				var ln int
				fmt.Sscan(m[2], &ln)
				for i := ln - 1; i >= 0 && i < len(lines) && !ok; i-- {
					if s := pairTarget.FindStringSubmatch(lines[i]); s != nil {
						ok = drop(s[1], res.Out, x.Rejected)
						break
					}
				}
			}
			if m := pairTarget.FindStringSubmatch(res.Out); m != nil && !ok && !res.Panic {
				ok = drop(m[1], res.Out, x.Rejected)
			}
			if !ok {
				x.Fatal = "the tool fails without naming a target: " + res.Out
				return
			}
			continue
		}
		var hs strings.Builder
		hs.WriteString("var Handles []*pgconv.Handle\n\nfunc init() {\n")
		for _, p := range live {
			_, h := pairSource(p)
			hs.WriteString(h)
		}
		hs.WriteString("}\n")
		specs, _ := json.Marshal(stripTypes(live))
		WriteFiles(x.Dir, map[string]string{
			"q/zz_handles.go": pairHeader(hs.String(), "github.com/frk/gosql", "github.com/frk/gosql/verifharness/pgconv"),
			"specs.json":      string(specs),
			"d/main.go":       fmt.Sprintf("package main\n\nimport (\n\t\"os\"\n\n\t\"github.com/frk/gosql/verifharness/pgconv\"\n\t\"gx.test/q\"\n)\n\nfunc main() {\n\tb, err := os.ReadFile(\"specs.json\")\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tpgconv.RunPairs(b, q.Handles, %d, %d)\n}\n", n, seed),
		})
		out, err := x.Env.Go(x.Dir, "build", "-gcflags=-e", "-o", "driver", "./d")
		if err != nil {
			was := len(live)
			for _, m := range errLine.FindAllStringSubmatch(out, -1) {
				src, _ := os.ReadFile(filepath.Join(x.Dir, "q", m[1]+".go"))
				lines := strings.Split(string(src), "\n")
				var ln int
				fmt.Sscan(m[2], &ln)
				for i := ln - 1; i >= 0 && i < len(lines); i-- {
					if s := pairTarget.FindStringSubmatch(lines[i]); s != nil {
						drop(s[1], m[3], x.NoBuild)
						break
					}
				}
			}
			if len(live) == was {
				x.Fatal = "the generated code does not build: " + clip(out, 3000)
				return
			}
			continue
		}
		cmd := exec.Command(filepath.Join(x.Dir, "driver"))
		cmd.Dir = x.Dir
		cmd.Env = append(os.Environ(), "GX_DSN="+x.Env.DSN())
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err = cmd.Run()
		sc := bufio.NewScanner(&so)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			var r pgconv.PairReport
			if json.Unmarshal(sc.Bytes(), &r) == nil {
				x.Reports = append(x.Reports, r)
			}
		}
		if err != nil {
			x.Fatal = fmt.Sprintf("the driver failed: %v\n%s", err, tail(se.String(), 3000))
		}
		return
	}
}

func stripTypes(ps []pgconv.Pair) []pgconv.Pair {
	out := append([]pgconv.Pair{}, ps...)
	for i := range out {
		out[i].Type = nil
	}
	return out
}

// PairVariants yields the i-th variant of every pair.
func PairVariants(ps []pgconv.Pair, i int) (out []pgconv.Pair) {
	for k, p := range ps {
		switch (k + i) % 5 {
		case 0:
			p.Variant = "plain"
		case 1:
			p.Variant = "ptr"
		case 2:
			p.Variant = "plain"
			p.NotNull = true
		case 3:
			p.Variant = "named"
		case 4:
			p.Variant = "named"
			p.NotNull = true
		}
		if p.Variant == "named" && (p.Go == "byte" || p.Go == "rune" || p.Type.Kind() == reflect.Slice || p.Type.Kind() == reflect.Array || p.Type.Kind() == reflect.Map || p.Type.Kind() == reflect.Struct) {
			p.Variant = "plain" // the tool refuses those
		}
		if p.Variant == "ptr" && (p.Conv != "" || p.Text && (p.Base == "Date" || p.Base == "Time" || p.Base == "Timetz")) {
			p.Variant = "plain" // the converters take the unnamed types; the tool refuses others
		}
		out = append(out, p)
	}
	return
}

var errPos = regexp.MustCompile(`/q/(t\d+\.go):(\d+)`)
var pairTarget = regexp.MustCompile(`\b(?:Rec|Insert|Update|Select|N)(P\d+)`)

var _ = vh.Fatal

// PairMatrix runs the code generated for every pairing of a column type with a Go type.
func PairMatrix(run *vh.Run) {
	e, err := NewEnv(false)
	if err != nil {
		vh.Fatal("environment: %v", err)
		return
	}
	ps, err := pgconv.Pairs()
	if err != nil {
		vh.Fatal("pairs: %v", err)
		return
	}
	if _, err := e.DB.Exec(pgconv.PairDDL(ps)); err != nil {
		vh.Fatal("tables: %v", err)
		return
	}
	run.Count("column type and Go type pairings", int64(len(ps)))
	rounds := run.N(5, 20)
	for i := 0; i < rounds; i++ {
		x := &PairRun{Env: e, Pairs: PairVariants(ps, int(run.Seed)+i*3)}
		x.Go(run.N(12, 120), run.Seed*101+int64(i))
		name := map[string]string{}
		for _, p := range x.Pairs {
			nn := "nullable"
			if p.NotNull {
				nn = "not null"
			}
			name[p.ID] = fmt.Sprintf("%s %s column, %s field (%s)", p.SQL, nn, p.Go, p.Variant)
			run.Seen("field form", p.Variant+" "+nn)
			run.Seen("column type", p.SQL)
			run.Seen("Go type", p.Go)
		}
		if x.Fatal != "" {
			run.Violate("tool-or-build", map[string]interface{}{"output": clip(x.Fatal, 6000)}, "no working code for the pairings: %s", clip(x.Fatal, 400))
		}
		for id, m := range x.Rejected {
			run.Eval("rejected " + name[id])
			run.Violate("rejected", map[string]interface{}{"pair": name[id], "output": clip(m, 3000)}, "%s: the tool refuses a pairing that the library has a converter for: %s", name[id], clip(m, 300))
		}
		for id, m := range x.NoBuild {
			run.Eval("nobuild " + name[id])
			run.Violate("no-build", map[string]interface{}{"pair": name[id], "output": clip(m, 3000)}, "%s: accepted, but the generated code doesn't compile: %s", name[id], clip(m, 300))
		}
		for _, r := range x.Reports {
			for s, n := range r.Shapes {
				for k := 0; k < n; k++ {
					run.Eval(name[r.ID] + "|" + s)
				}
			}
			if r.Key != "" {
				key := r.Key
				if strings.HasPrefix(r.Msg, "float8 column, ") && !strings.Contains(r.Msg, "(ptr)") && (r.Key == "insert-error" || r.Key == "update-error") &&
					(strings.Contains(r.Msg, "invalid input syntax for type integer") || strings.Contains(r.Msg, "out of range for type integer")) {
					key = "float8-nullif-integer"
				}
				run.Violate(key, map[string]interface{}{"pair": name[r.ID], "message": r.Msg}, "%s: %s", r.Key, clip(r.Msg, 700))
			}
		}
		run.Sample("pairing", map[string]interface{}{"accepted": len(x.Pairs) - len(x.Rejected) - len(x.NoBuild), "round": i})
	}
}
