package gx

import (
	"bytes"
	"database/sql"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	_ "github.com/lib/pq" // the driver
)

//go:embed rt/rt.go
var rtSource string

// Env is a database, a CLI binary and room for scratch modules.
type Env struct {
	Scratch, CLI, DBName string
	DB                   *sql.DB
	seq                  int64
	CLIRuns, Builds      int64
}

// NewEnv builds the CLI from /repo's tree and creates the database.
func NewEnv(race bool) (*Env, error) {
	root := os.Getenv("VERIF_SCRATCH")
	if root == "" {
		var err error
		if root, err = os.MkdirTemp("", "gx"); err != nil {
			return nil, err
		}
	}
	e := &Env{Scratch: filepath.Join(root, "gx"), CLI: filepath.Join(root, "gx", "gosql"), DBName: "gx"}
	if n := os.Getenv("GXDB"); n != "" {
		e.DBName = n // development: several at a time
	}
	if race {
		e.CLI += "-race"
	}
	if err := os.MkdirAll(e.Scratch, 0o755); err != nil {
		return nil, err
	}
	args := []string{"build", "-o", e.CLI}
	if race {
		args = append(args, "-race")
	}
	if os.Getenv("GXCOVER") != "" { // development: which code of the tool the checks run
		args = append(args, "-cover", "-coverpkg=github.com/frk/gosql/internal/...,github.com/frk/gosql/cmd/gosql")
	}
	cmd := exec.Command("go", append(args, "github.com/frk/gosql/cmd/gosql")...)
	cmd.Dir = filepath.Join(verifRoot(), "harness")
	if b, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building the CLI: %v\n%s", err, b)
	}
	a, err := sql.Open("postgres", dsn("postgres"))
	if err != nil {
		return nil, err
	}
	defer a.Close()
	if _, err := a.Exec(`DROP DATABASE IF EXISTS ` + e.DBName); err != nil {
		return nil, err
	}
	if _, err := a.Exec(`CREATE DATABASE ` + e.DBName); err != nil {
		return nil, err
	}
	if e.DB, err = sql.Open("postgres", e.DSN()); err != nil {
		return nil, err
	}
	if _, err := e.DB.Exec(DDL()); err != nil {
		return nil, err
	}
	return e, nil
}

func verifRoot() string {
	if s := os.Getenv("VERIF_ROOT"); s != "" {
		return s
	}
	return "/verif"
}

func dsn(db string) string {
	u := os.Getenv("PGUSER")
	if u == "" {
		u = "postgres"
	}
	return fmt.Sprintf("host=%s port=%s user=%s dbname=%s sslmode=disable", os.Getenv("PGHOST"), os.Getenv("PGPORT"), u, db)
}

// DSN is the connection string of the schema's database.
func (e *Env) DSN() string { return dsn(e.DBName) }

// mSource is package m without records.
const mSource = `// Package m holds imported types.
package m

import (
	"database/sql/driver"
	"fmt"
	"time"
	"unsafe"

	"gx.test/rt"
)

type Num int

type Str string

type JS map[string]string

// Wrap stores NULL for "".
type Wrap struct{ S string }

func (w Wrap) Value() (driver.Value, error) {
	if w.S == "" {
		return nil, nil
	}
	return w.S, nil
}

func (w *Wrap) Scan(src interface{}) error {
	switch s := src.(type) {
	case nil:
		w.S = ""
	case string:
		w.S = s
	case []byte:
		w.S = string(s)
	default:
		return fmt.Errorf("Wrap: %T", src)
	}
	return nil
}

type hidRec struct {
	Id int ` + "`sql:\"id\"`" + `
}

// HidLimit and others have fields that other packages cannot access.
type HidLimit struct {
	Rel   *hidRec ` + "`rel:\"t_user:u\"`" + `
	Where struct {
		Id int ` + "`sql:\"id\"`" + `
	}
	limit int
}

type HidOffset struct {
	Rel    *hidRec ` + "`rel:\"t_user:u\"`" + `
	offset int
}

type HidRel struct {
	rel   *hidRec ` + "`rel:\"t_user:u\"`" + `
	Where struct {
		Id int ` + "`sql:\"id\"`" + `
	}
}

type HidWhere struct {
	Rel   *hidRec ` + "`rel:\"t_user:u\"`" + `
	where struct {
		Id int ` + "`sql:\"id\"`" + `
	}
}

type HidCount struct {
	Rel   *hidRec ` + "`rel:\"t_user:u\"`" + `
	Where struct {
		Id int ` + "`sql:\"id\"`" + `
	}
	rowsAffected int
}

var _ time.Time
var _ = rt.Log
var _ unsafe.Pointer

`

// NewModule creates a scratch module with packages rt and m.
func (e *Env) NewModule(records string) (string, error) {
	n := atomic.AddInt64(&e.seq, 1)
	dir := filepath.Join(e.Scratch, fmt.Sprintf("mod%d", n))
	os.RemoveAll(dir)
	gm, err := os.ReadFile(filepath.Join(verifRoot(), "harness", "go.mod"))
	if err != nil {
		return "", err
	}
	gs, err := os.ReadFile(filepath.Join(verifRoot(), "harness", "go.sum"))
	if err != nil {
		return "", err
	}
	mod := strings.Replace(string(gm), "module github.com/frk/gosql/verifharness", "module gx.test", 1)
	files := map[string]string{"go.mod": mod, "go.sum": string(gs), "rt/rt.go": rtSource, "m/m.go": mSource + records}
	return dir, WriteFiles(dir, files)
}

// WriteFiles writes files below dir.
func WriteFiles(dir string, files map[string]string) error {
	for n, s := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// CLIResult is one run of the tool.
type CLIResult struct {
	Code     int
	Out      string
	Panic    bool
	TimedOut bool
}

// Run runs the CLI.
func (e *Env) Run(dir string, env []string, args ...string) CLIResult {
	atomic.AddInt64(&e.CLIRuns, 1)
	cmd := exec.Command(e.CLI, args...)
	cmd.Dir = dir
	cmd.Env = append(append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off"), env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	r := CLIResult{}
	if err := cmd.Start(); err != nil {
		return CLIResult{Code: -1, Out: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			r.Code = -1
			if x, ok := err.(*exec.ExitError); ok {
				r.Code = x.ExitCode()
			}
		}
	case <-time.After(4 * time.Minute):
		cmd.Process.Kill()
		<-done
		r.Code, r.TimedOut = -2, true
	}
	r.Out = ansi.ReplaceAllString(b.String(), "")
	r.Panic = strings.Contains(r.Out, "panic: ") || strings.Contains(r.Out, "fatal error: ") || strings.Contains(r.Out, "(PANIC=")
	return r
}

// Go runs the go command in a module.
func (e *Env) Go(dir string, args ...string) (string, error) {
	atomic.AddInt64(&e.Builds, 1)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")
	b, err := cmd.CombinedOutput()
	return string(b), err
}

// Obs mirrors rt.Obs.
type Obs struct {
	Name   string
	Case   int
	Err    string
	State  string
	NoRows bool
	Panic  string
	Calls  []struct {
		Fn, Q string
		Args  []string
	}
	Dump   interface{}
	Tables map[string]string
	Extra  map[string]string
}

// Batch is a set of targets generated and executed together.
type Batch struct {
	Env     *Env
	Ts      []*Target
	Recs    []*Rec
	PerFile int
	Flags   []string
	WithCtx bool
	Arg     string // Go type of the method's argument, as package q writes it
	Method  string // name of the method
	MName   string // name of the package of imported records
	Dir     string

	Rejected map[string]string // target → CLI message
	NoBuild  map[string]string // target → compiler message
	Fatal    string
	Obs      map[string]map[int]*Obs
	Output   map[string]string // target → generated file's text
}

func (b *Batch) imports(s string) string {
	if b.MName == "" {
		return s
	}
	return strings.Replace(s, "\t\"gx.test/m\"\n", "\tm \"gx.test/x/"+b.MName+"\"\n", 1)
}

func (b *Batch) file(i int) string { return fmt.Sprintf("t%03d", i/b.PerFile) }

func qHeader(src string) string {
	var s strings.Builder
	s.WriteString("package q\n\nimport (\n")
	if strings.Contains(src, "context.") {
		s.WriteString("\t\"context\"\n")
	}
	if strings.Contains(src, "time.") {
		s.WriteString("\t\"time\"\n")
	}
	if strings.Contains(src, "unsafe.") {
		s.WriteString("\t\"unsafe\"\n")
	}
	s.WriteString("\n")
	if strings.Contains(src, "gosql.") {
		s.WriteString("\t\"github.com/frk/gosql\"\n")
	}
	if mRef.MatchString(src) {
		s.WriteString("\t\"gx.test/m\"\n")
	}
	if strings.Contains(src, "rt.") {
		s.WriteString("\t\"gx.test/rt\"\n")
	}
	s.WriteString(")\n\n")
	return s.String() + src
}

var mRef = regexp.MustCompile(`\bm\.[A-Z]`)

func (t *Target) recs() (out []*Rec) {
	if t.Rec != nil {
		out = append(out, t.Rec)
	}
	if t.Result != nil && t.Result != t.Rec {
		out = append(out, t.Result)
	}
	return
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

var targetName = regexp.MustCompile(`\b(Select|Insert|Update|Delete|Filter)\d+[A-Za-z]*\b`)

// Go generates, builds and runs the batch. Targets that the tool rejects or whose code does not build are set aside
// and recorded, and the rest continues.
func (b *Batch) Go() {
	b.Rejected, b.NoBuild, b.Obs, b.Output = map[string]string{}, map[string]string{}, map[string]map[int]*Obs{}, map[string]string{}
	if b.PerFile == 0 {
		b.PerFile = 8
	}
	live := append([]*Target{}, b.Ts...)
	for attempt := 0; attempt < 14 && len(live) > 0; attempt++ {
		var drop map[string]string
		files := b.write(live)
		if b.Fatal != "" {
			return
		}
		q := filepath.Join(b.Dir, "q")
		res := b.Env.Run(b.Dir, nil, append([]string{"-db", b.Env.DSN(), "-wd", q}, b.Flags...)...)
		if res.Code != 0 {
			drop = map[string]string{}
			if m := targetName.FindAllString(res.Out, -1); len(m) > 0 && !res.Panic {
				drop[m[0]] = res.Out
			}
			if len(drop) == 0 {
				if n := b.culprit(live); n != "" {
					drop[n] = res.Out
				} else {
					b.Fatal = "the tool fails without naming a target: " + res.Out
					return
				}
			}
			for n, m := range drop {
				b.Rejected[n] = m
			}
			live = without(live, drop)
			continue
		}
		b.cases(live)
		for _, f := range files {
			o, err := os.ReadFile(filepath.Join(q, f+"_gosql.go"))
			if err != nil {
				b.Fatal = "no output for " + f + ": " + err.Error()
				return
			}
			for _, t := range live {
				if t.Pos == f {
					b.Output[t.Name] = string(o)
				}
			}
		}
		out, err := b.Env.Go(b.Dir, "build", "-gcflags=-e", "-o", "driver", "./d")
		if err != nil {
			drop = b.blame(live, out)
			for n, m := range drop {
				b.NoBuild[n] = m
			}
			if len(drop) == 0 {
				if b.PerFile > 1 {
					b.PerFile = 1
					continue
				}
				b.Fatal = "the generated code does not build: " + out
				return
			}
			live = without(live, drop)
			continue
		}
		b.exec()
		return
	}
	if len(live) > 0 && len(b.Rejected)+len(b.NoBuild) == 0 {
		b.Fatal = "too many attempts"
	}
}

func without(ts []*Target, drop map[string]string) (out []*Target) {
	for _, t := range ts {
		if _, ok := drop[t.Name]; !ok {
			out = append(out, t)
		}
	}
	return
}

// culprit bisects.
func (b *Batch) culprit(ts []*Target) string {
	if len(ts) == 1 {
		return ts[0].Name
	}
	for _, h := range [][]*Target{ts[:len(ts)/2], ts[len(ts)/2:]} {
		b.write(h)
		if r := b.Env.Run(b.Dir, nil, append([]string{"-db", b.Env.DSN(), "-wd", filepath.Join(b.Dir, "q")}, b.Flags...)...); r.Code != 0 {
			return b.culprit(h)
		}
	}
	return ""
}

func (b *Batch) write(ts []*Target) []string {
	if b.Dir != "" {
		os.RemoveAll(b.Dir)
	}
	var ms strings.Builder
	for _, r := range b.Recs {
		if r.Imported {
			ms.WriteString(r.Source())
		}
	}
	dir, err := b.Env.NewModule(ms.String())
	if err != nil {
		b.Fatal = err.Error()
		return nil
	}
	b.Dir = dir
	src := map[string]string{}
	done := map[*Rec]bool{}
	wheres := ""
	for i, t := range ts {
		if t.Forms != nil {
			wheres += t.Forms.mdecls
		}
		f := b.file(i)
		t.Pos = f
		src[f] += t.Source() + "\n"
		for _, r := range t.recs() {
			if !r.Imported && !done[r] {
				done[r] = true
				src[f] += r.Source() + "\n"
			}
		}
	}
	if n := b.MName; n != "" {
		os.RemoveAll(filepath.Join(dir, "m"))
		out := map[string]string{"x/" + n + "/m.go": strings.Replace(mSource+ms.String(), "package m\n", "package "+n+"\n", 1)}
		if err := WriteFiles(dir, out); err != nil {
			b.Fatal = err.Error()
		}
	}
	out := map[string]string{}
	if wheres != "" {
		at, pkg := "m/w.go", "m"
		if n := b.MName; n != "" {
			at, pkg = "x/"+n+"/w.go", n
		}
		out[at] = "package " + pkg + "\n\nimport (\n\t\"time\"\n\n\t\"github.com/frk/gosql\"\n)\n\nvar _ time.Time\nvar _ gosql.Column\n\n" + wheres
	}
	if b.Arg == "QC" {
		out["q/conn.go"] = qHeader("// QC is the package's own connection.\ntype QC interface {\n\tgosql.Conn\n}\n")
	}
	if b.Method != "" {
		out["q/conf.json"] = fmt.Sprintf(`{"method_name":%q}`, b.Method)
	}
	var names []string
	for f, s := range src {
		out["q/"+f+".go"] = b.imports(qHeader(s))
		names = append(names, f)
	}
	sort.Strings(names)
	if err := WriteFiles(dir, out); err != nil {
		b.Fatal = err.Error()
	}
	return names
}

// cases writes the code that executes the cases, after the tool ran.
func (b *Batch) cases(ts []*Target) {
	var s, reg strings.Builder
	for _, t := range ts {
		for i := range t.Cases {
			c := t.CaseSource(i, b.WithCtx)
			if b.Arg != "" {
				c = strings.Replace(c, " c) })\n", " c.("+b.Arg+")) })\n", 1)
				c = strings.Replace(c, "(c) })\n", "(c.("+b.Arg+")) })\n", 1)
			}
			if b.Method != "" {
				c = strings.Replace(c, "return q.Exec(", "return q."+b.Method+"(", 1)
			}
			s.WriteString(c)
			fmt.Fprintf(&reg, "\tcase_%s_%d()\n", t.Name, i)
		}
	}
	src := s.String() + "// Run runs every case.\nfunc Run() {\n" + reg.String() + "}\n"
	WriteFiles(b.Dir, map[string]string{
		"q/zz_cases.go": b.imports(qHeader(src)),
		"d/main.go":     "package main\n\nimport (\n\t\"gx.test/q\"\n\t\"gx.test/rt\"\n)\n\nfunc main() {\n\trt.Open()\n\tdefer rt.Close()\n\tq.Run()\n}\n",
	})
}

var errLine = regexp.MustCompile(`(?m)^(?:\./)?q/([\w.]+)\.go:(\d+):\d+: (.*)$`)
var methodOf = regexp.MustCompile(`^func \((?:\w+ )?\*?(\w+)\)|^func case_(\w+?)_\d+\(`)

// blame maps compiler errors to targets.
func (b *Batch) blame(ts []*Target, out string) map[string]string {
	drop := map[string]string{}
	lines := map[string][]string{}
	for _, m := range errLine.FindAllStringSubmatch(out, -1) {
		f := m[1]
		if lines[f] == nil {
			src, _ := os.ReadFile(filepath.Join(b.Dir, "q", f+".go"))
			lines[f] = strings.Split(string(src), "\n")
		}
		n, _ := strconv.Atoi(m[2])
		name := ""
		for i := n - 1; i >= 0 && i < len(lines[f]); i-- {
			if x := methodOf.FindStringSubmatch(lines[f][i]); x != nil {
				name = x[1] + x[2]
				break
			}
		}
		if name == "" { // file level: a file with one target tells
			var in []string
			for _, t := range ts {
				if strings.HasPrefix(f, t.Pos+"_") {
					in = append(in, t.Name)
				}
			}
			if len(in) == 1 {
				name = in[0]
			}
		}
		if name != "" {
			if drop[name] == "" {
				drop[name] = m[3]
				if n > 0 && n <= len(lines[f]) {
					drop[name] += " | " + strings.TrimSpace(lines[f][n-1])
				}
			}
		}
	}
	return drop
}

func (b *Batch) exec() {
	tj, _ := json.Marshal(MutTables())
	bj, _ := json.Marshal(resetSeqs)
	cmd := exec.Command(filepath.Join(b.Dir, "driver"))
	cmd.Dir = b.Dir
	cmd.Env = append(os.Environ(), "GX_DSN="+b.Env.DSN(), "GX_TABLES="+string(tj), "GX_BEFORE="+string(bj))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	d := json.NewDecoder(&so)
	for {
		o := &Obs{}
		if e := d.Decode(o); e != nil {
			break
		}
		if b.Obs[o.Name] == nil {
			b.Obs[o.Name] = map[int]*Obs{}
		}
		b.Obs[o.Name][o.Case] = o
	}
	if err != nil {
		b.Fatal = fmt.Sprintf("the driver failed: %v\n%s", err, tail(se.String(), 2000))
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Remove deletes the batch's module.
func (b *Batch) Remove() {
	if b.Dir != "" {
		os.RemoveAll(b.Dir)
	}
}
