package gx

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/frk/gosql/verifharness/vh"
)

//go:embed probe/probe.go
var probeSource string

// words of the declarations' language, and some that are not
var tagWords = strings.Fields(`
= <> != < > <= >= ~ ~* !~ !~* is isnot isin notin in like notlike ilike notilike similar notsimilar isdistinct notdistinct
any some all isnull notnull istrue isfalse isunknown nottrue notfalse notunknown between notbetween betweensym notbetweensym
betweenasym @lower @upper @trim and or not true false null
* , . : ; ' " ( ) $1 $ % @ -- /* ; \\ - + _ | < > >a >>a_ >.
pk ro wo default nullempty coalesce coalesce('x') coalesce(0) coalesce( nullif json xml jsonb add cast usedefault omit
c:x:1 a b a.id b.id a.nope id name t_user t_post s2.t_item x.y.z t_user:a t_user:a:b :a t_user: a.
id,ro id:desc -id id:nullsfirst id:nulls -id:nullslast :nullsfirst
10 0 -1 99999999999999999999 1.5 'x' now() now() lower(name) é 日本 \x00 ` + "\u00a0")

// directive fields and Go types of them
var fieldWords = strings.Fields(`Where Join From Using OnConflict Conflict Limit Offset OrderBy Override Return Result Default Force Optional
Filter RowsAffected ErrorHandler Erh Rel Rec Ctx _ Id Name TextSearch All Exec Error Row Rows QueryString Params`)

var typeWords = strings.Split(`int;string;bool;[]int;[]string;*int;**int;*[]*[]int;[3]int;[0]string;[]byte;[][]byte;chan int;func();func(*int) error;func(int);map[string]int;map[string]*string;interface{};error;
any;struct{};[]struct{ A int };*struct{ A int };complex128;uintptr;unsafe.Pointer;time.Time;[]time.Time;context.Context;uint8;rune;float32;[]rune;
gosql.Relation;gosql.Column;gosql.CrossJoin;gosql.InnerJoin;gosql.LeftJoin;gosql.RightJoin;gosql.FullJoin;gosql.Return;gosql.Force;gosql.Optional;gosql.Default;
gosql.Limit;gosql.Offset;gosql.OrderBy;gosql.Override;gosql.TextSearch;gosql.Index;gosql.Constraint;gosql.Ignore;gosql.Update;gosql.All;gosql.Filter;gosql.ErrorHandler;
gosql.ErrorInfoHandler;gosql.Conn;*gosql.Filter;[]gosql.Filter;gosql.FilterConstructor;filter.Constructor;*filter.Constructor;SelfQQ;*SelfQQ;[]SelfQQ;[]*SelfQQ;GenQQ[int];*GenQQ[string];[]GenQQ[int];AliasQQ;[]AliasQQ;NamedSliceQQ;
NamedStrQQ;[]NamedStrQQ;IfaceQQ;FuncQQ;func(*SelfQQ) error;func(GenQQ[int]);UnknownQQ;nopkg.Type;m.Num;[]m.Num;m.Wrap;*m.Wrap;[]m.Wrap;m.JS;m.hidden;RecSliceQQ;RecMapQQ;RecPtrQQ;[]RecSliceQQ;**SelfQQ;RecFuncQQ;interface{ Visit(SelfQQ) error };func(*Rec1) error;[]*[]SelfQQ`, ";")

const extraTypes = `
type SelfQQ struct {
	Id   int     ` + "`sql:\"id\"`" + `
	Next *SelfQQ ` + "`sql:\">n_\"`" + `
}

type GenQQ[T any] struct {
	Id T ` + "`sql:\"id\"`" + `
}

type AliasQQ = struct {
	Id int ` + "`sql:\"id\"`" + `
}

type NamedSliceQQ []SelfQQ

type NamedStrQQ string

type IfaceQQ interface{ M() }

type FuncQQ func(*SelfQQ) error

type RecSliceQQ []RecSliceQQ

type RecMapQQ map[string]RecMapQQ

type RecPtrQQ *RecPtrQQ

type RecFuncQQ func(RecFuncQQ) RecFuncQQ
`

// span is a piece of source.
type span struct{ lo, hi int }

type shape struct {
	src   string
	tags  []span // contents of sql tags
	types []span
	names []span
	lines []span // whole fields
	decls []span // names of types
}

func shapeOf(src string) (s *shape, err error) {
	const head = "package q\n"
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "", head+src, 0)
	if err != nil {
		return nil, err
	}
	s = &shape{src: src}
	at := func(lo, hi token.Pos) span {
		return span{fs.Position(lo).Offset - len(head), fs.Position(hi).Offset - len(head)}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.TypeSpec:
			s.decls = append(s.decls, at(n.Name.Pos(), n.Name.End()))
		case *ast.StructType:
			for _, f := range n.Fields.List {
				s.lines = append(s.lines, at(f.Pos(), f.End()))
				s.types = append(s.types, at(f.Type.Pos(), f.Type.End()))
				for _, n := range f.Names {
					s.names = append(s.names, at(n.Pos(), n.End()))
				}
				if f.Tag != nil {
					x := at(f.Tag.Pos(), f.Tag.End())
					if m := tagText.FindStringSubmatchIndex(src[x.lo:x.hi]); m != nil {
						s.tags = append(s.tags, span{x.lo + m[2], x.lo + m[3]})
					}
				}
			}
		}
		return true
	})
	return s, nil
}

var tagText = regexp.MustCompile("(?:sql|rel):\"([^\"`]*)\"")

var tokens = regexp.MustCompile(`[A-Za-z0-9_]+|[^A-Za-z0-9_]`)

// mutateTag changes the text of a tag.
func mutateTag(r *rand.Rand, s string, pool []string) string {
	word := func() string {
		if r.Intn(3) == 0 {
			return pool[r.Intn(len(pool))]
		}
		return tagWords[r.Intn(len(tagWords))]
	}
	ts := tokens.FindAllString(s, -1)
	switch r.Intn(11) {
	case 0:
		return ""
	case 9: // blanks
		if len(ts) > 0 {
			i := r.Intn(len(ts))
			b := pickS(r, " ", "  ", "\\t", " , ", ", ,", " ,,", ",")
			ts[i] = pickS(r, b+ts[i], ts[i]+b, b)
			return strings.Join(ts, "")
		}
	case 10: // an item of the list again, left out, or first
		l := strings.Split(s, ",")
		i, j := r.Intn(len(l)), r.Intn(len(l))
		switch r.Intn(4) {
		case 0:
			l = append(l, l[i])
		case 1:
			l[i] = pickS(r, "", " ", "   ")
		case 2:
			l[i], l[j] = l[j], l[i]
		case 3:
			l[i] = pickS(r, " ", "-", "!", "@", ".", "(", "*", "'") + l[i]
		}
		return strings.Join(l, ",")
	case 1:
		return word()
	case 2:
		return s + "," + word()
	case 3:
		return word() + "," + s
	case 4:
		if len(ts) > 0 { // drop a token
			i := r.Intn(len(ts))
			return strings.Join(append(append([]string{}, ts[:i]...), ts[i+1:]...), "")
		}
	case 5:
		if len(ts) > 0 { // replace a token
			ts[r.Intn(len(ts))] = word()
			return strings.Join(ts, "")
		}
	case 6:
		if len(ts) > 0 { // insert a token
			i := r.Intn(len(ts))
			ts[i] += pickS(r, "", " ") + word()
			return strings.Join(ts, "")
		}
	case 7:
		if len(s) > 0 { // cut
			return s[:r.Intn(len(s))]
		}
	case 8:
		if len(ts) > 1 { // swap
			i, j := r.Intn(len(ts)), r.Intn(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
			return strings.Join(ts, "")
		}
	}
	return word()
}

// mutant applies n changes to a source.
func mutant(r *rand.Rand, src string, n int, pool []string, other []string) (string, []string) {
	var what []string
	for k := 0; k < n; k++ {
		s, err := shapeOf(src)
		if err != nil || len(s.lines) == 0 {
			return "", nil
		}
		edit := func(x span, t string) { src = src[:x.lo] + t + src[x.hi:] }
		field := func() span { return s.lines[r.Intn(len(s.lines))] }
		old := src
		w := ""
		switch x := r.Intn(20); {
		case x < 9 && len(s.tags) > 0:
			t := s.tags[r.Intn(len(s.tags))]
			w = "tag"
			edit(t, strings.NewReplacer("`", "'", `"`, `\"`).Replace(mutateTag(r, src[t.lo:t.hi], pool)))
		case x < 10:
			f := field()
			w = "field dropped"
			edit(f, "")
		case x < 11:
			f := field()
			w = "field repeated"
			edit(span{f.hi, f.hi}, "\n"+src[f.lo:f.hi])
		case x < 12:
			f, g := field(), field()
			if f.hi <= g.lo {
				w = "fields swapped"
				src = src[:f.lo] + src[g.lo:g.hi] + src[f.hi:g.lo] + src[f.lo:f.hi] + src[g.hi:]
			}
		case x < 14:
			t := s.types[r.Intn(len(s.types))]
			w = "type"
			edit(t, typeWords[r.Intn(len(typeWords))])
		case x < 15:
			t := s.types[r.Intn(len(s.types))]
			w = "type wrapped"
			edit(t, pickS(r, "*", "[]", "[]*", "[2]", "map[string]", "func(", "chan ")+src[t.lo:t.hi])
		case x < 16:
			f := field()
			w = "field added"
			tag := ""
			if r.Intn(4) > 0 {
				tag = "`" + pickS(r, "sql", "sql", "sql", "rel", "json") + `:"` + strings.NewReplacer("`", "'", `"`, `\"`).Replace(mutateTag(r, pool[r.Intn(len(pool))], pool)) + "\"`"
			}
			edit(span{f.hi, f.hi}, "\n"+pickS(r, fieldWords...)+" "+typeWords[r.Intn(len(typeWords))]+tag)
		case x < 17 && len(s.names) > 0:
			t := s.names[r.Intn(len(s.names))]
			w = "field renamed"
			edit(t, pickS(r, fieldWords...))
		case x < 18:
			for _, d := range s.decls {
				if m := targetName.FindString(src[d.lo:d.hi]); m != "" {
					w = "kind"
					if r.Intn(4) == 0 {
						w = "type parameters"
						edit(d, m+pickS(r, "[T any]", "[A, B comparable]", "[T ~int|~string]"))
						break
					}
					edit(d, pickS(r, "Select", "Insert", "Update", "Delete", "Filter", "select", "INSERT")+strings.TrimLeft(m, "SelectInsertUpdateDeleteFilter"))
					break
				}
			}
		case x < 19:
			// a field of another target
			o, err := shapeOf(other[r.Intn(len(other))])
			if err == nil && len(o.lines) > 0 {
				l := o.lines[r.Intn(len(o.lines))]
				f := field()
				w = "foreign field"
				edit(span{f.hi, f.hi}, "\n"+o.src[l.lo:l.hi])
			}
		default:
			f := field()
			w = "embedded"
			edit(span{f.hi, f.hi}, "\n"+pickS(r, "SelfQQ", "*SelfQQ", "GenQQ[int]", "IfaceQQ", "gosql.Filter", "NamedStrQQ", "time.Time", "AliasQQ"))
		}
		if _, err := shapeOf(src); err != nil || src == old || w == "" {
			src = old
			continue
		}
		what = append(what, w)
	}
	return src, what
}

var recvRE = regexp.MustCompile(`(?m)^func \(\w+ \*?([A-Z]\w*)\) (\w+)\(`)

var coalesceRE = regexp.MustCompile(`^([^,]*),.*coalesce\((.+)`)

// coalesceKept reports whether the SQL in the source's coalesce options is that of the original tags: it becomes part
// of the statement as it is.
func coalesceKept(src string, tags []string) bool {
	for _, m := range tagText.FindAllStringSubmatch(src, -1) {
		x := coalesceRE.FindStringSubmatch(m[1])
		if x == nil {
			continue
		}
		ok := false
		for _, t := range tags {
			if y := coalesceRE.FindStringSubmatch(t); y != nil && y[1] == x[1] && y[2] == x[2] {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// Robust feeds the tool damaged declarations: it has to refuse them or generate working code.
func Robust(run *vh.Run) {
	e, err := NewEnv(false)
	if err != nil {
		vh.Fatal("%v", err)
	}
	total := run.N(260, 9000)
	if s := os.Getenv("GXN"); s != "" {
		fmt.Sscan(s, &total)
	}
	const perModule = 130
	const workers = 8
	for lo := 0; lo < total; lo += perModule {
		n := total - lo
		if n > perModule {
			n = perModule
		}
		robustModule(run, e, lo, n, workers)
	}
	run.Count("tool runs", int64(total))
	screen := run.N(16000, 1000000)
	if s := os.Getenv("GXSCREEN"); s != "" {
		fmt.Sscan(s, &screen)
	}
	robustScreen(run, e, screen, workers)
	invocations(run, e, 0, total/2)
}

type robustCase struct {
	pkg, src string
	what     []string
	res      CLIResult
	out      string
	text     string
}

// robustPool is what the damaged declarations are made of, in a module of its own.
type robustPool struct {
	srcs, tags []string
	dir        string
}

func newRobustPool(e *Env, seed int64, targets int) *robustPool {
	x := &robustPool{}
	g := NewGen(seed)
	pool := g.Draw(targets, "SIUD")
	for _, t := range pool {
		s := t.Source()
		for _, r := range t.recs() {
			if !r.Imported {
				s += "\n" + r.Source()
			}
		}
		x.srcs = append(x.srcs, s)
		if t.Rec != nil && len(x.srcs)%4 == 0 {
			// and a filter of the same relation
			r := t.Rec
			f := fmt.Sprintf("type Filter%d struct {\n\t_ %s `rel:\"%s\"`\n\t%s\n}\n", len(x.srcs), r.ref(), relOf.FindStringSubmatch(s)[1],
				[]string{"filter.Constructor", "*filter.Constructor", "gosql.FilterConstructor", "Base filter.Constructor"}[len(x.srcs)/4%4])
			if !r.Imported {
				f += "\n" + r.Source()
			}
			x.srcs = append(x.srcs, f)
		}
		for _, m := range tagText.FindAllStringSubmatch(s, -1) {
			x.tags = append(x.tags, m[1])
		}
	}
	sort.Strings(x.tags)
	var ms strings.Builder
	for _, r := range g.Recs {
		if r.Imported {
			ms.WriteString(r.Source())
		}
	}
	var err error
	if x.dir, err = e.NewModule(ms.String()); err != nil {
		vh.Fatal("%v", err)
	}
	return x
}

// damaged draws a case.
func (x *robustPool) damaged(r *rand.Rand, pkg string) *robustCase {
	c := &robustCase{pkg: pkg}
	for len(c.what) == 0 || !coalesceKept(c.src, x.tags) {
		c.src, c.what = mutant(r, x.srcs[r.Intn(len(x.srcs))], 1+r.Intn(3)*r.Intn(2), x.tags, x.srcs)
	}
	c.finish()
	return c
}

func (c *robustCase) finish() {
	c.text = header(c.pkg, c.src+extraTypes)
	if strings.Contains(c.src, "filter.Constructor") {
		c.text = strings.Replace(c.text, "import (\n", "import (\n\t\"github.com/frk/gosql/filter\"\n", 1)
	}
}

func robustModule(run *vh.Run, e *Env, lo, n, workers int) {
	x := newRobustPool(e, run.Seed*77003+int64(lo), 60)
	if os.Getenv("GXKEEP") == "" {
		defer os.RemoveAll(x.dir)
	}
	cases := make([]*robustCase, n)
	for i := range cases {
		cases[i] = x.damaged(rand.New(rand.NewSource(run.Seed*1000033+int64(lo+i))), fmt.Sprintf("p%d", lo+i))
	}
	robustJudge(run, e, x.dir, cases, workers)
}

// robustScreen runs many damaged declarations through the tool's code in one process, and judges those it suspects.
func robustScreen(run *vh.Run, e *Env, n, workers int) {
	const per = 30000
	for lo := 0; lo < n; lo += per {
		k := n - lo
		if k > per {
			k = per
		}
		x := newRobustPool(e, run.Seed*99013+int64(lo), 400)
		draw := func(i int) *robustCase {
			return x.damaged(rand.New(rand.NewSource(run.Seed*2000029+int64(lo+i))), fmt.Sprintf("p%d", 1000000+lo+i))
		}
		keys := map[string]int{}
		var cases []*robustCase
		ok := e.Screen(run, x.dir, k, workers, func(i int) (string, string) { c := draw(i); return c.pkg, c.text }, func(i int, a Answer) {
			run.Count("screened "+a.Status, 1)
			run.Count("statements screened", int64(a.Consts))
			if a.Suspect == "" {
				return
			}
			key := a.Suspect + msgKey(clip(a.Msg, 300))
			if a.Suspect == "panic" {
				key = panicKey(a.Msg)
			}
			if keys[key]++; keys[key] > 4 || len(cases) >= 100 {
				return
			}
			if os.Getenv("GXSCREEN") != "" {
				fmt.Printf("suspect %s: %s\n", a.Suspect, clip(a.Msg, 400))
			}
			c := draw(i)
			cases = append(cases, c)
		})
		if ok && len(cases) > 0 {
			sort.Slice(cases, func(i, j int) bool { return cases[i].pkg < cases[j].pkg })
			run.Count("suspects judged", int64(len(cases)))
			robustJudge(run, e, x.dir, cases, workers)
		}
		os.RemoveAll(x.dir)
	}
}

func robustJudge(run *vh.Run, e *Env, dir string, cases []*robustCase, workers int) {
	n := len(cases)
	for _, c := range cases {
		WriteFiles(dir, map[string]string{c.pkg + "/f.go": c.text})
	}
	var mu sync.Mutex
	Parallel(n, workers, func(i, w int) {
		c := cases[i]
		c.res = e.RunCmd(dir, time.Minute, "sh", "-c", `ulimit -v 6000000; exec "$0" "$@"`, e.CLI, "-db", e.DSN(), "-wd", c.pkg)
		b, _ := os.ReadFile(filepath.Join(dir, c.pkg, "f_gosql.go"))
		c.out = string(b)
		mu.Lock()
		defer mu.Unlock()
		ans := "accepted"
		d := c.detail()
		switch {
		case c.res.Code < 0:
			run.Violate("hang", d, "the tool doesn't end")
		case c.res.Panic:
			run.Violate("panic:"+panicKey(c.res.Out), d, "the tool panics: %s", clip(c.res.Out, 300))
		case c.res.Code == 0:
		case c.res.Code == 1 || c.res.Code == 2:
			ans = "refused"
			if strings.TrimSpace(c.res.Out) == "" {
				run.Violate("silent", d, "a refusal without a message")
			}
			if !strings.Contains(c.res.Out, c.pkg+"/f.go:") {
				if out, err := e.Go(dir, "build", "-gcflags=-e", "./"+c.pkg); err != nil && strings.Contains(out, c.pkg+"/f.go:") {
					run.Count("refused, but the declarations are not valid Go", 1)
					break
				}
				run.Violate("place", d, "the refusal doesn't point into the file: %s", clip(c.res.Out, 300))
			}
			if c.out != "" {
				run.Violate("wrote", d, "a refused run wrote a file")
			}
		default:
			run.Violate("exit", d, "exit code %d: %s", c.res.Code, clip(c.res.Out, 300))
		}
		for _, w := range c.what {
			run.Seen("changed "+ans, w)
		}
		run.Eval(strings.Join(c.what, "+") + "|" + ans)
		run.Count(ans, 1)
		if ans == "accepted" {
			run.Sample(strings.Join(c.what, "+"), map[string]interface{}{"declaration": c.src})
		}
	})
	// what was accepted must build
	var acc []*robustCase
	for _, c := range cases {
		if c.res.Code == 0 && !c.res.Panic && c.out != "" {
			acc = append(acc, c)
		}
	}
	args := []string{"build", "-gcflags=-e"}
	for _, c := range acc {
		args = append(args, "./"+c.pkg)
	}
	if len(acc) == 0 {
		return
	}
	out, err := e.Go(dir, args...)
	bad := map[string][]string{}
	pk := ""
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "# ") {
			pk = filepath.Base(strings.Fields(l)[1])
		} else if pk != "" && strings.TrimSpace(l) != "" {
			bad[pk] = append(bad[pk], l)
		} else if m := anyPkg.FindStringSubmatch(l); m != nil {
			bad[m[1]] = append(bad[m[1]], l)
		}
	}
	if err != nil && len(bad) == 0 {
		vh.Fatal("go build: %s", clip(out, 500))
	}
	var mains strings.Builder
	var imps []string
	calls := map[string]*robustCase{}
	for _, c := range acc {
		if l := bad[c.pkg]; l != nil {
			own := false
			for _, x := range l {
				if !strings.HasPrefix(x, "\t") && !strings.Contains(x, "_gosql.go:") {
					own = true
				}
			}
			if own {
				run.Count("accepted, but the declarations are not valid Go", 1)
				continue
			}
			d := c.detail()
			d["compiler"] = strings.Join(l, "\n")
			run.Violate("nobuild:"+msgKey(l[0]), d, "accepted, but the generated code doesn't build: %s", clip(strings.Join(l, "\n"), 300))
			continue
		}
		used := false
		for _, m := range recvRE.FindAllStringSubmatch(c.out, -1) {
			if f := c.filter(m[1], calls[c.pkg] != nil); f != "" && m[2] == "Init" {
				mains.WriteString(f)
				used = true
			}
			if m[2] != "Exec" {
				continue
			}
			fmt.Fprintf(&mains, "\tprobe.Call(%q, %q, (*%s.%s)(nil))\n", c.pkg, m[2], c.pkg, m[1])
			used = true
		}
		if used {
			imps = append(imps, c.pkg)
			calls[c.pkg] = c
		}
	}
	if len(imps) == 0 {
		return
	}
	var s strings.Builder
	s.WriteString("package main\n\nimport (\n\t\"gx.test/probe\"\n")
	for _, i := range imps {
		fmt.Fprintf(&s, "\t\"gx.test/%s\"\n", i)
	}
	s.WriteString(")\n\nfunc main() {\n" + mains.String() + "}\n")
	WriteFiles(dir, map[string]string{"probe/probe.go": probeSource, "run/main.go": s.String()})
	if out, err := e.Go(dir, "build", "-o", "run/run", "./run"); err != nil {
		vh.Fatal("building the probe: %s", clip(out, 800))
	}
	cmd := exec.Command(filepath.Join(dir, "run/run"))
	cmd.Env = append(os.Environ(), "GX_DSN="+e.DSN())
	var o, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &er
	err = cmd.Run()
	seen := map[string]bool{}
	sc := bufio.NewScanner(&o)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var r struct {
			Name    string
			Stmts   []string
			Problem []string
			Err     string
			Skipped string
		}
		if json.Unmarshal(sc.Bytes(), &r) != nil {
			continue
		}
		seen[r.Name] = true
		c := calls[r.Name]
		run.Count("generated methods called", 1)
		run.Count("statements prepared by the server", int64(len(r.Stmts)))
		d := c.detail()
		d["statements"], d["error"] = r.Stmts, r.Err
		if r.Skipped != "" && r.Skipped != "hole" {
			run.Violate("argument", d, "a method takes a %s", r.Skipped)
		}
		for _, p := range r.Problem {
			run.Violate("probe:"+msgKey(p), d, "accepted, but %s", clip(p, 300))
		}
		for _, q := range r.Stmts {
			u := strings.ToUpper(q)
			if (strings.HasPrefix(u, "UPDATE") || strings.HasPrefix(u, "DELETE")) && !strings.Contains(u, "WHERE") && !strings.Contains(c.src, "gosql.All") {
				run.Violate("everything", d, "a statement that changes every row although the declaration doesn't say gosql.All: %s", clip(q, 200))
			}
		}
	}
	if err != nil || len(seen) < len(calls) {
		if len(seen) == 0 || strings.Contains(er.String(), "connect") {
			vh.Fatal("the probe fails: %v %s", err, clip(er.String(), 500))
		}
		for p, c := range calls {
			if !seen[p] {
				d := c.detail()
				run.Violate("crash", d, "accepted, but calling the generated code ends the process: %s", clip(er.String(), 400))
				break
			}
		}
	}
}

var relOf = regexp.MustCompile("rel:\"([^\"`]*)\"")

// filter renders the probing of the filter type.
func (c *robustCase) filter(typ string, again bool) string {
	i := strings.Index(c.src, "type "+typ+" struct")
	if i < 0 || again || !strings.HasPrefix(strings.ToLower(typ), "filter") {
		return ""
	}
	rel := relOf.FindStringSubmatch(c.src[i:])
	if rel == nil {
		return ""
	}
	var ms []string
	for _, m := range recvRE.FindAllStringSubmatch(c.out, -1) {
		if m[1] == typ {
			ms = append(ms, m[2])
		}
	}
	return fmt.Sprintf("\tprobe.Filter(%q, %q, %#v, (*%s.%s)(nil))\n", c.pkg, strings.Split(rel[1], ",")[0], ms, c.pkg, typ)
}

var anyPkg = regexp.MustCompile(`(?:^|[ /])(p\d+)/`)

func (c *robustCase) detail() map[string]interface{} {
	return map[string]interface{}{"declaration": c.src, "changes": c.what, "exit": c.res.Code, "output": clip(c.res.Out, 4000), "generated": clip(c.out, 4000)}
}

// panicKey is the first line of the tool's own code in a stack trace.
func panicKey(s string) string {
	m := regexp.MustCompile(`gosql/(internal|cmd)/(\S+\.go:\d+)`).FindStringSubmatch(s)
	if m != nil {
		return m[2]
	}
	return "?"
}

// msgKey is a message without what varies.
func msgKey(s string) string {
	s = regexp.MustCompile(`^\S+\.go:\d+:\d+: `).ReplaceAllString(s, "")
	s = regexp.MustCompile(`"[^"]*"|\$?\d+|\b[a-zA-Z]*[._]\w+\b`).ReplaceAllString(s, "~")
	s = regexp.MustCompile(`[^A-Za-z~:]+`).ReplaceAllString(s, "-")
	if len(s) > 70 {
		s = s[:70]
	}
	return strings.Trim(s, "-")
}

var _ = strconv.Itoa
