package gx

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/frk/gosql/verifharness/vh"
)

// sfile is a source file of a module laid out for selection.
type sfile struct {
	dir, name string
	src       string
	targets   []string // that the tool must see in it, in order
	listed    bool     // the go command takes the file for part of the package
}

// slayout draws a module: which files and declarations the tool has to see is known by construction.
type slayout struct {
	files []*sfile
	dirs  map[string]bool // directory → below the module's root by the ./... pattern
	n     int
}

func newLayout(r *rand.Rand) *slayout {
	l := &slayout{dirs: map[string]bool{}}
	all := []struct {
		dir     string
		pattern bool
	}{{"a", true}, {"a/b", true}, {"a/b/c", true}, {"a/internal/z", true}, {"ab", true}, {"dashed-dir", true}, {"cmdx", true}, {"a/testdata/t", false}, {"a/_u", false}, {"a/.h", false}, {"a/nested", false}, {"empty", true}}
	for _, d := range all {
		if d.dir != "a" && r.Intn(3) == 0 {
			continue
		}
		l.dirs[d.dir] = d.pattern
		pkg := strings.NewReplacer("-", "", ".", "", "_", "").Replace(filepath.Base(d.dir))
		if d.dir == "cmdx" {
			pkg = "main"
		}
		if d.dir == "empty" {
			l.files = append(l.files, &sfile{dir: d.dir, name: "readme.txt", src: "nothing\n"})
			continue
		}
		rec := "package " + pkg + "\n\ntype rec struct {\n\tId int `sql:\"id\"`\n}\n"
		if pkg == "main" {
			rec += "\nfunc main() {}\n"
		}
		l.files = append(l.files, &sfile{dir: d.dir, name: "rec.go", src: rec, listed: true})
		kinds := []string{"plain", "plain", "plain", "test", "xtest", "linux", "windows", "tagged", "under", "dot", "none", "gen_like"}
		r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
		for i, k := range kinds[:3+r.Intn(5)] {
			f := &sfile{dir: d.dir, listed: true}
			base := fmt.Sprintf("%s%d", pickS(r, "f", "g", "main", "user_model", "x.y", "Z"), i)
			head := ""
			p := pkg
			switch k {
			case "test":
				base, f.listed = base+"_test", false
			case "xtest":
				base, f.listed, p = base+"_test", false, pkg+"_test"
			case "linux":
				base += "_linux"
			case "windows":
				base = strings.ReplaceAll(base, ".", "") // the go command looks for the system before the first dot
				base, f.listed = base+"_windows", false
			case "tagged":
				head, f.listed = pickS(r, "//go:build ignore\n\n", "//go:build verifnever && linux\n\n", "// +build ignore\n\n"), false
			case "under":
				base, f.listed = "_"+base, false
			case "dot":
				base, f.listed = "."+base, false
			case "gen_like":
				base += "_sql"
			}
			f.name = base + ".go"
			f.src = head + "package " + p + "\n\n" + l.decls(r, f, k == "none")
			l.files = append(l.files, f)
		}
	}
	if _, ok := l.dirs["a/nested"]; ok {
		l.files = append(l.files, &sfile{dir: "a/nested", name: "go.mod", src: "module gx.nested\n"})
	}
	return l
}

// decls draws declarations; those that are targets go into f.targets.
func (l *slayout) decls(r *rand.Rand, f *sfile, none bool) string {
	var b strings.Builder
	body := "struct {\n\tRel   rec `rel:\"t_user:u\"`\n\tWhere struct {\n\t\tId int `sql:\"u.id\"`\n\t}\n}\n"
	name := func() string {
		l.n++
		return fmt.Sprintf("%s%d%s", pickS(r, "Select", "select", "SELECT", "Selected", "sElEcT"), l.n, pickS(r, "Query", "", "_x", "Ü"))
	}
	add := func(n string) { f.targets = append(f.targets, n) }
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		k := r.Intn(13)
		if none && k < 5 {
			k += 8
		}
		x := name()
		switch k {
		case 0, 1:
			fmt.Fprintf(&b, "type %s %s\n", x, body)
			add(x)
		case 2:
			fmt.Fprintf(&b, "// %s has a comment: ignore nothing, gosql.\ntype %s %s\n", x, x, body)
			add(x)
		case 3:
			y, z := name(), name()
			fmt.Fprintf(&b, "type (\n\t// %s is one of several.\n\t%s %s\n\n\tother%d int\n\n\t// gosql:ignore\n\t%s %s\n\t%s %s)\n\n", x, x, body, l.n, y, body, z, body)
			add(x)
			add(z)
		case 4:
			fmt.Fprintf(&b, "// gosql:ignore is what the next declaration does not have.\n\n// It is separate.\ntype %s %s\n", x, body)
			add(x)
		case 5:
			fmt.Fprintf(&b, "%stype %s %s\n", pickS(r, "// gosql:ignore\n", "//gosql:ignore\n", "/* gosql:ignore */\n", "// Doc.\n//\n// gosql:ignore\n"), x, body)
		case 6:
			y := name()
			fmt.Fprintf(&b, "// gosql:ignore\ntype (\n\t%s %s\n\t%s %s)\n\n", x, body, y, body)
		case 7:
			fmt.Fprintf(&b, "func local%d() {\n\ttype %s %s\n\t_ = %s{}\n}\n", l.n, x, body, x)
		case 8:
			fmt.Fprintf(&b, "func %s() {}\n", x)
		case 9:
			fmt.Fprintf(&b, "var %s, _ = 1, 2\n", x)
		case 10:
			fmt.Fprintf(&b, "type My%s %s\n", x, body)
		case 11:
			fmt.Fprintf(&b, "type (\n\tQuery%d struct{ A int }\n\treselect%d = rec\n)\n", l.n, l.n)
		case 12:
			fmt.Fprintf(&b, "const c%s = \"type SelectNot struct{}\"\n", strings.Trim(fmt.Sprint(l.n), " "))
		}
	}
	return b.String()
}

// selected is what a run over wd has to process.
func (l *slayout) selected(root, wd string, rec bool, files []string, rxs []string) map[string][]string {
	out := map[string][]string{}
	for _, f := range l.files {
		if !f.listed || len(f.targets) == 0 {
			continue
		}
		switch {
		case f.dir == wd:
		case rec && (wd == "." || strings.HasPrefix(f.dir, wd+"/")) && l.dirs[f.dir]:
		default:
			continue
		}
		abs := filepath.Join(root, f.dir, f.name)
		if len(files)+len(rxs) > 0 {
			ok := false
			for _, x := range files {
				if !filepath.IsAbs(x) {
					x = filepath.Join(root, wd, x)
				}
				ok = ok || filepath.Clean(x) == abs
			}
			for _, x := range rxs {
				ok = ok || regexp.MustCompile(x).MatchString(abs)
			}
			if !ok {
				continue
			}
		}
		out[filepath.Join(f.dir, f.name)] = f.targets
	}
	return out
}

func outName(format, file string) string {
	dir, base := filepath.Split(file)
	base = strings.TrimSuffix(base, ".go")
	if strings.Contains(format, "%s") {
		base = strings.Replace(format, "%s", base, 1)
	} else {
		base += format
	}
	if !strings.HasSuffix(base, ".go") {
		base += ".go"
	}
	return dir + base
}

// Selection runs the tool over drawn layouts with drawn selections.
func Selection(run *vh.Run) {
	e, err := NewEnv(false)
	if err != nil {
		vh.Fatal("%v", err)
	}
	Parallel(run.N(2400, 60000), 8, func(i, w int) {
		r := rand.New(rand.NewSource(run.Seed*1000003 + int64(i)))
		l := newLayout(r)
		root, err := e.NewModule("")
		if err != nil {
			vh.Fatal("%v", err)
		}
		defer os.RemoveAll(root)
		os.RemoveAll(filepath.Join(root, "m"))
		os.RemoveAll(filepath.Join(root, "rt"))
		fs := map[string]string{}
		for _, f := range l.files {
			fs[filepath.Join(f.dir, f.name)] = f.src
		}
		if err := WriteFiles(root, fs); err != nil {
			vh.Fatal("%v", err)
		}
		var dirs []string
		for d := range l.dirs {
			if d != "empty" && !strings.HasPrefix(d, "a/nested") {
				dirs = append(dirs, d)
			}
		}
		sort.Strings(dirs)
		wd := pickS(r, ".", ".", "a", "a", pickS(r, dirs...))
		rec := r.Intn(4) > 0
		cwd, wdArg := root, wd
		var argv []string
		switch r.Intn(4) {
		case 0: // the current directory by default
			cwd = filepath.Join(root, wd)
		case 1:
			wdArg = filepath.Join(root, wd)
			cwd = pickS(r, "/", root, filepath.Join(root, pickS(r, dirs...)))
			argv = append(argv, "-wd", wdArg)
		case 2:
			argv = append(argv, "-wd="+pickS(r, "./"+wd, wd+"/", wd+"/../"+filepath.Base(filepath.Join(root, wd))))
		default:
			argv = append(argv, "--wd", wdArg)
		}
		if rec {
			argv = append(argv, pickS(r, "-r", "--r", "-r=true", "-r=1"))
		} else if r.Intn(3) == 0 {
			argv = append(argv, "-r=false")
		}
		var files, rxs []string
		all := l.files
		if r.Intn(2) == 0 {
			for n := 1 + r.Intn(3); n > 0; n-- {
				f := all[r.Intn(len(all))]
				p := filepath.Join(root, f.dir, f.name)
				if r.Intn(2) == 0 {
					if q, err := filepath.Rel(filepath.Join(root, wd), p); err == nil {
						p = q
						if r.Intn(3) == 0 && !strings.HasPrefix(p, ".") {
							p = "./" + p
						}
					}
				}
				if r.Intn(8) == 0 {
					p = "absent.go"
				}
				files = append(files, p)
				argv = append(argv, "-f", p)
			}
		}
		if r.Intn(2) == 0 {
			for n := 1 + r.Intn(2); n > 0; n-- {
				f := all[r.Intn(len(all))]
				x := pickS(r, regexp.QuoteMeta(f.name)+"$", "/"+regexp.QuoteMeta(f.dir)+"/", "_linux", "^nothing$", `[fg]\d\.go$`, "(?i)Z[0-9]", `/b/.*1`, "user_model|main", "^"+regexp.QuoteMeta(filepath.Join(root, f.dir))+"/[^/]*$", `\.go$`)
				rxs = append(rxs, x)
				argv = append(argv, "-rx", x)
			}
		}
		format := pickS(r, "%s_gosql.go", "%s_gosql.go", "gen_%s", "%s.gen", "_q", "_q.go", "zz%s_x.go", "Q")
		if format != "%s_gosql.go" || r.Intn(3) == 0 {
			argv = append(argv, "-o", format)
		}
		argv = append([]string{e.CLI, "-db", e.DSN()}, argv...)
		want := l.selected(root, wd, rec, files, rxs)
		before := Snapshot(root)
		res := e.RunCmd(cwd, 0, argv...)
		after := Snapshot(root)
		d := map[string]interface{}{"argv": argv[3:], "cwd": cwd, "exit": res.Code, "output": clip(res.Out, 2000), "expected": want, "layout": l.dirs}
		var exp []string
		nt := 0
		for f, ts := range want {
			exp = append(exp, "+"+outName(format, f))
			nt += len(ts)
		}
		sort.Strings(exp)
		got := before.Diff(after)
		run.Eval(fmt.Sprintf("%d|%v|%d files|f%d|rx%d|%s", i, rec, len(want), len(files), len(rxs), format))
		run.Count("outputs expected", int64(len(want)))
		run.Count("targets expected", int64(nt))
		run.Seen("selection", fmt.Sprintf("r=%v f=%v rx=%v", rec, len(files) > 0, len(rxs) > 0))
		run.Seen("outputs", fmt.Sprint(len(want)))
		run.Sample(fmt.Sprintf("r=%v f=%v rx=%v", rec, len(files) > 0, len(rxs) > 0), map[string]interface{}{"argv": argv[3:], "changes": got})
		if res.Panic || res.TimedOut {
			run.Violate("panic", d, "the tool panics or hangs: %v: %s", argv[3:], clip(res.Out, 300))
			return
		}
		if len(want) == 0 {
			if len(got) > 0 {
				d["changes"] = got
				run.Violate("nothing-selected", d, "nothing is selected by %v, but files changed: %v", argv[3:], got)
			}
			return
		}
		if res.Code != 0 {
			run.Violate("refused", d, "valid packages are refused: %v: %s", argv[3:], clip(res.Out, 300))
			return
		}
		if strings.Join(exp, " ") != strings.Join(got, " ") {
			d["changes"] = got
			run.Violate("files", d, "%v in %s should write %v, it did %v", argv[3:], strings.TrimPrefix(cwd, root), exp, got)
			return
		}
		for f, ts := range want {
			p, err := methods(after[outName(format, f)])
			if err != nil {
				run.Violate("unparsable", d, "an output is no Go: %v", err)
				continue
			}
			if strings.Join(p, " ") != strings.Join(ts, " ") {
				d["file"] = f
				run.Violate("targets", d, "%s has the targets %v, its output methods of %v", f, ts, p)
			}
		}
	})
}

var methodDecl = regexp.MustCompile(`(?m)^func \(\w+ \*?([\p{L}\d_]+)\) (\w+)\(`)

// methods lists the receivers of a generated file.
func methods(src string) (out []string, err error) {
	if _, err := Split(src); err != nil {
		return nil, err
	}
	for _, m := range methodDecl.FindAllStringSubmatch(src, -1) {
		out = append(out, m[1])
	}
	return out, nil
}

// option is a setting that the config file and mostly also a flag can make.
type option struct {
	key, flag string
	vals      []interface{} // string, bool or []string
}

var options = []option{
	{"recursive", "r", []interface{}{true, false}},
	{"input_files", "f", []interface{}{[]string{"f0.go"}, []string{"sub/f1.go", "f1.go"}, []string{"none.go"}}},
	{"input_file_regexps", "rx", []interface{}{[]string{"f0"}, []string{"/sub/", `f1\.go$`}, []string{"^$"}}},
	{"output_file_name_format", "o", []interface{}{"gen_%s", "_x.go", "%s.out.go"}},
	{"quote_identifiers", "qid", []interface{}{true, false}},
	{"filter_column_key_tag", "fcktag", []interface{}{"key", "", "json", "sql"}},
	{"filter_column_key_base", "fckbase", []interface{}{true, false}},
	{"filter_column_key_separator", "fcksep", []interface{}{"-", "", ".", "/"}},
	{"method_with_context", "with-ctx", []interface{}{true, false}},
	{"method_argument_type", "argtype", []interface{}{"*gx.test/rt.Conn", "github.com/frk/gosql.Conn", "gx.test/rt.Q"}},
	{"method_name", "", []interface{}{"Run", "Exec", "do"}},
}

const confSource = `package a

import "github.com/frk/gosql"

type rec%[1]s struct {
	Id   int ` + "`sql:\"id\" json:\"ident\" key:\"K\"`" + `
	Deep struct {
		Email string ` + "`sql:\"email\" json:\"mail\"`" + `
	} ` + "`sql:\">\" json:\"deep\" key:\"D\"`" + `
}

type fm%[1]s struct{}

func (fm%[1]s) Init(map[string]string, string)                    {}
func (fm%[1]s) Col(string, string, interface{})                   {}
func (fm%[1]s) And(func())                                        {}
func (fm%[1]s) Or(func())                                         {}

type Select%[1]s struct {
	Rel   []rec%[1]s ` + "`rel:\"t_user:u\"`" + `
	Where struct {
		Ids []int ` + "`sql:\"u.id isin\"`" + `
	}
	eh gosql.ErrorInfoHandler
}

type Filter%[1]s struct {
	Rel rec%[1]s ` + "`rel:\"t_user:u\"`" + `
	fm%[1]s
}
`

// Configuration compares runs that take their settings from different places.
func Configuration(run *vh.Run) {
	e, err := NewEnv(false)
	if err != nil {
		vh.Fatal("%v", err)
	}
	Parallel(run.N(160, 8000), 8, func(i, w int) {
		r := rand.New(rand.NewSource(run.Seed*1000003 + int64(i)))
		root, err := e.NewModule("")
		if err != nil {
			vh.Fatal("%v", err)
		}
		defer os.RemoveAll(root)
		files := map[string]string{}
		for _, f := range []string{"a/f0", "a/f1", "a/sub/f0", "a/sub/f1"} {
			files[f+".go"] = fmt.Sprintf(confSource, strings.ToUpper(f[len(f)-2:]))
		}
		files["rt/q.go"] = "package rt\n\nimport \"github.com/frk/gosql\"\n\ntype Q interface{ gosql.Conn }\n"
		if err := WriteFiles(root, files); err != nil {
			vh.Fatal("%v", err)
		}
		bare := Snapshot(root)

		conf := map[string]interface{}{}
		var flags, plain []string
		method := ""
		desc := ""
		put := func(to *[]string, o option, v interface{}) {
			switch v := v.(type) {
			case bool:
				if v && r.Intn(2) == 0 {
					*to = append(*to, "-"+o.flag)
				} else {
					*to = append(*to, fmt.Sprintf("-%s=%v", o.flag, v))
				}
			case string:
				if r.Intn(2) == 0 {
					*to = append(*to, "-"+o.flag, v)
				} else {
					*to = append(*to, "-"+o.flag+"="+v)
				}
			case []string:
				for _, x := range v {
					*to = append(*to, "-"+o.flag, x)
				}
			}
		}
		for _, o := range options {
			inConf, inFlag := r.Intn(2) == 0, r.Intn(3) == 0 && o.flag != ""
			var eff interface{}
			if inConf {
				eff = o.vals[r.Intn(len(o.vals))]
				conf[o.key] = eff
				if r.Intn(12) == 0 {
					conf[o.key], eff = nil, nil // null sets nothing
				}
			}
			if inFlag {
				eff = o.vals[r.Intn(len(o.vals))]
				put(&flags, o, eff)
			}
			switch {
			case inConf && inFlag:
				desc += o.key[:3] + "=both "
				run.Seen("set by", o.key+" both")
			case inConf:
				desc += o.key[:3] + "=file "
				run.Seen("set by", o.key+" file")
			case inFlag:
				desc += o.key[:3] + "=flag "
				run.Seen("set by", o.key+" flag")
			}
			if eff == nil {
				continue
			}
			if o.flag == "" {
				method = eff.(string)
			} else {
				put(&plain, o, eff)
			}
		}
		// the database's address and the working directory
		db, wd := e.DSN(), "a"
		var dbFlag []string
		switch r.Intn(3) {
		case 0:
			conf["database_dsn"] = db
		case 1:
			conf["database_dsn"] = "host=/nonexistent dbname=x"
			dbFlag = []string{"-db", db}
		default:
			dbFlag = []string{"-db", db}
		}
		if r.Intn(4) == 0 {
			conf["some_unknown_key"] = 1
		}
		b, _ := json.MarshalIndent(conf, "", "\t")
		where := pickS(r, ".gosql", ".gosql.json", "flag", "flag elsewhere", "both names", "below the root", "parent of the root")
		argv := append([]string{e.CLI}, dbFlag...)
		cwd := root
		switch where {
		case ".gosql", ".gosql.json":
			WriteFiles(root, map[string]string{where: string(b), ".git/HEAD": "ref: refs/heads/x\n"})
			switch r.Intn(3) {
			case 0:
				cwd = filepath.Join(root, "a")
			case 1:
				cwd = "/"
				argv = append(argv, "-wd", filepath.Join(root, "a"))
			default:
				argv = append(argv, "-wd", wd)
			}
		case "flag", "flag elsewhere":
			// the file that the root holds is not read then
			WriteFiles(root, map[string]string{"conf/my.json": string(b), ".git/HEAD": "ref: refs/heads/x\n", ".gosql": `{"output_file_name_format":"bad_%s","quote_identifiers":true,"method_name":"Bad"}`})
			switch where {
			case "flag":
				argv = append(argv, "-config", "conf/my.json", "-wd", "a")
			default:
				cwd = filepath.Join(root, "rt")
				argv = append(argv, "-config", pickS(r, "../conf/my.json", filepath.Join(root, "conf/my.json")), "-wd", "../a")
			}
		case "both names":
			WriteFiles(root, map[string]string{".gosql": string(b), ".gosql.json": `{"output_file_name_format":"bad_%s","method_name":"Bad"}`, ".git/HEAD": "ref: refs/heads/x\n"})
			argv = append(argv, "-wd", wd)
		case "below the root", "parent of the root":
			// a file that is not in the project's root counts for nothing
			if where == "below the root" {
				WriteFiles(root, map[string]string{"a/.gosql": string(b), ".git/HEAD": "ref: refs/heads/x\n"})
			} else {
				WriteFiles(root, map[string]string{".gosql": string(b), "a/.git/HEAD": "ref: refs/heads/x\n"})
			}
			argv = append(argv, "-wd", wd, "-db", db)
			method, plain = "", flags
		}
		argv = append(argv, flags...)
		x := e.RunCmd(cwd, 0, argv...)
		got := Snapshot(root)
		for p := range got {
			if p == ".gosql" || p == ".gosql.json" || strings.HasPrefix(p, ".git/") || strings.HasPrefix(p, "a/.git/") || strings.HasPrefix(p, "conf/") || p == "a/.gosql" {
				delete(got, p)
			}
		}
		bare.Restore(root)
		ref := append([]string{e.CLI, "-db", db, "-wd", "a"}, plain...)
		if method != "" {
			mf := filepath.Join(e.Scratch, fmt.Sprintf("method%d.json", w))
			os.WriteFile(mf, []byte(fmt.Sprintf(`{"method_name":%q}`, method)), 0o644)
			ref = append(ref, "-config", mf)
		}
		y := e.RunCmd(root, 0, ref...)
		want := Snapshot(root)
		run.Eval(where + "|" + desc)
		run.Seen("config file", where)
		d := map[string]interface{}{"config": string(b), "argv": argv[1:], "where": where, "equal to": ref[1:], "exit": x.Code, "output": clip(x.Out, 2000), "exit of the other": y.Code, "output of the other": clip(y.Out, 2000)}
		if x.Panic || y.Panic || x.TimedOut {
			run.Violate("panic", d, "the tool panics or hangs: %s", clip(x.Out+y.Out, 300))
			return
		}
		if y.Code != 0 {
			run.Violate("refused", d, "a valid setting is refused: %v: %s", ref[1:], clip(y.Out, 300))
			return
		}
		if x.Code != y.Code {
			run.Violate("exit", d, "with %s, %v and the config %s: exit %d instead of %d: %s", where, argv[1:], string(b), x.Code, y.Code, clip(x.Out, 300))
			return
		}
		n := int64(len(bare.Diff(want)))
		run.Count("outputs compared", n)
		run.Seen("outputs", fmt.Sprint(n))
		run.Sample(where, map[string]interface{}{"config": string(b), "argv": argv[1:], "equal to": ref[1:], "outputs": n})
		if df := want.Diff(got); len(df) > 0 {
			d["differences"] = df
			p := df[0][1:]
			d["want"], d["got"] = clip(want[p], 6000), clip(got[p], 6000)
			run.Violate("differs:"+where, d, "settings from %s and flags %v give other files than the flags %v alone: %v: %s", where, argv[1:], ref[1:], df, firstDiff(want[p], got[p]))
		}
	})
}
