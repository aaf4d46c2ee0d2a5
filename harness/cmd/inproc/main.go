// Command inproc runs the tool's analysis, type checking and generation on many sources in one process, to find the
// few that deserve a run of the real tool. What it reports is a suspicion, never a verdict.
//
// usage: inproc DIR DSN; one JSON case per line on stdin, one JSON answer per line on stdout.
package main

import (
	"bufio"
	"bytes"
	"database/sql"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/command"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/generator"
	"github.com/frk/gosql/internal/postgres"
	_ "github.com/lib/pq"
	"golang.org/x/tools/go/packages"
)

type in struct{ Pkg, Text string }

type out struct {
	Pkg     string
	Status  string // refused accepted panic invalid
	Msg     string
	Suspect string
	Consts  int
}

var rxTarget = regexp.MustCompile(`^(?i:Select|Insert|Update|Delete|Filter)`)

type imports map[string]*types.Package

func (m imports) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if x := m[p]; x != nil {
		return x, nil
	}
	return nil, fmt.Errorf("no package %s", p)
}

func main() {
	dir, dsn := os.Args[1], os.Args[2]
	cfg := config.DefaultConfig
	os.Args = []string{"gosql", "-db", dsn, "-wd", dir}
	cfg.ParseFlags(func() {})
	cmd, err := command.New(cfg)
	check(err)
	db, err := postgres.Open(dsn)
	check(err)
	pdb, err := sql.Open("postgres", dsn)
	check(err)
	fset := token.NewFileSet()
	imps := imports{}
	pkgs, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedTypesInfo, Dir: dir, Fset: fset},
		"./m", "./rt", "github.com/frk/gosql", "github.com/frk/gosql/filter", "github.com/frk/gosql/pgsql", "context", "time", "fmt", "database/sql")
	check(err)
	packages.Visit(pkgs, nil, func(p *packages.Package) { imps[p.PkgPath] = p.Types })

	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var c in
		check(json.Unmarshal(sc.Bytes(), &c))
		o := one(cmd, db, pdb, fset, imps, c)
		o.Pkg = c.Pkg
		check(enc.Encode(o))
		check(w.Flush())
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func one(cmd *command.Command, db *postgres.DB, pdb *sql.DB, fset *token.FileSet, imps imports, c in) (o out) {
	defer func() {
		if e := recover(); e != nil {
			o.Status, o.Suspect, o.Msg = "panic", "panic", fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
	}()
	path := "gx.test/" + c.Pkg
	f, err := parser.ParseFile(fset, path+"/f.go", c.Text, parser.ParseComments)
	if err != nil {
		return out{Status: "invalid", Msg: err.Error()}
	}
	valid := true
	tc := types.Config{Importer: imps, Error: func(error) { valid = false }}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}}
	tc.Check(path, fset, []*ast.File{f}, info)
	var targets []*postgres.TargetInfo
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.TYPE {
			continue
		}
		for _, s := range gd.Specs {
			ts := s.(*ast.TypeSpec)
			if !rxTarget.MatchString(ts.Name.Name) {
				continue
			}
			tn, ok := info.Defs[ts.Name].(*types.TypeName)
			if !ok {
				continue
			}
			named, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			an, err := analysis.Run(fset, named, tn.Pos(), cmd.Config)
			if err == nil {
				var ti *postgres.TargetInfo
				if ti, err = postgres.Check(db, an.Struct, an); err == nil {
					targets = append(targets, ti)
					continue
				}
			}
			o = out{Status: "refused", Msg: err.Error()}
			if !strings.Contains(o.Msg, c.Pkg+"/f.go:") {
				o.Suspect = "place"
			}
			return o
		}
	}
	if len(targets) == 0 {
		return out{Status: "refused", Msg: "no targets"}
	}
	var buf bytes.Buffer
	if err := generator.Write(&buf, f.Name.Name, targets, cmd.Config); err != nil {
		return out{Status: "refused", Suspect: "generator", Msg: err.Error()}
	}
	o = out{Status: "accepted"}
	code, err := format.Source(buf.Bytes())
	if err != nil {
		return out{Status: "accepted", Suspect: "format", Msg: err.Error()}
	}
	g, err := parser.ParseFile(fset, path+"/f_gosql.go", code, 0)
	if err != nil {
		return out{Status: "accepted", Suspect: "parse", Msg: err.Error()}
	}
	if !valid {
		return o
	}
	var bad []string
	tc.Error = func(err error) { bad = append(bad, err.Error()) }
	tc.Check(path, fset, []*ast.File{f, g}, nil)
	if len(bad) > 0 {
		o.Suspect, o.Msg = "compile", strings.Join(bad, "\n")
		return o
	}
	ast.Inspect(g, func(n ast.Node) bool {
		d, ok := n.(*ast.GenDecl)
		if !ok || d.Tok != token.CONST {
			return true
		}
		for _, s := range d.Specs {
			v := s.(*ast.ValueSpec)
			lit, ok := v.Values[0].(*ast.BasicLit)
			if !ok || lit.Kind != token.STRING {
				continue
			}
			q, err := strconv.Unquote(lit.Value)
			if err != nil {
				continue
			}
			st, err := pdb.Prepare(q)
			o.Consts++
			if err != nil {
				o.Suspect, o.Msg = "statement", err.Error()+"\n"+q
				continue
			}
			st.Close()
		}
		return true
	})
	return o
}
