package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/frk/gosql/verifharness/gx"
)

var rxQ = regexp.MustCompile("const queryString = `([^`]*)`")

func main() {
	e, err := gx.NewEnv(false)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if len(os.Args) > 1 && os.Args[1] == "ddl" {
		fmt.Println(gx.DDL())
		return
	}
	if f := os.Getenv("GXSQL"); f != "" {
		if out, err := exec.Command("psql", "-qd", e.DSN(), "-f", f).CombinedOutput(); err != nil || len(out) > 0 {
			fmt.Println(string(out), err)
		}
	}
	b, _ := io.ReadAll(os.Stdin)
	for i, part := range strings.Split(string(b), "\n---\n") {
		recs := ""
		if before, after, ok := strings.Cut(part, "\n+++\n"); ok {
			recs, part = before, after
		}
		dir, err := e.NewModule("\n" + recs)
		if err != nil {
			panic(err)
		}
		src := gx.Header("p", part)
		gx.WriteFiles(dir, map[string]string{"p/f.go": src})
		args := append([]string{"-db", e.DSN(), "-wd", "p"}, os.Args[1:]...)
		r := e.Run(dir, nil, args...)
		fmt.Printf("=== %d exit %d panic %v\n%s\n", i, r.Code, r.Panic, r.Out)
		o, _ := os.ReadFile(filepath.Join(dir, "p/f_gosql.go"))
		fmt.Println(string(o))
		if len(o) > 0 {
			out, err := e.Go(dir, "build", "./p")
			fmt.Println("build:", err, out)
			for _, q := range rxQ.FindAllStringSubmatch(string(o), -1) {
				pr, err := exec.Command("psql", "-qd", e.DSN(), "-c", "PREPARE x AS "+q[1]).CombinedOutput()
				fmt.Println("prepare:", err, strings.ReplaceAll(string(pr), "\n", " "))
			}
		}
		os.RemoveAll(dir)
	}
}
