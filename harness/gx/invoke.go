package gx

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/frk/gosql/verifharness/vh"
)

var invokeFlags = strings.Fields("-db -wd -r -f -rx -o -qid -argtype -fcktag -fckbase -fcksep -with-ctx -config -help -h -x --")

var invokeWords = []string{"", ".", "..", "/", "a", "a/f0.go", "f0.go", "absent", "absent/x.go", "a/sub", "./...", "...", "[", "(", "a(b", `\`, "%s", "%d", "%", "%s%s", "%%", "x/%s", "../%s", "/nonexistent/%s", "a b", " ", "\t", "\n",
	"true", "false", "maybe", "-1", "0", "*", "**", "*.T", ".T", "T", "gx.test/a.T", "gx.test/rt.Conn", "*gx.test/rt.Conn", "gx.test/....T", "nope/....T", "file=x.T", "error", "fmt.Stringer", "C.T", "unsafe.Pointer", "é", "日本.X",
	"\x00x", "\xff\xfe", strings.Repeat("x", 300), strings.Repeat("a/", 2000), "json", "sql", "json:x", "`", `"`, "host=/nonexistent dbname=x", "host=", "=", "postgres://", "postgres://%zz", "sslmode=disable", "dbname='", "$HOME", "~", "{}", "-", "conf/my.json", "a/f0_gosql.go", ".git", "go.mod"}

// invocation draws an argument list and a config file.
func invocation(r *rand.Rand, dsn string) (args []string, conf string) {
	word := func() string {
		w := invokeWords[r.Intn(len(invokeWords))]
		if x := invokeWords[r.Intn(len(invokeWords))]; r.Intn(6) == 0 && !strings.Contains(w+x, "..") {
			w += x
		}
		return strings.ReplaceAll(w, "\x00", "\\0") // the kernel takes no NUL
	}
	if r.Intn(4) > 0 {
		args = append(args, "-db", dsn)
	}
	if r.Intn(2) == 0 {
		args = append(args, "-wd", "a")
	}
	for n := r.Intn(4); n > 0; n-- {
		f := invokeFlags[r.Intn(len(invokeFlags))]
		switch r.Intn(5) {
		case 0:
			args = append(args, f)
		case 1:
			args = append(args, f+"="+word())
		default:
			args = append(args, f, word())
		}
	}
	if r.Intn(2) > 0 {
		return args, ""
	}
	var val func(d int) interface{}
	val = func(d int) interface{} {
		switch x := r.Intn(8); {
		case x < 4:
			return word()
		case x == 4:
			return r.Intn(2) == 0
		case x == 5 && d > 0:
			l := []interface{}{}
			for n := r.Intn(3); n > 0; n-- {
				l = append(l, val(d-1))
			}
			return l
		case x == 6 && d > 0:
			m := map[string]interface{}{}
			for n := r.Intn(3); n > 0; n-- {
				m[word()] = val(d - 1)
			}
			return m
		case x == 7:
			return nil
		}
		return r.Intn(10) - 2
	}
	m := map[string]interface{}{}
	for n := 1 + r.Intn(3); n > 0; n-- {
		k := append(options, option{key: "database_dsn"}, option{key: "filter_value_converters"})[r.Intn(len(options)+2)].key
		if r.Intn(10) == 0 {
			k = word()
		}
		m[k] = val(2)
	}
	b, _ := json.Marshal(m)
	conf = string(b)
	if r.Intn(5) == 0 {
		// text that isn't JSON
		i := r.Intn(len(conf))
		conf = conf[:i] + pickS(r, "", "}", "[", ",", "\"", "\x00", "\xff", "nul", "1e999") + conf[i+r.Intn(len(conf)-i):]
	}
	return args, conf
}

// outside reports whether the run could leave the module's directory: the tool writes next to what it reads.
func outside(args []string, conf string) bool {
	all := append(append([]string{}, args...), strings.Split(conf, `"`)...)
	for i, a := range all {
		a = strings.TrimPrefix(strings.TrimPrefix(a, "-wd="), "--wd=")
		if strings.Contains(a, "..") && a != "../%s" && !strings.Contains(a, "...") || strings.Contains(a, "..") && i > 0 && strings.HasSuffix(all[i-1], "wd") {
			return true
		}
		if strings.HasPrefix(a, "/") && i > 0 && !strings.HasPrefix(all[i-1], "-o") && !strings.HasPrefix(all[i-1], "-rx") && a != "/nonexistent/%s" {
			return true
		}
		if strings.HasPrefix(a, "/") && strings.Contains(all[i], "wd=") {
			return true
		}
	}
	return strings.Contains(conf, "working_directory")
}

// invocations runs the tool with arguments and config files that make little sense.
func invocations(run *vh.Run, e *Env, lo, n int) {
	Parallel(n, 8, func(i, w int) {
		i += lo
		r := rand.New(rand.NewSource(run.Seed*1000081 + int64(i)))
		root, err := e.NewModule("")
		if err != nil {
			vh.Fatal("%v", err)
		}
		defer os.RemoveAll(root)
		files := map[string]string{".git/HEAD": "ref: refs/heads/x\n", "a/f0.go": fmt.Sprintf(confSource, "F0"), "a/sub/f1.go": strings.Replace(fmt.Sprintf(confSource, "F1"), "package a", "package sub", 1)}
		args, conf := invocation(r, e.DSN())
		for outside(args, conf) {
			args, conf = invocation(r, e.DSN())
		}
		if conf != "" {
			at := pickS(r, ".gosql", ".gosql.json", "conf/my.json")
			files[at] = conf
			if at == "conf/my.json" {
				args = append(args, "-config", at)
			}
		}
		WriteFiles(root, files)
		before := Snapshot(root)
		cmd := append([]string{"sh", "-c", `ulimit -v 6000000; exec "$0" "$@"`, e.CLI}, args...)
		x := e.RunCmd(root, time.Minute, cmd...)
		df := before.Diff(Snapshot(root))
		d := map[string]interface{}{"argv": args, "config": conf, "exit": x.Code, "output": clip(x.Out, 3000), "differences": df}
		var what []string
		for _, a := range args {
			if strings.HasPrefix(a, "-") {
				what = append(what, strings.SplitN(a, "=", 2)[0])
			}
		}
		key := strings.Join(what, " ")
		if conf != "" {
			key += " config"
		}
		run.Eval("run " + key)
		run.Count("hostile invocations", 1)
		run.Seen("hostile invocations: exit", fmt.Sprint(x.Code))
		switch {
		case x.Code < 0:
			run.Violate("invoke-hang", d, "the tool doesn't end")
		case x.Panic:
			run.Violate("invoke-panic:"+panicKey(x.Out), d, "the tool panics: %s", clip(x.Out, 300))
		case x.Code == 0:
		case x.Code == 1 || x.Code == 2:
			if strings.TrimSpace(x.Out) == "" {
				run.Violate("invoke-silent", d, "a refusal without a message")
			}
			if len(df) > 0 {
				run.Violate("invoke-wrote", d, "a refused run changed files: %v", df)
			}
		default:
			run.Violate("invoke-exit", d, "exit code %d: %s", x.Code, clip(x.Out, 300))
		}
	})
}
