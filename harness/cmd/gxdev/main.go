// gxdev runs batches by hand.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/frk/gosql/verifharness/gx"
)

func main() {
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 20, "")
	kinds := flag.String("k", "SIUD", "")
	cases := flag.Int("c", 4, "")
	maxp := flag.Int("p", 15, "")
	imp := flag.Bool("imp", false, "")
	qid := flag.Bool("qid", false, "")
	keep := flag.Bool("keep", false, "")
	flag.Parse()
	e, err := gx.NewEnv(false)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	g := gx.NewGen(*seed)
	g.Imported = *imp
	for _, k := range *kinds {
		for i := 0; i < *n; i++ {
			switch k {
			case 'S':
				g.Select(*cases)
			case 'I':
				g.Insert(*cases)
			case 'U':
				g.Update(*cases)
			case 'D':
				g.Delete(*cases)
			}
		}
	}
	b := &gx.Batch{Env: e, Ts: g.Ts, Recs: g.Recs}
	if *qid {
		b.Flags = []string{"-qid"}
	}
	t0 := time.Now()
	b.Go()
	fmt.Println("targets", len(g.Ts), "cli", e.CLIRuns, "builds", e.Builds, time.Since(t0), b.Dir)
	if b.Fatal != "" {
		fmt.Println("FATAL", cut(b.Fatal, 3000))
	}
	by := map[string]*gx.Target{}
	for _, t := range g.Ts {
		by[t.Name] = t
	}
	p := 0
	for _, m := range []struct {
		n string
		m map[string]string
	}{{"REJECTED", b.Rejected}, {"NOBUILD", b.NoBuild}} {
		for n, s := range m.m {
			if p < *maxp {
				p++
				if i := strings.Index(s, "HINT"); i > 0 {
					s = s[:i]
				}
				fmt.Println("==", m.n, n, cut(s, 900))
				if by[n] != nil {
					fmt.Println(by[n].Source())
				}
			}
		}
		fmt.Println(m.n, len(m.m))
	}
	asp := map[string]int{}
	ran, errs := 0, 0
	for _, t := range g.Ts {
		for i, k := range t.Cases {
			o := b.Obs[t.Name][i]
			if o == nil {
				continue
			}
			ran++
			x := gx.Reference(e.DB, t, k)
			if x.Err {
				errs++
			}
			ds := gx.Compare(t, k, x, o, false)
			for _, d := range ds {
				asp[d.Aspect]++
			}
			if len(ds) > 0 && p < *maxp {
				p++
				fmt.Println("== DIFF", t.Name, i)
				for _, d := range ds {
					fmt.Println("   ", d.Aspect, cut(d.Msg, 500))
				}
				fmt.Println(t.Source())
				fmt.Println("SQL ", cut(fmt.Sprint(o.Calls), 1200))
				fmt.Println("REF ", cut(fmt.Sprint(x.SQL), 1200))
			}
		}
	}
	fmt.Println("ran", ran, "errs", errs, "diffs", asp)
	var cs []string
	for c, n := range g.Classes {
		cs = append(cs, fmt.Sprint(c, ":", n))
	}
	sort.Strings(cs)
	fmt.Println(cs)
	if !*keep {
		b.Remove()
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
