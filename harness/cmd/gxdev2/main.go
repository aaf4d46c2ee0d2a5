// Command gxdev2 is a development driver of the pairs monitor.
package main

import (
	"fmt"
	"os"
	"strconv"

	"github.com/frk/gosql/verifharness/gx"
	"github.com/frk/gosql/verifharness/pgconv"
)

func main() {
	e, err := gx.NewEnv(false)
	if err != nil {
		panic(err)
	}
	ps, err := pgconv.Pairs()
	if err != nil {
		panic(err)
	}
	if _, err := e.DB.Exec(pgconv.PairDDL(ps)); err != nil {
		panic(err)
	}
	v, _ := strconv.Atoi(os.Args[1])
	n, _ := strconv.Atoi(os.Args[2])
	x := &gx.PairRun{Env: e, Pairs: gx.PairVariants(ps, v), Max: 60}
	x.Go(n, 1)
	fmt.Println("pairs", len(ps), "rejected", len(x.Rejected), "nobuild", len(x.NoBuild), "fatal", x.Fatal)
	name := func(id string) string {
		for _, p := range x.Pairs {
			if p.ID == id {
				return fmt.Sprintf("%s %s %s nn=%v", p.SQL, p.Go, p.Variant, p.NotNull)
			}
		}
		return id
	}
	clip := func(s string) string {
		if len(s) > 300 {
			return s[:300]
		}
		return s
	}
	for k, m := range x.Rejected {
		fmt.Println("REJ", name(k), clip(m))
	}
	for k, m := range x.NoBuild {
		fmt.Println("NOBUILD", name(k), clip(m))
	}
	cnt, ev := map[string]int{}, 0
	for _, r := range x.Reports {
		ev += r.Evals
		if r.Key != "" {
			if cnt[r.ID+r.Key]++; cnt[r.ID+r.Key] == 1 {
				fmt.Println("BAD", r.Key, clip(r.Msg))
			}
		}
	}
	fmt.Println("evals", ev)
}
