// Command check runs the monitors of one property.
package main

import (
	"os"
	"strings"

	"github.com/frk/gosql/verifharness/filtermon"
	"github.com/frk/gosql/verifharness/gx"
	"github.com/frk/gosql/verifharness/pgconv"
	"github.com/frk/gosql/verifharness/vh"
)

func main() {
	prop := os.Args[1]
	vh.Supervise(prop)
	run := vh.New(prop)
	all := func(string) bool { return true }
	switch prop {
	case "C10":
		pgconv.RoundTrip(run, "text", all)
		pgconv.Docs(run)
	case "C11":
		pgconv.RoundTrip(run, "numeric", all)
	case "C12":
		pgconv.RoundTrip(run, "temporal", all)
	case "C13":
		pgconv.RoundTrip(run, "geonet", all)
	case "C14":
		pgconv.Ownership(run)
	case "C15":
		pgconv.RoundTrip(run, "", func(k string) bool {
			return strings.Contains(k, "null") || strings.Contains(k, "panic") || k == "count" || k == "partial" || k == "rejected" || k == "misplaced"
		})
		pgconv.Docs(run)
	case "C01":
		filtermon.WellFormed(run)
	case "C02":
		filtermon.Injection(run)
	case "C03":
		filtermon.Semantics(run)
	case "C04":
		filtermon.Sorting(run)
	case "C05":
		filtermon.Malformed(run)
	case "C06":
		filtermon.Lists(run)
	case "C07":
		filtermon.Shared(run)
	case "C18":
		pgconv.Overflow(run)
	case "C20":
		gx.Differential(run, gx.Plan{Kinds: "S", N: 150, Cases: 4, Batches: run.N(4, 60), Seed: 20})
	case "C21":
		gx.Differential(run, gx.Plan{Kinds: "I", N: 120, Cases: 4, Batches: run.N(4, 60), Seed: 21})
	case "C22":
		gx.Differential(run, gx.Plan{Kinds: "U", N: 120, Cases: 4, Batches: run.N(4, 60), Seed: 22})
	case "C23":
		gx.Differential(run, gx.Plan{Kinds: "D", N: 120, Cases: 4, Batches: run.N(4, 60), Seed: 23})
	case "C24":
		gx.Differential(run, gx.Plan{Kinds: "SUD", N: 80, Cases: 6, Batches: run.N(4, 60), Seed: 24, Want: func(t *gx.Target) bool { return t.HasWhere }})
	case "C25":
		gx.Differential(run, gx.Plan{Kinds: "SIUD", N: 60, Cases: 4, Batches: run.N(4, 60), Seed: 25, Want: gx.Delivery})
	case "C26":
		gx.Differential(run, gx.Plan{Kinds: "SIUD", N: 50, Cases: 1, Batches: run.N(11, 110), Seed: 26})
	case "C36":
		gx.Differential(run, gx.Plan{Kinds: "SIUD", N: 60, Cases: 2, Batches: run.N(4, 60), Seed: 36, Forms: true})
	case "C34":
		gx.Catalogs(run)
	case "C29":
		gx.Reject(run)
	case "C27":
		gx.Determinism(run)
	case "C30":
		gx.Atomic(run)
	case "C28":
		gx.Filters(run)
	case "C31":
		gx.Selection(run)
	case "C32":
		gx.Configuration(run)
	case "C33":
		gx.Robust(run)
	case "C35":
		gx.PairMatrix(run)
	default:
		vh.Fatal("unknown property %s", prop)
	}
	run.Finish()
}
