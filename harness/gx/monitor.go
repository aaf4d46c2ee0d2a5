package gx

import (
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/frk/gosql/verifharness/vh"
)

// Plan says what a differential run draws.
type Plan struct {
	Kinds   string               // e.g. "SIUD"
	N       int                  // targets per kind and batch
	Cases   int                  // executions per target
	Batches int                  // the first ones rotate through the modes below
	Want    func(t *Target) bool // keep only these
	Seed    int64
	Forms   bool // write types in other ways
}

// mode is how a batch is generated.
type mode struct {
	name    string
	flags   []string
	imp     bool
	ctx     bool
	perFile int
	arg     string
	method  string
	mname   []string
}

var modes = []mode{
	{name: "plain"},
	{name: "imported-records", imp: true},
	{name: "quoted-identifiers", flags: []string{"-qid"}},
	{name: "with-context", flags: []string{"-with-ctx"}, ctx: true},
	{name: "one-target-per-file", perFile: 1},
	{name: "many-targets-per-file", perFile: 40},
	{name: "argument-type", flags: []string{"-argtype", "*gx.test/rt.Conn"}, arg: "*rt.Conn", perFile: 1},
	{name: "argument-type-of-the-package", flags: []string{"-argtype", "gx.test/q.QC", "-with-ctx"}, arg: "QC", ctx: true, perFile: 2},
	{name: "method-name", flags: []string{"-config", "q/conf.json"}, method: "Run_1"},
	{name: "colliding-package-names", imp: true, mname: []string{"gosql", "pgsql", "context", "v", "q", "c", "row", "rows", "params", "err", "string", "i", "pos", "res"}, flags: []string{"-with-ctx"}, ctx: true},
}

var digits = regexp.MustCompile(`[0-9]+`)

// shape identifies the kind of statement that was sent.
func sqlShape(s string) string {
	return digits.ReplaceAllString(strings.Join(strings.Fields(s), " "), "#")
}

// Features lists what a target uses.
func (t *Target) Features() (fs []string) {
	add := func(ok bool, s string) {
		if ok {
			fs = append(fs, s)
		}
	}
	add(t.Alias != "", "alias")
	add(t.JoinKind != "", "join:"+t.JoinKind)
	for _, j := range t.Joins {
		fs = append(fs, "join:"+j.Type)
	}
	add(t.All, "all")
	add(t.Filter, "filter")
	add(t.HasWhere, "where")
	add(t.Conflict != nil, "conflict")
	add(len(t.OrderBy) > 0, "orderby")
	add(t.Limit != nil, "limit")
	add(t.Offset != nil, "offset")
	add(len(t.Default) > 0, "default")
	add(len(t.Force) > 0, "force")
	add(t.Override != "", "override")
	add(t.RowsAff != "", "rowsaffected")
	add(len(t.Return) > 0, "return")
	add(t.Result != nil, "result:"+t.ResForm)
	add(t.ErrH != "", "errh:"+t.ErrH)
	add(t.CtxField, "ctx-field")
	if r, _ := t.outRec(); r != nil {
		add(r.AfterScan, "afterscan")
	}
	sort.Strings(fs)
	return
}

// Differential generates code for drawn targets, runs it against the database, and compares
// what each call did with a reference that was composed from the target's declaration alone.
func Differential(run *vh.Run, p Plan) {
	e, err := NewEnv(false)
	if err != nil {
		vh.Fatal("%v", err)
	}
	for i := 0; i < p.Batches; i++ {
		one(run, e, p, i)
	}
	run.Count("tool runs", e.CLIRuns)
	run.Count("builds of generated code", e.Builds)
}

func one(run *vh.Run, e *Env, p Plan, i int) {
	m := modes[i%len(modes)]
	if x, err := strconv.Atoi(os.Getenv("GXMODE")); err == nil {
		m = modes[x] // development
	}
	g := NewGen(run.Seed*100000 + p.Seed*1000 + int64(i))
	g.Imported = m.imp
	for _, k := range p.Kinds {
		for n, tries := 0, 0; n < p.N && tries < 60*p.N; tries++ {
			was := len(g.Ts)
			var t *Target
			switch k {
			case 'S':
				t = g.Select(p.Cases)
			case 'I':
				t = g.Insert(p.Cases)
			case 'U':
				t = g.Update(p.Cases)
			case 'D':
				t = g.Delete(p.Cases)
			}
			if p.Want != nil && !p.Want(t) {
				g.Ts = g.Ts[:was]
				continue
			}
			n++
		}
	}
	if p.Forms {
		Disguise(rand.New(rand.NewSource(run.Seed*77+int64(i))), g.Ts)
		for _, t := range g.Ts {
			for _, c := range t.Forms.Chosen {
				run.Seen("form", c)
			}
		}
	}
	b := &Batch{Env: e, Ts: g.Ts, Recs: g.Recs, Flags: m.flags, WithCtx: m.ctx, PerFile: m.perFile, Arg: m.arg, Method: m.method}
	if m.mname != nil {
		b.MName = m.mname[g.R.Intn(len(m.mname))]
	}
	b.Go()
	defer b.Remove()
	if b.Fatal != "" {
		run.Violate("fatal", map[string]string{"output": clip(b.Fatal, 4000)}, "valid targets yield no working code (%s): %s", m.name, clip(b.Fatal, 400))
		return
	}
	for _, t := range g.Ts {
		if s, ok := b.Rejected[t.Name]; ok {
			run.Violate("rejected:"+t.Kind, map[string]string{"target": t.Source(), "output": clip(s, 3000), "mode": m.name}, "a valid target is rejected: %s: %s", t.Name, clip(s, 300))
		}
		if s, ok := b.NoBuild[t.Name]; ok {
			run.Violate("nobuild:"+t.Kind, map[string]string{"target": t.Source(), "output": clip(s, 3000), "generated": clip(b.Output[t.Name], 8000), "mode": m.name}, "the code generated for %s does not compile: %s", t.Name, clip(s, 300))
		}
	}
	for _, t := range g.Ts {
		fs := t.Features()
		for ci, k := range t.Cases {
			o := b.Obs[t.Name][ci]
			if o == nil {
				continue
			}
			x := Reference(e.DB, t, k)
			if x.Skip != "" {
				run.Count("skipped", 1)
				continue
			}
			run.Count("statements executed", int64(len(o.Calls)))
			run.Count("records compared", int64(len(x.Recs)))
			if x.Err {
				run.Count("expected errors", 1)
			}
			shape := ""
			if len(o.Calls) > 0 {
				shape = sqlShape(o.Calls[0].Q)
			}
			outcome := "ok"
			switch {
			case x.Err:
				outcome = "error " + x.State
			case x.Count == 0:
				outcome = "none"
			case x.Count > 1:
				outcome = "many"
			}
			run.Eval(m.name + "|" + shape + "|" + outcome)
			run.Seen("statement form", t.Kind+" "+t.Form)
			run.Seen("mode", m.name)
			run.Seen("outcome", outcome)
			for _, f := range fs {
				run.Seen("feature", f)
			}
			ds := Compare(t, k, x, o, m.ctx)
			if len(ds) == 0 {
				run.Sample(t.Kind+" "+t.Form, map[string]interface{}{"target": t.Source(), "sql": shape, "records": len(x.Recs)})
				continue
			}
			for _, d := range ds {
				run.Violate(t.Kind+":"+d.Aspect, map[string]interface{}{
					"target": t.Source(), "record": recSource(t), "case": ci, "mode": m.name, "calls": o.Calls, "error": o.Err,
					"reference": x.SQL, "difference": d.Msg, "generated": clip(b.Output[t.Name], 8000),
				}, "%s case %d: %s: %s", t.Name, ci, d.Aspect, clip(d.Msg, 300))
			}
		}
	}
	for c, n := range g.Classes {
		run.Count("drawn "+c, int64(n))
	}
}

func recSource(t *Target) (s string) {
	for _, r := range []*Rec{t.Rec, t.Result} {
		if r != nil {
			s += r.Source()
		}
	}
	return
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Delivery tells whether a target delivers its outcome in another way than into a plain record.
func Delivery(t *Target) bool {
	switch t.Form {
	case "slice", "ptrslice", "iterf", "iterfv", "iteri", "count", "exists", "notexists", "ptr":
		return true
	}
	if r, _ := t.outRec(); r != nil && r.AfterScan {
		return true
	}
	return t.Result != nil || t.RowsAff != "" || t.ErrH != "" || t.CtxField || t.Limit != nil || t.Offset != nil
}
