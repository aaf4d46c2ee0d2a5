// Package vh is the small runtime shared by every monitor: verdict keeping, known findings, evidence.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Known is one known finding.
type Known struct{ Key, What string }

type violation struct {
	Key    string      `json:"key"`
	Msg    string      `json:"msg"`
	Detail interface{} `json:"detail,omitempty"`
}

// Run collects what the monitors of one property observed.
type Run struct {
	Prop, Tier string
	Seed       int64
	Root       string // /verif

	mu         sync.Mutex
	start      time.Time
	evals      int64
	distinct   map[uint64]struct{}
	counters   map[string]int64
	sets       map[string]map[string]int64
	samples    []interface{}
	sampleKeys map[string]bool
	viol       []violation
	violSeen   map[string]int
	known      map[string]Known
	knownHit   map[string]int
	incon      []string
	Rule       string
	Level      string
	Notes      []string
}

// New reads tier/seed from the environment.
func New(prop string) *Run {
	r := &Run{Prop: prop, Tier: os.Getenv("VERIF_TIER"), Root: os.Getenv("VERIF_ROOT"), start: time.Now(),
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, sets: map[string]map[string]int64{},
		sampleKeys: map[string]bool{}, violSeen: map[string]int{}, known: map[string]Known{}, knownHit: map[string]int{}, Level: "exploration"}
	if r.Tier == "" {
		r.Tier = "quick"
	}
	if r.Root == "" {
		r.Root = "/verif"
	}
	r.Seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			r.Seed = n
		}
	}
	// known_findings.txt: "known: property=ID key=KEY :: what" and "fixed: property=ID COMMIT what"; fixed lines suppress nothing.
	b, _ := os.ReadFile(filepath.Join(r.Root, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		var k Known
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+prop+" key=")
		k.Key, k.What, _ = strings.Cut(l, " :: ")
		r.known[k.Key] = k
	}
	return r
}

// Thorough reports the tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks the tier's bound.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Eval records one oracle evaluation. shape identifies the distinct non-trivial situation ("" = trivial).
func (r *Run) Eval(shape string) {
	r.mu.Lock()
	r.evals++
	if shape != "" {
		h := fnv.New64a()
		h.Write([]byte(shape))
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
}

// Count bumps a named counter.
func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Seen records a member of a named observed set.
func (r *Run) Seen(set, member string) {
	r.mu.Lock()
	m := r.sets[set]
	if m == nil {
		m = map[string]int64{}
		r.sets[set] = m
	}
	m[member]++
	r.mu.Unlock()
}

// Sample keeps up to a dozen samples, one per class.
func (r *Run) Sample(class string, v interface{}) {
	r.mu.Lock()
	if !r.sampleKeys[class] && len(r.samples) < 14 {
		r.sampleKeys[class] = true
		r.samples = append(r.samples, map[string]interface{}{"class": class, "case": v})
	}
	r.mu.Unlock()
}

// Violate records a violation. key names the specific failing site or input class.
func (r *Run) Violate(key string, detail interface{}, format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.known[key]; ok {
		r.knownHit[key]++
		return
	}
	r.violSeen[key]++
	if r.violSeen[key] > 3 || len(r.viol) >= 400 {
		return
	}
	r.viol = append(r.viol, violation{Key: key, Msg: fmt.Sprintf(format, a...), Detail: detail})
}

// Violations reports how many distinct keys were violated.
func (r *Run) Violations() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.violSeen) }

// Inconclusive records that some part could not be decided.
func (r *Run) Inconclusive(format string, a ...interface{}) {
	r.mu.Lock()
	if len(r.incon) < 50 {
		r.incon = append(r.incon, fmt.Sprintf(format, a...))
	}
	r.mu.Unlock()
}

// Fatal stops without a verdict.
func Fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "NO-VERDICT: "+format+"\n", a...)
	os.Exit(2)
}

// Finish writes evidence, prints the verdict and exits.
func (r *Run) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	ev := filepath.Join(r.Root, "evidence")
	os.MkdirAll(ev, 0o755)
	sets := map[string]interface{}{}
	for k, m := range r.sets {
		keys := make([]string, 0, len(m))
		for x := range m {
			keys = append(keys, x)
		}
		sort.Strings(keys)
		e := map[string]interface{}{"size": len(keys)}
		if len(keys) <= 120 {
			e["members"] = m
		} else {
			e["first"] = keys[:40]
		}
		sets[k] = e
	}
	for k, m := range r.known {
		if n := r.knownHit[k]; n > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (observed %d times; key %s)\n", r.Prop, m.What, n, k)
		}
	}
	cov := map[string]interface{}{
		"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.Rule,
		"samples": r.samples, "counters": r.counters, "observed": sets,
		"known_findings_observed": r.knownHit, "inconclusive": r.incon,
	}
	doc := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "notes": r.Notes,
	}
	rc := 0
	if len(r.viol) > 0 {
		rc = 1
		rd := filepath.Join(ev, "replay")
		os.MkdirAll(rd, 0o755)
		p := filepath.Join(rd, r.Prop+".json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": r.Prop, "tier": r.Tier, "seed": r.Seed,
			"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/run.sh %s", r.Seed, r.Tier, r.Prop), "keys": r.violSeen, "violations": r.viol}, "", " ")
		os.WriteFile(p, b, 0o644)
		for i, v := range r.viol {
			if i < 25 {
				fmt.Printf("VIOLATION property=%s replay=%s key=%s :: %s\n", r.Prop, p, v.Key, strings.ReplaceAll(v.Msg, "\n", " | "))
			}
		}
		fmt.Printf("%s: %d violations, %d keys\n", r.Prop, len(r.viol), len(r.violSeen))
	}
	doc["violations"] = len(r.viol)
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		Fatal("evidence: %v", err)
	}
	if err := os.WriteFile(filepath.Join(ev, r.Prop+".json"), b, 0o644); err != nil {
		Fatal("evidence: %v", err)
	}
	if rc == 0 && (r.evals == 0 || len(r.distinct) < 2) {
		Fatal("%s observed nothing", r.Prop)
	}
	if rc == 0 && len(r.incon) > 0 {
		for _, s := range r.incon {
			fmt.Fprintln(os.Stderr, "inconclusive:", s)
		}
	}
	fmt.Printf("%s tier=%s seed=%d evaluations=%d distinct=%d known=%d wall=%.1fs %s\n", r.Prop, r.Tier, r.Seed, r.evals, len(r.distinct), len(r.knownHit), time.Since(r.start).Seconds(), map[int]string{0: "HELD", 1: "VIOLATED"}[rc])
	os.Exit(rc)
}

// Races turns the race detector's reports (GORACE log_path) into violations, one per pair of entry points.
func (r *Run) Races(what string) {
	log := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			log = strings.TrimPrefix(f, "log_path=")
		}
	}
	if log == "" {
		r.Inconclusive("no race log configured")
		return
	}
	fs, _ := filepath.Glob(log + ".*")
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "WARNING: DATA RACE")[1:] {
			var fns []string
			for _, l := range strings.Split(rep, "\n") {
				l = strings.TrimSpace(l)
				if strings.Contains(l, "gosql") && strings.HasSuffix(l, ")") && !strings.Contains(l, "verifharness") && len(fns) < 2 {
					fns = append(fns, l)
				}
			}
			if len(rep) > 4000 {
				rep = rep[:4000]
			}
			r.Violate("race/"+strings.Join(fns, "~"), rep, "data race in %s: %s", what, strings.Join(fns, " ~ "))
		}
	}
	r.Count("race reports", int64(len(fs)))
}
