package gx

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Diff is one disagreement. Aspect groups them: sql rows scalar aff tables err args handler ctx unread after visits panic.
type Diff struct{ Aspect, Msg string }

func js(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// dig follows a selector in a dump.
func dig(d interface{}, f *Field) (interface{}, bool) {
	for _, n := range append(append([]string{}, names(f)...), f.Name) {
		m, ok := d.(map[string]interface{})
		if !ok {
			return nil, false
		}
		if d, ok = m[n]; !ok {
			return nil, false
		}
	}
	return d, true
}

func names(f *Field) (out []string) {
	for _, n := range f.Path {
		out = append(out, n.Name)
	}
	return
}

func dumpRow(fs []*Field, d interface{}) string {
	var ps []string
	for _, f := range fs {
		v, ok := dig(d, f)
		if !ok {
			ps = append(ps, f.sel()+"=<missing>")
			continue
		}
		ps = append(ps, f.sel()+"="+js(v))
	}
	return strings.Join(ps, " ")
}

func wantRow(fs []*Field, m map[string]V) string {
	var ps []string
	for _, f := range fs {
		ps = append(ps, f.sel()+"="+js(dumpOf(f.GT, m[f.sel()])))
	}
	return strings.Join(ps, " ")
}

var paramRef = regexp.MustCompile(`\$(\d+)`)

// stripQuoted removes quoted strings and identifiers.
func stripQuoted(q string) string {
	var b strings.Builder
	var in byte
	for i := 0; i < len(q); i++ {
		c := q[i]
		if in != 0 {
			if c == in {
				in = 0
			}
			continue
		}
		if c == '\'' || c == '"' {
			in = c
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

// Compare checks one observation against its expectation.
func Compare(t *Target, k *Case, e *Expect, o *Obs, withCtx bool) (ds []Diff) {
	add := func(a, f string, x ...interface{}) { ds = append(ds, Diff{a, fmt.Sprintf(f, x...)}) }
	if e.Skip != "" {
		return nil
	}
	if o.Panic != "" {
		add("panic", "Exec panicked: %s", o.Panic)
		return
	}
	// statement and parameters
	if len(o.Calls) != 1 {
		add("sql", "%d statements were sent", len(o.Calls))
		return
	}
	call := o.Calls[0]
	seen := map[int]bool{}
	hi := 0
	for _, m := range paramRef.FindAllStringSubmatch(stripQuoted(call.Q), -1) {
		n, _ := strconv.Atoi(m[1])
		seen[n] = true
		hi = max(hi, n)
	}
	if hi != len(call.Args) || len(seen) != hi {
		add("args", "%d arguments for parameters up to $%d (%d distinct)", len(call.Args), hi, len(seen))
	}
	// context
	wantCtx := ""
	if withCtx {
		wantCtx = "Context(arg)"
	} else if t.CtxField {
		wantCtx = "Context(field)"
	}
	base := map[string]bool{"Exec": true, "Query": true, "QueryRow": true}
	if !base[strings.TrimSuffix(call.Fn, wantCtx)] || wantCtx != "" && !strings.HasSuffix(call.Fn, wantCtx) {
		add("ctx", "the statement went through %s, want a context of %q", call.Fn, wantCtx)
	}
	// error
	if (o.Err != "") != e.Err {
		// a slice is written by one statement that visits the rows in an unspecified
		// order: whether one row runs into another's old value depends on it
		if t.Kind == "Update" && !single(t.Form) && len(k.Recs) > 1 && (e.Err && e.State == "23505") != (o.State == "23505") {
			return
		}
		if e.Err {
			add("err", "no error; the reference fails with %s (norows %v)", e.State, e.NoRows)
		} else {
			add("err", "error %q (%s); the reference succeeds", o.Err, o.State)
		}
		return
	}
	if e.Err && (o.State != e.State || o.NoRows != e.NoRows) {
		add("err", "error %q (%s, norows %v), want state %s, norows %v", o.Err, o.State, o.NoRows, e.State, e.NoRows)
	}
	log := []string{}
	if o.Extra["log"] != "" {
		log = strings.Split(o.Extra["log"], "\n")
	}
	ds = append(ds, handler(t, e, o, log)...)
	// table contents
	if t.Kind != "Select" {
		for n, w := range e.Tables {
			if o.Tables[n] != w {
				add("tables", "table %s differs: %s", n, lineDiff(o.Tables[n], w))
			}
		}
	}
	d, ok := o.Dump.(map[string]interface{})
	if !ok {
		add("panic", "no dump")
		return
	}
	switch t.Form {
	case "count", "exists", "notexists":
		f := map[string]string{"count": "Count", "exists": "Exists", "notexists": "NotExists"}[t.Form]
		if g, _ := d[f].(string); g != e.Scalar {
			add("scalar", "%s = %v, want %s", f, d[f], e.Scalar)
		}
		return
	}
	if t.RowsAff != "" && !e.Err {
		if g, _ := d["RowsAffected"].(string); g != fmt.Sprint(e.Aff) {
			add("aff", "RowsAffected = %v, want %d", d["RowsAffected"], e.Aff)
		}
	}
	fs := t.reads()
	rec, form := t.outRec()
	if rec == nil {
		return
	}
	if len(fs) == 0 && t.Kind != "Select" {
		ds = append(ds, inputs(t, k, d, nil)...)
		return
	}
	field := t.RelName
	if t.Result != nil {
		field = "Result"
	}
	if t.Result != nil && t.Rec != nil {
		ds = append(ds, inputs(t, k, d, nil)...)
	}
	got := []string{}
	gotDumps := []interface{}{}
	switch form {
	case "one", "ptr":
		if e.Err {
			return
		}
		if d[field] == nil {
			if e.Count > 0 {
				add("rows", "%s is nil", field)
			}
			return
		}
		if e.Count == 0 {
			return
		}
		gotDumps = append(gotDumps, d[field])
	case "slice", "ptrslice":
		l, _ := d[field].([]interface{})
		gotDumps = l
	default:
		for _, l := range log {
			if strings.HasPrefix(l, "visit ") {
				var x interface{}
				dec := json.NewDecoder(strings.NewReader(l[6:]))
				if err := dec.Decode(&x); err != nil {
					add("visits", "%v", err)
				}
				gotDumps = append(gotDumps, x)
			}
		}
	}
	if e.Err && !e.NoRows {
		return
	}
	for _, x := range gotDumps {
		got = append(got, dumpRow(fs, x))
	}
	want := []string{}
	for _, m := range e.Recs {
		want = append(want, wantRow(fs, m))
	}
	inPlace := t.Kind != "Select" && t.Result == nil && t.Kind != "Delete"
	if inPlace && !single(form) {
		// each record holds what its own row became
		if t.Kind == "Insert" || len(e.Recs) == len(k.Recs) {
			for i := range want {
				if i >= len(got) || got[i] != want[i] {
					g := "<none>"
					if i < len(got) {
						g = got[i]
					}
					add("rows", "record %d holds %s, want %s", i, g, want[i])
					break
				}
			}
		}
		if len(got) != len(k.Recs) {
			add("rows", "%d records after Exec, %d before", len(got), len(k.Recs))
		}
		ds = append(ds, inputs(t, k, d, fs)...)
	} else if e.Subset {
		if len(got) != e.Count {
			add("rows", "%d rows, want %d", len(got), e.Count)
		}
		left := map[string]int{}
		for _, w := range want {
			left[w]++
		}
		for _, g := range got {
			if left[g] == 0 {
				add("rows", "unexpected row %s", g)
				break
			}
			left[g]--
		}
	} else {
		if !e.Ordered {
			sort.Strings(got)
			sort.Strings(want)
		}
		if js(got) != js(want) {
			add("rows", "%d rows, want %d: %s", len(got), len(want), lineDiff(strings.Join(got, "\n"), strings.Join(want, "\n")))
		}
		if inPlace {
			ds = append(ds, inputs(t, k, d, fs)...)
		}
	}
	// fields that are not read stay zero in fresh records
	if !inPlace {
		read := map[string]bool{}
		for _, f := range fs {
			read[f.sel()] = true
		}
		for _, x := range gotDumps {
			for _, f := range rec.Fields {
				if read[f.sel()] {
					continue
				}
				if v, ok := dig(x, f); ok && js(v) != js(dumpOf(f.GT, zeroV(f.GT))) {
					add("unread", "field %s is not read but holds %s", f.sel(), js(v))
				}
			}
		}
	}
	// AfterScan: once per record, after its fields were read
	if rec.AfterScan {
		as := []string{}
		for _, l := range log {
			if strings.HasPrefix(l, "afterscan ") {
				var x interface{}
				if err := json.Unmarshal([]byte(l[10:]), &x); err != nil {
					add("after", "%v", err)
				}
				as = append(as, dumpRow(fs, x))
			}
		}
		g := append([]string{}, got...)
		sort.Strings(g)
		sort.Strings(as)
		if !(single(form) && len(got) == 0) && js(g) != js(as) {
			add("after", "AfterScan saw %d records, %d were read: %s", len(as), len(got), lineDiff(strings.Join(as, "\n"), strings.Join(g, "\n")))
		}
	}
	return
}

// inputs: everything that is not read back keeps its value.
func inputs(t *Target, k *Case, d map[string]interface{}, read []*Field) (ds []Diff) {
	if t.Rec == nil || len(k.Recs) == 0 {
		return nil
	}
	skip := map[string]bool{}
	for _, f := range read {
		skip[f.sel()] = true
	}
	var l []interface{}
	if single(t.Form) {
		l = []interface{}{d[t.RelName]}
	} else {
		l, _ = d[t.RelName].([]interface{})
	}
	for i, x := range l {
		if i >= len(k.Recs) {
			break
		}
		for _, f := range t.Rec.Fields {
			if skip[f.sel()] {
				continue
			}
			v, _ := dig(x, f)
			if w := dumpOf(f.GT, k.Recs[i][f.sel()]); js(v) != js(w) {
				ds = append(ds, Diff{"unread", fmt.Sprintf("input field %s of record %d became %s, was %s", f.sel(), i, js(v), js(w))})
			}
		}
	}
	return
}

func handler(t *Target, e *Expect, o *Obs, log []string) (ds []Diff) {
	if t.ErrH == "" {
		if strings.HasPrefix(o.Err, "handled: ") {
			ds = append(ds, Diff{"handler", "a handler was called although there is none"})
		}
		return
	}
	if !e.Err {
		for _, l := range log {
			if (strings.HasPrefix(l, "eh ") || strings.HasPrefix(l, "eih ")) && !strings.HasSuffix(l, " nil") {
				ds = append(ds, Diff{"handler", "the handler got an error although Exec succeeded: " + l})
			}
		}
		return
	}
	n := 0
	for _, l := range log {
		if strings.HasPrefix(l, "eh ") || strings.HasPrefix(l, "eih ") {
			n++
		}
		if strings.HasPrefix(l, "eih {") {
			var m map[string]string
			json.Unmarshal([]byte(l[4:]), &m)
			if m["kind"] != t.Kind || m["name"] != t.Name || m["same"] != "true" || m["sql"] != o.Calls[0].Q {
				ds = append(ds, Diff{"handler", "ErrorInfo = " + tail(l, 300)})
			}
		}
	}
	if n != 1 {
		ds = append(ds, Diff{"handler", fmt.Sprintf("the handler was called %d times on an error", n)})
	}
	if !strings.HasPrefix(o.Err, "handled: ") {
		ds = append(ds, Diff{"handler", fmt.Sprintf("Exec returned %q instead of the handler's error", o.Err)})
	}
	return
}

func lineDiff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	n := map[string]int{}
	for _, x := range g {
		n[x]++
	}
	for _, x := range w {
		n[x]--
	}
	var a, b []string
	for _, x := range g {
		if n[x] > 0 {
			n[x]--
			a = append(a, x)
		}
	}
	for _, x := range w {
		if n[x] < 0 {
			n[x]++
			b = append(b, x)
		}
	}
	if len(a)+len(b) == 0 {
		return "order: " + tail(strings.Join(g, " ; "), 400) + " want " + tail(strings.Join(w, " ; "), 400)
	}
	return tail("got "+strings.Join(a, " ; ")+" want "+strings.Join(b, " ; "), 700)
}
