package gx

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/frk/gosql/verifharness/vh"
)

// ftype is a Go type of a field, spelled as the package of the filters spells it.
type ftype struct {
	src, val string // the type, and a value of it
	named    string // path.Name of a named type for which a converter may be configured
	sqlKind  string // kind of SQL literal comparable in a query, "" for none
	onlyM    bool   // spellable in package m alone
	noLocal  bool   // only spellable in package p (has no spelling in package m)
}

var ftypes = map[string][]ftype{
	"int4":   {{src: "int", val: "7", sqlKind: "v"}, {src: "*int", val: "7", sqlKind: "v"}, {src: "int32", val: "int32(2)", sqlKind: "v"}, {src: "m.Num", val: "m.Num(3)", named: "gx.test/m.Num", sqlKind: "v"}, {src: "Level", val: "Level(1)", named: "gx.test/p.Level", sqlKind: "v", noLocal: true}, {src: "om.ID", val: "om.ID(4)", named: "gx.test/o/m.ID", sqlKind: "v"}, {src: "op.T", val: "op.T(6)", named: "gx.test/op.T", sqlKind: "v"}, {src: "val.T", val: "val.T(6)", sqlKind: "v"}, {src: "m.NumAlias", val: "m.Num(9)", named: "gx.test/m.Num", sqlKind: "v"}, {src: "dp.Kind", val: "dp.Kind(2)", named: "gx.test/dash-pkg.Kind", sqlKind: "v"}},
	"text":   {{src: "string", val: "`ann`", sqlKind: "v"}, {src: "m.Str", val: "m.Str(`bob`)", named: "gx.test/m.Str", sqlKind: "v"}, {src: "*string", val: "`x`", sqlKind: "v"}, {src: "m.Wrap", val: "m.Wrap{S: `w`}", named: "gx.test/m.Wrap", sqlKind: "v"}, {src: "[]byte", val: "[]byte(`bb`)"}, {src: "Name", val: "Name(`n`)", named: "gx.test/p.Name", sqlKind: "v", noLocal: true}, {src: "filter2.Str", val: "filter2.Str(`f`)", named: "gx.test/filter.Str", sqlKind: "v"}},
	"bool":   {{src: "bool", val: "true"}, {src: "*bool", val: "false"}},
	"float8": {{src: "float64", val: "1.5", sqlKind: "v"}, {src: "*float64", val: "0.0", sqlKind: "v"}},
	"tstz":   {{src: "time.Time", val: "time.Unix(5, 0)", sqlKind: "v"}, {src: "*time.Time", val: "time.Unix(0, 0)", sqlKind: "v"}},
	"texts":  {{src: "[]string", val: "[]string{`a`}"}},
	"ints":   {{src: "[]int", val: "[]int{1}"}, {src: "[]int64", val: "[]int64{2, 3}"}},
	"bytea":  {{src: "[]byte", val: "[]byte{1}"}},
	"uuid":   {{src: "string", val: "`6ba7b810-9dad-11d1-80b4-00c04fd430c8`", sqlKind: "v"}, {src: "[16]byte", val: "[16]byte{1}"}},
	"jsonb": {{src: "m.JS", val: "m.JS{`k`: `v`}", named: "gx.test/m.JS"}, {src: "map[string]string", val: "map[string]string{`a`: `b`}"}, {src: "map[m.Str]om.ID", val: "map[m.Str]om.ID{`a`: 1}"}, {src: "map[om.ID]m.Num", val: "map[om.ID]m.Num{1: 2}"},
		{src: "[]om.ID", val: "[]om.ID{1}"}, {src: "[]*m.Num", val: "[]*m.Num{nil}"}, {src: "[2]Level", val: "[2]Level{1}", noLocal: true}, {src: "[]Level", val: "[]Level{1}", noLocal: true}, {src: "map[Level]Name", val: "map[Level]Name{1: `a`}", noLocal: true}, {src: "interface{}", val: "5"}, {src: "any", val: "`a`"}, {src: "[]interface{}", val: "[]interface{}{1}"}, {src: "struct{ A int }", val: "struct{ A int }{1}"}, {src: "struct {\n\tA m.Num `json:\"a\"`\n\tB *om.ID\n}", val: "struct {\n\tA m.Num `json:\"a\"`\n\tB *om.ID\n}{A: 1}"}, {src: "[]struct{ N Name }", val: "[]struct{ N Name }{{`a`}}", noLocal: true},
		{src: "*m.JS", val: "m.JS{`z`: `v`}"}, {src: "json.RawMessage", val: "json.RawMessage(`{}`)", named: "encoding/json.RawMessage"}, {src: "map[string][]map[string]time.Time", val: "map[string][]map[string]time.Time{}"}, {src: "m.Box[m.Num]", val: "m.Box[m.Num]{V: 1}"}, {src: "m.Box[Level]", val: "m.Box[Level]{V: 1}", noLocal: true}, {src: "Pair[string, om.ID]", val: "Pair[string, om.ID]{A: `a`}", noLocal: true}, {src: "m.hidden", val: "nil", onlyM: true}, {src: "[]map[string]m.hidden", val: "nil", onlyM: true}, {src: "m.Box[m.hidden]", val: "nil", onlyM: true}, {src: "m.Shown", val: "m.Shown{}"}, {src: "struct{ a int }", val: "nil", onlyM: true}, {src: "fmt.Stringer", val: "m.Num2(1)"}, {src: "interface{ M() int }", val: "m.Num2(1)"}},
}

const filtM = `
// Num2 has methods.
type Num2 int

func (Num2) String() string { return "" }
func (Num2) M() int         { return 0 }

// Box is generic.
type Box[T any] struct{ V T }

// NumAlias is a Num.
type NumAlias = Num

type hidden struct{ A int }

// Shown is a hidden type.
type Shown = hidden

// ToNum converts.
func ToNum(v any) (any, error) { return v, nil }

// ToStr converts.
func ToStr(v any) (any, error) { return v, nil }
`

const filtRt = `// Package fr records what filters are told.
package fr

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/frk/gosql/filter"
)

// Rec records the calls of a filter constructor.
type Rec struct {
	Log []string
	Val interface{}
}

func (r *Rec) add(f string, a ...interface{}) { r.Log = append(r.Log, fmt.Sprintf(f, a...)) }

func (r *Rec) Init(colmap map[string]string, tscol string) {
	b, _ := json.Marshal(colmap)
	r.add("Init %s %q", b, tscol)
}

// Col records.
func (r *Rec) Col(column, op string, value interface{}) { r.Val = value; r.add("Col %q %q", column, op) }

// And records.
func (r *Rec) And(nest func()) { r.bool("And", nest) }

// Or records.
func (r *Rec) Or(nest func()) { r.bool("Or", nest) }

func (r *Rec) bool(n string, nest func()) {
	if nest == nil {
		r.add(n + " nil")
		return
	}
	r.add(n + " {")
	nest()
	r.add("}")
}

// Rec2 records the second version.
type Rec2 struct{ Rec }

func (r *Rec2) InitV2(colmap map[string]filter.Column, tscol string) {
	type col struct {
		Name, Conv string
		Null       bool
	}
	out := map[string]col{}
	for k, c := range colmap {
		x := col{Name: c.Name, Null: c.IsNULLable}
		if c.ConvertValue != nil {
			x.Conv = runtime.FuncForPC(reflect.ValueOf(c.ConvertValue).Pointer()).Name()
		}
		out[k] = x
	}
	b, _ := json.Marshal(out)
	r.add("InitV2 %s %q", b, tscol)
}

// Obs is what was seen of one filter type.
type Obs struct {
	Name    string
	Log     []string
	Bad     []string
	Methods []string
	SQL     map[string]string // method or key → query
	Params  map[string][]string
}

// M is an expected method.
type M struct {
	Name string
	Type reflect.Type // of a function with the receiver
	Val  interface{}
}

// Watch calls everything that the filter type has. The rec function returns the recorder that a filter delegates to.
func Watch(name string, mk func() (interface{}, *Rec), ms []M) (o Obs) {
	o.Name = name
	f, rec := mk()
	t := reflect.TypeOf(f)
	for i := 0; i < t.NumMethod(); i++ {
		o.Methods = append(o.Methods, t.Method(i).Name)
	}
	call := func(n string, args ...reflect.Value) (out []reflect.Value) {
		defer func() {
			if p := recover(); p != nil {
				o.Bad = append(o.Bad, fmt.Sprintf("%s panics: %v", n, p))
			}
		}()
		return reflect.ValueOf(f).MethodByName(n).Call(args)
	}
	same := func(n string, out []reflect.Value) {
		if len(out) != 1 || out[0].Type() != t || out[0].Pointer() != reflect.ValueOf(f).Pointer() {
			o.Bad = append(o.Bad, n+" does not return its receiver")
		}
	}
	call("Init")
	o.Log = append(o.Log, rec.Log...)
	rec.Log = nil
	for i, m := range ms {
		mt, ok := t.MethodByName(m.Name)
		if !ok {
			o.Bad = append(o.Bad, "no method "+m.Name)
			continue
		}
		if mt.Type != m.Type {
			o.Bad = append(o.Bad, fmt.Sprintf("%s is %v, not %v", m.Name, mt.Type, m.Type))
			continue
		}
		rec.Val = nil
		v := reflect.New(mt.Type.In(2)).Elem()
		if m.Val != nil {
			v.Set(reflect.ValueOf(m.Val))
		}
		same(m.Name, call(m.Name, reflect.ValueOf(fmt.Sprintf("op%d", i)), v))
		if !reflect.DeepEqual(rec.Val, m.Val) || reflect.TypeOf(rec.Val) != reflect.TypeOf(m.Val) {
			o.Bad = append(o.Bad, fmt.Sprintf("%s passes on %#v for %#v", m.Name, rec.Val, m.Val))
		}
	}
	o.Log = append(o.Log, rec.Log...)
	rec.Log = nil
	for _, n := range []string{"And", "Or"} {
		mt, ok := t.MethodByName(n)
		if !ok || mt.Type.NumIn() != 2 || mt.Type.In(1) != reflect.FuncOf([]reflect.Type{t}, nil, false) || mt.Type.NumOut() != 1 || mt.Type.Out(0) != t {
			o.Bad = append(o.Bad, fmt.Sprintf("method %s is %v", n, mt.Type))
			continue
		}
		same(n, call(n, reflect.Zero(mt.Type.In(1))))
		nested := reflect.MakeFunc(mt.Type.In(1), func(a []reflect.Value) []reflect.Value {
			rec.add("nested")
			if a[0].Pointer() != reflect.ValueOf(f).Pointer() {
				o.Bad = append(o.Bad, n+" hands its nested function another filter")
			}
			return nil
		})
		same(n, call(n, nested))
	}
	o.Log = append(o.Log, rec.Log...)
	return o
}

// Real drives a filter type that delegates to the package's own constructor, and notes the SQL that results.
func (o *Obs) Real(mk func() interface{}, ms []M, keys []string) {
	o.SQL, o.Params = map[string]string{}, map[string][]string{}
	ctor := func(f interface{}) *filter.Constructor {
		return reflect.ValueOf(f).Elem().FieldByName("Constructor").Addr().Interface().(*filter.Constructor)
	}
	note := func(what string, f interface{}) {
		s, ps := ctor(f).Filter().ToSQL(0)
		o.SQL[what] = s
		for _, p := range ps {
			o.Params[what] = append(o.Params[what], fmt.Sprintf("%T %v", p, p))
		}
	}
	for _, m := range ms {
		f := mk()
		v := reflect.ValueOf(f)
		v.MethodByName("Init").Call(nil)
		mt := v.MethodByName(m.Name)
		if !mt.IsValid() || mt.Type().NumIn() != 2 || m.Val == nil {
			continue
		}
		a := reflect.New(mt.Type().In(1)).Elem()
		a.Set(reflect.ValueOf(m.Val))
		func() {
			defer func() {
				if p := recover(); p != nil { // the package's own business: values of types that cannot be compared
					o.SQL["."+m.Name] = ""
				}
			}()
			mt.Call([]reflect.Value{reflect.ValueOf("="), a})
			note("."+m.Name, f)
		}()
	}
	for _, k := range keys {
		f := mk()
		v := reflect.ValueOf(f)
		v.MethodByName("Init").Call(nil)
		if err := ctor(f).UnmarshalSort("-" + k); err != nil {
			o.Bad = append(o.Bad, "sort by "+k+": "+err.Error())
			continue
		}
		note("-"+k, f)
	}
}

// Hammer uses filters of one type from many goroutines at once: their column map is shared.
func Hammer(mk func() interface{}, ms []M, keys []string) {
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 4; k++ {
				f := mk()
				v := reflect.ValueOf(f)
				v.MethodByName("Init").Call(nil)
				c := v.Elem().FieldByName("Constructor").Addr().Interface().(*filter.Constructor)
				c.UnmarshalSort(strings.Join(keys, ","))
				for _, key := range keys {
					c.UnmarshalFQL(key + ":1;")
				}
				c.TextSearch("x")
				c.Filter().ToSQL(0)
			}
		}(g)
	}
	wg.Wait()
}

// Out prints the observations.
func Out(os_ []Obs) {
	e := json.NewEncoder(os.Stdout)
	for _, o := range os_ {
		e.Encode(o)
	}
	_ = strings.ToLower
}
`

// fnode is a field of a record type, a leaf or a struct to be descended into.
type fnode struct {
	name, tags string
	tag        map[string]string // the tags other than sql
	fck        []string
	col        *Col // leaf
	colTag     string
	t          ftype
	opts       []string
	kids       []*fnode // struct
	ptr, embed bool
	prefix     string
	typ        string
}

// fleaf is an expected column of a filter.
type fleaf struct {
	n    *fnode
	path []*fnode
}

type frec struct {
	name     string
	imported bool
	kids     []*fnode
	types    int
}

var filtTable = &Table{Name: "t_doc", Cols: []*Col{
	{Name: "id", Kind: "int4", NN: true}, {Name: "title", Kind: "text", NN: true}, {Name: "body", Kind: "text"}, {Name: "author_id", Kind: "int4"}, {Name: "author_name", Kind: "text"}, {Name: "score", Kind: "float8"}, {Name: "live", Kind: "bool", NN: true}, {Name: "made_at", Kind: "tstz", NN: true}, {Name: "seen_at", Kind: "tstz"}, {Name: "tags", Kind: "texts"}, {Name: "nums", Kind: "ints", NN: true}, {Name: "meta", Kind: "jsonb"}, {Name: "meta2", Kind: "jsonb", NN: true}, {Name: "meta3", Kind: "jsonb"}, {Name: "raw", Kind: "bytea"}, {Name: "key", Kind: "uuid"}, {Name: "level", Kind: "int4"}, {Name: "order", Kind: "int4", NN: true}, {Name: "author_score", Kind: "float8", NN: true},
}}

const filtDDL = `CREATE TABLE t_doc (id int4 PRIMARY KEY, title text NOT NULL, body text, author_id int4, author_name text, score float8, live bool NOT NULL, made_at timestamptz NOT NULL, seen_at timestamptz, tags text[], nums int4[] NOT NULL, meta jsonb, meta2 jsonb NOT NULL, meta3 jsonb, raw bytea, key uuid, level int4, "order" int4 NOT NULL, author_score float8 NOT NULL, tsv tsvector, tsv2 tsvector);
INSERT INTO t_doc SELECT i, 't'||i, CASE WHEN i%3>0 THEN 'ann' END, i%4, CASE WHEN i%4>0 THEN 'bob' END, i*1.5, i%2=0, to_timestamp(i%7), CASE WHEN i%5>0 THEN to_timestamp(i%3) END, '{a}', '{1}', '{"k":"v"}', '{}', NULL, '\x01', CASE WHEN i=2 THEN '6ba7b810-9dad-11d1-80b4-00c04fd430c8'::uuid END, i%3, -i, i, NULL, NULL FROM generate_series(1,9) i;
CREATE VIEW v_doc AS SELECT * FROM t_doc;
`

// keyConf is the configuration of column keys.
type keyConf struct {
	tag, sep string
	base     bool
}

// key is a leaf's key in the column map, "" for none: independently restated.
func (l *fleaf) key(c keyConf) string {
	path := l.path
	fck := l.n.fck
	for i := 0; len(fck) == 0 && i < len(l.path); i++ {
		if len(l.path[i].fck) > 0 {
			fck, path = l.path[i].fck, l.path[i:]
		}
	}
	for _, o := range fck {
		k, v, _ := strings.Cut(o, ":")
		switch k {
		case "tag":
			c.tag = v
		case "sep":
			c.sep = v
		case "base":
			c.base = v == "true" || v == "1" || v == "t"
		}
	}
	if c.base {
		path = nil
	}
	var parts []string
	for _, n := range append(append([]*fnode{}, path...), l.n) {
		if c.tag == "" {
			parts = append(parts, n.name)
			continue
		}
		k, _, _ := strings.Cut(n.tag[c.tag], ",")
		if k == "-" {
			return ""
		}
		if k != "" {
			parts = append(parts, k)
		}
	}
	return strings.Join(parts, c.sep)
}

func (l *fleaf) method() (s string) {
	for _, n := range l.path {
		s += n.name
	}
	return s + l.n.name
}

func (l *fleaf) has(opts ...string) bool {
	for _, n := range append(append([]*fnode{}, l.path...), l.n) {
		for _, o := range n.opts {
			for _, w := range opts {
				if o == w {
					return true
				}
			}
		}
	}
	return false
}

func (r *frec) leaves() (out []*fleaf) {
	var walk func(ns []*fnode, path []*fnode)
	walk = func(ns []*fnode, path []*fnode) {
		for _, n := range ns {
			if n.typ != "" {
				walk(n.kids, append(append([]*fnode{}, path...), n))
			} else {
				out = append(out, &fleaf{n, path})
			}
		}
	}
	walk(r.kids, nil)
	return
}

func (n *fnode) tagSrc() string {
	var ks []string
	for k := range n.tag {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	v := n.colTag
	if n.typ != "" {
		v = ">" + n.prefix
	}
	s := fmt.Sprintf("sql:%q", strings.Join(append([]string{v}, n.opts...), ","))
	for _, k := range ks {
		s += fmt.Sprintf(" %s:%q", k, n.tag[k])
	}
	if len(n.fck) > 0 {
		s += fmt.Sprintf(" fck:%q", strings.Join(n.fck, ","))
	}
	return "`" + s + "`"
}

// source declares the record's types, types of package m unqualified when m is the package.
func (r *frec) source() string {
	var b strings.Builder
	var decl func(name string, ns []*fnode)
	decl = func(name string, ns []*fnode) {
		fmt.Fprintf(&b, "type %s struct {\n", name)
		for _, n := range ns {
			t := n.t.src
			if n.typ != "" {
				t = n.typ
				if n.ptr {
					t = "*" + t
				}
			}
			if n.embed {
				fmt.Fprintf(&b, "\t%s %s\n", t, n.tagSrc())
			} else {
				fmt.Fprintf(&b, "\t%s %s %s\n", n.name, t, n.tagSrc())
			}
		}
		b.WriteString("\tOther chan int\n\tSkipped func() `sql:\"-\"`\n}\n\n")
		for _, n := range ns {
			if n.typ != "" {
				decl(n.typ, n.kids)
			}
		}
	}
	decl(r.name, r.kids)
	s := b.String()
	if r.imported {
		s = regexp.MustCompile(`\bm\.`).ReplaceAllString(s, "")
	}
	return s
}

func drawFRec(r *rand.Rand, id int, qid bool) *frec {
	fr := &frec{name: fmt.Sprintf("Doc%d", id), imported: r.Intn(3) == 0}
	cols := r.Perm(len(filtTable.Cols))[:2+r.Intn(len(filtTable.Cols)-2)]
	dens := []int{2, 2, 9}[r.Intn(3)] // of fck tags
	tags := func(n *fnode, leaf bool) {
		n.tag = map[string]string{}
		for _, k := range []string{"json", "fk"} {
			switch r.Intn(8) {
			case 0:
			case 1:
				n.tag[k] = "-"
			case 2:
				n.tag[k] = ",omitempty"
			default:
				n.tag[k] = strings.ToLower(n.name) + pickS(r, "", "", ",omitempty", "_x")
			}
			if !leaf && n.tag[k] == "-" && r.Intn(2) == 0 {
				delete(n.tag, k)
			}
		}
		if r.Intn(12) < dens && (!leaf || r.Intn(dens) < 2) {
			switch r.Intn(4) {
			case 0:
				n.fck = []string{"tag:" + pickS(r, "json", "fk", "")}
			case 1:
				n.fck = []string{"sep:" + pickS(r, "_", "-", "")}
			case 2:
				n.fck = []string{"base:" + pickS(r, "true", "false")}
			case 3:
				n.fck = []string{"tag:fk", "base:" + pickS(r, "true", "false"), "sep:+"}
			}
		}
	}
	var opens []*fnode // structs to put fields in; nil is the record
	opens = append(opens, nil, nil)
	add := func(p *fnode, n *fnode) {
		if p == nil {
			fr.kids = append(fr.kids, n)
		} else {
			p.kids = append(p.kids, n)
		}
	}
	names := map[*fnode]map[string]bool{}
	fresh := func(p *fnode, s string) string {
		if names[p] == nil {
			names[p] = map[string]bool{}
		}
		for names[p][s] || s == "Other" || s == "Skipped" {
			s += "X"
		}
		names[p][s] = true
		return s
	}
	prefixOf := map[*fnode]string{}
	for _, ci := range cols {
		c := filtTable.Cols[ci]
		if c.Name == "order" && !qid {
			continue // a reserved word is only usable quoted
		}
		if len(opens) < 6 && r.Intn(4) == 0 {
			p := opens[r.Intn(len(opens))]
			if dens > 2 && r.Intn(2) == 0 {
				p = opens[len(opens)-1]
			}
			fr.types++
			n := &fnode{typ: fmt.Sprintf("%sT%d", fr.name, fr.types), ptr: r.Intn(2) == 0, embed: r.Intn(3) == 0}
			n.name = fresh(p, pickS(r, "Author", "In", "Sub", "T", "Ti"))
			if n.embed {
				n.name = fresh(p, n.typ)
			}
			if prefixOf[p] == "" && r.Intn(3) == 0 {
				n.prefix = "author_"
			}
			tags(n, false)
			if r.Intn(12) == 0 {
				n.opts = append(n.opts, pickS(r, "xf", "-f", "wo", "ro", "-N", "-s"))
			}
			prefixOf[n] = prefixOf[p] + n.prefix
			add(p, n)
			opens = append(opens, n)
		}
		p := opens[r.Intn(len(opens))]
		if prefixOf[p] != "" && !strings.HasPrefix(c.Name, prefixOf[p]) {
			p = nil
		}
		n := &fnode{col: c, colTag: strings.TrimPrefix(c.Name, prefixOf[p])}
		nm := camel(c.Name)
		if r.Intn(9) == 0 {
			nm = pickS(r, "Init", "And", "Or", "Col", "TextSearch", "UnmarshalFQL", "UnmarshalSort", "AND", "OR", "ToSQL", "F", "Filter", "Constructor", "Rel", "OrderBy", "Limit", "Title", "Author", "InTitle", "AuthorName", "InitV2", "Rec", "StrictSwitch")
		}
		n.name = fresh(p, nm)
		for {
			n.t = ftypes[c.Kind][r.Intn(len(ftypes[c.Kind]))]
			if !fr.imported && !n.t.onlyM || fr.imported && (!n.t.noLocal && !strings.Contains(n.t.src, "filter2.")) {
				break
			}
		}
		if r.Intn(25) == 0 {
			n.colTag += "_nope" // no such column: silently left out
			n.col = nil
		}
		tags(n, true)
		switch r.Intn(10) {
		case 0:
			n.opts = append(n.opts, "xf")
		case 1:
			n.opts = append(n.opts, "-f")
		case 2:
			n.opts = append(n.opts, "wo")
		case 3:
			n.opts = append(n.opts, pickS(r, "nn", "-N"))
		case 4:
			n.opts = append(n.opts, pickS(r, "ro", "-w", "-s", "json", "default", "nullempty"))
		}
		if n.t.src == "" {
			panic("no type")
		}
		add(p, n)
	}
	return fr
}

// ftarget is a filter type.
type ftarget struct {
	name     string
	rec      *frec
	rel      string // Go type of the rel field
	relField string
	alias    string
	view     bool
	ts       string
	v2       bool
	ctor     string // declaration of the constructor field
	ctorName string // its name
	real     string // name of the same filter with the package's constructor
	embed    bool
}

// promoted methods of embedded constructors.
var promoted = map[string][]string{
	"fr.Rec":  {"Init", "Col", "And", "Or"},
	"fr.Rec2": {"Init", "InitV2", "Col", "And", "Or"},
}

// Filters monitors the methods generated for filter types.
func Filters(run *vh.Run) {
	e, err := NewEnv(false)
	if err != nil {
		vh.Fatal("%v", err)
	}
	if _, err := e.DB.Exec(filtDDL); err != nil {
		vh.Fatal("%v", err)
	}
	n := run.N(72, 1600)
	if os.Getenv("GXN") != "" {
		fmt.Sscan(os.Getenv("GXN"), &n)
	}
	Parallel(n, 4, func(i, w int) { filters(run, e, i) })
}

func filters(run *vh.Run, e *Env, i int) {
	r := rand.New(rand.NewSource(run.Seed*7000003 + int64(i)))
	kc := keyConf{tag: "json", sep: "."}
	var flags []string
	if r.Intn(2) == 0 {
		kc.tag = pickS(r, "", "json", "fk")
		flags = append(flags, "-fcktag", kc.tag)
	}
	if r.Intn(2) == 0 {
		kc.sep = pickS(r, "", "-", "_", "/")
		flags = append(flags, "-fcksep", kc.sep)
	}
	if r.Intn(3) == 0 {
		kc.base = true
		flags = append(flags, "-fckbase")
	}
	qid := r.Intn(2) == 0
	if qid {
		flags = append(flags, "-qid")
	}
	conv := map[string]string{} // type → function
	var convConf []map[string]string
	for _, x := range []struct{ t, f string }{
		{"gx.test/m.Num", "gx.test/m.ToNum"}, {"gx.test/m.Str", "gx.test/conv-v2.ToStr"}, {"gx.test/p.Level", "gx.test/p.ToLevel"}, {"gx.test/o/m.ID", "gx.test/dash-pkg.ToID"}, {"gx.test/m.Wrap", "gx.test/o/m.Conv"}, {"gx.test/dash-pkg.Kind", "gx.test/o/m.Conv"}, {"gx.test/op.T", "gx.test/op.Conv"},
	} {
		if r.Intn(2) == 0 {
			conv[x.t] = x.f
			convConf = append(convConf, map[string]string{"type": x.t, "func": x.f})
		}
	}
	if len(convConf) > 0 {
		run.Count("runs with value converters", 1)
	}

	var recs []*frec
	var imp, loc strings.Builder
	for k := 0; k < 6; k++ {
		fr := drawFRec(r, k, qid)
		recs = append(recs, fr)
		if fr.imported {
			imp.WriteString(fr.source())
		} else {
			loc.WriteString(fr.source())
		}
	}
	var ts []*ftarget
	files := map[string]*strings.Builder{}
	for k := 0; k < 14; k++ {
		t := &ftarget{name: fmt.Sprintf("%s%c%d", pickS(r, "Filter", "filter", "FilterOf", "FILTER"), 'A'+k, k), rec: recs[r.Intn(len(recs))]}
		tn := t.rec.name
		if t.rec.imported {
			tn = "m." + tn
		}
		t.rel = pickS(r, "%s", "*%s", "[]%s", "[]*%s")
		t.rel = fmt.Sprintf(t.rel, tn)
		t.relField = pickS(r, "_", "Rel", "User", "Title", "rel")
		t.alias = pickS(r, "", "d", "doc2")
		t.view = r.Intn(5) == 0
		t.v2 = r.Intn(2) == 0
		if r.Intn(3) == 0 {
			t.ts = pickS(r, "tsv", "tsv2")
			if t.alias != "" && r.Intn(2) == 0 {
				t.ts = t.alias + "." + t.ts
			}
		}
		kind := pickS(r, "fr.Rec", "fr.Rec")
		if t.v2 {
			kind = "fr.Rec2"
		}
		switch r.Intn(3) {
		case 0:
			t.ctorName, t.embed = kind[3:], true
			t.ctor = kind
		case 1:
			t.ctorName = pickS(r, "F", "Filter", "ctor", "Fc")
			t.ctor = t.ctorName + " " + kind
		case 2:
			t.ctorName = "MyRec"
			t.embed = true
			t.ctor = "MyRec"
			if t.v2 {
				t.ctorName, t.ctor = "MyRec2", "MyRec2"
			}
		}
		if t.v2 {
			t.ctor += " `filter:\"v2\"`"
		}
		t.real = t.name + "Real"
		ts = append(ts, t)
		fn := fmt.Sprintf("p/f%d.go", r.Intn(3))
		if files[fn] == nil {
			files[fn] = &strings.Builder{}
		}
		rel := "t_doc"
		if t.view {
			rel = "v_doc"
		}
		if t.alias != "" {
			rel += ":" + t.alias
		}
		for _, real := range []bool{false, true} {
			nm, ctor := t.name, t.ctor
			if real {
				nm, ctor = t.real, "filter.Constructor"
				if t.v2 {
					ctor += " `filter:\"v2\"`"
				}
			}
			dir := ""
			if t.ts != "" {
				dir = fmt.Sprintf("\t_ gosql.TextSearch `sql:%q`\n", t.ts)
			}
			parts := []string{fmt.Sprintf("\t%s %s `rel:%q`\n", t.relField, t.rel, rel), dir, "\t" + ctor + "\n"}
			if t.ts == "" {
				r.Shuffle(3, func(a, b int) { parts[a], parts[b] = parts[b], parts[a] })
			}
			fmt.Fprintf(files[fn], "type %s struct {\n%s}\n\n", nm, strings.Join(parts, ""))
		}
		run.Seen("relation", fmt.Sprintf("view=%v alias=%v", t.view, t.alias != ""))
		run.Seen("constructor", fmt.Sprintf("v2=%v embedded=%v own=%v", t.v2, t.embed, strings.HasPrefix(t.ctor, "My")))
		run.Seen("text search", fmt.Sprint(t.ts != ""))
		run.Seen("record", fmt.Sprintf("imported=%v form=%s", t.rec.imported, strings.Replace(strings.Replace(t.rel, tn, "T", 1), " ", "", -1)))
	}
	mrec := imp.String()
	mhead := ""
	for _, x := range []struct{ use, imp string }{{"om.", "om \"gx.test/o/m\""}, {"json.", "\"encoding/json\""}, {"dp.", "dp \"gx.test/dash-pkg\""}, {"op.", "\"gx.test/op\""}, {"val.", "\"gx.test/val\""}} {
		if regexp.MustCompile(`\b` + regexp.QuoteMeta(x.use)).MatchString(mrec) {
			mhead += "\t" + x.imp + "\n"
		}
	}
	root, err := e.NewModule("")
	if err != nil {
		vh.Fatal("%v", err)
	}
	defer func() {
		if os.Getenv("GXKEEP") == "" {
			os.RemoveAll(root)
		}
	}()
	all := map[string]string{
		"m/docs.go":          "package m\n\nimport (\n" + mhead + "\t\"fmt\"\n\t\"time\"\n)\n\nvar _ fmt.Stringer\nvar _ time.Time\n" + filtM + mrec,
		"fr/fr.go":           filtRt,
		"o/m/m.go":           "// Package m is a namesake.\npackage m\n\n// ID is one.\ntype ID int\n\n// Conv converts.\nfunc Conv(v any) (any, error) { return v, nil }\n",
		"filter/f.go":        "// Package filter is another namesake.\npackage filter\n\n// Str is one.\ntype Str string\n",
		"conv-v2/c.go":       "// Package conv converts.\npackage conv\n\n// ToStr converts.\nfunc ToStr(v any) (any, error) { return v, nil }\n",
		"dash-pkg/d.go":      "// Package dp has an odd path.\npackage dp\n\n// Kind is one.\ntype Kind int\n\n// ToID converts.\nfunc ToID(v any) (any, error) { return v, nil }\n",
		"p/docs.go":          pHeader(loc.String()) + loc.String(),
		"p/types.go":         "package p\n\nimport (\n\t\"gx.test/fr\"\n)\n\ntype Level int\n\ntype Name string\n\ntype Names []string\n\ntype Pair[A, B any] struct {\n\tA A\n\tB B\n}\n\n// ToLevel converts.\nfunc ToLevel(v any) (any, error) { return v, nil }\n\ntype MyRec struct{ fr.Rec }\n\ntype MyRec2 struct{ *fr.Rec2 }\n",
		"op/op.go":           "package op\n\n// T is one.\ntype T int\n\n// Conv converts.\nfunc Conv(v any) (any, error) { return v, nil }\n",
		"val/val.go":         "package val\n\n// T is one.\ntype T int\n",
		"cmd/run/.gitignore": "",
	}
	for fn, b := range files {
		all[fn] = pHeader(b.String()) + b.String()
	}
	if len(convConf) > 0 || r.Intn(4) == 0 {
		b, _ := json.Marshal(map[string]interface{}{"filter_value_converters": convConf})
		all["conf.json"] = string(b)
		flags = append(flags, "-config", filepath.Join(root, "conf.json"))
	}
	if err := WriteFiles(root, all); err != nil {
		vh.Fatal("%v", err)
	}
	if out, err := e.Go(root, "vet", "-structtag=false", "./..."); err != nil && !strings.Contains(out, "has no field or method") {
		// filters lack their methods, nothing uses them yet
		vh.Fatal("drawn module does not compile: %s", tail(out, 2000))
	}
	args := append([]string{"-db", e.DSN(), "-wd", root, "-r"}, flags...)
	res := e.RunCmd(root, 0, append([]string{e.CLI}, args...)...)
	run.Eval(fmt.Sprintf("flags %v", kc))
	desc := fmt.Sprintf("flags %v", flags)
	if res.Code != 0 {
		run.Violate("filter/refused", desc+": "+tail(res.Out, 1500), "seed %d module %d", run.Seed, i)
		return
	}
	run.Count("filter types generated", int64(len(ts))*2)

	race := i%6 == 0
	// the runner
	var b strings.Builder
	type exp struct {
		methods []string
		log     []string
		leaves  []*fleaf
		keys    map[string]*fleaf
	}
	exps := map[string]*exp{}
	for _, t := range ts {
		x := &exp{keys: map[string]*fleaf{}}
		exps[t.name] = x
		colmap := map[string]interface{}{}
		skip := map[string]bool{"UnmarshalFQL": true, "UnmarshalSort": true, "TextSearch": true, "AND": true, "OR": true, "And": true, "Or": true, "Init": true}
		skip[t.relField], skip[t.ctorName] = true, true
		skipR := map[string]bool{}
		for k := range skip {
			skipR[k] = true
		}
		skipR["Constructor"] = true
		delete(skipR, t.ctorName)
		if t.relField == t.ctorName {
			skipR[t.relField] = true
		}
		has := map[string]bool{"Init": true, "And": true, "Or": true}
		var ms, msR []string
		var cols []string
		for _, l := range t.rec.leaves() {
			if l.n.col == nil || l.has("xf", "-f", "wo") {
				continue
			}
			q := l.n.col.Name
			full := q
			if qid {
				full = `"` + q + `"`
			}
			if t.alias != "" {
				full = t.alias + "." + full
			}
			if k := l.key(kc); k != "" && x.keys[k] == nil {
				x.keys[k] = l
				colmap[k] = full
				if t.v2 {
					nn := l.n.col.NN && !t.view
					if l.hasLeaf("nn", "-N") {
						nn = true
					}
					cf := ""
					if f := conv[l.n.t.named]; f != "" {
						cf = f
					}
					colmap[k] = map[string]interface{}{"Name": full, "Conv": cf, "Null": !nn}
				}
			}
			m := l.method()
			vt := strings.TrimPrefix(l.n.t.src, "*")
			if l.n.t.onlyM {
				vt = "interface{}"
			}
			entry := func(recv string) string {
				return fmt.Sprintf("{%q, reflect.TypeOf((func(*%s, string, %s) *%s)(nil)), %s},\n", m, recv, vt, recv, l.n.t.val)
			}
			if !skip[m] {
				skip[m] = true
				has[m] = true
				ms = append(ms, entry(t.name))
				cols = append(cols, fmt.Sprintf("Col %q \"op%d\"", full, len(cols)))
				x.leaves = append(x.leaves, l)
				run.Seen("field type", l.n.t.src)
				run.Count("column methods", 1)
			}
			if !skipR[m] {
				skipR[m] = true
				msR = append(msR, entry(t.real))
			}
		}
		if t.embed {
			for _, m := range []string{"Init", "Col", "And", "Or"} {
				has[m] = true
			}
			if t.v2 {
				has["InitV2"] = true
			}
		}
		delete(has, "") // none
		for m := range has {
			x.methods = append(x.methods, m)
		}
		sort.Strings(x.methods)
		cm, _ := json.Marshal(colmap)
		init := "Init"
		if t.v2 {
			init = "InitV2"
		}
		tsc := t.ts
		if tsc != "" && qid {
			p := strings.Split(tsc, ".")
			p[len(p)-1] = `"` + p[len(p)-1] + `"`
			tsc = strings.Join(p, ".")
		}
		x.log = append(x.log, fmt.Sprintf("%s %s %q", init, cm, tsc))
		x.log = append(x.log, cols...)
		for _, n := range []string{"And", "Or"} {
			x.log = append(x.log, n+" nil", n+" {", "nested", "}")
		}
		mk := "f := new(" + t.name + "); "
		sel := "f." + t.ctorName
		switch {
		case t.ctorName == "MyRec2":
			mk += "f.MyRec2.Rec2 = new(fr.Rec2); "
			sel += ".Rec2.Rec"
		case t.ctorName == "MyRec":
			sel += ".Rec"
		case t.v2:
			sel += ".Rec"
		}
		if t.ctorName == "MyRec" || t.ctorName == "MyRec2" {
			// the promoted methods come from the embedded recorder
		}
		var keys []string
		for k := range x.keys {
			if regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_.]*$`).MatchString(k) {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		fmt.Fprintf(&b, "\t{\n\t\to := fr.Watch(%q, func() (interface{}, *fr.Rec) { %sreturn f, &%s }, []fr.M{\n%s})\n", t.name, mk, sel, strings.Join(ms, ""))
		if race {
			fmt.Fprintf(&b, "\t\tfr.Hammer(func() interface{} { return new(%s) }, nil, %#v)\n", t.real, keys)
		}
		fmt.Fprintf(&b, "\t\to.Real(func() interface{} { return new(%s) }, []fr.M{\n%s}, %#v)\n\t\tout = append(out, o)\n\t}\n", t.real, strings.Join(msR, ""), keys)
	}
	body := "// ZZ watches.\nfunc ZZ() (out []fr.Obs) {\n" + b.String() + "\treturn\n}\n"
	if err := WriteFiles(root, map[string]string{
		"p/zz.go":         pHeader(body+"reflect.") + body,
		"cmd/run/main.go": "package main\n\nimport (\n\t\"gx.test/fr\"\n\t\"gx.test/p\"\n)\n\nfunc main() { fr.Out(p.ZZ()) }\n",
	}); err != nil {
		vh.Fatal("%v", err)
	}
	argv := []string{"run", "./cmd/run"}
	if race {
		argv = []string{"run", "-race", "./cmd/run"}
		run.Count("modules run under the race detector", 1)
	}
	out, err := e.Go(root, argv...)
	if strings.Contains(out, "WARNING: DATA RACE") {
		run.Violate("filter/race", desc+": "+tail(out, 3000), "seed %d module %d", run.Seed, i)
		return
	}
	if err != nil {
		key := "filter/uncompilable"
		if strings.Contains(out, "panic:") {
			key = "filter/panic"
		}
		run.Violate(key, desc+": "+tail(out, 1800), "seed %d module %d", run.Seed, i)
		return
	}
	dec := json.NewDecoder(strings.NewReader(out))
	n := 0
	for dec.More() {
		var o struct {
			Name              string
			Log, Bad, Methods []string
			SQL               map[string]string
			Params            map[string][]string
		}
		if err := dec.Decode(&o); err != nil {
			vh.Fatal("runner output: %v\n%s", err, tail(out, 500))
		}
		n++
		x := exps[o.Name]
		var t *ftarget
		for _, u := range ts {
			if u.name == o.Name {
				t = u
			}
		}
		run.Eval(t.rec.source() + t.ctor + t.rel + t.relField)
		where := fmt.Sprintf("%s (%s, %s) %s", o.Name, t.rec.name, t.ctor, desc)
		for _, s := range o.Bad {
			run.Violate("filter/method", where+": "+s, "seed %d module %d", run.Seed, i)
		}
		if a, b := strings.Join(o.Methods, " "), strings.Join(x.methods, " "); a != b {
			run.Violate("filter/methods", where+": methods "+a+" instead of "+b, "seed %d module %d", run.Seed, i)
		}
		for k := 0; k < len(o.Log) || k < len(x.log); k++ {
			g, w := "nothing", "nothing"
			if k < len(o.Log) {
				g = o.Log[k]
			}
			if k < len(x.log) {
				w = x.log[k]
			}
			if strings.HasPrefix(g, "Init") && strings.HasPrefix(w, "Init") && sameInit(g, w) {
				continue
			}
			if g != w {
				run.Violate("filter/calls", where+": the constructor is told "+g+" instead of "+w, "seed %d module %d", run.Seed, i)
				break
			}
		}
		run.Count("constructor calls compared", int64(len(o.Log)))
		rel := "t_doc"
		if t.view {
			rel = "v_doc"
		}
		if t.alias != "" {
			rel += " AS " + t.alias
		}
		// every produced clause is valid for the relation
		for what, s := range o.SQL {
			if s == "" {
				continue
			}
			q := "SELECT 1 FROM " + rel + s
			st, err := e.DB.Prepare(q)
			if err != nil {
				run.Violate("filter/sql", where+": "+what+": "+q+": "+err.Error(), "seed %d module %d", run.Seed, i)
				continue
			}
			st.Close()
			run.Count("statements prepared", 1)
			if what[0] == '-' {
				// sorting by a key sorts by its column
				l := x.keys[what[1:]]
				if l == nil {
					continue
				}
				got, err1 := ids(e, "SELECT id FROM "+rel+s+", id")
				want, err2 := ids(e, `SELECT id FROM t_doc ORDER BY "`+l.n.col.Name+`" DESC NULLS LAST, id`)
				want2, _ := ids(e, `SELECT id FROM t_doc ORDER BY "`+l.n.col.Name+`" DESC NULLS FIRST, id`)
				if err1 != nil || err2 != nil {
					run.Violate("filter/sort", where+": "+what+" "+s+fmt.Sprint(err1, err2), "seed %d module %d", run.Seed, i)
				} else if got != want && got != want2 {
					run.Violate("filter/sort", where+": "+what+" "+s+" sorts "+got+" instead of "+want, "seed %d module %d", run.Seed, i)
				}
				run.Count("sorts compared", 1)
			}
		}
	}
	if n != len(ts) {
		run.Violate("filter/panic", fmt.Sprintf("%d of %d filters reported: %s", n, len(ts), tail(out, 800)), "seed %d module %d", run.Seed, i)
	}
}

func (l *fleaf) hasLeaf(opts ...string) bool {
	return (&fleaf{n: l.n}).has(opts...)
}

func ids(e *Env, q string) (s string, err error) {
	rows, err := e.DB.Query(q)
	if err != nil {
		return "", err
	}
	defer rows.Close()
	for rows.Next() {
		var id int
		if err := rows.Scan(&id); err != nil {
			return "", err
		}
		s += fmt.Sprint(id, " ")
	}
	return s, rows.Err()
}

// sameInit compares two Init records, the maps as maps.
func sameInit(a, b string) bool {
	sa, sb := strings.SplitN(a, " ", 2), strings.SplitN(b, " ", 2)
	ia, ib := strings.LastIndexByte(sa[1], ' '), strings.LastIndexByte(sb[1], ' ')
	if sa[0] != sb[0] || sa[1][ia:] != sb[1][ib:] {
		return false
	}
	var x, y interface{}
	if json.Unmarshal([]byte(sa[1][:ia]), &x) != nil || json.Unmarshal([]byte(sb[1][:ib]), &y) != nil {
		return false
	}
	p, _ := json.Marshal(x)
	q, _ := json.Marshal(y)
	return string(p) == string(q)
}

// pHeader is the head of a file of package p.
func pHeader(src string) string {
	h := "package p\n\n"
	var imps string
	for _, x := range []struct{ use, imp string }{{"time.", `"time"`}, {"fmt.", `"fmt"`}, {"json.", `"encoding/json"`}, {"reflect.", `"reflect"`}, {"gosql.", `"github.com/frk/gosql"`}, {"filter.", `"github.com/frk/gosql/filter"`}, {"m.", `"gx.test/m"`}, {"om.", `om "gx.test/o/m"`}, {"dp.", `dp "gx.test/dash-pkg"`}, {"fr.", `"gx.test/fr"`}, {"filter2.", `filter2 "gx.test/filter"`}, {"op.", `"gx.test/op"`}, {"val.", `"gx.test/val"`}} {
		if regexp.MustCompile(`(^|[^A-Za-z0-9_.])` + regexp.QuoteMeta(x.use) + `[A-Z]`).MatchString(src) {
			imps += "\t" + x.imp + "\n"
		}
	}
	if imps != "" {
		h += "import (\n" + imps + ")\n\n"
	}
	return h
}
