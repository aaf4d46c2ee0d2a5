// Package filtermon monitors the filter constructor: it drives generated call sequences through the real
// constructor, runs the produced SQL on a real server and compares with an independently composed query.
package filtermon

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/frk/fql"
	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
	"github.com/frk/gosql/verifharness/pgconv"
	"github.com/frk/gosql/verifharness/vh"
)

type column struct {
	key, name, typ string
	nullable       bool
	vals           []string // literals present in the table
}

var columns = []column{
	{"id", `t."id"`, "int8", false, nil},
	{"a", `t."a"`, "int8", true, []string{"NULL", "-3", "0", "1", "2", "18"}},
	{"b", `t."b"`, "text", true, []string{"NULL", "''", "'x'", "'it''s'", "'a\"b'", "'é😀'", "E'\\\\'", "'x; DROP TABLE ftab'", "'$1'", "'NULL'"}},
	{"c", `t."c"`, "bool", true, []string{"NULL", "true", "false"}},
	{"d", `t."d"`, "timestamptz", true, []string{"NULL", "to_timestamp(0)", "to_timestamp(1257894000)", "to_timestamp(-86400)"}},
	{"e", `t."e"`, "float8", true, []string{"NULL", "0", "-45.004532", "1.5", "1e300"}},
	{"n", `t."n"`, "int8", false, []string{"1", "2", "3"}},
	{"m.x", `t."mx"`, "int8", false, []string{"7", "8"}},
	{"s", `t."s"`, "text", false, []string{"'p'", "'q'", "'P'", "'10'", "'9'"}},
	{"h", `t."h"`, "int8", true, []string{"NULL", "100", "200", "300"}}, // written in hundreds by its conversion function
}

const tscol = `t."tsv"`

var errConv = errors.New("conversion failed")

func colmap() map[string]filter.Column {
	m := map[string]filter.Column{}
	for _, c := range columns {
		fc := filter.Column{Name: c.name, IsNULLable: c.nullable}
		if c.key == "h" {
			fc.ConvertValue = func(v any) (any, error) {
				switch x := v.(type) {
				case int64:
					return x * 100, nil
				case nil:
					return nil, nil
				}
				return nil, errConv
			}
		}
		m[c.key] = fc
	}
	return m
}

func setup() *sql.DB {
	db, err := pgconv.Open("")
	if err != nil {
		vh.Fatal("%v", err)
	}
	db.SetMaxOpenConns(16)
	db.SetMaxIdleConns(16)
	var b strings.Builder
	b.WriteString(`CREATE TABLE ftab (id int8 primary key, a int8, b text, c bool, d timestamptz, e float8, n int8 not null, mx int8 not null, s text not null, h int8, tsv tsvector);`)
	r := rand.New(rand.NewSource(42))
	words := []string{"foo", "foobar", "bar", "baz", "quux", "é", "bark"}
	for i := 1; i <= 90; i++ {
		fmt.Fprintf(&b, "INSERT INTO ftab VALUES (%d", i)
		for _, c := range columns[1:] {
			b.WriteString("," + c.vals[r.Intn(len(c.vals))])
		}
		var ws []string
		for k := r.Intn(4); k > 0; k-- {
			ws = append(ws, words[r.Intn(len(words))])
		}
		b.WriteString(", to_tsvector('simple','" + strings.Join(ws, " ") + "'));\n")
	}
	if _, err := db.Exec(b.String()); err != nil {
		vh.Fatal("ftab: %v", err)
	}
	return db
}

// pred is one predicate: how it is handed to the constructor and how the reference spells it.
type pred struct {
	col  *column
	op   string
	val  interface{}
	fql  string // FQL spelling of op and value ("" if it has none)
	ref  string // reference SQL
	par  []interface{}
	cls  string
	text string // a marker contained in the value
}

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

var ops = []string{"=", "<>", ">", "<", ">=", "<="}
var fqlops = map[string]string{"=": ":", "<>": ":!", ">": ":>", "<": ":<", ">=": ":>=", "<=": ":<="}

func fqlText(s string) string {
	return `"` + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `"`, `\"`) + `"`
}

var hostile = []string{"'; DROP TABLE ftab; --", "$1", "$2::text", "\") OR 1=1 --", "\\'", "/*", "%s", "x' OR 'x'='x", "\n;", ";,()", "null", "NULL", "é😀", "?", "a\tb", "{}", "E'\\x'", "t.", ".", "pg_catalog.pg_class", "(select 1)", " desc", " nulls first", "::", "t.\"a\"", "lower(", "-", "--", "+", "1", "a", "_", "\"", "`", "[1]", "->>"}

func strval(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return pick(r, "", "x", "it's", `a"b`, "é😀", `\`, "x; DROP TABLE ftab", "$1", "NULL", "p", "q", "P", "10")
	}
	return hostile[r.Intn(len(hostile))] + pick(r, "", "x", "\\", "\"")
}

// genPred makes a predicate. viaFQL restricts it to what FQL can say.
func genPred(r *rand.Rand, viaFQL bool) pred {
	c := &columns[r.Intn(len(columns))]
	for c.key == "h" && !viaFQL {
		c = &columns[r.Intn(len(columns))]
	}
	p := pred{col: c, op: ops[r.Intn(len(ops))]}
	set := func(v interface{}, f, lit string) {
		p.val, p.fql = v, fqlops[p.op]+f
		p.ref = c.name + " " + p.op + " " + lit
		p.par = []interface{}{v}
		p.cls = c.typ + p.op
	}
	if r.Intn(5) == 0 { // null
		p.op = ops[r.Intn(2)]
		p.val, p.fql = nil, fqlops[p.op]+"null"
		p.ref = c.name + map[string]string{"=": " IS NULL", "<>": " IS NOT NULL"}[p.op]
		p.cls = c.typ + p.op + "null"
		return p
	}
	switch c.typ {
	case "bool":
		p.op = ops[r.Intn(2)]
		b := r.Intn(2) == 0
		p.val, p.fql = b, fqlops[p.op]+strconv.FormatBool(b)
		p.ref = c.name + map[string]string{"=": " IS ", "<>": " IS NOT "}[p.op] + strings.ToUpper(strconv.FormatBool(b))
		p.cls = p.op + p.fql
	case "int8":
		n := int64(r.Intn(24) - 4)
		if r.Intn(6) == 0 {
			n = r.Int63() - r.Int63()
			if c.key == "h" {
				n /= 1000
			}
		}
		if c.key == "h" {
			set(n, strconv.FormatInt(n, 10), strconv.FormatInt(n*100, 10))
			p.val, p.par = n*100, []interface{}{n * 100}
		} else {
			set(n, strconv.FormatInt(n, 10), "("+strconv.FormatInt(n, 10)+")")
			if !viaFQL && r.Intn(3) == 0 {
				p.val, p.par = int(n), []interface{}{int(n)}
			}
		}
		if n >= 0 && r.Intn(4) == 0 {
			p.fql = fqlops[p.op] + "+" + strings.TrimPrefix(p.fql, fqlops[p.op])
		}
	case "float8":
		f := []float64{0, -45.004532, 1.5, 1e300, 0.25}[r.Intn(5)]
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += pick(r, ".0", ".")
		}
		if f == 1e300 {
			s = pick(r, "1.0e300", "1.0E+300")
		}
		set(f, s, "("+strconv.FormatFloat(f, 'g', -1, 64)+")::float8")
	case "timestamptz":
		d := []int64{0, 1257894000, -86400, 1}[r.Intn(4)]
		set(time.Unix(d, 0), "d"+strconv.FormatInt(d, 10), fmt.Sprintf("to_timestamp(%d)", d))
	default:
		s := strval(r)
		set(s, fqlText(s), pgconv.Lit(s))
		p.text = s
	}
	return p
}

// node of a reference WHERE expression: a leaf, or items joined by connectives.
type node struct {
	leaf  string
	items []node
	or    []bool // connective before items[i+1]
}

func (n node) empty() bool { return n.leaf == "" && len(n.items) == 0 }

// sql renders with every precedence made explicit: AND binds tighter than OR.
func (n node) sql() string {
	if n.leaf != "" {
		return "(" + n.leaf + ")"
	}
	var ors []string
	cur := n.items[0].sql()
	for i, or := range n.or {
		if or {
			ors = append(ors, cur)
			cur = n.items[i+1].sql()
		} else {
			cur = "(" + cur + " AND " + n.items[i+1].sql() + ")"
		}
	}
	return "(" + strings.Join(append(ors, cur), " OR ") + ")"
}

// builder accumulates a flat chain the way a caller thinks of it.
type builder struct {
	n    node
	pend int // 0 none, 1 and, 2 or
}

func (b *builder) add(x node) {
	if x.empty() {
		return
	}
	if len(b.n.items) > 0 {
		b.n.or = append(b.n.or, b.pend == 2)
	}
	b.n.items = append(b.n.items, x)
	b.pend = 0
}

// fnode is a generated FQL expression.
type fnode struct {
	p     *pred
	key   string // unknown key
	group []fnode
	or    []bool
	juxt  []bool // group directly follows: no connective written (means AND)
}

func genF(r *rand.Rand, depth int, unknown bool) fnode {
	var f fnode
	for n := 1 + r.Intn(4); n > 0; n-- {
		var x fnode
		switch {
		case depth < 3 && r.Intn(4) == 0:
			x = genF(r, depth+1, unknown)
		case unknown && r.Intn(3) == 0:
			x.key = pick(r, "zz", "A", "col", "a.b", "_", "日本", "id2", "null", "m", "true")
		default:
			p := genPred(r, true)
			x.p = &p
		}
		if len(f.group) > 0 {
			f.or = append(f.or, r.Intn(2) == 0)
		}
		f.group = append(f.group, x)
	}
	return f
}

func sp(r *rand.Rand) string {
	if r.Intn(5) > 0 {
		return ""
	}
	return pick(r, " ", "\t", "\n ", "  ")
}

func (f fnode) text(r *rand.Rand) string {
	switch {
	case f.p != nil:
		return f.p.col.key + sp(r) + f.p.fql
	case f.key != "":
		return f.key + pick(r, ":1", ":!null", `:"x"`, ":>2", ":true")
	}
	var b strings.Builder
	for i, x := range f.group {
		if i > 0 {
			if f.or[i-1] {
				b.WriteString(sp(r) + "," + sp(r))
			} else if x.group != nil && r.Intn(6) == 0 {
				b.WriteString(sp(r)) // juxtaposed group: AND
			} else {
				b.WriteString(sp(r) + ";" + sp(r))
			}
		}
		if x.group != nil {
			b.WriteString("(" + sp(r) + x.text(r) + sp(r) + ")")
		} else {
			b.WriteString(x.text(r))
		}
	}
	return b.String()
}

// ref prunes the unknown keys out of the tree.
func (f fnode) ref() node {
	if f.p != nil {
		return node{leaf: f.p.ref}
	}
	if f.key != "" {
		return node{}
	}
	// or of ands, each without its unknown members
	var ors []node
	var cur []node
	flush := func() {
		if len(cur) > 0 {
			ors = append(ors, node{items: cur, or: make([]bool, len(cur)-1)})
		}
		cur = nil
	}
	for i, x := range f.group {
		if i > 0 && f.or[i-1] {
			flush()
		}
		if n := x.ref(); !n.empty() {
			cur = append(cur, n)
		}
	}
	flush()
	if len(ors) == 0 {
		return node{}
	}
	or := make([]bool, len(ors)-1)
	for i := range or {
		or[i] = true
	}
	return node{items: ors, or: or}
}

// flat returns the pruned top-level chain: FQL text appended to what is there continues the chain.
func (f fnode) flat(b *builder) {
	x := f.ref()
	if x.empty() {
		return
	}
	// x is an or of ands; its first and last members join the surrounding chain
	for i, and := range x.items {
		for j, m := range and.items {
			switch {
			case i > 0 && j == 0:
				b.pend = 2
			case i > 0 || j > 0:
				b.pend = 1
			}
			b.add(m)
		}
	}
}

func (f fnode) params(out *[]interface{}) {
	if f.p != nil {
		*out = append(*out, f.p.par...)
	}
	for _, x := range f.group {
		x.params(out)
	}
}

func (f fnode) firstUnknown() string {
	if f.key != "" {
		return f.key
	}
	for _, x := range f.group {
		if k := x.firstUnknown(); k != "" {
			return k
		}
	}
	return ""
}

func (f fnode) shape() string {
	switch {
	case f.p != nil:
		return f.p.cls
	case f.key != "":
		return "?"
	}
	s := "("
	for i, x := range f.group {
		if i > 0 {
			if f.or[i-1] {
				s += ","
			} else {
				s += ";"
			}
		}
		s += x.shape()
	}
	return s + ")"
}

// prog is one driven call sequence with its reference.
type prog struct {
	c       filter.Constructor
	log     []string
	root    builder
	par     []interface{}
	order   []string
	ordKeys []string
	limit   int64
	offset  int64
	texts   []string
	shape   string
	err     error
	unknown bool
}

type progOpts struct {
	fql, nest, unknown, sort, lists, text bool
	v1                                    bool
	full                                  bool // no empty nests: what joins the next operand is then unspecified
}

func newProg(o progOpts) *prog {
	p := &prog{unknown: o.unknown}
	if o.v1 {
		m := map[string]string{}
		for _, c := range columns {
			if c.key != "h" {
				m[c.key] = c.name
			}
		}
		p.c.Init(m, tscol)
		for k := range m {
			m[k] = "changed"
			delete(m, k)
		}
	} else {
		p.c.InitV2(colmap(), tscol)
	}
	return p
}

func (p *prog) step(r *rand.Rand, b *builder, depth int, o progOpts) {
	k := r.Intn(12)
	switch {
	case k < 4: // Col
		q := genPred(r, false)
		p.log = append(p.log, fmt.Sprintf("Col(%s, %q, %#v)", q.col.name, q.op, q.val))
		p.shape += "c" + q.cls
		p.c.Col(q.col.name, q.op, q.val)
		b.add(node{leaf: q.ref})
		p.par = append(p.par, q.par...)
		p.texts = append(p.texts, q.text)
	case k == 4: // connective without nest
		if r.Intn(2) == 0 {
			p.log = append(p.log, "And(nil)")
			p.c.And(nil)
			if b.pend == 0 && len(b.n.items) > 0 {
				b.pend = 1
			}
			p.shape += "&"
		} else {
			p.log = append(p.log, "Or(nil)")
			p.c.Or(nil)
			if b.pend == 0 && len(b.n.items) > 0 {
				b.pend = 2
			}
			p.shape += "|"
		}
	case k < 7 && o.nest && depth < 3:
		var nb builder
		n := r.Intn(4)
		fn := func() {
			for i := 0; i < n; i++ {
				p.step(r, &nb, depth+1, o)
			}
			if nb.n.empty() && o.full {
				p.c.Col(`t."n"`, ">", int64(1))
				p.log = append(p.log, "Col(t.n, >, 1)")
				nb.add(node{leaf: `t."n" > 1`})
				p.par = append(p.par, int64(1))
			}
		}
		if len(b.n.items) > 0 && b.pend == 0 {
			b.pend = 1
		}
		p.shape += "["
		if r.Intn(2) == 0 {
			p.log = append(p.log, "And{")
			p.c.And(fn)
		} else {
			p.log = append(p.log, "Or{")
			// an explicit connective before it stays
			if len(b.n.items) > 0 && !hasPend(p.log) {
				b.pend = 2
			}
			p.c.Or(fn)
		}
		p.log = append(p.log, "}")
		p.shape += "]"
		if nb.n.empty() {
			return
		}
		b.add(nb.n)
	case k == 7 && o.text:
		w := pick(r, "foo", "foo bar", " bar  baz ", "qu", "é", "ba foo", "f", "f b", "b qu z", "x foo", "x", "q", "foobar f")
		p.log = append(p.log, fmt.Sprintf("TextSearch(%q)", w))
		p.c.TextSearch(w)
		var qs []string
		for _, x := range strings.Fields(w) {
			qs = append(qs, tscol+" @@ ('"+x+"':::*)::tsquery")
		}
		for i, x := range qs {
			qs[i] = strings.Replace(strings.Replace(x, "':::*)", ":*')", 1), "(", "(", 1)
		}
		b.add(node{leaf: strings.Join(qs, " AND ")})
		p.par = append(p.par, strings.Join(strings.Fields(w), ":* & ")+":*")
		p.shape += "t"
	case k < 10 && o.fql:
		f := genF(r, 0, o.unknown)
		s := f.text(r)
		if r.Intn(6) == 0 {
			s = pick(r, ";", ",", ";;", ",;") + s
		}
		if r.Intn(6) == 0 {
			s += pick(r, ";", ",", ";,", "; ", " , ")
		}
		p.log = append(p.log, fmt.Sprintf("UnmarshalFQL(%s)", s))
		if err := p.c.UnmarshalFQL(s); err != nil {
			p.err = fmt.Errorf("UnmarshalFQL(%q): %v", s, err)
		}
		f.flat(b)
		f.params(&p.par)
		p.shape += "f" + f.shape()
	case k == 10 && o.lists:
		p.list(r, b)
	default:
		q := genPred(r, false)
		p.log = append(p.log, fmt.Sprintf("Col(%s, %q, %#v)", q.col.name, q.op, q.val))
		p.c.Col(q.col.name, q.op, q.val)
		b.add(node{leaf: q.ref})
		p.par = append(p.par, q.par...)
		p.shape += "c" + q.cls
	}
}

// hasPend reports whether the call before the one just logged was a bare connective.
func hasPend(log []string) bool {
	if len(log) < 2 {
		return false
	}
	return log[len(log)-2] == "And(nil)" || log[len(log)-2] == "Or(nil)"
}

func (p *prog) list(r *rand.Rand, b *builder) {
	n := []int{0, 1, 2, 3, 7, 40}[r.Intn(6)]
	any := r.Intn(2) == 0
	op := pick(r, "in", "IN", "In")
	if any {
		op = pick(r, "any", "ANY")
	}
	typ := r.Intn(4)
	var lits []string
	var v interface{}
	col := pick(r, `t."a"`, `t."n"`, `t."id"`)
	var par []interface{}
	switch typ {
	case 0:
		x := []int64{}
		for i := 0; i < n; i++ {
			x = append(x, int64(r.Intn(25)-4))
			par = append(par, x[i])
			lits = append(lits, fmt.Sprint(x[i]))
		}
		v = x
	case 1:
		x := []int{}
		for i := 0; i < n; i++ {
			x = append(x, r.Intn(25)-4)
			par = append(par, x[i])
			lits = append(lits, fmt.Sprint(x[i]))
		}
		v = x
	case 2:
		x := []int16{}
		for i := 0; i < n; i++ {
			x = append(x, int16(r.Intn(25)-4))
			par = append(par, x[i])
			lits = append(lits, fmt.Sprint(x[i]))
		}
		v = x
	default:
		col = pick(r, `t."b"`, `t."s"`)
		x := []string{}
		for i := 0; i < n; i++ {
			x = append(x, strval(r))
			par = append(par, x[i])
			lits = append(lits, pgconv.Lit(x[i]))
		}
		v = x
	}
	if r.Intn(2) == 0 {
		p.log = append(p.log, fmt.Sprintf("Col(%s, %q, %#v)", col, op, v))
		p.c.Col(col, op, v)
	} else {
		// the methods of each type
		p.log = append(p.log, fmt.Sprintf("Col(In|Any)(any=%v, %s, %#v)", any, col, v))
		switch x := v.(type) {
		case []int64:
			if any {
				p.c.ColAnyInt64s(col, x)
			} else {
				p.c.ColInInt64s(col, x)
			}
		case []int:
			if any {
				p.c.ColAnyInts(col, x)
			} else {
				p.c.ColInInts(col, x)
			}
		case []int16:
			if any {
				p.c.ColAnyInt16s(col, x)
			} else {
				p.c.ColInInt16s(col, x)
			}
		case []string:
			if any {
				p.c.ColAnyStrings(col, x)
			} else {
				p.c.ColInStrings(col, x)
			}
		}
		p.shape += "m"
	}
	p.shape += fmt.Sprintf("l%v%d.%d", any, typ, n)
	if n == 0 {
		b.add(node{leaf: col + " IS NULL AND " + col + " IS NOT NULL"})
	} else {
		var eq []string
		for _, l := range lits {
			eq = append(eq, col+" = ("+l+")")
		}
		b.add(node{leaf: strings.Join(eq, " OR ")})
	}
	if any {
		p.par = append(p.par, anyParam{v})
	} else {
		p.par = append(p.par, par...)
	}
}

type anyParam struct{ v interface{} }

func (p *prog) where() string {
	if p.root.n.empty() {
		return ""
	}
	return " WHERE " + p.root.n.sql()
}

func (p *prog) tail() (s string) {
	if len(p.order) > 0 {
		s += " ORDER BY " + strings.Join(p.order, ", ")
	}
	if p.limit > 0 {
		s += fmt.Sprintf(" LIMIT %d", p.limit)
	}
	if p.offset > 0 {
		s += fmt.Sprintf(" OFFSET %d", p.offset)
	}
	return s
}

var phRe = regexp.MustCompile(`\$(\d+)`)

// placeholders checks that the text uses exactly pos+1..pos+n once each in order.
func placeholders(text string, pos, n int) string {
	ms := phRe.FindAllStringSubmatch(text, -1)
	if len(ms) != n {
		return fmt.Sprintf("%d placeholders for %d parameters", len(ms), n)
	}
	for i, m := range ms {
		if m[1] != strconv.Itoa(pos+i+1) {
			return fmt.Sprintf("placeholder %d is $%s, expected $%d", i, m[1], pos+i+1)
		}
	}
	return ""
}

func sameParams(got, want []interface{}) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d parameters, expected %d", len(got), len(want))
	}
	for i := range got {
		g, w := got[i], want[i]
		if a, ok := w.(anyParam); ok {
			_ = a
			if _, ok := g.(interface{ Value() (interface{}, error) }); ok {
				continue
			}
			continue
		}
		if t, ok := w.(time.Time); ok {
			if gt, ok := g.(time.Time); ok && gt.Equal(t) {
				continue
			}
		}
		if !reflect.DeepEqual(g, w) {
			return fmt.Sprintf("parameter %d is %#v, expected %#v", i, g, w)
		}
	}
	return ""
}

func pool(run *vh.Run, n int, fn func(r *rand.Rand, cn *sql.Conn, i int)) {
	db := setup()
	defer db.Close()
	var wg sync.WaitGroup
	ch := make(chan int, 64)
	for w := 0; w < 8; w++ {
		cn, err := db.Conn(context.Background())
		if err != nil {
			vh.Fatal("%v", err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer cn.Close()
			for i := range ch {
				fn(rand.New(rand.NewSource(run.Seed*7919+int64(i)*31+5)), cn, i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func ids(cn *sql.Conn, q string, args ...interface{}) ([]string, error) {
	rows, err := cn.QueryContext(context.Background(), q, args...)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	var out []string
	for rows.Next() {
		var s string
		if err := rows.Scan(&s); err != nil {
			return nil, err
		}
		out = append(out, s)
	}
	return out, rows.Err()
}

func lead(pos int) (string, []interface{}) {
	s, args := "", []interface{}{}
	for i := 0; i < pos; i++ {
		if i > 0 {
			s += "||"
		}
		s += fmt.Sprintf("$%d::text", i+1)
		args = append(args, fmt.Sprintf("p%d.", i))
	}
	if s == "" {
		s = "''"
	}
	return s, args
}

func guard(run *vh.Run, key string, log *[]string, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			run.Violate(key+"/panic", nil, "panic %v after %s", e, strings.Join(*log, "; "))
		}
	}()
	fn()
}

// WellFormed: C01.
func WellFormed(run *vh.Run) {
	run.Rule = "a case is one generated call sequence on a real constructor (columns, connectives with and without nests, FQL text, lists, text search, sort, limits; unknown keys and empty groups included) with a random starting position; the SQL is prepared and executed by a real server with the returned parameters behind parameters of the caller's own; distinct = call-sequence shape"
	pool(run, run.N(20000, 400000), func(r *rand.Rand, cn *sql.Conn, i int) {
		o := progOpts{fql: true, nest: true, unknown: i%2 == 0, lists: true, text: true, v1: i%5 == 0}
		p := newProg(o)
		guard(run, "wellformed", &p.log, func() {
			for n := r.Intn(6); n > 0; n-- {
				p.step(r, &p.root, 0, o)
			}
			p.sorts(r, false)
			pos := []int{0, 0, 1, 2, 3, 9, 24}[r.Intn(7)]
			f := p.c.Filter()
			text, par := f.ToSQL(pos)
			t2, par2 := f.ToSQL(pos)
			run.Eval(p.shape)
			run.Sample(fmt.Sprint(i%9), strings.Join(p.log, "; ")+"  =>  "+text)
			if p.err != nil {
				if !(o.v1 && strings.Contains(p.err.Error(), "conversion")) {
					run.Violate("error", nil, "%v after %s", p.err, strings.Join(p.log, "; "))
				}
				return
			}
			if t2 != text || !reflect.DeepEqual(par, par2) {
				run.Violate("unstable", nil, "ToSQL gave %q then %q after %s", text, t2, strings.Join(p.log, "; "))
			}
			if e := placeholders(text, pos, len(par)); e != "" {
				run.Violate("placeholders", nil, "%s in %q after %s", e, text, strings.Join(p.log, "; "))
				return
			}
			ld, args := lead(pos)
			rows, err := ids(cn, "SELECT "+ld+" FROM ftab AS t"+text, append(args, par...)...)
			if err != nil {
				run.Violate("rejected", nil, "the server refused %q: %v; after %s", text, err, strings.Join(p.log, "; "))
				return
			}
			want := ""
			for j := 0; j < pos; j++ {
				want += fmt.Sprintf("p%d.", j)
			}
			for _, x := range rows {
				if x != want {
					run.Violate("lead", nil, "the caller's own parameters came out as %q, expected %q", x, want)
					break
				}
			}
			run.Count("rows", int64(len(rows)))
			ct, cp := p.c.CountFilter().ToSQL(pos)
			if e := placeholders(ct, pos, len(cp)); e != "" {
				run.Violate("placeholders", nil, "%s in %q", e, ct)
			}
			if !strings.HasPrefix(text, ct) || !reflect.DeepEqual(cp, par) {
				run.Violate("count", nil, "count filter %q is not the condition of %q", ct, text)
			}
		})
	})
}

// Semantics: C03. Rows selected are those of an independently composed query.
func Semantics(run *vh.Run) {
	run.Rule = "a case is one generated call sequence (half of them FQL-heavy, with escapes, blanks, nested groups, unknown keys in lenient mode); oracle: the ids selected by the produced SQL and parameters equal the ids selected by a separately composed, fully parenthesised query with inlined literals; non-trivial and distinct = call-sequence shape"
	pool(run, run.N(16000, 400000), func(r *rand.Rand, cn *sql.Conn, i int) {
		o := progOpts{full: true, fql: true, nest: i%3 > 0, unknown: i%4 == 0, text: true, lists: i%5 == 0}
		p := newProg(o)
		guard(run, "semantics", &p.log, func() {
			for n := 1 + r.Intn(4); n > 0; n-- {
				p.step(r, &p.root, 0, o)
			}
			compare(run, cn, p, r.Intn(3))
		})
	})
}

func compare(run *vh.Run, cn *sql.Conn, p *prog, pos int) {
	text, par := p.c.Filter().ToSQL(pos)
	if p.err != nil {
		run.Violate("error", nil, "%v after %s", p.err, strings.Join(p.log, "; "))
		return
	}
	if e := sameParams(par, p.par); e != "" {
		run.Violate("params", nil, "%s in %q %v after %s", e, text, par, strings.Join(p.log, "; "))
	}
	ld, args := lead(pos)
	cond := ""
	if pos > 0 {
		cond = ", " + ld
	}
	_ = cond
	got, err := ids(cn, "SELECT id::text||left("+ld+",0) FROM ftab AS t"+text, append(args, par...)...)
	if err != nil {
		run.Violate("rejected", nil, "the server refused %q: %v; after %s", text, err, strings.Join(p.log, "; "))
		return
	}
	ref := "SELECT id::text FROM ftab AS t" + p.where()
	want, err := ids(cn, ref)
	if err != nil {
		run.Inconclusive("reference %s: %v", ref, err)
		return
	}
	run.Eval(p.shape)
	run.Count("rows", int64(len(got)))
	switch {
	case len(want) == 0:
		run.Count("cases selecting nothing", 1)
	case len(want) == 90:
		run.Count("cases selecting everything", 1)
	default:
		run.Count("cases selecting some rows", 1)
	}
	run.Sample(fmt.Sprint(len(p.shape)%11), strings.Join(p.log, "; ")+"  =>  "+text)
	if !sameSet(got, want) {
		run.Violate("rows", nil, "%q selects ids %v, expected %v (%s); after %s", text, got, want, ref, strings.Join(p.log, "; "))
	}
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

// Injection: C02.
func Injection(run *vh.Run) {
	run.Rule = "a case is one call sequence run twice with different values (hostile text in the second run); oracle: the SQL text is the same byte for byte, no value text occurs in it, each value arrives unchanged as a parameter, and keys that are not in the map (hostile sort and filter keys) never reach the text; distinct = call-sequence shape"
	pool(run, run.N(12000, 300000), func(r *rand.Rand, cn *sql.Conn, i int) {
		var texts [2]string
		var logs [2][]string
		mark := fmt.Sprintf("m%dz", i)
		skel := r.Int63()
		shape := ""
		for round := 0; round < 2; round++ {
			s := rand.New(rand.NewSource(skel)) // same structure in both rounds
			var c filter.Constructor
			c.InitV2(colmap(), tscol)
			log := &logs[round]
			var want []interface{}
			val := func() string {
				h := hostile[s.Intn(len(hostile))]
				if round == 0 {
					return mark + "plain"
				}
				return h + mark + h
			}
			guard(run, "injection", log, func() {
				for n := 1 + s.Intn(4); n > 0; n-- {
					switch s.Intn(7) {
					case 0:
						v := val()
						f := pick(s, "b", "s") + pick(s, ":", ":!", ":>", ":<=") + fqlText(v)
						want = append(want, v)
						if s.Intn(2) == 0 {
							v2 := val()
							f = "(" + f + pick(s, ",", ";") + "b:" + fqlText(v2) + ")"
							want = append(want, v2)
						}
						*log = append(*log, "FQL "+f)
						if err := c.UnmarshalFQL(f); err != nil {
							run.Violate("fql", nil, "UnmarshalFQL(%q): %v", f, err)
						}
						shape += "f"
					case 1:
						v := val()
						c.Col(`t."b"`, ops[s.Intn(6)], v)
						*log = append(*log, fmt.Sprintf("Col %q", v))
						want = append(want, v)
						shape += "c"
					case 2:
						v := val() + " x"
						c.TextSearch(v)
						*log = append(*log, fmt.Sprintf("TextSearch %q", v))
						want = append(want, nil)
						shape += "t"
					case 3:
						vs := []string{val(), val(), val()}[:1+s.Intn(3)]
						c.Col(`t."b"`, "in", vs)
						for _, v := range vs {
							want = append(want, v)
						}
						*log = append(*log, fmt.Sprintf("In %q", vs))
						shape += "i"
					case 4:
						vs := []string{val()}
						c.Col(`t."b"`, "any", vs)
						want = append(want, nil)
						*log = append(*log, fmt.Sprintf("Any %q", vs))
						shape += "a"
					case 5:
						k := val()
						good := pick(s, "a", "b", "-n")
						str := k + "," + good + ",-" + k + "," + k
						*log = append(*log, fmt.Sprintf("Sort %q", str))
						if err := c.UnmarshalSort(str); err != nil {
							run.Violate("sort", nil, "lenient UnmarshalSort(%q): %v", str, err)
						}
						shape += "s"
					default:
						k := pick(s, "zz", "ftab", "pg_sleep", "a.b.c", "日本", "drop", "t."+mark, mark, "a_"+mark, "a."+mark, mark+"1")
						f := k + ":" + fqlText(val()) + ";a:1"
						*log = append(*log, "FQL "+f)
						if err := c.UnmarshalFQL(f); err != nil {
							run.Violate("fql", nil, "lenient UnmarshalFQL(%q): %v", f, err)
						}
						want = append(want, int64(1))
						shape += "u"
					}
				}
				text, par := c.Filter().ToSQL(0)
				texts[round] = text
				if strings.Contains(text, mark) {
					run.Violate("leak", nil, "a value or key reached the SQL text %q after %s", text, strings.Join(*log, "; "))
				}
				for _, k := range []string{"zz", "pg_sleep", "日本", "drop", "DROP", "--", "/*", "'x'"} {
					if strings.Contains(text, k) {
						run.Violate("leak", nil, "%q reached the SQL text %q after %s", k, text, strings.Join(*log, "; "))
					}
				}
				if len(par) != len(want) {
					run.Violate("params", nil, "%d parameters, expected %d in %q after %s", len(par), len(want), text, strings.Join(*log, "; "))
				} else {
					for j := range par {
						if want[j] != nil && !reflect.DeepEqual(par[j], want[j]) {
							run.Violate("params", nil, "parameter %d is %#v, expected %#v after %s", j, par[j], want[j], strings.Join(*log, "; "))
						}
					}
				}
			})
		}
		run.Eval(shape)
		run.Sample(shape, texts[1])
		if texts[0] != texts[1] {
			run.Violate("varies", nil, "the SQL text depends on the values: %q and %q after %s", texts[0], texts[1], strings.Join(logs[1], "; "))
		}
	})
}

// sorts adds ordering and pagination with their reference.
func (p *prog) sorts(r *rand.Rand, unique bool) {
	add := func(key, col string, desc, nullable, nf bool, explicit bool) {
		s := col
		if desc {
			s += " DESC"
		}
		if explicit {
			if nf {
				s += " NULLS FIRST"
			} else {
				s += " NULLS LAST"
			}
		}
		p.order = append(p.order, s)
		p.ordKeys = append(p.ordKeys, col+"::text")
	}
	for n := r.Intn(3); n > 0; n-- {
		switch r.Intn(3) {
		case 0:
			c := columns[1+r.Intn(len(columns)-1)]
			d, nf := r.Intn(2) == 0, r.Intn(2) == 0
			p.log = append(p.log, fmt.Sprintf("OrderBy(%s,%v,%v)", c.name, d, nf))
			p.c.OrderBy(c.name, d, nf)
			add(c.key, c.name, d, c.nullable, nf, true)
			p.shape += fmt.Sprintf("o%s%v%v", c.key, d, nf)
		case 1:
			c := columns[1+r.Intn(len(columns)-1)]
			d, nf := r.Intn(2) == 0, r.Intn(2) == 0
			p.log = append(p.log, fmt.Sprintf("OrderByV2(%s,%v,%v,%v)", c.name, d, c.nullable, nf))
			p.c.OrderByV2(c.name, d, c.nullable, nf)
			add(c.key, c.name, d, c.nullable, nf, c.nullable)
			p.shape += fmt.Sprintf("v%s%v%v", c.key, d, nf)
		default:
			var items []string
			for k := 1 + r.Intn(3); k > 0; k-- {
				if r.Intn(6) == 0 {
					items = append(items, pick(r, "", "-"))
					continue
				}
				if p.unknown && r.Intn(4) == 0 {
					items = append(items, pick(r, "zz", "-zz", "--a", "a ", "A", "-"))
					continue
				}
				c := columns[1+r.Intn(len(columns)-2)]
				d := r.Intn(2) == 0
				it := c.key
				if d {
					it = "-" + it
				}
				items = append(items, it)
				add(c.key, c.name, d, c.nullable, false, c.nullable)
			}
			s := strings.Join(items, ",")
			p.log = append(p.log, fmt.Sprintf("UnmarshalSort(%q)", s))
			p.shape += "s" + s
			if err := p.c.UnmarshalSort(s); err != nil {
				p.err = fmt.Errorf("UnmarshalSort(%q): %v", s, err)
			}
		}
	}
	if unique {
		p.c.OrderBy(`t."id"`, false, false)
		p.order = append(p.order, `t."id"`)
		p.ordKeys = append(p.ordKeys, `t."id"::text`)
		p.log = append(p.log, "OrderBy(id)")
	}
	for n := r.Intn(4); n > 0; n-- {
		switch r.Intn(3) {
		case 0:
			v := []int64{0, -1, 1, 3, 10, 50, 1000}[r.Intn(7)]
			p.log = append(p.log, fmt.Sprintf("Limit(%d)", v))
			p.c.Limit(v)
			if v > 0 {
				p.limit = v
			}
			p.shape += fmt.Sprintf("L%d", v)
		case 1:
			v := []int64{0, -7, 1, 5, 80, 1000}[r.Intn(6)]
			p.log = append(p.log, fmt.Sprintf("Offset(%d)", v))
			p.c.Offset(v)
			if v > 0 {
				p.offset = v
			}
			p.shape += fmt.Sprintf("O%d", v)
		default:
			v := []int64{-1, 0, 1, 2, 3, 9, 1 << 40, 1 << 62, 1<<63 - 1, 1<<61 + 1}[r.Intn(10)]
			if p.limit > 0 && r.Intn(6) == 0 {
				v = (1<<63-1)/p.limit + int64(r.Intn(3)) // where the offset stops fitting
			}
			if v < -1 {
				v = 1<<63 - 1
			}
			p.log = append(p.log, fmt.Sprintf("Page(%d)", v))
			p.c.Page(v)
			if v > 0 {
				if hi := p.limit * 1; hi > 0 && v-1 > (1<<63-1)/hi {
					p.offset = 1<<63 - 1
				} else {
					p.offset = p.limit * (v - 1)
				}
			}
			p.shape += fmt.Sprintf("P%d", v)
		}
	}
}

// Sorting: C04.
func Sorting(run *vh.Run) {
	run.Rule = "a case is one sequence of sort, limit, offset and page calls over an optional condition; oracle: the sequence of rows equals that of an independently composed query (exactly when a unique key ends the order, by sort-key tuples otherwise), and the count filter counts the rows of the condition alone; distinct = call-sequence shape"
	pool(run, run.N(16000, 300000), func(r *rand.Rand, cn *sql.Conn, i int) {
		o := progOpts{fql: true, unknown: i%3 == 0}
		p := newProg(o)
		unique := i%2 == 0
		guard(run, "sorting", &p.log, func() {
			if r.Intn(2) == 0 {
				p.step(r, &p.root, 0, o)
			}
			p.sorts(r, unique)
			if !unique {
				// without a total order rows cut off by a limit are unspecified
				if p.limit > 0 || p.offset > 0 {
					return
				}
			}
			if p.err != nil {
				run.Violate("error", nil, "%v after %s", p.err, strings.Join(p.log, "; "))
				return
			}
			text, par := p.c.Filter().ToSQL(0)
			sel := `t."id"::text`
			if !unique {
				sel = "ROW(" + strings.Join(append([]string{"1"}, p.ordKeys...), ",") + ")::text"
			}
			got, err := ids(cn, "SELECT "+sel+" FROM ftab AS t"+text, par...)
			if err != nil {
				run.Violate("rejected", nil, "the server refused %q: %v; after %s", text, err, strings.Join(p.log, "; "))
				return
			}
			ref := "SELECT " + sel + " FROM ftab AS t" + p.where() + p.tail()
			want, err := ids(cn, ref)
			if err != nil {
				run.Inconclusive("reference %s: %v", ref, err)
				return
			}
			run.Eval(p.shape)
			run.Count("rows", int64(len(got)))
			run.Sample(fmt.Sprint(i%12), strings.Join(p.log, "; ")+"  =>  "+text)
			if !reflect.DeepEqual(got, want) {
				run.Violate("order", nil, "%q gives %v, expected %v (%s); after %s", text, got, want, ref, strings.Join(p.log, "; "))
			}
			ct, cp := p.c.CountFilter().ToSQL(0)
			gc, err := ids(cn, "SELECT count(*)::text FROM ftab AS t"+ct, cp...)
			wc, err2 := ids(cn, "SELECT count(*)::text FROM ftab AS t"+p.where())
			if err2 != nil {
				run.Inconclusive("%v", err2)
			} else if err != nil || !reflect.DeepEqual(gc, wc) {
				run.Violate("count", nil, "count filter %q counts %v (%v), expected %v; after %s", ct, gc, err, wc, strings.Join(p.log, "; "))
			}
		})
	})
}

// tokenize is the grammar's own verdict on a text: the FQL tokenizer over the text without its outer separators.
func tokenize(s string) (keys []string, vals []interface{}, err error) {
	z := fql.NewTokenizer(strings.Trim(s, ";,"))
	for {
		tok, err := z.Next()
		if err == io.EOF {
			return keys, vals, nil
		}
		if err != nil {
			return keys, vals, err
		}
		if tok == fql.RULE {
			keys = append(keys, z.Rule().Key)
			vals = append(vals, z.Rule().Val)
		}
	}
}

// Malformed: C05.
func Malformed(run *vh.Run) {
	run.Rule = "a case is one input text: valid FQL, valid FQL damaged by random edits, random bytes, or a sort list, in strict or lenient mode; oracle: no panic, an error exactly when the grammar rejects the text, a conversion fails or (strict mode) the first unknown key is met, that key being named; accepted text yields SQL the server accepts; distinct = (mode, outcome, text skeleton)"
	frag := []string{"(", ")", ";", ",", ":", "a", "b", "n", "zz", "\"", "\\", "null", "true", "!", ">=", "d1", "1", "1.5", " ", "é", "\x00", "\xff", "'", "a:1", "b:\"x\"", "(a:1)", "m.x:7", "h:2", "h:\"x\"", "h:null", "-", "e9", "c:true"}
	pool(run, run.N(30000, 600000), func(r *rand.Rand, cn *sql.Conn, i int) {
		strict := r.Intn(2) == 0
		var log []string
		guard(run, "malformed", &log, func() {
			var c filter.Constructor
			c.InitV2(colmap(), tscol)
			if strict {
				c.StrictSwitch()
			}
			m := colmap()
			if i%6 == 5 { // sort
				var items []string
				for k := r.Intn(5); k > 0; k-- {
					items = append(items, pick(r, "a", "-b", "n", "zz", "-", "", " a", "--a", "\x00", "-zz", "m.x", "é"))
				}
				s := strings.Join(items, ",")
				log = append(log, fmt.Sprintf("UnmarshalSort(%q)", s))
				unknown := ""
				for _, it := range items {
					k := strings.TrimPrefix(it, "-")
					if _, ok := m[k]; !ok && k != "" {
						unknown = k
						break
					}
				}
				err := c.UnmarshalSort(s)
				run.Eval(fmt.Sprintf("sort %v %s", strict, s))
				var uk filter.UnknownColumnKeyError
				switch {
				case strict && unknown != "":
					if !errors.As(err, &uk) || uk.Key != unknown {
						run.Violate("sort-unknown", nil, "strict UnmarshalSort(%q) returned %v, expected unknown key %q", s, err, unknown)
					}
				case err != nil:
					run.Violate("sort-error", nil, "UnmarshalSort(%q) strict=%v: %v", s, strict, err)
				default:
					text, par := c.Filter().ToSQL(0)
					if _, err := ids(cn, "SELECT 1 FROM ftab AS t"+text, par...); err != nil {
						run.Violate("sort-rejected", nil, "UnmarshalSort(%q): %q: %v", s, text, err)
					}
				}
				return
			}
			f := genF(r, 0, r.Intn(2) == 0)
			s := f.text(r)
			kind := "valid"
			switch r.Intn(4) {
			case 0:
				kind = "random"
				var b strings.Builder
				for k := r.Intn(9); k > 0; k-- {
					b.WriteString(frag[r.Intn(len(frag))])
				}
				s = b.String()
			case 1, 2:
				kind = "damaged"
				for k := 1 + r.Intn(2); k > 0; k-- {
					at := r.Intn(len(s) + 1)
					switch r.Intn(3) {
					case 0:
						s = s[:at] + frag[r.Intn(len(frag))] + s[at:]
					case 1:
						if at < len(s) {
							s = s[:at] + s[at+1:]
						}
					default:
						s = s[:at]
					}
					if len(s) == 0 {
						break
					}
				}
			}
			log = append(log, fmt.Sprintf("UnmarshalFQL(%q)", s))
			keys, vals, terr := tokenize(s)
			unknown, conv := "", false
			for j, k := range keys {
				col, ok := m[k]
				if !ok {
					if strict {
						unknown = k
						break
					}
					continue
				}
				if col.ConvertValue != nil {
					v := vals[j]
					if v == fql.Null {
						v = nil
					}
					if _, e := col.ConvertValue(v); e != nil {
						conv = true
						break
					}
				}
			}
			err := c.UnmarshalFQL(s)
			var uk filter.UnknownColumnKeyError
			outcome := "ok"
			switch {
			case conv:
				outcome = "conversion"
				if err != errConv {
					run.Violate("conversion", nil, "UnmarshalFQL(%q) strict=%v returned %v, expected the conversion's error", s, strict, err)
				}
			case unknown != "":
				outcome = "unknown"
				if !errors.As(err, &uk) || uk.Key != unknown {
					run.Violate("unknown", nil, "strict UnmarshalFQL(%q) returned %v, expected unknown key %q", s, err, unknown)
				}
			case terr != nil:
				outcome = "syntax"
				if err == nil {
					run.Violate("accepted", nil, "UnmarshalFQL(%q) strict=%v accepted malformed text (%v)", s, strict, terr)
				}
			case err != nil:
				run.Violate("error", nil, "UnmarshalFQL(%q) strict=%v: %v", s, strict, err)
			default:
				text, par := c.Filter().ToSQL(0)
				if e := placeholders(text, 0, len(par)); e != "" {
					run.Violate("placeholders", nil, "%s in %q for %q", e, text, s)
				}
				if kind == "valid" || syntaxOnly(cn, text, par) != nil {
					if _, err := ids(cn, "SELECT 1 FROM ftab AS t"+text, par...); err != nil && (kind == "valid" || isSyntax(err)) {
						run.Violate("rejected", nil, "UnmarshalFQL(%q) strict=%v: %q: %v", s, strict, text, err)
					}
				}
			}
			run.Count(kind+"/"+outcome, 1)
			sk := ""
			for _, ch := range s {
				if strings.ContainsRune("();,:!<>=\"\\.", ch) {
					sk += string(ch)
				}
			}
			run.Eval(fmt.Sprintf("%v %s %s", strict, outcome, sk))
			run.Sample(kind+outcome, s)
		})
	})
}

func isSyntax(err error) bool { return strings.Contains(err.Error(), "syntax error at") }

func syntaxOnly(cn *sql.Conn, text string, par []interface{}) error {
	_, err := ids(cn, "SELECT 1 FROM ftab AS t"+text, par...)
	return err
}

// Lists: C06.
func Lists(run *vh.Run) {
	run.Rule = "a case is one list predicate (element type, operator, length 0..2000, duplicates, position) or one ordinal list; oracle: rows equal those of an OR of equalities, parameters are the elements in order (one array for the ANY form), ordinal text equals $pos+1..$pos+n; distinct = (kind, type, length, position)"
	for i := 0; i < len(gosql.OrdinalParameters); i++ {
		if gosql.OrdinalParameters[i] != "$"+strconv.Itoa(i+1) {
			run.Violate("ordinal", nil, "ordinal %d is %q", i, gosql.OrdinalParameters[i])
			break
		}
	}
	run.Count("ordinals", int64(len(gosql.OrdinalParameters)))
	r := rand.New(rand.NewSource(run.Seed))
	for k := 0; k < run.N(4000, 60000); k++ {
		n, pos := r.Intn(40), r.Intn(300)
		if k%50 == 0 {
			n = r.Intn(len(gosql.OrdinalParameters) + 1)
			pos = r.Intn(len(gosql.OrdinalParameters) + 1 - n)
		}
		var ws []string
		for i := 0; i < n; i++ {
			ws = append(ws, "$"+strconv.Itoa(pos+i+1))
		}
		run.Eval(fmt.Sprintf("list %d %d", n, pos))
		func() {
			defer func() {
				if e := recover(); e != nil {
					run.Violate("list/panic", nil, "InValueList(%d,%d): %v", n, pos, e)
				}
			}()
			if got := gosql.InValueList(n, pos); got != strings.Join(ws, ",") && n > 0 {
				run.Violate("list/text", nil, "InValueList(%d,%d) = %.80q", n, pos, got)
			}
		}()
	}
	pool(run, run.N(6000, 100000), func(r *rand.Rand, cn *sql.Conn, i int) {
		p := newProg(progOpts{})
		o := progOpts{lists: true}
		guard(run, "lists", &p.log, func() {
			if i%40 == 0 {
				// long lists
				n := 300 + r.Intn(1700)
				var v []int64
				var par []interface{}
				set := map[int64]bool{}
				for k := 0; k < n; k++ {
					x := int64(r.Intn(4000)) - 1950
					v = append(v, x)
					set[x] = true
					par = append(par, x)
				}
				op := pick(r, "in", "any")
				p.c.Col(`t."n"`, ">", int64(0))
				p.c.Col(`t."id"`, op, v)
				p.log = append(p.log, fmt.Sprintf("Col(id, %s, %d values)", op, n))
				text, got := p.c.Filter().ToSQL(0)
				run.Eval(fmt.Sprintf("long %s %d", op, n))
				if op == "in" {
					if e := sameParams(got, append([]interface{}{int64(0)}, par...)); e != "" {
						run.Violate("long/params", nil, "%s", e)
					}
				}
				rows, err := ids(cn, "SELECT id::text FROM ftab AS t"+text, got...)
				if err != nil {
					run.Violate("long/rejected", nil, "%s of %d values: %v", op, n, err)
					return
				}
				var want []string
				for id := 1; id <= 90; id++ {
					if set[int64(id)] {
						want = append(want, strconv.Itoa(id))
					}
				}
				if !sameSet(rows, want) {
					run.Violate("long/rows", nil, "%s of %d values selects %v, expected %v", op, n, rows, want)
				}
				return
			}
			for k := 1 + r.Intn(3); k > 0; k-- {
				if r.Intn(4) == 0 {
					p.step(r, &p.root, 3, o)
				}
				p.list(r, &p.root)
			}
			compare(run, cn, p, r.Intn(4))
		})
	})
}

// Shared: C07 (built with the race detector).
func Shared(run *vh.Run) {
	run.Rule = "a case is one round: goroutines sharing one column map build, render and execute filters of their own at once, started together; each goroutine's SQL and parameters are compared with those of the same sequence built alone; the race detector watches; distinct = (goroutines, call-sequence shape)"
	db := setup()
	defer db.Close()
	rounds := run.N(250, 4000)
	for round := 0; round < rounds; round++ {
		m := colmap()
		m1 := map[string]string{}
		for k, c := range m {
			m1[k] = c.Name
		}
		n := 2 + round%7
		type out struct {
			text string
			par  []interface{}
		}
		one := func(seed int64) (o out, shape string) {
			r := rand.New(rand.NewSource(seed))
			p := &prog{unknown: seed%2 == 0}
			if seed%3 == 0 {
				p.c.Init(m1, tscol)
			} else {
				p.c.InitV2(m, tscol)
			}
			po := progOpts{fql: true, nest: true, unknown: seed%2 == 0, lists: true, text: true}
			for k := 1 + r.Intn(5); k > 0; k-- {
				p.step(r, &p.root, 0, po)
			}
			p.sorts(r, false)
			o.text, o.par = p.c.Filter().ToSQL(int(seed % 5))
			p.c.CountFilter().ToSQL(0)
			return o, p.shape
		}
		res := make([]out, n)
		shapes := make([]string, n)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				res[g], shapes[g] = one(run.Seed*1e6 + int64(round*16+g))
			}(g)
		}
		close(start)
		wg.Wait()
		for g := 0; g < n; g++ {
			want, _ := one(run.Seed*1e6 + int64(round*16+g))
			run.Eval(fmt.Sprintf("%d %s", n, shapes[g]))
			run.Count("filters built concurrently", 1)
			if want.text != res[g].text || sameParams(res[g].par, want.par) != "" && !hasAny(want.par) {
				run.Violate("mixed", nil, "built among %d others: %q %v; alone: %q %v", n-1, res[g].text, res[g].par, want.text, want.par)
			}
		}
		// one finished filter rendered by many
		p := newProg(progOpts{})
		r := rand.New(rand.NewSource(run.Seed + int64(round)))
		for k := 0; k < 3; k++ {
			p.step(r, &p.root, 0, progOpts{fql: true, nest: true})
		}
		f, cf := p.c.Filter(), p.c.CountFilter()
		w0, _ := f.ToSQL(0)
		w1, _ := cf.ToSQL(3)
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				t0, _ := f.ToSQL(0)
				t1, _ := cf.ToSQL(3)
				if t0 != w0 || t1 != w1 {
					run.Violate("render", nil, "a finished filter rendered as %q and %q at once", w0, t0)
				}
			}()
		}
		wg.Wait()
	}
	run.Sample("round", fmt.Sprintf("%d rounds of 2..8 goroutines", rounds))
	run.Races("filter")
}

func hasAny(p []interface{}) bool {
	for _, x := range p {
		if _, ok := x.(interface{ Scan(interface{}) error }); ok {
			return true
		}
		if x != nil && strings.HasPrefix(fmt.Sprintf("%T", x), "pgsql.") {
			return true
		}
	}
	return false
}
