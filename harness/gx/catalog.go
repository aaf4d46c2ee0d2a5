package gx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/frk/gosql/verifharness/vh"
)

// The catalog monitor draws whole databases (kinds of relations, names, columns, keys, indexes), has the tool generate
// code for targets that name them, and compares what that code does with literal statements composed from the drawing.

// val is a value in Go and in SQL.
type val struct{ g, s string }

var null = val{"nil", "NULL"}

type cType struct {
	name, sql, g string
	vals         []val
	key          bool // has plain equality and fits into an index
	zero         val  // what a field that is no pointer has for NULL
}

func ints(g string) (vs []val) {
	for i := 1; i <= 6; i++ {
		vs = append(vs, val{fmt.Sprintf("%s(%d)", g, i*7-20), fmt.Sprint(i*7 - 20)})
	}
	return
}

var texts = []val{{`"a"`, `'a'`}, {`"B b"`, `'B b'`}, {`"it's"`, `'it''s'`}, {`"ü(x"`, `'ü(x'`}, {`"A"`, `'A'`}, {`"z,\"q\""`, `'z,"q"'`}}

var catTypes = []*cType{
	{"int2", "int2", "int16", ints("int16"), true, val{"int16(0)", "NULL"}},
	{"int4", "int4", "int", ints("int"), true, val{"int(0)", "NULL"}},
	{"int4x", "int4", "int32", ints("int32"), true, val{"int32(0)", "NULL"}},
	{"int8", "int8", "int64", ints("int64"), true, val{"int64(0)", "NULL"}},
	{"text", "text", "string", texts, true, val{`""`, "NULL"}},
	{"varchar", "varchar(12)", "string", texts, true, val{`""`, "NULL"}},
	{"bool", "bool", "bool", []val{{"true", "true"}, {"false", "false"}}, true, val{}},
	{"enum", "MOOD", "string", []val{{`"sad"`, "'sad'"}, {`"It's"`, "'It''s'"}, {`"glad"`, "'glad'"}}, true, val{}},
	{"uuid", "uuid", "string", []val{{`"11111111-2222-3333-4444-555555555555"`, "'11111111-2222-3333-4444-555555555555'"}, {`"00000000-0000-0000-0000-000000000001"`, "'00000000-0000-0000-0000-000000000001'"}}, true, val{}},
	{"bytea", "bytea", "[]byte", []val{{`[]byte("x'\x00\xff")`, `'\x782700ff'`}, {`[]byte("q")`, `'\x71'`}}, false, val{"[]byte(nil)", "NULL"}},
	{"int4[]", "int4[]", "[]int", []val{{"[]int{3, -1}", "'{3,-1}'"}, {"[]int{7}", "'{7}'"}}, false, val{"[]int(nil)", "NULL"}},
	{"text[]", "text[]", "[]string", []val{{`[]string{"a", "B,}"}`, `'{a,"B,}"}'`}, {`[]string{"NULL", ""}`, `'{"NULL",""}'`}}, false, val{"[]string(nil)", "NULL"}},
	{"float8", "float8", "float64", []val{{"float64(1.5)", "1.5"}, {"float64(-2)", "-2"}}, false, val{}},
}

type cCol struct {
	name    string
	t       *cType
	notNull bool
	def     string // DEFAULT expression
	gen     int    // generated from this column (its number plus one), as is
	ident   string // "ALWAYS", "BY DEFAULT"
	field   string // name of the field; empty: the record lacks it
	ptr, ro bool
}

func (c *cCol) null() bool { return !c.notNull && c.ident == "" }

// inGo is how a record holds a value.
func (c *cCol) inGo(v val) string {
	if v.s == "NULL" {
		if c.ptr {
			return "nil"
		}
		return c.t.zero.g
	}
	if c.ptr {
		return "rt.P(" + v.g + ")"
	}
	return v.g
}

type cIdx struct {
	name     string
	cols     []int
	expr     string // instead of columns
	suffix   map[int]string
	conOps   map[int]string // what of the suffix is allowed in a conflict target
	include  []int
	where    string
	unique   bool
	con      string // "PRIMARY KEY", "UNIQUE", "": an index
	deferred bool
}

type cRel struct {
	schema, name, rel, kind string
	cols                    []*cCol
	idx                     []*cIdx
	rows                    [][]val
	parent                  *cRel // inherited from
	children                []*cRel
	rec                     string
}

func q(s string) string { return `"` + s + `"` }

func (r *cRel) q() string { return r.schema + "." + q(r.name) }

type cCat struct {
	r      *rand.Rand
	schema string
	path   string
	rels   []*cRel
	used   map[string]bool
	seen   map[string]int
	n      int
	extra  string // record types besides those of the relations
	ddl    []string
}

var relNames = []string{"plain", "Mixed", "mixed", "user", "order", "Select", "table", "_x", "a1", "Using", "WHERE_", "x", "c", "on", "T"}
var colNames = []string{"id", "Id", "ID", "user", "order", "Group", "select", "from", "default", "_a", "b2", "Name", "name", "x", "c", "key", "val", "using", "end", "ctx", "err", "row", "rows", "excluded"}
var idxNames = []string{"ix", "IX", "Using", "on_", "unique_", "Primary", "k1", "k2", "K2", "_i", "where_1", "desc_", "INCLUDE_", "z9"}

func (c *cCat) pick(from []string, used map[string]bool) string {
	for {
		n := from[c.r.Intn(len(from))]
		if used[n] {
			n += fmt.Sprint(c.r.Intn(90))
		}
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

func (c *cCat) chance(n int) bool { return c.r.Intn(n) == 0 }

func (c *cCat) see(f string, a ...interface{}) { c.seen[fmt.Sprintf(f, a...)]++ }

// table draws a table, partitioned or not.
func (c *cCat) table(kind string) *cRel {
	r := &cRel{schema: c.schema, name: c.pick(relNames, c.used), kind: kind}
	used := map[string]bool{}
	key := c.r.Intn(3) // a column named like another but for its case
	for i, n := 0, 3+c.r.Intn(6); i < n; i++ {
		t := catTypes[c.r.Intn(len(catTypes))]
		if i == 0 || i == 1 && key == 0 {
			t = catTypes[c.r.Intn(6)]
		}
		k := &cCol{name: c.pick(colNames, used), t: t, notNull: i == 0 || c.chance(3)}
		if i == 0 && kind == "partitioned" {
			k.notNull = true
		} else if strings.HasPrefix(t.name, "int") && t.sql != "int4[]" && c.chance(7) {
			k.ident = []string{"ALWAYS", "BY DEFAULT"}[c.r.Intn(2)]
			if kind == "partitioned" {
				k.ident = "" // not in version 16
			}
		} else if c.chance(5) {
			k.def = t.vals[c.r.Intn(len(t.vals))].s
		}
		r.cols = append(r.cols, k)
	}
	if c.chance(3) {
		b := c.r.Intn(len(r.cols))
		if r.cols[b].ident == "" {
			r.cols = append(r.cols, &cCol{name: c.pick(colNames, used), t: r.cols[b].t, gen: b + 1})
			c.see("column: generated")
		}
	}
	for i, k := range r.cols {
		k.ptr = k.null() && (c.chance(2) || k.t.zero.g == "") && !strings.HasPrefix(k.t.g, "[]")
		k.ro = k.gen > 0 || k.ident == "ALWAYS"
		k.field = fmt.Sprintf("F%d", i)
		if i > 0 && c.chance(8) && (k.null() || k.def != "" || k.ident != "" || k.gen > 0) {
			k.field = ""
		}
	}
	c.keys(r)
	return r
}

// cols draws distinct columns that can be in a key.
func (c *cCat) cols(r *cRel, n int, must bool) (out []int) {
	if must {
		out = append(out, 0)
	}
	for _, i := range c.r.Perm(len(r.cols)) {
		if len(out) >= n {
			break
		}
		if k := r.cols[i]; k.t.key && k.gen == 0 && !(must && i == 0) {
			out = append(out, i)
		}
	}
	return out
}

func (c *cCat) keys(r *cRel) {
	part := r.kind == "partitioned"
	taken := map[string]bool{}
	fresh := func(cols []int) bool {
		s := append([]int(nil), cols...)
		sort.Ints(s)
		k := fmt.Sprint(s)
		if taken[k] {
			return false
		}
		taken[k] = true
		return true
	}
	include := func(x *cIdx) {
		for i, k := range r.cols {
			in := k.gen > 0 || !k.t.key
			for _, j := range x.cols {
				in = in || i == j
			}
			if !in && c.chance(3) {
				x.include = append(x.include, i)
			}
		}
		if len(x.include) > 0 {
			c.see("key: covering")
		}
	}
	if !c.chance(4) {
		x := &cIdx{con: "PRIMARY KEY", unique: true, name: c.pick(idxNames, c.used), cols: c.cols(r, 1+c.r.Intn(3), part || c.chance(2))}
		for _, i := range x.cols {
			k := r.cols[i]
			k.notNull, k.ptr = true, false
			if k.field == "" {
				k.field = fmt.Sprintf("F%d", i)
			}
		}
		if c.chance(3) {
			include(x)
		}
		x.deferred = c.chance(6)
		fresh(x.cols)
		r.idx = append(r.idx, x)
		c.see("primary key of %d", len(x.cols))
	}
	for n := c.r.Intn(5); n > 0; n-- {
		x := &cIdx{name: c.pick(idxNames, c.used), unique: !c.chance(4), cols: c.cols(r, 1+c.r.Intn(2), part), suffix: map[int]string{}, conOps: map[int]string{}}
		if x.unique && !fresh(x.cols) || len(x.cols) == 0 {
			continue
		}
		if x.unique && c.chance(3) {
			x.con = "UNIQUE"
			x.deferred = c.chance(3)
			if c.chance(3) {
				include(x)
			}
			r.idx = append(r.idx, x)
			c.see("constraint: unique deferrable=%v", x.deferred)
			continue
		}
		text := -1
		for i, k := range r.cols {
			if k.t.name == "text" && k.gen == 0 {
				text = i
			}
		}
		switch {
		case text >= 0 && c.chance(3) && !part:
			e := []string{"lower(%s)", "(%s || '''')", "(%s || ')''x(')", "COALESCE(%s, ''''''::text)", "(length(%s) + 1)", "md5(%s || '\")')", "(\"left\"(%s, 1) || ' using (')"}[c.r.Intn(7)]
			x.expr = fmt.Sprintf(e, q(r.cols[text].name))
			x.cols = nil
			c.see("index: expression %s", e)
		default:
			for _, i := range x.cols {
				switch k := r.cols[i]; {
				case c.chance(4):
					x.suffix[i] = " DESC"
				case c.chance(5):
					x.suffix[i] = " NULLS FIRST"
				case c.chance(4) && k.t.name == "text":
					x.suffix[i], x.conOps[i] = " text_pattern_ops", " text_pattern_ops"
				case c.chance(3) && !part && (k.t.name == "text" || k.t.name == "varchar"):
					x.suffix[i], x.conOps[i] = ` COLLATE "C"`, ` COLLATE "C"`
				}
				if x.suffix[i] != "" {
					c.see("index: column with%s", x.suffix[i])
				}
			}
			if c.chance(4) {
				include(x)
			}
		}
		if c.chance(3) {
			i := c.r.Intn(len(r.cols))
			k := q(r.cols[i].name)
			x.where = k + " IS NOT NULL"
			if r.cols[i].gen > 0 {
				x.where = q(r.cols[0].name) + " IS NOT NULL"
			} else if t := r.cols[i].t; strings.HasPrefix(t.sql, "int") && t.key {
				x.where = []string{k + " > 0", k + " <> 1 OR " + k + " IS NULL"}[c.r.Intn(2)]
			} else if t.name == "text" || t.name == "varchar" {
				x.where = []string{k + "::text <> ')'''", k + " ~~ '%a%' OR " + k + " IS NULL", "length(" + k + "::text) = 1"}[c.r.Intn(3)]
			}
			c.see("index: partial")
		}
		r.idx = append(r.idx, x)
	}
}

// arbiter is the index as ON CONFLICT names it.
func (r *cRel) arbiter(x *cIdx) string {
	if x.con != "" {
		return " ON CONSTRAINT " + q(x.name)
	}
	s := ""
	for i, k := range x.cols {
		if i > 0 {
			s += ", "
		}
		s += q(r.cols[k].name) + x.conOps[k]
	}
	if x.expr != "" {
		s = "(" + x.expr + ")"
	}
	s = " (" + s + ")"
	if x.where != "" {
		s += " WHERE " + x.where
	}
	return s
}

func (c *cCat) create(r *cRel) {
	var defs []string
	var dropped []string
	dead := func() {
		if c.chance(3) {
			n := fmt.Sprintf("dead%d", len(dropped))
			dropped = append(dropped, n)
			defs = append(defs, n+" "+[]string{"int", "text NOT NULL", "bool[]", "int UNIQUE"}[c.r.Intn(map[bool]int{true: 3, false: 4}[r.kind == "partitioned"])])
			c.see("column: dropped")
		}
	}
	var late []string
	ty := func(k *cCol) string { return strings.ReplaceAll(k.t.sql, "MOOD", c.schema+".mood") }
	mk := func(k *cCol) string {
		s := q(k.name) + " " + ty(k)
		if k.def != "" {
			s += " DEFAULT " + k.def + "::" + ty(k)
		}
		if k.gen > 0 {
			s += " GENERATED ALWAYS AS (" + q(r.cols[k.gen-1].name) + ") STORED"
		} else if k.ident != "" {
			s += " GENERATED " + k.ident + " AS IDENTITY"
			k.notNull = true
		}
		if k.notNull {
			s += " NOT NULL"
		}
		return s
	}
	for i, k := range r.cols {
		dead()
		if i > 1 && c.chance(6) && len(late) == 0 {
			late = append(late, mk(k))
			for _, k := range r.cols[i+1:] {
				late = append(late, mk(k))
			}
			c.see("column: added later")
			break
		}
		defs = append(defs, mk(k))
	}
	s := "CREATE TABLE " + r.q() + " (" + strings.Join(defs, ", ") + ")"
	if r.kind == "partitioned" {
		s += " PARTITION BY HASH (" + q(r.cols[0].name) + ")"
	}
	c.ddl = append(c.ddl, s)
	for i := 0; i < 2 && r.kind == "partitioned"; i++ {
		c.ddl = append(c.ddl, fmt.Sprintf("CREATE TABLE %s.%s PARTITION OF %s FOR VALUES WITH (MODULUS 2, REMAINDER %d)", c.schema, q(fmt.Sprintf("%s_p%d", r.name, i)), r.q(), i))
	}
	for _, d := range late {
		c.ddl = append(c.ddl, "ALTER TABLE "+r.q()+" ADD COLUMN "+d)
	}
	for _, d := range dropped {
		c.ddl = append(c.ddl, "ALTER TABLE "+r.q()+" DROP COLUMN "+d)
	}
	for _, x := range r.idx {
		var cs, inc []string
		for _, i := range x.cols {
			cs = append(cs, q(r.cols[i].name)+x.suffix[i])
		}
		if x.expr != "" {
			cs = []string{"(" + x.expr + ")"}
		}
		for _, i := range x.include {
			inc = append(inc, q(r.cols[i].name))
		}
		tail := ""
		if len(inc) > 0 {
			tail = " INCLUDE (" + strings.Join(inc, ", ") + ")"
		}
		if x.con != "" {
			if x.deferred {
				tail += " DEFERRABLE"
			}
			c.ddl = append(c.ddl, fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s %s (%s)%s", r.q(), q(x.name), x.con, strings.Join(cs, ", "), tail))
			continue
		}
		u := ""
		if x.unique {
			u = "UNIQUE "
		}
		if x.where != "" {
			tail += " WHERE " + x.where
		}
		c.ddl = append(c.ddl, fmt.Sprintf("CREATE %sINDEX %s ON %s (%s)%s", u, q(x.name), r.q(), strings.Join(cs, ", "), tail))
	}
}

// row draws values for the columns that can be written; the others are left out (nil map entry).
func (c *cCat) row(r *cRel) []val {
	vs := make([]val, len(r.cols))
	for i, k := range r.cols {
		vs[i] = k.t.vals[c.r.Intn(len(k.t.vals))]
		if k.null() && c.chance(4) {
			vs[i] = null
		}
	}
	for i, k := range r.cols {
		if k.gen > 0 {
			vs[i] = vs[k.gen-1]
		}
	}
	return vs
}

// lits is a literal INSERT's column and value lists: all columns, or those of the record that are not read-only.
func (r *cRel) lits(vs []val, all bool) (cols, vals []string) {
	for i, k := range r.cols {
		if k.gen > 0 || !all && (k.field == "" || k.ro) {
			continue
		}
		cols, vals = append(cols, q(k.name)), append(vals, vs[i].s)
	}
	return
}

func (r *cRel) goRec(vs []val) string {
	var s []string
	for i, k := range r.cols {
		if k.field != "" {
			s = append(s, k.field+": "+k.inGo(vs[i]))
		}
	}
	return "{" + strings.Join(s, ", ") + "}"
}

func (r *cRel) record(c *cCat) string {
	s := "type " + r.rec + " struct {\n"
	for _, i := range c.r.Perm(len(r.cols)) {
		k := r.cols[i]
		if k.field == "" {
			continue
		}
		t, o := k.t.g, ""
		if k.ptr {
			t = "*" + t
		}
		if k.ro {
			o = ",ro"
		}
		s += fmt.Sprintf("\t%s %s `sql:\"%s%s\"`\n", k.field, t, k.name, o)
	}
	return s + "}\n\n"
}

// primary is the primary key.
func (r *cRel) primary() *cIdx {
	for _, x := range r.idx {
		if x.con == "PRIMARY KEY" {
			return x
		}
	}
	return nil
}

// cOp is a call of generated code and its twin in SQL.
type cOp struct {
	name, what, decl, call, oracle string
	want                           string // Go expression for the records read
	bad                            string // why the tool has to refuse
}

func (r *cRel) same(vs []val, cols []int) string {
	var s []string
	for _, i := range cols {
		s = append(s, fmt.Sprintf("%s = %s", q(r.cols[i].name), vs[i].s))
	}
	return strings.Join(s, " AND ")
}

func (c *cCat) ops(r *cRel, k int) (ops []cOp) {
	n := 0
	add := func(kind, what, fields, call, oracle, want, bad string) {
		n++
		name := fmt.Sprintf("%sK%dN%d", kind, k, n)
		ops = append(ops, cOp{name: name, what: kind + " " + what, decl: "type " + name + " struct {\n" + fields + "}\n\n", call: call, oracle: oracle, want: want, bad: bad})
	}
	ptr := []string{"", "*"}[c.r.Intn(2)]
	amp := strings.Replace(ptr, "*", "&", 1)
	rel := fmt.Sprintf("\tRel %s%s `rel:\"%s\"`\n", ptr, r.rec, r.rel)
	if c.chance(3) {
		rel = fmt.Sprintf("\tRel %s%s `rel:\"%s:t\"`\n", ptr, r.rec, r.rel)
	}
	rels := fmt.Sprintf("\tRel []*%s `rel:\"%s\"`\n", r.rec, r.rel)
	var want []string
	for _, v := range r.all() {
		want = append(want, "&"+r.rec+r.goRec(v))
	}
	add("Select", r.kind, rels, "q.Exec(c)", "", "[]*"+r.rec+"{"+strings.Join(want, ", ")+"}", "")
	if r.kind == "materialized view" {
		return ops
	}
	insert := func(v []val, tail string) string {
		cs, vs := r.lits(v, false)
		if len(cs) == 0 {
			return "INSERT INTO " + r.q() + " DEFAULT VALUES" + tail
		}
		return fmt.Sprintf("INSERT INTO %s (%s) VALUES (%s)%s", r.q(), strings.Join(cs, ", "), strings.Join(vs, ", "), tail)
	}
	set := func(v []val) string { return "q.Rel = " + amp + r.rec + r.goRec(v) + "\nerr := q.Exec(c)" }
	wcols, _ := r.lits(c.row(r), false)
	if len(wcols) == 0 {
		return ops
	}
	for i := 0; i < 2; i++ {
		v := c.row(r)
		add("Insert", r.kind, rel, set(v), insert(v, ""), "", "")
	}
	// rows near an existing one
	near := func() []val {
		v := c.row(r)
		if len(r.rows) == 0 || c.chance(4) {
			return v
		}
		o := r.rows[c.r.Intn(len(r.rows))]
		for i := range v {
			if !c.chance(3) {
				v[i] = o[i]
			}
		}
		for i, k := range r.cols {
			if k.gen > 0 {
				v[i] = v[k.gen-1]
			}
		}
		return v
	}
	conflict := func(x *cIdx, target, arb, what string) {
		v := near()
		act, sql := "\t\t_ gosql.Ignore\n", " DO NOTHING"
		if c.chance(3) == false {
			var up []string
			upd := "*"
			for _, n := range wcols {
				up = append(up, n)
			}
			if c.chance(2) {
				c.r.Shuffle(len(up), func(i, j int) { up[i], up[j] = up[j], up[i] })
				up = up[:1+c.r.Intn(len(up))]
				upd = strings.ReplaceAll(strings.Join(up, ","), `"`, "")
			}
			for i, n := range up {
				up[i] = n + " = EXCLUDED." + n
			}
			act, sql = "\t\t_ gosql.Update `sql:\""+upd+"\"`\n", " DO UPDATE SET "+strings.Join(up, ", ")
		}
		bad := ""
		if arb == "" {
			bad = what
		}
		add("Insert", "on conflict with "+what, rel+"\tOnConflict struct {\n\t\t"+target+"\n"+act+"\t}\n", set(v), insert(v, " ON CONFLICT"+arb+sql), "", bad)
	}
	list := func(cols []int) string {
		var s []string
		for _, i := range cols {
			s = append(s, r.cols[i].name)
		}
		c.r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
		return "_ gosql.Column `sql:\"" + strings.Join(s, ",") + "\"`"
	}
	setOf := func(cols []int) string {
		s := append([]int(nil), cols...)
		sort.Ints(s)
		return fmt.Sprint(s)
	}
	uniq := map[string]bool{}
	for _, x := range r.idx {
		if x.unique && x.expr == "" {
			uniq[setOf(x.cols)] = true
		}
	}
	for _, x := range r.idx {
		what := "index"
		if x.con != "" {
			what = strings.ToLower(x.con)
		}
		if x.expr != "" {
			what += " on expression"
		}
		if x.where != "" {
			what = "partial " + what
		}
		if len(x.include) > 0 {
			what = "covering " + what
		}
		switch {
		case !x.unique:
			conflict(x, "_ gosql.Index `sql:\""+x.name+"\"`", "", "an index that is not unique")
			if !uniq[setOf(x.cols)] && x.expr == "" {
				conflict(x, list(x.cols), "", "columns of an index that is not unique")
			}
		case x.deferred:
			conflict(x, "_ gosql.Constraint `sql:\""+x.name+"\"`", "", "deferrable constraint")
			conflict(x, "_ gosql.Index `sql:\""+x.name+"\"`", "", "index of a deferrable constraint")
			conflict(x, list(x.cols), "", "columns of a deferrable constraint")
		default:
			arb := r.arbiter(x)
			if x.con != "" {
				conflict(x, "_ gosql.Constraint `sql:\""+x.name+"\"`", arb, what+" by constraint name")
			} else if c.chance(3) {
				conflict(x, "_ gosql.Constraint `sql:\""+x.name+"\"`", "", "constraint that is just an index")
			}
			conflict(x, "_ gosql.Index `sql:\""+x.name+"\"`", arb, what+" by index name")
			if x.expr == "" {
				conflict(x, list(x.cols), arb, what+" by columns")
				if with := append(append([]int(nil), x.cols...), x.include...); len(x.include) > 0 && !uniq[setOf(with)] {
					conflict(x, list(with), "", "columns including those that are merely included")
				}
				if len(x.cols) > 1 && !uniq[setOf(x.cols[1:])] && !uniq[setOf(x.cols[:1])] {
					conflict(x, list(x.cols[1:]), "", "some of the columns of an index")
				}
			}
		}
	}
	if len(r.idx) == 0 || c.chance(3) {
		conflict(nil, "_ gosql.Index `sql:\"no_such\"`", "", "unknown index")
	}
	// several records at once
	if c.chance(2) {
		var recs, sql []string
		for j := 1 + c.r.Intn(3); j > 0; j-- {
			v := c.row(r)
			recs = append(recs, r.goRec(v))
			cs, vs := r.lits(v, false)
			sql = append(sql, fmt.Sprintf("INSERT INTO %s (%s) VALUES (%s)", r.q(), strings.Join(cs, ", "), strings.Join(vs, ", ")))
		}
		add("Insert", "several", rels, "q.Rel = []*"+r.rec+"{"+strings.Join(recs, ", ")+"}\nerr := q.Exec(c)", strings.Join(sql, ";\n"), "", "")
	}
	// a join of any two relations
	for _, s := range c.rels {
		if c.r.Intn(len(c.rels)) > 0 {
			continue
		}
		for _, i := range c.r.Perm(len(r.cols)) {
			var on []int
			for j, k := range s.cols {
				if k.t.sql == r.cols[i].t.sql && k.t.key {
					on = append(on, j)
				}
			}
			if len(on) == 0 {
				continue
			}
			j := on[c.r.Intn(len(on))]
			var want []string
			for _, a := range r.all() {
				for _, b := range s.all() {
					if a[i].s == b[j].s && a[i].s != "NULL" {
						want = append(want, "&"+r.rec+r.goRec(a))
					}
				}
			}
			name := s.schema + "." + s.name
			if c.chance(2) {
				name = s.name
			}
			add("Select", "joined", fmt.Sprintf("\tRel []*%s `rel:\"%s:a\"`\n\tJoin struct {\n\t\t_ gosql.InnerJoin `sql:\"%s:b,b.%s = a.%s\"`\n\t}\n", r.rec, r.rel, name, s.cols[j].name, r.cols[i].name),
				"q.Exec(c)", "", "[]*"+r.rec+"{"+strings.Join(want, ", ")+"}", "")
			break
		}
	}
	// updates by primary key
	pk := r.primary()
	if r.kind == "view" {
		pk = nil
	}
	var sets func(v []val) []string
	sets = func(v []val) (s []string) {
		for i, k := range r.cols {
			in := false
			if pk != nil {
				for _, j := range pk.cols {
					in = in || i == j
				}
			}
			if !in && k.field != "" && !k.ro {
				s = append(s, q(k.name)+" = "+v[i].s)
			}
		}
		return
	}
	switch {
	case pk == nil:
		if len(sets(c.row(r))) > 0 {
			add("Update", "by key without one", rel, set(c.row(r)), "", "", "update by key of a relation without one")
		}
	case len(sets(c.row(r))) > 0:
		for i := 0; i < 2; i++ {
			v := near()
			add("Update", "by key", rel, set(v), fmt.Sprintf("UPDATE %s SET %s WHERE %s", r.q(), strings.Join(sets(v), ", "), r.same(v, pk.cols)), "", "")
		}
	}
	if pk != nil && len(sets(c.row(r))) > 0 && len(r.rows) > 0 && c.chance(2) {
		var recs, sql []string
		seen := map[string]bool{}
		for j := 1 + c.r.Intn(3); j > 0; j-- {
			v := near()
			w := r.same(v, pk.cols)
			if seen[w] {
				continue // which of two it is would be open
			}
			seen[w] = true
			recs = append(recs, r.goRec(v))
			sql = append(sql, fmt.Sprintf("UPDATE %s SET %s WHERE %s", r.q(), strings.Join(sets(v), ", "), w))
		}
		add("Update", "several by key", rels, "q.Rel = []*"+r.rec+"{"+strings.Join(recs, ", ")+"}\nerr := q.Exec(c)", strings.Join(sql, ";\n"), "", "")
	}
	// deletes by any columns
	if cols := c.cols(r, 1+c.r.Intn(3), false); len(cols) > 0 {
		v := near()
		s, call := "", ""
		var conds []string
		for j, i := range cols {
			if v[i].s == "NULL" {
				v[i] = r.cols[i].t.vals[0]
			}
			s += fmt.Sprintf("\t\tC%d %s `sql:\"%s\"`\n", j, r.cols[i].t.g, r.cols[i].name)
			call += fmt.Sprintf("q.Where.C%d = %s\n", j, v[i].g)
			conds = append(conds, fmt.Sprintf("%s = %s", q(r.cols[i].name), v[i].s))
		}
		add("Delete", r.kind, fmt.Sprintf("\tRel %s `rel:\"%s\"`\n\tWhere struct {\n%s\t}\n", r.rec, r.rel, s), call+"err := q.Exec(c)", "DELETE FROM "+r.q()+" WHERE "+strings.Join(conds, " AND "), "", "")
	}
	// columns that the database fills
	for _, k := range r.cols {
		if !(k.gen > 0 || k.ident == "ALWAYS") || r.kind == "child" || r.kind == "view" {
			continue
		}
		g := strings.TrimPrefix(k.t.g, "*")
		rt := fmt.Sprintf("W%dx%d", c.n, len(ops))
		c.n++
		c.extra += fmt.Sprintf("type %s struct {\n\tA %s `sql:\"%s\"`\n}\n\n", rt, g, k.name)
		f := fmt.Sprintf("\tRel %s `rel:\"%s\"`\n", rt, r.rel)
		add("Insert", "of a generated column", f, "", "", "", "a column that is always generated is written")
		if k.ident != "" {
			x := k.t.vals[2]
			add("Insert", "overriding", f+"\t_ gosql.Override `sql:\"system\"`\n", "q.Rel.A = "+x.g+"\nerr := q.Exec(c)", fmt.Sprintf("INSERT INTO %s (%s) OVERRIDING SYSTEM VALUE VALUES (%s)", r.q(), q(k.name), x.s), "", "")
		}
		break
	}
	// refusals
	if c.chance(2) {
		bad := []string{"dead0", "ctid", "tableoid", r.name + "_", "xmin"}[c.r.Intn(5)]
		add("Delete", "unknown column", fmt.Sprintf("\tRel %s `rel:\"%s\"`\n\tWhere struct {\n\t\tA string `sql:\"%s\"`\n\t}\n", r.rec, r.rel, bad), "", "", "", "unknown column "+bad)
	}
	return ops
}

// all is what a SELECT from the relation returns.
func (r *cRel) all() [][]val {
	out := append([][]val(nil), r.rows...)
	for _, k := range r.children {
		for _, v := range k.rows {
			out = append(out, v[:len(r.cols)])
		}
	}
	return out
}

func drawCatalog(seed int64, schema string) *cCat {
	c := &cCat{r: rand.New(rand.NewSource(seed)), schema: schema, used: map[string]bool{}, seen: map[string]int{}}
	c.path = schema + "," + schema + "b,public"
	c.ddl = append(c.ddl, "CREATE SCHEMA "+schema, "CREATE SCHEMA "+schema+"b", "CREATE TYPE "+schema+".mood AS ENUM ('sad', 'It''s', 'glad')", "CREATE TYPE "+schema+"b.mood AS ENUM ('other')")
	kinds := []string{"table", "table", "partitioned", "table", "parent"}
	for i, n := 0, 3+c.r.Intn(3); i < n; i++ {
		k := kinds[c.r.Intn(len(kinds))]
		r := c.table(k)
		c.rels = append(c.rels, r)
		c.create(r)
		c.see("relation: %s", k)
		if k == "parent" {
			ch := &cRel{schema: c.schema, name: c.pick(relNames, c.used), kind: "child", parent: r, rec: ""}
			for _, k := range r.cols {
				d := *k
				d.ident = ""
				if k.ident != "" {
					d.notNull, d.ro = true, false
				}
				ch.cols = append(ch.cols, &d)
			}
			ch.cols = append(ch.cols, &cCol{name: "extra_", t: catTypes[1], ptr: true, field: "Extra"})
			r.children = append(r.children, ch)
			c.ddl = append(c.ddl, fmt.Sprintf("CREATE TABLE %s (extra_ int4) INHERITS (%s)", ch.q(), r.q()))
			c.rels = append(c.rels, ch)
			c.see("relation: child")
		}
	}
	for _, base := range append([]*cRel(nil), c.rels...) {
		if base.kind == "parent" || c.r.Intn(3) > 0 {
			continue
		}
		kind := []string{"view", "materialized view"}[c.r.Intn(2)]
		v := &cRel{schema: c.schema, name: c.pick(relNames, c.used), kind: kind, parent: base}
		c.rels = append(c.rels, v)
		c.see("relation: %s", kind)
	}
	// tables of the same names behind the others
	for _, r := range c.rels {
		if c.chance(3) {
			c.ddl = append(c.ddl, fmt.Sprintf("CREATE TABLE %sb.%s (decoy text PRIMARY KEY)", c.schema, q(r.name)))
			c.see("relation: name in two schemas")
		}
	}
	return c
}

const catMain = `package main

import (
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/lib/pq"
	"gx.test/q"
)

var db *sql.DB

type out struct{ Name, Got, Want string }

func code(err error) string {
	var e *pq.Error
	if errors.As(err, &e) {
		return string(e.Code) + " " + e.Message
	}
	if err != nil {
		return err.Error()
	}
	return ""
}

func in(f func(*sql.Tx) error) (state string) {
	tx, err := db.Begin()
	if err != nil {
		return "begin: " + err.Error()
	}
	defer tx.Rollback()
	var schema = os.Getenv("GX_SCHEMA")
	if _, err := tx.Exec("SELECT setval(c.oid::regclass, 1000) FROM pg_class c WHERE relkind = 'S' AND relnamespace = $1::regnamespace", schema); err != nil {
		return "setval: " + err.Error()
	}
	tx.Exec("SAVEPOINT s")
	if err := func() (err error) {
		defer func() {
			if x := recover(); x != nil {
				err = fmt.Errorf("panic: %v", x)
			}
		}()
		return f(tx)
	}(); err != nil {
		return "error " + code(err)
	}
	var names []string
	rows, err := tx.Query("SELECT oid::regclass::text FROM pg_class WHERE relkind IN ('r', 'p') AND relnamespace IN ($1::regnamespace, ($1 || 'b')::regnamespace) ORDER BY 1", schema)
	if err != nil {
		return "names: " + err.Error()
	}
	for rows.Next() {
		var s string
		rows.Scan(&s)
		names = append(names, s)
	}
	rows.Close()
	for _, n := range names {
		var s sql.NullString
		if err := tx.QueryRow("SELECT string_agg(t::text, '|' ORDER BY t::text) FROM ONLY " + n + " t").Scan(&s); err != nil {
			return "dump: " + err.Error()
		}
		state += n + ": " + s.String + "\n"
	}
	return state
}

func op(name, oracle string, f func(tx *sql.Tx) error) {
	got := in(f)
	want := in(func(tx *sql.Tx) error { _, err := tx.Exec(oracle); return err })
	json.NewEncoder(os.Stdout).Encode(out{name, got, want})
}

func recs(v interface{}) string {
	var s []string
	x := reflect.ValueOf(v)
	for i := 0; i < x.Len(); i++ {
		b, _ := json.Marshal(x.Index(i).Interface())
		s = append(s, strings.ReplaceAll(string(b), ":\"\"", ":null")) // NULL and empty are one for []byte
	}
	sort.Strings(s)
	return fmt.Sprint(len(s), s)
}

func sel(name string, f func(tx *sql.Tx) (interface{}, error), want interface{}) {
	var got string
	in(func(tx *sql.Tx) error {
		v, err := f(tx)
		got = "error " + code(err)
		if err == nil {
			got = recs(v)
		}
		return nil
	})
	json.NewEncoder(os.Stdout).Encode(out{name, got, recs(want)})
}

func main() {
	var err error
	if db, err = sql.Open("postgres", os.Getenv("GX_DSN")); err != nil {
		panic(err)
	}
	db.SetMaxOpenConns(1)
	q.Run(op, sel)
}
`

// state is all that a run of the tool could change in the database.
func (e *Env) state(schema string) (s string) {
	e.DB.QueryRow(`SELECT string_agg(x, E'\n' ORDER BY x) FROM (
		SELECT c.oid || ' ' || c.relname || ' ' || c.relkind::text || ' ' || c.relfilenode || ' ' || COALESCE(c.relacl::text, '') AS x FROM pg_class c WHERE relnamespace = $1::regnamespace
		UNION ALL SELECT 'attr ' || string_agg(a.attrelid || a.attname || a.attnum, ',' ORDER BY a.attrelid, a.attnum) FROM pg_attribute a JOIN pg_class c ON c.oid = a.attrelid AND relnamespace = $1::regnamespace
		UNION ALL SELECT 'seq ' || sequencename || ' ' || COALESCE(last_value, 0) FROM pg_sequences WHERE schemaname = $1
		UNION ALL SELECT 'types ' || count(*) FROM pg_type
		UNION ALL SELECT 'procs ' || count(*) FROM pg_proc
		UNION ALL SELECT 'schemas ' || string_agg(nspname, ',' ORDER BY nspname) FROM pg_namespace WHERE nspname NOT LIKE 'k%' AND nspname NOT LIKE 'pg_t%'
	) x`, schema).Scan(&s)
	return s
}

// Catalogs is the monitor.
func Catalogs(run *vh.Run) {
	e, err := NewEnv(false)
	if err != nil {
		vh.Fatal("%v", err)
	}
	n := run.N(24, 600)
	if x := os.Getenv("GXN"); x != "" {
		fmt.Sscan(x, &n)
	}
	var mu sync.Mutex
	Parallel(n, 8, func(i, w int) {
		catalog(run, e, &mu, run.Seed*10000+int64(i), fmt.Sprintf("k%d", i))
	})
	run.Count("tool runs", e.CLIRuns)
	run.Count("builds of generated code", e.Builds)
}

func catalog(run *vh.Run, e *Env, mu *sync.Mutex, seed int64, schema string) {
	c := drawCatalog(seed, schema)
	defer func() {
		// everything goes away, so that the catalog stays small
		mu.Lock()
		defer mu.Unlock()
		e.DB.Exec("DROP SCHEMA " + schema + "b CASCADE")
		e.DB.Exec("DROP SCHEMA " + schema + " CASCADE")
	}()
	for _, s := range c.ddl {
		if _, err := e.DB.Exec(s); err != nil {
			vh.Fatal("catalog: %v: %s", err, s)
		}
	}
	fill := func(r *cRel) {
		for n := 3 + c.r.Intn(4); n > 0; n-- {
			v := c.row(r)
			cs, vs := r.lits(v, true)
			if _, err := e.DB.Exec(fmt.Sprintf("INSERT INTO %s (%s) OVERRIDING SYSTEM VALUE VALUES (%s)", r.q(), strings.Join(cs, ", "), strings.Join(vs, ", "))); err == nil {
				r.rows = append(r.rows, v)
			} else if !strings.Contains(err.Error(), "duplicate key") {
				vh.Fatal("catalog: %v", err)
			}
		}
	}
	for _, r := range c.rels {
		if r.kind != "view" && r.kind != "materialized view" {
			fill(r)
		}
	}
	for i, r := range c.rels {
		if r.kind == "view" || r.kind == "materialized view" {
			var cols []string
			var idx []int
			for _, j := range c.r.Perm(len(r.parent.cols)) {
				k := *r.parent.cols[j]
				if len(idx) > 1 && c.chance(4) {
					continue
				}
				s := q(k.name)
				if c.chance(3) {
					k.name = fmt.Sprintf("%s_%d", k.name, j)
					s += " AS " + q(k.name)
				}
				k.ro = k.ro || k.gen > 0
				k.ptr = !k.notNull && (k.t.g == "[]byte" || !strings.HasPrefix(k.t.g, "[]")) // a view's column can always be NULL
				if k.ident != "" {
					k.ptr = false
				}
				k.field = fmt.Sprintf("V%d", j)
				cols, idx = append(cols, s), append(idx, j)
				r.cols = append(r.cols, &k)
			}
			for _, v := range r.parent.all() {
				var row []val
				for _, j := range idx {
					row = append(row, v[j])
				}
				r.rows = append(r.rows, row)
			}
			if _, err := e.DB.Exec("CREATE " + strings.ToUpper(r.kind) + " " + r.q() + " AS SELECT " + strings.Join(cols, ", ") + " FROM " + r.parent.q()); err != nil {
				vh.Fatal("catalog: %v", err)
			}
			for j, k := range r.cols { // the values are those of the columns themselves
				k.gen = 0
				_ = j
			}
		}
		r.rec = fmt.Sprintf("Rec%d", i)
		r.rel = c.schema + "." + r.name
		if c.chance(2) {
			r.rel = r.name
		}
	}
	dir, err := e.NewModule("")
	if err != nil {
		vh.Fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	head := "package %s\n\nimport \"github.com/frk/gosql\"\n\nvar _ gosql.Conn\n\n"
	files := map[string]string{"d/main.go": catMain}
	var good, bad []cOp
	recs := map[string]*cRel{}
	runs, body := "", ""
	for i, r := range c.rels {
		rec := r.record(c)
		src := fmt.Sprintf(head, "q") + rec
		for _, o := range c.ops(r, i) {
			recs[o.name] = r
			if o.bad != "" {
				bad = append(bad, o)
				continue
			}
			good = append(good, o)
			src += o.decl
			if o.want != "" {
				runs += fmt.Sprintf("\tsel(%q, func(c *sql.Tx) (interface{}, error) {\n\t\tq := &%s{}\n\t\terr := %s\n\t\treturn q.Rel, err\n\t}, %s)\n", o.name, o.name, o.call, o.want)
			} else {
				runs += fmt.Sprintf("\top(%q, %q, func(c *sql.Tx) error {\n\t\tq := &%s{}\n\t\t%s\n\t\treturn err\n\t})\n", o.name, o.oracle, o.name, o.call)
			}
		}
		files[fmt.Sprintf("q/r%d.go", i)] = src
		body += rec
	}
	files["q/extra.go"] = "package q\n\n" + c.extra
	body += c.extra
	runs = "package q\n\nimport (\n\t\"database/sql\"\n\n\t\"gx.test/rt\"\n)\n\nvar _ = rt.P[int]\n\nfunc Run(op func(name, oracle string, f func(c *sql.Tx) error), sel func(name string, f func(c *sql.Tx) (interface{}, error), want interface{})) {\n" + runs + "}\n"
	dsn := e.DSN() + " search_path=" + c.path
	if err := WriteFiles(dir, files); err != nil {
		vh.Fatal("%v", err)
	}
	detail := func(o cOp) map[string]interface{} {
		r := recs[o.name]
		d := map[string]interface{}{"ddl": strings.Join(c.ddl, ";\n"), "seed": fmt.Sprint(seed)}
		if r != nil {
			i := strings.Index(body, "type "+r.rec+" ")
			d["declaration"] = body[i:i+strings.Index(body[i:], "\n}")+2] + "\n" + o.decl + "\n" + o.call + "\n" + o.oracle
			d["ddl"] = ""
			for _, s := range c.ddl {
				if strings.Contains(s, r.q()) || r.parent != nil && strings.Contains(s, r.parent.q()) {
					d["ddl"] = d["ddl"].(string) + s + ";\n"
				}
			}
		}
		return d
	}
	before := e.state(schema)
	for len(good) > 0 {
		res := e.Run(dir, nil, "-db", dsn, "-wd", filepath.Join(dir, "q"))
		if res.Code == 0 && !res.Panic {
			break
		}
		// the one that is named is judged and taken out
		hit := -1
		for i, o := range good {
			if strings.Contains(res.Out, o.name+".") || strings.Contains(res.Out, o.name+"\n") || strings.Contains(res.Out, o.name+" ") || strings.Contains(res.Out, o.name+"\"") {
				hit = i
			}
		}
		if hit < 0 {
			viol(run, "refused", "the tool refuses valid declarations: "+clip(res.Out, 400), map[string]interface{}{"seed": fmt.Sprint(seed), "declaration": body})
			return
		}
		o := good[hit]
		viol(run, "refused:"+o.what, "the tool refuses a valid declaration ("+o.what+"): "+clip(res.Out, 400), detail(o))
		return
	}
	WriteFiles(dir, map[string]string{"q/zz_run.go": runs})
	if out, err := e.Go(dir, "build", "-o", "driver", "./d"); err != nil {
		viol(run, "compile", "the generated code does not compile: "+clip(out, 400), map[string]interface{}{"seed": fmt.Sprint(seed), "declaration": body})
		return
	}
	// invalid ones, each in a package of its own
	for i, o := range bad {
		p := fmt.Sprintf("bad%d", i)
		WriteFiles(dir, map[string]string{p + "/f.go": fmt.Sprintf(head, p) + body + o.decl})
		res := e.Run(dir, nil, "-db", dsn, "-wd", filepath.Join(dir, p))
		run.Eval("refusal: " + o.bad)
		run.Seen("refusal", o.bad)
		switch _, err := os.Stat(filepath.Join(dir, p, "f_gosql.go")); {
		case res.Panic:
			viol(run, "panic:"+o.bad, "the tool panics: "+clip(res.Out, 400), detail(o))
		case res.Code == 0:
			viol(run, "accepted:"+o.bad, "the tool accepts an invalid declaration: "+o.bad, detail(o))
		case err == nil:
			viol(run, "written:"+o.bad, "the tool refuses a declaration, yet writes its code", detail(o))
		}
	}
	if after := e.state(schema); after != before {
		viol(run, "database changed", "runs of the tool changed the database: "+lineDiff(after, before), map[string]interface{}{"seed": fmt.Sprint(seed), "declaration": body})
	}
	cmd := exec.Command(filepath.Join(dir, "driver"))
	cmd.Env = append(os.Environ(), "GX_DSN="+dsn, "GX_SCHEMA="+schema)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	if err != nil {
		vh.Fatal("catalog driver: %v %s", err, clip(se.String(), 500))
	}
	by := map[string]cOp{}
	for _, o := range good {
		by[o.name] = o
	}
	d := json.NewDecoder(&so)
	for {
		var o struct{ Name, Got, Want string }
		if d.Decode(&o) != nil {
			break
		}
		op := by[o.Name]
		res := "changed or read"
		if strings.HasPrefix(o.Want, "error") {
			res = "refused by the server"
			// the texts of the server may point into the statements
			if x, y := strings.Fields(o.Got), strings.Fields(o.Want); len(x) > 1 && len(y) > 1 && x[1] == y[1] && strings.HasPrefix(o.Got, "error") {
				o.Got = o.Want
			}
		}
		run.Eval(op.what + ": " + res)
		run.Seen("operation", op.what+": "+res)
		if o.Got != o.Want {
			viol(run, "effect:"+op.what, op.what+": "+lineDiff(o.Got, o.Want), detail(op))
		}
		delete(by, o.Name)
	}
	for n := range by {
		viol(run, "lost", "no answer from "+n, nil)
	}
	for k, x := range c.seen {
		for ; x > 0; x-- {
			run.Seen("catalog", k)
		}
	}
}

func viol(run *vh.Run, key, msg string, detail interface{}) { run.Violate(key, detail, "%s", msg) }
