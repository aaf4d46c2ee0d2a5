package gx

import (
	"fmt"
	"math/rand"
	"strings"
)

// Gen draws targets.
type Gen struct {
	R    *rand.Rand
	n    int
	Recs []*Rec
	Ts   []*Target
	// knobs
	Imported bool
	Classes  map[string]int
}

// NewGen seeds a generator.
func NewGen(seed int64) *Gen {
	return &Gen{R: rand.New(rand.NewSource(seed)), Classes: map[string]int{}}
}

func (g *Gen) id() int { g.n++; return g.n }

func (g *Gen) p(percent int) bool { return g.R.Intn(100) < percent }

func pick[T any](g *Gen, l []T) T { return l[g.R.Intn(len(l))] }

func (g *Gen) class(s string) { g.Classes[s]++ }

func camel(s string) string {
	var b strings.Builder
	up := true
	for _, r := range s {
		if r == '_' {
			up = true
			continue
		}
		if up {
			b.WriteString(strings.ToUpper(string(r)))
		} else {
			b.WriteRune(r)
		}
		up = false
	}
	return b.String()
}

// RecOpts shapes a record type.
type RecOpts struct {
	Cols       []*Col // exactly these columns, or nil: a random subset
	Must       []*Col
	Not        []*Col
	Modes      bool // draw field modes
	Defaults   bool // draw the default option
	Outer      bool // outer joined: any column may be NULL
	Coalesce   bool
	Nested     bool
	NotNilable bool
	After      bool
	Min        int
	Write      bool // the record is written
}

// Rec draws a record type for a table.
func (g *Gen) Rec(t *Table, o RecOpts) *Rec {
	n := g.id()
	r := &Rec{Name: fmt.Sprintf("Rec%d", n), Imported: g.Imported && g.p(35)}
	cols := o.Cols
	if cols == nil {
		must := map[string]bool{}
		for _, c := range o.Must {
			must[c.Name] = true
		}
		not := map[string]bool{}
		for _, c := range o.Not {
			not[c.Name] = true
		}
		k := 1 + g.R.Intn(len(t.Cols))
		for _, i := range g.R.Perm(len(t.Cols)) {
			c := t.Cols[i]
			if must[c.Name] || (!not[c.Name] && len(cols) < k+o.Min) {
				cols = append(cols, c)
			}
		}
		for _, c := range o.Must {
			have := false
			for _, d := range cols {
				have = have || c == d
			}
			if !have {
				cols = append(cols, c)
			}
		}
	}
	var nodes [][]Node
	if o.Nested && g.p(60) {
		n, deep := 1+g.R.Intn(3), false
		if len(cols) > 2 && g.p(15) {
			n, deep = 5+g.R.Intn(4), true
		}
		for i := 0; i < n; i++ {
			var parent []Node
			if len(nodes) > 0 && g.p(50) {
				parent = pick(g, nodes)
			}
			name := fmt.Sprintf("%sN%d", r.Name, i)
			if deep && len(nodes) > 0 {
				parent = nodes[len(nodes)-1-g.R.Intn(1+len(nodes)/4)]
			}
			nd := Node{Name: fmt.Sprintf("Nest%d", i), Type: name, Ptr: g.p(45), Embed: g.p(30)}
			if nd.Embed {
				nd.Name = name
			}
			nodes = append(nodes, append(append([]Node{}, parent...), nd))
		}
	}
	for _, c := range cols {
		f := &Field{Name: camel(c.Name), Col: c, GT: pick(g, goTypes(c.Kind))}
		if !g.p(50) { // favour the plain forms a little
			f.GT = goTypes(c.Kind)[0]
		}
		if o.Write && c.Kind == "float8" && !c.NN {
			f.GT = goTypes(c.Kind)[1] // see known_findings.txt: NULLIF($1, 0) of double precision
		}
		if t.View || o.Outer {
			// the nullability of a view's columns is unknown: NULL is only safe in fields that can hold it
			var safe []GT
			for _, gt := range goTypes(c.Kind) {
				if gt.Ptr || gt.Conv {
					safe = append(safe, gt)
				}
			}
			if len(safe) == 0 {
				continue
			}
			f.GT = pick(g, safe)
		}
		if len(nodes) > 0 && g.p(60) {
			f.Path = pick(g, nodes)
			if i := strings.Index(c.Name, "_"); i > 0 && g.p(50) && !f.Path[len(f.Path)-1].Embed {
				// a prefixed struct of its own
				p := append([]Node{}, f.Path...)
				p = append(p, Node{Name: camel(c.Name) + "Px", Prefix: c.Name[:i+1], Type: fmt.Sprintf("%sP%s", r.Name, camel(c.Name)), Ptr: g.p(30)})
				f.Path = p
			}
		}
		if o.Modes && !c.PK {
			if m := g.mode(55); m != nil {
				f.Opts = append(f.Opts, m.opts...)
				f.NoSel, f.NoIns, f.NoUpd = m.noSel, m.noIns, m.noUpd
			}
		}
		if o.Defaults && c.Def != "" && g.p(15) {
			f.Opts, f.Default = append(f.Opts, "default"), true
		}
		if o.Coalesce && !f.GT.Conv && g.p(20) {
			f.Coalesce = true
			if v := coalesceLit(g, c, f.GT); v != nil && g.p(60) {
				f.CoalesceVal, f.CoalesceV = v.S, *v
				f.Opts = append(f.Opts, "coalesce("+v.S+")")
				if c.Kind == "text" {
					f.Opts[len(f.Opts)-1] = "coalesce('" + v.S + "')"
				}
			} else {
				f.Opts = append(f.Opts, "coalesce")
			}
		}
		r.Fields = append(r.Fields, f)
	}
	if o.Modes {
		// options of a struct hold for everything in it
		for _, nd := range nodes {
			pk := false
			var sub []*Field
			for _, f := range r.Fields {
				if len(f.Path) >= len(nd) && pathName(f.Path[:len(nd)]) == pathName(nd) {
					sub = append(sub, f)
					pk = pk || f.Col.PK
				}
			}
			if m := g.mode(20); m != nil && !pk {
				for _, f := range sub {
					f.Path = append([]Node{}, f.Path...)
					f.Path[len(nd)-1].Opts = m.opts
					f.NoSel, f.NoIns, f.NoUpd = f.NoSel || m.noSel, f.NoIns || m.noIns, f.NoUpd || m.noUpd
				}
			}
		}
	}
	// names of one level say nothing about those of another
	if g.p(30) {
		for _, f := range r.Fields {
			if len(f.Path) > 0 && g.p(40) {
				f.Name = pick(g, r.Fields).Name
			}
		}
	}
	// one selector per leaf
	seen := map[string]bool{}
	for _, f := range r.Fields {
		for seen[f.sel()] || clash(r.Fields, f) {
			f.Name += "X"
		}
		seen[f.sel()] = true
	}
	if o.After && g.p(30) {
		r.AfterScan = true
	}
	if g.p(25) {
		r.Extra = "\tPlain int\n\tSkipped string `sql:\"-\"`\n\t_ int\n"
	}
	g.Recs = append(g.Recs, r)
	return r
}

type fmode struct {
	opts                []string
	noSel, noIns, noUpd bool
}

// mode draws a set of field options.
func (g *Gen) mode(pct int) *fmode {
	if !g.p(pct) {
		return nil
	}
	ms := []fmode{
		{[]string{"ro"}, false, true, true}, {[]string{"wo"}, true, false, false}, {[]string{"-i"}, false, true, false},
		{[]string{"-u"}, false, false, true}, {[]string{"-s"}, true, false, false}, {[]string{"-w"}, false, true, true},
		{[]string{"-rw"}, true, true, true}, {[]string{"-iu"}, false, true, true}, {[]string{"-w", "+i"}, false, false, true},
		{[]string{"ro", "+u"}, false, true, false}, {[]string{"-sw"}, true, true, true}, {[]string{"-r", "+s"}, false, false, false},
		{[]string{"+rw"}, false, false, false}, {[]string{"xf"}, false, false, false}, {[]string{"-f"}, false, false, false},
		{[]string{"wo", "-i"}, true, true, false}, {[]string{"-r", "-u"}, true, false, true}, {[]string{"-rw", "+su"}, false, true, false},
	}
	if g.p(50) {
		ms = ms[:6]
	}
	m := pick(g, ms)
	return &m
}

func pathName(p []Node) string {
	s := ""
	for _, n := range p {
		s += n.Name + "."
	}
	return s
}

func clash(fs []*Field, f *Field) bool {
	for _, x := range fs {
		if len(x.Path) > len(f.Path) && x.Path[len(f.Path)].Name == f.Name {
			return true
		}
	}
	return false
}

func coalesceLit(g *Gen, c *Col, t GT) *V {
	switch c.Kind {
	case "int2", "int4", "int8":
		return &V{S: pick(g, []string{"11", "42"})}
	case "text":
		return &V{S: pick(g, []string{"dflt", "no name"})}
	case "float8":
		return &V{S: "2.5"}
	case "bool":
		return &V{S: "true"}
	}
	return nil
}

// RecVals draws values for a record.
func (g *Gen) RecVals(r *Rec) map[string]V {
	m := map[string]V{}
	for _, f := range r.Fields {
		v := genV(g.R, f.Col.Kind, f.GT)
		if f.Col.NN {
			for i := 0; v.Null && i < 20; i++ {
				v = genV(g.R, f.Col.Kind, f.GT)
			}
		}
		if f.Col.Type == "varchar(20)" && len(v.S) > 20 {
			v.S = "long"
		}
		m[f.sel()] = v
	}
	return m
}

// Scope is a relation visible to conditions.
type Scope struct {
	Qual string
	T    *Table
}

func (g *Gen) ident(sc []Scope, ok func(*Col) bool) (Ident, bool) {
	for i := 0; i < 30; i++ {
		s := pick(g, sc)
		c := pick(g, s.T.Cols)
		if ok(c) {
			return Ident{s.Qual, c}, true
		}
	}
	return Ident{}, false
}

func scalarKind(k string) bool {
	switch k {
	case "texts", "ints", "jsonb", "bytea":
		return false
	}
	return true
}

var cmpOps = []string{"=", "<>", "!=", "<", ">", "<=", ">="}

func spell(g *Gen, op string) string {
	if g.p(15) {
		return strings.ToUpper(op)
	}
	return op
}

// Conds draws the items of a where struct.
func (g *Gen) Conds(sc []Scope, depth, n int, joined bool) []*Cond {
	var out []*Cond
	for len(out) < n {
		c := g.cond(sc, depth, joined)
		if c == nil {
			continue
		}
		c.Or = len(out) > 0 && g.p(40)
		out = append(out, c)
	}
	return out
}

func (g *Gen) fname() string {
	return fmt.Sprintf("F%d", g.id())
}

// litFor is a literal the tool types like the kind.
func litFor(g *Gen, kind string) (string, bool) {
	switch kind {
	case "int4", "int2", "int8":
		return pick(g, []string{"2", "5", "31", "7"}), true
	case "text":
		return pick(g, []string{"'a'", "'Ann'", "'c1'", "'O''B'"}), true
	case "float8":
		return pick(g, []string{"1.5::float8", "0::float8"}), true
	case "tstz":
		return "now()", true
	}
	return "", false
}

func (g *Gen) cond(sc []Scope, depth int, joined bool) *Cond {
	if depth > 0 && g.p(18) {
		g.class("group")
		return &Cond{Name: g.fname(), Group: g.Conds(sc, depth-1, 1+g.R.Intn(4), joined)}
	}
	switch x := g.R.Intn(100); {
	case x < 12: // unary directive
		if g.p(50) {
			id, ok := g.ident(sc, func(c *Col) bool { return c.Kind == "bool" })
			if !ok {
				return nil
			}
			g.class("bool-unary")
			return &Cond{Name: "_", Col: id, Op: spell(g, pick(g, []string{"", "istrue", "nottrue", "isfalse", "notfalse", "isunknown", "notunknown"}))}
		}
		id, ok := g.ident(sc, func(c *Col) bool { return !c.NN })
		if !ok {
			return nil
		}
		g.class("null-unary")
		return &Cond{Name: "_", Col: id, Op: spell(g, pick(g, []string{"isnull", "notnull"}))}
	case x < 22: // column directive with a right-hand side
		id, ok := g.ident(sc, func(c *Col) bool {
			return scalarKind(c.Kind) && c.Kind != "bool" && c.Kind != "uuid" && c.Kind != "date"
		})
		if !ok {
			return nil
		}
		op := pick(g, append(append([]string{}, cmpOps...), "isdistinct", "notdistinct"))
		if g.p(50) {
			rid, ok := g.ident(sc, func(c *Col) bool { return c.Kind == id.Col.Kind })
			if !ok {
				return nil
			}
			g.class("col-col")
			return &Cond{Name: "_", Col: id, Op: op, RHS: &rid}
		}
		l, ok := litFor(g, id.Col.Kind)
		if !ok {
			return nil
		}
		g.class("col-lit")
		return &Cond{Name: "_", Col: id, Op: op, Lit: l}
	case x < 34: // between
		id, ok := g.ident(sc, func(c *Col) bool {
			return c.Kind == "int4" || c.Kind == "int8" || c.Kind == "text" || c.Kind == "tstz" || c.Kind == "float8"
		})
		if !ok {
			return nil
		}
		op := spell(g, pick(g, []string{"isbetween", "notbetween", "isbetweensym", "notbetweensym", "isbetweenasym", "notbetweenasym"}))
		bd := func(n string) *Bound {
			b := &Bound{Name: n, Words: g.p(30)}
			if g.p(20) {
				rid, ok := g.ident(sc, func(c *Col) bool { return c.Kind == id.Col.Kind })
				if ok {
					b.RHS = &rid
					return b
				}
			}
			b.GT = g.whereType(id.Col)
			return b
		}
		g.class("between")
		return &Cond{Name: g.fname(), Col: id, Op: op, Lo: bd("A"), Hi: bd("B")}
	}
	id, ok := g.ident(sc, func(c *Col) bool { return scalarKind(c.Kind) })
	if !ok {
		return nil
	}
	c := &Cond{Name: g.fname(), Col: id, GT: g.whereType(id.Col)}
	k := id.Col.Kind
	switch x := g.R.Intn(100); {
	case x < 18 && k != "bool" && k != "uuid" && k != "date":
		c.Op = spell(g, pick(g, []string{"isin", "notin"}))
		c.GT = plain(k)
		g.class("in")
	case x < 34 && (k == "int4" || k == "text" || k == "int8" || k == "float8"):
		c.Op = pick(g, cmpOps)
		c.Qua = spell(g, pick(g, []string{"any", "some", "all"}))
		c.GT = plain(k)
		g.class("quantified")
	case k == "text" && x < 60:
		c.Op = spell(g, pick(g, []string{"~", "~*", "!~", "!~*", "islike", "notlike", "isilike", "notilike", "issimilar", "notsimilar"}))
		g.class("pattern")
	case x < 68:
		c.Op = spell(g, pick(g, []string{"isdistinct", "notdistinct"}))
		g.class("distinct")
	default:
		c.Op = pick(g, append([]string{""}, cmpOps...))
		if k == "bool" {
			c.Op = pick(g, []string{"", "=", "<>"})
		}
		g.class("cmp")
	}
	if k == "text" && c.Qua == "" && !strings.HasSuffix(strings.ToLower(c.Op), "in") && g.p(20) {
		c.Func = pick(g, []string{"lower", "upper"})
		c.GT = plain(k)
		g.class("func")
	}
	return c
}

func plain(kind string) GT { return goTypes(kind)[0] }

func (g *Gen) whereType(c *Col) GT {
	if g.p(60) {
		return plain(c.Kind)
	}
	return pick(g, goTypes(c.Kind))
}

// condVals draws the values of a where struct.
func (g *Gen) condVals(cs []*Cond, path string, k *Case) {
	for _, c := range cs {
		switch {
		case c.Group != nil:
			g.condVals(c.Group, path+"."+c.Name, k)
		case c.Lo != nil:
			for _, b := range []*Bound{c.Lo, c.Hi} {
				if b.RHS == nil {
					k.Where[path+"."+c.Name+"."+b.Name] = genV(g.R, c.Col.Col.Kind, b.GT)
				}
			}
		case c.Name == "_":
		case c.list():
			n := 1 + g.R.Intn(4)
			if c.Qua != "" {
				n = g.R.Intn(5)
			}
			l := []V{}
			for i := 0; i < n; i++ {
				v := genV(g.R, c.Col.Col.Kind, c.GT)
				l = append(l, v)
			}
			k.Lists[path+"."+c.Name] = l
		default:
			v := genV(g.R, c.Col.Col.Kind, c.GT)
			if c.Col.Col.Kind == "uuid" && !v.Null && v.S == "" {
				v.S = domain("uuid")[0]
			}
			k.Where[path+"."+c.Name] = v
		}
	}
}

func newCase() *Case { return &Case{Where: map[string]V{}, Lists: map[string][]V{}} }

// joinable lists (left column, right table, right column) links of the schema.
var links = []struct {
	l  *Table
	lc string
	r  *Table
	rc string
}{
	{tUser, "id", tPost, "user_id"}, {tPost, "id", tTag, "post_id"}, {tPost, "user_id", tUser, "id"}, {tTag, "post_id", tPost, "id"},
	{tUser, "id", tPair, "a"}, {tPair, "a", tUser, "id"}, {tItem, "qty", tUser, "id"}, {tUser, "id", tItem, "id"}, {tItem, "id", tPost, "id"}, {tPair, "a", tItem, "id"},
}

// joins extends the scope by up to n joins; the left column of a condition belongs to the joined relation.
func (g *Gen) joins(sc []Scope, n int, types []string) ([]*Join, []Scope) {
	var out []*Join
	for i := 0; i < n; i++ {
		var cand []int
		var from []Scope
		for li, l := range links {
			for _, s := range sc {
				if s.T == l.l {
					cand = append(cand, li)
					from = append(from, s)
				}
			}
		}
		if len(cand) == 0 {
			break
		}
		ci := g.R.Intn(len(cand))
		l, s := links[cand[ci]], from[ci]
		j := &Join{Type: pick(g, types), Table: l.r, Alias: fmt.Sprintf("j%d", g.id())}
		if j.Type != "Cross" {
			j.Conds = []*Cond{{Name: "_", Col: Ident{j.Alias, l.r.Col(l.rc)}, Op: "=", RHS: &Ident{s.Qual, l.l.Col(l.lc)}}}
			for g.p(35) {
				c := pick(g, l.r.Cols)
				x := &Cond{Name: "_", Col: Ident{j.Alias, c}, Or: g.p(40)}
				switch {
				case c.Kind == "bool":
					x.Op = pick(g, []string{"istrue", "notfalse", "isunknown", "nottrue"})
				case !c.NN:
					x.Op = pick(g, []string{"isnull", "notnull"})
				default:
					lit, ok := litFor(g, c.Kind)
					if !ok || strings.Contains(lit, "::") {
						continue
					}
					x.Op, x.Lit = pick(g, cmpOps), lit
				}
				if j.Type == "Full" { // needs merge- or hash-joinable conditions
					break
				}
				j.Conds = append(j.Conds, x)
			}
		}
		out = append(out, j)
		sc = append(sc, Scope{j.Alias, j.Table})
	}
	return out, sc
}

func (g *Gen) alias() string { return fmt.Sprintf("a%d", g.id()) }

// Select draws a SELECT target.
func (g *Gen) Select(cases int) *Target {
	t := &Target{Kind: "Select", Name: fmt.Sprintf("Select%dQuery", g.id()), Table: pick(g, Tables), RelName: "Rel"}
	if g.p(60) {
		t.Alias = g.alias()
	}
	t.Form = pick(g, []string{"one", "ptr", "slice", "slice", "ptrslice", "ptrslice", "ptrslice", "iterf", "iterfv", "iteri", "count", "exists", "notexists"})
	g.class("select-" + t.Form)
	agg := t.Form == "count" || t.Form == "exists" || t.Form == "notexists"
	sc := []Scope{{t.Alias, t.Table}}
	if g.p(30) && !t.Table.View {
		if t.Alias == "" {
			t.Alias = g.alias()
			sc[0].Qual = t.Alias
		}
		t.JoinKind = "Join"
		t.Joins, sc = g.joins(sc, 1+g.R.Intn(2), []string{"Left", "Right", "Inner", "Full", "Cross", "Left", "Inner"})
		if len(t.Joins) == 0 {
			t.JoinKind = ""
		} else {
			g.class("join")
		}
	}
	if t.Alias == "" && g.p(30) {
		sc[0].Qual = t.Table.Name // qualified by the relation's name
	}
	switch x := g.R.Intn(100); {
	case x < 65:
		t.HasWhere = true
		t.Where = g.Conds(sc, 3, 1+g.R.Intn(5), len(sc) > 1)
	case x < 80:
		t.Filter = true
		g.class("filter")
	}
	if !agg {
		outer := false
		for _, j := range t.Joins {
			outer = outer || j.Type == "Right" || j.Type == "Full"
		}
		t.Rec = g.Rec(t.Table, RecOpts{Outer: outer, Modes: g.p(30), Coalesce: g.p(40), Nested: true, After: t.Form != "iterf" && t.Form != "iteri" && t.Form != "iterfv"})
		if t.Form == "iterf" || t.Form == "iteri" || t.Form == "iterfv" {
			t.Rec.AfterScan = g.p(30)
		}
		for len(t.reads()) == 0 {
			t.Rec = g.Rec(t.Table, RecOpts{Outer: outer, Nested: true})
		}
		if g.p(45) {
			for i := 0; i < g.R.Intn(3); i++ {
				id, ok := g.ident(sc, func(c *Col) bool { return scalarKind(c.Kind) })
				if ok {
					t.OrderBy = append(t.OrderBy, OrderItem{Col: id, Desc: g.p(50), Nulls: pick(g, []string{"", "", "nullsfirst", "nullslast"})})
				}
			}
			for _, s := range sc {
				key := s.T.PK()
				if s.T.View {
					key = []*Col{s.T.Col("id")}
				}
				for _, c := range key {
					t.OrderBy = append(t.OrderBy, OrderItem{Col: Ident{s.Qual, c}, Desc: g.p(50)})
				}
			}
			g.class("orderby")
		}
		if g.p(40) {
			t.Limit = &LimOff{Field: g.p(60), Src: pick(g, []string{"int", "int64", "uint", "int32"}), Def: g.R.Intn(4)}
			if !t.Limit.Field {
				t.Limit.Def++
			}
			g.class("limit")
		}
		if g.p(30) {
			t.Offset = &LimOff{Field: g.p(60), Src: pick(g, []string{"int", "int64", "uint"}), Def: g.R.Intn(3)}
			if !t.Offset.Field {
				t.Offset.Def++
			}
			g.class("offset")
		}
	}
	g.misc(t)
	for i := 0; i < cases; i++ {
		k := newCase()
		g.condVals(t.Where, ".Where", k)
		k.Limit, k.Offset = g.R.Intn(5), g.R.Intn(4)
		if t.Filter {
			k.Filt = g.filt(sc[0], !agg)
		}
		t.Cases = append(t.Cases, k)
	}
	g.Ts = append(g.Ts, t)
	return t
}

func (g *Gen) misc(t *Target) {
	if g.p(15) {
		t.ErrH = pick(g, []string{"Error", "Info"})
		g.class("errh")
	}
	if g.p(15) {
		t.CtxField = true
		g.class("ctx")
	}
	if g.p(10) {
		t.Extra = append(t.Extra, "Other string", "hidden int")
	}
}

// filt draws a static filter value.
func (g *Gen) filt(s Scope, tail bool) *FiltVal {
	f := &FiltVal{}
	n := g.R.Intn(4)
	for i := 0; i < n; i++ {
		id, ok := g.ident([]Scope{s}, func(c *Col) bool {
			return c.Kind == "int4" || c.Kind == "text" || c.Kind == "int8" || c.Kind == "tstz"
		})
		if !ok {
			break
		}
		v := genV(g.R, id.Col.Kind, plain(id.Col.Kind))
		if i > 0 {
			f.Where += pick(g, []string{" AND ", " OR "})
		}
		f.Where += sid(id) + pick(g, []string{" = ", " <> ", " > ", " <= "}) + "{" + fmt.Sprint(i) + "}"
		f.Go = append(f.Go, goLit(plain(id.Col.Kind), v))
		f.SQL = append(f.SQL, sqlLit(id.Col.Kind, v))
		f.Kinds = append(f.Kinds, id.Col.Kind)
	}
	return f
}

// keyed: the columns that make up the primary key.
func required(t *Table) (out []*Col) {
	for _, c := range t.Cols {
		if c.NN && c.Def == "" && c.Gen == "" {
			out = append(out, c)
		}
	}
	return
}

func mutable() []*Table { return []*Table{tUser, tPost, tTag, tPair, tItem} }

var conflicts = map[*Table][]Conflict{
	tUser: {{Target: "Column", Val: "id", Cols: []string{"id"}}, {Target: "Column", Val: "email", Cols: []string{"email"}}, {Target: "Index", Val: "t_user_email_idx", Cols: []string{"email"}},
		{Target: "Index", Val: "t_user_lower_idx", Cols: []string{"lower(email)"}}, {Target: "Index", Val: "t_user_lower_idx", Cols: []string{"lower(email)"}},
		{Target: "Index", Val: "t_user_pkey", Cols: []string{"id"}}, {Target: "Constraint", Val: "t_user_pkey", Cols: []string{"id"}}},
	tPost: {{Target: "Column", Val: "id", Cols: []string{"id"}}, {Target: "Constraint", Val: "t_post_pkey", Cols: []string{"id"}}},
	tTag:  {{Target: "Column", Val: "id", Cols: []string{"id"}}},
	tPair: {{Target: "Column", Val: "a,b", Cols: []string{"a", "b"}}, {Target: "Column", Val: "b,a", Cols: []string{"a", "b"}}, {Target: "Index", Val: "t_pair_pkey", Cols: []string{"a", "b"}}, {Target: "Index", Val: "t_pair_expr_idx", Cols: []string{"(a + 100)", "b COLLATE \"C\"", "(b || '-')"}}, {Target: "Constraint", Val: "t_pair_pkey", Cols: []string{"a", "b"}}},
	tItem: {{Target: "Column", Val: "sku,vendor", Cols: []string{"sku", "vendor"}}, {Target: "Constraint", Val: "t_item_sku_vendor_key", Cols: []string{"sku", "vendor"}},
		{Target: "Index", Val: "t_item_slot_idx", Cols: []string{"slot"}}, {Target: "Index", Val: "t_item_part_idx", Cols: []string{"upper(sku)", "vendor"}, Where: "live AND qty >= 0"}, {Target: "Column", Val: "slot", Cols: []string{"slot"}}},
}

// Insert draws an INSERT target.
func (g *Gen) Insert(cases int) *Target {
	t := &Target{Kind: "Insert", Name: fmt.Sprintf("Insert%dQuery", g.id()), Table: pick(g, mutable()), RelName: "Rel"}
	if g.p(10) {
		t.Table = tIdent
	}
	if g.p(50) {
		t.Alias = g.alias()
	}
	t.Form = pick(g, []string{"one", "ptr", "slice", "ptrslice", "ptrslice"})
	g.class("insert-" + t.Form)
	req := required(t.Table)
	o := RecOpts{Write: true, Must: req, Modes: g.p(40), Defaults: g.p(50), Nested: true, Coalesce: g.p(20), After: true}
	if t.Table == tIdent {
		if g.p(60) {
			t.Override = pick(g, []string{"system", "user"})
			o.Must = append(o.Must, tIdent.Col("id"))
		} else {
			o.Not = []*Col{tIdent.Col("id")}
		}
		g.class("identity")
	} else if g.p(10) {
		t.Override = pick(g, []string{"system", "user"})
	}
	t.Rec = g.Rec(t.Table, o)
	for _, f := range t.Rec.Fields { // required columns are written
		for _, c := range req {
			if f.Col == c && f.NoIns {
				t.Force = append(t.Force, c.Name)
			}
		}
	}
	if g.p(25) {
		f := pick(g, t.Rec.Fields)
		if !contains(t.Force, f.Col.Name) {
			t.Force = append(t.Force, f.Col.Name)
		}
		g.class("force")
	} else if g.p(5) {
		t.Force = []string{"*"}
	}
	if g.p(20) {
		for _, f := range t.Rec.Fields {
			if f.Col.Def != "" && g.p(50) {
				t.Default = append(t.Default, f.Col.Name)
			}
		}
		if len(t.Default) > 0 {
			g.class("default-directive")
		}
	}
	if len(t.writes()) == 0 {
		return g.Insert(cases)
	}
	slice := !single(t.Form)
	if g.p(45) && t.Table != tIdent {
		c := pick(g, conflicts[t.Table])
		if g.p(30) {
			for _, x := range conflicts[t.Table] {
				if strings.Contains(x.Cols[0], "(") {
					c = x
					g.class("conflict-expression")
				}
			}
		}
		if g.p(30) {
			c.Ignore = true
			if g.p(30) {
				c = Conflict{Ignore: true}
			}
		} else if g.p(50) {
			c.Update = []string{"*"}
		} else {
			for _, f := range t.writes() {
				if g.p(50) {
					c.Update = append(c.Update, f.Col.Name)
				}
			}
			if len(c.Update) == 0 {
				c.Update = []string{t.writes()[0].Col.Name}
			}
		}
		t.Conflict = &c
		g.class("conflict")
	}
	g.output(t, slice, t.Conflict != nil && t.Conflict.Ignore)
	g.misc(t)
	for i := 0; i < cases; i++ {
		k := newCase()
		n := 1
		if slice {
			n = 1 + g.R.Intn(4)
		}
		for j := 0; j < n; j++ {
			v := g.RecVals(t.Rec)
			g.keyVals(t, v, j, i)
			k.Recs = append(k.Recs, v)
		}
		t.Cases = append(t.Cases, k)
	}
	g.Ts = append(g.Ts, t)
	return t
}

// keyVals mostly keeps unique columns distinct within a case, and sometimes collides with existing rows.
func (g *Gen) keyVals(t *Target, v map[string]V, j, i int) {
	collide := t.Conflict != nil && g.p(60) || g.p(8)
	if t.Kind == "Update" && strings.Contains(t.Form, "slice") {
		// one statement updates the rows in an unspecified order, whether it
		// runs into another row's old value depends on it
		collide = false
	}
	for _, f := range t.Rec.Fields {
		uniq := f.Col.PK || f.Col.Name == "email" || f.Col.Name == "sku" || f.Col.Name == "slot"
		if !uniq {
			continue
		}
		x := V{}
		switch f.Col.Kind {
		case "int4":
			x.S = fmt.Sprint(50 + 7*i + j)
			if collide {
				x.S = fmt.Sprint(1 + j)
			}
			if f.Col.Name == "slot" {
				x.S = fmt.Sprint(500 + j)
				if collide {
					x.S = fmt.Sprint(10 * (1 + j))
				}
			}
		default:
			x.S = fmt.Sprintf("u%d_%d", i, j)
			if collide {
				l := []string{"ann@x.io", "bob@x.io", "cyd@x.io", "dan@y.io"}
				if f.Col.Name == "sku" {
					l = []string{"k1", "k2", "K3", "k4"}
				}
				if f.Col.Name == "b" {
					l = []string{"x", "x", "", "q"}
				}
				x.S = l[j%len(l)]
			}
		}
		if c := t.Conflict; c != nil && strings.Contains(strings.Join(c.Cols, ""), "er("+f.Col.Name+")") && g.p(60) {
			x.S = strings.ToUpper(x.S) // equal under the index's expression only
		}
		if f.GT.Kind == "wrap" && x.S == "" {
			x.S = "q"
		}
		v[f.sel()] = x
	}
}

// output adds RETURNING, a Result field, or RowsAffected.
func (g *Gen) output(t *Target, slice, mayMiss bool) {
	switch x := g.R.Intn(100); {
	case x < 30 && t.Rec != nil && !(mayMiss && slice):
		var cols []string
		for _, f := range t.Rec.Fields {
			if g.p(50) {
				n := f.Col.Name
				if t.Alias != "" && g.p(50) {
					n = t.Alias + "." + n
				}
				cols = append(cols, n)
			}
		}
		if len(cols) == 0 || g.p(35) {
			cols = []string{"*"}
		}
		t.Return = cols
		if len(t.reads()) == 0 {
			t.Return = nil
			return
		}
		g.class("return")
	case x < 55:
		r := g.Rec(t.Table, RecOpts{Nested: true, Coalesce: g.p(30), After: true})
		t.Result = r
		forms := []string{"slice", "ptrslice", "iterf", "iteri", "iterfv"}
		if !slice {
			forms = append(forms, "one", "ptr", "one", "ptr")
		}
		t.ResForm = pick(g, forms)
		g.class("result-" + t.ResForm)
	case x < 75:
		t.RowsAff = pick(g, []string{"int", "int64", "int32", "uint"})
		g.class("rowsaffected")
	}
}

// Update draws an UPDATE target.
func (g *Gen) Update(cases int) *Target {
	t := &Target{Kind: "Update", Name: fmt.Sprintf("Update%dQuery", g.id()), Table: pick(g, mutable()), RelName: "Rel"}
	if g.p(60) {
		t.Alias = g.alias()
	}
	t.Form = pick(g, []string{"one", "ptr", "ptr", "slice", "ptrslice"})
	slice := !single(t.Form)
	sc := []Scope{{t.Alias, t.Table}}
	byKey := slice || g.p(35)
	o := RecOpts{Write: true, Modes: g.p(40), Defaults: g.p(40), Nested: true, Coalesce: g.p(20), After: true, Min: 1}
	if byKey {
		o.Must = t.Table.PK()
		g.class("update-key")
		if g.p(25) {
			// rows found by key, FROM relations that only have to be there
			if t.Alias == "" {
				t.Alias = g.alias()
				sc[0].Qual = t.Alias
			}
			for _, i := range g.R.Perm(len(links)) {
				if l := links[i]; l.r != t.Table {
					t.JoinKind, t.JoinRel, t.JoinRelA = "From", l.r, g.alias()
					if g.p(60) {
						t.Joins, _ = g.joins([]Scope{{t.JoinRelA, l.r}}, 1, []string{"Left", "Inner", "Cross"})
					}
					g.class("update-key-from")
					if slice {
						g.class("update-slice-from")
					}
					break
				}
			}
		}
	} else {
		o.Not = t.Table.PK()
		if g.p(35) {
			if t.Alias == "" {
				t.Alias = g.alias()
				sc[0].Qual = t.Alias
			}
			// FROM rel [JOIN ...]
			for _, l := range links {
				if l.l == t.Table && g.p(60) {
					t.JoinKind, t.JoinRel, t.JoinRelA = "From", l.r, g.alias()
					from := []Scope{{t.JoinRelA, l.r}}
					if g.p(40) {
						var js []*Join
						js, from = g.joins(from, 1, []string{"Left", "Inner", "Cross"})
						t.Joins = js
					}
					sc = append(sc, from...)
					t.HasWhere = true
					t.Where = []*Cond{{Name: "_", Col: Ident{t.Alias, l.l.Col(l.lc)}, Op: "=", RHS: &Ident{t.JoinRelA, l.r.Col(l.rc)}}}
					for _, c := range g.Conds(sc, 2, g.R.Intn(3), true) {
						c.Or = false
						t.Where = append(t.Where, c)
					}
					g.class("update-from")
					break
				}
			}
		}
		if t.JoinKind == "" {
			switch x := g.R.Intn(100); {
			case x < 60:
				t.HasWhere = true
				t.Where = g.Conds(sc, 2, 1+g.R.Intn(4), false)
			case x < 80:
				t.Filter = true
				g.class("update-filter")
			default:
				t.All = true
				g.class("update-all")
			}
		}
	}
	t.Rec = g.Rec(t.Table, o)
	if byKey {
		// modes on key fields: the key is then only used to find the row
		for _, f := range t.Rec.Fields {
			if f.Col.PK && g.p(70) {
				f.Opts, f.NoIns, f.NoUpd = append(f.Opts, "ro"), true, true
			}
		}
	}
	if g.p(20) {
		f := pick(g, t.Rec.Fields)
		if !f.Col.PK {
			t.Force = append(t.Force, f.Col.Name)
			g.class("force")
		}
	}
	if g.p(20) {
		for _, f := range t.Rec.Fields {
			if f.Col.Def != "" && g.p(50) && !f.Col.PK {
				t.Default = append(t.Default, f.Col.Name)
			}
		}
	}
	if byKey {
		for _, f := range t.Rec.Fields { // a default key would move the row
			if f.Col.PK && f.Default {
				f.Default = false
				f.Opts = remove(f.Opts, "default")
			}
		}
	}
	if len(t.writes()) == 0 {
		return g.Update(cases)
	}
	g.class("update-" + t.Form)
	g.output(t, slice || !byKey, true)
	g.misc(t)
	for i := 0; i < cases; i++ {
		k := newCase()
		n := 1
		if slice {
			n = 1 + g.R.Intn(3)
		}
		rows := g.R.Perm(4)
		for j := 0; j < n; j++ {
			v := g.RecVals(t.Rec)
			g.keyVals(t, v, j, i)
			for _, f := range t.Rec.Fields {
				if f.Col.PK {
					v[f.sel()] = V{S: existing(t.Table, f.Col, rows[j])}
					if f.GT.Kind == "wrap" && v[f.sel()].S == "" {
						v[f.sel()] = V{Null: true}
					}
				}
			}
			k.Recs = append(k.Recs, v)
		}
		g.condVals(t.Where, ".Where", k)
		if t.Filter {
			k.Filt = g.filt(sc[0], false)
		}
		t.Cases = append(t.Cases, k)
	}
	g.Ts = append(g.Ts, t)
	return t
}

func remove(l []string, s string) (out []string) {
	for _, x := range l {
		if x != s {
			out = append(out, x)
		}
	}
	return
}

// existing is the key column's value in the i-th seeded row.
func existing(t *Table, c *Col, i int) string {
	if t == tPair {
		return [][2]string{{"1", "x"}, {"1", "y"}, {"2", "x"}, {"3", ""}}[i][map[string]int{"a": 0, "b": 1}[c.Name]]
	}
	return fmt.Sprint(i + 1)
}

// Delete draws a DELETE target.
func (g *Gen) Delete(cases int) *Target {
	t := &Target{Kind: "Delete", Name: fmt.Sprintf("Delete%dQuery", g.id()), Table: pick(g, mutable()), RelName: "Rel", Form: "blank"}
	if g.p(60) {
		t.Alias = g.alias()
	}
	sc := []Scope{{t.Alias, t.Table}}
	if g.p(30) {
		if t.Alias == "" {
			t.Alias = g.alias()
			sc[0].Qual = t.Alias
		}
		for _, l := range links {
			if l.l == t.Table && g.p(60) {
				t.JoinKind, t.JoinRel, t.JoinRelA = "Using", l.r, g.alias()
				from := []Scope{{t.JoinRelA, l.r}}
				if g.p(40) {
					t.Joins, from = g.joins(from, 1, []string{"Left", "Inner", "Cross"})
				}
				sc = append(sc, from...)
				t.HasWhere = true
				t.Where = []*Cond{{Name: "_", Col: Ident{t.Alias, l.l.Col(l.lc)}, Op: "=", RHS: &Ident{t.JoinRelA, l.r.Col(l.rc)}}}
				for _, c := range g.Conds(sc, 2, g.R.Intn(3), true) {
					c.Or = false
					t.Where = append(t.Where, c)
				}
				g.class("delete-using")
				break
			}
		}
	}
	if t.JoinKind == "" {
		switch x := g.R.Intn(100); {
		case x < 65:
			t.HasWhere = true
			t.Where = g.Conds(sc, 2, 1+g.R.Intn(4), false)
		case x < 85:
			t.Filter = true
			g.class("delete-filter")
		default:
			t.All = true
			g.class("delete-all")
		}
	}
	if g.p(50) {
		t.Rec = g.Rec(t.Table, RecOpts{Nested: true, Coalesce: g.p(30), After: true})
		t.Form = pick(g, []string{"slice", "ptrslice", "ptrslice", "one", "ptr", "iterf", "iteri", "iterfv"})
		t.Return = []string{"*"}
		if g.p(50) {
			t.Return = nil
			for _, f := range t.Rec.Fields {
				if g.p(60) {
					t.Return = append(t.Return, f.Col.Name)
				}
			}
			if len(t.Return) == 0 {
				t.Return = []string{"*"}
			}
		}
		g.class("delete-return")
	} else if g.p(50) {
		g.output(t, true, true)
	}
	g.misc(t)
	for i := 0; i < cases; i++ {
		k := newCase()
		g.condVals(t.Where, ".Where", k)
		if t.Filter {
			k.Filt = g.filt(sc[0], false)
		}
		t.Cases = append(t.Cases, k)
	}
	g.Ts = append(g.Ts, t)
	return t
}
