package gx

import (
	"fmt"
	"sort"
	"strings"
)

// Node is a struct on the way from the record to a leaf field.
type Node struct {
	Name   string // Go field name
	Prefix string
	Ptr    bool
	Embed  bool
	Type   string // name of the nested struct type
	Opts   []string
}

func (n Node) tag() string {
	return strings.Join(append([]string{">" + n.Prefix}, n.Opts...), ",")
}

// Field is a leaf field of a record type.
type Field struct {
	Path []Node
	Name string
	Col  *Col
	GT   GT
	Opts []string
	// consequences of Opts
	NoSel, NoIns, NoUpd bool
	Default             bool
	Coalesce            bool
	CoalesceVal         string // SQL literal, "" for the type's zero
	CoalesceV           V
}

func (f *Field) sel() string {
	s := ""
	for _, n := range f.Path {
		s += n.Name + "."
	}
	return s + f.Name
}

// Rec is a record type.
type Rec struct {
	Name      string
	Imported  bool // lives in package m
	Fields    []*Field
	AfterScan bool
	Extra     string // extra source lines (untagged fields and so on)

	Hook      string            // how AfterScan comes to the record
	Hidden    bool              // an imported record has unexported fields
	Alias     bool              // the record's name is an alias
	TypeAlias map[string]string // field type → alias
}

func (r *Rec) ref() string {
	if r.Imported {
		return "m." + r.Name
	}
	return r.Name
}

func (f *Field) tag(pfx string) string {
	c := strings.TrimPrefix(f.Col.Name, pfx)
	return "`sql:\"" + strings.Join(append([]string{c}, f.Opts...), ",") + "\"`"
}

// Source renders the record and its nested types. pkg "m": types of m are written without qualification.
func (r *Rec) Source() string {
	var types []string
	var render func(name string, depth int, pfx string, fs []*Field) string
	render = func(name string, depth int, pfx string, fs []*Field) string {
		var b strings.Builder
		fmt.Fprintf(&b, "type %s struct {\n", name)
		if depth == 0 {
			field, decl := r.hook()
			b.WriteString(field)
			if decl != "" {
				types = append(types, decl)
			}
		}
		done := map[string]bool{}
		for _, f := range fs {
			if len(f.Path) == depth {
				typ := r.localType(f.GT)
				if a := r.TypeAlias[typ]; a != "" {
					typ = a
				}
				fmt.Fprintf(&b, "\t%s %s %s\n", f.Name, typ, f.tag(pfx))
				continue
			}
			n := f.Path[depth]
			if done[n.Name] {
				continue
			}
			done[n.Name] = true
			var sub []*Field
			for _, g := range fs {
				if len(g.Path) > depth && g.Path[depth].Name == n.Name {
					sub = append(sub, g)
				}
			}
			star := ""
			if n.Ptr {
				star = "*"
			}
			if n.Embed {
				fmt.Fprintf(&b, "\t%s%s `sql:\"%s\"`\n", star, n.Type, n.tag())
			} else {
				fmt.Fprintf(&b, "\t%s %s%s `sql:\"%s\"`\n", n.Name, star, n.Type, n.tag())
			}
			types = append(types, render(n.Type, depth+1, pfx+n.Prefix, sub))
		}
		b.WriteString(r.extraAt(depth))
		if r.Hidden {
			b.WriteString("\thidden int `sql:\"c_nope\"`\n")
			if depth == 0 {
				b.WriteString("\tAnon struct {\n\t\thidden int `sql:\"c_nope\"`\n\t} `sql:\">\" json:\"-\"`\n")
			}
		}
		b.WriteString("}\n")
		return b.String()
	}
	s := render(r.Name, 0, "", r.Fields)
	for _, t := range types {
		s += t
	}
	for _, t := range sortedTypes(r.TypeAlias) {
		s += "type " + r.TypeAlias[t] + " = " + t + "\n"
	}
	if r.Alias {
		s = strings.Replace(s, "type "+r.Name+" struct {", "type "+r.Name+"Impl struct {", 1) + "type " + r.Name + " = " + r.Name + "Impl\n"
	}
	if r.AfterScan && r.Hook == "" {
		s += fmt.Sprintf("func (v *%s) AfterScan() { rt.Logf(\"afterscan %%s\", rt.JSON(v)) }\n", r.Name)
	}
	return s
}

func (r *Rec) extraAt(d int) string {
	if d == 0 {
		return r.Extra
	}
	return ""
}

func (r *Rec) localType(g GT) string {
	s := g.src()
	if r.Imported {
		s = strings.ReplaceAll(s, "m.", "")
	}
	return s
}

// lit writes a record value; vals by field selector.
func (r *Rec) lit(vals map[string]V) string {
	var render func(name string, depth int, fs []*Field) string
	q := ""
	if r.Imported {
		q = "m."
	}
	render = func(name string, depth int, fs []*Field) string {
		var ps []string
		done := map[string]bool{}
		for _, f := range fs {
			if len(f.Path) == depth {
				ps = append(ps, f.Name+": "+goLit(f.GT, vals[f.sel()]))
				continue
			}
			n := f.Path[depth]
			if done[n.Name] {
				continue
			}
			done[n.Name] = true
			var sub []*Field
			for _, g := range fs {
				if len(g.Path) > depth && g.Path[depth].Name == n.Name {
					sub = append(sub, g)
				}
			}
			amp := ""
			if n.Ptr {
				amp = "&"
			}
			ps = append(ps, n.Name+": "+amp+render(n.Type, depth+1, sub))
		}
		return q + name + "{" + strings.Join(ps, ", ") + "}"
	}
	return render(r.Name, 0, r.Fields)
}

// Ident is a column reference in a tag.
type Ident struct {
	Qual string
	Col  *Col
}

func (i Ident) tag() string {
	if i.Qual != "" {
		return i.Qual + "." + i.Col.Name
	}
	return i.Col.Name
}

// Cond is one item of a where struct.
type Cond struct {
	Or    bool
	Name  string // Go field name; "_" for directives
	Group []*Cond
	Col   Ident
	Op    string // predicate as in the tag, "" for the default
	Qua   string // any some all
	Func  string
	GT    GT     // field conditions
	Elem  string // kind of the element for lists
	IsArr bool   // Go array instead of slice
	RHS   *Ident
	Lit   string // literal right-hand side of a directive
	// between
	Lo, Hi *Bound
}

// Bound of a between.
type Bound struct {
	Name  string
	GT    GT
	RHS   *Ident
	Words bool // lower/upper instead of x/y
}

// Join is one join directive.
type Join struct {
	Type  string // Left Right Full Inner Cross
	Table *Table
	Alias string
	Conds []*Cond // Col, Op, RHS|Lit
}

// OrderItem of OrderBy.
type OrderItem struct {
	Col   Ident
	Desc  bool
	Nulls string // "", nullsfirst, nullslast
}

// Target is one target type.
type Target struct {
	Forms    *Forms
	Name     string
	Kind     string // Select Insert Update Delete
	Table    *Table
	Alias    string
	Form     string // one ptr slice ptrslice arr iterf iteri named-iterf count exists notexists blank
	RelName  string
	Rec      *Rec
	Result   *Rec
	ResForm  string
	Return   []string // "*" or columns
	JoinKind string   // Join From Using
	JoinRel  *Table   // the relation directive of From/Using
	JoinRelA string
	Joins    []*Join
	Where    []*Cond
	HasWhere bool
	All      bool
	Filter   bool
	Conflict *Conflict
	OrderBy  []OrderItem
	Limit    *LimOff
	Offset   *LimOff
	Default  []string
	Force    []string
	Optional []string
	Override string
	RowsAff  string
	ErrH     string // "", Error, Info
	CtxField bool
	Extra    []string // further untagged fields
	Cases    []*Case
	Pos      string // file the target was written to
}

// Conflict is an OnConflict struct.
type Conflict struct {
	Target string // Column Index Constraint ""
	Val    string
	Cols   []string // the columns of the target index
	Where  string   // its predicate
	Ignore bool
	Update []string // "*" or columns
}

// LimOff is a limit or offset.
type LimOff struct {
	Field bool
	Src   string // Go type
	Def   int
}

// Case is one valuation of a target.
type Case struct {
	Recs   []map[string]V
	Where  map[string]V
	Lists  map[string][]V
	Limit  int
	Offset int
	Filt   *FiltVal
}

// FiltVal is a static filter: text with the placeholder % for parameters.
type FiltVal struct {
	Where   string // condition with {i} for parameter i
	Go      []string
	SQL     []string
	Kinds   []string
	Tail    string // ORDER BY ... appended after the condition
	NoWhere bool
}

func (t *Target) typeName() string { return t.Name }

func (t *Target) relTag() string {
	s := t.Table.Q()
	if t.Alias != "" {
		s += ":" + t.Alias
	}
	return s
}

func relForm(form string, rec *Rec) string {
	n := ""
	if rec != nil {
		n = rec.ref()
	}
	switch form {
	case "one":
		return n
	case "ptr":
		return "*" + n
	case "slice":
		return "[]" + n
	case "ptrslice":
		return "[]*" + n
	case "iterf":
		return "func(*" + n + ") error"
	case "iterfv":
		return "func(" + n + ") error"
	case "iteri":
		return "interface{ Visit(*" + n + ") error }"
	}
	panic(form)
}

// Source renders the target type.
func (t *Target) Source() string {
	var b strings.Builder
	fmt.Fprintf(&b, "type %s struct {\n", t.Name)
	switch t.Form {
	case "count":
		fmt.Fprintf(&b, "\tCount int `rel:\"%s\"`\n", t.relTag())
	case "exists":
		fmt.Fprintf(&b, "\tExists bool `rel:\"%s\"`\n", t.relTag())
	case "notexists":
		fmt.Fprintf(&b, "\tNotExists bool `rel:\"%s\"`\n", t.relTag())
	case "blank":
		fmt.Fprintf(&b, "\t_ gosql.Relation `rel:\"%s\"`\n", t.relTag())
	default:
		fmt.Fprintf(&b, "\t%s %s `rel:\"%s\"`\n", t.RelName, relForm(t.Form, t.Rec), t.relTag())
	}
	if t.JoinKind != "" {
		fmt.Fprintf(&b, "\t%s struct {\n", t.JoinKind)
		if t.JoinRel != nil {
			s := t.JoinRel.Q()
			if t.JoinRelA != "" {
				s += ":" + t.JoinRelA
			}
			fmt.Fprintf(&b, "\t\t_ gosql.Relation `sql:\"%s\"`\n", s)
		}
		for _, j := range t.Joins {
			s := j.Table.Q()
			if j.Alias != "" {
				s += ":" + j.Alias
			}
			for i, c := range j.Conds {
				if i == 0 {
					s += ","
				} else if c.Or {
					s += ";"
				} else {
					s += ","
				}
				s += c.expr()
			}
			fmt.Fprintf(&b, "\t\t_ gosql.%sJoin `sql:\"%s\"`\n", j.Type, s)
		}
		b.WriteString("\t}\n")
	}
	if t.HasWhere {
		b.WriteString("\tWhere struct {\n")
		writeConds(&b, t.Where, "\t\t")
		b.WriteString("\t}\n")
	}
	if t.All {
		b.WriteString("\t_ gosql.All\n")
	}
	if t.Filter {
		b.WriteString("\tFilter gosql.Filter\n")
	}
	if c := t.Conflict; c != nil {
		b.WriteString("\tOnConflict struct {\n")
		if c.Target != "" {
			fmt.Fprintf(&b, "\t\t_ gosql.%s `sql:\"%s\"`\n", c.Target, c.Val)
		}
		if c.Ignore {
			b.WriteString("\t\t_ gosql.Ignore\n")
		} else {
			fmt.Fprintf(&b, "\t\t_ gosql.Update `sql:\"%s\"`\n", strings.Join(c.Update, ","))
		}
		b.WriteString("\t}\n")
	}
	if len(t.OrderBy) > 0 {
		var ps []string
		for _, o := range t.OrderBy {
			s := ""
			if o.Desc {
				s = "-"
			}
			s += o.Col.tag()
			if o.Nulls != "" {
				s += ":" + o.Nulls
			}
			ps = append(ps, s)
		}
		fmt.Fprintf(&b, "\t_ gosql.OrderBy `sql:\"%s\"`\n", strings.Join(ps, ","))
	}
	lim := func(name string, l *LimOff) {
		if l == nil {
			return
		}
		if l.Field {
			fmt.Fprintf(&b, "\t%s %s", name, l.Src)
			if l.Def > 0 {
				fmt.Fprintf(&b, " `sql:\"%d\"`", l.Def)
			}
			b.WriteString("\n")
		} else {
			fmt.Fprintf(&b, "\t_ gosql.%s `sql:\"%d\"`\n", name, l.Def)
		}
	}
	lim("Limit", t.Limit)
	lim("Offset", t.Offset)
	if len(t.Return) > 0 {
		fmt.Fprintf(&b, "\t_ gosql.Return `sql:\"%s\"`\n", strings.Join(t.Return, ","))
	}
	for _, d := range []struct {
		n string
		l []string
	}{{"Default", t.Default}, {"Force", t.Force}, {"Optional", t.Optional}} {
		if len(d.l) > 0 {
			fmt.Fprintf(&b, "\t_ gosql.%s `sql:\"%s\"`\n", d.n, strings.Join(d.l, ","))
		}
	}
	if t.Override != "" {
		fmt.Fprintf(&b, "\t_ gosql.Override `sql:\"%s\"`\n", t.Override)
	}
	if t.Result != nil {
		fmt.Fprintf(&b, "\tResult %s\n", relForm(t.ResForm, t.Result))
	}
	if t.RowsAff != "" {
		fmt.Fprintf(&b, "\tRowsAffected %s\n", t.RowsAff)
	}
	switch t.ErrH {
	case "Error":
		b.WriteString("\tEH rt.EH\n")
	case "Info":
		b.WriteString("\tEH rt.EIH\n")
	}
	if t.CtxField {
		b.WriteString("\tctx context.Context\n")
	}
	for _, e := range t.Extra {
		b.WriteString("\t" + e + "\n")
	}
	b.WriteString("}\n")
	return t.Forms.apply(b.String())
}

func sortedTypes(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (c *Cond) expr() string {
	s := c.Col.tag()
	if c.Op != "" {
		s += " " + c.Op
	}
	if c.Qua != "" {
		s += " " + c.Qua
	}
	if c.RHS != nil {
		s += " " + c.RHS.tag()
	} else if c.Lit != "" {
		s += " " + c.Lit
	}
	return s
}

func writeConds(b *strings.Builder, cs []*Cond, ind string) {
	for i, c := range cs {
		bt := ""
		if i > 0 && c.Or {
			bt = " bool:\"or\""
		} else if i > 0 && i%3 == 2 {
			bt = " bool:\"and\""
		}
		switch {
		case c.Group != nil:
			fmt.Fprintf(b, "%s%s struct {\n", ind, c.Name)
			writeConds(b, c.Group, ind+"\t")
			fmt.Fprintf(b, "%s} `sql:\">\"%s`\n", ind, bt)
		case c.Lo != nil:
			fmt.Fprintf(b, "%s%s struct {\n", ind, c.Name)
			for j, bd := range []*Bound{c.Lo, c.Hi} {
				k := [2]string{"x", "y"}[j]
				if bd.Words {
					k = [2]string{"lower", "upper"}[j]
				}
				if bd.RHS != nil {
					fmt.Fprintf(b, "%s\t_ gosql.Column `sql:\"%s,%s\"`\n", ind, bd.RHS.tag(), k)
				} else {
					fmt.Fprintf(b, "%s\t%s %s `sql:\"%s\"`\n", ind, bd.Name, bd.GT.src(), k)
				}
			}
			fmt.Fprintf(b, "%s} `sql:\"%s %s\"%s`\n", ind, c.Col.tag(), c.Op, bt)
		case c.Name == "_":
			fmt.Fprintf(b, "%s_ gosql.Column `sql:\"%s\"%s`\n", ind, c.expr(), bt)
		default:
			fn := ""
			if c.Func != "" {
				fn = ",@" + c.Func
			}
			fmt.Fprintf(b, "%s%s %s `sql:\"%s%s\"%s`\n", ind, c.Name, c.goType(), c.expr(), fn, bt)
		}
	}
}

func (c *Cond) list() bool { return c.Qua != "" || strings.HasSuffix(strings.ToLower(c.Op), "in") }

func (c *Cond) goType() string {
	if c.list() {
		return "[]" + c.GT.src()
	}
	return c.GT.src()
}

// whereLit writes the assignments of a case's where values.
func whereLit(cs []*Cond, path string, k *Case, out *[]string) {
	for _, c := range cs {
		switch {
		case c.Group != nil:
			whereLit(c.Group, path+"."+c.Name, k, out)
		case c.Lo != nil:
			for _, bd := range []*Bound{c.Lo, c.Hi} {
				if bd.RHS == nil {
					p := path + "." + c.Name + "." + bd.Name
					*out = append(*out, "q"+p+" = "+goLit(bd.GT, k.Where[p]))
				}
			}
		case c.Name == "_":
		case c.list():
			p := path + "." + c.Name
			var es []string
			for _, v := range k.Lists[p] {
				es = append(es, goLit(c.GT, v))
			}
			*out = append(*out, "q"+p+" = []"+c.GT.src()+"{"+strings.Join(es, ", ")+"}")
		default:
			p := path + "." + c.Name
			*out = append(*out, "q"+p+" = "+goLit(c.GT, k.Where[p]))
		}
	}
}

// CaseSource renders one case of the driver.
func (t *Target) CaseSource(i int, cfgCtx bool) string {
	k := t.Cases[i]
	var b strings.Builder
	fmt.Fprintf(&b, "func case_%s_%d() {\n\tq := &%s{}\n", t.Name, i, t.Name)
	if t.Forms != nil {
		b.WriteString(t.Forms.init)
	}
	switch t.Form {
	case "one":
		if len(k.Recs) > 0 {
			fmt.Fprintf(&b, "\tq.%s = %s\n", t.RelName, (t.Rec.lit(k.Recs[0])))
		}
	case "ptr":
		if len(k.Recs) > 0 {
			fmt.Fprintf(&b, "\tq.%s = &%s\n", t.RelName, (t.Rec.lit(k.Recs[0])))
		}
	case "slice", "ptrslice":
		amp := ""
		if t.Form == "ptrslice" {
			amp = "&"
		}
		for _, r := range k.Recs {
			fmt.Fprintf(&b, "\tq.%s = append(q.%s, %s%s)\n", t.RelName, t.RelName, amp, (t.Rec.lit(r)))
		}
	case "iterf":
		fmt.Fprintf(&b, "\tq.%s = func(v *%s) error { return rt.Visit(v) }\n", t.RelName, t.Rec.ref())
	case "iterfv":
		fmt.Fprintf(&b, "\tq.%s = func(v %s) error { return rt.Visit(v) }\n", t.RelName, t.Rec.ref())
	case "iteri":
		fmt.Fprintf(&b, "\tq.%s = &rt.Vis[*%s]{}\n", t.RelName, t.Rec.ref())
	}
	if t.Result != nil {
		switch t.ResForm {
		case "iterf":
			fmt.Fprintf(&b, "\tq.Result = func(v *%s) error { return rt.Visit(v) }\n", t.Result.ref())
		case "iterfv":
			fmt.Fprintf(&b, "\tq.Result = func(v %s) error { return rt.Visit(v) }\n", t.Result.ref())
		case "iteri":
			fmt.Fprintf(&b, "\tq.Result = &rt.Vis[*%s]{}\n", t.Result.ref())
		}
	}
	var as []string
	whereLit(t.Where, ".Where", k, &as)
	for _, a := range as {
		b.WriteString("\t" + a + "\n")
	}
	if t.Limit != nil && t.Limit.Field {
		fmt.Fprintf(&b, "\tq.Limit = %d\n", k.Limit)
	}
	if t.Offset != nil && t.Offset.Field {
		fmt.Fprintf(&b, "\tq.Offset = %d\n", k.Offset)
	}
	if t.Filter {
		f := k.Filt
		fmt.Fprintf(&b, "\tq.Filter = &rt.F{Where: %q, Tail: %q, Args: []interface{}{%s}}\n", f.Where, f.Tail, strings.Join(f.Go, ", "))
	}
	if t.CtxField {
		fmt.Fprintf(&b, "\tq.ctx = rt.Ctx(\"field\")\n")
	}
	call := "q.Exec(c)"
	if cfgCtx {
		call = "q.Exec(rt.Ctx(\"arg\"), c)"
	}
	fmt.Fprintf(&b, "\trt.Case(%q, %d, %v, q, func(c gosql.Conn) error { return %s })\n}\n", t.Name, i, t.Kind != "Select", call)
	return b.String()
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
