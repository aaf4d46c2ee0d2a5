package gx

import (
	"database/sql"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/lib/pq"
)

// Expect is what the reference says a case must do.
type Expect struct {
	Err     bool
	State   string
	NoRows  bool
	Recs    []map[string]V // rows of the output, by field selector
	Ordered bool
	Subset  bool // Recs are the candidates: the output has Count of them
	Count   int
	Scalar  string // count / exists
	Aff     int64
	Tables  map[string]string
	SQL     []string
	Skip    string
}

func sid(i Ident) string {
	if i.Qual != "" {
		return i.Qual + "." + quoteIdent(i.Col.Name)
	}
	return quoteIdent(i.Col.Name)
}

func quoteIdent(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

var opSQL = map[string]string{"": "=", "=": "=", "<>": "<>", "!=": "<>", "<": "<", ">": ">", "<=": "<=", ">=": ">=",
	"~": "~", "~*": "~*", "!~": "!~", "!~*": "!~*"}

// binary composes the reference of "lhs op rhs" from the documentation of the predicates.
func binary(op, l, r string) string {
	if o, ok := opSQL[op]; ok {
		return "((" + l + ") " + o + " (" + r + "))"
	}
	switch strings.ToLower(strings.ReplaceAll(op, " ", "")) {
	case "isdistinct":
		return "NOT (((" + l + ") = (" + r + ") AND (" + l + ") IS NOT NULL AND (" + r + ") IS NOT NULL) IS TRUE OR ((" + l + ") IS NULL AND (" + r + ") IS NULL))"
	case "notdistinct":
		return "(((" + l + ") = (" + r + ")) IS TRUE OR ((" + l + ") IS NULL AND (" + r + ") IS NULL))"
	case "islike":
		return "((" + l + ") ~~ (" + r + "))"
	case "notlike":
		return "((" + l + ") !~~ (" + r + "))"
	case "isilike":
		return "((" + l + ") ~~* (" + r + "))"
	case "notilike":
		return "((" + l + ") !~~* (" + r + "))"
	case "issimilar":
		return "((" + l + ") ~ similar_to_escape(" + r + "))"
	case "notsimilar":
		return "((" + l + ") !~ similar_to_escape(" + r + "))"
	}
	panic("op " + op)
}

func unary(op, l string) string {
	switch strings.ToLower(strings.ReplaceAll(op, " ", "")) {
	case "isnull":
		return "((" + l + ") IS NULL)"
	case "notnull":
		return "(NOT ((" + l + ") IS NULL))"
	case "istrue", "":
		return "coalesce((" + l + "), false)"
	case "nottrue":
		return "(NOT coalesce((" + l + "), false))"
	case "isfalse":
		return "(NOT coalesce((" + l + "), true))"
	case "notfalse":
		return "coalesce((" + l + "), true)"
	case "isunknown":
		return "((" + l + ") IS NULL)"
	case "notunknown":
		return "(NOT ((" + l + ") IS NULL))"
	}
	panic("unary " + op)
}

func between(op, x, a, b string) string {
	lo, hi := "least("+a+","+b+")", "greatest("+a+","+b+")"
	in := func(l, h string) string { return "((" + x + ") >= (" + l + ") AND (" + x + ") <= (" + h + "))" }
	sym := func() string {
		// least and greatest skip NULLs, BETWEEN SYMMETRIC does not
		return "(" + in(a, b) + " OR " + in(b, a) + ")"
	}
	_, _ = lo, hi
	switch strings.ToLower(strings.ReplaceAll(op, " ", "")) {
	case "isbetween", "isbetweenasym":
		return in(a, b)
	case "notbetween", "notbetweenasym":
		return "(NOT " + in(a, b) + ")"
	case "isbetweensym":
		return sym()
	case "notbetweensym":
		return "(NOT " + sym() + ")"
	}
	panic("between " + op)
}

// condSQL is the reference of one condition.
func condSQL(c *Cond, path string, k *Case) string {
	if c.Group != nil {
		return condsSQL(c.Group, path+"."+c.Name, k)
	}
	l := sid(c.Col)
	if c.Lo != nil {
		bd := func(b *Bound) string {
			if b.RHS != nil {
				return sid(*b.RHS)
			}
			return sqlLit(c.Col.Col.Kind, k.Where[path+"."+c.Name+"."+b.Name])
		}
		return between(c.Op, l, bd(c.Lo), bd(c.Hi))
	}
	if c.Name == "_" {
		if c.RHS != nil {
			if c.Qua != "" {
				return quantArr(c.Op, c.Qua, l, sid(*c.RHS))
			}
			return binary(c.Op, l, sid(*c.RHS))
		}
		if c.Lit != "" {
			if c.Qua != "" {
				return quantArr(c.Op, c.Qua, l, c.Lit)
			}
			return binary(c.Op, l, c.Lit)
		}
		return unary(c.Op, l)
	}
	fn := func(x string) string {
		if c.Func != "" {
			return c.Func + "(" + x + ")"
		}
		return x
	}
	if c.list() {
		vs := k.Lists[path+"."+c.Name]
		var ps []string
		op := c.Op
		conj, empty := " OR ", "false"
		switch strings.ToLower(strings.ReplaceAll(op, " ", "")) {
		case "isin":
			op = "="
		case "notin":
			op, conj, empty = "<>", " AND ", "true"
		}
		if strings.EqualFold(c.Qua, "all") {
			conj, empty = " AND ", "true"
		}
		for _, v := range vs {
			ps = append(ps, binary(op, fn(l), fn(sqlLit(c.Col.Col.Kind, v))))
		}
		if len(ps) == 0 {
			return empty
		}
		return "(" + strings.Join(ps, conj) + ")"
	}
	return binary(c.Op, fn(l), fn(sqlLit(c.Col.Col.Kind, k.Where[path+"."+c.Name])))
}

func quantArr(op, qua, l, arr string) string {
	agg := "bool_or"
	if strings.EqualFold(qua, "all") {
		agg = "bool_and"
	}
	_ = agg
	q := "ANY"
	if strings.EqualFold(qua, "all") {
		q = "ALL"
	}
	return "((" + l + ") " + opSQL[op] + " " + q + " (" + arr + "))"
}

// condsSQL honours AND binding tighter than OR by splitting at the ORs.
func condsSQL(cs []*Cond, path string, k *Case) string {
	var ors []string
	var ands []string
	for i, c := range cs {
		if i > 0 && c.Or {
			ors = append(ors, "("+strings.Join(ands, " AND ")+")")
			ands = nil
		}
		ands = append(ands, condSQL(c, path, k))
	}
	ors = append(ors, "("+strings.Join(ands, " AND ")+")")
	return "(" + strings.Join(ors, " OR ") + ")"
}

func (t *Target) rel() string {
	if t.Alias != "" {
		return t.Table.Q() + " AS " + t.Alias
	}
	return t.Table.Q()
}

func relAs(t *Table, a string) string {
	if a != "" {
		return t.Q() + " AS " + a
	}
	return t.Q()
}

func (t *Target) joins(k *Case) string {
	s := ""
	for _, j := range t.Joins {
		if j.Type == "Cross" {
			s += " CROSS JOIN " + relAs(j.Table, j.Alias)
			continue
		}
		s += " " + strings.ToUpper(j.Type) + " JOIN " + relAs(j.Table, j.Alias) + " ON " + condsSQL(j.Conds, "", k)
	}
	return s
}

func (t *Target) whereSQL(k *Case) string {
	if t.HasWhere && len(t.Where) > 0 {
		return condsSQL(t.Where, ".Where", k)
	}
	if t.Filter && k.Filt != nil && k.Filt.Where != "" {
		s := k.Filt.Where
		for i, l := range k.Filt.SQL {
			s = strings.ReplaceAll(s, "{"+strconv.Itoa(i)+"}", l)
		}
		return "(" + s + ")"
	}
	return "true"
}

// outRec is the record the output goes to, with its form.
func (t *Target) outRec() (*Rec, string) {
	if t.Result != nil {
		return t.Result, t.ResForm
	}
	return t.Rec, t.Form
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// listed: is the field's column in a directive list ("*" or possibly qualified names).
func listed(l []string, f *Field) bool {
	for _, x := range l {
		if i := strings.LastIndexByte(x, '.'); i >= 0 {
			x = x[i+1:]
		}
		if x == "*" || x == f.Col.Name {
			return true
		}
	}
	return false
}

// reads lists the fields that the statement reads, in any order.
func (t *Target) reads() (out []*Field) {
	rec, _ := t.outRec()
	if rec == nil {
		return nil
	}
	if t.Kind == "Select" || t.Result != nil {
		for _, f := range rec.Fields {
			if t.hasCol(f) && (!f.NoSel || listed(t.Force, f)) {
				out = append(out, f)
			}
		}
		return
	}
	for _, f := range rec.Fields {
		if listed(t.Return, f) && t.hasCol(f) && (!f.NoSel || listed(t.Force, f)) {
			out = append(out, f)
		}
	}
	return
}

func (t *Target) hasCol(f *Field) bool {
	for _, c := range t.Table.Cols {
		if c.Name == f.Col.Name {
			return true
		}
	}
	return false
}

// writes lists the fields that an INSERT or UPDATE writes.
func (t *Target) writes() (out []*Field) {
	for _, f := range t.Rec.Fields {
		no := f.NoIns
		if t.Kind == "Update" {
			no = f.NoUpd
		}
		if t.hasCol(f) && (!no || listed(t.Force, f)) {
			out = append(out, f)
		}
	}
	return
}

// writeSQL is the value a field's column receives.
func (t *Target) writeSQL(f *Field, v V) string {
	if f.Default || (len(t.Default) > 0 && listed(t.Default, f)) {
		return "DEFAULT"
	}
	c := t.Table.Col(f.Col.Name)
	if v.Null {
		if f.GT.Kind == "js" {
			return "'null'::jsonb"
		}
		if f.GT.Kind == "bytes" && c.NN {
			return "NULL"
		}
		return "NULL"
	}
	if !c.NN && !t.Table.View && !f.GT.Ptr && !f.GT.Conv && isZero(f.GT, v) {
		return "NULL"
	}
	if f.GT.Kind == "int" && c.Kind == "int2" {
		return "(" + quote(v.S) + ")::int4::int2"
	}
	return sqlLit(c.Kind, v)
}

// readV is the value a field holds after reading column value v.
func (t *Target) readV(f *Field, v V) V {
	if v.Null && f.Coalesce {
		if f.CoalesceVal != "" {
			return f.CoalesceV
		}
		z := f.GT
		z.Ptr = false
		if z.Kind == "bytes" {
			return V{S: ""}
		}
		return zeroV(z)
	}
	if v.Null && !f.GT.Ptr && !f.GT.Conv {
		c := t.Table.Col(f.Col.Name)
		if f.GT.Kind == "bytes" && !c.NN && !t.Table.View {
			return V{S: ""}
		}
		return zeroV(f.GT)
	}
	return v
}

type ref struct {
	t  *Target
	k  *Case
	tx *sql.Tx
	e  *Expect
}

func (r *ref) exec(s string) (int64, error) {
	r.e.SQL = append(r.e.SQL, s)
	res, err := r.tx.Exec(s)
	if err != nil {
		return 0, err
	}
	return res.RowsAffected()
}

func (r *ref) query(s string, n int) ([][]*string, error) {
	r.e.SQL = append(r.e.SQL, s)
	rows, err := r.tx.Query(s)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	var out [][]*string
	for rows.Next() {
		l := make([]*string, n)
		p := make([]interface{}, n)
		for i := range l {
			p[i] = &l[i]
		}
		if err := rows.Scan(p...); err != nil {
			return nil, err
		}
		out = append(out, l)
	}
	return out, rows.Err()
}

func (r *ref) outList(fs []*Field) string {
	q := r.t.Alias
	var ps []string
	for _, f := range fs {
		ps = append(ps, canonExpr(f.Col.Kind, sid(Ident{q, f.Col})))
	}
	if len(ps) == 0 {
		return "NULL::text"
	}
	return strings.Join(ps, ", ")
}

func (r *ref) toRecs(fs []*Field, rows [][]*string) []map[string]V {
	out := []map[string]V{}
	for _, row := range rows {
		m := map[string]V{}
		for i, f := range fs {
			m[f.sel()] = r.t.readV(f, parseCanon(f.Col.Kind, row[i]))
		}
		out = append(out, m)
	}
	return out
}

// Reference computes what a case must do.
func Reference(db *sql.DB, t *Target, k *Case) *Expect {
	e := &Expect{}
	tx, err := db.Begin()
	if err != nil {
		panic(err)
	}
	defer tx.Rollback()
	for _, s := range resetSeqs {
		if _, err := tx.Exec(s); err != nil {
			panic(err)
		}
	}
	if _, err := tx.Exec("SAVEPOINT gx"); err != nil {
		panic(err)
	}
	r := &ref{t: t, k: k, tx: tx, e: e}
	switch t.Kind {
	case "Select":
		err = r.sel()
	case "Insert":
		err = r.ins()
	case "Update":
		err = r.upd()
	case "Delete":
		err = r.del()
	}
	if err != nil {
		var pe *pq.Error
		if !errors.As(err, &pe) {
			panic(fmt.Sprintf("%s: %v\n%s", t.Name, err, strings.Join(e.SQL, "\n")))
		}
		e.Err, e.State = true, string(pe.Code)
		if _, err := tx.Exec("ROLLBACK TO SAVEPOINT gx"); err != nil {
			panic(err)
		}
	}
	if t.Kind != "Select" {
		e.Tables = map[string]string{}
		for _, n := range MutTables() {
			var s string
			if err := tx.QueryRow("SELECT coalesce(string_agg(t::text, E'\\n' ORDER BY t::text), '') FROM " + n + " t").Scan(&s); err != nil {
				panic(err)
			}
			e.Tables[n] = s
		}
	}
	return e
}

// effective limit and offset: a field's zero falls back to the tag's default
func limoff(l *LimOff, v int) (n int, set bool) {
	if l == nil {
		return 0, false
	}
	if !l.Field {
		return l.Def, l.Def > 0
	}
	if v == 0 {
		v = l.Def
		return v, true
	}
	return v, true
}

func single(form string) bool { return form == "one" || form == "ptr" }

func (r *ref) sel() error {
	t, k := r.t, r.k
	from := " FROM " + t.rel() + t.joins(k) + " WHERE " + t.whereSQL(k)
	switch t.Form {
	case "count", "exists", "notexists":
		rows, err := r.query("SELECT count(*)::text"+from, 1)
		if err != nil {
			return err
		}
		n := *rows[0][0]
		switch t.Form {
		case "count":
			r.e.Scalar = n
		case "exists":
			r.e.Scalar = fmt.Sprint(n != "0")
		case "notexists":
			r.e.Scalar = fmt.Sprint(n == "0")
		}
		return nil
	}
	fs := t.reads()
	order := ""
	if len(t.OrderBy) > 0 {
		var ps []string
		for _, o := range t.OrderBy {
			ps = append(ps, orderSQL(t, o)...)
		}
		order = " ORDER BY " + strings.Join(ps, ", ")
		r.e.Ordered = true
	} else if t.Filter && k.Filt.Tail != "" {
		order = k.Filt.Tail
		r.e.Ordered = strings.Contains(order, "ORDER BY")
	}
	rows, err := r.query("SELECT "+r.outList(fs)+from+order, max(len(fs), 1))
	if err != nil {
		return err
	}
	recs := r.toRecs(fs, rows)
	off, hasOff := limoff(t.Offset, k.Offset)
	lim, hasLim := limoff(t.Limit, k.Limit)
	_, form := t.outRec()
	if single(form) && t.Limit == nil {
		lim, hasLim = 1, true
	}
	if hasOff && off < 0 || hasLim && lim < 0 {
		r.e.Err, r.e.State = true, "2201X"
		if hasLim && lim < 0 {
			r.e.State = "2201W"
		}
		return nil
	}
	n := len(recs)
	if hasOff {
		n -= off
		if n < 0 {
			n = 0
		}
	}
	if hasLim && n > lim {
		n = lim
	}
	if r.e.Ordered {
		o := 0
		if hasOff {
			o = off
		}
		if o > len(recs) {
			o = len(recs)
		}
		recs = recs[o : o+n]
		if single(form) && len(recs) > 1 {
			recs = recs[:1]
		}
	} else if n < len(recs) {
		r.e.Subset = true
	}
	r.e.Count = n
	if single(form) && n > 1 {
		r.e.Count = 1
		if !r.e.Ordered {
			r.e.Subset = true
		}
	}
	r.e.Recs = recs
	if single(form) && n == 0 {
		r.e.Err, r.e.NoRows = true, true
	}
	return nil
}

// orderSQL spells NULL placement out.
func orderSQL(t *Target, o OrderItem) []string {
	x := sid(o.Col)
	if o.Col.Qual == "" { // an unqualified name would denote the output column
		x = t.Table.Q() + "." + x
	}
	// the directive's default is NULLS LAST in both directions
	first := o.Nulls == "nullsfirst"
	d := " ASC"
	if o.Desc {
		d = " DESC"
	}
	nk := "(" + x + " IS NULL)::int ASC"
	if first {
		nk = "(" + x + " IS NULL)::int DESC"
	}
	return []string{nk, x + d}
}

func (r *ref) returned(fs []*Field) string {
	if len(fs) == 0 {
		return ""
	}
	return " RETURNING " + r.outList(fs)
}

func (r *ref) finish(fs []*Field, rows [][]*string, aff int64) {
	r.e.Aff = aff
	rec, form := r.t.outRec()
	_ = rec
	if len(fs) > 0 {
		r.e.Recs = r.toRecs(fs, rows)
		r.e.Count = len(rows)
		if single(form) && len(rows) == 0 {
			r.e.Err, r.e.NoRows = true, true
		}
		if single(form) && len(rows) > 1 {
			r.e.Subset, r.e.Count = true, 1
		}
	}
}

func (r *ref) run(s string, fs []*Field) (rows [][]*string, aff int64, err error) {
	if len(fs) > 0 {
		rows, err = r.query(s+r.returned(fs), len(fs))
		return rows, int64(len(rows)), err
	}
	aff, err = r.exec(s)
	return nil, aff, err
}

func (r *ref) ins() error {
	t, k := r.t, r.k
	ws, fs := t.writes(), t.reads()
	var cols []string
	for _, f := range ws {
		cols = append(cols, quoteIdent(f.Col.Name))
	}
	s := "INSERT INTO " + t.rel() + " (" + strings.Join(cols, ", ") + ")"
	switch t.Override {
	case "system":
		s += " OVERRIDING SYSTEM VALUE"
	case "user":
		s += " OVERRIDING USER VALUE"
	}
	var vs []string
	for _, rec := range k.Recs {
		var ps []string
		for _, f := range ws {
			ps = append(ps, t.writeSQL(f, rec[f.sel()]))
		}
		vs = append(vs, "("+strings.Join(ps, ", ")+")")
	}
	s += " VALUES " + strings.Join(vs, ", ")
	if c := t.Conflict; c != nil {
		s += " ON CONFLICT"
		if c.Target != "" {
			s += " (" + strings.Join(c.Cols, ", ") + ")"
			if c.Where != "" {
				s += " WHERE " + c.Where
			}
		}
		if c.Ignore {
			s += " DO NOTHING"
		} else {
			up := c.Update
			if contains(up, "*") {
				up = nil
				for _, f := range ws {
					up = append(up, f.Col.Name)
				}
			}
			var ps []string
			for _, u := range up {
				ps = append(ps, quoteIdent(u)+" = EXCLUDED."+quoteIdent(u))
			}
			s += " DO UPDATE SET " + strings.Join(ps, ", ")
		}
	}
	rows, aff, err := r.run(s, fs)
	if err != nil {
		return err
	}
	r.finish(fs, rows, aff)
	r.e.Ordered = true
	return nil
}

func (r *ref) upd() error {
	t, k := r.t, r.k
	ws, fs := t.writes(), t.reads()
	var all [][]*string
	var total int64
	recs := k.Recs
	for _, rec := range recs {
		var ps []string
		for _, f := range ws {
			ps = append(ps, quoteIdent(f.Col.Name)+" = "+t.writeSQL(f, rec[f.sel()]))
		}
		s := "UPDATE " + t.rel() + " SET " + strings.Join(ps, ", ")
		if t.JoinRel != nil {
			s += " FROM " + relAs(t.JoinRel, t.JoinRelA) + t.joins(k)
		}
		if t.HasWhere || t.Filter || t.All {
			s += " WHERE " + t.whereSQL(k)
		} else {
			var ps []string
			for _, f := range t.Rec.Fields {
				if t.hasCol(f) && t.Table.Col(f.Col.Name).PK {
					ps = append(ps, sid(Ident{t.Alias, f.Col})+" = "+sqlLit(f.Col.Kind, rec[f.sel()]))
				}
			}
			if len(ps) == 0 {
				r.e.Skip = "no key"
				return nil
			}
			s += " WHERE " + strings.Join(ps, " AND ")
		}
		rows, aff, err := r.run(s, fs)
		if err != nil {
			return err
		}
		all = append(all, rows...)
		total += aff
	}
	r.finish(fs, all, total)
	return nil
}

func (r *ref) del() error {
	t, k := r.t, r.k
	fs := t.reads()
	s := "DELETE FROM " + t.rel()
	if t.JoinRel != nil {
		s += " USING " + relAs(t.JoinRel, t.JoinRelA) + t.joins(k)
	}
	s += " WHERE " + t.whereSQL(k)
	rows, aff, err := r.run(s, fs)
	if err != nil {
		return err
	}
	r.finish(fs, rows, aff)
	return nil
}
