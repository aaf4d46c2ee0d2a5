package pgconv

import (
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/frk/gosql"
)

// Pair is a column type and a Go type that the tool is expected to connect.
type Pair struct {
	ID      string // "p12"
	Base    string // generator of values ("Int2Array")
	SQL     string // column type
	Go      string // Go type as written
	Type    reflect.Type
	Text    bool // a string or []byte holding the value's text form
	Conv    string
	Variant string // plain ptr named
	NotNull bool
}

// Handle runs the code generated for a pair.
type Handle struct {
	ID     string
	Insert func(c gosql.Conn, id int, v interface{}, null bool) error
	Select func(c gosql.Conn, id int) (v interface{}, null bool, err error)
	Update func(c gosql.Conn, id int, v interface{}, null bool) error
}

// GoName is the source form of an unnamed or standard library type; byte and rune are spelled as the converter does.
func GoName(t reflect.Type, suffix string) string {
	s := t.String()
	if strings.Contains(suffix, "Byte") {
		s = strings.ReplaceAll(s, "uint8", "byte")
	}
	if strings.Contains(suffix, "Rune") {
		s = strings.ReplaceAll(s, "int32", "rune")
	}
	return s
}

// Bases lists the element types with a value generator.
var scalarPairs = map[string][]interface{}{
	"Bool": {false}, "Int2": ints0, "Int4": ints0, "Int8": ints0, "Numeric": ints0,
	"Float4": {float32(0), float64(0)}, "Float8": {float32(0), float64(0)},
	"Text": {""}, "VarChar": {""}, "Bytea": {[]byte(nil)}, "Bit": {uint(0), uint8(0)},
	"Timestamp": {time.Time{}}, "Timestamptz": {time.Time{}}, "Time": {time.Time{}}, "Timetz": {time.Time{}}, "Date": {time.Time{}},
}

var ints0 = []interface{}{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0)}

// Pairs lists every pairing the library has a converter for or needs none for.
func Pairs() (out []Pair, err error) {
	cs, err := Convs()
	if err != nil {
		return nil, err
	}
	done := map[string]bool{}
	add := func(p Pair) {
		k := p.SQL + "|" + p.Go
		if !done[k] {
			done[k] = true
			p.ID = fmt.Sprintf("p%d", len(out))
			out = append(out, p)
		}
	}
	bases := map[string]string{}
	for _, c := range cs {
		if strings.HasPrefix(c.Base, "HStore") {
			continue // an extension's type has no fixed identity; the tool has no pairing for it
		}
		if _, ok := bases[c.Base]; !ok {
			bases[c.Base] = c.SQL
		}
		text := c.Type.Kind() == reflect.String || c.Type == reflect.TypeOf([]byte(nil))
		if text && c.Base != "BPCharArray" && c.Base != "CharArray" && c.Base != "BPChar" && c.Base != "Char" {
			continue // added below
		}
		add(Pair{Base: c.Base, SQL: c.SQL, Go: GoName(c.Type, c.Suffix), Type: c.Type, Conv: c.Name})
	}
	for _, b := range []string{"Bool", "Int2", "Int4", "Int8", "Numeric", "Float4", "Float8", "Text", "VarChar", "Bytea", "Bit", "Timestamp", "Timestamptz", "Time", "Timetz", "Date"} {
		for _, x := range scalarPairs[b] {
			t := reflect.TypeOf(x)
			add(Pair{Base: b, SQL: sqlTypes[b], Go: GoName(t, map[bool]string{true: "Byte"}[t.Kind() == reflect.Slice]), Type: t})
		}
	}
	var names []string
	for b := range sqlTypes {
		if b != "HStore" {
			names = append(names, b, b+"Array")
		}
	}
	sortStrings(names)
	for _, b := range names {
		if strings.HasPrefix(b, "Bytea") && b == "Bytea" {
			continue
		}
		if b == "CharArray" || b == "BPCharArray" { // those read and write strings element by element
			continue
		}
		st := sqlTypes[strings.TrimSuffix(b, "Array")]
		if strings.HasSuffix(b, "Array") {
			st += "[]"
		}
		for _, t := range []reflect.Type{reflect.TypeOf(""), reflect.TypeOf([]byte(nil))} {
			add(Pair{Base: b, SQL: st, Go: GoName(t, "Byte"), Type: t, Text: true})
		}
	}
	return out, nil
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// Table is the name of the table of a column type.
func (p *Pair) Table() string {
	n := strings.NewReplacer("[]", "_arr", "(", "_", ")", "").Replace(p.SQL)
	if p.NotNull {
		return "pn_" + n
	}
	return "pt_" + n
}

// PairDDL creates the tables.
func PairDDL(ps []Pair) string {
	var s strings.Builder
	done := map[string]bool{}
	for _, p := range ps {
		for _, nn := range []bool{false, true} {
			p.NotNull = nn
			if done[p.Table()] {
				continue
			}
			done[p.Table()] = true
			c := ""
			if nn {
				c = " NOT NULL"
			}
			fmt.Fprintf(&s, "CREATE TABLE %s (id int4 PRIMARY KEY, v %s%s);\n", p.Table(), p.SQL, c)
		}
	}
	return s.String()
}

// exprFor finds an SQL expression for a random value of a base type, independent of the Go type.
func exprFor(r *rand.Rand, cs []Conv, base string) string {
	for _, c := range cs {
		if c.Base == base && !(c.Type.Kind() == reflect.String && strings.HasSuffix(base, "Array")) {
			_, e, _, _ := c.Gen(r)
			return e
		}
	}
	if strings.HasSuffix(base, "Array") {
		b := strings.TrimSuffix(base, "Array")
		for _, x := range scalarPairs[b] {
			_, e, _, _ := gen(r, base, "", reflect.SliceOf(reflect.TypeOf(x)))
			return e
		}
		return ""
	}
	for _, x := range scalarPairs[base] {
		_, e, _, _ := gen(r, base, "", reflect.TypeOf(x))
		return e
	}
	// an element of the array type
	for _, c := range cs {
		if c.Base == base+"Array" && c.Type.Kind() == reflect.Slice {
			_, e, _, _ := genElem(r, base, c.Type.Elem())
			return e
		}
	}
	return ""
}

// PairReport is one line of the driver's output.
type PairReport struct {
	ID, Key, Msg string
	Evals        int
	Shapes       map[string]int
}

// RunPairs executes the generated code of every pair on n values each and prints reports.
func RunPairs(specs []byte, hs []*Handle, n int, seed int64) {
	var ps []Pair
	if err := json.Unmarshal(specs, &ps); err != nil {
		panic(err)
	}
	all, err := Pairs()
	if err != nil {
		panic(err)
	}
	types := map[string]reflect.Type{}
	for _, p := range all {
		types[p.Go] = p.Type
	}
	cs, _ := Convs()
	db, err := sql.Open("postgres", os.Getenv("GX_DSN"))
	if err != nil {
		panic(err)
	}
	byID := map[string]*Handle{}
	for _, h := range hs {
		byID[h.ID] = h
	}
	enc := json.NewEncoder(os.Stdout)
	work := make(chan *Pair)
	out := make(chan PairReport)
	done := make(chan bool)
	for w := 0; w < 8; w++ {
		cn, err := db.Conn(context.Background())
		if err != nil {
			panic(err)
		}
		go func() {
			for p := range work {
				p.Type = types[p.Go]
				r := rand.New(rand.NewSource(seed*7919 + int64(hash(p.SQL+p.Go+p.Variant))))
				rep := PairReport{ID: p.ID, Shapes: map[string]int{}}
				p.run(cn, byID[p.ID], cs, r, n, &rep, func(key, f string, a ...interface{}) {
					out <- PairReport{ID: p.ID, Key: key, Msg: fmt.Sprintf("%s column, %s field (%s): ", p.SQL, p.Go, p.Variant) + fmt.Sprintf(f, a...)}
				})
				out <- rep
			}
			done <- true
		}()
	}
	go func() {
		for i := range ps {
			if byID[ps[i].ID] != nil {
				work <- &ps[i]
			}
		}
		close(work)
	}()
	for live := 8; live > 0; {
		select {
		case r := <-out:
			enc.Encode(r)
		case <-done:
			live--
		}
	}
}

type conn struct {
	*sql.Conn
}

func (c conn) Exec(q string, a ...interface{}) (sql.Result, error) {
	return c.ExecContext(context.Background(), q, a...)
}
func (c conn) Query(q string, a ...interface{}) (*sql.Rows, error) {
	return c.QueryContext(context.Background(), q, a...)
}
func (c conn) QueryRow(q string, a ...interface{}) *sql.Row {
	return c.QueryRowContext(context.Background(), q, a...)
}

func (p *Pair) run(cn *sql.Conn, h *Handle, cs []Conv, r *rand.Rand, n int, rep *PairReport, bad func(key, f string, a ...interface{})) {
	ctx := context.Background()
	c := conn{cn}
	tab := p.Table()
	stage := "value"
	defer func() {
		if e := recover(); e != nil {
			bad("panic", "panic (%s): %v", stage, e)
		}
	}()
	stored := func(id int) (s sql.NullString, ok bool) {
		err := cn.QueryRowContext(ctx, fmt.Sprintf("SELECT CASE WHEN v IS NULL THEN NULL ELSE ROW(v)::text END FROM %s WHERE id = %d", tab, id)).Scan(&s)
		return s, err == nil
	}
	var zeroRow, zeroTxt string
	if z := zeroSQL(p.Base); z != "" {
		if err := cn.QueryRowContext(ctx, fmt.Sprintf("SELECT ROW(%[1]s::%[2]s)::text, %[1]s::%[2]s::text", z, p.SQL)).Scan(&zeroRow, &zeroTxt); err != nil {
			bad("db", "zero value: %v", err)
			return
		}
	}
	if p.Text && p.Base == "Timestamptz" {
		// database/sql drops the seconds of historical zone offsets from text forms
		cn.ExecContext(ctx, "SET TIME ZONE 'UTC'")
		defer cn.ExecContext(ctx, "RESET TIME ZONE")
	}
	for i := 0; i < n; i++ {
		if _, err := cn.ExecContext(ctx, "DELETE FROM "+tab+" WHERE id BETWEEN $1 AND $2", r0(p), r0(p)+3); err != nil {
			bad("db", "%v", err)
			return
		}
		id := r0(p)
		var v, want reflect.Value
		var expr, shape string
		if p.Text {
			if expr = exprFor(r, cs, p.Base); expr == "" {
				bad("db", "no values for %s", p.Base)
				return
			}
			var s string
			if err := cn.QueryRowContext(ctx, "SELECT (("+expr+")::"+p.SQL+")::text").Scan(&s); err != nil {
				bad("db", "reference %s: %v", expr, err)
				return
			}
			v = reflect.ValueOf(s).Convert(p.Type)
			shape = "t" + strShape(s)
		} else {
			suffix := ""
			if k := strings.Index(p.Conv, "|"); k >= 0 {
				suffix = p.Conv[k+1:]
			}
			for {
				v, expr, want, shape = gen(r, p.Base, suffix, p.Type)
				// database/sql itself refuses or wraps these
				if p.Conv == "" && v.CanUint() && v.Uint() > math.MaxInt64 {
					continue
				}
				break
			}
			if f, ok := v.Interface().(float32); ok && p.Conv == "" && p.Base == "Numeric" && !math.IsInf(float64(f), 0) && f == f {
				// database/sql hands drivers the float64 of the value
				expr = "'" + strconv.FormatFloat(float64(f), 'g', -1, 64) + "'"
			}
		}
		// values that the zero-means-NULL contract maps to NULL are checked on their own below
		zero := v.IsZero() || v.Kind() == reflect.Slice && v.Len() == 0
		if tm, ok := v.Interface().(time.Time); ok && tm.IsZero() {
			zero = true
		}
		var exp string
		if err := cn.QueryRowContext(ctx, "SELECT ROW(("+expr+")::"+p.SQL+")::text").Scan(&exp); err != nil {
			bad("db", "reference %s: %v", expr, err)
			return
		}
		zeroish := zero && p.Variant != "ptr" && !p.NotNull
		if p.Text && p.Variant != "ptr" && !p.NotNull {
			zeroish = exp == zeroRow // the zero value of the column's type, in text form
		}
		check := func(what string, id int) {
			got, ok := stored(id)
			switch {
			case !ok:
				bad(what+"-missing", "%s of %s left no row", what, Show(v))
			case zeroish && !got.Valid: // NULL
			case !got.Valid || got.String != exp:
				bad(what+"-wrong", "%s of %s stored %s, want %s", what, Show(v), got.String, exp)
			}
		}
		rep.Evals++
		rep.Shapes[shape]++
		stage = "insert " + Show(v)
		if err := h.Insert(c, id, v.Interface(), false); err != nil {
			bad("insert-error", "inserting %s: %v", Show(v), err)
		} else {
			check("insert", id)
		}
		stage = "select " + exp
		// read what the server itself made of the reference expression
		if _, err := cn.ExecContext(ctx, fmt.Sprintf("INSERT INTO %s (id, v) VALUES (%d, (%s)::%s)", tab, id+1, expr, p.SQL)); err != nil {
			bad("db", "%v", err)
			return
		}
		got, null, err := h.Select(c, id+1)
		switch {
		case err != nil:
			bad("select-error", "reading %s: %v", exp, err)
		case null:
			bad("select-wrong", "reading %s gave nil", exp)
		case p.Text:
			s := reflect.ValueOf(got).Convert(reflect.TypeOf("")).String()
			var same bool
			if err := cn.QueryRowContext(ctx, fmt.Sprintf("SELECT ROW($1::%s)::text = $2", p.SQL), s, exp).Scan(&same); err != nil || !same {
				bad("select-wrong", "reading %s gave %q (%v)", exp, s, err)
			}
		case !Equal(p.Base, reflect.ValueOf(got), want):
			bad("select-wrong", "reading %s gave %s, want %s", exp, Show(reflect.ValueOf(got)), Show(want))
		}
		// overwrite another value
		stage = "update " + Show(v)
		other := expr
		for k := 0; k < 4 && other == expr; k++ {
			if e := exprFor(r, cs, p.Base); e != "" {
				other = e
			}
		}
		if _, err := cn.ExecContext(ctx, fmt.Sprintf("INSERT INTO %s (id, v) VALUES (%d, (%s)::%s)", tab, id+2, other, p.SQL)); err != nil {
			bad("db", "%v", err)
			return
		}
		if err := h.Update(c, id+2, v.Interface(), false); err != nil {
			bad("update-error", "updating to %s: %v", Show(v), err)
		} else {
			check("update", id+2)
			if s, ok := stored(id + 1); !ok || s.String != exp {
				bad("update-others", "updating row %d changed row %d", id+2, id+1)
			}
		}
		if i > 0 || p.NotNull {
			continue
		}
		// NULL
		stage = "null"
		if _, err := cn.ExecContext(ctx, fmt.Sprintf("INSERT INTO %s (id, v) VALUES (%d, NULL)", tab, id+3)); err != nil {
			bad("db", "%v", err)
			return
		}
		got, null, err = h.Select(c, id+3)
		switch {
		case err != nil && p.Text && zeroSQL(p.Base) == "":
			// no zero value to stand for NULL
		case err != nil:
			bad("null-error", "reading NULL: %v", err)
		case p.Variant == "ptr":
			if !null {
				bad("null-wrong", "reading NULL gave %s", Show(reflect.ValueOf(got)))
			}
		case p.Text && zeroTxt == "" && zeroSQL(p.Base) == "":
			// no zero value to stand for NULL
		default:
			g := reflect.ValueOf(got)
			ok := g.IsZero() || g.Kind() == reflect.Slice && g.Len() == 0
			if p.Text && !ok { // the text of the column type's own zero value
				t := g.Convert(reflect.TypeOf("")).String()
				var same bool
				ok = t == zeroTxt || p.Base == "Timestamptz" && (strings.HasPrefix(t, "0001-01-01T0") || strings.HasPrefix(t, "0000-12-31T")) ||
					cn.QueryRowContext(ctx, fmt.Sprintf("SELECT ROW($1::%s)::text = $2", p.SQL), t, zeroRow).Scan(&same) == nil && same
			}
			if tm, is := got.(time.Time); is {
				ok = isZeroTime(p, tm)
			}
			if !ok {
				bad("null-wrong", "reading NULL gave %s", Show(g))
			}
		}
		if p.Variant == "ptr" {
			stage = "write nil"
			if err := h.Update(c, id+1, nil, true); err != nil {
				bad("nil-error", "updating to nil: %v", err)
			} else if s, ok := stored(id + 1); !ok || s.Valid {
				bad("nil-wrong", "updating to nil stored %s", s.String)
			}
			cn.ExecContext(ctx, fmt.Sprintf("DELETE FROM %s WHERE id = %d", tab, id+3))
			if err := h.Insert(c, id+3, nil, true); err != nil {
				bad("nil-error", "inserting nil: %v", err)
			} else if s, ok := stored(id + 3); !ok || s.Valid {
				bad("nil-wrong", "inserting nil stored %s", s.String)
			}
		} else {
			stage = "write zero"
			z := reflect.Zero(p.Type)
			cn.ExecContext(ctx, fmt.Sprintf("DELETE FROM %s WHERE id = %d", tab, id+3))
			if err := h.Insert(c, id+3, z.Interface(), false); err != nil && noZero(p) {
			} else if err != nil {
				bad("zero-error", "inserting the zero value: %v", err)
			} else if got, _, err := h.Select(c, id+3); err != nil {
				bad("zero-error", "reading a written zero value: %v", err)
			} else if g := reflect.ValueOf(got); !p.readsZero(g, z, zeroTxt) {
				bad("zero-wrong", "the zero value reads back as %s", Show(g))
			}
		}
	}
}

// readsZero reports whether a written zero value z may read back as g.
func (p *Pair) readsZero(g, z reflect.Value, zeroTxt string) bool {
	if g.IsZero() || g.Kind() == reflect.Slice && g.Len() == 0 || Equal(p.Base, g, z) || isZeroTime(p, g.Interface()) {
		return true
	}
	if !p.Text {
		return false
	}
	t := g.Convert(reflect.TypeOf("")).String()
	if p.Base == "BPChar" || p.Base == "Char" {
		t = strings.TrimRight(t, " ") // the server pads
	}
	return t == zeroTxt || t == ""
}

// isZeroTime reports whether v is the zero instant, or time of day.
func isZeroTime(p *Pair, v interface{}) bool {
	t, ok := v.(time.Time)
	if !ok {
		return false
	}
	if p.Base == "Time" || p.Base == "Timetz" {
		h, m, s := t.UTC().Clock()
		return h+m+s+t.Nanosecond() == 0
	}
	return t.IsZero()
}

// zeroSQL is the documented zero value of a column type: the one its NULL stands for in fields that can't hold NULL.
func zeroSQL(base string) string {
	if strings.HasSuffix(base, "Array") {
		return "'{}'"
	}
	switch base {
	case "Bit", "Int2", "Int4", "Int8", "Float4", "Float8", "Numeric", "Money":
		return "'0'"
	case "Bool":
		return "false"
	case "Box":
		return "'(0,0),(0,0)'"
	case "Bytea":
		return "'\\x'"
	case "CIDR":
		return "'0.0.0.0/0'"
	case "Inet":
		return "'0.0.0.0'"
	case "Circle":
		return "'<(0,0),0>'"
	case "Date", "Timestamp":
		return "'0001-01-01'"
	case "Timestamptz":
		return "'0001-01-01 00:00:00+00'"
	case "Time", "Timetz", "Interval":
		return "'00:00:00'"
	case "DateRange", "Int4Range", "Int8Range", "NumRange", "TsRange", "TstzRange":
		return "'(,)'"
	case "JSON", "JSONB":
		return "'null'"
	case "Lseg":
		return "'[(0,0),(0,0)]'"
	case "MACAddr":
		return "'00:00:00:00:00:00'"
	case "MACAddr8":
		return "'00:00:00:00:00:00:00:00'"
	case "Path", "Polygon":
		return "'((0,0))'"
	case "Point":
		return "'(0,0)'"
	case "UUID":
		return "'00000000-0000-0000-0000-000000000000'"
	case "Line":
		return ""
	}
	return "''"
}

// noZero: the server has no value for the field's zero value.
func noZero(p *Pair) bool {
	switch p.Base {
	case "Text", "VarChar", "BPChar", "Char", "Bytea":
		return !p.Text
	case "Line":
		return true
	}
	return p.Text
}

func r0(p *Pair) int {
	n := 0
	for _, c := range p.ID[1:] {
		if c >= '0' && c <= '9' {
			n = n*10 + int(c-'0')
		}
	}
	return n * 10
}
