package pgconv

import (
	"context"
	"database/sql"
	"fmt"
	"reflect"
	"strings"
)

// Extreme lists server-side expressions per element type which ordinary round trips do not reach.
// A leading "!" marks values the Go types cannot all denote: a reader may reject those or store a zero value.
var extreme = map[string][]string{
	"BPChar": {"' '", "'\"'", "'\\'", "'}'", "'é'", "'😀'"}, "Char": {"' '", "'\"'", "'\\'", "'{'", "'é'", "','"},
	"Bit": {"B'0'", "B'1'"}, "Bool": {"true", "false"},
	"Box":       {"'(0,0),(0,0)'", "'(-1.5,2e-300),(1e300,-7)'", "!'(Infinity,1),(-Infinity,2)'", "!'(NaN,1),(2,3)'"},
	"Bytea":     {`'\x'`, `'\x00'`, `'\xff00ff'`, `'\x5c22'`, "decode(repeat('ab',3000),'hex')"},
	"CIDR":      {"'0.0.0.0/0'", "'255.255.255.255/32'", "'::/0'", "'::1/128'", "'2001:db8::/33'", "'10.1.0.0/17'"},
	"Date":      {"'0001-01-01'", "'9999-12-31'", "'2000-02-29'", "!'infinity'", "!'-infinity'", "!'0044-03-15 BC'", "!'12345-01-01'"},
	"DateRange": {"'[2000-01-01,2000-01-02)'", "!'empty'", "!'[2000-01-01,)'", "!'(,2000-01-01)'", "!'(,)'", "!'[2000-01-01,infinity)'", "'[2000-01-01,2000-03-01]'", "'(2000-01-01,2000-03-01)'"},
	"Float4":    {"'0'", "'-0'", "'1e-37'", "'3.4028235e38'", "'NaN'", "'Infinity'", "'-Infinity'", "'0.1'"},
	"Float8":    {"'0'", "'-0'", "'5e-324'", "'1.7976931348623157e308'", "'NaN'", "'Infinity'", "'0.1'"},
	"HStore":    {"''", "'a=>NULL'", "'a=>\"\"'", "'\"\"=>\"\"'", "'a=>\"NULL\"'", "'\"a b\"=>\"c\\\"d\", x=>y'", "'\"=>\"=>\",\"'", "hstore(E'k\\\\\\\\','v')", "'N=>N'"},
	"Inet":      {"'0.0.0.0'", "'::'", "'::1'", "'10.0.0.0/8'", "'fe80::/10'", "!'10.0.0.1/8'", "'255.255.255.255'", "!'::ffff:1.2.3.4'"},
	"Int2":      {"'-32768'", "'32767'", "'0'"}, "Int4": {"'-2147483648'", "'2147483647'", "'0'"}, "Int8": {"'-9223372036854775808'", "'9223372036854775807'", "'0'"},
	"Int2Vector": {"''", "'1'", "'-1'", "'1 2 3'", "'32767 -32768'"},
	"Int4Range":  {"!'empty'", "!'[1,)'", "!'(,5]'", "!'(,)'", "'[1,5]'", "'(1,5)'", "'[-2147483648,2147483647)'"},
	"Int8Range":  {"!'empty'", "!'[1,)'", "!'(,5]'", "!'(,)'", "'[1,5]'", "'[-9223372036854775808,9223372036854775807)'"},
	"NumRange":   {"!'empty'", "!'[1,)'", "!'(,5]'", "!'(,)'", "'[1,5)'", "!'[1.5,2.25]'", "!'[1.5,Infinity)'", "'[-3,1000000000000)'"},
	"JSON":       {"'null'", "'{}'", "'[]'", "'\"\"'", `'"\""'`, "'1e400'", "'{\"a\":{\"b\":[null,{},\"}\"]}}'", "'\"NULL\"'", "'{\"\": [\",\"]}'"},
	"Line":       {"'{1,0,0}'", "'{0,1,-1e300}'", "'{-1.5,2.5,3e-5}'"}, "Lseg": {"'[(0,0),(0,0)]'", "'[(-1,2.5),(3e200,-4e-5)]'", "!'[(Infinity,0),(NaN,0)]'"},
	"MACAddr": {"'00:00:00:00:00:00'", "'ff:ff:ff:ff:ff:ff'"}, "MACAddr8": {"'00:00:00:00:00:00:00:00'", "'ff:ff:ff:ff:ff:ff:ff:fe'"},
	"Money":   {"0", "'1234567.89'", "'-0.01'", "'-1234.56'", "'92233720368547758.07'", "'-92233720368547758.08'", "'1000'"},
	"Numeric": {"0", "'NaN'", "!'Infinity'", "!1e100", "!0.1", "!-123456789012345678901234567890.123", "1.00", "9223372036854775807"},
	"Path":    {"'[(0,0)]'", "!'((0,0),(1,1))'", "'[(0,0),(1e300,-1.5),(2,2)]'"}, "Point": {"'(0,0)'", "'(1e300,-1e-300)'", "!'(Infinity,NaN)'"}, "Polygon": {"'((0,0))'", "'((0,0),(1,1),(1,0))'"},
	"TSQuery": {"''", "'a'", "'a & b | !c'", "'''it''''s'''", "'a:*AB'", "'''a b''<->c'"}, "TSVector": {"''", "'a'", "'a:1A b:2,3'", "'''it''''s'''", "'NULL'", "'a b c'"},
	"Text": {"''", "'NULL'", "'null'", "'NULLS'", "','", "'{}'", "'\"'", "E'\\\\'", "E'\\n\\t\\x01'", "repeat('x\"',2000)", "' '", "'é,😀'"},
	"Time": {"'00:00:00'", "'23:59:59.999999'", "!'24:00:00'", "'12:00:00.000001'"}, "Timetz": {"'00:00:00+00'", "'23:59:59.999999-12'", "'12:00:00.5+05:30'", "!'01:02:03+01:02:03'", "!'24:00:00+14'"},
	"Timestamp":   {"'0001-01-01 00:00:00'", "'9999-12-31 23:59:59.999999'", "!'infinity'", "!'-infinity'", "!'0044-03-15 12:00:00 BC'", "'2000-02-29 00:00:00.000001'"},
	"Timestamptz": {"'1900-01-01 00:00:00+00'", "'1850-01-01 00:00:00+00'", "'9999-12-31 20:59:59.999999+00'", "!'infinity'", "!'-infinity'", "!'0044-03-15 12:00:00+00 BC'", "'2021-10-31 00:30:00+00'", "'2021-10-31 01:30:00+00'"},
	"TsRange":     {"!'empty'", "!'[2000-01-01,)'", "!'(,2000-01-01)'", "!'(,)'", "!'[2000-01-01,infinity)'", "'[2000-01-01 01:02:03.000004,2000-01-02)'", "!'[2000-01-01,2000-01-02]'"},
	"TstzRange":   {"!'empty'", "!'[2000-01-01 00:00:00+00,)'", "!'(,2000-01-01 00:00:00+00)'", "!'(,)'", "!'[2000-01-01 00:00:00+00,infinity)'", "'[2000-06-01 01:02:03.000004+00,2000-12-02 00:00:00+00)'"},
	"UUID":        {"'00000000-0000-0000-0000-000000000000'", "'ffffffff-ffff-ffff-ffff-ffffffffffff'"},
	"VarBit":      {"B''", "B'0'", "B'1'", "B'0000'", "B'1010101'", "!('1'||repeat('0',80))::varbit"},
	"VarChar":     {"''", "'NULL'", "E'\\\\'", "'\"'", "','"}, "XML": {"'<a/>'", "'x'", "'<a>\"b\"</a>'", "'<a>\\</a>'"},
}

// TotalCase is one server-produced value.
type TotalCase struct {
	Expr  string
	Exact bool     // every element is denotable by the Go type
	N     int      // number of elements of an array, -1 for scalars
	Null  int      // number of NULL elements
	At    []int    // their positions
	Elems []string // the elements' expressions, "" for NULL; of a scalar just its own
	Class string
}

// TotalCases enumerates server values for c.
func (c *Conv) TotalCases() (out []TotalCase) {
	base := strings.TrimSuffix(c.Base, "Array")
	arr := base != c.Base
	out = append(out, TotalCase{Expr: "NULL::" + c.SQL, Exact: true, N: -1, Class: "null"})
	xs := extreme[base]
	if !arr {
		for _, x := range xs {
			ex := strings.TrimPrefix(x, "!")
			out = append(out, TotalCase{Expr: "(" + ex + ")::" + c.SQL, Exact: ex == x, N: -1, Class: "scalar", Elems: []string{ex}})
		}
		return out
	}
	et := strings.TrimSuffix(c.SQL, "[]")
	mk := func(class string, idx ...int) {
		t := TotalCase{Exact: true, N: len(idx), Class: class}
		var es []string
		for k, i := range idx {
			if i < 0 {
				es = append(es, "NULL")
				t.Null++
				t.At = append(t.At, k)
				t.Elems = append(t.Elems, "")
				continue
			}
			x := xs[i%len(xs)]
			ex := strings.TrimPrefix(x, "!")
			if ex != x {
				t.Exact = false
			}
			es = append(es, "("+ex+")::"+et)
			t.Elems = append(t.Elems, ex)
		}
		t.Expr = "ARRAY[" + strings.Join(es, ",") + "]::" + c.SQL
		out = append(out, t)
	}
	mk("empty")
	for i := range xs {
		mk("one", i)
		mk("two", i, i+1)
		mk("null-first", -1, i)
		mk("null-last", i, -1)
		mk("null-mid", i, -1, i+1, i+2)
	}
	mk("all-null", -1)
	mk("all-null", -1, -1, -1)
	return out
}

// Nilable reports whether NULL has a Go counterpart for t.
func Nilable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface:
		return true
	}
	return false
}

// Total runs one server value through the reader, and what was read back through the writer.
func (c *Conv) Total(ctx context.Context, cn *sql.Conn, t TotalCase) (res []Result, outcome string, err error) {
	bad := func(kind, f string, a ...interface{}) { res = append(res, Result{kind, fmt.Sprintf(f, a...)}) }
	var x raw
	var text sql.NullString
	if er := cn.QueryRowContext(ctx, "SELECT v, ROW(v)::text FROM (SELECT "+t.Expr+" AS v) q").Scan(&x, &text); er != nil {
		return nil, "", fmt.Errorf("%s: %v", t.Expr, er)
	}
	srcs := []interface{}{clone(x.v)}
	if b, ok := x.v.([]byte); ok {
		srcs = append(srcs, string(b))
	}
	for _, src := range srcs {
		dst := reflect.New(c.Type)
		prefill(dst.Elem())
		before := Show(dst.Elem())
		e, p := c.CallScan(dst, src)
		if p != nil {
			bad("panic", "%s(%s) panicked: %v", c.ToName, raws(x.v), p)
			outcome = "panic"
			continue
		}
		if e != nil {
			outcome = "rejected"
			if t.Exact && t.Null == 0 && c.From.IsValid() && !c.narrow() {
				bad("rejected", "%s(%s): %v", c.ToName, raws(x.v), e)
			}
			if after := Show(dst.Elem()); after != before {
				bad("partial", "%s(%s) failed with %v yet changed its destination from %s to %s", c.ToName, raws(x.v), e, before, after)
			}
			continue
		}
		outcome = "read"
		d := dst.Elem()
		if src == nil {
			if Nilable(c.Type) && !d.IsNil() {
				bad("null-kept", "%s(NULL) left %s in the destination", c.ToName, Show(d))
			}
			outcome = "null"
			if !Nilable(c.Type) {
				continue
			}
		}
		if t.N >= 0 && src != nil {
			n := -1
			switch d.Kind() {
			case reflect.Slice:
				n = d.Len()
			case reflect.String:
				n = len([]rune(d.String()))
			}
			if n >= 0 && n != t.N && !(d.Type() == reflect.TypeOf([]byte(nil)) && c.Suffix == "ByteSlice") {
				bad("count", "%s(%s) produced %d elements for %d: %s", c.ToName, raws(x.v), n, t.N, Show(d))
				continue
			}
		}
		if d.Kind() == reflect.Slice && d.Len() == t.N {
			for _, k := range t.At {
				if e := d.Index(k); !e.IsZero() {
					bad("null-garbage", "%s(%s) turned the NULL at %d into %s", c.ToName, raws(x.v), k, Show(e))
				}
			}
		}
		for _, m := range c.apart(ctx, cn, t, d) {
			bad("misplaced", "%s(%s) %s", c.ToName, raws(x.v), m)
		}
		if !c.From.IsValid() {
			continue
		}
		dv, e, p := c.CallValue(d)
		if p != nil {
			bad("writeback-panic", "%s(%s) panicked: %v", c.FromName, Show(d), p)
			continue
		}
		elemNilable := t.Null > 0 && d.Kind() == reflect.Slice && Nilable(d.Type().Elem())
		if c.Suffix == "Byte" && strings.Contains(c.Base, "Char") && strings.ContainsAny(t.Expr, "é😀") {
			continue // not a single byte
		}
		if strings.HasPrefix(c.Suffix, "IP") && !strings.HasPrefix(c.Suffix, "IPNet") && strings.Contains(t.Expr, "/") {
			continue // an address cannot denote a network
		}
		if strings.Contains(c.Suffix, "Float32") && !strings.HasPrefix(c.Base, "Float4") {
			continue // rounds
		}
		exact := t.Exact && (t.Null == 0 || elemNilable) && !(c.Suffix == "ByteSlice" && strings.Contains(c.Base, "Char"))
		if e != nil {
			if exact {
				bad("writeback-error", "%s(%s): %v", c.FromName, Show(d), e)
			}
			continue
		}
		if !exact {
			continue
		}
		var got sql.NullString
		if er := cn.QueryRowContext(ctx, "SELECT ROW($1::"+c.SQL+")::text", clone(dv)).Scan(&got); er != nil {
			bad("writeback-rejected", "%s read %s as %s; %s wrote %s: server: %v", c.ToName, text.String, Show(d), c.FromName, raws(dv), er)
		} else if got != text {
			if c.lossy() {
				continue
			}
			bad("writeback-wrong", "%s read %s as %s, which %s writes as %s", c.ToName, text.String, Show(d), c.FromName, got.String)
		}
	}
	return res, outcome, nil
}

// elems is d as a list of its elements' renderings, nil if it isn't a list.
func elems(d reflect.Value) (out []string) {
	switch d.Kind() {
	case reflect.String:
		for _, r := range d.String() {
			out = append(out, string(r))
		}
	case reflect.Slice:
		for i := 0; i < d.Len(); i++ {
			e := d.Index(i)
			if m, ok := e.Interface().(map[string]*string); ok && m != nil {
				n := map[string]interface{}{}
				for k, v := range m {
					n[k] = nil
					if v != nil {
						n[k] = *v
					}
				}
				e = reflect.ValueOf(n)
			}
			out = append(out, Show(e))
		}
	}
	return out
}

// readExpr reads what the server sends for an expression into a fresh value, and reports whether the
// reader accepts it.
func (c *Conv) readExpr(ctx context.Context, cn *sql.Conn, expr string) (d reflect.Value, ok bool) {
	var x raw
	if err := cn.QueryRowContext(ctx, "SELECT ("+expr+")::"+c.SQL).Scan(&x); err != nil {
		return d, false
	}
	dst := reflect.New(c.Type)
	prefill(dst.Elem())
	if e, p := c.CallScan(dst, clone(x.v)); e != nil || p != nil {
		return d, false
	}
	return dst.Elem(), true
}

// bounds are values for the missing bounds of a range.
var bounds = map[string][2]string{"DateRange": {"1990-01-01", "2090-01-01"}, "TsRange": {"1990-01-01", "2090-01-01"}, "TstzRange": {"1990-01-01 00:00:00+00", "2090-01-01 00:00:00+00"},
	"Int4Range": {"0", "100"}, "Int8Range": {"0", "100"}, "NumRange": {"0", "100"}}

// apart compares what was read with the readings of its parts: each element of an array has to be what
// the reader makes of it in an array of its own, and each bound of a range that lacks the other one
// has to be what it is in a range that has both, the missing one being the zero value.
func (c *Conv) apart(ctx context.Context, cn *sql.Conn, t TotalCase, d reflect.Value) (out []string) {
	base := strings.TrimSuffix(c.Base, "Array")
	et := strings.TrimSuffix(c.SQL, "[]")
	wrap := func(e string) string {
		if t.N >= 0 {
			return "ARRAY[(" + e + ")::" + et + "]"
		}
		return e
	}
	if t.N > 1 {
		es := elems(d)
		if len(es) != t.N {
			return nil
		}
		for k, e := range t.Elems {
			if e == "" {
				continue
			}
			d1, ok := c.readExpr(ctx, cn, wrap(e))
			if !ok {
				out = append(out, fmt.Sprintf("was accepted although its element %d is refused on its own", k))
				continue
			}
			if e1 := elems(d1); len(e1) == 1 && e1[0] != es[k] {
				out = append(out, fmt.Sprintf("has %s at %d, which is read as %s on its own", es[k], k, e1[0]))
			}
		}
		return out
	}
	bs, ok := bounds[base]
	if !ok || len(t.Elems) != 1 || t.Elems[0] == "" || strings.Contains(t.Elems[0], "infinity") || strings.Contains(t.Elems[0], "Infinity") {
		return nil
	}
	if t.N == 1 {
		if d.Kind() != reflect.Slice || d.Len() != 1 {
			return nil
		}
		d = d.Index(0)
	}
	x := "(" + t.Elems[0] + ")::" + et
	var lo, hi sql.NullString
	var empty bool
	if err := cn.QueryRowContext(ctx, "SELECT lower("+x+")::text, upper("+x+")::text, isempty("+x+")").Scan(&lo, &hi, &empty); err != nil || empty || lo.Valid == hi.Valid && lo.Valid || d.Kind() != reflect.Array {
		return nil
	}
	has := [2]bool{lo.Valid, hi.Valid}
	if !lo.Valid {
		lo.String = bs[0]
	}
	if !hi.Valid {
		hi.String = bs[1]
	}
	full, ok := c.readExpr(ctx, cn, wrap("'["+lo.String+","+hi.String+")'::"+et))
	if !ok {
		return nil
	}
	if t.N == 1 {
		full = full.Index(0)
	}
	for i := 0; i < 2; i++ {
		switch {
		case has[i] && Show(d.Index(i)) != Show(full.Index(i)):
			out = append(out, fmt.Sprintf("has the bound %s, which is read as %s where the other bound is given", Show(d.Index(i)), Show(full.Index(i))))
		case !has[i] && !d.Index(i).IsZero():
			out = append(out, fmt.Sprintf("has %s for a bound that is missing", Show(d.Index(i))))
		}
	}
	return out
}

// narrow: the Go type cannot denote every value of the database type.
func (c *Conv) narrow() bool {
	b := c.Base
	if strings.HasPrefix(b, "Int") || strings.HasPrefix(b, "Num") || strings.HasPrefix(b, "VarBit") || strings.HasPrefix(b, "Float") || strings.Contains(b, "Char") && !strings.HasPrefix(b, "VarChar") {
		return true
	}
	return false
}

// lossy: reading may round.
func (c *Conv) lossy() bool {
	return strings.Contains(c.Suffix, "Float32") || strings.Contains(c.Suffix, "Float64") && !strings.HasPrefix(c.Base, "Float8") && (strings.HasPrefix(c.Base, "Int8") || strings.HasPrefix(c.Base, "Num")) ||
		strings.HasPrefix(c.Base, "VarBit") && strings.HasPrefix(c.Suffix, "Int64") || strings.HasPrefix(c.Suffix, "StringMap")
}
