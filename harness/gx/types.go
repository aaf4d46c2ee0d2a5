package gx

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// V is a column value: NULL, scalar text, or list.
type V struct {
	Null bool
	S    string
	L    []V // for array kinds; nil is a nil slice when Null
}

// GT is a Go field type able to hold a column kind.
type GT struct {
	Src  string // Go source of the type, without a leading *
	Ptr  bool
	Kind string // family of literals: int float string bool time strs ints bytes js
	Conv bool   // goes through a converter or Valuer/Scanner: no NULLIF and no COALESCE
}

func (g GT) src() string {
	if g.Ptr {
		return "*" + g.Src
	}
	return g.Src
}

// goTypes lists the Go types used for a column kind (the full compatibility table is C35's business).
func goTypes(kind string) []GT {
	switch kind {
	case "int2":
		return []GT{{Src: "int16", Kind: "int"}, {Src: "int", Kind: "int"}, {Src: "int16", Ptr: true, Kind: "int"}}
	case "int4":
		return []GT{{Src: "int", Kind: "int"}, {Src: "int32", Kind: "int"}, {Src: "int64", Kind: "int"}, {Src: "int", Ptr: true, Kind: "int"}, {Src: "m.Num", Kind: "int"}}
	case "int8":
		return []GT{{Src: "int64", Kind: "int"}, {Src: "int64", Ptr: true, Kind: "int"}}
	case "float8":
		return []GT{{Src: "float64", Kind: "float"}, {Src: "float64", Ptr: true, Kind: "float"}}
	case "text":
		return []GT{{Src: "string", Kind: "string"}, {Src: "string", Ptr: true, Kind: "string"}, {Src: "m.Str", Kind: "string"}, {Src: "m.Wrap", Kind: "wrap", Conv: true}}
	case "bool":
		return []GT{{Src: "bool", Kind: "bool"}, {Src: "bool", Ptr: true, Kind: "bool"}}
	case "tstz":
		return []GT{{Src: "time.Time", Kind: "time"}, {Src: "time.Time", Ptr: true, Kind: "time"}}
	case "date":
		return []GT{{Src: "time.Time", Kind: "time"}}
	case "texts":
		return []GT{{Src: "[]string", Kind: "strs", Conv: true}}
	case "ints":
		return []GT{{Src: "[]int", Kind: "ints", Conv: true}, {Src: "[]int64", Kind: "ints", Conv: true}}
	case "jsonb":
		return []GT{{Src: "m.JS", Kind: "js", Conv: true}, {Src: "map[string]string", Kind: "js", Conv: true}}
	case "bytea":
		return []GT{{Src: "[]byte", Kind: "bytes"}}
	case "uuid":
		return []GT{{Src: "string", Kind: "string"}, {Src: "string", Ptr: true, Kind: "string"}}
	}
	panic(kind)
}

func sqlType(kind string) string {
	switch kind {
	case "tstz":
		return "timestamptz"
	case "texts":
		return "text[]"
	case "ints":
		return "int4[]"
	}
	return kind
}

func quote(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

// sqlLit writes v as a literal of the column kind.
func sqlLit(kind string, v V) string {
	if v.Null {
		return "NULL::" + sqlType(kind)
	}
	switch kind {
	case "texts", "ints":
		var ps []string
		for _, e := range v.L {
			if e.Null {
				ps = append(ps, "NULL")
			} else {
				ps = append(ps, quote(e.S))
			}
		}
		return "ARRAY[" + strings.Join(ps, ",") + "]::" + sqlType(kind)
	case "bytea":
		return "'\\x" + hex.EncodeToString([]byte(v.S)) + "'::bytea"
	}
	s := v.S
	if kind == "text" {
		return "(" + quote(s) + ")::text"
	}
	if strings.HasPrefix(s, "-") || kind != "" {
		return "(" + quote(s) + ")::" + sqlType(kind)
	}
	return quote(s) + "::" + sqlType(kind)
}

// goLit writes v as a Go expression of type g.
func goLit(g GT, v V) string {
	if g.Ptr {
		if v.Null {
			return "nil"
		}
		h := g
		h.Ptr = false
		return "rt.P[" + g.Src + "](" + goLit(h, v) + ")"
	}
	switch g.Kind {
	case "int", "float":
		return g.Src + "(" + v.S + ")"
	case "string":
		return g.Src + "(" + strconv.Quote(v.S) + ")"
	case "wrap":
		return "m.Wrap{S: " + strconv.Quote(v.S) + "}"
	case "bool":
		return v.S
	case "time":
		if v.S == zeroTime {
			return "time.Time{}"
		}
		return "rt.T(" + strconv.Quote(v.S) + ")"
	case "strs", "ints":
		if v.Null {
			return g.Src + "(nil)"
		}
		var ps []string
		for _, e := range v.L {
			if g.Kind == "strs" {
				ps = append(ps, strconv.Quote(e.S))
			} else {
				ps = append(ps, e.S)
			}
		}
		return g.Src + "{" + strings.Join(ps, ", ") + "}"
	case "bytes":
		if v.Null {
			return "[]byte(nil)"
		}
		return "[]byte(" + strconv.Quote(v.S) + ")"
	case "js":
		if v.Null {
			return g.Src + "(nil)"
		}
		m := map[string]string{}
		json.Unmarshal([]byte(v.S), &m)
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var ps []string
		for _, k := range ks {
			ps = append(ps, strconv.Quote(k)+": "+strconv.Quote(m[k]))
		}
		return g.Src + "{" + strings.Join(ps, ", ") + "}"
	}
	panic(g.Kind)
}

const zeroTime = "0001-01-01T00:00:00Z"

// isZero: is v the zero value of its Go type.
func isZero(g GT, v V) bool {
	if v.Null {
		return true
	}
	switch g.Kind {
	case "int", "float":
		return v.S == "0"
	case "string", "wrap":
		return v.S == ""
	case "bool":
		return v.S == "false"
	case "time":
		return v.S == zeroTime
	case "bytes":
		return v.S == ""
	}
	return false
}

func zeroV(g GT) V {
	if g.Ptr {
		return V{Null: true}
	}
	switch g.Kind {
	case "int", "float":
		return V{S: "0"}
	case "string", "wrap":
		return V{S: ""}
	case "bool":
		return V{S: "false"}
	case "time":
		return V{S: zeroTime}
	}
	return V{Null: true}
}

// dumpOf is what rt.Dump shows for v held by type g.
func dumpOf(g GT, v V) interface{} {
	if v.Null {
		if g.Ptr || g.Kind == "strs" || g.Kind == "ints" || g.Kind == "js" || g.Kind == "bytes" {
			return nil
		}
		return dumpOf(g, zeroV(g))
	}
	switch g.Kind {
	case "int", "string", "bool", "time":
		return v.S
	case "wrap":
		return map[string]interface{}{"S": v.S}
	case "float":
		f, err := strconv.ParseFloat(v.S, 64)
		if err != nil {
			panic(err)
		}
		return strconv.FormatFloat(f, 'g', -1, 64)
	case "strs", "ints":
		l := []interface{}{}
		for _, e := range v.L {
			if e.Null {
				l = append(l, map[string]interface{}{"strs": "", "ints": "0"}[g.Kind])
			} else {
				l = append(l, e.S)
			}
		}
		return l
	case "bytes":
		return "x:" + hex.EncodeToString([]byte(v.S))
	case "js":
		m := map[string]string{}
		if err := json.Unmarshal([]byte(v.S), &m); err != nil {
			panic(err)
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "map"
		for _, k := range ks {
			q, _ := json.Marshal(m[k])
			s += " " + strconv.Quote(k) + "=" + string(q)
		}
		return s
	}
	panic(g.Kind)
}

// canonExpr is an SQL expression giving the text parseCanon understands.
func canonExpr(kind, x string) string {
	switch kind {
	case "tstz":
		return "to_char(" + x + " AT TIME ZONE 'UTC', 'YYYY-MM-DD\"T\"HH24:MI:SS.US')"
	case "date":
		return "to_char(" + x + ", 'YYYY-MM-DD')"
	case "texts", "ints":
		return "to_json(" + x + ")::text"
	case "bytea":
		return "encode(" + x + ", 'hex')"
	case "bool":
		return "CASE WHEN " + x + " THEN 'true' WHEN NOT " + x + " THEN 'false' END"
	}
	return x + "::text"
}

func parseCanon(kind string, s *string) V {
	if s == nil {
		return V{Null: true}
	}
	t := *s
	switch kind {
	case "tstz":
		if strings.Contains(t, ".") {
			t = strings.TrimRight(strings.TrimRight(t, "0"), ".")
		}
		return V{S: t + "Z"}
	case "date":
		return V{S: t + "T00:00:00Z"}
	case "texts", "ints":
		var l []interface{}
		d := json.NewDecoder(strings.NewReader(t))
		d.UseNumber()
		if err := d.Decode(&l); err != nil {
			panic(err)
		}
		v := V{L: []V{}}
		for _, e := range l {
			if e == nil {
				v.L = append(v.L, V{Null: true})
			} else {
				v.L = append(v.L, V{S: fmt.Sprint(e)})
			}
		}
		return v
	case "jsonb":
		if t == "null" { // decodes like an absent value
			return V{Null: true}
		}
	case "bytea":
		b, err := hex.DecodeString(t)
		if err != nil {
			panic(err)
		}
		return V{S: string(b)}
	}
	return V{S: t}
}

// domain is the values used for a column kind: those in the seeded rows plus others around them.
func domain(kind string) []string {
	switch kind {
	case "int2":
		return []string{"1", "2", "7", "-3", "0", "3", "32767", "-32768"}
	case "int4":
		return []string{"1", "2", "3", "31", "0", "17", "9", "10", "20", "4", "-1", "2147483647", "-2147483648"}
	case "int8":
		return []string{"10", "-4", "0", "5", "9007199254740993", "9223372036854775807", "1", "3", "-9223372036854775808"}
	case "float8":
		return []string{"1.5", "-2.25", "0", "1e10", "0.1", "-0.5"}
	case "text":
		return []string{"Ann", "Bob", "dan", "", "a", "b", "n", "c1", "none", "%a_", "O'B", "x", "v1", "acme", "k1", "ann@x.io", "bob@x.io", "A%", "%n", "a\\b", "\"q\"", "žř", "$1", "a;b--", "x%_"}
	case "bool":
		return []string{"true", "false"}
	case "tstz":
		return []string{"2021-01-01T10:00:00Z", "2021-02-01T10:00:00Z", "2020-01-02T03:04:05Z", "2021-06-01T00:00:00.123456Z", "2022-01-01T10:00:00Z", "1999-12-31T23:59:59.999999Z", zeroTime}
	case "date":
		return []string{"1990-02-28T00:00:00Z", "2000-12-31T00:00:00Z", "2020-02-29T00:00:00Z", zeroTime}
	case "jsonb":
		return []string{`{"k":"v"}`, `{}`, `{"a":"1","b":"2"}`, `{"x":"y'z"}`}
	case "bytea":
		return []string{"\x01\x02", "", "\x00\xff", "a", "\\x41"}
	case "uuid":
		return []string{"6ba7b810-9dad-11d1-80b4-00c04fd430c8", "00000000-0000-0000-0000-000000000000", "6ba7b811-9dad-11d1-80b4-00c04fd430c8"}
	}
	panic(kind)
}

// genV draws a value of type g for a column kind. nullable: NULLs may be drawn where g can hold them.
func genV(r *rand.Rand, kind string, g GT) V {
	if (g.Ptr || g.Kind == "strs" || g.Kind == "js" || g.Kind == "ints" || g.Kind == "bytes") && r.Intn(4) == 0 {
		return V{Null: true}
	}
	switch kind {
	case "texts", "ints":
		n := r.Intn(4)
		v := V{L: []V{}}
		ek := map[string]string{"texts": "text", "ints": "int4"}[kind]
		for i := 0; i < n; i++ {
			d := domain(ek)
			v.L = append(v.L, V{S: d[r.Intn(len(d))]})
		}
		return v
	}
	d := domain(kind)
	s := d[r.Intn(len(d))]
	if kind == "uuid" && !g.Ptr && r.Intn(4) == 0 {
		s = ""
	}
	if kind == "int2" && g.Src == "int16" {
		return V{S: s}
	}
	if g.Kind == "wrap" && s == "" {
		return V{Null: true}
	}
	if g.Kind == "time" && g.Ptr && s == zeroTime {
		s = d[0]
	}
	return V{S: s}
}
