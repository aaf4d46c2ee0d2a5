package pgconv

import (
	"database/sql"
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"net"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Conv is one writer/reader pair of the library.
type Conv struct {
	Name     string // "Int2Array|IntSlice"
	Base     string // "Int2Array"
	Suffix   string // "IntSlice"
	From, To reflect.Value
	FromName string
	ToName   string
	Type     reflect.Type // Go value type
	SQL      string       // PostgreSQL type
}

var sqlTypes = map[string]string{
	"BPChar": "bpchar(1)", "Bit": "bit(1)", "Bool": "bool", "Box": "box", "Bytea": "bytea", "CIDR": "cidr", "Char": "char(1)",
	"Date": "date", "DateRange": "daterange", "Float4": "float4", "Float8": "float8", "HStore": "hstore", "Inet": "inet",
	"Int2": "int2", "Int2Vector": "int2vector", "Int4": "int4", "Int4Range": "int4range", "Int8": "int8", "Int8Range": "int8range",
	"JSON": "jsonb", "Line": "line", "Lseg": "lseg", "MACAddr": "macaddr", "MACAddr8": "macaddr8", "Money": "money", "NumRange": "numrange",
	"Numeric": "numeric", "Path": "path", "Point": "point", "Polygon": "polygon", "TSQuery": "tsquery", "TSVector": "tsvector",
	"Text": "text", "Time": "time", "Timestamp": "timestamp", "Timestamptz": "timestamptz", "Timetz": "timetz", "TsRange": "tsrange",
	"TstzRange": "tstzrange", "UUID": "uuid", "VarBit": "varbit", "VarChar": "varchar", "XML": "xml",
}

// Convs enumerates every From/To pair in Registry. Unpaired readers have an invalid From.
func Convs() (out []Conv, err error) {
	names := make([]string, 0, len(Registry))
	for n := range Registry {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if n == "JSON" || n == "XML" || n == "AnyToEmptyInterface" {
			continue
		}
		fn := reflect.ValueOf(Registry[n])
		if i := strings.Index(n, "From"); i > 0 {
			base, suf := n[:i], n[i+4:]
			c := Conv{Name: base + "|" + suf, Base: base, Suffix: suf, From: fn, FromName: n, Type: fn.Type().In(0)}
			if to, ok := Registry[base+"To"+suf]; ok {
				c.To = reflect.ValueOf(to)
				c.ToName = base + "To" + suf
			}
			out = append(out, c)
		} else if i := strings.Index(n, "To"); i > 0 {
			base, suf := n[:i], n[i+2:]
			if _, ok := Registry[base+"From"+suf]; ok {
				continue
			}
			out = append(out, Conv{Name: base + "|" + suf, Base: base, Suffix: suf, To: fn, ToName: n, Type: fn.Type().In(0).Elem()})
		} else {
			return nil, fmt.Errorf("unclassified %s", n)
		}
	}
	for i := range out {
		b := out[i].Base
		if s, ok := sqlTypes[b]; ok {
			out[i].SQL = s
		} else if s, ok := sqlTypes[strings.TrimSuffix(b, "Array")]; ok && strings.HasSuffix(b, "Array") {
			out[i].SQL = s + "[]"
		} else {
			return nil, fmt.Errorf("no sql type for %s", b)
		}
	}
	return out, nil
}

// Lit quotes s as an SQL literal (E” form where needed).
func Lit(s string) string {
	if strings.Contains(s, `\`) {
		return `E'` + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `'`, `''`) + `'`
	}
	return `'` + strings.ReplaceAll(s, `'`, `''`) + `'`
}

var hostile = []string{"", "a", "NULL", "null", "N", "Nx", "\"", "\\", "\\\\", "\\\"", ",", "{", "}", "{}", "{a,b}", "a,b", " ", "  a ", "\t", "\n", "\r\n", "'", "''", "=>", "\"=>\"", "a=>b",
	"é", "日本語", "😀", "a\"b\\c,d{e}f'g", "(1,2)", "[", "]", ";", "$1", "%", "NULL,", ",NULL", "\"\"", "\\N", "NULLS", "xN", "\u00a0", "\u2028", "\x01", "\x7f", "long-" + "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"}

const alphabet = "aN\"\\,{}' =>()[]é日;\t"

func Str(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0, 1:
		return hostile[r.Intn(len(hostile))]
	case 2:
		rs := []rune(alphabet)
		n := r.Intn(9)
		b := make([]rune, n)
		for i := range b {
			b[i] = rs[r.Intn(len(rs))]
		}
		return string(b)
	}
	n := r.Intn(12)
	b := make([]rune, n)
	for i := range b {
		b[i] = Rune(r)
	}
	return string(b)
}

func Rune(r *rand.Rand) rune {
	for {
		var c rune
		switch r.Intn(4) {
		case 0:
			c = rune(1 + r.Intn(126))
		case 1:
			rs := []rune(alphabet)
			c = rs[r.Intn(len(rs))]
		case 2:
			c = rune(0x80 + r.Intn(0x3000))
		default:
			c = rune(0x1F300 + r.Intn(0x200))
		}
		if c >= 0xD800 && c <= 0xDFFF {
			continue
		}
		return c
	}
}

func intBounds(base string) (lo, hi int64) {
	switch base {
	case "Int2", "Int2Vector":
		return math.MinInt16, math.MaxInt16
	case "Int4", "Int4Range":
		return math.MinInt32, math.MaxInt32
	}
	return math.MinInt64, math.MaxInt64
}

// intIn yields an integer representable both in the database type and the Go type.
func intIn(r *rand.Rand, base string, t reflect.Type) (string, reflect.Value) {
	lo, hi := intBounds(base)
	uhi := uint64(hi)
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Float32, reflect.Float64:
		m := int64(1) << 53
		if t.Kind() == reflect.Float32 {
			m = 1 << 24
		}
		if lo < -m {
			lo = -m
		}
		if hi > m {
			hi = m
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := uint(t.Bits())
		l, h := int64(-1)<<(b-1), int64(uint64(1)<<(b-1)-1)
		if l > lo {
			lo = l
		}
		if h < hi {
			hi = h
		}
	default:
		b := uint(t.Bits())
		h := ^uint64(0) >> (64 - b)
		lo = 0
		if base == "Numeric" || base == "NumRange" {
			uhi = h
		} else if h < uhi {
			uhi = h
		}
		var n uint64
		switch r.Intn(5) {
		case 0:
			n = uhi
		case 1:
			n = 0
		case 2:
			n = uint64(r.Intn(10))
			if n > uhi {
				n = uhi
			}
		case 3:
			n = uhi - uint64(r.Intn(5))
		default:
			n = r.Uint64()
			if uhi != ^uint64(0) {
				n %= uhi + 1
			}
		}
		v.SetUint(n)
		return strconv.FormatUint(n, 10), v
	}
	var n int64
	switch r.Intn(6) {
	case 0:
		n = lo
	case 1:
		n = hi
	case 2:
		n = 0
	case 3:
		n = int64(r.Intn(21) - 10)
	case 4:
		n = hi - int64(r.Intn(5))
	default:
		if hi == math.MaxInt64 {
			n = int64(r.Uint64())
		} else {
			n = lo + r.Int63n(hi-lo+1)
		}
	}
	if v.CanInt() {
		v.SetInt(n)
	} else {
		v.SetFloat(float64(n))
	}
	return strconv.FormatInt(n, 10), v
}

func floatIn(r *rand.Rand, base string, t reflect.Type, special bool) (string, reflect.Value) {
	v := reflect.New(t).Elem()
	bits := t.Bits()
	if base == "Float4" {
		bits = 32
	}
	var f float64
	switch n := r.Intn(10); {
	case special && n == 0:
		f = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)]
	case n == 1:
		f = 0
	case n == 2:
		f = float64(r.Intn(2000)-1000) / 8
	case n == 3:
		f = float64(r.Intn(2000)-1000) / 100
	case n == 4:
		f = math.Ldexp(r.NormFloat64(), r.Intn(60)-30)
	case n == 5:
		f = float64(r.Intn(1 << 20))
	default:
		f = r.NormFloat64() * 1000
	}
	if n := r.Intn(12); n == 0 && bits == 64 && base != "geo" {
		f = r.NormFloat64() * 1e300
	} else if n == 1 && bits == 64 && base != "geo" {
		f = r.NormFloat64() * 1e-300
	}
	if bits == 32 {
		f = float64(float32(f))
	}
	v.SetFloat(f)
	return fstr(f, bits), v
}

func fstr(f float64, bits int) string {
	switch {
	case math.IsNaN(f):
		return "NaN"
	case math.IsInf(f, 1):
		return "Infinity"
	case math.IsInf(f, -1):
		return "-Infinity"
	}
	return strconv.FormatFloat(f, 'g', -1, bits)
}

func geo(r *rand.Rand) float64 {
	switch r.Intn(5) {
	case 0:
		return float64(r.Intn(11) - 5)
	case 1:
		return float64(r.Intn(2000)-1000) / 8
	case 2:
		return r.NormFloat64() * 1e6
	case 3:
		return math.Ldexp(float64(r.Intn(1000)+1), r.Intn(200)-100)
	}
	return r.NormFloat64()
}
func gs(f float64) string             { return strconv.FormatFloat(f, 'g', -1, 64) + "::float8" }
func pt(p [2]float64) string          { return "point(" + gs(p[0]) + "," + gs(p[1]) + ")" }
func gpt(r *rand.Rand) [2]float64     { return [2]float64{geo(r), geo(r)} }
func gstr(f float64) string           { return strconv.FormatFloat(f, 'g', -1, 64) }
func val(x interface{}) reflect.Value { return reflect.ValueOf(x) }

var zones = []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("", 5*3600+1800), time.FixedZone("", -8*3600), time.FixedZone("", -(3*3600 + 1800)), time.FixedZone("", 12*3600+45*60), time.FixedZone("", -12*3600)}

func Time(r *rand.Rand, zone bool) time.Time {
	loc := time.UTC
	if zone {
		loc = zones[r.Intn(len(zones))]
	}
	y := 1900 + r.Intn(200)
	if r.Intn(5) == 0 {
		y = 2 + r.Intn(9990)
	}
	us := 0
	switch r.Intn(4) {
	case 0:
		us = r.Intn(1000000)
	case 1:
		us = r.Intn(1000) * 1000
	case 2:
		us = []int{1, 999999, 100000, 10, 999000, 500}[r.Intn(6)]
	}
	return time.Date(y, time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), us*1000, loc)
}

// onDay is a time of d's calendar day in some zone: a date is the day on the time's own calendar.
func onDay(r *rand.Rand, d time.Time) time.Time {
	if r.Intn(3) == 0 {
		return d
	}
	return time.Date(d.Year(), d.Month(), d.Day(), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1000000)*1000, zones[r.Intn(len(zones))])
}

// sameClock is d's wall clock in some zone: a timestamp without zone is the wall clock.
func sameClock(r *rand.Rand, d time.Time) time.Time {
	if r.Intn(3) == 0 {
		return d
	}
	return time.Date(d.Year(), d.Month(), d.Day(), d.Hour(), d.Minute(), d.Second(), d.Nanosecond(), zones[r.Intn(len(zones))])
}

func ipnet(r *rand.Rand, mask bool) net.IPNet {
	n := 4
	if r.Intn(2) == 0 {
		n = 16
	}
	ip := make(net.IP, n)
	r.Read(ip)
	if n == 16 {
		ip[0] = 0x20
	}
	ones := r.Intn(n*8 + 1)
	if r.Intn(4) == 0 {
		ones = n * 8
	}
	m := net.CIDRMask(ones, n*8)
	if mask {
		ip = ip.Mask(m)
	}
	return net.IPNet{IP: ip, Mask: m}
}

var jsonDocs = []string{`{}`, `[]`, `null`, `"a"`, `1`, `true`, `{"a": 1}`, `{"a": "x,y"}`, `["a", "b\"c", "\\"]`, `{"k": null}`, `"NULL"`, `{"q": "\"\\\"{}"}`, `{"u": "é😀"}`, `{"n": {"m": [1, 2, {"z": "}"}]}}`, `""`, `{"": ""}`, `"a b"`, `[1, 2.5, -3]`, `"\\"`, `"tab\t"`}
var xmlDocs = []string{`<a/>`, `<a>b</a>`, `<a b="c"/>`, `<a>"q",'s'</a>`, `<a>\</a>`, `<a>{x}</a>`, `<a>é</a>`, `<a><b>1</b><b>2</b></a>`, `<a>NULL</a>`, `text`, `<a>x,y</a>`}
var tsqDocs = []string{`'fat'`, `'fat' & 'rat'`, `'fat' | 'rat' & !'cat'`, `'a' <-> 'b'`, `'super':*`, `'fat':AB`, `( 'a' | 'b' ) & 'c'`, `'it''s'`, `'a,b'`, `'a"b'`, `'a\\b'`, `'NULL'`, `'x y'`}
var words = []string{"a", "fat", "cat", "sat", "on", "mat", "rat", "N", "NULL", "NUL", "Nx", "zebra", "é", "日本", "x1"}

// Gen yields a value of c's Go type, an SQL expression denoting the same database value (built without the
// library) and the value the reader must produce for it.
func (c *Conv) Gen(r *rand.Rand) (v reflect.Value, expr string, want reflect.Value, shape string) {
	v, expr, want, shape = gen(r, c.Base, c.Suffix, c.Type)
	return
}

func gen(r *rand.Rand, base, suffix string, t reflect.Type) (v reflect.Value, expr string, want reflect.Value, shape string) {
	if strings.HasSuffix(base, "Array") {
		return genArray(r, strings.TrimSuffix(base, "Array"), suffix, t)
	}
	v, expr, want, shape = genElem(r, base, t)
	if !want.IsValid() {
		want = v
	}
	if shape == "" {
		shape = base
	}
	return
}

func genArray(r *rand.Rand, base, suffix string, t reflect.Type) (v reflect.Value, expr string, want reflect.Value, shape string) {
	n := []int{0, 1, 1, 2, 2, 3, 4, 7}[r.Intn(8)]
	st := sqlTypes[base]
	exprs := make([]string, n)
	charlike := base == "Char" || base == "BPChar"
	if charlike && t.Kind() == reflect.String {
		var sb strings.Builder
		for i := range exprs {
			c := Rune(r)
			sb.WriteRune(c)
			exprs[i] = Lit(string(c))
		}
		v = val(sb.String())
		want = v
	} else {
		v = reflect.MakeSlice(t, n, n)
		want = reflect.MakeSlice(t, n, n)
		et := t.Elem()
		nullable := et.Kind() == reflect.Slice && !charlike && et != reflect.TypeOf(net.IP(nil)) && et != reflect.TypeOf(net.HardwareAddr(nil)) || et.Kind() == reflect.Map
		for i := range exprs {
			if nullable && base != "Int2Vector" && base != "Path" && base != "Polygon" && r.Intn(7) == 0 {
				exprs[i] = "NULL"
				shape += "0"
				continue
			}
			ev, ex, ew, es := genElem(r, base, et)
			if !ew.IsValid() {
				ew = ev
			}
			v.Index(i).Set(ev)
			want.Index(i).Set(ew)
			exprs[i] = ex
			shape += es
		}
	}
	if n == 0 {
		return v, "'{}'::" + st + "[]", want, "{}"
	}
	return v, "ARRAY[" + strings.Join(exprs, ",") + "]::" + st + "[]", want, fmt.Sprintf("n%d%s", n, shape)
}

func strShape(s string) string {
	var b [8]bool
	for _, c := range s {
		switch {
		case c == '"':
			b[0] = true
		case c == '\\':
			b[1] = true
		case c == ',':
			b[2] = true
		case c == '{' || c == '}':
			b[3] = true
		case c <= ' ':
			b[4] = true
		case c > 127:
			b[5] = true
		case c == 'N':
			b[6] = true
		default:
			b[7] = true
		}
	}
	out := "s"
	for i, x := range b {
		if x {
			out += strconv.Itoa(i)
		}
	}
	return out
}

func genElem(r *rand.Rand, base string, t reflect.Type) (v reflect.Value, expr string, want reflect.Value, shape string) {
	switch base {
	case "Bit":
		n := r.Intn(2)
		v = reflect.New(t).Elem()
		if t.Kind() == reflect.Bool {
			v.SetBool(n == 1)
		} else {
			v.SetUint(uint64(n))
		}
		return v, fmt.Sprintf("B'%d'::bit(1)", n), want, strconv.Itoa(n)
	case "VarBit":
		switch t.Kind() {
		case reflect.Int64:
			n := int64(r.Uint64() >> (1 + uint(r.Intn(63))))
			return val(n), "B'" + strconv.FormatInt(n, 2) + "'::varbit", want, fmt.Sprint("b", len(strconv.FormatInt(n, 2)))
		}
		n := r.Intn(12)
		bs := make([]byte, n)
		for i := range bs {
			bs[i] = '0' + byte(r.Intn(2))
		}
		expr = "B'" + string(bs) + "'::varbit"
		shape = fmt.Sprint("b", n)
		switch t.Kind() {
		case reflect.String:
			return val(string(bs)), expr, want, shape
		default:
			v = reflect.MakeSlice(t, n, n)
			for i := range bs {
				if t.Elem().Kind() == reflect.Bool {
					v.Index(i).SetBool(bs[i] == '1')
				} else {
					v.Index(i).SetUint(uint64(bs[i] - '0'))
				}
			}
			return v, expr, want, shape
		}
	case "BPChar", "Char":
		var c rune
		if t.Kind() == reflect.Uint8 {
			c = rune(1 + r.Intn(127))
			if r.Intn(2) == 0 {
				c = []rune("aN\"\\,{}' ")[r.Intn(9)]
			}
			return val(byte(c)).Convert(t), Lit(string(c)) + "::bpchar(1)", want, strShape(string(c))
		}
		c = Rune(r)
		if t.Kind() == reflect.String {
			return val(string(c)), Lit(string(c)) + "::bpchar(1)", want, strShape(string(c))
		}
		return val(c), Lit(string(c)) + "::bpchar(1)", want, strShape(string(c))
	case "Text", "VarChar":
		s := Str(r)
		return val(s).Convert(t), Lit(s) + "::text", want, strShape(s)
	case "Bytea":
		n := r.Intn(10)
		b := make([]byte, n)
		r.Read(b)
		if r.Intn(3) == 0 {
			b = []byte(Str(r))
		}
		return val(b).Convert(t), `'\x` + hex.EncodeToString(b) + `'::bytea`, want, fmt.Sprint("y", len(b))
	case "Bool":
		n := r.Intn(2) == 1
		return val(n), strconv.FormatBool(n), want, strconv.FormatBool(n)[:1]
	case "Int2", "Int4", "Int8":
		s, v := intIn(r, base, t)
		return v, "'" + s + "'::" + strings.ToLower(base), want, "i" + sgn(s)
	case "Numeric":
		if k := t.Kind(); k == reflect.Float32 || k == reflect.Float64 {
			s, v := floatIn(r, base, t, true)
			return v, "'" + s + "'::numeric", want, "f" + sgn(s)
		}
		s, v := intIn(r, base, t)
		return v, "'" + s + "'::numeric", want, "i" + sgn(s)
	case "Float4", "Float8":
		s, v := floatIn(r, base, t, true)
		if base == "Float4" && t.Kind() == reflect.Float64 {
			// the server's shortest float4 text, read as a float64
			f, _ := strconv.ParseFloat(s, 64)
			want = val(f).Convert(t)
		}
		if base == "Float8" && t.Kind() == reflect.Float32 {
			s = fstr(v.Float(), 64)
		}
		return v, "'" + s + "'::" + strings.ToLower(base), want, "f" + sgn(s)
	case "Int2Vector":
		n := r.Intn(5)
		v = reflect.MakeSlice(t, n, n)
		var ss []string
		for i := 0; i < n; i++ {
			s, e := intIn(r, base, t.Elem())
			ss = append(ss, s)
			v.Index(i).Set(e)
		}
		return v, "'" + strings.Join(ss, " ") + "'::int2vector", want, fmt.Sprint("v", n)
	case "Int4Range", "Int8Range", "NumRange":
		v = reflect.New(t).Elem()
		for {
			var a, b string
			var x, y reflect.Value
			if k := t.Elem().Kind(); base == "NumRange" && (k == reflect.Float32 || k == reflect.Float64) {
				a, x = floatIn(r, base, t.Elem(), false)
				b, y = floatIn(r, base, t.Elem(), false)
			} else {
				a, x = intIn(r, base, t.Elem())
				b, y = intIn(r, base, t.Elem())
			}
			var less bool
			switch {
			case x.CanInt():
				less = x.Int() < y.Int()
			case x.CanUint():
				less = x.Uint() < y.Uint()
			default:
				less = x.Float() < y.Float()
			}
			if !less {
				continue
			}
			v.Index(0).Set(x)
			v.Index(1).Set(y)
			el := map[string]string{"Int4Range": "int4", "Int8Range": "int8", "NumRange": "numeric"}[base]
			return v, fmt.Sprintf("%s('%s'::%s,'%s'::%s,'[)')", strings.ToLower(base), a, el, b, el), want, "r" + sgn(a) + sgn(b)
		}
	case "Money":
		n := r.Int63n(2000000000000) - 1000000000000
		switch r.Intn(4) {
		case 0:
			n = int64(r.Intn(2001) - 1000)
		case 1:
			n = int64(r.Intn(400001) - 200000)
		case 2:
			n = []int64{0, 1, -1, 29, 99, 100, -100, 123456789, 99999, 100000, -99999999}[r.Intn(11)]
		}
		neg := ""
		u := n
		if n < 0 {
			neg, u = "-", -n
		}
		return val(n), fmt.Sprintf("('%s%d.%02d'::numeric)::money", neg, u/100, u%100), want, fmt.Sprintf("m%s%d", neg, len(fmt.Sprint(u)))
	case "Box":
		a, b := gpt(r), gpt(r)
		w := [2][2]float64{{math.Max(a[0], b[0]), math.Max(a[1], b[1])}, {math.Min(a[0], b[0]), math.Min(a[1], b[1])}}
		return val([2][2]float64{a, b}), "box(" + pt(a) + "," + pt(b) + ")", val(w), "x"
	case "Lseg":
		a, b := gpt(r), gpt(r)
		return val([2][2]float64{a, b}), "lseg(" + pt(a) + "," + pt(b) + ")", want, "l"
	case "Line":
		l := [3]float64{geo(r), geo(r), geo(r)}
		if r.Intn(3) == 0 {
			l[1] = -1
		}
		if math.Abs(l[0]) < 1e-3 { // the server takes a tiny coefficient for zero
			l[0] = 1
		}
		if math.Abs(l[1]) < 1e-3 {
			l[1] = 0
		}
		return val(l), fmt.Sprintf("'{%s,%s,%s}'::line", gstr(l[0]), gstr(l[1]), gstr(l[2])), want, "n"
	case "Point":
		p := gpt(r)
		return val(p), pt(p), want, "p"
	case "Path", "Polygon":
		n := 1 + r.Intn(4)
		ps := make([][2]float64, n)
		var ss []string
		for i := range ps {
			ps[i] = gpt(r)
			ss = append(ss, "("+gstr(ps[i][0])+","+gstr(ps[i][1])+")")
		}
		if base == "Path" {
			return val(ps), "'[" + strings.Join(ss, ",") + "]'::path", want, fmt.Sprint("h", n)
		}
		return val(ps), "'(" + strings.Join(ss, ",") + ")'::polygon", want, fmt.Sprint("g", n)
	case "CIDR":
		n := ipnet(r, true)
		return val(n), Lit(n.String()) + "::cidr", want, fmt.Sprint("c", len(n.IP))
	case "Inet":
		if t == reflect.TypeOf(net.IP(nil)) {
			n := ipnet(r, false)
			return val(n.IP), Lit(n.IP.String()) + "::inet", want, fmt.Sprint("i", len(n.IP))
		}
		n := ipnet(r, true) // a net.IPNet denotes a network: no host bits
		ones, _ := n.Mask.Size()
		if ones == 8*len(n.IP) {
			// the server omits a full mask, and the reader then has no mask to report
			want = val(net.IPNet{IP: n.IP})
			if r.Intn(2) == 0 {
				return want, Lit(n.IP.String()) + "::inet", want, fmt.Sprint("a", len(n.IP))
			}
		}
		return val(n), Lit(fmt.Sprintf("%s/%d", n.IP, ones)) + "::inet", want, fmt.Sprint("n", len(n.IP), ones == 8*len(n.IP))
	case "MACAddr", "MACAddr8":
		b := make([]byte, 6)
		if base == "MACAddr8" {
			b = make([]byte, 8)
		}
		r.Read(b)
		return val(net.HardwareAddr(b)), Lit(net.HardwareAddr(b).String()) + "::" + strings.ToLower(base), want, "m"
	case "UUID":
		var u [16]byte
		r.Read(u[:])
		if r.Intn(4) == 0 {
			u = [16]byte{}
			u[r.Intn(16)] = byte(r.Intn(256))
		}
		s := fmt.Sprintf("%x-%x-%x-%x-%x", u[0:4], u[4:6], u[6:8], u[8:10], u[10:16])
		if t.Kind() == reflect.Array {
			return val(u), Lit(s) + "::uuid", want, "u"
		}
		return val(s).Convert(t), Lit(s) + "::uuid", want, "u"
	case "Date":
		d := Time(r, false).Truncate(24 * time.Hour)
		_, w := timeText(t, d, "2006-01-02")
		o := onDay(r, d)
		return val(o), Lit(d.Format("2006-01-02")) + "::date", w, "d" + zShape(o)
	case "Time":
		d := Time(r, false)
		d = time.Date(0, 1, 1, d.Hour(), d.Minute(), d.Second(), d.Nanosecond(), time.UTC)
		v, w := timeText(t, d, "15:04:05.999999")
		return v, Lit(d.Format("15:04:05.000000")) + "::time", w, "t" + usShape(d)
	case "Timetz":
		d := Time(r, true)
		d = time.Date(0, 1, 1, d.Hour(), d.Minute(), d.Second(), d.Nanosecond(), d.Location())
		v, w := timeText(t, d, "15:04:05.999999-07:00")
		return v, Lit(d.Format("15:04:05.000000-07:00")) + "::timetz", w, "z" + usShape(d) + zShape(d)
	case "Timestamp":
		d := Time(r, false)
		o := sameClock(r, d)
		return val(o), Lit(d.Format("2006-01-02 15:04:05.000000")) + "::timestamp", val(d), "t" + usShape(d) + zShape(o)
	case "Timestamptz":
		d := Time(r, true)
		return val(d), Lit(d.Format("2006-01-02 15:04:05.000000-07:00")) + "::timestamptz", want, "z" + usShape(d) + zShape(d)
	case "DateRange", "TsRange", "TstzRange":
		zone := base == "TstzRange"
		a, b := Time(r, zone), Time(r, zone)
		if base == "DateRange" {
			a, b = a.Truncate(24*time.Hour), b.Truncate(24*time.Hour)
		}
		if b.Before(a) {
			a, b = b, a
		}
		if a.Equal(b) {
			b = b.AddDate(0, 0, 1)
		}
		l := map[string]string{"DateRange": "2006-01-02", "TsRange": "2006-01-02 15:04:05.000000", "TstzRange": "2006-01-02 15:04:05.000000-07:00"}[base]
		el := map[string]string{"DateRange": "date", "TsRange": "timestamp", "TstzRange": "timestamptz"}[base]
		wr := [2]time.Time{a, b}
		want = val(wr)
		switch base {
		case "DateRange":
			wr = [2]time.Time{onDay(r, a), onDay(r, b)}
		case "TsRange":
			wr = [2]time.Time{sameClock(r, a), sameClock(r, b)}
		}
		return val(wr), fmt.Sprintf("%s(%s::%s,%s::%s,'[)')", strings.ToLower(base), Lit(a.Format(l)), el, Lit(b.Format(l)), el), want, "r" + usShape(a) + usShape(b) + zShape(wr[0])
	case "JSON":
		s := jsonDocs[r.Intn(len(jsonDocs))]
		return val([]byte(s)), Lit(s) + "::jsonb", want, strShape(s)
	case "XML":
		s := xmlDocs[r.Intn(len(xmlDocs))]
		return val([]byte(s)), Lit(s) + "::xml", want, strShape(s)
	case "TSQuery":
		s := tsqDocs[r.Intn(len(tsqDocs))]
		return val(s).Convert(t), Lit(s) + "::tsquery", want, strShape(s)
	case "TSVector":
		n := r.Intn(4)
		set := map[string]bool{}
		for i := 0; i < n; i++ {
			set[words[r.Intn(len(words))]] = true
		}
		var ws []string
		for w := range set {
			ws = append(ws, w)
		}
		sort.Strings(ws)
		v = reflect.MakeSlice(t, len(ws), len(ws))
		want = reflect.MakeSlice(t, len(ws), len(ws))
		var q []string
		for i, w := range ws {
			v.Index(i).Set(val(w).Convert(t.Elem()))
			want.Index(i).Set(val("'" + w + "'").Convert(t.Elem()))
			q = append(q, Lit(w))
		}
		return v, "array_to_tsvector(ARRAY[" + strings.Join(q, ",") + "]::text[])", want, fmt.Sprint("v", len(ws))
	case "HStore":
		n := r.Intn(4)
		v = reflect.MakeMap(t)
		var ks, vs []string
		for i := 0; i < n; i++ {
			k, s := Str(r), Str(r)
			if v.MapIndex(val(k)).IsValid() {
				continue
			}
			null := r.Intn(5) == 0
			shape += strShape(k) + strShape(s)
			switch t.Elem() {
			case reflect.TypeOf(""):
				null = false
				v.SetMapIndex(val(k), val(s))
			case reflect.TypeOf((*string)(nil)):
				if null {
					v.SetMapIndex(val(k), val((*string)(nil)))
				} else {
					v.SetMapIndex(val(k), val(&s))
				}
			default:
				if null {
					v.SetMapIndex(val(k), val(sql.NullString{}))
				} else {
					v.SetMapIndex(val(k), val(sql.NullString{String: s, Valid: true}))
				}
			}
			ks = append(ks, Lit(k))
			if null {
				vs = append(vs, "NULL")
				shape += "0"
			} else {
				vs = append(vs, Lit(s))
			}
		}
		return v, "hstore(ARRAY[" + strings.Join(ks, ",") + "]::text[],ARRAY[" + strings.Join(vs, ",") + "]::text[])", want, "h" + shape
	}
	panic("no generator for " + base)
}

// timeText is the value a reader must produce for d: d itself, or its text in the server's notation.
func timeText(t reflect.Type, d time.Time, layout string) (reflect.Value, reflect.Value) {
	if t == reflect.TypeOf(d) {
		return val(d), val(d)
	}
	return val(d), val(d.Format(layout)).Convert(t)
}

func sgn(s string) string {
	if strings.HasPrefix(s, "-") {
		return fmt.Sprint("-", len(s))
	}
	return fmt.Sprint("+", len(s))
}
func usShape(t time.Time) string {
	us := t.Nanosecond() / 1000
	switch {
	case us == 0:
		return "0"
	case us%1000 == 0:
		return "m"
	}
	return "u"
}
func zShape(t time.Time) string {
	_, off := t.Zone()
	if off%3600 != 0 {
		return "h"
	}
	return "f"
}

// Equal compares two Go values as database values: instants by instant, networks by text, floats bit-insensitively for NaN.
func Equal(base string, a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch x := a.Interface().(type) {
	case time.Time:
		y := b.Interface().(time.Time)
		switch {
		case strings.HasPrefix(base, "Timetz"):
			_, o1 := x.Zone()
			_, o2 := y.Zone()
			return x.Format("15:04:05.000000") == y.Format("15:04:05.000000") && o1 == o2
		case strings.HasPrefix(base, "Timestamptz"), strings.HasPrefix(base, "TstzRange"):
			return x.Equal(y)
		case strings.HasPrefix(base, "TimeA"), base == "Time":
			return x.Format("15:04:05.000000") == y.Format("15:04:05.000000")
		case strings.HasPrefix(base, "Date"):
			return x.Format("2006-01-02") == y.Format("2006-01-02") && x.Hour() == 0
		default:
			return x.Format("2006-01-02 15:04:05.000000") == y.Format("2006-01-02 15:04:05.000000")
		}
	case net.IPNet:
		y := b.Interface().(net.IPNet)
		return x.IP.Equal(y.IP) && x.Mask.String() == y.Mask.String()
	case net.IP:
		return x.Equal(b.Interface().(net.IP))
	case float64:
		y := b.Float()
		if strings.HasPrefix(base, "Float4") {
			return float32(x) == float32(y) || x != x && y != y // the server's and Go's shortest decimals may differ
		}
		return x == y || x != x && y != y
	case float32:
		y := b.Interface().(float32)
		return x == y || x != x && y != y
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !Equal(base, a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}
