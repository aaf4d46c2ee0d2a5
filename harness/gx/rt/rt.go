// Package rt is compiled into the scratch module next to generated code: it runs query values against a recording
// connection and prints what it observed as JSON lines.
package rt

import (
	"bufio"
	"context"
	"database/sql"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/frk/gosql"
	"github.com/lib/pq"
)

// P makes a pointer to v.
func P[T any](v T) *T { return &v }

// T parses an RFC 3339 time.
func T(s string) time.Time {
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		panic(err)
	}
	return t
}

// Call is one statement seen by the connection.
type Call struct {
	Fn    string   `json:"fn"`
	Query string   `json:"q"`
	Args  []string `json:"args"`
}

// Obs is what one case did.
type Obs struct {
	Name   string            `json:"name"`
	Case   int               `json:"case"`
	Err    string            `json:"err,omitempty"`
	State  string            `json:"state,omitempty"`
	NoRows bool              `json:"norows,omitempty"`
	Panic  string            `json:"panic,omitempty"`
	Calls  []Call            `json:"calls"`
	Dump   json.RawMessage   `json:"dump"`
	Tables map[string]string `json:"tables,omitempty"`
	Extra  map[string]string `json:"extra,omitempty"`
}

// Conn records.
type Conn struct {
	tx    *sql.Tx
	calls []Call
}

func (c *Conn) rec(fn, q string, args []interface{}) {
	k := Call{Fn: fn, Query: q, Args: []string{}}
	for _, a := range args {
		k.Args = append(k.Args, fmt.Sprintf("%T:%v", a, a))
	}
	c.calls = append(c.calls, k)
}
func (c *Conn) Exec(q string, a ...interface{}) (sql.Result, error) {
	c.rec("Exec", q, a)
	return c.tx.Exec(q, a...)
}
func (c *Conn) ExecContext(x context.Context, q string, a ...interface{}) (sql.Result, error) {
	c.rec("ExecContext"+ctxName(x), q, a)
	return c.tx.ExecContext(x, q, a...)
}
func (c *Conn) Query(q string, a ...interface{}) (*sql.Rows, error) {
	c.rec("Query", q, a)
	return c.tx.Query(q, a...)
}
func (c *Conn) QueryContext(x context.Context, q string, a ...interface{}) (*sql.Rows, error) {
	c.rec("QueryContext"+ctxName(x), q, a)
	return c.tx.QueryContext(x, q, a...)
}
func (c *Conn) QueryRow(q string, a ...interface{}) *sql.Row {
	c.rec("QueryRow", q, a)
	return c.tx.QueryRow(q, a...)
}
func (c *Conn) QueryRowContext(x context.Context, q string, a ...interface{}) *sql.Row {
	c.rec("QueryRowContext"+ctxName(x), q, a)
	return c.tx.QueryRowContext(x, q, a...)
}

type ctxKey struct{}

// Ctx is a recognisable context.
func Ctx(name string) context.Context { return context.WithValue(context.Background(), ctxKey{}, name) }
func ctxName(c context.Context) string {
	if c == nil {
		return "(nil)"
	}
	if s, ok := c.Value(ctxKey{}).(string); ok {
		return "(" + s + ")"
	}
	return "(?)"
}

var _ gosql.Conn = (*Conn)(nil)

// Log collects what handlers and iterators saw during the current case.
var Log []string

// Logf appends to Log.
func Logf(f string, a ...interface{}) { Log = append(Log, fmt.Sprintf(f, a...)) }

// DB is the connection; Out the output.
var (
	DB     *sql.DB
	Out    *bufio.Writer
	Tables []string
	Before []string // statements run in the transaction before each case
)

// Open connects.
func Open() {
	db, err := sql.Open("postgres", os.Getenv("GX_DSN"))
	if err != nil {
		panic(err)
	}
	db.SetMaxOpenConns(1)
	DB = db
	Out = bufio.NewWriter(os.Stdout)
	json.Unmarshal([]byte(os.Getenv("GX_TABLES")), &Tables)
	json.Unmarshal([]byte(os.Getenv("GX_BEFORE")), &Before)
}

// Close flushes.
func Close() { Out.Flush() }

// Case runs one query value in a transaction of its own, which is rolled back. mut: dump the tables afterwards.
func Case(name string, n int, mut bool, v interface{}, exec func(c gosql.Conn) error) {
	o := Obs{Name: name, Case: n}
	Log, current, visits = nil, v, 0
	tx, err := DB.Begin()
	if err != nil {
		panic(err)
	}
	for _, s := range Before {
		if _, err := tx.Exec(s); err != nil {
			panic(err)
		}
	}
	c := &Conn{tx: tx}
	if _, err := tx.Exec("SAVEPOINT gx"); err != nil {
		panic(err)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				o.Panic = fmt.Sprint(e)
			}
		}()
		if err := exec(c); err != nil {
			o.Err = err.Error()
			var pe *pq.Error
			if errors.As(err, &pe) {
				o.State = string(pe.Code)
			}
			o.NoRows = errors.Is(err, sql.ErrNoRows)
		}
	}()
	o.Calls = c.calls
	if mut && o.Panic == "" {
		if o.Err != "" {
			if _, err := tx.Exec("ROLLBACK TO SAVEPOINT gx"); err != nil {
				panic(fmt.Sprint(name, n, err))
			}
		}
		o.Tables = map[string]string{}
		for _, t := range Tables {
			var s string
			if err := tx.QueryRow("SELECT coalesce(string_agg(t::text, E'\\n' ORDER BY t::text), '') FROM " + t + " t").Scan(&s); err != nil {
				panic(fmt.Sprint(name, n, err))
			}
			o.Tables[t] = s
		}
	}
	if o.Panic != "" {
		// a generated method left its rows open: the transaction's connection cannot be used again
		tx.Rollback()
	} else {
		tx.Rollback()
	}
	b, err := json.Marshal(Dump(v))
	if err != nil {
		panic(err)
	}
	o.Dump = b
	if len(Log) > 0 {
		o.Extra = map[string]string{"log": strings.Join(Log, "\n")}
	}
	b, err = json.Marshal(o)
	if err != nil {
		panic(err)
	}
	Out.Write(b)
	Out.WriteByte('\n')
}

// Dump canonicalises the fields of a query value: scalars to strings, structs to maps, slices to lists.
func Dump(v interface{}) interface{} {
	return dump(reflect.ValueOf(v), 0)
}

func dump(v reflect.Value, depth int) interface{} {
	if depth > 20 {
		return "deep"
	}
	if !v.IsValid() {
		return nil
	}
	if t, ok := v.Interface().(time.Time); ok {
		if t.IsZero() {
			return "0001-01-01T00:00:00Z"
		}
		return t.UTC().Format(time.RFC3339Nano)
	}
	if b, ok := v.Interface().([]byte); ok {
		if b == nil {
			return nil
		}
		return "x:" + hex.EncodeToString(b)
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return dump(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return dump(v.Elem(), depth+1)
	case reflect.Struct:
		m := map[string]interface{}{}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || f.Name == "_" {
				continue
			}
			m[f.Name] = dump(v.Field(i), depth+1)
		}
		return m
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		fallthrough
	case reflect.Array:
		l := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, dump(v.Index(i), depth+1))
		}
		return l
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		var ks []string
		m := map[string]string{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k.Interface())
			ks = append(ks, s)
			b, _ := json.Marshal(dump(v.MapIndex(k), depth+1))
			m[s] = string(b)
		}
		sort.Strings(ks)
		s := "map"
		for _, k := range ks {
			s += " " + strconv.Quote(k) + "=" + m[k]
		}
		return s
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Func:
		return nil
	}
	return fmt.Sprint(v.Interface())
}

// JSON is the dump of a value as JSON text.
func JSON(v interface{}) string {
	b, err := json.Marshal(Dump(v))
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Fail makes Visit fail at the n-th visit of the current case (0: never).
var Fail int

var visits int

// ErrVisit is the error of a failing Visit.
var ErrVisit = errors.New("visit failed")

// Visit logs one iterated record.
func Visit(v interface{}) error {
	visits++
	Logf("visit %s", JSON(v))
	if Fail > 0 && visits == Fail {
		return ErrVisit
	}
	return nil
}

// Vis is an iterator value.
type Vis[T any] struct{}

// Visit implements the iterator interface.
func (*Vis[T]) Visit(v T) error { return Visit(v) }

// F is a static filter.
type F struct {
	Where, Tail string
	Args        []interface{}
}

// ToSQL implements gosql.Filter.
func (f *F) ToSQL(pos int) (string, []interface{}) {
	s := ""
	if f.Where != "" {
		s = f.Where
		for i := range f.Args {
			s = strings.ReplaceAll(s, "{"+strconv.Itoa(i)+"}", "$"+strconv.Itoa(pos+i+1))
		}
		s = " WHERE " + s
	}
	Logf("tosql %d", pos)
	return s + f.Tail, f.Args
}

// Handled is what the error handlers return.
type Handled struct{ Err error }

func (h *Handled) Error() string { return "handled: " + h.Err.Error() }

// Unwrap gives the original.
func (h *Handled) Unwrap() error { return h.Err }

// EH is an error handler.
type EH struct{}

// HandleError implements gosql.ErrorHandler.
func (EH) HandleError(err error) error {
	if err == nil {
		Logf("eh nil")
		return nil
	}
	Logf("eh %s", err)
	return &Handled{err}
}

// EIH is an error info handler.
type EIH struct{}

// HandleErrorInfo implements gosql.ErrorInfoHandler.
func (EIH) HandleErrorInfo(i *gosql.ErrorInfo) error {
	if i == nil || i.Error == nil {
		Logf("eih nil")
		return nil
	}
	Logf("eih %s", JSON(map[string]string{"kind": i.QueryKind, "name": i.QueryName, "sql": i.QueryString, "same": fmt.Sprint(i.QueryValue == current), "err": i.Error.Error()}))
	return &Handled{i.Error}
}

var current interface{}

// PEH and PEIH are handlers with pointer receivers that a nil pointer serves too.
type PEH struct{ _ int }

// HandleError implements gosql.ErrorHandler.
func (*PEH) HandleError(err error) error { return EH{}.HandleError(err) }

// PEIH is an error info handler.
type PEIH struct{ _ int }

// HandleErrorInfo implements gosql.ErrorInfoHandler.
func (*PEIH) HandleErrorInfo(i *gosql.ErrorInfo) error { return EIH{}.HandleErrorInfo(i) }
