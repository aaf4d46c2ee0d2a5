// Package probe calls the method of any generated type: it fills the value by reflection, hands the method a connection
// that has the server prepare every statement, and answers with rows of NULLs of the width the server announces.
package probe

import (
	"bufio"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
	_ "github.com/lib/pq"
)

// Rec is what one call did.
type Rec struct {
	Name    string
	Stmts   []string
	Problem []string
	Err     string
	Skipped string
}

var db *sql.DB
var cur *Rec
var ctx = context.Background()

func problem(f string, a ...interface{}) { cur.Problem = append(cur.Problem, fmt.Sprintf(f, a...)) }

// prepare has the server prepare q and returns the width of its result.
func prepare(q string, n int) int {
	cur.Stmts = append(cur.Stmts, q)
	c, err := db.Conn(ctx)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer c.Close()
	if _, err := c.ExecContext(ctx, "PREPARE probe AS "+q); err != nil {
		problem("the server refuses the statement: %v", err)
		return -1
	}
	defer c.ExecContext(ctx, "DEALLOCATE probe")
	var in, out int
	if err := c.QueryRowContext(ctx, "SELECT coalesce(cardinality(parameter_types),0), coalesce(cardinality(result_types),0) FROM pg_prepared_statements WHERE name='probe'").Scan(&in, &out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if in != n {
		problem("the statement has %d parameters and is given %d arguments", in, n)
	}
	return out
}

type conn struct{}

func (conn) Exec(q string, a ...interface{}) (sql.Result, error) {
	if w := prepare(q, len(a)); w < 0 {
		return nil, errors.New("refused")
	}
	return driver.RowsAffected(1), nil
}
func (c conn) ExecContext(_ context.Context, q string, a ...interface{}) (sql.Result, error) {
	return c.Exec(q, a...)
}
func (conn) Query(q string, a ...interface{}) (*sql.Rows, error) {
	w := prepare(q, len(a))
	if w < 0 {
		return nil, errors.New("refused")
	}
	return fake.Query(fmt.Sprint(w))
}
func (c conn) QueryContext(_ context.Context, q string, a ...interface{}) (*sql.Rows, error) {
	return c.Query(q, a...)
}
func (conn) QueryRow(q string, a ...interface{}) *sql.Row {
	w := prepare(q, len(a))
	return fake.QueryRow(fmt.Sprint(w))
}
func (c conn) QueryRowContext(_ context.Context, q string, a ...interface{}) *sql.Row {
	return c.QueryRow(q, a...)
}

// The fake driver answers the query "N" with one row of N NULLs.
type fakeDriver struct{}
type fakeConn struct{}
type fakeStmt struct{ n int }
type fakeRows struct {
	n    int
	done bool
}

func (fakeDriver) Open(string) (driver.Conn, error)         { return fakeConn{}, nil }
func (fakeConn) Close() error                               { return nil }
func (fakeConn) Begin() (driver.Tx, error)                  { return nil, errors.New("no") }
func (fakeStmt) Close() error                               { return nil }
func (fakeStmt) NumInput() int                              { return 0 }
func (fakeStmt) Exec([]driver.Value) (driver.Result, error) { return nil, errors.New("no") }
func (s fakeStmt) Query([]driver.Value) (driver.Rows, error) {
	if s.n < 0 {
		return nil, errors.New("refused")
	}
	return &fakeRows{n: s.n}, nil
}
func (fakeConn) Prepare(q string) (driver.Stmt, error) {
	s := fakeStmt{}
	fmt.Sscan(q, &s.n)
	return s, nil
}
func (r *fakeRows) Columns() []string { return make([]string, r.n) }
func (r *fakeRows) Close() error      { return nil }
func (r *fakeRows) Next(d []driver.Value) error {
	if r.done {
		return io.EOF
	}
	r.done = true
	return nil
}

var fake *sql.DB

type handler struct{}

func (handler) HandleError(e error) error                { return e }
func (handler) HandleErrorInfo(i *gosql.ErrorInfo) error { return i.Error }

type filterQ struct{}

func (filterQ) ToSQL(pos int) (string, []any) { return " WHERE true", nil }

var hole bool

var impls = []interface{}{handler{}, filterQ{}, ctx}

func fill(v reflect.Value, depth int) {
	if depth > 6 {
		return
	}
	if !v.CanSet() && v.CanAddr() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if v.Type() == reflect.TypeOf(time.Time{}) {
		v.Set(reflect.ValueOf(time.Unix(1e9, 0)))
		return
	}
	if v.Kind() == reflect.Struct && strings.HasPrefix(v.Type().PkgPath(), "github.com/frk/gosql") {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		fill(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(v.Field(i), depth)
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 2))
		for i := 0; i < 2; i++ {
			fill(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), depth+1)
		}
	case reflect.String:
		v.SetString("x")
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(1)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1)
	case reflect.Interface:
		for _, i := range impls {
			if t := reflect.TypeOf(i); v.NumMethod() > 0 && t.Implements(v.Type()) {
				v.Set(reflect.ValueOf(i))
				return
			}
		}
		if v.NumMethod() > 0 {
			hole = true // reflection can't implement it
		}
	case reflect.Func:
		t := v.Type()
		v.Set(reflect.MakeFunc(t, func([]reflect.Value) (out []reflect.Value) {
			for i := 0; i < t.NumOut(); i++ {
				out = append(out, reflect.Zero(t.Out(i)))
			}
			return
		}))
	}
}

// Call probes the method of a new value of v's type.
func Call(name, method string, v interface{}) {
	cur, hole = &Rec{Name: name}, false
	p := reflect.New(reflect.TypeOf(v).Elem())
	fill(p.Elem(), 0)
	func() {
		defer func() {
			if x := recover(); x != nil {
				if hole && strings.Contains(fmt.Sprint(x), "nil pointer") {
					cur.Skipped = "hole"
					return
				}
				problem("panic: %v %s", x, stack())
			}
		}()
		m := p.MethodByName(method)
		var in []reflect.Value
		for i := 0; i < m.Type().NumIn(); i++ {
			t := m.Type().In(i)
			switch {
			case t.Kind() == reflect.Interface && reflect.TypeOf(conn{}).Implements(t):
				in = append(in, reflect.ValueOf(conn{}))
			case t.Kind() == reflect.Interface && reflect.TypeOf(ctx).Implements(t):
				in = append(in, reflect.ValueOf(ctx))
			default:
				cur.Skipped = t.String()
				return
			}
		}
		out := m.Call(in)
		if e, _ := out[len(out)-1].Interface().(error); e != nil {
			cur.Err = e.Error()
			if strings.Contains(cur.Err, "destination arguments in Scan") {
				problem("the code scans another number of columns than the statement returns: %v", e)
			}
		}
		if len(cur.Stmts) == 0 && cur.Err == "" {
			problem("no statement is executed")
		}
	}()
	b, _ := json.Marshal(cur)
	fmt.Fprintf(w, "%s\n", b)
	w.Flush()
}

// Filter probes the methods of a filter type.
func Filter(name, rel string, methods []string, v interface{}) {
	cur = &Rec{Name: name}
	t := reflect.TypeOf(v).Elem()
	mk := func() (reflect.Value, *filter.Constructor) {
		p := reflect.New(t)
		fill(p.Elem(), 0)
		return p, ctorOf(p.Elem())
	}
	try := func(m string, f func()) {
		defer func() {
			if x := recover(); x != nil {
				problem("panic: %s: %v %s", m, x, stack())
			}
		}()
		f()
	}
	if _, c := mk(); c == nil {
		cur.Skipped = "hole"
	} else {
		from := "SELECT 1 FROM " + strings.Replace(rel, ":", " AS ", 1) + " "
		for _, m := range methods {
			try(m, func() {
				p, c := mk()
				p.MethodByName("Init").Call(nil)
				mt := p.MethodByName(m)
				var in []reflect.Value
				switch m {
				case "Init":
					return
				case "And", "Or":
					in = []reflect.Value{reflect.MakeFunc(mt.Type().In(0), func([]reflect.Value) []reflect.Value { return nil })}
				case "TextSearch":
					in = []reflect.Value{reflect.ValueOf("x")}
				default:
					a := reflect.New(mt.Type().In(1)).Elem()
					fill(a, 0)
					in = []reflect.Value{reflect.ValueOf("="), a}
				}
				mt.Call(in)
				q, ps := c.Filter().ToSQL(0)
				prepare(from+q, len(ps))
			})
		}
	}
	b, _ := json.Marshal(cur)
	fmt.Fprintf(w, "%s\n", b)
	w.Flush()
}

func ctorOf(v reflect.Value) *filter.Constructor {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		switch c := f.Addr().Interface().(type) {
		case *filter.Constructor:
			return c
		case **filter.Constructor:
			return *c
		case *gosql.FilterConstructor:
			n := new(filter.Constructor)
			*c = n
			return n
		}
	}
	return nil
}

func stack() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "_gosql.go:") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

var w = bufio.NewWriter(os.Stdout)

func init() {
	sql.Register("probe-fake", fakeDriver{})
	fake, _ = sql.Open("probe-fake", "")
	db, _ = sql.Open("postgres", os.Getenv("GX_DSN"))
	db.SetMaxOpenConns(2)
}
