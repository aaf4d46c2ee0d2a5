package pgconv

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"math/rand"
	"reflect"
	"time"

	_ "github.com/lib/pq"
)

// Open connects to the throwaway server.
func Open(db string) (*sql.DB, error) {
	d, err := sql.Open("postgres", "postgres:///"+db+"?sslmode=disable")
	if err != nil {
		return nil, err
	}
	return d, d.Ping()
}

// raw captures a driver value.
type raw struct{ v interface{} }

func (x *raw) Scan(src interface{}) error {
	if b, ok := src.([]byte); ok {
		src = append([]byte{}, b...)
	}
	x.v = src
	return nil
}

func clone(x interface{}) interface{} {
	if b, ok := x.([]byte); ok {
		return append([]byte{}, b...)
	}
	return x
}

// CallScan runs the reader for dst (a pointer) over src, reporting panics as errors.
func (c *Conv) CallScan(dst reflect.Value, src interface{}) (err error, panicked interface{}) {
	defer func() {
		if e := recover(); e != nil {
			panicked = e
		}
	}()
	s := c.To.Call([]reflect.Value{dst})[0].Interface().(sql.Scanner)
	return s.Scan(src), nil
}

// CallValue runs the writer.
func (c *Conv) CallValue(v reflect.Value) (out driver.Value, err error, panicked interface{}) {
	defer func() {
		if e := recover(); e != nil {
			panicked = e
		}
	}()
	x := c.From.Call([]reflect.Value{v})[0].Interface().(driver.Valuer)
	out, err = x.Value()
	return out, err, nil
}

// Show renders a Go value.
func Show(v reflect.Value) string {
	if !v.IsValid() {
		return "<invalid>"
	}
	switch x := v.Interface().(type) {
	case time.Time:
		return x.Format(time.RFC3339Nano)
	case []time.Time, [2]time.Time, [][2]time.Time:
		return fmt.Sprintf("%v", x)
	}
	return fmt.Sprintf("%#v", v.Interface())
}

// Result of one observed case.
type Result struct {
	Kind, Detail string
}

// Observe runs one generated case through the writer, the server and the reader.
func (c *Conv) Observe(ctx context.Context, cn *sql.Conn, r *rand.Rand) (res []Result, shape, sample string, err error) {
	v, expr, want, shape := c.Gen(r)
	bad := func(kind, f string, a ...interface{}) { res = append(res, Result{kind, fmt.Sprintf(f, a...)}) }
	if c.From.IsValid() {
		dv, e, p := c.CallValue(v)
		switch {
		case p != nil:
			bad("write-panic", "%s(%s) panicked: %v", c.FromName, Show(v), p)
		case e != nil:
			bad("write-error", "%s(%s): %v", c.FromName, Show(v), e)
		default:
			var got, exp sql.NullString
			// the server's own rendering of what was written and of the reference expression
			er := cn.QueryRowContext(ctx, "SELECT ROW($1::"+c.SQL+")::text, ROW(("+expr+")::"+c.SQL+")::text", clone(dv)).Scan(&got, &exp)
			if er != nil {
				var x sql.NullString
				if er2 := cn.QueryRowContext(ctx, "SELECT ROW(("+expr+")::"+c.SQL+")::text").Scan(&x); er2 != nil {
					return nil, shape, expr, fmt.Errorf("reference expression %s: %v", expr, er2)
				}
				bad("write-rejected", "%s(%s) wrote %s: server: %v", c.FromName, Show(v), raws(dv), er)
			} else if got != exp {
				bad("write-wrong", "%s(%s) wrote %s: server holds %s, expected %s", c.FromName, Show(v), raws(dv), got.String, exp.String)
			}
		}
	}
	if c.To.IsValid() {
		var x raw
		if er := cn.QueryRowContext(ctx, "SELECT ("+expr+")::"+c.SQL).Scan(&x); er != nil {
			return nil, shape, expr, fmt.Errorf("reference expression %s: %v", expr, er)
		}
		srcs := []interface{}{clone(x.v)}
		if b, ok := x.v.([]byte); ok {
			srcs = append(srcs, string(b))
		}
		for i, src := range srcs {
			dst := reflect.New(c.Type)
			prefill(dst.Elem())
			e, p := c.CallScan(dst, src)
			what := "bytes"
			if i > 0 {
				what = "string"
			}
			switch {
			case p != nil:
				bad("read-panic", "%s(%s %s) panicked: %v", c.ToName, what, raws(x.v), p)
			case e != nil:
				bad("read-error", "%s(%s %s): %v", c.ToName, what, raws(x.v), e)
			case !Equal(c.Base, dst.Elem(), want):
				bad("read-wrong", "%s(%s %s) = %s, expected %s", c.ToName, what, raws(x.v), Show(dst.Elem()), Show(want))
			default:
				if b, ok := src.([]byte); ok {
					for j := range b {
						b[j] = '#'
					}
					if !Equal(c.Base, dst.Elem(), want) {
						bad("read-alias", "%s: value read from %s changed when the driver's buffer was reused: %s", c.ToName, raws(x.v), Show(dst.Elem()))
					}
				}
			}
		}
		sample = raws(x.v)
	}
	return res, shape, expr + " -> " + sample, nil
}

func raws(x interface{}) string {
	switch b := x.(type) {
	case []byte:
		return fmt.Sprintf("%q", b)
	case time.Time:
		return b.Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("%#v", x)
}

// prefill puts stale content in a destination.
func prefill(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		prefill(v.Index(0))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			prefill(v.Index(i))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(77)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(77)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(77)
	case reflect.String:
		v.SetString("stale")
	}
}
