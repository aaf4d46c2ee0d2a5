package pgconv

import (
	"context"
	"database/sql"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"sync"

	"github.com/frk/gosql/verifharness/vh"
)

var families = map[string][]string{
	"text":     {"Text", "VarChar", "BPChar", "Char", "Bytea", "JSON", "XML", "UUID", "HStore", "TSQuery", "TSVector"},
	"numeric":  {"Int2", "Int4", "Int8", "Int2Vector", "Float4", "Float8", "Numeric", "Money", "Bit", "VarBit", "Bool", "Int4Range", "Int8Range", "NumRange"},
	"temporal": {"Date", "DateRange", "Time", "Timetz", "Timestamp", "Timestamptz", "TsRange", "TstzRange"},
	"geonet":   {"Box", "Line", "Lseg", "Path", "Point", "Polygon", "CIDR", "Inet", "MACAddr", "MACAddr8"},
}

// InFamily reports whether c belongs to the named family ("" = all).
func (c *Conv) InFamily(f string) bool {
	if f == "" {
		return true
	}
	for _, b := range families[f] {
		if strings.TrimSuffix(c.Base, "Array") == b {
			return true
		}
	}
	return false
}

// each runs fn for every converter of the family over a pool of connections; the random source depends only on the seed and the converter.
func each(run *vh.Run, family string, fn func(ctx context.Context, cn *sql.Conn, c *Conv, r *rand.Rand)) {
	cs, err := Convs()
	if err != nil {
		vh.Fatal("%v", err)
	}
	db, err := Open("")
	if err != nil {
		vh.Fatal("open: %v", err)
	}
	if _, err := db.Exec("CREATE EXTENSION IF NOT EXISTS hstore"); err != nil {
		vh.Fatal("hstore: %v", err)
	}
	ctx := context.Background()
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		cn, err := db.Conn(ctx)
		if err != nil {
			vh.Fatal("conn: %v", err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer cn.Close()
			for i := range ch {
				c := &cs[i]
				fn(ctx, cn, c, rand.New(rand.NewSource(run.Seed*1000003+int64(hash(c.Name)))))
			}
		}()
	}
	n := 0
	for i := range cs {
		if cs[i].InFamily(family) {
			n++
			ch <- i
		}
	}
	close(ch)
	wg.Wait()
	run.Count("converters", int64(n))
}

func hash(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

// RoundTrip monitors the writers and readers of a family on generated values and on server-made extremes.
func RoundTrip(run *vh.Run, family string, keep func(kind string) bool) {
	run.Rule = "a case is one generated (or listed extreme) value of one converter: the writer's output is cast by a real PostgreSQL server and compared with an independently built SQL expression, the reader is fed what the server sent for that expression and compared with the Go value; non-trivial and distinct = a new (converter, value shape) pair, the shape naming length, NULL positions, quoting/zone/sign/precision classes"
	k := run.N(2000, 60000)
	each(run, family, func(ctx context.Context, cn *sql.Conn, c *Conv, r *rand.Rand) {
		for i := 0; i < k; i++ {
			res, shape, sample, err := c.Observe(ctx, cn, r)
			if err != nil {
				run.Inconclusive("%s: %v", c.Name, err)
				continue
			}
			run.Eval(c.Name + "/" + shape)
			run.Seen("converters", c.Name)
			run.Sample(c.Base, c.Name+": "+sample)
			for _, x := range res {
				if keep(x.Kind) {
					run.Violate(c.Name+"/"+x.Kind, nil, "%s", x.Detail)
				}
			}
		}
		if !c.To.IsValid() {
			return
		}
		for _, t := range c.TotalCases() {
			res, outcome, err := c.Total(ctx, cn, t)
			if err != nil {
				run.Inconclusive("%s: %v", c.Name, err)
				continue
			}
			run.Eval(c.Name + "/" + t.Expr)
			run.Count("extremes "+outcome, 1)
			for _, x := range res {
				if keep(x.Kind) {
					run.Violate(c.Name+"/"+x.Kind, nil, "%s", x.Detail)
				}
			}
		}
	})
}

// Ownership monitors that readers own what they store and that writers neither change nor consume their argument.
func Ownership(run *vh.Run) {
	run.Rule = "a case is one value of one converter; the monitor overwrites the driver's buffer after Scan, reads a second value into the same destination while holding the first, calls Value twice and compares outputs and the argument before and after; distinct = (converter, value shape)"
	k := run.N(1500, 30000)
	each(run, "", func(ctx context.Context, cn *sql.Conn, c *Conv, r *rand.Rand) {
		var prev struct {
			held reflect.Value
			show string
		}
		shared := reflect.New(c.Type)
		for i := 0; i < k; i++ {
			v, expr, _, shape := c.Gen(r)
			run.Eval(c.Name + "/" + shape)
			if c.From.IsValid() {
				before := Show(v)
				a, e1, p1 := c.CallValue(v)
				as := raws(a)
				b, e2, p2 := c.CallValue(v)
				if p1 != nil || p2 != nil {
					run.Violate(c.Name+"/write-panic", nil, "%s(%s): %v %v", c.FromName, before, p1, p2)
					continue
				}
				run.Count("writes", 2)
				if (e1 == nil) != (e2 == nil) || !strings.Contains(c.Base, "HStore") && as != raws(b) {
					run.Violate(c.Name+"/write-unstable", nil, "%s(%s) wrote %s then %s", c.FromName, before, as, raws(b))
				}
				if raws(a) != as {
					run.Violate(c.Name+"/write-shared", nil, "%s(%s): the first output changed from %s to %s", c.FromName, before, as, raws(a))
				}
				if after := Show(v); after != before {
					run.Violate(c.Name+"/write-mutates", nil, "%s changed its argument from %s to %s", c.FromName, before, after)
				}
			}
			if !c.To.IsValid() {
				continue
			}
			var x raw
			if err := cn.QueryRowContext(ctx, "SELECT ("+expr+")::"+c.SQL).Scan(&x); err != nil {
				run.Inconclusive("%s %s: %v", c.Name, expr, err)
				continue
			}
			run.Count("reads", 1)
			src := clone(x.v)
			e, p := c.CallScan(shared, src)
			if p != nil || e != nil {
				run.Violate(c.Name+"/read-error", nil, "%s(%s): %v %v", c.ToName, raws(x.v), e, p)
				continue
			}
			got := Show(shared.Elem())
			if b, ok := src.([]byte); ok {
				for j := range b {
					b[j] ^= 0x15
				}
				if now := Show(shared.Elem()); now != got {
					run.Violate(c.Name+"/read-alias", nil, "%s(%s) changed from %s to %s when the driver's buffer was reused", c.ToName, raws(x.v), got, now)
				}
			}
			if prev.held.IsValid() {
				if now := Show(prev.held); now != prev.show {
					run.Violate(c.Name+"/read-reuses", nil, "%s: a value read earlier changed from %s to %s when the next one was read", c.ToName, prev.show, now)
				}
			}
			held := reflect.New(c.Type).Elem()
			held.Set(shared.Elem())
			prev.held, prev.show = held, Show(held)
			run.Sample(c.Base, c.ToName+" "+raws(x.v))
		}
	})
	anyOwnership(run)
}

func ints(v reflect.Value, out *[]*big.Int) bool {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		*out = append(*out, big.NewInt(v.Int()))
		return true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		*out = append(*out, new(big.Int).SetUint64(v.Uint()))
		return true
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			return intKind(v.Type())
		}
		for i := 0; i < v.Len(); i++ {
			if !ints(v.Index(i), out) {
				return false
			}
		}
		return true
	}
	return false
}

func intKind(t reflect.Type) bool {
	for t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

func fits(t reflect.Type, n *big.Int) bool {
	for t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
		t = t.Elem()
	}
	z := reflect.Zero(t)
	if t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uint64 {
		return n.IsUint64() && !z.OverflowUint(n.Uint64())
	}
	return n.IsInt64() && !z.OverflowInt(n.Int64())
}

// Overflow monitors that integers never change value on the way through a converter.
func Overflow(run *vh.Run) {
	run.Rule = "a case is one integer (or pair, or list) at or next to the limits of the 8..64 bit Go and PostgreSQL types, read from the server into each integer destination and written from each integer source; oracle: exact big-integer equality or an error, and no error when the value fits; distinct = (converter, operand list)"
	var lim []*big.Int
	for _, b := range []uint{7, 8, 15, 16, 31, 32, 52, 53, 62, 63, 64} {
		p := new(big.Int).Lsh(big.NewInt(1), b)
		for d := int64(-1); d <= 1; d++ {
			x := new(big.Int).Add(p, big.NewInt(d))
			lim = append(lim, x, new(big.Int).Neg(x))
		}
	}
	for i := int64(-2); i < 12; i++ {
		lim = append(lim, big.NewInt(i), big.NewInt(i*i*i*1001))
	}
	rr := rand.New(rand.NewSource(run.Seed))
	for i := 0; i < run.N(60, 3000); i++ {
		x := new(big.Int).Rand(rr, new(big.Int).Lsh(big.NewInt(1), uint(1+rr.Intn(63))))
		lim = append(lim, x, new(big.Int).Neg(x))
	}
	dbfits := func(base string, n *big.Int) bool {
		var b uint
		switch {
		case strings.HasPrefix(base, "Int2"):
			b = 15
		case strings.HasPrefix(base, "Int4"):
			b = 31
		case strings.HasPrefix(base, "Int8"):
			b = 63
		case strings.HasPrefix(base, "Money"):
			b = 56
		default:
			return true
		}
		p := new(big.Int).Lsh(big.NewInt(1), b)
		if strings.Contains(base, "Range") && n.Cmp(new(big.Int).Sub(p, big.NewInt(2))) > 0 {
			return false
		}
		return n.Cmp(p) < 0 && n.Cmp(new(big.Int).Neg(p)) >= 0
	}
	each(run, "numeric", func(ctx context.Context, cn *sql.Conn, c *Conv, r *rand.Rand) {
		base := strings.TrimSuffix(c.Base, "Array")
		if !intKind(c.Type) || base == "Bit" || base == "VarBit" || base == "Bool" {
			return
		}
		arr := base != c.Base
		rng := strings.HasSuffix(base, "Range")
		for li, n := range lim {
			if !dbfits(base, n) {
				continue
			}
			ns := []*big.Int{n}
			one := func(x *big.Int) string {
				if base == "Money" {
					return "(" + x.String() + "::numeric/100)::money"
				}
				return "'" + x.String() + "'::" + strings.TrimSuffix(map[bool]string{true: "int2", false: c.SQL}[base == "Int2Vector"], "[]")
			}
			var expr string
			switch {
			case rng:
				m := lim[r.Intn(len(lim))]
				for k := 0; k < 200 && (!dbfits(base, m) || m.Cmp(n) == 0); k++ {
					m = lim[r.Intn(len(lim))]
				}
				if !dbfits(base, m) || m.Cmp(n) == 0 {
					continue
				}
				if m.Cmp(n) < 0 {
					ns = []*big.Int{m, n}
				} else {
					ns = []*big.Int{n, m}
				}
				expr = fmt.Sprintf("'[%s,%s)'::%s", ns[0], ns[1], strings.TrimSuffix(c.SQL, "[]"))
				if arr {
					expr = "ARRAY[" + expr + "," + expr + "]"
					ns = append(ns, ns...)
				}
			case base == "Int2Vector":
				expr = "'1 " + n.String() + "'::int2vector"
				ns = []*big.Int{big.NewInt(1), n}
				if arr {
					expr = "ARRAY[" + expr + "]"
				}
			case arr:
				m := big.NewInt(int64(li % 7))
				expr = "ARRAY[" + one(m) + "," + one(n) + "]"
				ns = []*big.Int{m, n}
			default:
				expr = one(n)
			}
			allFit := true
			for _, x := range ns {
				allFit = allFit && fits(c.Type, x)
			}
			if c.To.IsValid() {
				var x raw
				if err := cn.QueryRowContext(ctx, "SELECT ("+expr+")::"+c.SQL).Scan(&x); err != nil {
					run.Inconclusive("%s %s: %v", c.Name, expr, err)
					continue
				}
				dst := reflect.New(c.Type)
				e, p := c.CallScan(dst, clone(x.v))
				run.Eval(c.Name + "/" + expr)
				run.Sample(c.Name, expr)
				var got []*big.Int
				switch {
				case p != nil:
					run.Violate(c.Name+"/read-panic", nil, "%s(%s) panicked: %v", c.ToName, raws(x.v), p)
				case e != nil:
					run.Count("reads rejected", 1)
					if allFit {
						run.Violate(c.Name+"/read-rejects", nil, "%s(%s): %v", c.ToName, raws(x.v), e)
					}
				default:
					run.Count("reads accepted", 1)
					ok := ints(dst.Elem(), &got) && len(got) == len(ns)
					for i := 0; ok && i < len(ns); i++ {
						ok = got[i].Cmp(ns[i]) == 0
					}
					if !ok {
						run.Violate(c.Name+"/read-overflow", nil, "%s(%s) = %s without an error", c.ToName, raws(x.v), Show(dst.Elem()))
					}
				}
			}
		}
		if !c.From.IsValid() {
			return
		}
		// writers: every value of the Go type near a limit must arrive exactly or be refused
		for _, n := range lim {
			if !fits(c.Type, n) {
				continue
			}
			v := reflect.New(c.Type).Elem()
			ns := []*big.Int{n}
			fill := func(e reflect.Value) bool {
				if e.Kind() >= reflect.Uint && e.Kind() <= reflect.Uint64 {
					e.SetUint(n.Uint64())
				} else {
					e.SetInt(n.Int64())
				}
				return true
			}
			switch {
			case rng:
				if n.Sign() == 0 || !fits(c.Type, new(big.Int)) {
					continue
				}
				w := v
				if arr {
					v.Set(reflect.MakeSlice(c.Type, 1, 1))
					w = v.Index(0)
				}
				if n.Sign() > 0 {
					fill(w.Index(1))
					ns = []*big.Int{new(big.Int), n}
				} else {
					fill(w.Index(0))
					ns = []*big.Int{n, new(big.Int)}
				}
			case c.Type.Kind() == reflect.Slice && c.Type.Elem().Kind() == reflect.Slice:
				v.Set(reflect.MakeSlice(c.Type, 1, 1))
				v.Index(0).Set(reflect.MakeSlice(c.Type.Elem(), 1, 1))
				fill(v.Index(0).Index(0))
			case c.Type.Kind() == reflect.Slice:
				v.Set(reflect.MakeSlice(c.Type, 1, 1))
				fill(v.Index(0))
			default:
				fill(v)
			}
			dv, e, p := c.CallValue(v)
			if p != nil {
				run.Violate(c.Name+"/write-panic", nil, "%s(%s) panicked: %v", c.FromName, Show(v), p)
				continue
			}
			run.Eval(c.Name + "/w/" + n.String())
			if e != nil {
				run.Count("writes rejected", 1)
				if dbfits(base, n) {
					run.Violate(c.Name+"/write-rejects", nil, "%s(%s): %v", c.FromName, Show(v), e)
				}
				continue
			}
			var text string
			sel := "($1::" + c.SQL + ")"
			switch {
			case rng && arr:
				sel = "lower((" + sel + ")[1])::text||' '||upper((" + sel + ")[1])::text"
			case rng:
				sel = "lower(" + sel + ")::text||' '||upper(" + sel + ")::text"
			case base == "Int2Vector":
				if arr {
					sel = "(" + sel + ")[1]::text"
				} else {
					sel += "::text"
				}
			case base == "Money":
				if arr {
					sel = "(" + sel + ")[1]"
				}
				sel = "round(" + sel + "::numeric*100)::text"
			case arr:
				sel = "(" + sel + ")[1]::text"
			default:
				sel += "::text"
			}
			if err := cn.QueryRowContext(ctx, "SELECT "+sel, clone(dv)).Scan(&text); err != nil {
				run.Count("writes refused by the server", 1)
				if dbfits(base, n) {
					run.Violate(c.Name+"/write-rejects", nil, "%s(%s) wrote %s: %v", c.FromName, Show(v), raws(dv), err)
				}
				continue
			}
			run.Count("writes accepted", 1)
			want := ns[0].String()
			if len(ns) > 1 {
				want += " " + ns[1].String()
			}
			if text != want {
				run.Violate(c.Name+"/write-overflow", nil, "%s(%s) wrote %s: the server holds %s", c.FromName, Show(v), raws(dv), text)
			}
		}
	})
}
