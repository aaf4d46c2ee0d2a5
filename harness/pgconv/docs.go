package pgconv

import (
	"context"
	"database/sql"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/frk/gosql/pgsql"
	"github.com/frk/gosql/verifharness/vh"
)

// Doc is what the JSON and XML pairs marshal.
type Doc struct {
	XMLName xml.Name          `json:"-" xml:"doc"`
	S       string            `json:"s" xml:"s"`
	N       int64             `json:"n" xml:"n,attr"`
	F       float64           `json:"f" xml:"f"`
	L       []string          `json:"l" xml:"l"`
	P       *Doc              `json:"p" xml:"doc"`
	M       map[string]string `json:"m" xml:"-"`
}

func docText(r *rand.Rand) string {
	rs := []rune(Str(r))
	for i, c := range rs {
		if c < ' ' && c != '\t' && c != '\n' || c == 0x7f || c == 0xfffe || c == 0xffff { // not XML / not jsonb text
			rs[i] = '<'
		}
	}
	return string(rs)
}

func genDoc(r *rand.Rand, d int) *Doc {
	x := &Doc{XMLName: xml.Name{Local: "doc"}, S: docText(r), N: r.Int63() - r.Int63(), F: float64(r.Intn(4000)-2000) / 8}
	for i := r.Intn(4); i > 0; i-- {
		x.L = append(x.L, docText(r))
	}
	if d < 2 && r.Intn(2) == 0 {
		x.P = genDoc(r, d+1)
	}
	if r.Intn(2) == 0 {
		x.M = map[string]string{docText(r): docText(r)}
	}
	return x
}

// Docs monitors the marshalling pairs and the untyped reader.
func Docs(run *vh.Run) {
	db, err := Open("")
	if err != nil {
		vh.Fatal("%v", err)
	}
	defer db.Close()
	ctx := context.Background()
	cn, _ := db.Conn(ctx)
	defer cn.Close()
	r := rand.New(rand.NewSource(run.Seed + 99))
	for i, n := 0, run.N(150, 3000); i < n; i++ {
		d := genDoc(r, 0)
		for _, typ := range []string{"json", "jsonb", "xml"} {
			in := *d
			var w interface{ Value() (interface{}, error) }
			_ = w
			wr, rd := pgsql.JSON, pgsql.JSON
			var out Doc
			if typ == "xml" {
				wr, rd = pgsql.XML, pgsql.XML
				var strip func(*Doc)
				strip = func(x *Doc) {
					x.M = nil
					if x.P != nil {
						p := *x.P
						x.P = &p
						strip(x.P)
					}
				}
				strip(&in)
			} else {
				out.XMLName = in.XMLName
				var nest func(*Doc)
				nest = func(x *Doc) {
					x.XMLName = xml.Name{}
					if x.P != nil {
						p := *x.P
						x.P = &p
						nest(x.P)
					}
				}
				nest(&in)
				out.XMLName = xml.Name{}
			}
			dv, err := wr(&in).Value()
			if err != nil {
				run.Violate("doc/"+typ+"/write-error", nil, "%s writer of %+v: %v", typ, in, err)
				continue
			}
			var x raw
			if err := cn.QueryRowContext(ctx, "SELECT $1::"+typ, dv).Scan(&x); err != nil {
				run.Violate("doc/"+typ+"/write-rejected", nil, "%s wrote %s: %v", typ, raws(dv), err)
				continue
			}
			for _, src := range []interface{}{x.v, fmt.Sprintf("%s", x.v)} {
				out := Doc{}
				if err := rd(&out).Scan(src); err != nil || !reflect.DeepEqual(out, in) {
					run.Violate("doc/"+typ+"/read", nil, "%s wrote %+v, read back %+v (%v) from %s", typ, in, out, err, raws(src))
				}
			}
			run.Eval(fmt.Sprintf("doc/%s/%d/%v/%s", typ, len(in.L), in.P != nil, strShape(in.S)))
			stale := in
			if err := rd(&stale).Scan(nil); err != nil || !reflect.DeepEqual(stale, Doc{}) {
				run.Violate("doc/"+typ+"/null", nil, "%s reader of NULL kept %+v (%v)", typ, stale, err)
			}
			var ip interface{}
			if typ != "xml" {
				if err := rd(&ip).Scan(x.v); err != nil || ip.(map[string]interface{})["s"] != in.S {
					run.Violate("doc/"+typ+"/any", nil, "%s reader into interface: %v (%v)", typ, ip, err)
				}
			}
		}
	}
	if v, err := pgsql.JSON(nil).Value(); v != nil || err != nil {
		run.Violate("doc/json/nil", nil, "JSON(nil) wrote %v, %v", v, err)
	}
	if v, err := pgsql.XML(nil).Value(); v != nil || err != nil {
		run.Violate("doc/xml/nil", nil, "XML(nil) wrote %v, %v", v, err)
	}
	if err := pgsql.JSON(&Doc{}).Scan([]byte("{")); err == nil {
		run.Violate("doc/json/bad", nil, "JSON reader accepted malformed input")
	}
}

// docOwnership reads documents one after the other into the same map and the same slice, while
// the earlier ones are still held.
func docOwnership(run *vh.Run) {
	rng := rand.New(rand.NewSource(run.Seed + 99))
	keys := []string{"a", "b", "c", "d", ""}
	for _, typ := range []string{"json", "jsonb"} {
		for n := 0; n < run.N(200, 5000); n++ {
			var m map[string]int
			var l []map[string]int
			var heldM []map[string]int
			var heldL [][]map[string]int
			var wantM []map[string]int
			var wantL [][]map[string]int
			for step := 0; step < 4; step++ {
				doc := func() map[string]int {
					d := map[string]int{}
					for _, k := range keys {
						if rng.Intn(2) == 0 {
							d[k] = rng.Intn(3)
						}
					}
					return d
				}
				wm, wl := doc(), []map[string]int{}
				for i := rng.Intn(3); i > 0; i-- {
					wl = append(wl, doc())
				}
				bm, _ := json.Marshal(wm)
				bl, _ := json.Marshal(wl)
				if err := pgsql.JSON(&m).Scan(bm); err != nil {
					run.Violate("doc/"+typ+"/reread-error", nil, "JSON reader of %s into a map: %v", bm, err)
				}
				if err := pgsql.JSON(&l).Scan(bl); err != nil {
					run.Violate("doc/"+typ+"/reread-error", nil, "JSON reader of %s into a slice: %v", bl, err)
				}
				heldM, wantM = append(heldM, m), append(wantM, wm)
				heldL, wantL = append(heldL, l), append(wantL, wl)
				run.Eval(fmt.Sprintf("reread/%s/%d/%d/%d", typ, step, len(wm), len(wl)))
				if !reflect.DeepEqual(heldM, wantM) {
					run.Violate("doc/"+typ+"/reread-map", nil, "maps read one after the other into one variable are %v, want %v", heldM, wantM)
					break
				}
				if !reflect.DeepEqual(heldL, wantL) {
					run.Violate("doc/"+typ+"/reread-slice", nil, "slices read one after the other into one variable are %v, want %v", heldL, wantL)
					break
				}
			}
		}
	}
}

// anyOwnership checks the untyped reader.
func anyOwnership(run *vh.Run) {
	docOwnership(run)
	db, err := Open("")
	if err != nil {
		vh.Fatal("%v", err)
	}
	defer db.Close()
	for _, e := range []string{"'abc'::bytea", "1::int8", "'x'::text", "now()", "NULL::text", "'{1,2}'::int4[]", "true", "1.5::float8", "'{}'::json"} {
		var x raw
		if err := db.QueryRow("SELECT " + e).Scan(&x); err != nil {
			vh.Fatal("%v", err)
		}
		var dst interface{} = "stale"
		src := clone(x.v)
		run.Eval("any/" + e)
		if err := pgsql.AnyToEmptyInterface(&dst).Scan(src); err != nil {
			run.Violate("any/read-error", nil, "AnyToEmptyInterface(%s): %v", raws(x.v), err)
			continue
		}
		if !reflect.DeepEqual(dst, x.v) {
			run.Violate("any/read-wrong", nil, "AnyToEmptyInterface(%s) = %v", raws(x.v), dst)
		}
		if b, ok := src.([]byte); ok {
			for i := range b {
				b[i] = 0
			}
			if !reflect.DeepEqual(dst, x.v) {
				run.Violate("any/read-alias", nil, "AnyToEmptyInterface(%s) aliases the driver's buffer", raws(x.v))
			}
		}
	}
	_ = sql.ErrNoRows
}
