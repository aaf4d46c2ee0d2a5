// Package gx drives the gosql tool: it writes random targets, runs the real CLI on them, compiles and executes what it
// generates against PostgreSQL, and compares every observation with a reference computed from the target's definition
// by independently composed SQL.
package gx

import (
	"fmt"
	"strings"
)

// Col is a column of the fixed schema.
type Col struct {
	Name, Type string
	NN         bool
	Def        string // SQL default, "" when there is none
	Kind       string // int2 int4 int8 float8 text bool tstz date texts ints jsonb bytea uuid
	PK         bool
	Gen        string // "always" for identity columns that need OVERRIDING
}

// Table is a relation of the fixed schema.
type Table struct {
	Schema, Name string
	Cols         []*Col
	View         bool
	ViewSQL      string
	Extra        []string
	Rows         []string // VALUES rows, columns in order
}

// Q is the relation as a tag writes it.
func (t *Table) Q() string {
	if t.Schema != "" {
		return t.Schema + "." + t.Name
	}
	return t.Name
}

// PK returns the primary key columns.
func (t *Table) PK() (out []*Col) {
	for _, c := range t.Cols {
		if c.PK {
			out = append(out, c)
		}
	}
	return
}

// Col finds a column.
func (t *Table) Col(n string) *Col {
	for _, c := range t.Cols {
		if c.Name == n {
			return c
		}
	}
	panic(t.Name + " has no " + n)
}

// Schema is everything the targets refer to.
var (
	tUser = &Table{Name: "t_user", Cols: []*Col{
		{Name: "id", Type: "serial", Kind: "int4", NN: true, Def: "seq", PK: true},
		{Name: "email", Type: "text", Kind: "text", NN: true},
		{Name: "name", Type: "text", Kind: "text"},
		{Name: "age", Type: "int4", Kind: "int4"},
		{Name: "score", Type: "float8", Kind: "float8"},
		{Name: "balance", Type: "int8", Kind: "int8", NN: true, Def: "5"},
		{Name: "active", Type: "bool", Kind: "bool", NN: true, Def: "true"},
		{Name: "vip", Type: "bool", Kind: "bool"},
		{Name: "rank", Type: "int2", Kind: "int2", NN: true, Def: "7"},
		{Name: "created_at", Type: "timestamptz", Kind: "tstz", NN: true, Def: "'2020-01-02 03:04:05+00'"},
		{Name: "seen_at", Type: "timestamptz", Kind: "tstz"},
		{Name: "bday", Type: "date", Kind: "date"},
		{Name: "tags", Type: "text[]", Kind: "texts"},
		{Name: "nums", Type: "int4[]", Kind: "ints", NN: true, Def: "'{}'"},
		{Name: "meta", Type: "jsonb", Kind: "jsonb"},
		{Name: "avatar", Type: "bytea", Kind: "bytea"},
		{Name: "code", Type: "varchar(20)", Kind: "text", NN: true, Def: "'none'"},
		{Name: "key", Type: "uuid", Kind: "uuid"},
	}, Extra: []string{
		`CREATE UNIQUE INDEX t_user_email_idx ON t_user (email)`,
		`CREATE UNIQUE INDEX t_user_lower_idx ON t_user (lower(email))`,
		`CREATE INDEX t_user_name_idx ON t_user (name)`,
	}, Rows: []string{
		`1,'ann@x.io','Ann',31,1.5,10,true,true,1,'2021-01-01 10:00:00+00','2021-06-01 00:00:00.123456+00','1990-02-28','{a,b}','{1,2}','{"k":"v"}','\x0102','c1','6ba7b810-9dad-11d1-80b4-00c04fd430c8'`,
		`2,'bob@x.io','Bob',NULL,NULL,-4,true,false,2,'2021-02-01 10:00:00+00',NULL,NULL,NULL,'{}',NULL,NULL,'c2',NULL`,
		`3,'cyd@x.io',NULL,31,-2.25,0,false,NULL,2,'2021-03-01 10:00:00+00','2020-06-01 00:00:00+00','2000-12-31','{}','{3}','{}','\x','c1','00000000-0000-0000-0000-000000000000'`,
		`4,'dan@y.io','dan',0,0,5,false,true,7,'2020-01-02 03:04:05+00','2021-01-01 10:00:00+00','1990-02-28','{"",a}','{2}','{"a":"1","b":"2"}','\x00ff','x%_',NULL`,
		`5,'eve@y.io','',17,1e10,9007199254740993,true,true,-3,'2022-01-01 10:00:00+00',NULL,'0001-01-01','{b}','{1}',NULL,NULL,'',NULL`,
		`6,'O''B','%a_',NULL,1.5,5,true,false,7,'2021-01-01 10:00:00+00','2021-06-01 00:00:00.123456+00',NULL,'{a,b}','{1,2}','{"k":"v"}','\x61','none','6ba7b810-9dad-11d1-80b4-00c04fd430c8'`,
	}}
	tPost = &Table{Name: "t_post", Cols: []*Col{
		{Name: "id", Type: "int4", Kind: "int4", NN: true, PK: true},
		{Name: "user_id", Type: "int4", Kind: "int4", NN: true},
		{Name: "title", Type: "text", Kind: "text", NN: true, Def: "''"},
		{Name: "body", Type: "text", Kind: "text"},
		{Name: "score", Type: "float8", Kind: "float8"},
		{Name: "pub", Type: "bool", Kind: "bool", NN: true, Def: "false"},
		{Name: "rank", Type: "int2", Kind: "int2", NN: true, Def: "0"},
	}, Rows: []string{
		`1,1,'a',NULL,1.5,true,1`, `2,1,'b','x',NULL,false,2`, `3,2,'Ann','Bob',0,true,7`, `4,4,'',NULL,-2.25,true,2`, `5,9,'a','',1e10,false,0`,
	}}
	tTag = &Table{Name: "t_tag", Cols: []*Col{
		{Name: "id", Type: "int4", Kind: "int4", NN: true, PK: true},
		{Name: "post_id", Type: "int4", Kind: "int4"},
		{Name: "label", Type: "text", Kind: "text"},
	}, Rows: []string{`1,1,'a'`, `2,1,NULL`, `3,3,'b'`, `4,NULL,'Ann'`}}
	tPair = &Table{Name: "t_pair", Cols: []*Col{
		{Name: "a", Type: "int4", Kind: "int4", NN: true, PK: true},
		{Name: "b", Type: "text", Kind: "text", NN: true, PK: true},
		{Name: "val", Type: "text", Kind: "text"},
		{Name: "n", Type: "int8", Kind: "int8", NN: true, Def: "3"},
		{Name: "ok", Type: "bool", Kind: "bool"},
	}, Extra: []string{
		`CREATE UNIQUE INDEX t_pair_expr_idx ON t_pair ((a + 100), b COLLATE "C" DESC, (b || '-'))`,
	}, Rows: []string{`1,'x','v1',1,true`, `1,'y',NULL,2,false`, `2,'x','v1',3,NULL`, `3,'','',0,true`}}
	tItem = &Table{Schema: "s2", Name: "t_item", Cols: []*Col{
		{Name: "id", Type: "int4", Kind: "int4", NN: true, PK: true, Def: "nextval('s2.item_seq')"},
		{Name: "sku", Type: "text", Kind: "text", NN: true},
		{Name: "vendor", Type: "text", Kind: "text", NN: true, Def: "'acme'"},
		{Name: "slot", Type: "int4", Kind: "int4"},
		{Name: "qty", Type: "int4", Kind: "int4", NN: true, Def: "1"},
		{Name: "note", Type: "text", Kind: "text"},
		{Name: "live", Type: "bool", Kind: "bool", NN: true, Def: "true"},
	}, Extra: []string{
		`ALTER TABLE s2.t_item ADD CONSTRAINT t_item_sku_vendor_key UNIQUE (sku, vendor)`,
		`CREATE UNIQUE INDEX t_item_slot_idx ON s2.t_item (slot)`,
		`CREATE UNIQUE INDEX t_item_part_idx ON s2.t_item (upper(sku), vendor) WHERE live AND qty >= 0`,
		`CREATE INDEX t_item_note_idx ON s2.t_item (note)`,
	}, Rows: []string{
		`1,'k1','acme',10,5,'n',true`, `2,'k1','zed',20,0,NULL,false`, `3,'k2','acme',NULL,7,'',true`, `4,'K3','acme',40,1,'n',true`,
	}}
	tIdent = &Table{Name: "t_ident", Cols: []*Col{
		{Name: "id", Type: "int4 GENERATED ALWAYS AS IDENTITY", Kind: "int4", NN: true, PK: true, Gen: "always"},
		{Name: "name", Type: "text", Kind: "text"},
		{Name: "n", Type: "int4", Kind: "int4", NN: true, Def: "9"},
	}, Rows: []string{}}
	vUser = &Table{Name: "v_user", View: true, ViewSQL: `SELECT id, email, name, age, active, created_at FROM t_user`, Cols: []*Col{
		{Name: "id", Type: "int4", Kind: "int4"},
		{Name: "email", Type: "text", Kind: "text"},
		{Name: "name", Type: "text", Kind: "text"},
		{Name: "age", Type: "int4", Kind: "int4"},
		{Name: "active", Type: "bool", Kind: "bool"},
		{Name: "created_at", Type: "timestamptz", Kind: "tstz"},
	}}
	Tables = []*Table{tUser, tPost, tTag, tPair, tItem, tIdent, vUser}
)

// Sequences are set to fixed values before every case.
var resetSeqs = []string{
	`SELECT setval('t_user_id_seq', 100)`, `SELECT setval('s2.item_seq', 100)`, `SELECT setval('t_ident_id_seq', 100)`,
}

// DDL creates the schema with its rows.
func DDL() string {
	var b strings.Builder
	b.WriteString("CREATE SCHEMA s2;\nCREATE SEQUENCE s2.item_seq;\n")
	for _, t := range Tables {
		if t.View {
			fmt.Fprintf(&b, "CREATE VIEW %s AS %s;\n", t.Q(), t.ViewSQL)
			continue
		}
		fmt.Fprintf(&b, "CREATE TABLE %s (", t.Q())
		var pk []string
		for i, c := range t.Cols {
			if i > 0 {
				b.WriteString(", ")
			}
			fmt.Fprintf(&b, "%q %s", c.Name, c.Type)
			if c.NN {
				b.WriteString(" NOT NULL")
			}
			if c.Def != "" && c.Def != "seq" {
				b.WriteString(" DEFAULT " + c.Def)
			}
			if c.PK {
				pk = append(pk, c.Name)
			}
		}
		if len(pk) > 0 {
			fmt.Fprintf(&b, ", PRIMARY KEY (%s)", strings.Join(pk, ","))
		}
		b.WriteString(");\n")
		for _, e := range t.Extra {
			b.WriteString(e + ";\n")
		}
		for _, r := range t.Rows {
			fmt.Fprintf(&b, "INSERT INTO %s VALUES (%s);\n", t.Q(), r)
		}
	}
	b.WriteString("CREATE TABLE t_gen (id int4 PRIMARY KEY, a int4, twice int4 GENERATED ALWAYS AS (a * 2) STORED);\n")
	b.WriteString("INSERT INTO t_ident (name) VALUES ('one'), (NULL), ('three');\n")
	return b.String()
}

// MutTables are the tables whose contents are compared after a case.
func MutTables() (out []string) {
	for _, t := range Tables {
		if !t.View {
			out = append(out, t.Q())
		}
	}
	return
}
