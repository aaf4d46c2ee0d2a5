package gx

import (
	"fmt"
	"regexp"
	"strings"
)

// BadDecl is a declaration that does not match the catalog, the grammar or itself. In its text # stands for a unique
// suffix and R# for a record of t_user's id, email, name, age and active; ' stands for the tags' backquotes.
type BadDecl struct {
	What  string
	Src   string
	Wants []string // each must appear in the message
}

// BadDecls lists invalid declarations.
func BadDecls() (out []BadDecl) {
	add := func(what, kind, body string, wants ...string) {
		out = append(out, BadDecl{what, fmt.Sprintf("type %sBad#Query struct {\n%s\n}", kind, body), wants})
	}
	rel := "Rel *R# 'rel:\"t_user:u\"'\n"
	many := "Rel []*R# 'rel:\"t_user:u\"'\n"
	where := func(s string) string { return "Where struct {\n" + s + "\n}\n" }
	// fields that the generated code cannot access
	for _, x := range [][2]string{{"Select", "HidLimit"}, {"Select", "HidOffset"}, {"Select", "HidRel"}, {"Update", "HidRel"}, {"Delete", "HidRel"}, {"Select", "HidWhere"}, {"Update", "HidWhere"}, {"Delete", "HidWhere"}, {"Update", "HidCount"}, {"Delete", "HidCount"}} {
		out = append(out, BadDecl{x[0] + " of " + x[1], "type " + x[0] + "Bad#Query m." + x[1], nil})
	}
	// names that do not exist
	for _, k := range []string{"Select", "Insert", "Update", "Delete"} {
		dir := ""
		if k == "Update" || k == "Delete" {
			dir = where("Id int 'sql:\"id\"'")
		}
		add(k+" of an unknown relation", k, "Rel *R# 'rel:\"t_nope\"'\n"+dir, "t_nope")
		add(k+" of an unknown schema", k, "Rel *R# 'rel:\"nope.t_user\"'\n"+dir, "nope")
		add(k+" of a relation in the wrong schema", k, "Rel *R# 'rel:\"s2.t_user\"'\n"+dir, "s2")
		if k != "Delete" {
			add(k+" record with an unknown column", k, "Rel struct { Id int 'sql:\"id\"'; X string 'sql:\"c_nope\"' } 'rel:\"t_user\"'\n"+dir, "c_nope")
		}
		add(k+" without a relation", k, "X int\n")
		add(k+" of a base type that is no struct", k, "Rel string 'rel:\"t_user\"'\n"+dir)
		add(k+" with a malformed relation", k, "Rel *R# 'rel:\"t_user.123:u\"'\n"+dir)
		add(k+" with two relations", k, "Rel *R# 'rel:\"t_user\"'\nRel2 *R# 'rel:\"t_user\"'\n"+dir)
	}
	for _, k := range []string{"Select", "Update", "Delete"} {
		add(k+" where unknown column", k, rel+where("X int 'sql:\"u.c_nope\"'"), "c_nope")
		add(k+" where unknown qualifier", k, rel+where("X int 'sql:\"zz.id\"'"), "zz")
		add(k+" where type mismatch", k, rel+where("X bool 'sql:\"u.id\"'"))
		add(k+" where unknown predicate on type", k, rel+where("X int 'sql:\"u.id ~\"'"))
		add(k+" where pattern on number", k, rel+where("X float64 'sql:\"u.age islike\"'"))
		add(k+" where unknown function", k, rel+where("X string 'sql:\"u.name,@nope_fn\"'"), "nope_fn")
		add(k+" where function of another type", k, rel+where("X int 'sql:\"u.id,@lower\"'"))
		add(k+" where list without slice", k, rel+where("X int 'sql:\"u.id isin\"'"))
		add(k+" where quantifier without slice", k, rel+where("X int 'sql:\"u.id = any\"'"))
		add(k+" where bad bool tag", k, rel+where("A int 'sql:\"u.id\"'\nX int 'sql:\"u.age\" bool:\"xor\"'"))
		add(k+" where malformed column", k, rel+where("X int 'sql:\"123\"'"), "123")
		add(k+" where directive with unknown column", k, rel+where("_ gosql.Column 'sql:\"u.c_nope istrue\"'"), "c_nope")
		add(k+" where directive with unknown right column", k, rel+where("_ gosql.Column 'sql:\"u.id = u.c_nope\"'"), "c_nope")
		add(k+" where directive with unknown right qualifier", k, rel+where("_ gosql.Column 'sql:\"u.id = zz.id\"'"), "zz")
		add(k+" where directive of non-boolean", k, rel+where("_ gosql.Column 'sql:\"u.age istrue\"'"))
		add(k+" where directive null test of a not-null column", k, rel+where("_ gosql.Column 'sql:\"u.email isnull\"'"))
		add(k+" where directive with bad literal", k, rel+where("_ gosql.Column 'sql:\"u.age = 12ab\"'"))
		add(k+" where directive between types", k, rel+where("_ gosql.Column 'sql:\"u.age = u.email\"'"))
		add(k+" where directive incomplete", k, rel+where("_ gosql.Column 'sql:\"u.age <=\"'"))
		add(k+" where directive quantified unary", k, rel+where("_ gosql.Column 'sql:\"u.name isnull any\"'"))
		add(k+" where directive unary with operand", k, rel+where("_ gosql.Column 'sql:\"u.active isfalse u.vip\"'"))
		add(k+" between unknown column", k, rel+where("B struct { X int 'sql:\"x\"'; Y int 'sql:\"y\"' } 'sql:\"u.c_nope isbetween\"'"), "c_nope")
		add(k+" between with one bound", k, rel+where("B struct { X int 'sql:\"x\"' } 'sql:\"u.age isbetween\"'"))
		add(k+" between with three bounds", k, rel+where("B struct { X, Y, Z int } 'sql:\"u.age isbetween\"'"))
		add(k+" between with unlabelled bounds", k, rel+where("B struct { _ gosql.Column 'sql:\"u.age\"'; _ gosql.Column 'sql:\"u.age,y\"' } 'sql:\"u.age isbetween\"'"))
		add(k+" between mistyped bound", k, rel+where("B struct { X int 'sql:\"x\"'; Y bool 'sql:\"y\"' } 'sql:\"u.age isbetween\"'"))
		add(k+" between mistyped column bound", k, rel+where("B struct { _ gosql.Column 'sql:\"u.email,x\"'; _ gosql.Column 'sql:\"u.id,y\"' } 'sql:\"u.age isbetween\"'"))
		add(k+" between unknown column bound", k, rel+where("B struct { _ gosql.Column 'sql:\"u.c_nope,x\"'; _ gosql.Column 'sql:\"u.id,y\"' } 'sql:\"u.age isbetween\"'"), "c_nope")
		add(k+" nested where of a non-struct", k, rel+where("X string 'sql:\">\"'"))
		add(k+" where of a non-struct", k, rel+"Where []string\n")
		add(k+" where and filter", k, rel+where("X int 'sql:\"u.id\"'")+"F gosql.Filter\n")
		jn := map[string]string{"Select": "Join", "Update": "From", "Delete": "Using"}[k]
		first := ""
		if k != "Select" {
			first = "_ gosql.Relation 'sql:\"t_post:p\"'\n"
		}
		join := func(s string) string {
			return rel + jn + " struct {\n" + first + s + "\n}\n" + where("X int 'sql:\"u.id\"'")
		}
		add(k+" joining an unknown relation", k, join("_ gosql.LeftJoin 'sql:\"t_nope:n,n.id = u.id\"'"), "t_nope")
		add(k+" joining on an unknown column", k, join("_ gosql.LeftJoin 'sql:\"t_tag:t,t.c_nope = u.id\"'"), "c_nope")
		add(k+" joining on an unknown right column", k, join("_ gosql.LeftJoin 'sql:\"t_tag:t,t.id = u.c_nope\"'"), "c_nope")
		add(k+" joining on an unknown qualifier", k, join("_ gosql.LeftJoin 'sql:\"t_tag:t,t.id = zz.id\"'"), "zz")
		add(k+" joining on mismatched types", k, join("_ gosql.LeftJoin 'sql:\"t_tag:t,t.label = u.id\"'"))
		add(k+" joining on the wrong side", k, join("_ gosql.LeftJoin 'sql:\"t_tag:t,u.id = t.id\"'"))
		add(k+" joining under a used alias", k, join("_ gosql.LeftJoin 'sql:\"t_tag:u,u.id = u.id\"'"))
		add(k+" joining without condition operand", k, join("_ gosql.LeftJoin 'sql:\"t_tag:t,t.id =\"'"))
		add(k+" joining a malformed relation", k, join("_ gosql.LeftJoin 'sql:\"123\"'"))
		add(k+" foreign directive in a join", k, join("_ gosql.Column 'sql:\"u.id\"'"))
	}
	// only for some kinds
	add("Select with a default directive", "Select", rel+"_ gosql.Default 'sql:\"*\"'\n")
	add("Select with a force directive", "Select", rel+"_ gosql.Force 'sql:\"*\"'\n")
	add("Select with an all directive", "Select", many+"_ gosql.All\n")
	add("Select with a result", "Select", rel+"Result *R#\n")
	add("Select with rows affected", "Select", many+"RowsAffected int\n")
	add("Select with a relation directive", "Select", "_ gosql.Relation 'rel:\"t_user:u\"'\n")
	add("Select with on conflict", "Select", rel+"OnConflict struct { _ gosql.Ignore }\n")
	add("Select with from", "Select", rel+"From struct { _ gosql.Relation 'sql:\"t_post:p\"' }\n")
	add("Select with using", "Select", rel+"Using struct { _ gosql.Relation 'sql:\"t_post:p\"' }\n")
	add("Select with a column directive", "Select", rel+"_ gosql.Column 'sql:\"u.id\"'\n")
	add("Insert with a where", "Insert", rel+where("Id int 'sql:\"id\"'"))
	add("Insert with an all directive", "Insert", rel+"_ gosql.All\n")
	add("Insert with a filter", "Insert", many+"F gosql.Filter\n")
	add("Insert with order", "Insert", rel+"_ gosql.OrderBy 'sql:\"u.id\"'\n")
	add("Insert with a limit", "Insert", many+"_ gosql.Limit 'sql:\"10\"'\n")
	add("Update with an offset", "Update", rel+"_ gosql.Offset 'sql:\"2\"'\n"+where("X int 'sql:\"u.id\"'"))
	add("Update with a join", "Update", rel+"Join struct { _ gosql.LeftJoin 'sql:\"t_post:p,p.id = u.id\"' }\n"+where("X int 'sql:\"u.id\"'"))
	add("Update with on conflict", "Update", rel+"OnConflict struct { _ gosql.Ignore }\n"+where("X int 'sql:\"u.id\"'"))
	add("Update with where and all", "Update", rel+"_ gosql.All\n"+where("X int 'sql:\"u.id\"'"))
	add("Update slice with all", "Update", many+"_ gosql.All\n")
	add("Update slice with where", "Update", many+where("X int 'sql:\"u.id\"'"))
	add("Update slice with filter", "Update", many+"F gosql.Filter\n")
	add("Delete with override", "Delete", rel+"_ gosql.Override 'sql:\"user\"'\n"+where("X int 'sql:\"u.id\"'"))
	add("Delete with a default directive", "Delete", rel+"_ gosql.Default 'sql:\"*\"'\n"+where("X int 'sql:\"u.id\"'"))
	add("Delete with from", "Delete", rel+"From struct { _ gosql.Relation 'sql:\"t_post:p\"' }\n"+where("X int 'sql:\"u.id\"'"))
	add("Delete with two results", "Delete", rel+"Result []*R#\nRowsAffected int\n"+where("X int 'sql:\"u.id\"'"))
	add("Delete with rows affected of a string", "Delete", rel+"RowsAffected string\n"+where("X int 'sql:\"u.id\"'"))
	add("Update with return and result", "Update", rel+"_ gosql.Return 'sql:\"*\"'\nResult []*R#\n"+where("X int 'sql:\"u.id\"'"))
	add("Update with a result of non-records", "Update", rel+"Result []string\n"+where("X int 'sql:\"u.id\"'"))
	add("Select with two limits", "Select", many+"_ gosql.Limit 'sql:\"10\"'\nLimit int\n")
	add("Select with two offsets", "Select", many+"_ gosql.Offset 'sql:\"10\"'\nOffset int\n")
	add("Select with limit of a string", "Select", many+"Limit string 'sql:\"1\"'\n")
	add("Select with offset of a string", "Select", many+"Offset string 'sql:\"1\"'\n")
	add("Select with a limit that is no number", "Select", many+"_ gosql.Limit 'sql:\"abc\"'\n")
	add("Select with an empty limit", "Select", many+"_ gosql.Limit 'sql:\"\"'\n")
	add("Select with an offset that is no number", "Select", many+"_ gosql.Offset 'sql:\"abc\"'\n")
	add("Select ordered by nothing", "Select", many+"_ gosql.OrderBy\n")
	add("Select ordered by an unknown column", "Select", many+"_ gosql.OrderBy 'sql:\"u.id,u.c_nope\"'\n", "c_nope")
	add("Select ordered by an unknown qualifier", "Select", many+"_ gosql.OrderBy 'sql:\"zz.id\"'\n", "zz")
	add("Select ordered with bad nulls", "Select", many+"_ gosql.OrderBy 'sql:\"u.id:nullsthird\"'\n", "nullsthird")
	add("Select with two error handlers", "Select", rel+"E1 H#\nE2 H#\n")
	add("Select with two contexts", "Select", "context.Context\n"+rel+"ctx context.Context\n")
	add("Select iterating with a bad signature", "Select", "Rel func(*R#) int 'rel:\"t_user:u\"'\n")
	add("Select iterating with two methods", "Select", "Rel interface{ Visit(*R#) error; Done() } 'rel:\"t_user:u\"'\n")
	add("Select iterating with a method and an embedded one", "Select", "Rel interface{ Visit(*R#) error; error } 'rel:\"t_user:u\"'\n")
	add("Select iterating over unnamed", "Select", "Rel func(*struct{}) error 'rel:\"t_user:u\"'\n")
	add("Select with a count of a string", "Select", "Count string 'rel:\"t_user:u\"'\n")
	add("Select with a field no column can be read into", "Select", "Rel struct { Id chan int 'sql:\"id\"' } 'rel:\"t_user\"'\n", "Id")
	add("Select with a mistyped field", "Select", "Rel struct { Name map[string]int 'sql:\"name\"' } 'rel:\"t_user\"'\n", "Name")
	add("Select with a number for a text", "Select", "Rel struct { Email int 'sql:\"email\"' } 'rel:\"t_user\"'\n", "Email")
	add("Select with a bool for a time", "Select", "Rel struct { At bool 'sql:\"created_at\"' } 'rel:\"t_user\"'\n", "At")
	add("Insert with a func field", "Insert", "Rel struct { Meta func() 'sql:\"meta\"' } 'rel:\"t_user\"'\n", "Meta")
	add("Insert with a bool for a number", "Insert", "Rel struct { Age bool 'sql:\"age\"' } 'rel:\"t_user\"'\n", "Age")
	add("Insert with a slice for a scalar", "Insert", "Rel struct { Age []int 'sql:\"age\"' } 'rel:\"t_user\"'\n", "Age")
	add("Insert with a scalar for an array", "Insert", "Rel struct { Nums int 'sql:\"nums\"' } 'rel:\"t_user\"'\n", "Nums")
	add("Update with a mistyped field", "Update", "Rel struct { Email bool 'sql:\"email\"' } 'rel:\"t_user\"'\n_ gosql.All\n", "Email")
	add("Insert default of a column without one", "Insert", rel+"_ gosql.Default 'sql:\"u.name\"'\n", "name")
	add("Insert default option of a column without one", "Insert", "Rel struct { Name string 'sql:\"name,default\"' } 'rel:\"t_user\"'\n", "name")
	add("Insert default of an unknown column", "Insert", rel+"_ gosql.Default 'sql:\"u.c_nope\"'\n", "c_nope")
	add("Insert default of an unknown qualifier", "Insert", rel+"_ gosql.Default 'sql:\"zz.active\"'\n", "zz")
	add("Insert force of an unknown column", "Insert", rel+"_ gosql.Force 'sql:\"u.c_nope\"'\n", "c_nope")
	add("Insert force of a column without a field", "Insert", rel+"_ gosql.Force 'sql:\"u.balance\"'\n", "balance")
	add("Update return of an unknown column", "Update", rel+"_ gosql.Return 'sql:\"u.c_nope\"'\n"+where("X int 'sql:\"u.id\"'"), "c_nope")
	add("Update return of a column without a field", "Update", rel+"_ gosql.Return 'sql:\"u.balance\"'\n"+where("X int 'sql:\"u.id\"'"), "balance")
	add("Update return of nothing", "Update", rel+"_ gosql.Return\n"+where("X int 'sql:\"u.id\"'"))
	add("Insert return of an unknown qualifier", "Insert", rel+"_ gosql.Return 'sql:\"zz.id\"'\n", "zz")
	add("Insert override of nothing known", "Insert", rel+"_ gosql.Override 'sql:\"foo\"'\n", "foo")
	add("Insert default of nothing", "Insert", rel+"_ gosql.Default\n")
	add("Insert result with an unknown column", "Insert", rel+"Result struct { X int 'sql:\"c_nope\"' }\n", "c_nope")
	// conflict clauses
	conflict := func(s string) string { return rel + "OnConflict struct {\n" + s + "\n}\n" }
	add("conflict of a non-struct", "Insert", rel+"OnConflict string\n")
	add("conflict update without target", "Insert", conflict("_ gosql.Update 'sql:\"u.name\"'"))
	add("conflict with two actions", "Insert", conflict("_ gosql.Column 'sql:\"u.id\"'\n_ gosql.Update 'sql:\"u.name\"'\n_ gosql.Ignore"))
	add("conflict with two targets", "Insert", conflict("_ gosql.Column 'sql:\"u.id\"'\n_ gosql.Index 'sql:\"t_user_email_idx\"'\n_ gosql.Ignore"))
	add("conflict on an unknown column", "Insert", conflict("_ gosql.Column 'sql:\"u.c_nope\"'\n_ gosql.Ignore"), "c_nope")
	add("conflict on a column that is not unique", "Insert", conflict("_ gosql.Column 'sql:\"u.name\"'\n_ gosql.Ignore"), "name")
	add("conflict on columns that are not unique together", "Insert", conflict("_ gosql.Column 'sql:\"u.id,u.email\"'\n_ gosql.Ignore"))
	add("conflict on an unknown index", "Insert", conflict("_ gosql.Index 'sql:\"nope_idx\"'\n_ gosql.Ignore"), "nope_idx")
	add("conflict on an index that is not unique", "Insert", conflict("_ gosql.Index 'sql:\"t_user_name_idx\"'\n_ gosql.Ignore"), "t_user_name_idx")
	add("conflict on another table's index", "Insert", conflict("_ gosql.Index 'sql:\"t_item_slot_idx\"'\n_ gosql.Ignore"), "t_item_slot_idx")
	add("conflict on an unknown constraint", "Insert", conflict("_ gosql.Constraint 'sql:\"nope_key\"'\n_ gosql.Ignore"), "nope_key")
	add("conflict on another table's constraint", "Insert", conflict("_ gosql.Constraint 'sql:\"t_item_sku_vendor_key\"'\n_ gosql.Ignore"), "t_item_sku_vendor_key")
	add("conflict updating an unknown column", "Insert", conflict("_ gosql.Column 'sql:\"u.id\"'\n_ gosql.Update 'sql:\"u.c_nope\"'"), "c_nope")
	add("conflict with a malformed index", "Insert", conflict("_ gosql.Index 'sql:\"1234\"'\n_ gosql.Ignore"))
	add("conflict with a foreign directive", "Insert", conflict("_ gosql.LeftJoin 'sql:\"t_post:p,p.id = u.id\"'"))
	// what would affect every row, or be refused by the server
	for _, k := range []string{"Update", "Delete"} {
		add(k+" with a where struct without conditions", k, rel+"Where struct {}\n", "gosql.All")
		add(k+" with a where struct of an empty group", k, rel+where("_ struct {\n} 'sql:\">\"'\nX struct {\n} 'sql:\">\"'"), "gosql.All")
		add(k+" with a where struct without tags", k, rel+where("X int\nY int 'sql:\"-\"'"), "gosql.All")
	}
	add("Delete without conditions", "Delete", rel, "gosql.All")
	add("Delete returning, without conditions", "Delete", rel+"_ gosql.Return 'sql:\"*\"'\n", "gosql.All")
	add("Update of a table without primary key fields and without conditions", "Update", "Rel struct { Name string 'sql:\"name\"' } 'rel:\"t_user\"'\n")
	for _, k := range []string{"Select", "Insert", "Update", "Delete"} {
		dir := ""
		if k == "Update" || k == "Delete" {
			dir = where("Id int 'sql:\"id\"'")
		}
		add(k+" of an array", k, "Rel [3]*R# 'rel:\"t_user\"'\n"+dir+map[bool]string{true: "_ gosql.Return 'sql:\"*\"'\n"}[k == "Delete"])
		add(k+" with a field of the method's name", k, rel+dir+"Exec int\n", "Exec")
	}
	for _, k := range []string{"Insert", "Update"} {
		dir := map[string]string{"Update": "_ gosql.All\n"}[k]
		add(k+" of a column twice", k, "Rel struct { Name string 'sql:\"name\"'; N2 string 'sql:\"name\"' } 'rel:\"t_user\"'\n"+dir, "name")
		add(k+" of a generated column", k, "Rel struct { A int 'sql:\"a\"'; T int 'sql:\"twice\"' } 'rel:\"t_gen\"'\n"+dir, "twice")
		add(k+" of an identity column", k, "Rel struct { Id int 'sql:\"id\"'; N string 'sql:\"name\"' } 'rel:\"t_ident\"'\n"+dir, "id")
	}
	add("conflict updating a column twice", "Insert", conflict("_ gosql.Column 'sql:\"u.id\"'\n_ gosql.Update 'sql:\"u.name,u.name\"'"), "name")
	add("conflict updating an identity column", "Insert", "Rel struct { Id int 'sql:\"id\"' } 'rel:\"t_ident\"'\n_ gosql.Override 'sql:\"system\"'\nOnConflict struct {\n_ gosql.Column 'sql:\"id\"'\n_ gosql.Update 'sql:\"id\"'\n}\n", "id")
	// filters
	add("Filter without constructor", "Filter", "_ *R# 'rel:\"t_user:u\"'\n")
	add("Filter searching an unknown column", "Filter", "_ *R# 'rel:\"t_user:u\"'\n_ gosql.TextSearch 'sql:\"u.c_nope\"'\ngosql.FilterConstructor\n", "c_nope")
	add("Filter searching a column that is no tsvector", "Filter", "_ *R# 'rel:\"t_user:u\"'\n_ gosql.TextSearch 'sql:\"u.name\"'\ngosql.FilterConstructor\n", "name")
	add("Filter of an unknown relation", "Filter", "_ *R# 'rel:\"t_nope:u\"'\ngosql.FilterConstructor\n", "t_nope")
	add("Filter of an iterator", "Filter", "_ func(*R#) error 'rel:\"t_user:u\"'\ngosql.FilterConstructor\n")
	add("Filter with return", "Filter", "_ *R# 'rel:\"t_user:u\"'\n_ gosql.Return 'sql:\"*\"'\ngosql.FilterConstructor\n")
	return
}

// Render gives the declaration with its record.
func (b BadDecl) Render(suffix string) string {
	s := strings.ReplaceAll(b.Src, "'", "`")
	s = strings.ReplaceAll(s, "; ", "\n")
	s = strings.ReplaceAll(s, "struct { ", "struct {\n")
	s = regexp.MustCompile("` }").ReplaceAllString(s, "`\n}")
	if strings.Contains(s, "R#") {
		s += "\n\ntype R# struct {\n\tId int `sql:\"id,pk\"`\n\tEmail string `sql:\"email\"`\n\tName string `sql:\"name\"`\n\tAge int `sql:\"age\"`\n\tActive bool `sql:\"active\"`\n}"
	}
	if strings.Contains(s, "H#") {
		s += "\n\ntype H# struct{}\n\nfunc (H#) HandleError(err error) error { return err }"
	}
	return strings.ReplaceAll(s, "#", suffix) + "\n"
}
