package gx

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
)

// Forms says how a target's types are written, where Go has several ways to write the same thing.
type Forms struct {
	decls  string
	subst  [][2]string // in the target's source
	mdecls string      // in package m
	init   string      // after the query value's declaration
	Chosen []string
}

func (f *Forms) apply(s string) string {
	if f == nil {
		return s
	}
	for _, x := range f.subst {
		s = strings.Replace(s, x[0], x[1], 1)
	}
	return f.decls + s
}

var condField = regexp.MustCompile("(?m)^(\t\t+)(\\w+) (\\[\\])?(int|string|bool|float64|time\\.Time|m\\.\\w+) `")

var (
	whereBlock = regexp.MustCompile("(?ms)^\tWhere struct \\{\n.*?^\t\\}\n")
	groupEnd   = regexp.MustCompile("(?m)^(\t+)\\} `sql:\">\".*$")
	groupOpen  = regexp.MustCompile("(?m)^(\t+)\\w+ (struct \\{\n)")
)

// Disguise draws forms for the targets and their records.
func Disguise(r *rand.Rand, ts []*Target) {
	seen := map[*Rec]bool{}
	n := 0
	id := func(p string) string { n++; return fmt.Sprintf("%s%d", p, 70000+n) }
	for _, t := range ts {
		for _, c := range t.recs() {
			if seen[c] {
				continue
			}
			seen[c] = true
			if c.AfterScan {
				c.Hook = pickS(r, "", "promoted", "promoted twice", "promoted by alias")
			}
			c.Hidden = c.Imported && r.Intn(2) == 0
			c.Alias = r.Intn(3) == 0
			c.TypeAlias = map[string]string{}
			for _, f := range c.Fields {
				if s := c.localType(f.GT); r.Intn(3) == 0 && c.TypeAlias[s] == "" && s != "[]byte" {
					c.TypeAlias[s] = id("AF")
				}
			}
		}
		f := &Forms{}
		t.Forms = f
		src := t.Source()
		use := func(what, old, name, decl string) {
			f.decls += decl + "\n"
			f.subst = append(f.subst, [2]string{old, name})
			f.Chosen = append(f.Chosen, what)
		}
		rel := func(field, form string, rec *Rec) {
			old := "\t" + field + " " + relForm(form, rec)
			switch form {
			case "one", "ptr":
				if rec.Imported && r.Intn(2) == 0 {
					a := id("AR")
					use("alias of the record at its use", old, strings.Replace(old, rec.ref(), a, 1), "type "+a+" = "+rec.ref())
				} else if form == "ptr" && r.Intn(2) == 0 {
					a := id("AP")
					use("alias of a pointer to the record", old, "\t"+field+" "+a, "type "+a+" = *"+rec.ref())
				}
			case "slice", "ptrslice":
				a := id("AS")
				switch r.Intn(3) {
				case 0:
					use("alias of a slice of records", old, "\t"+field+" "+a, "type "+a+" = "+relForm(form, rec))
				case 1:
					use("defined slice type", old, "\t"+field+" "+a, "type "+a+" "+relForm(form, rec))
				}
			case "iterf", "iterfv", "iteri":
				a := id("AI")
				switch r.Intn(3) {
				case 0:
					use("alias of an iterator", old, "\t"+field+" "+a, "type "+a+" = "+relForm(form, rec))
				case 1:
					use("defined iterator type", old, "\t"+field+" "+a, "type "+a+" "+relForm(form, rec))
				case 2:
					if form == "iteri" && r.Intn(2) == 0 {
						use("iterator interface embedding another", old, "\t"+field+" "+a, "type "+a+"0 "+relForm(form, rec)+"\ntype "+a+" interface{ "+a+"0 }")
					} else if form == "iteri" {
						use("anonymous iterator interface embedding another", old, "\t"+field+" interface{ "+a+" }", "type "+a+" "+relForm(form, rec))
					}
				}
			}
		}
		if t.Rec != nil && t.Form != "count" && t.Form != "exists" && t.Form != "notexists" && t.Form != "blank" {
			rel(t.RelName, t.Form, t.Rec)
		}
		if t.Result != nil {
			rel("Result", t.ResForm, t.Result)
		}
		for h, k := range map[string]string{"Error": "EH", "Info": "EIH"} {
			if t.ErrH != h {
				continue
			}
			old, a := "\tEH rt."+k+"\n", id("AH")
			switch r.Intn(9) {
			case 0:
				use("handler: alias", old, "\tEH "+a+"\n", "type "+a+" = rt."+k)
			case 1:
				use("handler: promoted method", old, "\tEH "+a+"\n", "type "+a+" struct{ rt."+k+" }")
			case 2:
				use("handler: promoted method of a pointer", old, "\tEH "+a+"\n", "type "+a+" struct{ *rt.P"+k+" }")
			case 3:
				use("handler: pointer", old, "\tEH *rt.P"+k+"\n", "")
			case 4:
				use("handler: pointer receiver", old, "\tEH rt.P"+k+"\n", "")
			case 5:
				use("handler: library interface", old, "\tEH gosql."+h+"Handler\n", "")
				f.init = "q.EH = rt." + k + "{}\n"
				if h == "Info" {
					f.subst[len(f.subst)-1][1] = "\tEH gosql.ErrorInfoHandler\n"
				}
			case 6:
				m := "HandleError(error) error"
				if h == "Info" {
					m = "HandleErrorInfo(*gosql.ErrorInfo) error"
				}
				use("handler: own interface", old, "\tEH "+a+"\n", "type "+a+" interface{ "+m+" }")
				f.init = "q.EH = rt." + k + "{}\n"
			case 7:
				use("handler: embedded", old, "\trt."+k+"\n", "")
			case 8:
				use("handler: unexported field", old, "\teh rt."+k+"\n", "")
			}
		}
		if t.CtxField && r.Intn(2) == 0 {
			a := id("AC")
			use("alias of the context", "\tctx context.Context\n", "\tctx "+a+"\n", "type "+a+" = context.Context")
		}
		if t.Filter && r.Intn(2) == 0 {
			a := id("AL")
			use("alias of the filter", "\tFilter gosql.Filter\n", "\tFilter "+a+"\n", "type "+a+" = gosql.Filter")
		}
		if w := whereBlock.FindString(src); w != "" && r.Intn(3) == 0 {
			a, all := id("W"), r.Intn(2) == 0
			d := strings.TrimSuffix(strings.TrimPrefix(w, "\tWhere struct {\n"), "\t}\n")
			f.subst = append(f.subst, [2]string{w, "\tWhere m." + a + "\n"})
			// Another package's unexported fields are no conditions, at any depth.
			what := "where struct of another package"
			if all {
				what += " with unexported fields in its groups"
				d = groupEnd.ReplaceAllString(d, "$1\thidden string `sql:\"c_nope\"`\n$0")
				n := 0
				for x := groupOpen.FindStringSubmatchIndex(d); x != nil && r.Intn(4) > 0; x = groupOpen.FindStringSubmatchIndex(d) {
					end := strings.Index(d[x[1]:], "\n"+d[x[2]:x[3]]+"} `")
					if end < 0 || !strings.HasPrefix(d[x[1]+end+1+x[3]-x[2]:], "} `sql:\">\"") {
						break
					}
					n++
					g := fmt.Sprintf("%sG%d", a, n)
					body := d[x[1] : x[1]+end+1]
					f.mdecls += "type " + g + " struct {\n" + body + "}\n"
					d = d[:x[4]] + g + d[x[1]+end+1+x[3]-x[2]+1:]
					what += ", groups of named types"
				}
			}
			f.mdecls += "type " + a + " struct {\n" + d + "\t\thidden string `sql:\"c_nope\"`\n}\n"
			f.mdecls = strings.ReplaceAll(f.mdecls, " m.", " ")
			f.mdecls = strings.ReplaceAll(f.mdecls, "]m.", "]")
			f.Chosen = append(f.Chosen, what)
			src = strings.Replace(src, w, "", 1)
		}
		for _, m := range condField.FindAllStringSubmatch(src, -1) {
			if r.Intn(3) == 0 {
				a := id("AW")
				use("alias of a condition's type", m[0], m[1]+m[2]+" "+a+" `", "type "+a+" = "+m[3]+m[4])
			}
		}
		for _, c := range t.recs() {
			if c.Alias {
				f.Chosen = append(f.Chosen, "record declared as an alias")
			}
			if c.Hidden {
				f.Chosen = append(f.Chosen, "imported record with unexported fields")
			}
			if c.Hook != "" {
				f.Chosen = append(f.Chosen, "AfterScan "+c.Hook)
			}
			if len(c.TypeAlias) > 0 {
				f.Chosen = append(f.Chosen, "aliases of field types")
			}
		}
	}
}

// hook renders the embedded field and the types of a promoted AfterScan.
func (r *Rec) hook() (field, decl string) {
	h := "hook" + r.Name
	body := fmt.Sprintf("AfterScan() { rt.Logf(\"afterscan %%s\", rt.JSON((*%s)(unsafe.Pointer(h)))) }\n", r.Name)
	switch r.Hook {
	case "promoted":
		return "\t" + h + "\n", fmt.Sprintf("type %s struct{ _ [0]int }\nfunc (h *%s) %s", h, h, body)
	case "promoted twice":
		return "\t" + h + "\n", fmt.Sprintf("type %s struct{ %sx }\ntype %sx struct{ _ [0]int }\nfunc (h *%sx) %s", h, h, h, h, body)
	case "promoted by alias":
		return "\t" + h + "\n", fmt.Sprintf("type %s struct{ %sx }\ntype %sx = %sy\ntype %sy struct{ _ [0]int }\nfunc (h *%sy) %s", h, h, h, h, h, h, body)
	}
	return "", ""
}
