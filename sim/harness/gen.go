package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/boynton/sadl"
	"simrt"
)

type J = map[string]any

// gen makes models. A target keeps it within what that exporter is meant for.
type gen struct {
	s      *simrt.Stream
	target string
	types  []J // finished and planned typedefs
	kinds  map[string]string
	byName map[string]J
	used   map[string]bool
	cycles bool // collections may contain themselves
	wild   bool // constructs that exporters may refuse
}

var typeWords = []string{"Item", "Order", "User", "Address", "Widget", "Report", "Entry", "Invoice", "Pet", "Tag", "Color", "Shape", "Account", "Zone", "Limit", "Status"}
var fieldWords = []string{"id", "name", "count", "total", "owner", "address", "tags", "created", "modified", "kind", "parent", "zip", "ratio", "enabled", "note", "parts", "labels", "a", "b", "x1", "longFieldName"}
var words = []string{"alpha", "beta", "gamma", "delta", "one", "two", "three", "a longer piece of text", "x", "Zulu", "quo\"te", "back\\slash", "ünï"}
var annoKeys = []string{"x_one", "x_two", "x_three", "x_tags", "x_group", "x_summary", "x_deprecated", "x_order"}

func (g *gen) n(n int) int        { return g.s.N(n) }
func (g *gen) odds(a, b int) bool { return g.s.Odds(a, b) }
func (g *gen) word() string       { return words[g.n(len(words))] }
func (g *gen) fresh(pool []string) string {
	for {
		w := pool[g.n(len(pool))]
		for i := 0; g.used[w]; i++ {
			w = fmt.Sprintf("%s%d", strings.TrimRight(w, "0123456789"), i+2)
		}
		g.used[w] = true
		return w
	}
}

func (g *gen) annos() map[string]string {
	if !g.odds(1, 3) {
		return nil
	}
	m := map[string]string{}
	for i := g.n(4); i >= 0; i-- {
		m[annoKeys[g.n(len(annoKeys))]] = simrt.Pick(g.s, "v", "w1,w2", "some value", "3")
	}
	return m
}

func (g *gen) decorate(j J) {
	if a := g.annos(); a != nil {
		j["annotations"] = a
	}
	if g.odds(1, 4) {
		j["comment"] = g.comment()
	}
}

func (g *gen) comment() string {
	n := 1 + g.n(3)
	if g.odds(1, 6) {
		n = 25 + g.n(20)
	}
	if g.wild && g.odds(1, 5) {
		return simrt.Pick(g.s, "one line\nand another", "trailing \n", "/* odd */ text", "grüße <b> & \"more\"", " padded ", "\n\nlate", strings.Repeat("x", 130))
	}
	if g.odds(1, 150) { // beyond the sizes of buffers
		return strings.TrimSpace(strings.Repeat("lots of text ", simrt.Pick(g.s, 320, 1500, 7000, 20000)))
	}
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, simrt.Pick(g.s, "some", "words", "here", "that", "explain"))
	}
	return strings.Join(w, " ")
}

// the kinds of definition a target can export
func (g *gen) typedefKinds() []string {
	switch g.target {
	case "go", "svc":
		return []string{"Struct", "Enum", "String", "Struct", "Array", "Map", "Union", "Struct"}
	case "java":
		return []string{"Struct", "Enum", "String", "Struct", "Array", "Map", "Union", "UnitValue", "Struct", "Int32"}
	case "graphql":
		return []string{"Struct", "Enum", "String", "Array", "Union", "Struct", "Int32", "Decimal"}
	case "openapi":
		return []string{"Struct", "Enum", "String", "Array", "Map", "Union", "Struct", "Int32", "Decimal", "UUID", "Timestamp", "Bool"}
	}
	return []string{"Struct", "Enum", "String", "Array", "Map", "Union", "Struct", "Int32", "Decimal", "UUID", "Timestamp", "Bool", "UnitValue", "Bytes", "Float64"}
}

func (g *gen) baseKinds() []string {
	switch g.target {
	case "openapi":
		return []string{"String", "Int32", "Bool", "Timestamp", "UUID", "Int64", "Decimal", "Float32", "Float64", "Bytes", "Int8", "Int16"}
	case "graphql":
		return []string{"String", "Int32", "Bool", "Timestamp", "UUID", "Int64", "Decimal", "Float32", "Float64"}
	case "svc":
		return []string{"String", "Int32", "Bool", "Timestamp", "Int64", "Float64"}
	}
	return []string{"String", "Int32", "Bool", "Timestamp", "UUID", "Int64", "Decimal", "Float32", "Float64", "Bytes", "Int8", "Int16"}
}

func (g *gen) pick(xs []string) string { return xs[g.n(len(xs))] }

// ref is the name of a type that can be used for a field.
func (g *gen) ref(avoid string) string {
	if len(g.types) > 0 && g.odds(1, 3) {
		for try := 0; try < 3; try++ {
			n := g.types[g.n(len(g.types))]["name"].(string)
			if n != avoid {
				return n
			}
		}
	}
	return g.pick(g.baseKinds())
}

// itemRef is the name of a type that can be the item of a named collection:
// no named collection that comes later, because a cycle of collections without
// a struct in it has no representation in most targets.
func (g *gen) itemRef(owner string) string {
	n := g.ref(owner)
	if g.cycles {
		return n // OpenAPI has references
	}
	for i := len(g.types) - 1; i >= 0; i-- {
		td := g.types[i]
		if td["name"] == owner {
			break
		}
		if td["name"] == n && (td["type"] == "Array" || td["type"] == "Map") {
			return g.pick(g.baseKinds())
		}
	}
	return n
}

// spec fills in the type of a field.
func (g *gen) spec(j J, owner string, depth int) {
	if g.wild && g.odds(1, 8) {
		switch g.n(7) {
		case 0:
			j["type"], j["items"] = "Array", simrt.Pick(g.s, "Any", "Any", "")
		case 1:
			j["type"], j["keys"], j["items"] = "Map", "String", simrt.Pick(g.s, "Any", "Any", "")
		case 2:
			j["type"] = "Any"
		case 3:
			j["type"], j["min"], j["max"] = "Decimal", json.Number(simrt.Pick(g.s, "0.5", "-12345678901234567890.125", "0.1")), json.Number(simrt.Pick(g.s, "99.5", "9007199254740993", "12345678901234567890.0000001"))
		case 4:
			j["type"], j["value"], j["unit"] = "UnitValue", simrt.Pick(g.s, "Decimal", "Int64", "Int16", "Int8", "Float32"), simrt.Pick(g.s, "String", g.ref(owner))
		case 5:
			j["type"], j["elements"] = "Enum", []any{J{"symbol": "ON"}, J{"symbol": "OFF", "comment": "not on"}}
		default:
			j["type"] = simrt.Pick(g.s, "Struct", "Nowhere", "String")
		}
		return
	}
	switch k := g.n(12); {
	case k < 7:
		j["type"] = g.ref(owner)
	case k < 8:
		j["type"] = "Array"
		j["items"] = g.ref(owner)
	case k < 9 && g.target != "graphql":
		j["type"] = "Map"
		j["keys"] = "String"
		j["items"] = g.ref(owner)
	case k < 10 && depth < 2 && (g.target == "java" || g.target == "openapi" || g.target == "sadl" || g.target == "any"):
		j["type"] = "Struct"
		j["fields"] = g.fields(owner, depth+1)
	case k < 11:
		j["type"] = "String"
		if g.target != "svc" {
			g.stringLimits(j)
		}
	default:
		j["type"] = "Int32"
		if g.odds(1, 2) && g.target != "svc" {
			j["min"] = json.Number("0")
			j["max"] = json.Number("100")
		}
	}
}

var patterns = []string{"^[a-z]+$", "^[A-Za-z0-9_]*$", "[0-9]{3}", "^[a-z]{2}$", "^x", "[A-Z]$"}

func (g *gen) stringLimits(j J) {
	switch g.n(4) {
	case 1:
		j["pattern"] = simrt.Pick(g.s, patterns...)
		if g.wild && g.odds(1, 6) {
			j["pattern"] = "(unclosed"
		}
	case 2:
		j["minSize"] = 1
		j["maxSize"] = 1 + g.n(40)
	case 3:
		j["values"] = []string{"red", "green", "blue"}[:1+g.n(3)]
	}
}

func (g *gen) fields(owner string, depth int) []any {
	var fs []any
	seen := map[string]bool{}
	max := 6
	if depth > 0 {
		max = 3
	}
	for i := g.n(max) + 1; i > 0; i-- {
		name := g.pick(fieldWords)
		for k := 2; seen[name]; k++ {
			name = fmt.Sprintf("%s%d", name, k)
		}
		seen[name] = true
		f := J{"name": name}
		g.spec(f, owner, depth)
		if g.odds(1, 3) {
			f["required"] = true
		}
		g.decorate(f)
		if f["required"] == nil && g.target != "svc" && depth == 0 && g.odds(1, 5) {
			switch f["type"] {
			case "String":
				if f["values"] == nil && f["pattern"] == nil && f["minSize"] == nil {
					f["default"] = "dflt"
				}
			case "Int32":
				f["default"] = json.Number("7")
			case "Bool":
				f["default"] = true
			}
		}
		fs = append(fs, f)
	}
	return fs
}

func (g *gen) typedef(td J) {
	g.decorate(td)
	name := td["name"].(string)
	switch td["type"] {
	case "Struct":
		td["fields"] = g.fields(name, 0)
	case "Enum":
		var es []any
		for i := 0; i <= g.n(4)+1; i++ {
			e := J{"symbol": []string{"RED", "GREEN", "BLUE", "BLACK", "WHITE", "PINK"}[i]}
			g.decorate(e)
			if g.odds(1, 4) {
				a, _ := e["annotations"].(map[string]string)
				if a == nil {
					a = map[string]string{}
				}
				a["x_enumValue"] = fmt.Sprint("v", i)
				e["annotations"] = a
			}
			es = append(es, e)
		}
		td["elements"] = es
	case "String":
		g.stringLimits(td)
	case "Array":
		td["items"] = g.itemRef(name)
		g.sizes(td)
	case "Map":
		td["keys"] = "String"
		for _, t := range g.types {
			if t["type"] == "String" && g.target != "svc" && g.odds(1, 6) {
				td["keys"] = t["name"]
			}
		}
		td["items"] = g.itemRef(name)
		g.sizes(td)
	case "Union":
		var vs []any
		seen := map[string]bool{}
		for i := 0; i < 1+g.n(3); i++ {
			var t string
			if g.target == "java" || g.target == "graphql" || g.target == "openapi" {
				t = g.structName(name)
			} else {
				t = g.ref(name)
			}
			if g.wild && g.odds(1, 6) {
				vs = append(vs, J{"name": fmt.Sprint("anon", i), "type": "Struct", "fields": g.fields(name, 1)})
				continue
			}
			if t == "" || seen[t] {
				continue
			}
			seen[t] = true
			v := J{"name": sadl.Uncapitalize(t), "type": t}
			if g.target == "java" {
				v["name"] = t
			}
			g.decorate(v)
			vs = append(vs, v)
		}
		if len(vs) == 0 {
			vs = append(vs, J{"name": "String", "type": "String"})
		}
		td["variants"] = vs
	case "UnitValue":
		td["value"] = simrt.Pick(g.s, "Decimal", "Int32", "Float64", "Int64", "Int16", "Int8", "Float32")
		td["unit"] = "String"
		for _, t := range g.types {
			if t["type"] == "Enum" && g.odds(1, 3) {
				td["unit"] = t["name"]
			}
		}
	case "Int32", "Decimal", "Float64":
		if g.odds(1, 2) {
			td["min"] = json.Number(simrt.Pick(g.s, "1", "1", "-9007199254740993"))
		}
		if g.odds(1, 2) {
			td["max"] = json.Number(simrt.Pick(g.s, "1000", "1000", "9007199254740993"))
			if td["type"] == "Decimal" && g.odds(1, 3) {
				td["max"] = json.Number("123456789012345678901.0123456789")
			}
		}
	}
}

func (g *gen) sizes(td J) {
	if g.odds(1, 4) {
		td["minSize"] = g.n(2)
		td["maxSize"] = 2 + g.n(4)
	}
}

// structName is the name of some struct type other than avoid.
func (g *gen) structName(avoid string) string {
	var c []string
	for _, td := range g.types {
		if td["type"] == "Struct" && td["name"] != avoid {
			c = append(c, td["name"].(string))
		}
	}
	if len(c) == 0 {
		return ""
	}
	return c[g.n(len(c))]
}

func newGen(s *simrt.Stream, target string) *gen {
	return &gen{s: s, target: target, kinds: map[string]string{}, byName: map[string]J{}, used: map[string]bool{}}
}

// model makes a complete model.
func (g *gen) model() J {
	m := J{"sadl": "1.8.3", "name": simrt.Pick(g.s, "store", "petStore", "Crudl", "svc")}
	if g.odds(1, 2) {
		m["namespace"] = simrt.Pick(g.s, "example", "com.example", "org.test.deep")
	}
	if g.odds(1, 2) {
		m["version"] = "1.2"
	}
	if g.odds(1, 3) {
		m["base"] = simrt.Pick(g.s, "/v1", "/api", "/v1/", "/", "/a/b")
	}
	if g.odds(1, 3) {
		a := map[string]string{"x_server": "http://host/x"}
		if g.odds(1, 2) {
			a["x_license_name"] = "MIT"
		}
		if g.odds(1, 2) {
			a["x_license_url"] = "http://l"
		}
		if g.odds(1, 2) {
			for k, v := range g.annos() {
				a[k] = v
			}
		}
		m["annotations"] = a
	}
	if g.odds(1, 8) {
		m["extensions"] = J{"x-owner": J{"team": "a", "mail": "b", "page": []any{1, "2", nil}}, "x-rev": 3, "x-flags": []any{"p", "q"}}
	}
	if g.odds(1, 3) {
		m["comment"] = g.comment()
	}
	kinds := g.typedefKinds()
	nt := 1 + g.n(7)
	if g.odds(1, 12) {
		nt += 12
	}
	for i := 0; i < nt; i++ {
		td := J{"name": g.fresh(typeWords), "type": kinds[g.n(len(kinds))]}
		if i == 0 {
			td["type"] = "Struct"
		}
		g.types = append(g.types, td)
		g.byName[td["name"].(string)] = td
	}
	for _, td := range g.types {
		g.typedef(td)
	}
	var ts []any
	for _, td := range g.types {
		ts = append(ts, td)
	}
	m["types"] = ts
	var acts []J
	if g.target != "graphql" && (g.target == "httptrace" || g.target == "svc" || g.odds(3, 4)) {
		acts = g.actions()
		var hs []any
		for _, a := range acts {
			hs = append(hs, a)
		}
		m["http"] = hs
	}
	var exs []any
	if g.target == "httptrace" || g.odds(1, 2) {
		exs = g.examples(acts)
	}
	if len(exs) > 0 {
		m["examples"] = exs
	}
	if g.wild {
		if g.odds(1, 30) {
			m["name"] = ""
		}
		if g.odds(1, 3) {
			m["operations"] = g.operations()
		}
	}
	return m
}

func (g *gen) actions() []J {
	var as []J
	seen := map[string]bool{}
	n := 1 + g.n(5)
	for i := 0; i < n; i++ {
		method := simrt.Pick(g.s, "GET", "POST", "PUT", "DELETE", "GET")
		verb := map[string]string{"GET": "get", "POST": "create", "PUT": "put", "DELETE": "delete"}[method]
		noun := g.pick([]string{"Item", "Order", "User", "Thing", "Part"})
		name := verb + noun
		for k := 2; seen[name]; k++ {
			name = fmt.Sprintf("%s%s%d", verb, noun, k)
		}
		path := "/" + strings.ToLower(noun) + "s"
		var ins []any
		var q []string
		if method != "POST" && g.odds(2, 3) || method == "PUT" || method == "DELETE" {
			path += "/{id}"
			in := J{"name": "id", "path": true, "required": true, "type": simrt.Pick(g.s, "String", "Int32", "String")}
			if g.target != "svc" {
				in["type"] = simrt.Pick(g.s, "String", "Int32", "UUID", "Timestamp", "Int64")
			}
			g.decorate(in)
			ins = append(ins, in)
			if g.odds(1, 4) {
				path += "/sub/{sub}"
				ins = append(ins, J{"name": "sub", "path": true, "required": true, "type": "String"})
			}
		}
		if seen[method+path] {
			path += "/" + fmt.Sprint("p", i)
		}
		if seen[method+path] {
			continue
		}
		seen[method+path] = true
		seen[name] = true
		if method == "GET" && g.odds(1, 2) {
			for k, qn := range []string{"limit", "skip", "filter"} {
				if !g.odds(1, 2) {
					continue
				}
				in := J{"name": qn, "query": qn, "type": []string{"Int32", "String", "String"}[k]}
				if g.odds(1, 2) {
					if in["type"] == "Int32" {
						in["default"] = json.Number("10")
					} else if g.odds(1, 2) {
						in["default"] = "all"
					}
				}
				g.decorate(in)
				ins = append(ins, in)
				q = append(q, qn+"={"+qn+"}")
			}
		}
		if g.odds(1, 4) {
			h := J{"name": "trace", "header": "X-Trace", "type": "String"}
			if g.odds(1, 3) {
				h["default"] = "none"
			}
			g.decorate(h)
			ins = append(ins, h)
		}
		if g.wild && g.odds(1, 3) {
			in := J{"name": "flag", "query": "flag", "type": simrt.Pick(g.s, "Bool", "Timestamp", "Float64", "Decimal", "UUID", g.ref(""))}
			if method != "GET" {
				delete(in, "query")
				in["header"] = "X-Flag"
			}
			switch in["type"] {
			case "Bool":
				in["default"] = g.odds(1, 2)
			case "Timestamp":
				in["default"] = "2020-01-01T00:00:00.000Z"
			case "UUID":
				in["default"] = "1ce437b0-1dd2-11b2-81ef-003ee1be85f9"
			case "Decimal", "Float64":
				in["default"] = json.Number("2.5")
			}
			if g.odds(1, 3) {
				delete(in, "default")
			}
			ins = append(ins, in)
		}
		if (method == "POST" || method == "PUT") && !(g.target == "svc" && len(q) > 0) {
			b := J{"name": "item", "type": g.bodyType(), "required": true}
			g.decorate(b)
			ins = append(ins, b)
		}
		if len(q) > 0 {
			path += "?" + strings.Join(q, "&")
		}
		a := J{"name": name, "method": method, "path": path}
		if len(ins) > 0 {
			a["inputs"] = ins
		}
		if g.odds(1, 3) {
			a["resource"] = noun
		}
		if g.wild && g.odds(1, 8) && !seen[""] {
			seen[""] = true
			a["name"] = "" // named by the exporter
		}
		if g.wild && g.odds(1, 8) {
			a["name"] = sadl.Capitalize(name)
		}
		if g.wild && g.odds(1, 10) && len(as) > 0 {
			a["path"], a["method"] = as[0]["path"], as[0]["method"]
		}
		g.decorate(a)
		exp := J{"status": map[string]int{"GET": 200, "POST": 201, "PUT": 200, "DELETE": 204}[method]}
		var outs []any
		if method != "DELETE" {
			outs = append(outs, J{"name": "body", "type": g.bodyType()})
		}
		if g.odds(1, 3) && g.target != "svc" {
			outs = append(outs, J{"name": "etag", "header": "ETag", "type": "String"})
			if g.odds(1, 2) {
				outs = append(outs, J{"name": "mod", "header": "X-Mod", "type": simrt.Pick(g.s, "String", "Int32")})
			}
		}
		if outs != nil {
			exp["outputs"] = outs
		}
		g.decorate(exp)
		a["expected"] = exp
		var excs []any
		for _, st := range []int{304, 400, 404, 409, 500} {
			if !g.odds(1, 3) {
				continue
			}
			t := g.structName("")
			dup := false
			for _, e := range excs {
				dup = dup || e.(J)["type"] == t
			}
			if t == "" || dup {
				continue
			}
			e := J{"type": t, "status": st}
			g.decorate(e)
			excs = append(excs, e)
		}
		if excs != nil {
			a["exceptions"] = excs
		}
		as = append(as, a)
	}
	return as
}

func (g *gen) operations() []any {
	var os []any
	for i := g.n(3); i >= 0; i-- {
		o := J{"name": fmt.Sprint("op", i)}
		g.decorate(o)
		var ins, outs []any
		for k := g.n(3); k > 0; k-- {
			in := J{"name": fmt.Sprint("in", k), "type": g.ref("")}
			if g.odds(1, 2) {
				in["required"] = true
			}
			g.decorate(in)
			ins = append(ins, in)
			out := J{"name": fmt.Sprint("out", k), "type": g.ref("")}
			g.decorate(out)
			outs = append(outs, out)
		}
		o["inputs"], o["outputs"] = ins, outs
		if n := g.structName(""); n != "" && g.odds(1, 2) {
			o["exceptions"] = []any{n}
		}
		os = append(os, o)
	}
	return os
}

func (g *gen) bodyType() string {
	if g.wild && g.odds(1, 6) {
		return g.ref("")
	}
	if n := g.structName(""); n != "" {
		return n
	}
	return "String"
}

// value makes an example of a type. Broken values have mistakes in several places.
func (g *gen) value(spec J, depth int, broken bool) any {
	t := spec["type"].(string)
	if td, ok := g.byName[t]; ok {
		spec = td
		t = td["type"].(string)
	}
	if broken && g.odds(1, 7) {
		switch t {
		case "Struct", "Map":
			return "not an object"
		default:
			return J{"unexpected": true}
		}
	}
	switch t {
	case "String":
		if vs, ok := spec["values"].([]string); ok && !(broken && g.odds(1, 2)) {
			return vs[g.n(len(vs))]
		}
		switch spec["pattern"] {
		case "[0-9]{3}":
			return "123"
		case nil:
		default:
			if broken && g.odds(1, 2) {
				return "%%%"
			}
			if v := map[any]string{"^[a-z]{2}$": "ab", "^x": "xyz", "[A-Z]$": "abC"}[spec["pattern"]]; v != "" {
				return v
			}
			return "abc"
		}
		if _, ok := spec["minSize"]; ok {
			if broken && g.odds(1, 2) {
				return simrt.Pick(g.s, "", strings.Repeat("long", 20))
			}
			return "q"
		}
		return g.word()
	case "Int8", "Int16", "Int32", "Int64":
		if broken && g.odds(1, 3) {
			return json.Number(simrt.Pick(g.s, "-1", "5000", "70000", "3000000000", "99999999999999999999"))
		}
		return json.Number(fmt.Sprint(1 + g.n(99)))
	case "Float32", "Float64", "Decimal":
		if broken && g.odds(1, 3) {
			return json.Number(simrt.Pick(g.s, "-1.5", "5000.25", "0.001"))
		}
		return json.Number(fmt.Sprintf("%d.%d", 1+g.n(99), 1+g.n(9)))
	case "Bool":
		return g.n(2) == 1
	case "Timestamp":
		if broken && g.odds(1, 3) {
			return simrt.Pick(g.s, "yesterday", "2021-13-04T05:06:07.089Z", "2021-03-04T05:06:07.089+00:00", "2021-03-04T05:06:07")
		}
		return "2021-03-04T05:06:07.089Z"
	case "UUID":
		if broken && g.odds(1, 3) {
			return "not-a-uuid"
		}
		return "1ce437b0-1dd2-11b2-81ef-003ee1be85f9"
	case "Bytes":
		return "AAEC"
	case "UnitValue":
		if broken && g.odds(1, 3) {
			return simrt.Pick(g.s, "12.5", "x USD", "1 EUR", "100.5 ")
		}
		return "12.5 USD"
	case "Enum":
		es := spec["elements"].([]any)
		if broken && g.odds(1, 3) {
			return "NO_SUCH"
		}
		return es[g.n(len(es))].(J)["symbol"]
	case "Array":
		n := 1 + g.n(2)
		if broken && g.odds(1, 4) {
			n = simrt.Pick(g.s, 0, 8)
		}
		if depth > 3 {
			n = 0
		}
		if n, _ := spec["items"].(string); n == "" {
			return []any{"whatever"}
		}
		r := []any{}
		for i := 0; i < n; i++ {
			r = append(r, g.value(J{"type": spec["items"]}, depth+1, broken))
		}
		return r
	case "Map":
		r := J{}
		n := 1 + g.n(3)
		if it, _ := spec["items"].(string); it == "" {
			return r
		}
		if depth > 3 {
			n = 0
		}
		for i := 0; i < n; i++ {
			r[[]string{"k1", "k2", "k3", "k4"}[i]] = g.value(J{"type": spec["items"]}, depth+1, broken)
		}
		return r
	case "Union":
		vs, _ := spec["variants"].([]any)
		if len(vs) == 0 || depth > 3 {
			return J{}
		}
		v := vs[g.n(len(vs))].(J)
		return J{v["name"].(string): g.value(v, depth+1, broken)}
	case "Struct":
		r := J{}
		fs, _ := spec["fields"].([]any)
		for _, f := range fs {
			f := f.(J)
			if f["required"] == nil && (depth > 3 || g.odds(1, 3)) {
				continue
			}
			if depth > 6 {
				continue
			}
			if broken && g.odds(1, 6) {
				continue
			}
			r[f["name"].(string)] = g.value(f, depth+1, broken)
		}
		if broken {
			for i := g.n(4); i > 0; i-- {
				r[fmt.Sprint("extra", i)] = json.Number("1")
			}
		}
		return r
	}
	return "any"
}

func (g *gen) examples(acts []J) []any {
	var xs []any
	for _, td := range g.types {
		if g.odds(1, 4) {
			xs = append(xs, J{"target": td["name"], "name": simrt.Pick(g.s, "", "ex1", "ex2"), "example": g.value(J{"type": td["name"]}, 0, false)})
		}
	}
	byPath := map[string]int{}
	for _, a := range acts {
		p, _, _ := strings.Cut(a["path"].(string), "?")
		byPath[p]++
	}
	for _, a := range acts {
		if g.target != "httptrace" && g.odds(1, 3) {
			continue
		}
		p, _, _ := strings.Cut(a["path"].(string), "?")
		if g.target == "openapi" && byPath[p] > 1 && !g.odds(1, 3) {
			continue
		}
		names := []string{"", "ex1", "ex2", "ex3", "ex4"}
		k := 1 + g.n(4)
		for _, nm := range names[:k] {
			req := J{}
			if ins, ok := a["inputs"].([]any); ok {
				for _, in := range ins {
					in := in.(J)
					key := in["name"].(string)
					if in["required"] == nil && g.odds(1, 3) {
						continue
					}
					if g.target == "openapi" && in["query"] == nil && in["header"] == nil && in["path"] == nil {
						key = "body"
					}
					req[key] = g.value(in, 0, false)
				}
			}
			title := sadl.Capitalize(a["name"].(string))
			xs = append(xs, J{"target": title + "Request", "name": nm, "example": req})
			exp := a["expected"].(J)
			res := J{}
			if outs, ok := exp["outputs"].([]any); ok {
				for _, o := range outs {
					o := o.(J)
					res[o["name"].(string)] = g.value(o, 0, false)
				}
			}
			if es, ok := a["exceptions"].([]any); ok && g.odds(1, 3) && g.target == "httptrace" {
				t := es[g.n(len(es))].(J)["type"]
				xs = append(xs, J{"target": t, "name": nm, "example": g.value(J{"type": t}, 0, false)})
			} else if g.odds(4, 5) {
				xs = append(xs, J{"target": title + "Response", "name": nm, "example": res})
			}
		}
	}
	return xs
}

func text(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// parsed turns plain JSON into the values the SADL parser makes for literals.
func parsed(v any) any {
	switch x := v.(type) {
	case string:
		return &x
	case float64:
		d, _ := sadl.ParseDecimal(fmt.Sprint(x))
		return d
	case json.Number:
		d, _ := sadl.ParseDecimal(x.String())
		return d
	case map[string]any:
		m := make(map[string]any, len(x))
		for _, k := range simrt.SortedKeys(x) {
			m[k] = parsed(x[k])
		}
		return m
	case []any:
		a := make([]any, len(x))
		for i := range x {
			a[i] = parsed(x[i])
		}
		return a
	}
	return v
}

func parsedFields(fs []*sadl.StructFieldDef) {
	for _, f := range fs {
		if f.Default != nil {
			f.Default = parsed(f.Default)
		}
		parsedFields(f.Fields)
	}
}

// buildModel makes the model a generated JSON text stands for.
func buildModel(js string) (*sadl.Model, error) {
	var sc sadl.Schema
	if err := json.Unmarshal([]byte(js), &sc); err != nil {
		return nil, err
	}
	for _, t := range sc.Types {
		parsedFields(t.Fields)
	}
	for _, h := range sc.Http {
		for _, in := range h.Inputs {
			if in.Default != nil {
				in.Default = parsed(in.Default)
			}
		}
	}
	for _, e := range sc.Examples {
		e.Example = parsed(e.Example)
	}
	return sadl.NewModel(&sc)
}
