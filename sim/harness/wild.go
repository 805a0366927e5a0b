package main

import (
	"fmt"
	"strings"

	"simrt"
)

// wild makes up a service: types and actions in every combination that the
// generated code is claimed for, so that each seed has its own.
func wild(seed uint64, name string) J {
	g := &wildGen{shared: map[string]bool{}, s: simrt.NewChoices(runSeed(seed, name, 0)).S("wild")}
	g.names = shuffled(g.s, strings.Fields("Item Sub Note Box Page Unit Kind Row Grid Label Price Ref Batch Route Depot Order Line Total Event Color Range Shape Owner Plan Step Rate Stage Token Trip Visit"))
	types, https := []any{}, []any{}
	nt, na := 6+g.s.N(7), 5+g.s.N(6)
	if strings.HasSuffix(name, "3") { // one that lacks most of what there is
		nt, na = 1+g.s.N(3), 1+g.s.N(2)
	}
	for i := 0; i < nt; i++ {
		types = append(types, g.typedef(i))
	}
	for i := 0; i < na; i++ {
		https = append(https, g.action(i))
	}
	for _, e := range g.excs {
		types = append(types, e)
	}
	ns := simrt.Pick(g.s, name, "com.wild."+name)
	m := J{"sadl": "1.8.3", "name": name, "namespace": ns, "types": types, "http": https}
	if g.s.Odds(1, 2) {
		m["base"] = "/" + name
	}
	return m
}

func shuffled(s *simrt.Stream, a []string) []string {
	for i := len(a) - 1; i > 0; i-- {
		j := s.N(i + 1)
		a[i], a[j] = a[j], a[i]
	}
	return a
}

type wildGen struct {
	s       *simrt.Stream
	names   []string
	structs []string
	any     []string // everything that is named
	ids     []string // strings with a pattern and UUIDs
	ints    []string
	excs    []any
	shared  map[string]bool
}

var wildFields = "name id at key when amount type range func go map err res req url text n kind count note x_y camelCase aB flag rate since label total data value object string json http time index first last"

func (g *wildGen) fields(s string) []string { return shuffled(g.s, strings.Fields(s)) }

func (g *wildGen) typedef(i int) J {
	n := g.names[i]
	defer func() { g.any = append(g.any, n) }()
	k := g.s.N(14)
	if i == 0 {
		k = 13
	}
	switch {
	case k == 0:
		g.ids = append(g.ids, n)
		return J{"name": n, "type": "String", "pattern": "^[a-z0-9]+$"}
	case k == 1:
		g.ids = append(g.ids, n)
		return J{"name": n, "type": "UUID"}
	case k == 2:
		return J{"name": n, "type": "Decimal"}
	case k == 3:
		g.ints = append(g.ints, n)
		return J{"name": n, "type": simrt.Pick(g.s, "Int64", "Int32", "Int16", "Int8")}
	case k == 4:
		var es []any
		for i, s := range g.fields("RAW half Done so_so big GREEN TwoWords") {
			if i > 3 {
				break
			}
			s += n // the symbols of all enums are constants of one package
			e := J{"symbol": s}
			if g.s.Odds(1, 3) {
				e["annotations"] = J{"x_enumValue": strings.ToLower(s) + simrt.Pick(g.s, "-x", ".y", " z", "")}
			}
			es = append(es, e)
		}
		return J{"name": n, "type": "Enum", "elements": es}
	case k == 5 || k == 6:
		return J{"name": n, "type": "Array", "items": g.ref()}
	case k == 7:
		return J{"name": n, "type": "Map", "keys": "String", "items": g.ref()}
	case k == 8:
		var vs []any
		seen := map[string]bool{}
		for i, v := range g.fields("part note text other big") {
			t := g.ref()
			if i < 3 && !seen[t] {
				seen[t] = true
				vs = append(vs, J{"name": v, "type": t})
			}
		}
		return J{"name": n, "type": "Union", "variants": vs}
	}
	g.structs = append(g.structs, n)
	return g.structure(n, wildFields, 1+g.s.N(9))
}

// ref is a type for a value that has one part.
func (g *wildGen) ref() string {
	if len(g.any) > 0 && g.s.Odds(1, 2) {
		return g.any[g.s.N(len(g.any))]
	}
	return simrt.Pick(g.s, "String", "Int64", "Int32", "Int16", "Int8", "Float64", "Float32", "Bool", "Timestamp", "Decimal", "UUID")
}

func (g *wildGen) structure(n, pool string, count int) J {
	var fs []any
	for i, fn := range g.fields(pool) {
		if i >= count {
			break
		}
		fd := g.value(fn)
		if g.s.Odds(1, 4) {
			fd["required"] = true
		} else if g.s.Odds(1, 10) {
			fd = f(fn, "Array", "items", n)
		}
		fs = append(fs, fd)
	}
	return J{"name": n, "type": "Struct", "fields": fs}
}

func (g *wildGen) value(n string) J {
	switch g.s.N(8) {
	case 0:
		return f(n, "Array", "items", g.ref())
	case 1:
		return f(n, "Map", "keys", "String", "items", g.ref())
	}
	return f(n, g.ref())
}

// simple is a type for a value outside of a body.
func (g *wildGen) simple() string {
	switch k := g.s.N(6); {
	case k == 0 && len(g.ids) > 0:
		return g.ids[g.s.N(len(g.ids))]
	case k == 1 && len(g.ints) > 0:
		return g.ints[g.s.N(len(g.ints))]
	case k == 2:
		return simrt.Pick(g.s, "Timestamp", "Timestamp", "UUID")
	case k == 3:
		return simrt.Pick(g.s, "Int64", "Int32", "Int16", "Int8")
	}
	return "String"
}

func (g *wildGen) action(i int) J {
	pool := g.fields("name id at key when amount kind count note since label total value first last limit skip who zone page err req res r w url body type func range http json string path query b a x y_z camelCase handler client")
	next := func() string { n := pool[0]; pool = pool[1:]; return n }
	method := simrt.Pick(g.s, "GET", "GET", "PUT", "POST", "DELETE", "PATCH")
	var ins []any
	path := fmt.Sprintf("/%s%d", simrt.Pick(g.s, "a", "items", "v.x", "b_c", "d-e"), i)
	if !g.shared[method] && g.s.Odds(1, 2) { // other actions have other methods there
		path = "/shared"
		g.shared[method] = true
	}
	token := false
	for j, n := 0, 1+g.s.N(3); j < n; j++ {
		t := g.simple()
		if j == n-1 && !token {
			t = "String"
		}
		token = token || t == "String"
		nm := next()
		ins = append(ins, f(nm, t, "path", true, "required", true))
		path += simrt.Pick(g.s, "", "/of", "/"+nm) + "/{" + nm + "}"
	}
	if g.s.Odds(1, 4) {
		path += simrt.Pick(g.s, "/all", "/x.json", "/"+pool[0])
	}
	query := ""
	for j := g.s.N(4); j > 0; j-- {
		nm := next()
		in := f(nm, g.simple(), "query", simrt.Pick(g.s, nm, nm+"-q", strings.ToUpper(nm)))
		g.omitted(in)
		ins = append(ins, in)
		query += "&" + in["query"].(string) + "={" + nm + "}"
	}
	if query != "" {
		path += "?" + query[1:]
	}
	for j := g.s.N(3); j > 0; j-- {
		nm := next()
		in := f(nm, g.simple(), "header", simrt.Pick(g.s, "X-"+nm, "x-"+nm+"-h", "X_"+strings.ToUpper(nm), "My-"+sadlCap(nm)))
		g.omitted(in)
		ins = append(ins, in)
	}
	if method == "PUT" || method == "POST" || method == "PATCH" {
		in := g.value(next())
		if g.s.Odds(1, 2) {
			in["type"] = g.structs[g.s.N(len(g.structs))]
			delete(in, "items")
			delete(in, "keys")
		}
		in["required"] = true
		ins = append(ins, in)
	}
	status := simrt.Pick(g.s, 200, 200, 200, 201, 202)
	var outs []any
	switch {
	case method == "DELETE" && g.s.Odds(1, 2):
		status = 204
	case g.s.Odds(1, 8):
	case g.s.Odds(1, 3):
		outs = append(outs, g.value(next()))
	default:
		outs = append(outs, f(next(), g.structs[g.s.N(len(g.structs))]))
	}
	for j := g.s.N(3); j > 0 && len(outs)+j > 0; j-- {
		nm := next()
		outs = append(outs, f(nm, simrt.Pick(g.s, g.simple(), g.simple(), g.simple(), "Bool"), "header", simrt.Pick(g.s, "X-"+nm, "x-"+nm, "X-Of-"+sadlCap(nm))))
	}
	var excs []any
	for j, st := range []int{400, 403, 404, 409, 410, 412, 422, 429, 500, 503} {
		if g.s.Odds(1, 6) && len(excs) < 3 {
			n := fmt.Sprintf("%s%d", simrt.Pick(g.s, "Bad", "Failure", "NoSuch"), i*10+j)
			g.excs = append(g.excs, g.structure(n, "message reason at other count detail since", 1+g.s.N(4)))
			excs = append(excs, exc(n, st))
		}
	}
	a := act(fmt.Sprintf("%s%d", strings.ToLower(method)+simrt.Pick(g.s, "It", "Of", "All"), i), method, path, ins, status, outs, excs...)
	return a
}

// omitted gives some inputs a default.
func (g *wildGen) omitted(in J) {
	if g.s.Odds(1, 6) {
		in["required"] = true
		return
	}
	if !g.s.Odds(1, 3) {
		return
	}
	switch t := in["type"].(string); t {
	case "String":
		in["default"] = simrt.Pick(g.s, "all", "*", "a b")
	case "Timestamp":
		in["default"] = "2024-02-29T12:30:00.250Z"
	case "Int64", "Int32", "Int16", "Int8":
		in["default"] = simrt.Pick(g.s, 1, 99, -7)
	}
}

func sadlCap(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
