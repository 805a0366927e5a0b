package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"strings"

	"simrt"
)

//go:embed corpus
var corpus embed.FS

func corpusFile(name string) string {
	b, err := corpus.ReadFile("corpus/" + name + ".txt")
	if err != nil {
		panic(err)
	}
	return string(b)
}

// doc generates OpenAPI 3 and Swagger 2 documents.
type doc struct {
	s     *simrt.Stream
	names []string
	v2    bool
	wild  bool // use constructs the importer may refuse
}

func (d *doc) n(n int) int        { return d.s.N(n) }
func (d *doc) odds(a, b int) bool { return d.s.Odds(a, b) }

func (d *doc) ref() J {
	p := "#/components/schemas/"
	if d.v2 {
		p = "#/definitions/"
	}
	n := d.names[d.n(len(d.names))]
	return J{"$ref": p + n}
}

func (d *doc) example(j J, v any) {
	if d.odds(1, 5) {
		j["example"] = v
	}
}

func (d *doc) schema(depth int) J {
	j := J{}
	if d.odds(1, 4) {
		j["description"] = simrt.Pick(d.s, "about it", "text", "more words")
	}
	if d.wild && d.odds(1, 6) {
		switch d.n(6) {
		case 0:
			j["type"], j["enum"] = "string", []any{"a", 1, true}
		case 1:
			j["type"] = "null"
		case 2:
			delete(j, "type") // none at all
		case 3:
			j["type"] = "array" // of nothing
		case 4:
			j["type"], j["additionalProperties"] = "object", d.ref()
		default:
			j["$ref"] = "#/elsewhere/Nothing"
		}
		return j
	}
	switch d.n(11) {
	case 0, 1:
		j["type"] = "string"
		if d.odds(1, 3) {
			j["pattern"] = "^[a-z]+$"
		}
		if d.odds(1, 3) {
			j["minLength"] = 1
			j["maxLength"] = 9
		}
		d.example(j, "abc")
	case 2:
		j["type"] = "integer"
		j["format"] = simrt.Pick(d.s, "int32", "int64", "int8", "int16", "")
		if d.odds(1, 3) {
			j["minimum"] = 1
			j["maximum"] = 100
			if d.v2 {
				j["min"], j["max"] = 1, 100
			}
		}
		d.example(j, 5)
	case 3:
		j["type"] = "boolean"
		d.example(j, true)
	case 4:
		j["type"] = "number"
		if d.odds(1, 3) {
			j["minimum"] = 0.5
			if d.odds(1, 2) {
				j["maximum"] = 99.5
			}
			if d.odds(1, 3) {
				j["format"] = simrt.Pick(d.s, "float", "double", "decimal")
			}
		}
		d.example(j, 1.25)
	case 5:
		j["type"] = "string"
		j["format"] = simrt.Pick(d.s, "date-time", "uuid", "date-time")
	case 6:
		j["type"] = "string"
		j["enum"] = simrt.Pick(d.s, []any{"a", "b"}, []any{"red", "green", "blue"}, []any{"not a symbol", "x"})
	case 7:
		j["type"] = "array"
		if d.odds(1, 2) || depth > 1 {
			j["items"] = d.ref()
		} else {
			j["items"] = d.schema(depth + 2)
		}
	case 8:
		if depth < 2 {
			return d.object(depth + 1)
		}
		return d.ref()
	default:
		return d.ref()
	}
	return j
}

func (d *doc) object(depth int) J {
	j := J{"type": "object"}
	props := J{}
	for i := d.n(5); i >= 0; i-- {
		f := fieldWords[d.n(len(fieldWords))]
		props[f] = d.schema(depth)
		if d.odds(1, 8) { // a name that differs in case only
			props[simrt.Pick(d.s, strings.ToUpper(f), strings.ToUpper(f[:1])+f[1:])] = d.schema(depth)
		}
	}
	j["properties"] = props
	var req []any
	for _, k := range simrt.SortedKeys(props) {
		if d.odds(1, 3) {
			req = append(req, k)
		}
	}
	if req != nil {
		j["required"] = req
	}
	if d.odds(1, 4) {
		j["description"] = "an object"
	}
	if depth == 0 && d.odds(1, 4) {
		j["example"] = J{"id": "x", "name": simrt.Pick(d.s, "n1", "n2")}
	}
	return j
}

func (d *doc) top() J {
	switch d.n(6) {
	case 0:
		return J{"type": "string", "enum": []any{"one", "two", "three"}[:1+d.n(3)]}
	case 1:
		j := d.schema(1)
		if j["$ref"] != nil && !d.wild {
			return d.object(0)
		}
		return j
	}
	return d.object(0)
}

func (d *doc) content(sch J) J {
	c := J{"application/json": J{"schema": sch}}
	if d.odds(1, 4) {
		c["application/xml"] = J{"schema": sch}
		if d.odds(1, 2) {
			c["text/plain"] = J{"schema": J{"type": "string"}}
		}
	}
	if d.odds(1, 4) { // other kinds of JSON, with types of their own
		c[simrt.Pick(d.s, "application/problem+json", "application/vnd.acme.v2+json", "text/json", "application/json; charset=utf-8")] = J{"schema": d.ref()}
		if d.odds(1, 6) {
			delete(c, "application/json")
		}
	}
	if d.odds(1, 8) {
		c["application/json"] = J{"schema": sch, "example": J{"id": "x1", "n": 5}}
		if d.odds(1, 2) {
			c["application/json"] = J{"schema": sch, "examples": J{"one": J{"value": J{"a": 1}}, "two": J{"value": J{"a": 2}}, "three": J{"summary": "s", "value": "v"}}}
		}
	}
	return c
}

func (d *doc) response(inline bool) J {
	r := J{"description": simrt.Pick(d.s, "fine", "not so good", "eh")}
	if d.odds(3, 4) {
		sch := d.ref()
		if inline && d.odds(1, 4) {
			sch = d.schema(1)
		}
		if d.v2 {
			r["schema"] = sch
		} else {
			r["content"] = d.content(sch)
		}
	}
	if d.odds(1, 3) {
		hs := J{}
		for _, h := range []string{"ETag", "etag", "X-Rate", "X-Next", "Location"} {
			if d.odds(1, 2) {
				if d.v2 {
					hs[h] = J{"type": simrt.Pick(d.s, "string", "integer"), "description": "header " + h}
				} else {
					hs[h] = J{"description": "header " + h, "schema": J{"type": simrt.Pick(d.s, "string", "integer")}}
				}
			}
		}
		r["headers"] = hs
	}
	return r
}

func (d *doc) operation(name, path, method string) J {
	op := J{"operationId": name, "summary": "does " + name}
	if d.odds(1, 2) {
		op["tags"] = []any{"t1", "t2", "t3"}[:1+d.n(3)]
	}
	var ps []any
	param := func(name, in string, req bool, typ string) {
		p := J{"name": name, "in": in, "description": "param " + name}
		if req {
			p["required"] = true
		}
		if d.v2 {
			p["type"] = typ
		} else {
			sch := J{"type": typ}
			if typ == "array" {
				sch["items"] = J{"type": "string"}
			}
			if typ == "string" && d.odds(1, 4) {
				sch["enum"] = []any{"x", "y"}
			}
			p["schema"] = sch
		}
		ps = append(ps, p)
	}
	for _, seg := range strings.Split(path, "/") {
		if strings.HasPrefix(seg, "{") {
			param(strings.Trim(seg, "{}"), "path", true, simrt.Pick(d.s, "string", "integer"))
		}
	}
	if method == "get" {
		for _, q := range []string{"limit", "skip", "tags"} {
			if d.odds(1, 3) {
				param(q, "query", false, simrt.Pick(d.s, "string", "integer", "boolean", "array"))
			}
		}
	}
	if d.odds(1, 4) {
		param("X-Trace", "header", false, "string")
	}
	if d.wild && d.odds(1, 5) {
		switch d.n(4) {
		case 0:
			param("session", "cookie", false, "string")
		case 1:
			param("filter", "query", false, "object")
		case 2:
			ps = append(ps, nil)
		default:
			ps = append(ps, J{"$ref": "#/components/parameters/Nowhere"})
		}
	}
	if d.odds(1, 5) && !d.v2 {
		op["x-custom"], op["deprecated"] = J{"b": 1, "a": []any{2}}, true
	}
	if d.odds(1, 6) {
		op["description"] = "more about " + name
	}
	if d.odds(1, 8) {
		op["security"] = []any{J{"key": []any{}, "oauth": []any{"read", "write"}}}
	}
	if method == "post" || method == "put" {
		if d.v2 {
			ps = append(ps, J{"name": "body", "in": "body", "required": true, "schema": d.ref()})
			if d.odds(1, 2) {
				op["consumes"] = []any{"application/json"}
			}
		} else {
			op["requestBody"] = J{"description": "payload", "required": true, "content": d.content(d.ref())}
		}
	}
	if ps != nil {
		op["parameters"] = ps
	}
	if d.v2 {
		if d.odds(2, 3) {
			op["produces"] = []any{"application/json", "application/xml"}[:1+d.n(2)]
		}
	}
	rs := J{}
	for _, st := range []string{"200", "201", "204", "304", "400", "404", "409", "500", "default"} {
		if d.odds(1, 4) {
			rs[st] = d.response(st < "4")
		}
	}
	if len(rs) == 0 || d.odds(1, 2) {
		rs["200"] = d.response(true)
	}
	has := false
	for k := range rs {
		has = has || k < "4" || k == "default"
	}
	if !has && !d.wild {
		rs["default"] = d.response(true)
	}
	if d.wild && d.odds(1, 5) {
		rs[simrt.Pick(d.s, "2XX", "5XX", "teapot")] = d.response(true)
	}
	if d.wild && d.odds(1, 8) {
		rs["418"] = nil
	}
	op["responses"] = rs
	return op
}

func (d *doc) make() J {
	m := J{}
	if d.v2 {
		m["swagger"] = "2.0"
		m["host"] = "api.example.com"
		m["basePath"] = "/v2"
	} else {
		m["openapi"] = "3.0.0"
		if d.odds(1, 2) {
			m["servers"] = []any{J{"url": "http://one"}, J{"url": "http://two"}}[:1+d.n(2)]
		}
	}
	if d.v2 {
		if d.odds(1, 2) {
			m["consumes"] = []any{"application/json", "application/xml", "text/plain"}[:1+d.n(3)]
		}
		if d.odds(1, 2) {
			m["produces"] = []any{"application/json", "application/problem+json", "application/xml"}[d.n(2):]
		}
		if d.odds(1, 4) {
			m["schemes"] = []any{"https", "http"}
		}
	}
	if d.odds(1, 5) {
		m["externalDocs"] = J{"description": "elsewhere", "url": "http://docs"}
	}
	if d.odds(1, 5) {
		m["tags"] = []any{J{"name": "t1", "description": "first"}, J{"name": "t2", "externalDocs": J{"url": "http://x"}}}
	}
	if d.odds(1, 6) {
		m["x-root"], m["x-other"] = J{"k": "v"}, 3
	}
	if d.odds(1, 6) {
		m["security"] = []any{J{"key": []any{}}, J{"oauth": []any{"read"}}}
	}
	info := J{"title": simrt.Pick(d.s, "petstore", "The Pet Store"), "version": "1.0", "description": "some api"}
	if d.odds(1, 2) {
		info["license"] = J{"name": "MIT", "url": "http://l"}
	}
	if d.odds(1, 4) {
		info["contact"] = J{"name": "me", "email": "me@x", "url": "http://me"}
		info["termsOfService"] = "http://terms"
	}
	m["info"] = info
	if d.wild && d.odds(1, 12) {
		delete(m, "info")
	}
	for i := d.n(6); i >= 0; i-- {
		n := typeWords[d.n(len(typeWords))]
		if !contains(d.names, n) {
			d.names = append(d.names, n)
		}
	}
	schemas := J{}
	for _, n := range d.names {
		schemas[n] = d.top()
	}
	if d.v2 {
		m["definitions"] = schemas
	} else {
		c := J{"schemas": schemas}
		if d.odds(1, 5) {
			c["securitySchemes"] = J{"key": J{"type": "apiKey", "name": "k", "in": "header"}, "oauth": J{"type": "oauth2", "flows": J{"implicit": J{"authorizationUrl": "http://a", "scopes": J{"read": "r", "write": "w"}}}}}
		}
		if d.odds(1, 6) {
			c["parameters"] = J{"p1": J{"name": "p1", "in": "query", "schema": J{"type": "string"}}}
		}
		m["components"] = c
	}
	paths := J{}
	for i := d.n(5); i > 0; i-- {
		noun := []string{"pets", "orders", "users", "items"}[d.n(4)]
		path := "/" + noun
		if d.odds(1, 2) {
			path += "/{id}"
		}
		pi, _ := paths[path].(J)
		if pi == nil {
			pi = J{}
		}
		method := simrt.Pick(d.s, "get", "post", "put", "delete", "head")
		id := fmt.Sprintf("%s%s%d", method, strings.Title(noun), i)
		if d.odds(1, 5) {
			id = method + "It" // not unique, as documents in the wild have it
		}
		pi[method] = d.operation(id, path, method)
		paths[path] = pi
	}
	if len(paths) == 0 {
		paths["/ping"] = J{"get": d.operation("ping", "/ping", "get")}
	}
	if d.odds(1, 30) {
		for _, p := range []string{"pets", "orders/{id}", "~"} { // none of them may be a path
			paths[p] = J{"get": d.operation("odd", "/odd", "get")}
		}
	}
	m["paths"] = paths
	if d.odds(1, 3) {
		d.decorate(m)
	}
	return m
}

// decorate adds what the importers do not use today: everything in it that is a set has several members.
func (d *doc) decorate(m J) {
	vars := J{"port": J{"default": "8443", "enum": []any{"8443", "443"}}, "region": J{"default": "eu", "description": "where"}, "env": J{"default": "prod"}}
	servers := []any{J{"url": "https://{env}.{region}.example.com:{port}", "description": "all", "variables": vars}, J{"url": "http://second"}}
	str := J{"type": "string"}
	exs := func() J {
		return J{"small": J{"value": J{"id": "s", "n": 1}}, "large": J{"summary": "big", "value": J{"id": "l", "n": 9}}, "none": J{"value": "x"}, "far": J{"externalValue": "http://far"}}
	}
	links := J{"self": J{"operationId": "a", "parameters": J{"id": "$x", "to": "$y", "of": "$z"}}, "next": J{"operationId": "b", "description": "on"}, "prev": J{"href": "/p"}}
	if d.v2 {
		if d.odds(1, 2) {
			m["securityDefinitions"] = J{"key": J{"type": "apiKey", "name": "k", "in": "header"}, "basic": J{"type": "basic"}, "oauth": J{"type": "oauth2", "flow": "implicit", "authorizationUrl": "http://a", "scopes": J{"read": "r", "write": "w", "all": "a"}}}
		}
		if d.odds(1, 2) {
			m["parameters"] = J{"p1": J{"name": "p1", "in": "query", "type": "string"}, "p2": J{"name": "p2", "in": "header", "type": "integer"}, "p3": J{"name": "p3", "in": "query", "type": "boolean"}}
		}
		if d.odds(1, 2) {
			m["responses"] = J{"Gone": J{"description": "gone"}, "Busy": J{"description": "busy", "schema": d.ref()}, "Odd": J{"description": "odd"}}
		}
	} else {
		if d.odds(1, 2) {
			m["servers"] = servers[d.n(2):]
		}
		c := m["components"].(J)
		for _, n := range []string{"parameters", "headers", "requestBodies", "responses", "examples", "links", "callbacks", "tags"} {
			if !d.odds(1, 2) {
				continue
			}
			switch n {
			case "parameters":
				c[n] = J{"p1": J{"name": "p1", "in": "query", "schema": str}, "p2": J{"name": "p2", "in": "header", "schema": str, "examples": exs()}, "p3": J{"name": "p3", "in": "query", "content": d.content(d.ref())}}
			case "headers":
				c[n] = J{"H1": J{"description": "one", "schema": str}, "H2": J{"schema": J{"type": "integer"}}, "H3": J{"schema": d.ref()}}
			case "requestBodies":
				c[n] = J{"B1": J{"description": "b", "content": d.content(d.ref())}, "B2": J{"required": true, "content": d.content(d.ref())}, "B3": J{"content": J{}}}
			case "responses":
				c[n] = J{"Gone": d.response(false), "Busy": d.response(false), "Odd": d.response(false)}
			case "examples":
				c[n] = exs()
			case "links":
				c[n] = links
			case "callbacks":
				c[n] = J{"onEvent": J{"{$request.body#/url}": J{"post": d.operation("cbA", "/cb", "post")}, "/other": J{"get": d.operation("cbB", "/other", "get")}}, "onEnd": J{"/end": J{"put": d.operation("cbC", "/end", "put")}}}
			case "tags":
				c[n] = []any{J{"name": "t1", "description": "first"}, J{"name": "t2"}}
			}
		}
		ss, _ := c["schemas"].(J)
		for _, n := range simrt.SortedKeys(ss) {
			s, ok := ss[n].(J)
			if !ok || s["type"] != "object" || !d.odds(1, 3) {
				continue
			}
			switch d.n(5) {
			case 0:
				s["discriminator"] = J{"propertyName": "kind", "mapping": J{"cat": "#/components/schemas/Cat", "dog": "#/components/schemas/Dog", "ant": "Ant"}}
			case 1:
				s["allOf"] = []any{d.ref(), J{"type": "object", "properties": J{"extra": str, "further": str, "most": d.ref()}, "required": []any{"most"}}}
			case 2:
				s["oneOf"] = []any{d.ref(), d.ref(), str}
			case 3:
				s["additionalProperties"] = simrt.Pick[any](d.s, true, false, str, d.ref())
				s["x-order"], s["x-group"] = J{"a": 1, "b": 2, "c": 3}, "g"
			case 4:
				s["xml"], s["externalDocs"] = J{"name": "n", "prefix": "p", "wrapped": true}, J{"url": "http://d", "description": "d"}
				s["default"] = J{"id": "d", "n": 2, "z": nil}
			}
		}
	}
	paths := m["paths"].(J)
	for _, p := range simrt.SortedKeys(paths) {
		pi, ok := paths[p].(J)
		if !ok {
			continue
		}
		ops := simrt.SortedKeys(pi)
		if d.odds(1, 4) {
			pi["parameters"] = []any{J{"name": "shared", "in": "query", "schema": str}, J{"name": "X-All", "in": "header", "schema": str}}
			if d.v2 {
				pi["parameters"] = []any{J{"name": "shared", "in": "query", "type": "string"}, J{"name": "X-All", "in": "header", "type": "string"}}
			}
		}
		for _, o := range []string{"patch", "options", "trace"} {
			if d.odds(1, 6) {
				pi[o] = d.operation(o+"Extra", p, o)
			}
		}
		if d.odds(1, 4) {
			pi["summary"], pi["description"], pi["x-here"] = "path summary", "path description", []any{1, 2}
		}
		if d.v2 {
			continue
		}
		if d.odds(1, 4) {
			pi["servers"] = servers
		}
		for _, o := range ops {
			op, ok := pi[o].(J)
			if !ok {
				continue
			}
			if d.odds(1, 4) {
				op["callbacks"] = J{"done": J{"{$request.query.url}": J{"post": J{"responses": J{"200": J{"description": "ok"}, "410": J{"description": "gone"}}}}}, "failed": J{"/failed": J{"post": J{"responses": J{"200": J{"description": "ok"}}}}}}
			}
			if d.odds(1, 4) {
				op["servers"] = servers
			}
			if ps, ok := op["parameters"].([]any); ok && d.odds(1, 2) {
				for _, p := range ps {
					if p, ok := p.(J); ok {
						p["examples"] = exs()
						p["style"], p["explode"], p["deprecated"] = "form", true, true
					}
				}
			}
			if rb, ok := op["requestBody"].(J); ok && d.odds(1, 2) {
				if c, ok := rb["content"].(J); ok {
					c["multipart/form-data"] = J{"schema": d.ref(), "encoding": J{"file": J{"contentType": "image/png", "headers": J{"X-A": J{"schema": str}, "X-B": J{"schema": str}}}, "meta": J{"contentType": "application/json"}, "name": J{"style": "form"}}}
				}
			}
			if rs, ok := op["responses"].(J); ok {
				for _, st := range simrt.SortedKeys(rs) {
					if r, ok := rs[st].(J); ok && d.odds(1, 3) {
						r["links"] = links
						r["x-of"], r["x-to"] = 1, J{"p": 1, "q": 2}
					}
				}
			}
		}
	}
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// yamlText writes a document as YAML, in the order of sorted keys.
func yamlText(v any, indent string) string {
	switch x := v.(type) {
	case J:
		if len(x) == 0 {
			return " {}\n"
		}
		s := "\n"
		for _, k := range simrt.SortedKeys(x) {
			s += indent + quoteYaml(k) + ":" + yamlText(x[k], indent+"  ")
		}
		return s
	case []any:
		if len(x) == 0 {
			return " []\n"
		}
		s := "\n"
		for _, e := range x {
			t := yamlText(e, indent+"  ")
			t = strings.TrimPrefix(t, "\n")
			t = strings.TrimPrefix(t, indent+"  ")
			s += indent + "- " + strings.TrimPrefix(t, " ")
		}
		return s
	case string:
		b, _ := json.Marshal(x)
		return " " + string(b) + "\n"
	}
	b, _ := json.Marshal(v)
	return " " + string(b) + "\n"
}

func quoteYaml(k string) string {
	for _, c := range k {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_') {
			return `"` + k + `"`
		}
	}
	return k
}

// graphqlDoc generates a GraphQL schema.
func graphqlDoc(s *simrt.Stream) string {
	var b strings.Builder
	var names []string
	for i := s.N(5); i >= 0; i-- {
		n := typeWords[s.N(len(typeWords))]
		if !contains(names, n) {
			names = append(names, n)
		}
	}
	if s.Odds(1, 4) {
		b.WriteString("schema {\n  query: Query\n}\n\n")
	}
	if s.Odds(1, 3) {
		b.WriteString("scalar Timestamp\n\n")
	}
	if s.Odds(1, 3) {
		b.WriteString("scalar UUID\n\n")
	}
	for _, n := range names {
		if s.Odds(1, 3) {
			b.WriteString("\"\"\"about " + n + "\n on two lines\"\"\"\n")
		}
		switch s.N(6) {
		case 0:
			fmt.Fprintf(&b, "enum %s {\n", n)
			for i := 0; i <= s.N(4); i++ {
				fmt.Fprintf(&b, "  V%d\n", i)
			}
			b.WriteString("}\n\n")
		case 1:
			fmt.Fprintf(&b, "union %s = %s", n, names[s.N(len(names))])
			for i := s.N(3); i > 0; i-- {
				b.WriteString(" | " + names[s.N(len(names))])
			}
			b.WriteString("\n\n")
		case 2:
			if s.Odds(1, 2) {
				fmt.Fprintf(&b, "input %s {\n  a: Int\n}\n\n", n)
			} else {
				fmt.Fprintf(&b, "interface %s {\n  a: Int!\n}\n\n", n)
			}
		default:
			fmt.Fprintf(&b, "type %s {\n", n)
			for i := s.N(6); i >= 0; i-- {
				t := simrt.Pick(s, "String", "Int", "Float", "Boolean", "ID", names[s.N(len(names))])
				switch s.N(7) {
				case 6:
					t = simrt.Pick(s, "["+t+"]!", "["+t+"]!", "[["+t+"]]", "[["+t+"!]!]!", "[["+t+"]]!", t)
				case 1:
					t = "[" + t + "]"
				case 2:
					t = "[" + t + "!]!"
				case 3:
					t = "[" + t + "!]"
				case 4, 5:
					t += "!"
				}
				if s.Odds(1, 4) {
					fmt.Fprintf(&b, "  \"field %d\"\n", i)
				}
				fmt.Fprintf(&b, "  f%d: %s\n", i, t)
			}
			b.WriteString("}\n\n")
		}
	}
	switch s.N(12) {
	case 1:
		b.WriteString("directive @deprecated(reason: String) on FIELD_DEFINITION\n")
	case 2:
		b.WriteString("scalar Odd\n")
	case 3:
		fmt.Fprintf(&b, "extend type %s {\n  more: Int\n}\n", names[0])
	case 4:
		fmt.Fprintf(&b, "type Query {\n  find(id: ID!, limit: Int = 10): %s\n  all: [%s!]!\n}\n", names[0], names[0])
	}
	return b.String()
}

// sadlDoc generates SADL text.
func sadlDoc(s *simrt.Stream) string {
	var b strings.Builder
	var structs, names []string
	fmt.Fprintf(&b, "name %s\n", simrt.Pick(s, "store", "svc"))
	if s.Odds(1, 2) {
		b.WriteString("namespace com.example\n")
	}
	if s.Odds(1, 2) {
		b.WriteString("version \"1\"\n")
	}
	b.WriteString("\n")
	nt := 1 + s.N(6)
	kinds := make([]int, 0)
	for i := 0; i < nt; i++ {
		n := typeWords[s.N(len(typeWords))]
		if contains(names, n) {
			continue
		}
		k := s.N(7)
		names = append(names, n)
		kinds = append(kinds, k)
		if k >= 4 {
			structs = append(structs, n)
		}
	}
	tref := func() string {
		return simrt.Pick(s, "String", "Int32", "Bool", "Timestamp", "UUID", "Decimal", "Float64", "Array<String>", "Map<String,Int32>", names[s.N(len(names))])
	}
	anno := func() string {
		switch s.N(5) {
		case 1:
			return "x_one=\"1\""
		case 2:
			return "x_one=\"1\", x_two=\"2\", x_three=\"3\""
		}
		return ""
	}
	for i, n := range names {
		if s.Odds(1, 4) {
			b.WriteString("// about " + n + "\n")
		}
		a := anno()
		pa := ""
		if a != "" {
			pa = " (" + a + ")"
		}
		switch kinds[i] {
		case 0:
			fmt.Fprintf(&b, "type %s Enum%s {\n  ONE\n  TWO // second\n  THREE (x_a=\"b\")\n}\n", n, pa)
		case 1:
			if a != "" {
				a = ", " + a
			}
			fmt.Fprintf(&b, "type %s String (pattern=\"^[a-z]*$\"%s)\n", n, a)
		case 2:
			fmt.Fprintf(&b, "type %s Array<%s>%s\n", n, tref(), pa)
		case 3:
			fmt.Fprintf(&b, "type %s Int32 (min=1, max=%d)\n", n, 10+s.N(90))
		default:
			fmt.Fprintf(&b, "type %s Struct%s {\n", n, pa)
			seen := map[string]bool{}
			for j := s.N(6); j >= 0; j-- {
				f := fieldWords[s.N(len(fieldWords))]
				if seen[f] {
					continue
				}
				seen[f] = true
				opt := simrt.Pick(s, "", " (required)", " (x_q=\"z\", x_r=\"y\")")
				cm := ""
				if s.Odds(1, 4) {
					cm = " // note on " + f
				}
				fmt.Fprintf(&b, "  %s %s%s%s\n", f, tref(), opt, cm)
			}
			b.WriteString("}\n")
		}
		b.WriteString("\n")
	}
	if len(structs) > 0 && s.Odds(2, 3) {
		st := structs[s.N(len(structs))]
		fmt.Fprintf(&b, "http GET \"/things/{id}?limit={limit}\" (action=getThing, resource=Thing) {\n  id String\n  limit Int32 (default=10)\n  expect 200 {\n    body %s\n  }\n  except 404 %s\n}\n\n", st, st)
		if s.Odds(1, 2) {
			fmt.Fprintf(&b, "http POST \"/things\" (action=createThing) {\n  item %s\n  expect 201 {\n    body %s\n  }\n}\n\n", st, st)
		}
		if s.Odds(1, 2) {
			b.WriteString("example GetThingRequest (name=one) {\n  \"id\": \"abc\",\n  \"limit\": 3\n}\n")
		}
	}
	return b.String()
}
