package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"simrt"
)

var fEmit = flag.String("emit", "", "generate the services of P12 into this directory")

var fClient = flag.Bool("client", false, "generate clients too")

// The services whose generated code P12 and P10 run: every construct the Go
// generator produces compilable code for.
var services = map[string]J{
	"catalog": {"sadl": "1.8.3", "name": "catalog", "namespace": "com.acme.catalog", "base": "/c", "types": []any{
		J{"name": "Sku", "type": "String", "pattern": "^[a-z0-9]+$"},
		J{"name": "Level", "type": "Int32", "min": -40, "max": 100000000},
		J{"name": "Kind", "type": "Enum", "elements": []any{J{"symbol": "RAW"}, J{"symbol": "HALF_DONE", "annotations": J{"x_enumValue": "half-done"}}, J{"symbol": "DONE"}}},
		st("Part", f("sku", "Sku", "required", true), f("tiny", "Int8"), f("mid", "Int16", "required", true), f("f32", "Float32"), f("price", "Decimal"), f("kind", "Kind", "required", true), f("level", "Level"),
			f("notes", "Array", "items", "String", "required", true), f("exact", "Bool", "required", true), f("since", "Timestamp"), f("ratio", "Float64", "required", true)),
		J{"name": "Parts", "type": "Array", "items": "Part"},
		J{"name": "ByDepot", "type": "Map", "keys": "String", "items": "Parts"},
		J{"name": "Stock", "type": "Map", "keys": "String", "items": "Int64"},
		J{"name": "Change", "type": "Union", "variants": []any{J{"name": "part", "type": "Part"}, J{"name": "stock", "type": "Stock"}, J{"name": "remark", "type": "String"}}},
		st("Denied", f("why", "String", "required", true), f("retry", "Int32", "required", true)),
		st("Stale", f("now", "Part"), f("why", "String")),
	}, "http": []any{
		act("newest", "GET", "/parts/newest?since={since}&level={level}&until={until}", []any{f("since", "Timestamp", "query", "since"), f("until", "Timestamp", "query", "until", "default", "2024-02-29T12:30:00.250Z"), f("level", "Level", "query", "min-level", "default", -7), f("tag", "String", "header", "x-tag")}, 200,
			[]any{f("parts", "Parts"), f("expires", "Timestamp", "header", "expires"), f("stamp", "Timestamp", "header", "X-Stamp")}, exc("Denied", 403)),
		act("part", "GET", "/parts/{sku}", []any{f("sku", "Sku", "path", true, "required", true), f("who", "String", "header", "api_key"), f("seen", "Timestamp", "header", "If-Modified-Since")}, 200, []any{f("part", "Part"), f("depth", "Int16", "header", "x-depth")}, exc("Stale", 409), exc("Denied", 403)),
		act("change", "PATCH", "/parts/{sku}", []any{f("sku", "Sku", "path", true, "required", true), f("change", "Change", "required", true), f("rev", "Int16", "query", "rev", "default", 3), f("step", "Int8", "header", "X-STEP", "default", 1)}, 200, []any{f("change", "Change"), f("etag", "String", "header", "eTag")}, exc("Stale", 412), exc("Denied", 401)),
		act("stock", "PUT", "/parts/{sku}/stock/{depot}", []any{f("sku", "Sku", "path", true, "required", true), f("depot", "Int32", "path", true, "required", true), f("stock", "Stock", "required", true)}, 200, []any{f("depots", "ByDepot")}, exc("Denied", 403)),
		act("stocks", "GET", "/parts/{sku}/stock?q={q}&from={from}&to={to}", []any{f("sku", "Sku", "path", true, "required", true), f("q", "String", "query", "q", "default", "*"), f("from", "Int64", "query", "from"), f("to", "Int64", "query", "to", "default", 99)}, 200, []any{f("stock", "Stock"), f("n", "Int64", "header", "X-Count")}),
		act("count", "PUT", "/parts/{sku}/count", []any{f("sku", "Sku", "path", true, "required", true), f("count", "Int64", "required", true)}, 200, []any{f("total", "Int64")}, exc("Denied", 403)),
		act("rate", "POST", "/parts/{sku}/rate", []any{f("sku", "Sku", "path", true, "required", true), f("rate", "Float64", "required", true)}, 200, []any{f("rate", "Float64"), f("stable", "Bool", "header", "X-Stable")}),
		act("touch", "POST", "/touch/{n}", []any{f("n", "Int64", "path", true, "required", true), f("note", "String", "query", "note")}, 200, nil, exc("Denied", 429)),
	}},
	"store": {"sadl": "1.8.3", "name": "store", "namespace": "store", "base": "/v1", "types": []any{
		st("Item", f("id", "String", "required", true), f("n", "Int32"), f("big", "Int64"), f("ok", "Bool"), f("r", "Float64"), f("when", "Timestamp"), f("tags", "Array", "items", "String"),
			f("labels", "Map", "keys", "String", "items", "Int32"), f("inner", "Sub"), f("subs", "Array", "items", "Sub"), f("color", "Color")),
		st("Sub", f("x", "String"), f("y", "Int32", "required", true)),
		J{"name": "Color", "type": "Enum", "elements": []any{J{"symbol": "RED"}, J{"symbol": "GREEN"}, J{"symbol": "BLUE"}}},
		st("NotFound", f("message", "String", "required", true)),
		st("Conflict", f("message", "String", "required", true), f("other", "Item")),
	}, "http": []any{
		act("getItem", "GET", "/items/{id}?limit={limit}&filter={filter}", []any{f("id", "String", "path", true, "required", true), f("limit", "Int32", "query", "limit", "default", 10), f("filter", "String", "query", "filter", "default", "all"),
			f("trace", "String", "header", "X-Trace")}, 200, []any{f("body", "Item"), f("etag", "String", "header", "ETag"), f("mod", "Timestamp", "header", "Last-Modified")}, exc("NotFound", 404)),
		act("createItem", "POST", "/items", []any{f("item", "Item", "required", true)}, 201, []any{f("body", "Item")}, exc("Conflict", 409), exc("NotFound", 404)),
		act("putItem", "PUT", "/items/{id}", []any{f("id", "String", "path", true, "required", true), f("item", "Item", "required", true), f("match", "String", "header", "If-Match")}, 200, []any{f("item", "Item")}, exc("NotFound", 404), exc("Conflict", 409)),
		act("deleteItem", "DELETE", "/items/{id}", []any{f("id", "String", "path", true, "required", true)}, 204, []any{f("gone", "Timestamp", "header", "Last-Modified"), f("left", "Int32", "header", "X-Left")}, exc("NotFound", 404)),
		act("listItems", "GET", "/items?skip={skip}&tag={tag}", []any{f("skip", "Int32", "query", "skip"), f("tag", "String", "query", "tag")}, 200, []any{f("items", "Array", "items", "Item"), f("total", "Int32", "header", "X-Total")}),
	}},
	"ledger": {"sadl": "1.8.3", "name": "ledger", "namespace": "org.ledger", "types": []any{
		st("Entry", f("account", "Account"), f("amount", "Decimal", "required", true), f("at", "Timestamp", "required", true), f("memo", "String"), f("ref", "Ref"), f("tax", "Amount")),
		J{"name": "Amount", "type": "Decimal"},
		J{"name": "Ref", "type": "UUID"},
		J{"name": "Account", "type": "String", "pattern": "^[a-z0-9]+$"},
		J{"name": "Entries", "type": "Array", "items": "Entry"},
		J{"name": "Balances", "type": "Map", "keys": "String", "items": "Entry"},
		J{"name": "Event", "type": "Union", "variants": []any{J{"name": "entry", "type": "Entry"}, J{"name": "text", "type": "String"}}},
		st("Bad", f("reason", "String")), st("Gone", f("since", "Timestamp"), f("reason", "String")),
	}, "http": []any{
		act("getEntry", "GET", "/accounts/{account}/entries/{n}", []any{f("account", "Account", "path", true, "required", true), f("n", "Int64", "path", true, "required", true)}, 200, []any{f("entry", "Entry")}, exc("Gone", 410), exc("Bad", 400)),
		act("since", "GET", "/accounts/{account}/since/{when}", []any{f("account", "Account", "path", true, "required", true), f("when", "Timestamp", "path", true, "required", true)}, 200, []any{f("entries", "Entries")}),
		act("post", "POST", "/accounts/{account}", []any{f("account", "Account", "path", true, "required", true), f("entries", "Entries", "required", true), f("key", "String", "header", "Idempotency-Key")}, 201, []any{f("balances", "Balances"), f("location", "String", "header", "Location")}, exc("Bad", 422)),
		act("event", "POST", "/events", []any{f("event", "Event", "required", true), f("who", "String", "header", "X-Who")}, 202, []any{f("event", "Event")}),
		act("replace", "PUT", "/accounts/{account}/entries/{n}", []any{f("account", "Account", "path", true, "required", true), f("n", "Int64", "path", true, "required", true), f("entry", "Entry", "required", true)}, 200, []any{f("entry", "Entry")}, exc("Gone", 410)),
		act("byRef", "GET", "/refs/{ref}?after={after}", []any{f("ref", "Ref", "path", true, "required", true), f("after", "Ref", "query", "after"), f("batch", "Ref", "header", "X-Batch")}, 200, []any{f("entry", "Entry"), f("next", "Ref", "header", "X-Next")}, exc("Gone", 410)),
		act("ping", "GET", "/ping?token={token}", []any{f("token", "String", "query", "token")}, 200, []any{f("token", "String")}),
	}},
	"notes": {"sadl": "1.8.3", "name": "notes", "namespace": "notes", "types": []any{
		st("Note", f("key", "String"), f("text", "String"), f("at", "Timestamp"), f("meta", "Map", "keys", "String", "items", "String"),
			f("stamps", "Array", "items", "Timestamp"), f("amounts", "Map", "keys", "String", "items", "Decimal"), f("moods", "Array", "items", "Mood"), f("ids", "Map", "keys", "String", "items", "Id"), f("grid", "Array", "items", "Row"), f("mood", "Mood"), f("replies", "Array", "items", "Note"), f("fee", "Fee"), f("fees", "Array", "items", "Fee")),
		J{"name": "Mood", "type": "Enum", "elements": []any{J{"symbol": "Fine"}, J{"symbol": "So_so"}}},
		J{"name": "Id", "type": "UUID"}, J{"name": "Fee", "type": "Decimal"},
		J{"name": "Row", "type": "Array", "items": "Int64"},
		st("Problem", f("detail", "String")),
	}, "http": []any{
		act("get", "GET", "/{box}/{key}", []any{f("box", "String", "path", true, "required", true), f("key", "String", "path", true, "required", true)}, 200, []any{f("note", "Note")}, exc("Problem", 500)),
		act("put", "PUT", "/{box}/{key}", []any{f("box", "String", "path", true, "required", true), f("key", "String", "path", true, "required", true), f("note", "Note", "required", true), f("rev", "Int32", "header", "X-Rev", "default", 1)}, 200, []any{f("note", "Note"), f("rev", "Int32", "header", "X-Rev")}, exc("Problem", 409)),
		act("del", "DELETE", "/{box}/{key}", []any{f("box", "String", "path", true, "required", true), f("key", "String", "path", true, "required", true)}, 204, nil),
		act("add", "POST", "/{box}", []any{f("box", "String", "path", true, "required", true), f("text", "String", "required", true)}, 201, []any{f("note", "Note")}, exc("Problem", 409)),
	}},
}

func f(name, typ string, more ...any) J {
	j := J{"name": name, "type": typ}
	for i := 0; i < len(more); i += 2 {
		j[more[i].(string)] = more[i+1]
	}
	return j
}

func st(name string, fs ...any) J {
	var a []any
	for _, x := range fs {
		a = append(a, x)
	}
	return J{"name": name, "type": "Struct", "fields": a}
}

func exc(t string, status int) J { return J{"type": t, "status": status} }

func act(name, method, path string, ins []any, status int, outs []any, excs ...any) J {
	e := J{"status": status}
	if outs != nil {
		e["outputs"] = outs
	}
	a := J{"name": name, "method": method, "path": path, "inputs": ins, "expected": e}
	if excs != nil {
		a["exceptions"] = excs
	}
	return a
}

// extraMain handles the commands that are not property checks.
func extraMain() bool {
	if *fEmit == "" {
		return false
	}
	for _, name := range []string{"wild1", "wild2", "wild3"} {
		services[name] = wild(*fSeed, name)
	}
	for _, name := range simrt.SortedKeys(services) {
		m, err := buildModel(text(services[name]))
		if err != nil {
			fatal("service %s: %v", name, err)
		}
		conf := sadl.NewData()
		conf.Put("server", true)
		if *fClient {
			conf.Put("client", true)
		}
		k := simrt.NewKernel()
		k.MkdirAll("/work/out")
		w := simrt.PlainWorld(k)
		w.Run(func() { err = golang.Export(m, "/work/out", conf) })
		if err == nil && w.Crash != "" {
			err = fmt.Errorf("%s", w.Crash)
		}
		if err != nil {
			fatal("generating service %s: %v", name, err)
		}
		dir := filepath.Join(*fEmit, name)
		os.MkdirAll(dir, 0755)
		pkg, helper := "", false
		files := k.Snapshot("/work/out").Files()
		for _, p := range simrt.SortedKeys(files) {
			for _, l := range strings.Split(files[p], "\n") {
				if strings.HasPrefix(l, "package ") {
					pkg = strings.TrimSpace(l[8:])
					break
				}
			}
			helper = helper || strings.Contains(files[p], "func normalizeHeaderValue(key string, value interface{}) string {")
			if err := os.WriteFile(filepath.Join(dir, filepath.Base(p)), []byte(files[p]), 0644); err != nil {
				fatal("%v", err)
			}
		}
		if err := os.WriteFile(filepath.Join(dir, "zz_glue.go"), []byte(glue(m, pkg, helper)), 0644); err != nil {
			fatal("%v", err)
		}
	}
	return true
}

// glue is what connects the harness to a generated service.
func glue(m *sadl.Model, pkg string, helper bool) string {
	var b strings.Builder
	svc := sadl.Capitalize(m.Name)
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"encoding/json\"\n\t\"net/http\"\n\t\"time\"\n)\n\n", pkg)
	fmt.Fprintf(&b, "const SimSeed = %d\n\n", *fSeed)
	b.WriteString("type SimCall func(action string, req, res interface{}) error\n\n")
	excs := map[string]bool{}
	for _, h := range m.Http {
		n := sadl.Capitalize(h.Name)
		fmt.Fprintf(&b, "func (f SimCall) %s(req *%sRequest) (*%sResponse, error) {\n\tres := new(%sResponse)\n\tif err := f(%q, req, res); err != nil {\n\t\treturn nil, err\n\t}\n\treturn res, nil\n}\n\n", n, n, n, n, h.Name)
		for _, e := range h.Exceptions {
			excs[e.Type] = true
		}
	}
	fmt.Fprintf(&b, "func SimServer(f func(action string, req, res interface{}) error, base string) http.Handler {\n\tvar impl %s = SimCall(f)\n\treturn InitServer(impl, base)\n}\n\n", svc)
	b.WriteString("func SimError(name, text string) error {\n\tswitch name {\n")
	for _, e := range simrt.SortedKeys(excs) {
		fmt.Fprintf(&b, "\tcase %q:\n\t\te := new(%s)\n\t\tif err := json.Unmarshal([]byte(text), e); err != nil {\n\t\t\tpanic(err)\n\t\t}\n\t\treturn e\n", e, e)
	}
	b.WriteString("\t}\n\tpanic(name)\n}\n\n")
	b.WriteString("func SimStamp(t time.Time) string { return Timestamp{t}.String() }\n\n")
	b.WriteString("func SimStampJSON(t time.Time) string {\n\tb, err := json.Marshal(&Timestamp{t})\n\tif err != nil {\n\t\treturn err.Error()\n\t}\n\treturn string(b)\n}\n\n")
	b.WriteString("func SimParse(s string) (time.Time, error) {\n\tt, err := ParseTimestamp(s)\n\treturn t.Time, err\n}\n\n")
	if *fClient {
		b.WriteString("func SimClient(target string) func(action, req string) (string, error) {\n\tc, err := NewClient(target)\n\treturn func(action, in string) (string, error) {\n\t\tif err != nil {\n\t\t\treturn \"\", err\n\t\t}\n\t\tvar out interface{}\n\t\tswitch action {\n")
		for _, h := range m.Http {
			n := sadl.Capitalize(h.Name)
			fmt.Fprintf(&b, "\t\tcase %q:\n\t\t\treq := new(%sRequest)\n\t\t\tif err := json.Unmarshal([]byte(in), req); err != nil {\n\t\t\t\tpanic(\"harness: \" + err.Error())\n\t\t\t}\n\t\t\tres, err := c.%s(req)\n\t\t\tif err != nil {\n\t\t\t\treturn \"\", err\n\t\t\t}\n\t\t\tout = res\n", h.Name, n, n)
		}
		b.WriteString("\t\t}\n\t\tb, err := json.Marshal(out)\n\t\treturn string(b), err\n\t}\n}\n\n")
	}
	if helper {
		b.WriteString("func SimHeader(t time.Time) string { return normalizeHeaderValue(\"Date\", &Timestamp{t}) }\n")
	} else {
		b.WriteString("func SimHeader(t time.Time) string { return t.UTC().Format(http.TimeFormat) }\n")
	}
	return b.String()
}
