// Package mux is a stand-in for github.com/gorilla/mux, which is not
// available offline: routing by method and path with {name} segments.
package mux

import (
	"context"
	"net/http"
	"net/url"
	"strings"
)

type Router struct {
	NotFoundHandler         http.Handler
	MethodNotAllowedHandler http.Handler
	routes                  []*Route
}

type Route struct {
	path    string
	prefix  bool
	methods []string
	handler http.Handler
}

type varsKey struct{}

func NewRouter() *Router { return &Router{} }

func (r *Router) HandleFunc(path string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Handle(path, http.HandlerFunc(f))
}

func (r *Router) Handle(path string, h http.Handler) *Route {
	t := &Route{path: path, handler: h}
	r.routes = append(r.routes, t)
	return t
}

func (r *Router) PathPrefix(path string) *Route {
	t := &Route{path: path, prefix: true}
	r.routes = append(r.routes, t)
	return t
}

func (t *Route) Handler(h http.Handler) *Route { t.handler = h; return t }

func (t *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route {
	t.handler = http.HandlerFunc(f)
	return t
}

func (t *Route) Methods(ms ...string) *Route {
	for _, m := range ms {
		t.methods = append(t.methods, strings.ToUpper(m))
	}
	return t
}

func (t *Route) match(path string) (map[string]string, bool) {
	vars := map[string]string{}
	if t.prefix {
		return vars, strings.HasPrefix(path, t.path)
	}
	want := strings.Split(t.path, "/")
	got := strings.Split(path, "/")
	if len(want) != len(got) {
		return nil, false
	}
	for i, w := range want {
		if strings.HasPrefix(w, "{") && strings.HasSuffix(w, "}") {
			if got[i] == "" {
				return nil, false
			}
			name, _, _ := strings.Cut(w[1:len(w)-1], ":")
			v, err := url.PathUnescape(got[i])
			if err != nil {
				v = got[i]
			}
			vars[name] = v
		} else if w != got[i] {
			return nil, false
		}
	}
	return vars, true
}

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	wrong := false
	for _, t := range r.routes {
		vars, ok := t.match(req.URL.EscapedPath())
		if !ok || t.handler == nil {
			continue
		}
		if len(t.methods) > 0 {
			has := false
			for _, m := range t.methods {
				has = has || m == req.Method
			}
			if !has {
				wrong = true
				continue
			}
		}
		t.handler.ServeHTTP(w, req.WithContext(context.WithValue(req.Context(), varsKey{}, vars)))
		return
	}
	if wrong {
		if r.MethodNotAllowedHandler != nil {
			r.MethodNotAllowedHandler.ServeHTTP(w, req)
			return
		}
		w.WriteHeader(405)
		return
	}
	if r.NotFoundHandler != nil {
		r.NotFoundHandler.ServeHTTP(w, req)
		return
	}
	http.NotFound(w, req)
}

// Vars gives the variables of the route that matched.
func Vars(r *http.Request) map[string]string {
	m, _ := r.Context().Value(varsKey{}).(map[string]string)
	return m
}
