// Package handlers is a stand-in for github.com/gorilla/handlers, which is
// not available offline.
package handlers

import (
	"fmt"
	"io"
	"net/http"
)

type CORSOption func()

func AllowedOrigins([]string) CORSOption { return func() {} }
func AllowedHeaders([]string) CORSOption { return func() {} }
func AllowedMethods([]string) CORSOption { return func() {} }

func CORS(...CORSOption) func(http.Handler) http.Handler {
	return func(h http.Handler) http.Handler { return h }
}

func CombinedLoggingHandler(out io.Writer, h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		h.ServeHTTP(w, r)
		fmt.Fprintln(out, r.Method, r.URL.Path)
	})
}

func LoggingHandler(out io.Writer, h http.Handler) http.Handler {
	return CombinedLoggingHandler(out, h)
}
