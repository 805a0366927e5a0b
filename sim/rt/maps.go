package simrt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"sort"
	"unsafe"
)

type access struct {
	task  int
	write bool
}

// mapPtr identifies a map. Keeping the pointer keeps the map off the stack, whose
// addresses other tasks may reuse.
func mapPtr[M any](m *M) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(m)) }

// touch emulates the check of Go's maps: an access that overlaps a write by
// another task ends the process.
func (w *World) touch(p unsafe.Pointer, write bool) {
	if p == nil {
		return
	}
	me := w.cur.ID
	for _, a := range w.access[p] {
		if a.task != me && (a.write || write) {
			w.fatal("crash", "fatal error: concurrent map access")
		}
	}
	w.access[p] = append(w.access[p], access{me, write})
	Y2(0)
	as := w.access[p]
	for i, a := range as {
		if a.task == me && a.write == write {
			as = append(append([]access(nil), as[:i]...), as[i+1:]...)
			break
		}
	}
	if len(as) == 0 {
		delete(w.access, p)
	} else {
		w.access[p] = as
	}
}

// MW and MR announce a map write and a map read.
func MW[M ~map[K]V, K comparable, V any](m M) {
	if Multi && W != nil && !W.killed {
		W.touch(mapPtr(&m), true)
	}
}

func MR[M ~map[K]V, K comparable, V any](m M) {
	if Multi && W != nil && !W.killed {
		W.touch(mapPtr(&m), false)
	}
}

// It iterates over a map in an order the simulator decides.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	n    int
}

func less(a, b reflect.Value) bool { return cmpv(a, b) < 0 }

func cmpv(a, b reflect.Value) int {
	for a.Kind() == reflect.Interface {
		if a.IsNil() {
			break
		}
		a = a.Elem()
	}
	for b.Kind() == reflect.Interface {
		if b.IsNil() {
			break
		}
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() || a.Kind() != b.Kind() {
		return cmp.Compare(int(a.Kind()), int(b.Kind()))
	}
	switch a.Kind() {
	case reflect.String:
		return cmp.Compare(a.String(), b.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(a.Int(), b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp.Compare(a.Uint(), b.Uint())
	case reflect.Float32, reflect.Float64:
		return cmp.Compare(a.Float(), b.Float())
	case reflect.Bool:
		x, y := 0, 0
		if a.Bool() {
			x = 1
		}
		if b.Bool() {
			y = 1
		}
		return cmp.Compare(x, y)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := cmpv(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := cmpv(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return cmp.Compare(a.Pointer(), b.Pointer())
		}
		return cmp.Compare(fmt.Sprintf("%+v", a.Elem()), fmt.Sprintf("%+v", b.Elem()))
	}
	return 0
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		sort.SliceStable(keys, func(i, j int) bool { return less(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) })
	}
}

func newIt[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	it := &It[K, V]{m: m, n: len(m)}
	if len(m) == 0 {
		return it
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		sortKeys(keys)
		if p := W.perm(len(keys)); p != nil {
			o := make([]K, len(keys))
			for i, j := range p {
				o[i] = keys[j]
			}
			keys = o
		}
	}
	it.keys = keys
	return it
}

func (it *It[K, V]) next(k *K, v *V) bool {
	if Multi && W != nil && !W.killed {
		W.touch(mapPtr(&it.m), false)
	}
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok && key == key { // removed meanwhile
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

type ItKV[K comparable, V any] struct{ *It[K, V] }
type ItK[K comparable, V any] struct{ *It[K, V] }
type ItV[K comparable, V any] struct{ *It[K, V] }
type ItN[K comparable, V any] struct{ *It[K, V] }

func (it ItKV[K, V]) Next(k *K, v *V) bool { return it.next(k, v) }
func (it ItK[K, V]) Next(k *K) bool        { return it.next(k, nil) }
func (it ItV[K, V]) Next(v *V) bool        { return it.next(nil, v) }
func (it ItN[K, V]) Next() bool            { return it.next(nil, nil) }

func Iter[M ~map[K]V, K comparable, V any](m M) (it ItKV[K, V], k K, v V) {
	return ItKV[K, V]{newIt[M, K, V](m)}, k, v
}
func IterK[M ~map[K]V, K comparable, V any](m M) (it ItK[K, V], k K) {
	return ItK[K, V]{newIt[M, K, V](m)}, k
}
func IterV[M ~map[K]V, K comparable, V any](m M) (it ItV[K, V], v V) {
	return ItV[K, V]{newIt[M, K, V](m)}, v
}
func IterN[M ~map[K]V, K comparable, V any](m M) ItN[K, V] { return ItN[K, V]{newIt[M, K, V](m)} }

// The forms that assign to existing variables.
func IterA[M ~map[K]V, K comparable, V any](m M) ItKV[K, V] { return ItKV[K, V]{newIt[M, K, V](m)} }
func IterAK[M ~map[K]V, K comparable, V any](m M) ItK[K, V] { return ItK[K, V]{newIt[M, K, V](m)} }
func IterAV[M ~map[K]V, K comparable, V any](m M) ItV[K, V] { return ItV[K, V]{newIt[M, K, V](m)} }

// MapsKeys, MapsValues and MapsAll replace the functions of package maps.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		it := newIt[M, K, V](m)
		var k K
		for it.next(&k, nil) {
			if !yield(k) {
				return
			}
		}
	}
}

func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		it := newIt[M, K, V](m)
		var v V
		for it.next(nil, &v) {
			if !yield(v) {
				return
			}
		}
	}
}

func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		it := newIt[M, K, V](m)
		var k K
		var v V
		for it.next(&k, &v) {
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys orders the result of reflect.Value.MapKeys.
func MapKeys(ks []reflect.Value) []reflect.Value {
	sort.SliceStable(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	if p := W.perm(len(ks)); p != nil {
		o := make([]reflect.Value, len(ks))
		for i, j := range p {
			o[i] = ks[j]
		}
		return o
	}
	return ks
}

// Order permutes a list in place.
func Order[T any](xs []T) []T {
	p := W.perm(len(xs))
	if p == nil {
		return xs
	}
	o := make([]T, len(xs))
	for i, j := range p {
		o[i] = xs[j]
	}
	return o
}
