package sim

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"slices"
	"strings"
)

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// MapRange iterates over m in an order drawn from the simulator.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range MapKeys(m) {
			v, ok := m[k]
			if !ok {
				continue // deleted meanwhile
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys returns the keys of m in an order drawn from the simulator.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	sortKeys(keys)
	Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

// MapOrders counts the map iterations whose order was permuted.
var MapOrders int

// Shuffle permutes n elements; choice 0 leaves them in place.
//
//go:norace
func Shuffle(n int, swap func(i, j int)) {
	if C == nil {
		return
	}
	v := C.Draw(Order, 1<<32)
	if v == 0 {
		return
	}
	MapOrders++
	s := v
	for i := n - 1; i > 0; i-- {
		s += 0x9e3779b97f4a7c15
		j := int(mix(s) % uint64(i+1))
		swap(i, j)
	}
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
		return
	case []int:
		slices.Sort(ks)
		return
	}
	switch reflect.TypeOf((*K)(nil)).Elem().Kind() {
	case reflect.String:
		slices.SortFunc(keys, func(a, b K) int {
			return strings.Compare(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
		})
		return
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(reflect.ValueOf(a).Int(), reflect.ValueOf(b).Int()) })
		return
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(reflect.ValueOf(a).Uint(), reflect.ValueOf(b).Uint()) })
		return
	}
	text := make(map[K]string, len(keys))
	for _, k := range keys {
		text[k] = describe(reflect.ValueOf(k), 4)
	}
	slices.SortStableFunc(keys, func(a, b K) int { return strings.Compare(text[a], text[b]) })
}

// describe prints a value without addresses.
func describe(v reflect.Value, depth int) string {
	if depth == 0 || !v.IsValid() {
		return "?"
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + describe(v.Elem(), depth-1)
	case reflect.Struct:
		var b strings.Builder
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(describe(v.Field(i), depth-1))
			b.WriteByte(';')
		}
		return b.String()
	case reflect.String:
		return v.String()
	case reflect.Chan, reflect.Func, reflect.UnsafePointer, reflect.Map:
		return "?"
	}
	return fmt.Sprint(v)
}
