package rt

import (
	"fmt"
	"reflect"
	"sort"
)

// Keys returns the keys of m in an order decided by the simulator (map iteration order is
// unspecified in Go; here it is a recorded choice).
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	switch any(ks[0]).(type) {
	case string:
		sort.Slice(ks, func(i, j int) bool { return any(ks[i]).(string) < any(ks[j]).(string) })
	case int:
		sort.Slice(ks, func(i, j int) bool { return any(ks[i]).(int) < any(ks[j]).(int) })
	default:
		rv := reflect.ValueOf(ks[0])
		switch rv.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int() })
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Uint() < reflect.ValueOf(ks[j]).Uint() })
		case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Interface:
			// No stable order exists without identity numbers: fall back to the printed value
			// of the pointed-to data, which is deterministic for plain data.
			sort.Slice(ks, func(i, j int) bool { return fmt.Sprintf("%+v", deref(ks[i])) < fmt.Sprintf("%+v", deref(ks[j])) })
		default:
			sort.Slice(ks, func(i, j int) bool { return fmt.Sprintf("%#v", ks[i]) < fmt.Sprintf("%#v", ks[j]) })
		}
	}
	if W != nil && W.cur != nil {
		r := W.Choose("map", 1<<32)
		if r != 0 {
			g := NewRand(r)
			for i := len(ks) - 1; i > 0; i-- {
				j := g.Intn(i + 1)
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func deref(v any) any {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Pointer && !rv.IsNil() {
		return rv.Elem().Interface()
	}
	return v
}

// SortedKeys is Keys without the shuffle, for dependencies.
func SortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	w := W
	W = nil
	ks := Keys(m)
	W = w
	return ks
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
