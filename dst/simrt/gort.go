package simrt

import (
	"reflect"
	"sort"
)

// GoCall stands in for a go statement in instrumented code: function and
// arguments are evaluated by the caller, the call becomes a task.
func GoCall(f any, args ...any) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			v := reflect.ValueOf(a)
			if !v.Type().AssignableTo(pt) {
				v = v.Convert(pt)
			}
			in[i] = v
		}
	}
	k := Active()
	if k == nil {
		// before any simulation: it runs in each of them from the start
		boot = append(boot, func() {
			args := append([]reflect.Value(nil), in...)
			for i := range args {
				args[i] = current(args[i])
			}
			fv.Call(args)
		})
		return
	}
	k.Spawn("go", func() { fv.Call(in) })
}

// Keys stands in for ranging over a map: the keys in a fixed order.
func Keys[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return lessVal(reflect.ValueOf(ks[i]), reflect.ValueOf(ks[j])) })
	return ks
}

func lessVal(a, b reflect.Value) bool {
	switch {
	case a.CanInt():
		return a.Int() < b.Int()
	case a.CanUint():
		return a.Uint() < b.Uint()
	case a.CanFloat():
		return a.Float() < b.Float()
	case a.Kind() == reflect.String:
		return a.String() < b.String()
	}
	return false
}
