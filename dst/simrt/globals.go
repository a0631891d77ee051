package simrt

import (
	"reflect"
	"unsafe"
)

// Channels that package-level variables hold were made outside the bubble a
// simulation runs in. At the start of a run each is replaced by one made
// inside with the same contents; at its end the contents are kept for the next.

var globals []reflect.Value

// Globals registers package-level variables (pointers to them); generated code
// calls it for packages that use channels.
func Globals(ptrs ...any) bool {
	NoBombs = true
	for _, p := range ptrs {
		v := reflect.ValueOf(p).Elem()
		if mayChan(v.Type(), map[reflect.Type]bool{}) {
			globals = append(globals, v)
		}
	}
	return true
}

func mayChan(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Chan, reflect.Interface:
		return true
	case reflect.Pointer, reflect.Slice, reflect.Array:
		return mayChan(t.Elem(), seen)
	case reflect.Map:
		return mayChan(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if mayChan(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

type savedChan struct {
	t     reflect.Type
	cap   int
	items []reflect.Value
	shut  bool
}

var saved = map[unsafe.Pointer]*savedChan{} // by the channel as last stored

func eachChan(f func(v reflect.Value)) {
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 12 {
			return
		}
		switch v.Kind() {
		case reflect.Chan:
			if !v.IsNil() && v.CanSet() {
				f(v)
			}
		case reflect.Pointer:
			if v.IsNil() || seen[v.UnsafePointer()] || !mayChan(v.Type(), map[reflect.Type]bool{}) {
				return
			}
			seen[v.UnsafePointer()] = true
			walk(open(v.Elem()), depth+1)
		case reflect.Interface:
			if !v.IsNil() && v.Elem().Kind() == reflect.Pointer {
				walk(v.Elem(), depth+1)
			}
		case reflect.Slice, reflect.Array:
			if !mayChan(v.Type(), map[reflect.Type]bool{}) {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(open(v.Index(i)), depth+1)
			}
		case reflect.Map:
			if !mayChan(v.Type(), map[reflect.Type]bool{}) {
				return
			}
			for _, key := range v.MapKeys() {
				e := v.MapIndex(key)
				if e.Kind() == reflect.Chan {
					n := reflect.New(e.Type()).Elem()
					n.Set(e)
					f(n)
					v.SetMapIndex(key, n)
					continue
				}
				walk(e, depth+1)
			}
		case reflect.Struct:
			if !mayChan(v.Type(), map[reflect.Type]bool{}) {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(open(v.Field(i)), depth+1)
			}
		}
	}
	for _, g := range globals {
		walk(open(g), 0)
	}
}

// open gives write access to unexported fields.
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() && !v.CanSet() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// drain takes everything out of a channel, from inside the bubble.
func drain(v reflect.Value, s *savedChan) {
	bi := reflect.ChanOf(reflect.BothDir, v.Type().Elem())
	c := v
	if v.Type().ChanDir() != reflect.BothDir {
		// same representation
		n := reflect.New(bi).Elem()
		*(*unsafe.Pointer)(n.Addr().UnsafePointer()) = v.UnsafePointer()
		c = n
	}
	s.cap = c.Cap()
	for {
		x, ok := c.TryRecv()
		if !ok {
			s.shut = x.IsValid()
			return
		}
		s.items = append(s.items, x)
	}
}

func globalsIn() {
	if len(globals) == 0 {
		return
	}
	byOld := map[unsafe.Pointer]reflect.Value{}
	eachChan(func(v reflect.Value) {
		old := v.UnsafePointer()
		n, ok := byOld[old]
		if !ok {
			s := saved[old]
			if s == nil {
				s = &savedChan{}
				drain(v, s)
			}
			n = reflect.MakeChan(reflect.ChanOf(reflect.BothDir, v.Type().Elem()), s.cap)
			for _, x := range s.items {
				n.TrySend(x)
			}
			if s.shut {
				n.Close()
			}
			byOld[old] = n
		}
		*(*unsafe.Pointer)(v.Addr().UnsafePointer()) = n.UnsafePointer()
	})
	saved = map[unsafe.Pointer]*savedChan{}
	for o, c := range chain {
		if n, ok := byOld[c]; ok {
			chain[o] = n.UnsafePointer()
			delete(byOld, c)
		}
	}
	for o, n := range byOld {
		chain[o] = n.UnsafePointer()
	}
}

// chain leads from a channel made before any simulation to its stand-in.
var chain = map[unsafe.Pointer]unsafe.Pointer{}

// current is the stand-in of a channel that was passed to a goroutine at boot.
func current(v reflect.Value) reflect.Value {
	if v.Kind() != reflect.Chan || v.IsNil() || chain[v.UnsafePointer()] == nil {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	*(*unsafe.Pointer)(n.Addr().UnsafePointer()) = chain[v.UnsafePointer()]
	return n
}

func globalsOut() {
	if len(globals) == 0 {
		return
	}
	eachChan(func(v reflect.Value) {
		if p := v.UnsafePointer(); saved[p] == nil {
			s := &savedChan{}
			drain(v, s)
			saved[p] = s
		}
	})
}
