package kit

import (
	"math/big"
	"reflect"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
)

var (
	bigT  = reflect.TypeOf((*big.Int)(nil))
	timeT = reflect.TypeOf(time.Time{})
	apiT  = reflect.TypeOf((*iotago.API)(nil)).Elem()
)

// Scribble overwrites, in place, everything reachable from an object, without replacing any pointer,
// slice or map on the way: memory shared with another object is overwritten there too. It returns how many places it changed.
func Scribble(x any) int {
	n := 0
	scribble(reflect.ValueOf(x), map[uintptr]bool{}, &n)
	return n
}

func scribble(v reflect.Value, seen map[uintptr]bool, n *int) {
	if !v.IsValid() || v.Type() == timeT && !v.CanSet() {
		return
	}
	if v.Type() == bigT {
		if b, ok := v.Interface().(*big.Int); ok && b != nil {
			for i, w := range b.Bits() {
				b.Bits()[i] = ^w
			}
			b.Add(b, big.NewInt(1))
			*n++
		}
		return
	}
	if v.Type().Implements(apiT) && v.Kind() != reflect.Struct {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scribble(v.Elem(), seen, n)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		scribble(v.Elem(), seen, n)
	case reflect.Struct:
		if v.Type() == timeT {
			if v.CanSet() {
				v.Set(reflect.ValueOf(v.Interface().(time.Time).Add(1)))
				*n++
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i), seen, n)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen, n)
		}
	case reflect.Array:
		if !v.CanSet() {
			return
		}
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen, n)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k), seen, n)
		}
		// a key more shows in whoever shares the map
		if !v.IsNil() && v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scribbled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
			*n++
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if v.CanSet() {
			v.SetUint(^v.Uint() & (1<<(8*v.Type().Size()-1)<<1 - 1))
			*n++
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		if v.CanSet() {
			v.SetInt(^v.Int())
			*n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			*n++
		}
	}
}
