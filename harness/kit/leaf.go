package kit

import (
	"math/big"
	"reflect"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
)

var addrT = reflect.TypeOf((*iotago.Address)(nil)).Elem()

// Leaf is a single place of an object that can be changed.
type Leaf struct {
	Path string
	Do   func(k uint64)
}

// Leaves lists every place of an object in which a single change can be made: a number, a byte, a bit of a big number,
// the value or the key of a map, the length of a list, or the kind of an address.
func Leaves(x any) []Leaf {
	var out []Leaf
	leaves(reflect.ValueOf(x), "", &out)
	return out
}

func leaves(v reflect.Value, path string, out *[]Leaf) {
	add := func(what string, do func(k uint64)) { *out = append(*out, Leaf{path + what, do}) }
	if !v.IsValid() {
		return
	}
	if v.Type() == bigT {
		if b, ok := v.Interface().(*big.Int); ok && b != nil {
			add("^bit", func(k uint64) { i := int(k % 255); b.SetBit(b, i, 1-b.Bit(i)) })
		}
		return
	}
	if v.Type().Implements(apiT) && v.Kind() != reflect.Struct {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			leaves(v.Elem(), path, out)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Type() == addrT && v.CanSet() {
			if a, ok := otherKind(v.Interface().(iotago.Address)); ok {
				add("^kind", func(uint64) { v.Set(reflect.ValueOf(a)) })
			}
		}
		leaves(v.Elem(), path, out)
	case reflect.Struct:
		if v.Type() == timeT && v.CanSet() {
			add("^time", func(k uint64) {
				v.Set(reflect.ValueOf(time.Unix(0, v.Interface().(time.Time).UnixNano()^1<<(k%45)).UTC()))
			})
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				leaves(v.Field(i), path+"."+f.Name, out)
			}
		}
	case reflect.Slice:
		if v.CanSet() {
			if v.Len() > 0 {
				add("^drop", func(uint64) { v.Set(v.Slice(0, v.Len()-1)) })
				if v.Len() < maxLen(v.Type()) {
					add("^dup", func(k uint64) {
						n := reflect.MakeSlice(v.Type(), 0, v.Len()+1)
						v.Set(reflect.Append(reflect.AppendSlice(n, v), v.Index(int(k%uint64(v.Len())))))
					})
				}
			} else if v.Type().Elem().Kind() == reflect.Uint8 {
				add("^add", func(k uint64) {
					n := reflect.MakeSlice(v.Type(), 1, 1)
					n.Index(0).SetUint(k & 0xff)
					v.Set(n)
				})
			}
			if v.Len() > 1 {
				add("^swap", func(k uint64) {
					i := int(k % uint64(v.Len()-1))
					n := reflect.MakeSlice(v.Type(), 0, v.Len())
					n = reflect.AppendSlice(n, v)
					t := reflect.ValueOf(n.Index(i).Interface())
					n.Index(i).Set(n.Index(i + 1))
					n.Index(i + 1).Set(t)
					v.Set(n)
				})
			}
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Len() > 0 {
				add("^byte", func(k uint64) { e := v.Index(int(k>>8) % v.Len()); e.SetUint(e.Uint() ^ (1 << (k & 7))) })
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), path+"[]", out)
		}
	case reflect.Array:
		if v.CanSet() && v.Type().Elem().Kind() == reflect.Uint8 {
			add("^byte", func(k uint64) { e := v.Index(int(k>>8) % v.Len()); e.SetUint(e.Uint() ^ (1 << (k & 7))) })
		}
	case reflect.Map:
		if v.Type().Elem().Kind() != reflect.Slice || v.Type().Key().Kind() != reflect.String {
			for _, k := range v.MapKeys() {
				leaves(v.MapIndex(k), path+"{}", out)
			}
			return
		}
		for _, k := range v.MapKeys() {
			add("^value", func(n uint64) {
				b := v.MapIndex(k).Bytes()
				c := append([]byte{}, b...)
				switch {
				case len(c) == 0 || n&1 == 0:
					c = append(c, byte(n>>8))
				default:
					c[int(n>>8)%len(c)] ^= 1 << ((n >> 1) & 7)
				}
				v.SetMapIndex(k, reflect.ValueOf(c).Convert(v.Type().Elem()))
			})
			add("^delete", func(uint64) { v.SetMapIndex(k, reflect.Value{}) })
			add("^rename", func(n uint64) {
				b := v.MapIndex(k)
				v.SetMapIndex(k, reflect.Value{})
				v.SetMapIndex(reflect.ValueOf(k.String()+"x").Convert(k.Type()), b)
			})
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if v.CanSet() {
			add("^num", func(k uint64) { v.SetUint(v.Uint() ^ 1<<(k%uint64(8*v.Type().Size()))) })
		}
	}
}

// otherKind returns an address of another kind over the same bytes.
func otherKind(a iotago.Address) (iotago.Address, bool) {
	switch a := a.(type) {
	case *iotago.Ed25519Address:
		c := iotago.AccountAddress(*a)
		return &c, true
	case *iotago.AccountAddress:
		c := iotago.NFTAddress(*a)
		return &c, true
	case *iotago.NFTAddress:
		c := iotago.AnchorAddress(*a)
		return &c, true
	case *iotago.AnchorAddress:
		c := iotago.ImplicitAccountCreationAddress(*a)
		return &c, true
	case *iotago.ImplicitAccountCreationAddress:
		c := iotago.Ed25519Address(*a)
		return &c, true
	}
	return nil, false
}

// maxLen: lists that the wire format cannot hold are outside of what the identifiers of an address are defined for.
func maxLen(t reflect.Type) int {
	switch t {
	case reflect.TypeOf(iotago.AddressCapabilitiesBitMask{}):
		return 2
	case reflect.TypeOf(iotago.AddressesWithWeight{}):
		return 10
	}
	return 1 << 30
}
