package t_codec

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/kit"
)

// C03: JSON form of every protocol object: reference form, round trip, same bytes and identity.
func TestC03(t *testing.T) {
	kit.Check(t, 2500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		k := kit.GenKind(rt)
		o := k.Gen(g)
		want := k.Ref(o)
		j, err := g.E.API().JSONEncode(o)
		kit.NoErr(rt, err, "%s: JSON encoding %x", k.Name, want)
		if !bytes.Equal(k.Ref(o), want) {
			kit.Fail(rt, "%s: JSON encoding modified the object", k.Name)
		}
		if d := kit.SameJSON(j, kit.RefJSON(o)); d != "" {
			kit.Fail(rt, "%s: JSON form differs at %s\n %s", k.Name, d, j)
		}
		p := k.New()
		if err := g.E.API().JSONDecode(j, p); err != nil {
			kit.Fail(rt, "%s: decoding its own JSON: %v\n %s", k.Name, err, j)
		}
		d := k.Get(p)
		if got := k.Ref(d); !bytes.Equal(got, want) {
			kit.Fail(rt, "%s: JSON round trip changed the object\n was %x\n now %x\n via %s", k.Name, want, got, j)
		}
		b, err := kit.Encode(g.E, d)
		kit.NoErr(rt, err, "%s: binary encoding of the object decoded from JSON", k.Name)
		if !bytes.Equal(b, want) {
			kit.Fail(rt, "%s: binary encoding after JSON round trip differs", k.Name)
		}
		if k.ID != nil {
			i1, e1 := k.ID(o)
			i2, e2 := k.ID(d)
			kit.NoErr(rt, e1, "%s id", k.Name)
			kit.NoErr(rt, e2, "%s id after JSON", k.Name)
			if i1 != i2 {
				kit.Fail(rt, "%s: identity changed by JSON round trip", k.Name)
			}
		}
		j2, err := g.E.API().JSONEncode(d)
		kit.NoErr(rt, err, "%s: JSON encoding again", k.Name)
		if s := kit.SameJSON(j2, kit.RefJSON(o)); s != "" {
			kit.Fail(rt, "%s: second JSON form differs at %s", k.Name, s)
		}
		c.Label(k.Name)
		c.NonTrivial(k.Name, want)
		if len(j) > 300 {
			j = append(j[:300:300], "…"...)
		}
		c.Sample("%s %s", k.Name, j)
	})
}

// C03: API responses.
func TestC03_Responses(t *testing.T) {
	kit.Check(t, 1000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		mk := kit.Responses[g.Int(0, len(kit.Responses)-1, "resp")]
		o := mk()
		g.Fill(reflect.ValueOf(o).Elem(), "f")
		name := reflect.TypeOf(o).Elem().Name()
		want := kit.RefResponse(reflect.ValueOf(o))
		j, err := g.E.API().JSONEncode(o)
		kit.NoErr(rt, err, "%s: JSON encoding %v", name, want)
		if d := kit.SameJSON(j, want); d != "" {
			kit.Fail(rt, "%s: JSON form differs at %s\n %s", name, d, j)
		}
		d := mk()
		if err := g.E.API().JSONDecode(j, d); err != nil {
			kit.Fail(rt, "%s: decoding its own JSON: %v\n %s", name, err, j)
		}
		if got := kit.RefResponse(reflect.ValueOf(d)); !reflect.DeepEqual(got, want) {
			kit.Fail(rt, "%s: JSON round trip changed the response\n was %v\n now %v", name, want, got)
		}
		b, err := g.E.API().Encode(o)
		kit.NoErr(rt, err, "%s: binary encoding", name)
		d = mk()
		n, err := g.E.API().Decode(b, d)
		kit.NoErr(rt, err, "%s: binary decoding", name)
		if got := kit.RefResponse(reflect.ValueOf(d)); n != len(b) || !reflect.DeepEqual(got, want) {
			kit.Fail(rt, "%s: binary round trip changed the response\n was %v\n now %v", name, want, got)
		}
		c.Label(name)
		c.NonTrivial(name, fmt.Sprint(want))
		c.Sample("%s %s", name, j)
	})
}
