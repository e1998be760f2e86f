package kit

import (
	"encoding/json"
	"strings"
)

// JText renders a reference JSON form.
func JText(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic("[harness-error] " + err.Error())
	}
	return b
}

// jnode is a position in a JSON tree that can be replaced.
type jnode struct {
	get func() any
	set func(any)
	del func()
}

func jnodes(v any, self jnode, out *[]jnode) {
	*out = append(*out, self)
	switch v := v.(type) {
	case map[string]any:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			jnodes(v[k], jnode{func() any { return v[k] }, func(x any) { v[k] = x }, func() { delete(v, k) }}, out)
		}
	case []any:
		for i := range v {
			jnodes(v[i], jnode{func() any { return v[i] }, func(x any) { v[i] = x }, func() { v[i] = nil }}, out)
		}
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// MutateJSON damages a JSON document, structurally or as text.
func (g *G) MutateJSON(doc []byte) ([]byte, string) {
	if g.Rare(5, "text") {
		return g.MutateBytes(doc)
	}
	d := json.NewDecoder(strings.NewReader(string(doc)))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return doc, "unchanged"
	}
	desc := ""
	for i, n := 0, g.Int(1, 2, "edits"); i < n; i++ {
		var nodes []jnode
		root := v
		jnodes(v, jnode{func() any { return root }, func(x any) { v = x }, func() { v = nil }}, &nodes)
		nd := nodes[g.Int(0, len(nodes)-1, "node")]
		old := nd.get()
		repl := []any{nil, true, json.Number("0"), json.Number("-1"), json.Number("1.5"), json.Number("1e300"), json.Number("18446744073709551616"), "", "0x", "0x0", "0xzz", "0x" + strings.Repeat("00", g.Int(0, 70, "hexlen")), "-1", "18446744073709551616", "1e5", strings.Repeat("9", 90), "0x" + strings.Repeat("f", 65), "\u0000", []any{}, map[string]any{}, []any{nil}, []any{map[string]any{}}, map[string]any{"type": json.Number("99")}, map[string]any{"type": "0"}}
		switch g.Int(0, 4, "jedit") {
		case 0:
			nd.del()
			desc += "del "
		case 1:
			if l, ok := old.([]any); ok && len(l) > 0 {
				nd.set(append(append([]any{}, l...), l[g.Int(0, len(l)-1, "dup")]))
				desc += "dupelem "
				break
			}
			nd.set([]any{old})
			desc += "wrap "
		case 2:
			if s, ok := old.(string); ok && len(s) > 0 {
				p := g.Int(0, len(s)-1, "cut")
				if g.Bool("cutdup") {
					nd.set(s[:p])
				} else {
					nd.set(s + s[p:])
				}
				desc += "cut "
				break
			}
			nd.set(old)
		default:
			k := g.Int(0, len(repl)-1, "repl")
			nd.set(repl[k])
			desc += "repl "
		}
	}
	return JText(v), desc
}
