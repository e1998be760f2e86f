package t_infra

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"sync"
	"testing"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// spec34 is one environment's parameters for a version; the variants differ in a value of no further meaning here.
func spec34(e *kit.Env, v iotago.Version, variant int) kit.Spec {
	s := e.Spec
	s.Version = uint8(v)
	s.Committee = uint8(10 + variant)
	return s
}

var (
	mu34    sync.Mutex
	cache34 = map[string]*iotago.V3ProtocolParameters{}
)

// params34 caches the parameters; fresh ones (whose own caches are empty) come from spec34(...).Params().
func params34(e *kit.Env, v iotago.Version, variant int) *iotago.V3ProtocolParameters {
	mu34.Lock()
	defer mu34.Unlock()
	k := fmt.Sprintf("%s/%d/%d", e.Name, v, variant)
	if cache34[k] == nil {
		cache34[k] = spec34(e, v, variant).Params()
	}
	return cache34[k]
}

func hash34(p *iotago.V3ProtocolParameters) iotago.Identifier {
	b, err := p.Bytes()
	if err != nil {
		panic(fmt.Sprintf("[harness-error] %v", err))
	}
	return iotago.Identifier(kit.Blake(b))
}

// model34 is the registered history.
type model34 struct {
	e         *kit.Env
	params    map[iotago.Version]*iotago.V3ProtocolParameters
	future    map[iotago.Version]iotago.Identifier
	start     map[iotago.Version]uint32
	committed uint32 // slot
	handed    []handed34
}

// handed34 is a list handed out by the provider, with what it was at that time.
type handed34 struct {
	list []iotago.ProtocolEpochVersion
	was  string
}

func (m *model34) epochOf(slot uint32) uint32 {
	if slot < m.e.GenesisSlot {
		return 0
	}
	return (slot - m.e.GenesisSlot) >> m.e.EpochExp
}

// slotIn picks the i-th slot of an epoch.
func (m *model34) firstSlot(epoch uint32) uint32 { return m.e.GenesisSlot + epoch<<m.e.EpochExp }

// inForce is the version with the greatest start epoch not after the epoch.
func (m *model34) inForce(epoch uint32) (v iotago.Version, ok bool) {
	var best uint32
	for w, s := range m.start {
		if s <= epoch && (!ok || s > best) {
			v, best, ok = w, s, true
		}
	}
	return
}

func (m *model34) versions() (r []iotago.Version) {
	for v := range m.start {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}

// historyHash is the hash over version, start epoch and parameter hash of every registered version in ascending order.
func (m *model34) historyHash() (iotago.Identifier, bool) {
	var b []byte
	for _, v := range m.versions() {
		b = append(b, byte(v))
		b = binary.LittleEndian.AppendUint32(b, m.start[v])
		h, ok := m.future[v]
		if p := m.params[v]; p != nil {
			h, ok = hash34(p), true
		}
		if !ok {
			return iotago.Identifier{}, false
		}
		b = append(b, h[:]...)
	}
	return iotago.Identifier(kit.Blake(b)), true
}

func (m *model34) latest() (v iotago.Version, ok bool) {
	for w := range m.params {
		if !ok || w > v {
			v, ok = w, true
		}
	}
	return
}

func provider34() *iotago.EpochBasedProvider {
	return iotago.NewEpochBasedProvider(iotago.WithAPIForMissingVersionCallback(func(p iotago.ProtocolParameters) (iotago.API, error) {
		return iotago.V3API(p), nil
	}))
}

// is34 checks that an API is that of the version with the parameters registered last.
func (m *model34) is(rt *rapid.T, what string, api iotago.API, v iotago.Version) {
	if api == nil {
		kit.Fail(rt, "%s: no API, want that of version %d", what, v)
	}
	if api.Version() != v {
		kit.Fail(rt, "%s: API of version %d, want %d (history %v)", what, api.Version(), v, m.start)
	}
	pp := api.ProtocolParameters()
	if pp.Version() != v {
		kit.Fail(rt, "%s: API of version %d has parameters of version %d", what, v, pp.Version())
	}
	if got := pp.TargetCommitteeSize(); got != m.params[v].TargetCommitteeSize() {
		kit.Fail(rt, "%s: API of version %d has the parameters of another registration (committee size %d, want %d)", what, v, got, m.params[v].TargetCommitteeSize())
	}
}

// api checks an answer for an epoch: the API of the version in force, or a refusal where there is none.
func (m *model34) api(rt *rapid.T, what string, epoch uint32, f func() iotago.API) {
	var api iotago.API
	p := kit.Panics(func() { api = f() })
	v, ok := m.inForce(epoch)
	if !ok || m.params[v] == nil {
		if p == nil {
			kit.Fail(rt, "%s: answered with the API of version %d although no API is available (in force: %d %v, history %v)", what, api.Version(), v, ok, m.start)
		}
		return
	}
	if p != nil {
		kit.Fail(rt, "%s: panics (%v), want the API of version %d", what, p, v)
	}
	m.is(rt, what, api, v)
}

func (m *model34) check(rt *rapid.T, g *kit.G, p *iotago.EpochBasedProvider) {
	// epochs around the starts and anywhere
	var epochs []uint32
	for _, s := range m.start {
		epochs = append(epochs, s, s+1)
		if s > 0 {
			epochs = append(epochs, s-1)
		}
	}
	sort.Slice(epochs, func(i, j int) bool { return epochs[i] < epochs[j] })
	epochs = append(epochs, 0, uint32(g.Int(0, 40, "epoch")))
	latest, known := m.latest()
	for _, e := range epochs {
		m.api(rt, fmt.Sprintf("APIForEpoch(%d)", e), e, func() iotago.API { return p.APIForEpoch(iotago.EpochIndex(e)) })
		if !known {
			continue // without any parameters slots and times cannot be mapped to epochs
		}
		first := m.firstSlot(e)
		last := first + 1<<m.e.EpochExp - 1
		for _, s := range []uint32{first, last} {
			m.api(rt, fmt.Sprintf("APIForSlot(%d)", s), e, func() iotago.API { return p.APIForSlot(iotago.SlotIndex(s)) })
			ts := time.Unix(m.e.GenesisUnix+int64(s-m.e.GenesisSlot-1)*int64(m.e.SlotDur), 0)
			if s > m.e.GenesisSlot {
				for _, d := range []time.Duration{0, time.Duration(m.e.SlotDur)*time.Second - 1} {
					m.api(rt, fmt.Sprintf("APIForTime(slot %d + %v)", s, d), e, func() iotago.API { return p.APIForTime(ts.Add(d)) })
				}
			}
			if v, ok := m.inForce(e); ok {
				if got := p.VersionForSlot(iotago.SlotIndex(s)); got != v {
					kit.Fail(rt, "VersionForSlot(%d) is %d, want %d (history %v)", s, got, v, m.start)
				}
			}
		}
	}
	if known && m.e.GenesisSlot > 0 {
		s := uint32(g.Int(0, int(m.e.GenesisSlot), "before"))
		m.api(rt, fmt.Sprintf("APIForSlot(%d)", s), 0, func() iotago.API { return p.APIForSlot(iotago.SlotIndex(s)) })
	}
	for v := iotago.Version(0); v < 10; v++ {
		api, err := p.APIForVersion(v)
		if m.params[v] == nil {
			if err == nil {
				kit.Fail(rt, "APIForVersion(%d) answers with the API of version %d although its parameters are not known", v, api.Version())
			}
		} else {
			kit.NoErr(rt, err, "APIForVersion(%d)", v)
			m.is(rt, fmt.Sprintf("APIForVersion(%d)", v), api, v)
		}
		ep, ok := p.EpochForVersion(v)
		if want, has := m.start[v]; ok != has || uint32(ep) != want {
			kit.Fail(rt, "EpochForVersion(%d) is %d, %v, want %d, %v", v, ep, ok, want, has)
		}
		pp := p.ProtocolParameters(v)
		if (pp == nil) != (m.params[v] == nil) || pp != nil && !pp.Equals(m.params[v]) {
			kit.Fail(rt, "ProtocolParameters(%d) are not those registered", v)
		}
		want := m.future[v]
		if m.params[v] != nil {
			want = hash34(m.params[v])
		}
		if got := p.ProtocolParametersHash(v); got != want {
			kit.Fail(rt, "ProtocolParametersHash(%d) is %x, want %x", v, got, want)
		}
	}
	if api := p.LatestAPI(); known {
		m.is(rt, "LatestAPI", api, latest)
	} else if api != nil {
		kit.Fail(rt, "LatestAPI before any parameters are known: %d", api.Version())
	}
	if v, ok := m.inForce(m.epochOf(m.committed)); known && ok && m.params[v] != nil {
		m.is(rt, fmt.Sprintf("CommittedAPI (slot %d)", m.committed), p.CommittedAPI(), v)
	} else if api := p.CommittedAPI(); api != nil && m.params[api.Version()] == nil {
		kit.Fail(rt, "CommittedAPI of version %d whose parameters are not known", api.Version())
	}
	var got, want []iotago.ProtocolEpochVersion
	got = p.ProtocolEpochVersions()
	for _, v := range m.versions() {
		want = append(want, iotago.ProtocolEpochVersion{Version: v, StartEpoch: iotago.EpochIndex(m.start[v])})
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		kit.Fail(rt, "ProtocolEpochVersions are %v, want %v", got, want)
	}
	// what was handed out stays as it was, and is the caller's
	for _, h := range m.handed {
		if fmt.Sprint(h.list) != h.was {
			kit.Fail(rt, "ProtocolEpochVersions handed out as %s have become %v with later registrations", h.was, h.list)
		}
	}
	if g.Rare(3, "overwrite") {
		for i := range got {
			got[i] = iotago.ProtocolEpochVersion{Version: 99, StartEpoch: 1}
		}
		if again := p.ProtocolEpochVersions(); fmt.Sprint(again) != fmt.Sprint(want) {
			kit.Fail(rt, "ProtocolEpochVersions are %v, want %v: the list handed out before was the provider's own", again, want)
		}
	} else {
		m.handed = append(m.handed, handed34{got, fmt.Sprint(got)})
	}
	h, err := p.VersionsAndProtocolParametersHash()
	wantH, ok := m.historyHash()
	if ok != (err == nil) || ok && h != wantH {
		kit.Fail(rt, "VersionsAndProtocolParametersHash is %x (%v), want %x (available: %v)", h, err, wantH, ok)
	}
}

// schedule34 assigns strictly increasing start epochs to some versions, the first of which starts at epoch 0.
func schedule34(g *kit.G, anyFirst bool) (vs []iotago.Version, start map[iotago.Version]uint32) {
	start = map[iotago.Version]uint32{}
	e := uint32(0)
	if anyFirst && g.Rare(4, "late") {
		e = uint32(g.Int(1, 5, "first"))
	}
	for v := iotago.Version(3); v < 9; v++ {
		if v > 3 && g.Rare(4, "skip") {
			continue
		}
		vs = append(vs, v)
		start[v] = e
		e += uint32(g.Int(1, 6, "gap"))
	}
	n := g.Int(1, len(vs), "versions")
	for _, v := range vs[n:] {
		delete(start, v)
	}
	return vs[:n], start
}

// Any order of registrations and commitments, with every kind of query after each step.
func TestC34_History(t *testing.T) {
	kit.Check(t, 1500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		vs, start := schedule34(g, true)
		m := &model34{e: g.E, params: map[iotago.Version]*iotago.V3ProtocolParameters{}, future: map[iotago.Version]iotago.Identifier{}, start: map[iotago.Version]uint32{}}
		p := provider34()
		var hist []string
		note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
		// a step in which the version in force at the committed slot has no parameters is a misconfiguration
		sound := func() bool {
			v, ok := m.inForce(m.epochOf(m.committed))
			return !ok || m.params[v] != nil
		}
		steps := g.Int(1, 12, "steps")
		for i := 0; i < steps; i++ {
			v := vs[g.Int(0, len(vs)-1, "v")]
			_, isKnown := m.start[v]
			_, anyParams := m.latest()
			undo := func() {
				if !isKnown {
					delete(m.start, v)
				}
			}
			switch op := g.Int(0, 9, "op"); {
			case op <= 1: // parameters alone
				variant := 0
				if g.Rare(3, "variant") {
					variant = g.Int(0, 3, "which")
				}
				m.params[v] = params34(g.E, v, variant)
				note("params %d/%d", v, variant)
				p.AddProtocolParameters(params34(g.E, v, variant))
			case op <= 4: // version alone
				ep := start[v]
				if isKnown {
					ep = uint32(g.Int(0, 30, "ignored")) // the first registration stands
				} else {
					m.start[v] = ep
				}
				if anyParams && !sound() {
					undo()
					continue
				}
				note("version %d@%d", v, ep)
				p.AddVersion(v, iotago.EpochIndex(ep))
			case op == 5: // future version
				if m.params[v] != nil {
					continue
				}
				if !isKnown {
					m.start[v] = start[v]
				}
				if !sound() {
					undo()
					continue
				}
				h := iotago.Identifier(g.B32("h"))
				if g.Bool("true hash") {
					h = hash34(params34(g.E, v, 0))
				}
				m.future[v] = h
				note("future %d@%d", v, start[v])
				p.AddFutureVersion(v, h, iotago.EpochIndex(start[v]))
			case op <= 7: // both
				if !isKnown {
					m.start[v] = start[v]
				}
				old := m.params[v]
				m.params[v] = params34(g.E, v, 0)
				if !sound() {
					undo()
					m.params[v] = old
					if old == nil {
						delete(m.params, v)
					}
					continue
				}
				note("both %d@%d", v, start[v])
				p.AddProtocolParametersAtEpoch(params34(g.E, v, 0), iotago.EpochIndex(start[v]))
			default: // a later commitment
				was := m.committed
				ep := m.epochOf(m.committed) + uint32(g.Int(0, 6, "ahead"))
				s := m.firstSlot(ep) + uint32(g.Int(0, 1<<g.E.EpochExp-1, "slot"))
				if g.Bool("edge") {
					s = m.firstSlot(ep)
				}
				if s < m.committed {
					continue
				}
				m.committed = s
				if anyParams && !sound() {
					m.committed = was
					continue
				}
				note("commit %d", s)
				p.SetCommittedSlot(iotago.SlotIndex(s))
			}
			m.check(rt, g, p)
		}
		if len(m.start) > 1 || len(hist) > 3 {
			c.NonTrivial(fmt.Sprint(g.E.Name, hist))
		}
		c.Label(fmt.Sprintf("%d versions", len(m.start)))
		if len(m.params) < len(m.start) {
			c.Label("parameters missing")
		}
		c.Sample(fmt.Sprint(hist))
	})
}

// A provider for a single version answers for that version only.
func TestC34_Single(t *testing.T) {
	kit.Check(t, 400, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		v := iotago.Version(g.Int(0, 255, "v"))
		api := iotago.V3API(params34(g.E, v, 0))
		p := iotago.SingleVersionProvider(api)
		w := iotago.Version(g.Int(0, 255, "w"))
		if g.Bool("same") {
			w = v
		}
		got, err := p.APIForVersion(w)
		if (err == nil) != (v == w) {
			kit.Fail(rt, "a provider for version %d answers for version %d with error %v", v, w, err)
		}
		if v == w && got != api {
			kit.Fail(rt, "a single version provider answers with another API")
		}
		slot := iotago.SlotIndex(g.U32("s"))
		for i, a := range []iotago.API{p.APIForSlot(slot), p.APIForEpoch(iotago.EpochIndex(g.U32("e"))), p.APIForTime(time.Unix(int64(g.U32("t")), 0)), p.LatestAPI(), p.CommittedAPI()} {
			if a != api {
				kit.Fail(rt, "query %d of a single version provider answers with another API", i)
			}
		}
		c.NonTrivial(v, w)
		c.Sample(fmt.Sprintf("version %d asked for %d: %v", v, w, err))
	})
}

// The history of versions by itself.
func TestC34_Versions(t *testing.T) {
	kit.Check(t, 600, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		vs, start := schedule34(g, true)
		p := iotago.NewProtocolEpochVersions()
		known := map[iotago.Version]uint32{}
		var hist []string
		for i, n := 0, g.Int(1, 8, "steps"); i < n; i++ {
			v := vs[g.Int(0, len(vs)-1, "v")]
			at := start[v]
			if _, has := known[v]; has {
				at += uint32(g.Int(0, 3, "again")) // the start of a known version stays
			} else {
				known[v] = at
			}
			p.Add(v, iotago.EpochIndex(at))
			hist = append(hist, fmt.Sprint(v, "@", at))
			var want []byte
			var list []iotago.ProtocolEpochVersion
			for v := 0; v < 256; v++ {
				e, has := known[iotago.Version(v)]
				if got, ok := p.EpochForVersion(iotago.Version(v)); ok != has || uint32(got) != e {
					kit.Fail(rt, "after %v: version %d starts at %d, %v", hist, v, got, ok)
				}
				if has {
					want = append(want, byte(v), byte(e), byte(e>>8), byte(e>>16), byte(e>>24))
					list = append(list, iotago.ProtocolEpochVersion{Version: iotago.Version(v), StartEpoch: iotago.EpochIndex(e)})
				}
			}
			if got := p.Bytes(); !bytes.Equal(got, want) {
				kit.Fail(rt, "after %v: the bytes of the history are %x, want %x", hist, got, want)
			}
			got := p.Slice()
			if !reflect.DeepEqual(got, list) {
				kit.Fail(rt, "after %v: the history lists %v", hist, got)
			}
			got[0] = iotago.ProtocolEpochVersion{Version: 200, StartEpoch: 0}
			for _, e := range []uint32{0, 1, 2, 3, 5, 8, 13, uint32(g.Int(0, 40, "e")), ^uint32(0)} {
				force, ok := iotago.Version(0), false
				for v, s := range known {
					if s <= e && (!ok || s > known[force]) {
						force, ok = v, true
					}
				}
				var got iotago.Version
				if p := kit.Panics(func() { got = p.VersionForEpoch(iotago.EpochIndex(e)) }); (p == nil) != ok || got != force {
					kit.Fail(rt, "after %v: version %d in force in epoch %d, want %d (%v)", hist, got, e, force, p)
				}
			}
		}
		c.NonTrivial(fmt.Sprint(hist))
		c.Sample(fmt.Sprint(hist))
	})
}

// Readers beside a writer: answers belong to some point of the history between the start and the end of the query,
// and never go back. The race detector watches.
func TestC34_Concurrent(t *testing.T) {
	kit.Check(t, 250, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.GenEnv(rt)}
		vs, start := schedule34(g, false)
		p := provider34()
		m := &model34{e: g.E, params: map[iotago.Version]*iotago.V3ProtocolParameters{}, future: map[iotago.Version]iotago.Identifier{}, start: map[iotago.Version]uint32{}}
		// hashes[i] is the history hash after i+1 versions
		var hashes []iotago.Identifier
		fresh := map[iotago.Version]*iotago.V3ProtocolParameters{}
		for _, v := range vs {
			m.start[v], m.params[v] = start[v], params34(g.E, v, 0)
			h, ok := m.historyHash()
			if !ok {
				kit.Harness(rt, "no hash")
			}
			hashes = append(hashes, h)
			fresh[v] = spec34(g.E, v, 0).Params()
		}
		p.AddProtocolParametersAtEpoch(fresh[vs[0]], 0)
		maxEpoch := start[vs[len(vs)-1]] + 2
		split := g.Bool("split")
		commitEach := g.Bool("commit")
		readers := g.Int(2, 4, "readers")
		seeds := make([]uint64, readers)
		for i := range seeds {
			seeds[i] = g.U64("seed")
		}
		var mu sync.Mutex
		var bad []string
		fail := func(f string, a ...any) {
			mu.Lock()
			defer mu.Unlock()
			bad = append(bad, fmt.Sprintf(f, a...))
		}
		var wg sync.WaitGroup
		done := make(chan struct{})
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					fail("the writer panics: %v", r)
				}
			}()
			for i, v := range vs {
				if i > 0 {
					if split {
						p.AddProtocolParameters(fresh[v])
						p.AddVersion(v, iotago.EpochIndex(start[v]))
					} else {
						p.AddProtocolParametersAtEpoch(fresh[v], iotago.EpochIndex(start[v]))
					}
				}
				if commitEach {
					p.SetCommittedSlot(iotago.SlotIndex(m.firstSlot(start[v]) + 1))
				}
				time.Sleep(20 * time.Microsecond)
			}
			p.SetCommittedSlot(iotago.SlotIndex(m.firstSlot(maxEpoch)))
		}()
		index := func(v iotago.Version) int {
			for i, w := range vs {
				if v == w {
					return i
				}
			}
			return -1
		}
		// want: the index of the version in force at an epoch when the first n versions are registered
		want := func(epoch uint32, n int) int {
			r := 0
			for i := 0; i < n; i++ {
				if start[vs[i]] <= epoch {
					r = i
				}
			}
			return r
		}
		asked := make([]int, readers)
		for r := 0; r < readers; r++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						fail("a reader panics: %v", x)
					}
				}()
				rnd := kit.Expand(seeds[r], 600)
				seen := 1 // versions known to be registered
				minLatest, minCommitted := 0, 0
				for k := 0; k+2 < len(rnd); k += 3 {
					ep := uint32(rnd[k]) % (maxEpoch + 1)
					asked[r]++
					check := func(what string, v iotago.Version) {
						i := index(v)
						lo, hi := want(ep, seen), want(ep, len(vs))
						if i < lo || i > hi {
							fail("%s for epoch %d answers version %d, want between %d and %d", what, ep, v, vs[lo], vs[hi])
						}
						// versions are registered in order
						if i+1 > seen {
							seen = i + 1
						}
					}
					switch rnd[k+1] % 9 {
					case 0:
						a := p.APIForEpoch(iotago.EpochIndex(ep))
						check("APIForEpoch", a.Version())
						if a.ProtocolParameters().Version() != a.Version() {
							fail("API of version %d has parameters of version %d", a.Version(), a.ProtocolParameters().Version())
						}
					case 1:
						check("APIForSlot", p.APIForSlot(iotago.SlotIndex(m.firstSlot(ep)+1)).Version())
					case 2:
						ts := g.E.GenesisUnix + int64(ep)<<g.E.EpochExp*int64(g.E.SlotDur)
						check("APIForTime", p.APIForTime(time.Unix(ts, 0)).Version())
					case 3:
						check("VersionForSlot", p.VersionForSlot(iotago.SlotIndex(m.firstSlot(ep))))
					case 4:
						i := index(p.LatestAPI().Version())
						if i < minLatest || i+1 < seen {
							fail("LatestAPI went back to version %d", vs[i])
						}
						minLatest = i
					case 5:
						a := p.CommittedAPI()
						i := index(a.Version())
						if i < minCommitted {
							fail("CommittedAPI went back to version %d", a.Version())
						}
						minCommitted = i
					case 6:
						h, err := p.VersionsAndProtocolParametersHash()
						if err != nil {
							fail("VersionsAndProtocolParametersHash: %v", err)
							continue
						}
						at := -1
						for i := range hashes {
							if hashes[i] == h {
								at = i
							}
						}
						if at < 0 || at+1 < seen {
							fail("the history hash is that of %d versions after %d were seen", at+1, seen)
						} else {
							seen = at + 1
						}
					case 7:
						l := p.ProtocolEpochVersions()
						if len(l) < seen || len(l) > len(vs) {
							fail("%d versions are listed after %d were seen", len(l), seen)
							continue
						}
						for i, x := range l {
							if x.Version != vs[i] || uint32(x.StartEpoch) != start[vs[i]] {
								fail("the list of versions is %v", l)
							}
						}
						seen = len(l)
					case 8:
						v := vs[int(rnd[k+2])%len(vs)]
						a, err := p.APIForVersion(v)
						if err == nil && a.Version() != v {
							fail("APIForVersion(%d) answers with version %d", v, a.Version())
						}
						if err != nil && index(v) < seen {
							fail("APIForVersion(%d) fails after the version was seen: %v", v, err)
						}
						if ph := p.ProtocolParametersHash(v); ph != (iotago.Identifier{}) {
							if w := hash34(params34(g.E, v, 0)); !bytes.Equal(ph[:], w[:]) {
								fail("ProtocolParametersHash(%d) is %x", v, ph)
							}
						}
						if e, ok := p.EpochForVersion(v); ok && uint32(e) != start[v] {
							fail("EpochForVersion(%d) is %d", v, e)
						}
					}
				}
			}()
		}
		wg.Wait()
		if len(bad) > 0 {
			kit.Fail(rt, "versions %v starting at %v: %s", vs, start, bad[0])
		}
		m.committed = m.firstSlot(maxEpoch)
		m.check(rt, g, p)
		if len(vs) > 1 {
			c.NonTrivial(fmt.Sprint(g.E.Name, vs, start, split, commitEach, seeds))
		}
		c.Label(fmt.Sprintf("%d versions, %d readers", len(vs), readers))
		c.Sample(fmt.Sprintf("%d readers beside registrations of %v at %v", readers, vs, start))
	})
}
