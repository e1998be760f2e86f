package t_econ

import (
	"fmt"
	"math"
	"testing"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

func TestC14(t *testing.T) {
	kit.Check(t, 60000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt}
		gs := g.U32("genesis slot")
		if gs > math.MaxUint32-1000 {
			gs -= 1 << 20
		}
		gu := int64(g.U64Max(4000000000, "genesis time"))
		dur := int64(g.Int(1, 255, "slot duration"))
		exp := uint8(g.Int(0, 31, "epoch exponent"))
		tp := iotago.NewTimeProvider(iotago.SlotIndex(gs), gu, dur, exp)
		name := fmt.Sprintf("genesis slot %d at %d, %d s slots, 2^%d slots per epoch", gs, gu, dur, exp)
		size := uint64(1) << exp
		if tp.GenesisSlot() != iotago.SlotIndex(gs) || tp.GenesisUnixTime() != gu || !tp.GenesisTime().Equal(time.Unix(gu, 0)) || tp.SlotDurationSeconds() != dur || uint64(tp.EpochDurationSlots()) != size || tp.EpochDurationSeconds() != int64(size)*dur || tp.SlotsPerEpochExponent() != exp {
			kit.Fail(rt, "accessors disagree with %s", name)
		}
		// a slot
		room := uint64(math.MaxUint32 - gs)
		maxK := min(room, uint64((9000000000-gu)/dur))
		var k uint64 // slots above genesis
		switch g.Int(0, 3, "k?") {
		case 0:
			k = g.U64Max(maxK, "k")
		case 1:
			k = g.U64Max(min(5, maxK), "k")
		default: // around an epoch boundary
			e := g.U64Max(room>>exp, "e")
			k = min(maxK, max(1, e*size)+uint64(g.Int(0, 2, "kd"))-1)
		}
		slot := iotago.SlotIndex(gs + uint32(k))
		start, end := tp.SlotStartTime(slot), tp.SlotEndTime(slot)
		if k == 0 {
			before := time.Unix(gu, 0).Add(-1)
			if !start.Equal(before) || !end.Equal(before) {
				kit.Fail(rt, "genesis slot spans %v-%v (%s)", start, end, name)
			}
			if tp.SlotFromTime(before) != slot || gu > 0 && tp.SlotFromTime(time.Unix(gu-1-g64(g, gu-1), 0)) != slot {
				kit.Fail(rt, "times before genesis are not in the genesis slot (%s)", name)
			}
		} else {
			s := time.Unix(gu+int64(k-1)*dur, 0)
			if !start.Equal(s) || !end.Equal(s.Add(time.Duration(dur)*time.Second-1)) {
				kit.Fail(rt, "slot %d spans %v-%v, specified to start at %v (%s)", slot, start, end, s, name)
			}
			if x := tp.SlotFromTime(start); x != slot {
				kit.Fail(rt, "start of slot %d is in slot %d (%s)", slot, x, name)
			}
			if x := tp.SlotFromTime(end); x != slot {
				kit.Fail(rt, "end of slot %d is in slot %d (%s)", slot, x, name)
			}
			if x := tp.SlotFromTime(start.Add(-1)); x != slot-1 {
				kit.Fail(rt, "the nanosecond before slot %d is in slot %d (%s)", slot, x, name)
			}
			if k < room {
				if x := tp.SlotFromTime(end.Add(1)); x != slot+1 {
					kit.Fail(rt, "the nanosecond after slot %d is in slot %d (%s)", slot, x, name)
				}
				if !tp.SlotStartTime(slot + 1).Equal(end.Add(1)) {
					kit.Fail(rt, "slots %d and %d are not contiguous (%s)", slot, slot+1, name)
				}
			}
			off := time.Duration(g.U64Max(uint64(dur)*1e9-1, "off"))
			at := start.Add(off)
			if g.Bool("zone") {
				at = at.In(time.FixedZone("z", g.Int(-40000, 40000, "zone")))
			}
			if x := tp.SlotFromTime(at); x != slot {
				kit.Fail(rt, "%v within slot %d is in slot %d (%s)", at, slot, x, name)
			}
		}
		// slots before the genesis slot
		if gs > 0 && g.Rare(4, "below") {
			b := iotago.SlotIndex(g.U64Max(uint64(gs)-1, "bs"))
			if tp.EpochFromSlot(b) != 0 || !tp.SlotStartTime(b).Equal(time.Unix(gu, 0).Add(-1)) || !tp.SlotEndTime(b).Equal(time.Unix(gu, 0).Add(-1)) || tp.SlotsBeforeNextEpoch(b) != 0 || tp.SlotsSinceEpochStart(b) != 0 {
				kit.Fail(rt, "slot %d before genesis is not treated as genesis (%s)", b, name)
			}
		}
		// epochs
		e := tp.EpochFromSlot(slot)
		if uint64(e) != k>>exp {
			kit.Fail(rt, "slot %d is in epoch %d, specified %d (%s)", slot, e, k>>exp, name)
		}
		es := uint64(gs) + (k>>exp)*size
		if uint64(tp.EpochStart(e)) != es {
			kit.Fail(rt, "epoch %d starts at %d, specified %d (%s)", e, tp.EpochStart(e), es, name)
		}
		if es+size-1 <= math.MaxUint32 {
			if uint64(tp.EpochEnd(e)) != es+size-1 {
				kit.Fail(rt, "epoch %d ends at %d, specified %d (%s)", e, tp.EpochEnd(e), es+size-1, name)
			}
			if tp.EpochFromSlot(tp.EpochStart(e)) != e || tp.EpochFromSlot(tp.EpochEnd(e)) != e || slot < tp.EpochStart(e) || slot > tp.EpochEnd(e) {
				kit.Fail(rt, "slot %d, epoch %d: %d-%d (%s)", slot, e, tp.EpochStart(e), tp.EpochEnd(e), name)
			}
			if es+2*size <= math.MaxUint32 && (tp.EpochStart(e+1) != tp.EpochEnd(e)+1 || tp.EpochFromSlot(tp.EpochEnd(e)+1) != e+1) {
				kit.Fail(rt, "epochs %d and %d are not contiguous (%s)", e, e+1, name)
			}
			// distances to the epoch's bounds; with a genesis slot above 0 they are off by that slot (listed finding)
			before, since := uint32(es+size-uint64(slot)), uint32(uint64(slot)-es)
			for _, d := range []struct {
				name      string
				got, want uint32
			}{{"SlotsBeforeNextEpoch", uint32(tp.SlotsBeforeNextEpoch(slot)), before}, {"SlotsSinceEpochStart", uint32(tp.SlotsSinceEpochStart(slot)), since}} {
				if d.got == d.want {
					continue
				}
				if d.got == d.want+gs && kit.IsKnown("C14", "genesis-slot-distances") {
					kit.Reproduced("genesis-slot-distances")
					continue
				}
				kit.Fail(rt, "%s(%d) = %d, specified %d (%s)", d.name, slot, d.got, d.want, name)
			}
		}
		c.Label(fmt.Sprintf("epoch exponent %d", exp/8*8))
		c.NonTrivial(fmt.Sprint(gs, gu, dur, exp, k))
		c.Sample("%s: slot %d = %v..%v in epoch %d", name, slot, start.UTC(), end.UTC(), e)
	})
}

func g64(g *kit.G, max int64) int64 { return int64(g.U64Max(uint64(max), "ago")) }

// C14: the clock-based accessors agree with the conversions.
func TestC14_Now(t *testing.T) {
	kit.Check(t, 500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt}
		gu := time.Now().Unix() - int64(g.Int(0, 1000000, "ago"))
		tp := iotago.NewTimeProvider(iotago.SlotIndex(g.Int(0, 1000, "gs")), gu, int64(g.Int(1, 255, "dur")), uint8(g.Int(0, 13, "exp")))
		a := tp.SlotFromTime(time.Now())
		s := tp.CurrentSlot()
		b := tp.SlotFromTime(time.Now())
		if s < a || s > b {
			kit.Fail(rt, "current slot %d outside %d..%d", s, a, b)
		}
		e1 := tp.EpochFromSlot(tp.SlotFromTime(time.Now()))
		e := tp.CurrentEpoch()
		if e < e1 || e > tp.EpochFromSlot(tp.SlotFromTime(time.Now())) {
			kit.Fail(rt, "current epoch %d", e)
		}
		c.NonTrivial(fmt.Sprint(gu, s))
	})
}
