package t_infra

import (
	"context"
	"encoding/binary"
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/iotaledger/iota.go/v4/blockissuer/pow"
	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// zeros38 counts the zero bits at the end of BLAKE2b-256(msg || nonce), its last eight bytes read as a little-endian number.
func zeros38(msg []byte, nonce uint64) int {
	h := blake2b.Sum256(binary.LittleEndian.AppendUint64(append([]byte{}, msg...), nonce))
	for i := 0; i < 64; i++ {
		if h[24+i/8]>>(i%8)&1 == 1 {
			return i
		}
	}
	return 64
}

var hung38 atomic.Uint32

// mine38 mines with a watchdog.
func mine38(rt *rapid.T, ctx context.Context, workers []int, data []byte, target int, limit time.Duration) (nonce uint64, err error) {
	type res struct {
		nonce uint64
		err   error
		p     any
	}
	ch := make(chan res, 1)
	go func() {
		var r res
		r.p = kit.Panics(func() { r.nonce, r.err = pow.New(workers...).Mine(ctx, data, target) })
		ch <- r
	}()
	select {
	case r := <-ch:
		if r.p != nil {
			kit.Fail(rt, "mining %x for %d zeros with workers %v panics: %v", data, target, workers, r.p)
		}
		return r.nonce, r.err
	case <-time.After(limit >> hung38.Load()):
		hung38.Store(5) // do not wait as long while shrinking
		kit.Fail(rt, "mining %x for %d zeros with workers %v did not end within %v", data, target, workers, limit)
	}
	return
}

func workers38(g *kit.G) (w []int, n int) {
	switch g.Int(0, 5, "workers?") {
	case 0:
		return nil, 1
	case 1:
		return []int{g.Int(-3, 0, "none")}, 1
	case 2:
		n = g.Int(9, 64, "many")
	default:
		n = g.Int(1, 8, "workers")
	}
	return []int{n}, n
}

// A nonce that is returned meets the target.
func TestC38_Mine(t *testing.T) {
	kit.Check(t, 1500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		data := g.Var(0, 300, "data")
		ws, n := workers38(g)
		top := 10
		if kit.Thorough() {
			top = 14
		}
		target := g.Int(0, top, "target")
		if g.Rare(10, "negative") {
			target = g.Int(-2, 0, "below")
		}
		ctx := context.Background()
		before := append([]byte{}, data...)
		nonce, err := mine38(rt, ctx, ws, data, target, 60*time.Second)
		kit.NoErr(rt, err, "mining %x for %d zeros with workers %v", data, target, ws)
		d := blake2b.Sum256(before)
		if z := zeros38(d[:], nonce); z < target {
			kit.Fail(rt, "the nonce %d mined for %x with workers %v has %d zeros, want at least %d", nonce, before, ws, z, target)
		}
		if string(before) != string(data) {
			kit.Fail(rt, "mining changed the data")
		}
		if target > 0 {
			c.NonTrivial(data, target, n)
		}
		c.Label(fmt.Sprintf("target %d", target))
		c.Sample(fmt.Sprintf("%d bytes, target %d, %d workers: nonce %d has %d zeros", len(data), target, n, nonce, zeros38(d[:], nonce)))
	})
}

// One worker serves several callers at the same time: each gets a nonce for its own message.
func TestC38_Shared(t *testing.T) {
	kit.Check(t, 300, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		ws, n := workers38(g)
		w := pow.New(ws...)
		k := g.Int(2, 6, "callers")
		data := make([][]byte, k)
		targets := make([]int, k)
		for i := range data {
			data[i] = append([]byte{byte(i)}, g.Var(0, 60, "data")...)
			targets[i] = g.Int(4, 10, "target")
		}
		type res struct {
			i     int
			nonce uint64
			err   error
			p     any
		}
		ch := make(chan res, k)
		for i := range data {
			go func() {
				r := res{i: i}
				r.p = kit.Panics(func() { r.nonce, r.err = w.Mine(context.Background(), data[i], targets[i]) })
				ch <- r
			}()
		}
		bad := ""
		for range data {
			select {
			case r := <-ch:
				d := blake2b.Sum256(data[r.i])
				switch {
				case r.p != nil:
					bad = fmt.Sprintf("panics: %v", r.p)
				case r.err != nil:
					bad = fmt.Sprintf("fails: %v", r.err)
				case zeros38(d[:], r.nonce) < targets[r.i]:
					bad = fmt.Sprintf("returns the nonce %d with %d zeros", r.nonce, zeros38(d[:], r.nonce))
				default:
					continue
				}
				bad = fmt.Sprintf("mining %x for %d zeros %s", data[r.i], targets[r.i], bad)
			case <-time.After(60 * time.Second >> hung38.Load()):
				hung38.Store(5)
				kit.Fail(rt, "%d callers of one worker (%v): mining does not end", k, ws)
			}
		}
		if bad != "" {
			kit.Fail(rt, "%d callers of one worker (%v): %s", k, ws, bad)
		}
		c.NonTrivial(n, fmt.Sprintf("%x", data), fmt.Sprint(targets))
		c.Label(fmt.Sprintf("%d callers", k))
		c.Sample(fmt.Sprintf("one worker of %d routines, %d callers with targets %v: every nonce meets its own target", n, k, targets))
	})
}

// TrailingZeros against the count over the hash, on messages of any length and any nonce.
func TestC38_TrailingZeros(t *testing.T) {
	kit.Check(t, 20000, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		msg := g.Var(0, 200, "msg")
		nonce := g.U64("nonce")
		if got, want := pow.TrailingZeros(msg, nonce), zeros38(msg, nonce); got != want {
			kit.Fail(rt, "TrailingZeros(%x, %d) is %d, want %d", msg, nonce, got, want)
		}
		// and one with many zeros
		for i := uint64(0); i < 64; i++ {
			if z := zeros38(msg, nonce+i); z >= 5 {
				if got := pow.TrailingZeros(msg, nonce+i); got != z {
					kit.Fail(rt, "TrailingZeros(%x, %d) is %d, want %d", msg, nonce+i, got, z)
				}
				c.NonTrivial(msg, nonce+i)
				break
			}
		}
	})
}

// Cancelled mining ends soon, with an error or with a nonce that meets the target; impossible targets end with an error.
func TestC38_Cancel(t *testing.T) {
	kit.Check(t, 500, func(rt *rapid.T, c *kit.Case) {
		g := &kit.G{T: rt, E: kit.Envs()[0]}
		data := g.Var(0, 100, "data")
		ws, n := workers38(g)
		var target int
		switch g.Int(0, 3, "target?") {
		case 0:
			target = g.Int(0, 14, "reachable")
		case 1:
			target = g.Int(15, 30, "hard")
		case 2:
			target = g.Int(48, 64, "out of reach")
		default:
			target = g.Int(65, 300, "impossible")
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		how := "in the middle"
		switch g.Int(0, 2, "when") {
		case 0:
			how = "before"
			cancel()
		case 1:
			d := time.Duration(g.Int(0, 3000, "us")) * time.Microsecond
			go func() { time.Sleep(d); cancel() }()
		default:
			how = "deadline"
			var c2 context.CancelFunc
			ctx, c2 = context.WithTimeout(ctx, time.Duration(g.Int(0, 3000, "us"))*time.Microsecond)
			defer c2()
		}
		nonce, err := mine38(rt, ctx, ws, data, target, 60*time.Second)
		if err == nil {
			d := blake2b.Sum256(data)
			if z := zeros38(d[:], nonce); z < target {
				kit.Fail(rt, "cancelled mining of %x with workers %v returned the nonce %d with %d zeros, want at least %d", data, ws, nonce, z, target)
			}
			c.Label("found before it was cancelled")
		} else {
			c.Label("cancelled " + how)
		}
		c.NonTrivial(data, target, n, how)
		c.Sample(fmt.Sprintf("target %d, %d workers, cancelled %s: %v", target, n, how, err))
	})
}
