package t_infra

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	mqtt "github.com/eclipse/paho.mqtt.golang"
	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/nodeclient"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

// bus42 stands in for the connection to the broker and records what it is asked.
type bus42 struct {
	mqtt.Client
	up    bool
	fail  error // of the next request
	log   []string
	route map[string]mqtt.MessageHandler
}

type tok42 struct{ err error }

func (t tok42) Wait() bool                     { return true }
func (t tok42) WaitTimeout(time.Duration) bool { return true }
func (t tok42) Done() <-chan struct{}          { c := make(chan struct{}); close(c); return c }
func (t tok42) Error() error                   { return t.err }

type msg42 struct {
	mqtt.Message
	topic   string
	payload []byte
}

func (m msg42) Topic() string     { return m.topic }
func (m msg42) Payload() []byte   { return m.payload }
func (m msg42) Duplicate() bool   { return false }
func (m msg42) Qos() byte         { return 2 }
func (m msg42) Retained() bool    { return false }
func (m msg42) MessageID() uint16 { return 1 }
func (m msg42) Ack()              {}

func (b *bus42) say(f string, a ...any) mqtt.Token {
	b.log = append(b.log, fmt.Sprintf(f, a...))
	err := b.fail
	b.fail = nil

	return tok42{err}
}

func (b *bus42) IsConnected() bool      { return b.up }
func (b *bus42) IsConnectionOpen() bool { return b.up }
func (b *bus42) Connect() mqtt.Token {
	t := b.say("connect")
	b.up = t.Error() == nil

	return t
}
func (b *bus42) Disconnect(uint) { b.say("disconnect"); b.up = false }
func (b *bus42) Subscribe(topic string, qos byte, h mqtt.MessageHandler) mqtt.Token {
	t := b.say("subscribe %s %d", topic, qos)
	if t.Error() == nil {
		b.route[topic] = h
	}

	return t
}
func (b *bus42) Unsubscribe(topics ...string) mqtt.Token {
	t := b.say("unsubscribe %s", strings.Join(topics, ","))
	if t.Error() == nil {
		for _, x := range topics {
			delete(b.route, x)
		}
	}

	return t
}

// reg42 is one kind of registration: its topic, how to register, and the objects it carries.
type reg42 struct {
	topic   string
	open    func(e *nodeclient.EventAPIClient) (recv func(time.Duration) (any, bool), none bool, s *nodeclient.EventAPIClientSubscription)
	payload func() []byte
	decode  func(b []byte) (any, error)
	encode  func(v any) []byte
}

func open42[T any](f func(e *nodeclient.EventAPIClient) (<-chan T, *nodeclient.EventAPIClientSubscription)) func(e *nodeclient.EventAPIClient) (func(time.Duration) (any, bool), bool, *nodeclient.EventAPIClientSubscription) {
	return func(e *nodeclient.EventAPIClient) (func(time.Duration) (any, bool), bool, *nodeclient.EventAPIClientSubscription) {
		ch, s := f(e)

		return func(d time.Duration) (any, bool) {
			if d == 0 {
				select {
				case v := <-ch:
					return v, true
				default:
					return nil, false
				}
			}
			select {
			case v := <-ch:
				return v, true
			case <-time.After(d):
				return nil, false
			}
		}, ch == nil, s
	}
}

func dec42[T any](a iotago.API) func(b []byte) (any, error) {
	return func(b []byte) (any, error) {
		v := new(T)
		n, err := a.Decode(b, v, serix.WithValidation())
		if err == nil && n != len(b) {
			err = fmt.Errorf("%d bytes left", len(b)-n)
		}

		return v, err
	}
}

// draw42 draws a registration.
func draw42(g gen39, cl *cl39) reg42 {
	type client = nodeclient.EventAPIClient
	type sub = nodeclient.EventAPIClientSubscription
	a := g.E.API()
	hrp := a.ProtocolParameters().Bech32HRP()
	enc := func(v any) []byte {
		b, err := a.Encode(v)
		kit.NoErr(g.T, err, "encode")

		return b
	}
	fill := func(v any) []byte {
		g.Fill(reflect.ValueOf(v).Elem(), "meta")

		return enc(v)
	}
	blocks := func(topic string, f func(e *client) (<-chan *iotago.Block, *sub)) reg42 {
		return reg42{topic, open42(f), func() []byte { return kit.EncBlock(g.Block()) }, func(b []byte) (any, error) {
			v, n, err := iotago.BlockFromBytes(cl.Client)(b)
			if err == nil && n != len(b) {
				err = fmt.Errorf("%d bytes left", len(b)-n)
			}

			return v, err
		}, enc}
	}
	commitments := func(topic string, f func(e *client) (<-chan *iotago.Commitment, *sub)) reg42 {
		return reg42{topic, open42(f), func() []byte { return kit.EncCommitment(g.Commitment()) }, dec42[iotago.Commitment](a), enc}
	}
	blockMeta := func(topic string, f func(e *client) (<-chan *api.BlockMetadataResponse, *sub)) reg42 {
		return reg42{topic, open42(f), func() []byte { return fill(new(api.BlockMetadataResponse)) }, dec42[api.BlockMetadataResponse](a), enc}
	}
	outputs := func(topic string, f func(e *client) (<-chan *api.OutputWithMetadataResponse, *sub)) reg42 {
		return reg42{topic, open42(f), func() []byte {
			o := g.output()

			return kit.Cat(kit.EncOutput(o.out), o.proof, fill(new(api.OutputMetadata)))
		}, dec42[api.OutputWithMetadataResponse](a), enc}
	}
	tag := g.Bytes(g.Int(1, 64, "tagLen"), "tag")
	bid, txid, oid := g.BlockID("bid"), g.TxID("txid"), g.OutputID("oid")
	acc := g.Addr(kit.KAcc, "acc").(*iotago.AccountAddress)
	anc := g.Addr(kit.KAnc, "anc").(*iotago.AnchorAddress)
	nft := g.Addr(kit.KNFT, "nft").(*iotago.NFTAddress)
	bech := func(a iotago.Address) string { return a.Bech32(hrp) }
	switch g.Int(0, 23, "reg") {
	case 0:
		return commitments("commitments/latest/raw", (*client).CommitmentsLatest)
	case 1:
		return commitments("commitments/finalized/raw", (*client).CommitmentsFinalized)
	case 2:
		return blocks("blocks/raw", (*client).Blocks)
	case 3:
		return blocks("blocks/validation/raw", (*client).BlocksValidation)
	case 4:
		return blocks("blocks/basic/raw", (*client).BlocksBasic)
	case 5:
		return blocks("blocks/basic/tagged-data/raw", (*client).BlocksBasicWithTaggedData)
	case 6:
		return blocks("blocks/basic/tagged-data/"+hx(tag)+"/raw", func(e *client) (<-chan *iotago.Block, *sub) { return e.BlocksBasicWithTaggedDataByTag(tag) })
	case 7:
		return blocks("blocks/basic/transaction/raw", (*client).BlocksBasicWithTransactions)
	case 8:
		return blocks("blocks/basic/transaction/tagged-data/raw", (*client).BlocksBasicWithTransactionsWithTaggedData)
	case 9:
		return blocks("blocks/basic/transaction/tagged-data/"+hx(tag)+"/raw", func(e *client) (<-chan *iotago.Block, *sub) {
			return e.BlocksBasicWithTransactionsWithTaggedDataByTag(tag)
		})
	case 10:
		return blockMeta("transactions/"+hx(txid[:])+"/included-block-metadata/raw", func(e *client) (<-chan *api.BlockMetadataResponse, *sub) {
			return e.BlockMetadataTransactionIncludedBlocksByTransactionID(txid)
		})
	case 11:
		return reg42{"transaction-metadata/" + hx(txid[:]) + "/raw", open42(func(e *client) (<-chan *api.TransactionMetadataResponse, *sub) {
			return e.TransactionMetadataByTransactionID(txid)
		}), func() []byte { return fill(new(api.TransactionMetadataResponse)) }, dec42[api.TransactionMetadataResponse](a), enc}
	case 12:
		return blockMeta("block-metadata/"+hx(bid[:])+"/raw", func(e *client) (<-chan *api.BlockMetadataResponse, *sub) { return e.BlockMetadataByBlockID(bid) })
	case 13:
		return blockMeta("block-metadata/accepted/raw", (*client).BlockMetadataAcceptedBlocks)
	case 14:
		return blockMeta("block-metadata/confirmed/raw", (*client).BlockMetadataConfirmedBlocks)
	case 15:
		return outputs("outputs/"+hx(oid[:])+"/raw", func(e *client) (<-chan *api.OutputWithMetadataResponse, *sub) {
			return e.OutputWithMetadataByOutputID(oid)
		})
	case 16:
		return outputs("outputs/account/"+bech(acc)+"/raw", func(e *client) (<-chan *api.OutputWithMetadataResponse, *sub) {
			return e.OutputsWithMetadataByAccountID(iotago.AccountID(*acc))
		})
	case 17:
		return outputs("outputs/anchor/"+bech(anc)+"/raw", func(e *client) (<-chan *api.OutputWithMetadataResponse, *sub) {
			return e.OutputsWithMetadataByAnchorID(iotago.AnchorID(*anc))
		})
	case 18:
		var f iotago.FoundryID
		copy(f[:], g.Bytes(len(f), "fid"))

		return outputs("outputs/foundry/"+hx(f[:])+"/raw", func(e *client) (<-chan *api.OutputWithMetadataResponse, *sub) {
			return e.OutputsWithMetadataByFoundryID(f)
		})
	case 19:
		return outputs("outputs/nft/"+bech(nft)+"/raw", func(e *client) (<-chan *api.OutputWithMetadataResponse, *sub) {
			return e.OutputsWithMetadataByNFTID(iotago.NFTID(*nft))
		})
	case 20:
		var d iotago.DelegationID
		copy(d[:], g.Bytes(len(d), "did"))

		return outputs("outputs/delegation/"+hx(d[:])+"/raw", func(e *client) (<-chan *api.OutputWithMetadataResponse, *sub) {
			return e.OutputsWithMetadataByDelegationID(d)
		})
	}
	cond := rapid.SampledFrom([]string{"+", "address", "storage-return", "expiration", "state-controller", "governor", "immutable-account"}).Draw(g.T, "cond")
	addr := g.Addr(kit.KPlain, "addr")
	consts := map[string]api.EventAPIUnlockCondition{"+": api.EventAPIUnlockConditionAny, "address": api.EventAPIUnlockConditionAddress, "storage-return": api.EventAPIUnlockConditionStorageReturn, "expiration": api.EventAPIUnlockConditionExpiration, "state-controller": api.EventAPIUnlockConditionStateController, "governor": api.EventAPIUnlockConditionGovernor, "immutable-account": api.EventAPIUnlockConditionImmutableAccount}

	return outputs("outputs/unlock/"+cond+"/"+bech(addr)+"/raw", func(e *client) (<-chan *api.OutputWithMetadataResponse, *sub) {
		return e.OutputsWithMetadataByUnlockConditionAndAddress(consts[cond], addr)
	})
}

const hang42 = 60 * time.Second

// open registration of the model
type live42 struct {
	reg42
	recv func(time.Duration) (any, bool)
	sub  *nodeclient.EventAPIClientSubscription
}

// event that was received
type kept42 struct {
	l    *live42
	got  any
	want []byte
	step int
}

// TestC42 runs histories of registrations, events and failures over a recorded broker connection.
func TestC42(t *testing.T) {
	kit.Check(t, 1200, func(rt *rapid.T, c *kit.Case) {
		g := gen39{&kit.G{T: rt, E: kit.GenEnv(rt)}}
		cl := client39(rt, g.G)
		bus := &bus42{route: map[string]mqtt.MessageHandler{}}
		keep := g.Int(0, 3, "errCap")
		e := &nodeclient.EventAPIClient{Client: cl.Client, MQTTClient: bus, Errors: make(chan error, keep)}
		all, end := context.WithCancel(context.Background())
		defer end()
		ctx, cancel := context.WithCancel(all)
		defer func() { cancel() }()
		var did []string
		fail := func(f string, a ...any) { kit.Fail(rt, "after %v: %s", did, fmt.Sprintf(f, a...)) }
		boom := errors.New("boom")
		logged := func(want ...string) {
			if fmt.Sprint(bus.log) != fmt.Sprint(want) {
				fail("the broker was asked %q, want %q", bus.log, want)
			}
			bus.log = nil
		}
		if g.Rare(8, "connFail") {
			bus.fail = boom
			if err := e.Connect(ctx); !errors.Is(err, boom) {
				fail("connecting gave %v, want the broker's error", err)
			}
			logged("connect")
		}
		kit.NoErr(rt, e.Connect(ctx), "connect")
		logged("connect")
		nErr, dead := 0, false
		open := map[string]*live42{} // by topic
		var olds []*live42           // closed or overridden ones
		delivered, refused := 0, 0
		var kept []kept42
		for range g.Int(2, 10, "steps") {
			var topics []string
			for k := range open {
				topics = append(topics, k)
			}
			// in the order of registration, which the map does not keep
			for i := range topics {
				for j := i + 1; j < len(topics); j++ {
					if topics[j] < topics[i] {
						topics[i], topics[j] = topics[j], topics[i]
					}
				}
			}
			op := rapid.SampledFrom([]string{"reg", "reg", "good", "good", "good", "bad", "bad", "again", "close", "off", "on", "cancel", "connect", "drain", "failReg"}).Draw(rt, "op")
			var l *live42
			switch op {
			case "good", "bad", "again", "close":
				if len(topics) == 0 {
					op = "reg"
				} else {
					l = open[topics[g.Int(0, len(topics)-1, "which")]]
				}
			}
			did = append(did, op)
			active := bus.up && !dead
			switch op {
			case "reg", "again", "failReg":
				r := reg42{}
				if op == "again" {
					r = l.reg42
				} else {
					r = draw42(g, cl)
				}
				did[len(did)-1] += " " + r.topic
				if !active {
					p := kit.Panics(func() { r.open(e) })
					err, ok := p.(error)
					if !ok || !errors.Is(err, nodeclient.ErrEventAPIClientInactive) {
						fail("registering with an inactive client panicked with %v", p)
					}
					logged()

					break
				}
				if op == "failReg" {
					bus.fail = boom
					_, none, s := r.open(e)
					logged("subscribe " + r.topic + " 2")
					if !none || s == nil || !errors.Is(s.Error(), boom) || !errors.Is(s.Close(), boom) {
						fail("a refused registration gave no channel: %v, its error is %v", none, s)
					}
					logged()

					break
				}
				recv, none, s := r.open(e)
				logged("subscribe " + r.topic + " 2")
				if none || s == nil || s.Error() != nil {
					fail("the registration failed: %v", s)
				}
				if o := open[r.topic]; o != nil {
					olds = append(olds, o)
				}
				open[r.topic] = &live42{r, recv, s}
			case "good", "bad":
				payload := l.payload()
				if op == "bad" {
					how := ""
					switch g.Int(0, 3, "bad") {
					case 0:
						payload = payload[:g.Int(0, len(payload)-1, "cut")]
						how = "truncated"
					case 1:
						payload = append(payload, g.Bytes(g.Int(1, 5, "moreLen"), "more")...)
						how = "overlong"
					case 2:
						payload = g.Bytes(g.Int(0, 60, "junkLen"), "junk")
						how = "junk"
					default:
						payload, how = g.MutateBytes(payload)
					}
					did[len(did)-1] += " " + how
				}
				did[len(did)-1] += " " + l.topic
				want, werr := l.decode(payload)
				given := bytes.Clone(payload)
				h := bus.route[l.topic]
				done := make(chan any, 1)
				go func() {
					defer func() { done <- recover() }()
					h(bus, msg42{topic: strings.TrimSuffix(l.topic, "/raw"), payload: given})
				}()
				ended := func() {
					select {
					case p := <-done:
						if p != nil {
							fail("the payload %x made the client panic: %v", payload, p)
						}
					case <-time.After(hang42):
						kit.Harness(rt, "the handler of %s did not return", l.topic)
					}
				}
				switch {
				case werr != nil:
					ended()
					if got, ok := l.recv(0); ok {
						fail("the payload %x of %s was delivered as %v, it does not decode: %v", payload, l.topic, got, werr)
					}
					nErr = min(nErr+1, keep)
					refused++
				case dead:
					// the context has ended: nobody needs to take the event
					ended()
				default:
					got, ok := l.recv(hang42)
					if !ok {
						fail("the payload %x of %s was not delivered", payload, l.topic)
					}
					ended()
					if w, o := l.encode(want), l.encode(got); !bytes.Equal(w, o) {
						fail("the payload %x of %s was delivered as %x", w, l.topic, o)
					}
					delivered++
					kept = append(kept, kept42{l, got, l.encode(want), len(did) - 1})
				}
				if len(e.Errors) != nErr {
					fail("%d errors wait in the channel, want %d", len(e.Errors), nErr)
				}
				for _, o := range open {
					if v, ok := o.recv(0); ok {
						fail("%s got %v, which was not sent to it", o.topic, v)
					}
				}
				for _, o := range olds {
					if v, ok := o.recv(0); ok {
						fail("the old registration of %s got %v", o.topic, v)
					}
				}
				logged()
			case "close":
				if g.Rare(4, "closeFail") {
					bus.fail = boom
					if err := l.sub.Close(); !errors.Is(err, boom) {
						fail("closing gave %v, want the broker's error", err)
					}
					logged("unsubscribe " + l.topic)
				}
				kit.NoErr(rt, l.sub.Close(), "close")
				logged("unsubscribe " + l.topic)
				if l.sub.Error() != nil {
					fail("a closed registration has the error %v", l.sub.Error())
				}
				olds = append(olds, l)
				delete(open, l.topic)
			case "off":
				if g.Int(0, 1, "how") == 0 {
					bus.up = false
				} else {
					e.Close()
					logged("disconnect")
				}
			case "on":
				bus.up = true
			case "connect":
				// the client is active as long as the context it was connected with last
				cancel()
				next, done := context.WithCancel(all)
				ctx, cancel = next, done
				if g.Rare(4, "connectFail") {
					bus.fail = boom
					if err := e.Connect(ctx); !errors.Is(err, boom) {
						fail("connecting gave %v, want the broker's error", err)
					}
					logged("connect")
				}
				kit.NoErr(rt, e.Connect(ctx), "connect again")
				logged("connect")
				dead = false
			case "cancel":
				if !g.Rare(2, "cancel") {
					break
				}
				if !dead && len(topics) > 0 && bus.up {
					// an event nobody takes is given up
					l := open[topics[g.Int(0, len(topics)-1, "pending")]]
					done := make(chan any, 1)
					payload := l.payload()
					go func() {
						defer func() { done <- recover() }()
						bus.route[l.topic](bus, msg42{topic: l.topic, payload: payload})
					}()
					cancel()
					select {
					case p := <-done:
						if p != nil {
							fail("the payload %x made the client panic: %v", payload, p)
						}
					case <-time.After(hang42):
						fail("the handler of %s outlives the context", l.topic)
					}
				}
				cancel()
				dead = true
			case "drain":
				for ; nErr > 0; nErr-- {
					if err := <-e.Errors; err == nil {
						fail("a nil error was reported")
					}
				}
			}
			if len(e.Errors) != nErr {
				fail("%d errors wait in the channel, want %d", len(e.Errors), nErr)
			}
		}
		// whoever received an event has it for good: later events do not change it
		for _, k := range kept {
			if o := k.l.encode(k.got); !bytes.Equal(k.want, o) {
				fail("the event of step %d (%s) was %x when it was delivered, and is %x now", k.step, k.l.topic, k.want, o)
			}
		}
		c.Label(fmt.Sprintf("%d delivered %d refused", min(delivered, 4), min(refused, 3)))
		if delivered+refused > 0 {
			c.NonTrivial("events", fmt.Sprint(did))
		}
		c.Sample("%v", did)
	})
}

// TestC42_Client makes event clients from node clients.
func TestC42_Client(t *testing.T) {
	kit.Check(t, 150, func(rt *rapid.T, c *kit.Case) {
		g := gen39{&kit.G{T: rt, E: kit.GenEnv(rt)}}
		pool := []string{"core/v3", "indexer/v2", "management/v1", "blockissuer/v1", "mqtt/v1", "mqtt", "mqtt/v22", "dashboard/v2"}
		var routes []string
		for _, r := range pool {
			if g.Int(0, 1, "has") == 0 {
				routes = append(routes, fmt.Sprintf("%q", r))
			}
		}
		has := g.Int(0, 1, "mqtt") == 0
		if has {
			routes = append(routes, `"mqtt/v2"`)
		}
		info := kit.JText(kit.RefResponse(reflect.ValueOf(info39(g.G))))
		u := serve39(func(_ int, r req39) reply39 {
			if strings.HasSuffix(r.path, "/routes") {
				return reply39{status: 200, body: []byte(`{"routes":[` + strings.Join(routes, ",") + `]}`)}
			}

			return reply39{status: 200, body: info}
		})
		pre := rapid.SampledFrom([]string{"", "/some/where"}).Draw(rt, "prefix")
		cl, err := nodeclient.New(u + pre)
		kit.NoErr(rt, err, "new client")
		e, err := cl.EventAPI(context.Background())
		c.Label(fmt.Sprint("mqtt ", has))
		c.NonTrivial("client", pre, strings.Join(routes, ","))
		if !has {
			if !errors.Is(err, nodeclient.ErrMQTTPluginNotAvailable) || e != nil {
				kit.Fail(rt, "an event client for a node with the routes %v: %v, %v", routes, e, err)
			}

			return
		}
		kit.NoErr(rt, err, "event client")
		opts := e.MQTTClient.OptionsReader()
		want := "ws" + strings.TrimPrefix(u, "http") + pre + "/api/mqtt/v2"
		if s := opts.Servers(); len(s) != 1 || s[0].String() != want {
			kit.Fail(rt, "the event client of %s uses the brokers %v, want %s", u+pre, s, want)
		}
		if e.Client != cl || e.Errors == nil {
			kit.Fail(rt, "the event client of %s is %+v", u+pre, e)
		}
		f, err := cl.EventAPI(context.Background())
		kit.NoErr(rt, err, "event client")
		other := f.MQTTClient.OptionsReader()
		if opts.ClientID() == "" || opts.ClientID() == other.ClientID() {
			kit.Fail(rt, "two event clients call themselves %q and %q", opts.ClientID(), other.ClientID())
		}
	})
}
