package t_infra

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/builder"
	"github.com/iotaledger/iota.go/v4/nodeclient"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

const (
	mJSON = "application/json"
	mBin  = "application/vnd.iota.serializer-v2"
)

// req39 is a request as the server saw it.
type req39 struct {
	method, path string
	query        url.Values
	hdr          http.Header
	body         []byte
	user, pass   string
}

// reply39 is what the server answers.
type reply39 struct {
	status int
	hdr    map[string]string
	body   []byte
	length int  // announced content length (0: the right one)
	drop   bool // close the connection without an answer
}

// the loopback server; requests of a case are answered by its handler
var srv39 = struct {
	sync.Mutex
	once sync.Once
	url  string
	seen []req39
	h    func(i int, r req39) reply39
}{}

func serve39(h func(i int, r req39) reply39) string {
	srv39.once.Do(func() {
		s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			b, _ := io.ReadAll(r.Body)
			q := req39{method: r.Method, path: r.URL.EscapedPath(), query: r.URL.Query(), hdr: r.Header, body: b}
			q.user, q.pass, _ = r.BasicAuth()
			srv39.Lock()
			srv39.seen = append(srv39.seen, q)
			a := srv39.h(len(srv39.seen)-1, q)
			srv39.Unlock()
			if a.drop {
				if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
					c.Close()
				}
				return
			}
			for k, v := range a.hdr {
				w.Header().Set(k, v)
			}
			n := len(a.body)
			if a.length > 0 {
				n = a.length
			}
			if a.status != http.StatusNoContent && a.status != http.StatusNotModified {
				w.Header().Set("Content-Length", strconv.Itoa(n))
			}
			w.WriteHeader(a.status)
			if a.status != http.StatusNoContent && a.status != http.StatusNotModified {
				w.Write(a.body)
			}
			if a.length > 0 {
				if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
					c.Close()
				}
			}
		}))
		s.Config.ErrorLog = log.New(io.Discard, "", 0)
		s.Start()
		srv39.url = s.URL
	})
	srv39.Lock()
	defer srv39.Unlock()
	srv39.seen, srv39.h = nil, h
	return srv39.url
}

func seen39() []req39 {
	srv39.Lock()
	defer srv39.Unlock()
	return append([]req39{}, srv39.seen...)
}

// cl39 is a connected client with its plugins.
type cl39 struct {
	*nodeclient.Client
	pre, user, pass string
	ix              nodeclient.IndexerClient
	mg              nodeclient.ManagementClient
	bi              nodeclient.BlockIssuerClient
}

var cls39 = map[string]*cl39{}

func info39(g *kit.G) *api.InfoResponse {
	i := new(api.InfoResponse)
	g.Fill(reflect.ValueOf(i).Elem(), "info")
	i.ProtocolParameters = []*api.InfoResProtocolParameters{{StartEpoch: 0, Parameters: g.E.API().ProtocolParameters()}}
	return i
}

func client39(rt *rapid.T, g *kit.G) *cl39 {
	kind := g.Int(0, 3, "client")
	key := fmt.Sprint(g.E.Name, kind)
	if c := cls39[key]; c != nil {
		return c
	}
	// not drawn from rt: whether a client exists depends on the cases before
	info := rapid.Custom(func(t *rapid.T) []byte {
		return kit.JText(kit.RefResponse(reflect.ValueOf(info39(&kit.G{T: t, E: g.E}))))
	}).Example(kind)
	c := &cl39{}
	u := serve39(func(_ int, r req39) reply39 {
		if strings.HasSuffix(r.path, "/routes") {
			return reply39{status: 200, body: []byte(`{"routes":["core/v3","indexer/v2","management/v1","blockissuer/v1"]}`)}
		}
		return reply39{status: 200, body: info}
	})
	var err error
	switch kind {
	case 0:
		c.Client, err = nodeclient.New(u)
	case 1:
		c.pre = "/some/where"
		c.Client, err = nodeclient.New(u + c.pre)
	case 2:
		c.pre = "/pre"
		c.Client, err = nodeclient.New(u, nodeclient.WithRequestURLHook(func(s string) string { return strings.Replace(s, u, u+"/pre", 1) }))
	case 3:
		c.user, c.pass = "me", "p:w"
		c.Client, err = nodeclient.New(u, nodeclient.WithUserInfo(url.UserPassword("me", "p:w")))
	}
	kit.NoErr(rt, err, "new client")
	ctx := context.Background()
	c.ix, err = c.Indexer(ctx)
	kit.NoErr(rt, err, "indexer")
	c.mg, err = c.Management(ctx)
	kit.NoErr(rt, err, "management")
	c.bi, err = c.BlockIssuer(ctx)
	kit.NoErr(rt, err, "block issuer")
	cls39[key] = c
	return c
}

// call39 is a client call that makes one request.
type call39 struct {
	name, method, path string
	query              url.Values
	accept             string
	ctype              string
	reqBody            []byte
	reqJSON            any
	status             int
	hdr                map[string]string
	body               []byte // what a faithful server answers
	bin                bool
	data               bool // the call returns what the body says
	unmapped           bool // 503 is an answer
	run                func(c *cl39) (any, error)
	same               func(got any) string
	enc                func(got any) []byte // binary form of what was returned
	refuse             func() (body []byte, how string, known bool)
	fixed              int // leading bytes of the body that the request determines
}

func hx(b []byte) string { return "0x" + kit.Hex(b) }

func sameRef(want any) func(any) string {
	w := kit.RefResponse(reflect.ValueOf(want))
	return func(got any) string {
		if kit.IsNil(got) {
			return "nothing returned"
		}
		if g := kit.RefResponse(reflect.ValueOf(got)); !reflect.DeepEqual(g, w) {
			return fmt.Sprintf("got %s\nwant %s", kit.JText(g), kit.JText(w))
		}
		return ""
	}
}

// jcall is a call whose answer is the JSON form of a generated response.
func jcall[T any](g *kit.G, name, path string, run func(c *cl39) (*T, error)) call39 {
	v := new(T)
	switch x := any(v).(type) {
	case *iotago.Commitment:
		*x = *g.Commitment()
	default:
		g.Fill(reflect.ValueOf(v).Elem(), "resp")
	}
	c := call39{name: name, method: "GET", path: path, status: 200, data: true, same: sameRef(v), body: kit.JText(kit.RefResponse(reflect.ValueOf(v)))}
	c.run = func(c *cl39) (any, error) {
		r, err := run(c)
		return r, err
	}
	c.accept = mJSON
	return c
}

func bcall(name, path string, body []byte, run func(c *cl39) (any, error), enc func(any) []byte) call39 {
	c := call39{name: name, method: "GET", path: path, status: 200, accept: mBin, bin: true, data: true, body: body, run: run, enc: enc}
	c.same = func(got any) string {
		if kit.IsNil(got) {
			return "nothing returned"
		}
		if e := enc(got); !bytes.Equal(e, body) {
			return fmt.Sprintf("got %x\nwant %x", e, body)
		}
		return ""
	}
	return c
}

func text39(g *kit.G, l string) string { // printable text with the characters a query has to escape
	const abc = "abcXYZ059-_.~ +&=?/#%:;,\"'<>ü€"
	r := []rune(abc)
	s := ""
	for i := g.Int(1, 12, l); i > 0; i-- {
		s += string(r[g.Int(0, len(r)-1, l)])
	}
	return s
}

func ident39(g *kit.G, l string) string {
	const abc = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	s := ""
	for i := g.Int(1, 52, l); i > 0; i-- {
		s += abc[g.Int(0, len(abc)-1, l):][:1]
	}
	return s
}

const core = "/api/core/v3"

// outs39 is an output with its proof as served.
type outs39 struct {
	id    iotago.OutputID
	out   iotago.Output
	proof []byte
	tx    *iotago.Transaction
	i     int
}

func (g39 *gen39) proofOf(tx *iotago.Transaction, i int) []byte {
	p, err := iotago.OutputIDProofFromTransaction(tx, uint16(i))
	kit.NoErr(g39.T, err, "proof")
	b, err := p.Bytes()
	kit.NoErr(g39.T, err, "proof bytes")
	return b
}

type gen39 struct{ *kit.G }

func (g gen39) output() outs39 {
	tx := g.Tx(kit.TxOpt{MaxIn: 2, MaxOut: g.Int(1, 5, "maxout")}).Transaction
	i := g.Int(0, len(tx.Outputs)-1, "oi")
	return outs39{id: kit.RefOutputID(kit.RefTxID(tx), uint16(i)), out: tx.Outputs[i], proof: (&g).proofOf(tx, i), tx: tx, i: i}
}

// other gives an answer for another output than the requested.
func (g gen39) other(o outs39) (out, proof []byte, how string, known bool) {
	enc := kit.EncOutput(o.out)
	switch k := g.Int(0, 5, "other"); k {
	case 0: // another output of the transaction
		j := g.Int(0, len(o.tx.Outputs)-1, "oj")
		if j != o.i {
			return kit.EncOutput(o.tx.Outputs[j]), (&g).proofOf(o.tx, j), "sibling with its proof", false
		}
	case 1: // with the proof of the requested one
		j := g.Int(0, len(o.tx.Outputs)-1, "oj")
		if e := kit.EncOutput(o.tx.Outputs[j]); !bytes.Equal(e, enc) {
			return e, o.proof, "sibling with the other proof", false
		}
	case 2: // with its own proof, saying it is the requested one
		j := g.Int(0, len(o.tx.Outputs)-1, "oj")
		if e := kit.EncOutput(o.tx.Outputs[j]); !bytes.Equal(e, enc) {
			p := append([]byte{}, (&g).proofOf(o.tx, j)...)
			p[4], p[5] = byte(o.i), byte(o.i>>8)
			return e, p, "sibling with its proof and the other index", true
		}
	case 3:
		p := g.output()
		return kit.EncOutput(p.out), p.proof, "another transaction", p.id == o.id
	case 4:
		p := append([]byte{}, o.proof...)
		at := g.Int(0, 37, "pat")
		p[at] ^= 1 << g.Int(0, 7, "pbit")
		return enc, p, "altered proof", false
	}
	am := append([]byte{}, enc...)
	am[1+g.Int(0, 7, "amb")] ^= 1 << g.Int(0, 7, "ambit")
	return am, o.proof, "altered amount", false
}

// one draws a call that makes a single request.
func (g gen39) one(rt *rapid.T) call39 {
	ctx := context.Background()
	a := g.E.API()
	hrp := a.ProtocolParameters().Bech32HRP()
	bid, txid, oid, cid := g.BlockID("bid"), g.TxID("txid"), g.OutputID("oid"), g.CommitmentID("cid")
	slot := iotago.SlotIndex(g.U32("slot"))
	acc := g.Addr(kit.KAcc, "acc").(*iotago.AccountAddress)
	B, T, O, C := hx(bid[:]), hx(txid[:]), hx(oid[:]), hx(cid[:])
	S := strconv.FormatUint(uint64(slot), 10)
	AA := acc.Bech32(hrp)
	blockEnc := func(got any) []byte { return kit.EncBlock(got.(*iotago.Block)) }
	bin := func(v any) []byte {
		b, err := a.Encode(v)
		kit.NoErr(rt, err, "encode")
		return b
	}
	switch k := g.Int(0, 35, "call"); k {
	case 0:
		c := jcall(g.G, "Info", core+"/info", func(c *cl39) (*api.InfoResponse, error) { return c.Info(ctx) })
		i := info39(g.G)
		c.body, c.same = kit.JText(kit.RefResponse(reflect.ValueOf(i))), sameRef(i)
		return c
	case 1:
		return call39{name: "Health", method: "GET", path: "/health", status: 200, unmapped: true, run: func(c *cl39) (any, error) { return c.Health(ctx) }, same: func(got any) string { return map[bool]string{false: "unhealthy"}[got.(bool)] }}
	case 2:
		return call39{name: "NetworkHealth", method: "GET", path: core + "/network/health", status: 200, unmapped: true, run: func(c *cl39) (any, error) { return c.NetworkHealth(ctx) }, same: func(got any) string { return map[bool]string{false: "unhealthy"}[got.(bool)] }}
	case 3:
		return jcall(g.G, "NetworkMetrics", core+"/network/metrics", func(c *cl39) (*api.NetworkMetricsResponse, error) { return c.NetworkMetrics(ctx) })
	case 4:
		return jcall(g.G, "Routes", "/api/routes", func(c *cl39) (*api.RoutesResponse, error) { return c.Routes(ctx) })
	case 5:
		b := g.Block()
		c := call39{name: "SubmitBlock", method: "POST", path: core + "/blocks", ctype: mBin, reqBody: kit.EncBlock(b), status: 201, hdr: map[string]string{"Location": B}}
		c.run = func(c *cl39) (any, error) { return c.SubmitBlock(ctx, b) }
		c.same = func(got any) string {
			if got.(iotago.BlockID) != bid {
				return fmt.Sprintf("got %v, want %s", got, B)
			}
			return ""
		}
		return c
	case 6, 7:
		return bcall("BlockByBlockID", core+"/blocks/"+B, kit.EncBlock(g.Block()), func(c *cl39) (any, error) { return c.BlockByBlockID(ctx, bid) }, blockEnc)
	case 8:
		return jcall(g.G, "BlockMetadataByBlockID", core+"/blocks/"+B+"/metadata", func(c *cl39) (*api.BlockMetadataResponse, error) { return c.BlockMetadataByBlockID(ctx, bid) })
	case 9, 10:
		m := new(api.BlockMetadataResponse)
		g.Fill(reflect.ValueOf(m).Elem(), "meta")
		return bcall("BlockWithMetadataByBlockID", core+"/blocks/"+B+"/full", kit.Cat(kit.EncBlock(g.Block()), bin(m)), func(c *cl39) (any, error) { return c.BlockWithMetadataByBlockID(ctx, bid) }, func(got any) []byte {
			r := got.(*api.BlockWithMetadataResponse)
			return kit.Cat(kit.EncBlock(r.Block), bin(r.Metadata))
		})
	case 11:
		return jcall(g.G, "BlockIssuance", core+"/blocks/issuance", func(c *cl39) (*api.IssuanceBlockHeaderResponse, error) { return c.BlockIssuance(ctx) })
	case 12, 13, 14:
		o := g.output()
		c := bcall("OutputByID", core+"/outputs/"+hx(o.id[:]), kit.Cat(kit.EncOutput(o.out), o.proof), func(c *cl39) (any, error) { return c.OutputByID(ctx, o.id) }, func(got any) []byte { return kit.Cat(kit.EncOutput(got.(iotago.Output)), o.proof) })
		c.fixed = len(kit.EncOutput(o.out)) + len(o.proof)
		c.refuse = func() ([]byte, string, bool) {
			out, proof, how, known := g.other(o)
			return kit.Cat(out, proof), how, known
		}
		return c
	case 15:
		return jcall(g.G, "OutputMetadataByID", core+"/outputs/"+O+"/metadata", func(c *cl39) (*api.OutputMetadata, error) { return c.OutputMetadataByID(ctx, oid) })
	case 16, 17:
		o := g.output()
		m := new(api.OutputMetadata)
		g.Fill(reflect.ValueOf(m).Elem(), "meta")
		type pair struct {
			o iotago.Output
			m *api.OutputMetadata
		}
		c := bcall("OutputWithMetadataByID", core+"/outputs/"+hx(o.id[:])+"/full", kit.Cat(kit.EncOutput(o.out), o.proof, bin(m)), func(c *cl39) (any, error) {
			o, m, err := c.OutputWithMetadataByID(ctx, o.id)
			if o == nil && m == nil {
				return nil, err
			}
			return pair{o, m}, err
		}, func(got any) []byte { return kit.Cat(kit.EncOutput(got.(pair).o), o.proof, bin(got.(pair).m)) })
		c.fixed = len(kit.EncOutput(o.out)) + len(o.proof)
		c.refuse = func() ([]byte, string, bool) {
			out, proof, how, known := g.other(o)
			return kit.Cat(out, proof, bin(m)), how, known
		}
		return c
	case 18:
		tx := g.Tx(kit.TxOpt{MaxIn: 3, MaxOut: 3}).Transaction
		return bcall("TransactionByID", core+"/transactions/"+T, kit.EncTx(tx), func(c *cl39) (any, error) { return c.TransactionByID(ctx, txid) }, func(got any) []byte { return kit.EncTx(got.(*iotago.Transaction)) })
	case 19:
		return bcall("TransactionIncludedBlock", core+"/transactions/"+T+"/included-block", kit.EncBlock(g.Block()), func(c *cl39) (any, error) { return c.TransactionIncludedBlock(ctx, txid) }, blockEnc)
	case 20:
		return jcall(g.G, "TransactionIncludedBlockMetadata", core+"/transactions/"+T+"/included-block/metadata", func(c *cl39) (*api.BlockMetadataResponse, error) {
			return c.TransactionIncludedBlockMetadata(ctx, txid)
		})
	case 21:
		return jcall(g.G, "TransactionMetadata", core+"/transactions/"+T+"/metadata", func(c *cl39) (*api.TransactionMetadataResponse, error) { return c.TransactionMetadata(ctx, txid) })
	case 22:
		return jcall(g.G, "CommitmentByID", core+"/commitments/"+C, func(c *cl39) (*iotago.Commitment, error) { return c.CommitmentByID(ctx, cid) })
	case 23:
		return jcall(g.G, "CommitmentUTXOChangesByID", core+"/commitments/"+C+"/utxo-changes", func(c *cl39) (*api.UTXOChangesResponse, error) { return c.CommitmentUTXOChangesByID(ctx, cid) })
	case 24:
		return jcall(g.G, "CommitmentUTXOChangesFullByID", core+"/commitments/"+C+"/utxo-changes/full", func(c *cl39) (*api.UTXOChangesFullResponse, error) { return c.CommitmentUTXOChangesFullByID(ctx, cid) })
	case 25:
		return jcall(g.G, "CommitmentBySlot", core+"/commitments/by-slot/"+S, func(c *cl39) (*iotago.Commitment, error) { return c.CommitmentBySlot(ctx, slot) })
	case 26:
		return jcall(g.G, "CommitmentUTXOChangesBySlot", core+"/commitments/by-slot/"+S+"/utxo-changes", func(c *cl39) (*api.UTXOChangesResponse, error) { return c.CommitmentUTXOChangesBySlot(ctx, slot) })
	case 27:
		return jcall(g.G, "CommitmentUTXOChangesFullBySlot", core+"/commitments/by-slot/"+S+"/utxo-changes/full", func(c *cl39) (*api.UTXOChangesFullResponse, error) {
			return c.CommitmentUTXOChangesFullBySlot(ctx, slot)
		})
	case 28:
		ws := iotago.WorkScore(g.U32("ws") * uint32(g.Int(0, 1, "ws?")))
		withC := g.Bool("withC")
		c := jcall(g.G, "Congestion", core+"/accounts/"+AA+"/congestion", func(c *cl39) (*api.CongestionResponse, error) {
			if withC {
				return c.Congestion(ctx, acc, ws, cid)
			}
			return c.Congestion(ctx, acc, ws)
		})
		c.query = url.Values{}
		if ws > 0 {
			c.query.Set("workScore", strconv.FormatUint(uint64(ws), 10))
		}
		if withC {
			c.query.Set("commitmentId", C)
		}
		return c
	case 29:
		size := g.U64("size") * uint64(g.Int(0, 1, "size?"))
		cur := text39(g.G, "cursor")
		withC := g.Bool("withC")
		c := jcall(g.G, "Validators", core+"/validators", func(c *cl39) (*api.ValidatorsResponse, error) {
			if withC {
				return c.Validators(ctx, size, cur)
			}
			return c.Validators(ctx, size)
		})
		c.query = url.Values{}
		if size > 0 {
			c.query.Set("pageSize", strconv.FormatUint(size, 10))
		}
		if withC {
			c.query.Set("cursor", cur)
		}
		return c
	case 30:
		return jcall(g.G, "Validator", core+"/validators/"+AA, func(c *cl39) (*api.ValidatorResponse, error) { return c.Validator(ctx, acc) })
	case 31:
		return jcall(g.G, "Rewards", core+"/rewards/"+O, func(c *cl39) (*api.ManaRewardsResponse, error) { return c.Rewards(ctx, oid) })
	case 32:
		ep := iotago.EpochIndex(g.U32("ep") * uint32(g.Int(0, 1, "ep?")))
		withE := g.Bool("withE")
		c := jcall(g.G, "Committee", core+"/committee", func(c *cl39) (*api.CommitteeResponse, error) {
			if withE {
				return c.Committee(ctx, ep)
			}
			return c.Committee(ctx)
		})
		if withE {
			c.query = url.Values{"epoch": {strconv.FormatUint(uint64(ep), 10)}}
		}
		return c
	case 33:
		id := ident39(g.G, "peer")
		switch g.Int(0, 2, "mg") {
		case 0:
			return jcall(g.G, "PeerByID", "/api/management/v1/peers/"+id, func(c *cl39) (*api.PeerInfo, error) { return c.mg.PeerByID(ctx, id) })
		case 1:
			return jcall(g.G, "Peers", "/api/management/v1/peers", func(c *cl39) (*api.PeersResponse, error) { return c.mg.Peers(ctx) })
		}
		return call39{name: "RemovePeerByID", method: "DELETE", path: "/api/management/v1/peers/" + id, status: []int{200, 204}[g.Int(0, 1, "del")], run: func(c *cl39) (any, error) { return true, c.mg.RemovePeerByID(ctx, id) }, same: func(any) string { return "" }}
	case 34:
		r := &api.AddPeerRequest{MultiAddress: text39(g.G, "ma")}
		if g.Bool("alias") {
			r.Alias = text39(g.G, "al")
		}
		c := jcall(g.G, "AddPeer", "/api/management/v1/peers", func(c *cl39) (*api.PeerInfo, error) {
			if r.Alias != "" {
				return c.mg.AddPeer(ctx, r.MultiAddress, r.Alias)
			}
			return c.mg.AddPeer(ctx, r.MultiAddress)
		})
		c.method, c.ctype, c.reqJSON = "POST", mJSON, kit.RefResponse(reflect.ValueOf(r))
		c.status = []int{200, 201}[g.Int(0, 1, "add")]
		return c
	default:
		return jcall(g.G, "BlockIssuerInfo", "/api/blockissuer/v1/info", func(c *cl39) (*api.BlockIssuerInfo, error) { return c.bi.Info(ctx) })
	}
}

type doer39 interface {
	Do(context.Context, string, string, any, any) (*http.Response, error)
	DoWithRequestHeaderHook(context.Context, string, string, nodeclient.RequestHeaderHook, any, any) (*http.Response, error)
}

// special is a request to a route of one's own: raw bytes or JSON there, raw bytes, JSON or nothing back, with and
// without a hook for the headers.
func (g gen39) special(rt *rapid.T) call39 {
	ctx := context.Background()
	c := call39{name: "Do", method: []string{"GET", "POST", "PUT", "DELETE"}[g.Int(0, 3, "method")], path: "/api/x" + ident39(g.G, "route"), status: []int{200, 201}[g.Int(0, 1, "status")]}
	via := g.Int(0, 3, "via")
	hook := g.Bool("hook")
	var req, res any
	what := func(any) string { return "" }
	switch g.Int(0, 2, "req") {
	case 0:
		d := append([]byte{1}, g.Var(0, 60, "raw")...)
		req, c.reqBody, c.ctype = &nodeclient.RawDataEnvelope{Data: d}, bytes.Clone(d), mBin
	case 1:
		r := &api.AddPeerRequest{MultiAddress: text39(g.G, "ma"), Alias: text39(g.G, "al")}
		req, c.reqJSON, c.ctype = r, kit.RefResponse(reflect.ValueOf(r)), mJSON
	}
	switch g.Int(0, 2, "res") {
	case 0:
		raw := new(nodeclient.RawDataEnvelope)
		c.body = g.Var(0, 60, "answer")
		res = raw
		what = func(any) string {
			if !bytes.Equal(raw.Data, c.body) {
				return fmt.Sprintf("got %x, want %x", raw.Data, c.body)
			}
			return ""
		}
	case 1:
		w := new(api.NetworkMetricsResponse)
		g.Fill(reflect.ValueOf(w).Elem(), "metrics")
		c.body = kit.JText(kit.RefResponse(reflect.ValueOf(w)))
		got := new(api.NetworkMetricsResponse)
		res = got
		what = func(any) string { return sameRef(w)(got) }
	}
	if hook {
		c.ctype = "text/x-own"
	}
	c.run = func(cl *cl39) (any, error) {
		// the clients of plugins have the same methods
		by, ok := []any{cl.Client, cl.mg, cl.bi, cl.ix}[via].(doer39)
		if !ok {
			by = cl.Client
		}
		if hook {
			return by.DoWithRequestHeaderHook(ctx, c.method, c.path, func(h http.Header) { h.Set("Content-Type", "text/x-own") }, req, res)
		}
		return by.Do(ctx, c.method, c.path, req, res)
	}
	c.same = func(got any) string {
		r, _ := got.(*http.Response)
		if r == nil || r.StatusCode != c.status {
			return fmt.Sprintf("the response is %v", r)
		}
		return what(nil)
	}
	return c
}

// asked checks a request against what the call has to send.
func asked(rt *rapid.T, cl *cl39, c call39, r req39) {
	if r.method != c.method || r.path != cl.pre+c.path {
		kit.Fail(rt, "%s sends %s %s, want %s %s", c.name, r.method, r.path, c.method, cl.pre+c.path)
	}
	if len(c.query)+len(r.query) > 0 && !reflect.DeepEqual(c.query, r.query) {
		kit.Fail(rt, "%s sends the query %v, want %v", c.name, r.query, c.query)
	}
	if acc := r.hdr.Get("Accept"); c.accept == mBin && acc != mBin || c.accept == mJSON && strings.Contains(acc, mBin) {
		kit.Fail(rt, "%s accepts %q, want %q", c.name, acc, c.accept)
	}
	if c.ctype != "" && r.hdr.Get("Content-Type") != c.ctype {
		kit.Fail(rt, "%s sends the content type %q, want %q", c.name, r.hdr.Get("Content-Type"), c.ctype)
	}
	if r.user != cl.user || r.pass != cl.pass {
		kit.Fail(rt, "%s is authorised as %q %q", c.name, r.user, r.pass)
	}
	switch {
	case c.reqJSON != nil:
		if d := kit.SameJSON(r.body, c.reqJSON); d != "" {
			kit.Fail(rt, "%s sends %s: %s", c.name, r.body, d)
		}
	case !bytes.Equal(r.body, c.reqBody):
		kit.Fail(rt, "%s sends %x, want %x", c.name, r.body, c.reqBody)
	}
}

func (c call39) do(rt *rapid.T, cl *cl39, what string, a reply39) (got any, err error) {
	serve39(func(int, req39) reply39 { return a })
	if p := kit.Panics(func() { got, err = c.run(cl) }); p != nil {
		b := a.body
		if len(b) > 3000 {
			b = b[:3000]
		}
		kit.Fail(rt, "%s with %s panics: %v\nbody %q", c.name, what, p, b)
	}
	return
}

// TestC39: a faithful server.
func TestC39(t *testing.T) {
	kit.Check(t, 900, func(rt *rapid.T, c *kit.Case) {
		g := gen39{&kit.G{T: rt, E: kit.GenEnv(rt)}}
		cl := client39(rt, g.G)
		for range g.Int(1, 3, "calls") { // of one client
			k := call39{}
			if g.Rare(12, "special route") {
				k = g.special(rt)
			} else {
				k = g.one(rt)
			}
			got, err := k.do(rt, cl, "a faithful answer", reply39{status: k.status, hdr: k.hdr, body: k.body})
			for _, r := range seen39() {
				asked(rt, cl, k, r)
			}
			if n := len(seen39()); n != 1 {
				kit.Fail(rt, "%s makes %d requests", k.name, n)
			}
			kit.NoErr(rt, err, "%s", k.name)
			if d := k.same(got); d != "" {
				kit.Fail(rt, "%s: %s", k.name, d)
			}
			c.Label(k.name)
			c.NonTrivial(k.name, k.path, k.body)
			c.Sample("%s %s -> %d bytes", k.method, k.path, len(k.body))
		}
	})
}

var mapped39 = map[int]error{
	400: nodeclient.ErrHTTPBadRequest, 401: nodeclient.ErrHTTPUnauthorized, 404: nodeclient.ErrHTTPNotFound,
	500: nodeclient.ErrHTTPInternalServerError, 501: nodeclient.ErrHTTPNotImplemented, 503: nodeclient.ErrHTTPServiceUnavailable,
}

// TestC39_Faults: a server that does not answer as it should.
func TestC39_Faults(t *testing.T) {
	kit.Check(t, 2500, func(rt *rapid.T, c *kit.Case) {
		g := gen39{&kit.G{T: rt, E: kit.GenEnv(rt)}}
		cl := client39(rt, g.G)
		k := g.one(rt)
		ok := reply39{status: k.status, hdr: k.hdr, body: k.body}
		if g.Rare(3, "answered before") {
			// an earlier answer says nothing about this one
			_, err := k.do(rt, cl, "a faithful answer", ok)
			kit.NoErr(rt, err, "%s", k.name)
		}
		must := func(what string, a reply39, is error) {
			got, err := k.do(rt, cl, what, a)
			if err == nil {
				kit.Fail(rt, "%s with %s returns %T and no error\nserved %d %q", k.name, what, got, a.status, a.body)
			}
			if is != nil && !errors.Is(err, is) {
				kit.Fail(rt, "%s with %s gives the error %v, want %v", k.name, what, err, is)
			}
		}
		fault := ""
		switch f := g.Int(0, 9, "fault"); {
		case f <= 1:
			all := []int{400, 401, 404, 500, 501, 503, 402, 403, 405, 409, 418, 429, 502, 504, 202, 206, 299, 304, 511}
			a := ok
			a.status = all[g.Int(0, len(all)-1, "status")]
			is, known := mapped39[a.status]
			if !known {
				is = nodeclient.ErrHTTPUnknownError
			}
			switch g.Int(0, 5, "errbody") {
			case 0:
				a.body = nil
			case 1, 2:
				a.body = kit.JText(map[string]any{"error": map[string]any{"code": fmt.Sprint(a.status), "message": text39(g.G, "msg") + "%s%d"}})
			case 3:
				a.body, is = []byte("<html>"+text39(g.G, "html")), nil
			case 4: // the data, with the wrong status
				is = nil
			case 5:
				a.body, is = []byte(`{"error":{"code":404,"message":[]}}`), nil
			}
			if a.status == 304 {
				a.body, is = nil, nodeclient.ErrHTTPUnknownError
			}
			fault = fmt.Sprint("status ", a.status)
			if a.status == 503 && k.unmapped {
				got, err := k.do(rt, cl, fault, a)
				if is != nil && (err != nil || got.(bool)) {
					kit.Fail(rt, "%s with %s returns %v and %v", k.name, fault, got, err)
				}
				if err == nil && got.(bool) {
					kit.Fail(rt, "%s with %s is healthy", k.name, fault)
				}
				break
			}
			must(fault, a, is)
		case f == 2:
			fault = "a dropped connection"
			must(fault, reply39{drop: true}, nil)
		case f == 3 && k.refuse != nil:
			b, how, known := k.refuse()
			fault = how
			a := ok
			a.body = b
			_, err := k.do(rt, cl, how, a)
			switch {
			case err != nil:
			case known && kit.IsKnown("C39", "index-not-bound"):
				kit.Reproduced("index-not-bound")
			default:
				kit.Fail(rt, "%s returns %s as valid\nserved %x\nright  %x", k.name, how, b, k.body)
			}
		case !k.data && k.name == "SubmitBlock":
			fault = "location"
			a := ok
			loc := k.hdr["Location"]
			switch g.Int(0, 4, "loc") {
			case 0:
				a.hdr = nil
			case 1:
				loc = loc[:g.Int(0, len(loc)-1, "cut")]
			case 2:
				loc += "00"
			case 3:
				loc = loc[2:]
			default:
				i := g.Int(2, len(loc)-1, "at")
				loc = loc[:i] + string("gxz/ -"[g.Int(0, 5, "bad")]) + loc[i+1:]
			}
			if a.hdr != nil {
				a.hdr = map[string]string{"Location": loc}
			}
			must(fmt.Sprintf("location %q", loc), a, nil)
		case !k.data:
			fault = "cancelled"
			return
		case f == 3 || f == 4:
			n := g.Int(0, len(k.body)-1, "cut")
			if g.Rare(3, "late") {
				n = len(k.body) - 1 - g.Int(0, 3, "end")%len(k.body)
			}
			a := ok
			a.body = k.body[:max(n, 0)]
			fault = "a truncated body"
			if g.Bool("length") {
				a.length = len(k.body)
				fault = "a body that ends early"
			}
			must(fault, a, nil)
		case f == 5:
			a := ok
			tail := [][]byte{{0}, {1, 2, 3}, g.Bytes(g.Int(1, 40, "tail"), "tail"), []byte("}"), []byte(" x"), k.body, []byte("{}")}[g.Int(0, 6, "tailkind")]
			if !k.bin && len(bytes.TrimSpace(tail)) == 0 {
				tail = []byte("]")
			}
			a.body = append(append([]byte{}, k.body...), tail...)
			fault = "trailing bytes"
			must(fmt.Sprintf("the trailing bytes %x", tail), a, nil)
		case f == 6:
			fault = "no content"
			must(fault, reply39{status: 204}, nil)
		case f == 7: // something else altogether
			a := ok
			junk := []string{"", " ", "null", "[]", "{}", "0", `""`, "true", "[null]", "\x00", "<html></html>", "{", "[", `{"":null}`}
			a.body = []byte(junk[g.Int(0, len(junk)-1, "junk")])
			if k.bin && g.Bool("rand") {
				a.body = g.Bytes(g.Int(0, 300, "n"), "rand")
			}
			fault = "junk"
			must(fmt.Sprintf("the body %q", a.body), a, nil)
		default:
			a := ok
			how := ""
			if k.bin {
				a.body, how = g.MutateBytes(k.body)
			} else {
				a.body, how = g.MutateJSON(k.body)
			}
			fault = "altered: " + how
			got, err := k.do(rt, cl, "an altered body", a)
			if err == nil && kit.IsNil(got) {
				kit.Fail(rt, "%s with the altered body %q returns nothing and no error", k.name, a.body)
			}
			if err == nil && k.bin {
				e, want := k.enc(got), a.body
				if k.fixed > 0 { // the output is the requested one whatever else was altered
					e, want = e[:min(len(e), k.fixed)], k.body[:k.fixed]
				}
				if !bytes.Equal(e, want) {
					kit.Fail(rt, "%s with an altered body (%s)\nserved   %x\nreturned %x", k.name, how, a.body, e)
				}
			}
			if k.bin && k.refuse == nil {
				c.Label(fmt.Sprintf("altered body accepted: %v", err == nil))
			}
		}
		for _, r := range seen39() {
			asked(rt, cl, k, r)
		}
		c.Label(strings.SplitN(fault, ":", 2)[0])
		c.NonTrivial(k.name, k.path, fault)
		c.Sample("%s: %s", k.name, fault)
	})
}

// the query parameters of the indexer by field of the query types
var params39 = map[string]string{
	"PageSize": "pageSize", "Cursor": "cursor",
	"HasTimelock": "hasTimelock", "TimelockedBefore": "timelockedBefore", "TimelockedAfter": "timelockedAfter",
	"HasExpiration": "hasExpiration", "ExpiresBefore": "expiresBefore", "ExpiresAfter": "expiresAfter", "ExpirationReturnAddressBech32": "expirationReturnAddress",
	"CreatedBefore": "createdBefore", "CreatedAfter": "createdAfter",
	"HasStorageDepositReturn": "hasStorageDepositReturn", "StorageDepositReturnAddressBech32": "storageDepositReturnAddress",
	"HasNativeToken": "hasNativeToken", "NativeToken": "nativeToken",
	"UnlockableByAddressBech32": "unlockableByAddress",
	"AddressBech32":             "address", "SenderBech32": "sender", "IssuerBech32": "issuer", "Tag": "tag",
	"StateControllerBech32": "stateController", "GovernorBech32": "governor", "AccountAddressBech32": "accountAddress", "ValidatorBech32": "validator",
}

func (g gen39) fillQuery(rt *rapid.T, v reflect.Value, want url.Values) {
	for i := 0; i < v.NumField(); i++ {
		f, name := v.Field(i), v.Type().Field(i).Name
		if f.Kind() == reflect.Struct {
			g.fillQuery(rt, f, want)
			continue
		}
		p, ok := params39[name]
		if !ok {
			kit.Harness(rt, "unknown query field %s", name)
		}
		if g.Int(0, 2, "set"+name) == 0 {
			continue
		}
		s := ""
		switch x := f.Addr().Interface().(type) {
		case *int:
			*x = g.Int(1, 1<<31-1, name)
			s = strconv.Itoa(*x)
		case *string:
			*x = text39(g.G, name)
			s = *x
		case **string:
			t := text39(g.G, name)
			*x, s = &t, t
		case **bool:
			b := g.Bool(name)
			*x, s = &b, strconv.FormatBool(b)
		case *iotago.SlotIndex:
			*x = iotago.SlotIndex(g.U32(name))
			if *x == 0 {
				continue
			}
			s = strconv.FormatUint(uint64(*x), 10)
		default:
			kit.Harness(rt, "query field %T", x)
		}
		want.Set(p, s)
	}
}

func items39(ids []string, slot, size uint32, cursor string) []byte {
	j := map[string]any{"committedSlot": slot, "pageSize": size, "items": ids}
	if ids == nil {
		j["items"] = []string{}
	}
	if cursor != "" {
		j["cursor"] = cursor
	}
	return kit.JText(j)
}

// TestC39_Pages: results that come in pages.
func TestC39_Pages(t *testing.T) {
	queries := []struct {
		path string
		q    func() nodeclient.IndexerQuery
	}{
		{"", func() nodeclient.IndexerQuery { return new(api.OutputsQuery) }},
		{"/basic", func() nodeclient.IndexerQuery { return new(api.BasicOutputsQuery) }},
		{"/account", func() nodeclient.IndexerQuery { return new(api.AccountsQuery) }},
		{"/anchor", func() nodeclient.IndexerQuery { return new(api.AnchorsQuery) }},
		{"/foundry", func() nodeclient.IndexerQuery { return new(api.FoundriesQuery) }},
		{"/nft", func() nodeclient.IndexerQuery { return new(api.NFTsQuery) }},
		{"/delegation", func() nodeclient.IndexerQuery { return new(api.DelegationOutputsQuery) }},
	}
	kit.Check(t, 500, func(rt *rapid.T, c *kit.Case) {
		g := gen39{&kit.G{T: rt, E: kit.GenEnv(rt)}}
		cl := client39(rt, g.G)
		ctx := context.Background()
		pages := g.Int(1, 5, "pages")
		var curs []string
		for i := 1; i < pages; i++ {
			curs = append(curs, fmt.Sprint(text39(g.G, "cur"), i))
		}
		bad := -1 // the page the server fails to give
		if g.Rare(3, "bad") {
			bad = g.Int(0, pages-1, "badpage")
		}
		fail := []reply39{{status: 500}, {drop: true}, {status: 204}, {status: 200, body: []byte("{")}, {status: 404}}[g.Int(0, 4, "how")]
		page := func(i int, ok []byte) reply39 {
			if i == bad {
				return fail
			}
			return reply39{status: 200, body: ok}
		}
		at := func(r req39) int { // the page a request asks for
			for i, x := range curs {
				if r.query.Get("cursor") == x {
					return i + 1
				}
			}
			return 0
		}
		c.Label(fmt.Sprintf("pages %d bad %v", pages, bad >= 0))
		if g.Int(0, 3, "what") == 0 { // all validators
			var all []*api.ValidatorResponse
			var docs [][]byte
			for i := 0; i < pages; i++ {
				v := new(api.ValidatorsResponse)
				g.Fill(reflect.ValueOf(v).Elem(), "page")
				v.Cursor = ""
				if i < pages-1 {
					v.Cursor = curs[i]
				}
				all = append(all, v.Validators...)
				docs = append(docs, kit.JText(kit.RefResponse(reflect.ValueOf(v))))
				if i == bad {
					break
				}
			}
			limit := 0
			if g.Bool("limit?") {
				limit = g.Int(1, pages+1, "limit")
			}
			serve39(func(_ int, r req39) reply39 { return page(at(r), docs[min(at(r), len(docs)-1)]) })
			var got *api.ValidatorsResponse
			var done bool
			var err error
			if p := kit.Panics(func() {
				if limit > 0 {
					got, done, err = cl.ValidatorsAll(ctx, limit)
				} else {
					got, done, err = cl.ValidatorsAll(ctx)
				}
			}); p != nil {
				kit.Fail(rt, "ValidatorsAll panics: %v", p)
			}
			n := pages
			if limit > 0 && limit < pages {
				n = limit
			}
			for i, r := range seen39() {
				q := url.Values{}
				if a := at(r); a > 0 {
					q.Set("cursor", curs[a-1])
				}
				asked(rt, cl, call39{name: fmt.Sprint("ValidatorsAll request ", i), method: "GET", path: core + "/validators", query: q, accept: mJSON}, r)
			}
			c.NonTrivial("validators", curs, limit, docs[0])
			if bad >= 0 && bad < n {
				if err == nil {
					kit.Fail(rt, "ValidatorsAll misses page %d of %d and is no error: %v %v", bad, pages, got, done)
				}
				return
			}
			kit.NoErr(rt, err, "ValidatorsAll")
			if len(seen39()) != n || done != (n == pages) {
				kit.Fail(rt, "ValidatorsAll limited to %d of %d pages makes %d requests and says done=%v", limit, pages, len(seen39()), done)
			}
			var want []*api.ValidatorResponse
			for i := 0; i < n; i++ {
				v := new(api.ValidatorsResponse)
				kit.NoErr(rt, g.E.API().JSONDecode(docs[i], v), "page")
				want = append(want, v.Validators...)
			}
			if bad < 0 && n == pages && len(want) != len(all) {
				kit.Harness(rt, "pages")
			}
			if len(got.Validators) != len(want) {
				kit.Fail(rt, "ValidatorsAll returns %d validators, want %d", len(got.Validators), len(want))
			}
			for i := range want {
				if d := sameRef(want[i])(got.Validators[i]); d != "" {
					kit.Fail(rt, "validator %d: %s", i, d)
				}
			}
			return
		}
		// an indexer query
		qk := queries[g.Int(0, len(queries)-1, "query")]
		q := qk.q()
		want := url.Values{}
		g.fillQuery(rt, reflect.ValueOf(q).Elem(), want)
		first := want.Get("cursor")
		outs := map[iotago.OutputID]outs39{}
		var ids [][]string
		var docs [][]byte
		slot, size := g.U32("cslot"), uint32(g.Int(0, 1000, "psize"))
		for i := 0; i < pages; i++ {
			n := g.Int(1, 4, "n")
			if i == 0 && pages == 1 {
				n = g.Int(0, 4, "n0")
			}
			var p []string
			for ; n > 0; n-- {
				o := g.output()
				outs[o.id] = o
				p = append(p, hx(o.id[:]))
			}
			cur := ""
			if i < pages-1 {
				cur = curs[i]
			}
			ids = append(ids, p)
			docs = append(docs, items39(p, slot, size, cur))
		}
		badItem := false
		if len(ids[0]) > 0 && g.Rare(4, "baditem") { // an ID that is none
			k := g.Int(0, len(ids[0])-1, "bi")
			s := ids[0][k]
			p := append([]string{}, ids[0]...)
			p[k] = []string{"", "0x", s[:len(s)-2], s + "00", s[2:], s[:10] + "zz" + s[12:], s[:len(s)-1], "0x" + strings.Repeat("0", 75)}[g.Int(0, 7, "badid")]
			cur := ""
			if pages > 1 {
				cur = curs[0]
			}
			docs[0] = items39(p, slot, size, cur)
			badItem = true
		}
		var lose iotago.OutputID
		if g.Rare(4, "lose") {
			for id := range outs {
				if len(lose) == 0 || bytes.Compare(id[:], lose[:]) > 0 {
					lose = id
				}
			}
		}
		serve39(func(_ int, r req39) reply39 {
			if s := strings.TrimPrefix(r.path, cl.pre+core+"/outputs/0x"); s != r.path {
				for id, o := range outs {
					if kit.Hex(id[:]) == s && id != lose {
						return reply39{status: 200, body: kit.Cat(kit.EncOutput(o.out), o.proof)}
					}
				}
				return reply39{status: 404}
			}
			return page(at(r), docs[at(r)])
		})
		func() {
			rs, err := cl.ix.Outputs(ctx, q)
			kit.NoErr(rt, err, "Outputs")
			for i := 0; ; i++ {
				if i > pages+1 {
					kit.Fail(rt, "no end of pages")
				}
				before := len(seen39())
				next := false
				if p := kit.Panics(func() { next = rs.Next() }); p != nil {
					kit.Fail(rt, "page %d: Next panics: %v", i, p)
				}
				for _, r := range seen39()[before:] {
					w := url.Values{}
					for k, v := range want {
						w[k] = v
					}
					if i > 0 && i <= len(curs) {
						w.Set("cursor", curs[i-1])
					} else if first != "" {
						w.Set("cursor", first)
					}
					asked(rt, cl, call39{name: fmt.Sprintf("page %d of %T", i, q), method: "GET", path: "/api/indexer/v2/outputs" + qk.path, query: w, accept: mJSON}, r)
				}
				if i == bad {
					if next || rs.Error == nil {
						kit.Fail(rt, "page %d failed but Next is %v with the error %v", i, next, rs.Error)
					}
					return
				}
				if i == pages {
					if next || rs.Error != nil {
						kit.Fail(rt, "after all %d pages Next is %v with the error %v", pages, next, rs.Error)
					}
					if len(seen39()) != before {
						kit.Fail(rt, "another request after the last page")
					}
					return
				}
				if rs.Error != nil {
					if badItem && i == 0 { // refusing the page is an answer too
						return
					}
					kit.Fail(rt, "page %d: %v", i, rs.Error)
				}
				if next != (len(ids[i]) > 0) {
					kit.Fail(rt, "page %d of %d with %d items: Next is %v", i, pages, len(ids[i]), next)
				}
				if len(ids[i]) == 0 {
					return
				}
				r := rs.Response
				if r.CommittedSlot != iotago.SlotIndex(slot) || r.PageSize != size {
					kit.Fail(rt, "page %d: slot %d and page size %d, want %d and %d", i, r.CommittedSlot, r.PageSize, slot, size)
				}
				missing := false
				if !(badItem && i == 0) {
					if len(r.Items) != len(ids[i]) {
						kit.Fail(rt, "page %d has %d items, want %d", i, len(r.Items), len(ids[i]))
					}
					for k, it := range r.Items {
						if string(it) != ids[i][k] {
							kit.Fail(rt, "page %d item %d is %s, want %s", i, k, it, ids[i][k])
						}
						missing = missing || ids[i][k] == hx(lose[:])
					}
				}
				if !g.Bool("fetch") {
					continue
				}
				var os iotago.Outputs[iotago.Output]
				var err error
				if p := kit.Panics(func() { os, err = rs.Outputs(ctx) }); p != nil {
					kit.Fail(rt, "fetching the outputs %v panics: %v", r.Items, p)
				}
				if missing || badItem && i == 0 {
					if err == nil {
						kit.Fail(rt, "fetching the outputs %v without one of them is no error: %d outputs", r.Items, len(os))
					}
					continue
				}
				kit.NoErr(rt, err, "fetch outputs")
				if len(os) != len(ids[i]) {
					kit.Fail(rt, "fetched %d of %d outputs", len(os), len(ids[i]))
				}
				for k, o := range os {
					id := iotago.MustOutputIDFromHexString(ids[i][k])
					if !bytes.Equal(kit.EncOutput(o), kit.EncOutput(outs[id].out)) {
						kit.Fail(rt, "fetched another output for item %d", k)
					}
				}
			}
		}()
		c.NonTrivial(qk.path, want.Encode(), docs[0], bad)
		c.Sample("indexer%s?%s, %d pages, bad %d", qk.path, want.Encode(), pages, bad)
	})
}

// TestC39_Single: indexer queries for a single output.
func TestC39_Single(t *testing.T) {
	kit.Check(t, 600, func(rt *rapid.T, c *kit.Case) {
		g := gen39{&kit.G{T: rt, E: kit.GenEnv(rt)}}
		cl := client39(rt, g.G)
		ctx := context.Background()
		hrp := g.E.API().ProtocolParameters().Bech32HRP()
		kind := []kit.OKind{kit.OAccount, kit.OAnchor, kit.OFoundry, kit.ONFT, kit.ODelegation}[g.Int(0, 4, "kind")]
		served := kind
		if g.Rare(4, "othertype") {
			served = kit.OKind(g.Int(0, 5, "served"))
		}
		tx := g.Tx(kit.TxOpt{MaxIn: 2, MaxOut: 3}).Transaction
		i := g.Int(0, len(tx.Outputs)-1, "i")
		tx.Outputs[i] = g.Output(served, "out")
		o := outs39{id: kit.RefOutputID(kit.RefTxID(tx), uint16(i)), out: tx.Outputs[i], proof: g.proofOf(tx, i), tx: tx, i: i}
		acc := g.Addr(kit.KAcc, "a").(*iotago.AccountAddress)
		anc := g.Addr(kit.KAnc, "n").(*iotago.AnchorAddress)
		nft := g.Addr(kit.KNFT, "t").(*iotago.NFTAddress)
		fid := g.FoundryID("f")
		did := iotago.DelegationID(g.B32("d"))
		path := "/api/indexer/v2/outputs/"
		ids := []string{hx(o.id[:])}
		slot := g.U32("slot")
		mode := g.Int(0, 7, "mode")
		wantErr := served != kind
		var other outs39
		switch mode {
		case 0:
			ids, wantErr = nil, true
		case 1:
			s := ids[0]
			ids[0], wantErr = []string{"", "0x", s[:len(s)-2], s + "00", s[2:], s[:10] + "zz" + s[12:], s[:len(s)-1]}[g.Int(0, 6, "badid")], true
		case 2: // the node has another output under the ID
			other = g.output()
			wantErr = wantErr || other.id != o.id
		case 3:
			wantErr = true
		}
		serve39(func(_ int, r req39) reply39 {
			if strings.Contains(r.path, "/core/v3/outputs/") {
				switch mode {
				case 2:
					return reply39{status: 200, body: kit.Cat(kit.EncOutput(other.out), other.proof)}
				case 3:
					return reply39{status: 404}
				}
				return reply39{status: 200, body: kit.Cat(kit.EncOutput(o.out), o.proof)}
			}
			return reply39{status: 200, body: items39(ids, slot, 1, "")}
		})
		var id *iotago.OutputID
		var got iotago.Output
		var at iotago.SlotIndex
		var err error
		is := func(i *iotago.OutputID, o iotago.Output, s iotago.SlotIndex, e error) {
			id, at, err = i, s, e
			if e == nil {
				got = o
			}
		}
		if p := kit.Panics(func() {
			switch kind {
			case kit.OAccount:
				path += "account/" + acc.Bech32(hrp)
				i, o, s, e := cl.ix.Account(ctx, acc)
				is(i, o, s, e)
			case kit.OAnchor:
				path += "anchor/" + anc.Bech32(hrp)
				i, o, s, e := cl.ix.Anchor(ctx, anc)
				is(i, o, s, e)
			case kit.OFoundry:
				path += "foundry/" + hx(fid[:])
				i, o, s, e := cl.ix.Foundry(ctx, fid)
				is(i, o, s, e)
			case kit.ONFT:
				path += "nft/" + nft.Bech32(hrp)
				i, o, s, e := cl.ix.NFT(ctx, nft)
				is(i, o, s, e)
			case kit.ODelegation:
				path += "delegation/" + hx(did[:])
				i, o, s, e := cl.ix.Delegation(ctx, did)
				is(i, o, s, e)
			}
		}); p != nil {
			kit.Fail(rt, "query %s for which the server has the items %q and a %T panics: %v", path, ids, o.out, p)
		}
		rs := seen39()
		asked(rt, cl, call39{name: "single query", method: "GET", path: path, accept: mJSON}, rs[0])
		if len(rs) > 1 {
			asked(rt, cl, call39{name: "fetch", method: "GET", path: core + "/outputs/" + hx(o.id[:]), accept: mBin}, rs[1])
		}
		c.Label(fmt.Sprintf("mode %d error %v", mode, wantErr))
		c.NonTrivial(path, o.id[:], mode)
		c.Sample("%s mode %d", path, mode)
		if wantErr {
			if err == nil {
				kit.Fail(rt, "query %s for which the server has the items %q and a %T (mode %d) is no error", path, ids, o.out, mode)
			}
			if mode == 0 && !errors.Is(err, nodeclient.ErrIndexerNotFound) {
				kit.Fail(rt, "no result gives the error %v", err)
			}
			return
		}
		kit.NoErr(rt, err, "single query")
		if *id != o.id || at != iotago.SlotIndex(slot) || !bytes.Equal(kit.EncOutput(got), kit.EncOutput(o.out)) {
			kit.Fail(rt, "query %s returns %s at %d, want %s at %d\noutput %x", path, id.ToHex(), at, o.id.ToHex(), slot, kit.EncOutput(got))
		}
	})
}

// TestC39_Issuer: payloads sent to a block issuer.
func TestC39_Issuer(t *testing.T) {
	kit.Check(t, 200, func(rt *rapid.T, c *kit.Case) {
		g := gen39{&kit.G{T: rt, E: kit.GenEnv(rt)}}
		cl := client39(rt, g.G)
		ctx := context.Background()
		a := g.E.API()
		acc := g.Addr(kit.KAcc, "issuer").(*iotago.AccountAddress)
		zeros := g.Int(0, 9, "zeros")
		bid := g.BlockID("bid")
		iss := new(api.IssuanceBlockHeaderResponse)
		g.Fill(reflect.ValueOf(iss).Elem(), "issuance")
		iss.LatestCommitment.ReferenceManaCost = iotago.Mana(g.U64Max(1000, "rmc"))
		if iss.LatestCommitment.Slot == 0 {
			iss.LatestCommitment.Slot = 1
		}
		var payload iotago.ApplicationPayload
		set := iss.LatestCommitment.Slot // of the transaction that is built
		cid := g.CommitmentID("cid")
		withTx := g.Bool("builder")
		if !withTx {
			if g.Bool("tagged") {
				payload = g.Tagged("td")
			} else {
				payload = g.Tx(kit.TxOpt{MaxIn: 2, MaxOut: 2})
			}
		} else {
			cid = kit.RefCommitmentID(iss.LatestCommitment)
		}
		bad := g.Int(0, 8, "fault")
		serve39(func(_ int, r req39) reply39 {
			switch {
			case strings.HasSuffix(r.path, "/issue"):
				if bad == 0 {
					return reply39{status: 400, body: []byte(`{"error":{"code":"400","message":"no"}}`)}
				}
				return reply39{status: 201, body: kit.JText(map[string]any{"blockId": hx(bid[:])})}
			case strings.HasSuffix(r.path, "/issuance"):
				return reply39{status: 200, body: kit.JText(kit.RefResponse(reflect.ValueOf(iss)))}
			}
			if bad == 1 {
				return reply39{status: 503}
			}
			return reply39{status: 200, body: kit.JText(map[string]any{"blockIssuerAddress": acc.Bech32(a.ProtocolParameters().Bech32HRP()), "powTargetTrailingZeros": zeros})}
		})
		var res *api.BlockCreatedResponse
		var err error
		if p := kit.Panics(func() {
			if !withTx {
				res, err = cl.bi.SendPayload(ctx, payload, cid)
				return
			}
			key := kit.Keys()[g.Int(0, kit.KeyN-1, "key")]
			slot := iss.LatestCommitment.Slot
			b := builder.NewTransactionBuilder(a, iotago.NewInMemoryAddressSigner(iotago.NewAddressKeysForEd25519Address(key.Addr, key.Priv)))
			var in iotago.OutputID
			txid := iotago.TransactionIDRepresentingData(min(slot, a.ProtocolParameters().GenesisSlot()), []byte("in"))
			copy(in[:], txid[:])
			amount := iotago.BaseToken(g.Int(1000000, 2000000, "amount"))
			b.AddInput(&builder.TxInput{UnlockTarget: key.Addr, InputID: in, Input: &iotago.BasicOutput{Amount: amount, Mana: 1 << 40, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: key.Addr}}}})
			b.AddOutput(&iotago.BasicOutput{Amount: amount, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: key.Addr}}})
			if g.Bool("slot?") {
				// a slot the caller chose is kept
				set = max(1, txid.Slot(), slot-min(slot, 3)+iotago.SlotIndex(g.Int(0, 6, "slot")))
				b.SetCreationSlot(set)
			}
			payload, res, err = cl.bi.SendPayloadWithTransactionBuilder(ctx, b, 0)
		}); p != nil {
			kit.Fail(rt, "sending a payload panics: %v", p)
		}
		c.Label(fmt.Sprintf("builder %v fault %v", withTx, bad < 2))
		if bad < 2 {
			if err == nil {
				kit.Fail(rt, "a refused payload is no error")
			}
			c.NonTrivial("refused", bid[:])
			return
		}
		if err != nil && withTx {
			if tooBig := iss.LatestCommitment.Slot > 1<<31; tooBig {
				return
			}
		}
		kit.NoErr(rt, err, "send payload")
		if res.BlockID != bid {
			kit.Fail(rt, "the block ID is %s, want %s", res.BlockID.ToHex(), hx(bid[:]))
		}
		rs := seen39()
		last := rs[len(rs)-1]
		var enc []byte
		switch p := payload.(type) {
		case *iotago.TaggedData:
			enc = kit.EncTagged(p)
		case *iotago.SignedTransaction:
			enc = kit.EncSignedTx(p)
		default:
			kit.Fail(rt, "payload %T", payload)
		}
		asked(rt, cl, call39{name: "issuer info", method: "GET", path: "/api/blockissuer/v1/info"}, rs[0])
		asked(rt, cl, call39{name: "issue", method: "POST", path: "/api/blockissuer/v1/issue", ctype: mBin, reqBody: enc}, last)
		if h := last.hdr.Get("X-IOTA-BlockIssuer-Commitment-ID"); h != hx(cid[:]) {
			kit.Fail(rt, "sends the commitment %q, want %s", h, hx(cid[:]))
		}
		nonce, err := strconv.ParseUint(last.hdr.Get("X-IOTA-BlockIssuer-PoW-Nonce"), 10, 64)
		kit.NoErr(rt, err, "nonce")
		dig := kit.Blake(enc)
		if z := zeros38(dig[:], nonce); z < zeros {
			kit.Fail(rt, "nonce %d for %x has %d zeros, want %d", nonce, enc, z, zeros)
		}
		if withTx {
			tx := payload.(*iotago.SignedTransaction)
			if tx.Transaction.CreationSlot != set {
				kit.Fail(rt, "the transaction is of slot %d, want %d", tx.Transaction.CreationSlot, set)
			}
			cost := new(big.Int).Mul(kit.RefWork{W: g.E.WS}.Block(&iotago.Block{Body: &iotago.BasicBlockBody{Payload: tx}}), new(big.Int).SetUint64(uint64(iss.LatestCommitment.ReferenceManaCost)))
			sum := new(big.Int)
			for _, al := range tx.Transaction.Allotments {
				if al.AccountID != acc.AccountID() {
					kit.Fail(rt, "mana is allotted to %s", al.AccountID.ToHex())
				}
				sum.SetUint64(uint64(al.Mana))
			}
			if sum.Cmp(cost) != 0 {
				kit.Fail(rt, "%s mana is allotted to the issuer, the block costs %s", sum, cost)
			}
		}
		c.NonTrivial(enc, cid[:], zeros)
		c.Sample("payload of %d bytes, %d zeros", len(enc), zeros)
	})
}

// C39: a client knows the protocol versions of the node's info, and offers the plugins the node lists.
func TestC39_Connect(t *testing.T) {
	plugins := []string{"management/v1", "indexer/v2", "mqtt/v2", "blockissuer/v1"}
	kit.Check(t, 600, func(rt *rapid.T, c *kit.Case) {
		g := gen39{&kit.G{T: rt, E: kit.GenEnv(rt)}}
		ctx := context.Background()
		info := info39(g.G)
		committed := g.E.API().TimeProvider().EpochFromSlot(info.Status.LatestCommitmentID.Slot()) // C14
		at := iotago.EpochIndex(0)
		switch g.Int(0, 5, "from epoch") {
		case 0, 1:
			at = committed
		case 2:
			at = committed / 2
		}
		info.ProtocolParameters[0].StartEpoch = at
		fault := "none"
		what := g.Int(0, 9, "fault")
		switch what {
		case 3:
			fault = "version the client does not support"
			p := params34(g.E, 4, g.Int(0, 3, "variant"))
			info.ProtocolParameters = append(info.ProtocolParameters, &api.InfoResProtocolParameters{StartEpoch: at + 7, Parameters: p})
			if g.Bool("alone") {
				info.ProtocolParameters = info.ProtocolParameters[1:]
			}
		case 4:
			fault = "no parameters"
			info.ProtocolParameters = nil
		case 6:
			fault = "parameters not in force"
			info.ProtocolParameters[0].StartEpoch = committed + 1 + iotago.EpochIndex(g.Int(0, 3, "later"))
		case 5:
			fault = "work scores that overflow"
			s := g.E.Spec
			s.WS.DataByte, s.WS.SignatureEd25519 = ^iotago.WorkScore(0), ^iotago.WorkScore(0)
			info.ProtocolParameters[0].Parameters = s.Params()
		}
		body := kit.JText(kit.RefResponse(reflect.ValueOf(info)))
		a := reply39{status: 200, body: body}
		switch what {
		case 0:
			fault = "status"
			a.status = []int{400, 401, 404, 418, 500, 501, 503}[g.Int(0, 6, "status")]
		case 1:
			fault = "cut"
			a.body = body[:g.Int(0, len(body)-1, "cut")]
		case 2:
			fault = "dropped"
			a.drop = true
		}
		var list []string
		var routes reply39
		var rfault bool
		drawRoutes := func() {
			list = nil
			for _, p := range plugins {
				switch g.Int(0, 5, "listed "+p) {
				case 0, 1, 2:
					list = append(list, p)
				case 3:
					list = append(list, []string{strings.ToUpper(p), p + "/", p[:len(p)-1], "/" + p, p + "0", "core/v3"}[g.Int(0, 5, "like")])
				}
			}
			routes = reply39{status: 200, body: kit.JText(map[string]any{"routes": append([]any{}, anys(list)...)})}
			if rfault = g.Rare(5, "routes fault"); rfault {
				routes = reply39{status: 500, body: []byte(`{"error":{"code":"500","message":"no"}}`)}
			}
		}
		drawRoutes()
		u := serve39(func(_ int, r req39) reply39 {
			if strings.HasSuffix(r.path, "/routes") {
				return routes
			}
			return a
		})
		hc := &http.Client{}
		cl, err := nodeclient.New(u, nodeclient.WithHTTPClient(hc))
		if (err == nil) != (fault == "none") || (cl == nil) != (err != nil) {
			kit.Fail(rt, "connecting to a node with fault %q: %v, %v", fault, cl, err)
		}
		c.Label("info fault: " + fault)
		c.NonTrivial(body, fmt.Sprint(list, rfault, fault))
		if err != nil {
			return
		}
		if cl.HTTPClient() != hc || cl.BaseURL != u {
			kit.Fail(rt, "client of %s with another HTTP client or base URL %s", u, cl.BaseURL)
		}
		same := func(what string, got iotago.API) {
			want := info.ProtocolParameters[0].Parameters
			w, err1 := want.Hash()
			h, err2 := got.ProtocolParameters().Hash()
			if err1 != nil || err2 != nil || w != h {
				kit.Fail(rt, "%s has other parameters than the node's info", what)
			}
		}
		got, err := cl.APIForVersion(3)
		kit.NoErr(rt, err, "APIForVersion")
		tp := got.TimeProvider()
		same("APIForVersion", got)
		same("APIForEpoch", cl.APIForEpoch(at+iotago.EpochIndex(g.Int(0, 3, "e"))))
		same("APIForSlot at the start", cl.APIForSlot(tp.EpochStart(at)))
		if end := tp.EpochEnd(at); end > tp.EpochStart(at) && uint64(end)*uint64(got.ProtocolParameters().SlotDurationInSeconds()) < 9e9 { // 292 years, the largest time.Duration
			same("APIForTime", cl.APIForTime(tp.SlotStartTime(end)))
		}
		same("LatestAPI", cl.LatestAPI())
		same("CommittedAPI", cl.CommittedAPI())
		if _, err := cl.APIForVersion(4); err == nil {
			kit.Fail(rt, "an API for version 4")
		}
		// the node may offer other plugins later
		for round := 0; round < 2; round++ {
			if round == 1 {
				drawRoutes()
			}
			for i, p := range plugins {
				has := false
				for _, l := range list {
					has = has || l == p
				}
				var got any
				var err, none error
				switch i {
				case 0:
					got, err = cl.Management(ctx)
					none = nodeclient.ErrManagementPluginNotAvailable
				case 1:
					got, err = cl.Indexer(ctx)
					none = nodeclient.ErrIndexerPluginNotAvailable
				case 2:
					got, err = cl.EventAPI(ctx)
					none = nodeclient.ErrMQTTPluginNotAvailable
				case 3:
					got, err = cl.BlockIssuer(ctx)
					none = nodeclient.ErrBlockIssuerPluginNotAvailable
				}
				ok, err2 := cl.NodeSupportsRoute(ctx, p)
				switch {
				case rfault:
					if err == nil || errors.Is(err, none) || err2 == nil {
						kit.Fail(rt, "%s although the routes are not served: %v, %v", p, err, err2)
					}
				case has && (err != nil || kit.IsNil(got)) || !has && !errors.Is(err, none):
					kit.Fail(rt, "%s of a node with routes %q: %v", p, list, err)
				case err2 != nil || ok != has:
					kit.Fail(rt, "NodeSupportsRoute(%s) of a node with routes %q: %v, %v", p, list, ok, err2)
				}
			}
		}
		c.Sample("version 3 from epoch %d, routes %q", at, list)
	})
}

func anys(xs []string) (r []any) {
	for _, x := range xs {
		r = append(r, x)
	}
	return
}
