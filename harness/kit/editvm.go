package kit

import (
	"crypto/ed25519"
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
)

var edOrder, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

// chainKinds builds the three chain unlocks.
func chainUnlock(k int, ref uint16) iotago.Unlock {
	switch k {
	case 0:
		return &iotago.AccountUnlock{Reference: ref}
	case 1:
		return &iotago.AnchorUnlock{Reference: ref}
	case 2:
		return &iotago.NFTUnlock{Reference: ref}
	}
	return &iotago.ReferenceUnlock{Reference: ref}
}

func (s *Scn) breakSig(x iotago.Signature) *iotago.Ed25519Signature {
	c := *x.(*iotago.Ed25519Signature)
	switch s.Int(0, 4, "sigop") {
	case 0:
		c.Signature[s.Int(0, 63, "sigbyte")] ^= 1 << s.Int(0, 7, "sigbit")
	case 1:
		c.PublicKey[s.Int(0, 31, "pkbyte")] ^= 1 << s.Int(0, 7, "pkbit")
	case 2: // same scalar, other representation
		v := new(big.Int)
		for i := 63; i >= 32; i-- {
			v.Lsh(v, 8)
			v.Or(v, big.NewInt(int64(c.Signature[i])))
		}
		v.Add(v, edOrder)
		if v.BitLen() <= 256 {
			copy(c.Signature[32:], LE256(v))
		}
	case 3: // a valid signature of another message by the same key
		for _, k := range keys {
			if string(k.Priv.Public().(ed25519.PublicKey)) == string(c.PublicKey[:]) {
				return SignWith(k, Blake([]byte("other")))
			}
		}
	default: // the right message, signed by another key
		return SignWith(keys[s.Int(0, len(keys)-1, "otherkey")], s.msg)
	}
	return &c
}

// EditUnlocks makes one edit of the unlocks or of the signed content and tells which.
func (s *Scn) EditUnlocks(v *VMCase) string {
	s.msg = RefSigningMsg(v.Tx.Transaction)
	us := v.Tx.Unlocks
	n := len(us)
	i := s.Int(0, n-1, "edit.at")
	ref := func() uint16 {
		if i > 0 && !s.Rare(4, "edit.anyref") {
			return uint16(s.Int(0, i-1, "edit.ref"))
		}
		return uint16(s.Int(0, n, "edit.ref"))
	}
	switch s.Int(0, 9, "edit") {
	case 0, 1:
		if u, ok := us[i].(*iotago.SignatureUnlock); ok {
			us[i] = &iotago.SignatureUnlock{Signature: s.breakSig(u.Signature)}
			return "signature changed"
		}
		us[i] = &iotago.SignatureUnlock{Signature: SignWith(keys[s.Int(0, len(keys)-1, "edit.key")], s.msg)}
		return "signature instead"
	case 2:
		j := s.Int(0, n-1, "edit.with")
		us[i], us[j] = us[j], us[i]
		return "unlocks swapped"
	case 3, 4:
		us[i] = chainUnlock(s.Int(0, 3, "edit.kind"), ref())
		return "referencing unlock instead"
	case 5:
		switch u := us[i].(type) {
		case *iotago.ReferenceUnlock:
			us[i] = chainUnlock(s.Int(0, 2, "edit.kind"), u.Reference)
		case *iotago.AccountUnlock:
			us[i] = chainUnlock(s.Int(1, 3, "edit.kind"), u.Reference)
		case *iotago.AnchorUnlock:
			us[i] = chainUnlock([]int{0, 2, 3}[s.Int(0, 2, "edit.kind")], u.Reference)
		case *iotago.NFTUnlock:
			us[i] = chainUnlock([]int{0, 1, 3}[s.Int(0, 2, "edit.kind")], u.Reference)
		case *iotago.MultiUnlock:
			us[i] = u.Unlocks[s.Int(0, len(u.Unlocks)-1, "edit.member")]
		default:
			us[i] = &iotago.MultiUnlock{Unlocks: iotago.Unlocks{us[i], &iotago.EmptyUnlock{}}}
		}
		return "other kind of unlock"
	case 6:
		return s.EditMulti(v)
	}
	// the signed content
	tx := v.Tx.Transaction
	es := tx.TransactionEssence
	switch s.Int(0, 5, "edit.content") {
	case 0:
		es.CreationSlot++
	case 1:
		if b, ok := tx.Outputs[s.Int(0, len(tx.Outputs)-1, "edit.out")].(*iotago.BasicOutput); ok && len(b.UnlockConditions) == 1 {
			b.UnlockConditions[0] = &iotago.AddressUnlockCondition{Address: keys[len(keys)-1].Addr}
		}
	case 2:
		es.Payload = &iotago.TaggedData{Tag: []byte{1}, Data: []byte{}}
	case 3:
		c := byte(0)
		if len(es.Capabilities) > 0 {
			c = es.Capabilities[0]
		}
		es.Capabilities = iotago.TransactionCapabilitiesBitMask{c | 1<<s.Int(0, 5, "edit.cap")}
	case 4:
		if len(es.Allotments) > 0 {
			es.Allotments[0] = &iotago.Allotment{AccountID: es.Allotments[0].AccountID, Mana: es.Allotments[0].Mana}
			es.Allotments[0].AccountID[31] ^= 1
		} else {
			es.CreationSlot++
		}
	default:
		if len(es.ContextInputs) > 0 {
			c := *es.ContextInputs[0].(*iotago.CommitmentInput)
			c.CommitmentID[5] ^= 1
			es.ContextInputs[0] = &c
		}
	}
	return "signed content changed"
}

// EditMulti edits one multi unlock, if there is one.
func (s *Scn) EditMulti(v *VMCase) string {
	us := v.Tx.Unlocks
	s.msg = RefSigningMsg(v.Tx.Transaction)
	var at, again []int
	for i, u := range us {
		if _, ok := u.(*iotago.MultiUnlock); ok {
			at = append(at, i)
		}
		if r, ok := u.(*iotago.ReferenceUnlock); ok && int(r.Reference) < i {
			if _, ok := us[r.Reference].(*iotago.MultiUnlock); ok {
				again = append(again, i)
			}
		}
	}
	if len(again) > 0 && s.Bool("multi.again") {
		// a second multi unlock with one member more or less, which may still reach the threshold
		i := again[s.Int(0, len(again)-1, "multi.second")]
		m := &iotago.MultiUnlock{}
		n := 0
		for _, u := range us[us[i].(*iotago.ReferenceUnlock).Reference].(*iotago.MultiUnlock).Unlocks {
			m.Unlocks = append(m.Unlocks, u)
			if _, ok := u.(*iotago.EmptyUnlock); !ok {
				n++
			}
		}
		o, _ := v.owner(i, OutChains(v.Tx.Transaction))
		if r, ok := o.(*iotago.RestrictedAddress); ok {
			o = r.Address
		}
		ma, ok := o.(*iotago.MultiAddress)
		for k := range m.Unlocks {
			_, empty := m.Unlocks[k].(*iotago.EmptyUnlock)
			if !empty && n > 1 && s.Rare(3, "multi.less") {
				m.Unlocks[k] = &iotago.EmptyUnlock{}
				break
			}
			if !empty || !ok || k >= len(ma.Addresses) {
				continue
			}
			if h, ok := keyHash(ma.Addresses[k].Address); ok && keyOf(h) != nil {
				m.Unlocks[k] = &iotago.SignatureUnlock{Signature: SignWith(keyOf(h), s.msg)}
				break
			}
		}
		us[i] = m
		return "second multi unlock"
	}
	if len(at) == 0 {
		return "nothing"
	}
	i := at[s.Int(0, len(at)-1, "multi.at")]
	m := &iotago.MultiUnlock{Unlocks: append(iotago.Unlocks{}, us[i].(*iotago.MultiUnlock).Unlocks...)}
	us[i] = m
	k := s.Int(0, len(m.Unlocks)-1, "multi.member")
	switch s.Int(0, 8, "multi.edit") {
	case 0:
		m.Unlocks[k] = &iotago.EmptyUnlock{}
		return "member emptied"
	case 1:
		j := s.Int(0, len(m.Unlocks)-1, "multi.with")
		m.Unlocks[k], m.Unlocks[j] = m.Unlocks[j], m.Unlocks[k]
		return "members swapped"
	case 2:
		m.Unlocks = append(m.Unlocks[:k:k], m.Unlocks[k+1:]...)
		return "member dropped"
	case 3:
		m.Unlocks = append(m.Unlocks, &iotago.EmptyUnlock{})
		return "member added"
	case 4:
		m.Unlocks[k] = chainUnlock(s.Int(0, 3, "multi.kind"), uint16(s.Int(0, len(us)-1, "multi.ref")))
		return "member referencing"
	case 5:
		m.Unlocks[k] = &iotago.SignatureUnlock{Signature: SignWith(keys[s.Int(0, len(keys)-1, "multi.key")], s.msg)}
		return "member signature of some key"
	case 6:
		j := s.Int(0, len(m.Unlocks)-1, "multi.dup")
		m.Unlocks[k] = m.Unlocks[j]
		return "member duplicated"
	case 7:
		m.Unlocks[k] = &iotago.MultiUnlock{Unlocks: iotago.Unlocks{&iotago.EmptyUnlock{}, &iotago.EmptyUnlock{}}}
		return "nested multi"
	}
	if u, ok := m.Unlocks[k].(*iotago.SignatureUnlock); ok {
		m.Unlocks[k] = &iotago.SignatureUnlock{Signature: s.breakSig(u.Signature)}
		return "member signature changed"
	}
	return "nothing"
}

// NoDeviations makes a scenario valid throughout.
func (s *Scn) NoDeviations() { s.budget = 0 }
