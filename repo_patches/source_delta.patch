From 2bf381675d025dbd0ec5f0ab12c7790bff08f91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 01/50] fix: include the payload length prefix in the size of a
 transaction essence with payload

---
 transaction_essence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction_essence.go b/transaction_essence.go
index d8dbc80..657a552 100644
--- a/transaction_essence.go
+++ b/transaction_essence.go
@@ -69,7 +69,7 @@ func (u *TransactionEssence) Clone() *TransactionEssence {
 func (u *TransactionEssence) Size() int {
 	payloadSize := serializer.PayloadLengthByteSize
 	if u.Payload != nil {
-		payloadSize = u.Payload.Size()
+		payloadSize += u.Payload.Size()
 	}
 
 	// NetworkID
-- 
2.43.0


From 9f0c7fb05342c04452f501383c0d4163c07ebd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 02/50] fix: exempt commitment inputs to the genesis slot from
 the age check for any genesis slot

---
 block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block.go b/block.go
index b98835c..e74f456 100644
--- a/block.go
+++ b/block.go
@@ -426,7 +426,7 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 		if cInput := signedTransaction.Transaction.CommitmentInput(); cInput != nil {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
-			if cInputSlot > 0 && // Don't filter commitments to genesis based on being too recent.
+			if cInputSlot > block.API.ProtocolParameters().GenesisSlot() && // Don't filter commitments to genesis based on being too recent.
 				blockSlot < cInputSlot+minCommittableAge { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
-- 
2.43.0


From 9f8783c981979c74aac25b75a71eaa56ec0e0d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 03/50] fix: do not write into the strong parents' backing
 array when validating parents

---
 block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block.go b/block.go
index e74f456..4dc6a0a 100644
--- a/block.go
+++ b/block.go
@@ -293,7 +293,7 @@ func (b *Block) syntacticallyValidate() error {
 	block := b.Body
 	if len(block.WeakParentIDs()) > 0 {
 		// weak parents must be disjunct to the rest of the parents
-		nonWeakParents := lo.KeyOnlyBy(append(block.StrongParentIDs(), block.ShallowLikeParentIDs()...), func(v BlockID) BlockID {
+		nonWeakParents := lo.KeyOnlyBy(append(append(BlockIDs{}, block.StrongParentIDs()...), block.ShallowLikeParentIDs()...), func(v BlockID) BlockID {
 			return v
 		})
 
-- 
2.43.0


From 2fb8e3bd32665464fbe3d090870a5e7ade20d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 04/50] fix: do not overflow when checking commitment ages of
 blocks near the maximum slot

---
 block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/block.go b/block.go
index 4dc6a0a..34a4f7e 100644
--- a/block.go
+++ b/block.go
@@ -313,12 +313,12 @@ func (b *Block) syntacticallyValidate() error {
 
 	// check that commitment is not too recent.
 	if commitmentSlot > genesisSlot && // Don't filter commitments to genesis based on being too recent.
-		blockSlot < commitmentSlot+minCommittableAge {
+		uint64(blockSlot) < uint64(commitmentSlot)+uint64(minCommittableAge) {
 		return ierrors.WithMessagef(ErrCommitmentTooRecent, "block at slot %d committing to slot %d, min committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), minCommittableAge)
 	}
 
 	// Check that commitment is not too old.
-	if blockSlot > commitmentSlot+maxCommittableAge {
+	if uint64(blockSlot) > uint64(commitmentSlot)+uint64(maxCommittableAge) {
 		return ierrors.WithMessagef(ErrCommitmentTooOld, "block at slot %d committing to slot %d, max committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), maxCommittableAge)
 	}
 
@@ -427,11 +427,11 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
 			if cInputSlot > block.API.ProtocolParameters().GenesisSlot() && // Don't filter commitments to genesis based on being too recent.
-				blockSlot < cInputSlot+minCommittableAge { // filter commitments to future slots.
+				uint64(blockSlot) < uint64(cInputSlot)+uint64(minCommittableAge) { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
 			// Check that commitment input is not too old.
-			if blockSlot > cInputSlot+maxCommittableAge {
+			if uint64(blockSlot) > uint64(cInputSlot)+uint64(maxCommittableAge) {
 				return ierrors.WithMessagef(ErrCommitmentInputTooOld, "block at slot %d with commitment input to slot %d, max committable age %d", blockSlot, cInput.CommitmentID.Slot(), maxCommittableAge)
 			}
 
-- 
2.43.0


From be3c609d4f1ad983b6e24b87a1dda5d409376c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 05/50] fix: reject identifier texts and hex strings of the
 wrong length

---
 address_implicit_account_creation.go | 2 +-
 block_id.gen.go                      | 8 ++++++++
 commitment_id.gen.go                 | 8 ++++++++
 gen/identifier.tmpl                  | 8 ++++++++
 gen/slot_identifier.tmpl             | 8 ++++++++
 identifier.gen.go                    | 8 ++++++++
 identifier_account.gen.go            | 8 ++++++++
 identifier_anchor.gen.go             | 8 ++++++++
 output_id.gen.go                     | 8 ++++++++
 output_id.go                         | 6 ++++++
 signed_transaction_id.gen.go         | 8 ++++++++
 transaction_id.gen.go                | 8 ++++++++
 12 files changed, 87 insertions(+), 1 deletion(-)

diff --git a/address_implicit_account_creation.go b/address_implicit_account_creation.go
index aecc20e..e9f78be 100644
--- a/address_implicit_account_creation.go
+++ b/address_implicit_account_creation.go
@@ -12,7 +12,7 @@ func ParseImplicitAccountCreationAddressFromHexString(hexAddr string) (*Implicit
 		return nil, err
 	}
 
-	if len(addrBytes) < ImplicitAccountCreationAddressBytesLength {
+	if len(addrBytes) != ImplicitAccountCreationAddressBytesLength {
 		return nil, ierrors.New("invalid ImplicitAccountCreationAddress length")
 	}
 
diff --git a/block_id.gen.go b/block_id.gen.go
index e98d820..b4174cc 100644
--- a/block_id.gen.go
+++ b/block_id.gen.go
@@ -47,6 +47,10 @@ func BlockIDFromHexString(hex string) (BlockID, error) {
 		return EmptyBlockID, err
 	}
 
+	if err := IsValidBlockID(b); err != nil {
+		return EmptyBlockID, err
+	}
+
 	s, _, err := BlockIDFromBytes(b)
 
 	return s, err
@@ -92,6 +96,10 @@ func (b BlockID) MarshalText() (text []byte, err error) {
 }
 
 func (b *BlockID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(BlockIDLength) {
+		return ierrors.Errorf("invalid length for BlockID text, expected %d characters, got %d characters", hex.EncodedLen(BlockIDLength), len(text))
+	}
+
 	_, err := hex.Decode(b[:], text)
 
 	return err
diff --git a/commitment_id.gen.go b/commitment_id.gen.go
index 1ea2a0f..2167e72 100644
--- a/commitment_id.gen.go
+++ b/commitment_id.gen.go
@@ -47,6 +47,10 @@ func CommitmentIDFromHexString(hex string) (CommitmentID, error) {
 		return EmptyCommitmentID, err
 	}
 
+	if err := IsValidCommitmentID(b); err != nil {
+		return EmptyCommitmentID, err
+	}
+
 	s, _, err := CommitmentIDFromBytes(b)
 
 	return s, err
@@ -92,6 +96,10 @@ func (c CommitmentID) MarshalText() (text []byte, err error) {
 }
 
 func (c *CommitmentID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(CommitmentIDLength) {
+		return ierrors.Errorf("invalid length for CommitmentID text, expected %d characters, got %d characters", hex.EncodedLen(CommitmentIDLength), len(text))
+	}
+
 	_, err := hex.Decode(c[:], text)
 
 	return err
diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 114670f..9a0b233 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -38,6 +38,10 @@ func {{.Name}}FromHexString(hex string) ({{.Name}}, error) {
 		return Empty{{.Name}}, err
 	}
 
+	if err := IsValid{{.Name}}(bytes); err != nil {
+		return Empty{{.Name}}, err
+	}
+
 	{{.Receiver}}, _, err := {{.Name}}FromBytes(bytes)
 
 	return {{.Receiver}}, err
@@ -84,6 +88,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen({{.Name}}Length) {
+		return ierrors.Errorf("invalid length for {{.Name}} text, expected %d characters, got %d characters", hex.EncodedLen({{.Name}}Length), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/gen/slot_identifier.tmpl b/gen/slot_identifier.tmpl
index 4ee3a39..ca873e5 100644
--- a/gen/slot_identifier.tmpl
+++ b/gen/slot_identifier.tmpl
@@ -63,6 +63,10 @@ func {{.Name}}FromHexString(hex string) ({{.Name}}, error) {
 		return Empty{{.Name}}, err
 	}
 
+	if err := IsValid{{.Name}}(b); err != nil {
+		return Empty{{.Name}}, err
+	}
+
 	s, _, err := {{.Name}}FromBytes(b)
 
 	return s, err
@@ -108,6 +112,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen({{.Name}}Length) {
+		return ierrors.Errorf("invalid length for {{.Name}} text, expected %d characters, got %d characters", hex.EncodedLen({{.Name}}Length), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/identifier.gen.go b/identifier.gen.go
index 9039988..7f9c1b3 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -38,6 +38,10 @@ func IdentifierFromHexString(hex string) (Identifier, error) {
 		return EmptyIdentifier, err
 	}
 
+	if err := IsValidIdentifier(bytes); err != nil {
+		return EmptyIdentifier, err
+	}
+
 	i, _, err := IdentifierFromBytes(bytes)
 
 	return i, err
@@ -84,6 +88,10 @@ func (i Identifier) MarshalText() (text []byte, err error) {
 }
 
 func (i *Identifier) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(IdentifierLength) {
+		return ierrors.Errorf("invalid length for Identifier text, expected %d characters, got %d characters", hex.EncodedLen(IdentifierLength), len(text))
+	}
+
 	_, err := hex.Decode(i[:], text)
 
 	return err
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index 155f55d..f174f6c 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -38,6 +38,10 @@ func AccountIDFromHexString(hex string) (AccountID, error) {
 		return EmptyAccountID, err
 	}
 
+	if err := IsValidAccountID(bytes); err != nil {
+		return EmptyAccountID, err
+	}
+
 	a, _, err := AccountIDFromBytes(bytes)
 
 	return a, err
@@ -84,6 +88,10 @@ func (a AccountID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AccountID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(AccountIDLength) {
+		return ierrors.Errorf("invalid length for AccountID text, expected %d characters, got %d characters", hex.EncodedLen(AccountIDLength), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 32f009d..e5d0bb2 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -38,6 +38,10 @@ func AnchorIDFromHexString(hex string) (AnchorID, error) {
 		return EmptyAnchorID, err
 	}
 
+	if err := IsValidAnchorID(bytes); err != nil {
+		return EmptyAnchorID, err
+	}
+
 	a, _, err := AnchorIDFromBytes(bytes)
 
 	return a, err
@@ -84,6 +88,10 @@ func (a AnchorID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AnchorID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(AnchorIDLength) {
+		return ierrors.Errorf("invalid length for AnchorID text, expected %d characters, got %d characters", hex.EncodedLen(AnchorIDLength), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/output_id.gen.go b/output_id.gen.go
index 77af5e6..8f37e12 100644
--- a/output_id.gen.go
+++ b/output_id.gen.go
@@ -37,6 +37,10 @@ func OutputIDFromHexString(hex string) (OutputID, error) {
 		return EmptyOutputID, err
 	}
 
+	if err := IsValidOutputID(b); err != nil {
+		return EmptyOutputID, err
+	}
+
 	s, _, err := OutputIDFromBytes(b)
 
 	return s, err
@@ -82,6 +86,10 @@ func (o OutputID) MarshalText() (text []byte, err error) {
 }
 
 func (o *OutputID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(OutputIDLength) {
+		return ierrors.Errorf("invalid length for OutputID text, expected %d characters, got %d characters", hex.EncodedLen(OutputIDLength), len(text))
+	}
+
 	_, err := hex.Decode(o[:], text)
 
 	return err
diff --git a/output_id.go b/output_id.go
index 2677f9d..59510d0 100644
--- a/output_id.go
+++ b/output_id.go
@@ -85,6 +85,9 @@ func (oih OutputIDHex) SplitParts() (*TransactionID, uint16, error) {
 	if err != nil {
 		return nil, 0, err
 	}
+	if err := IsValidOutputID(outputIDBytes); err != nil {
+		return nil, 0, err
+	}
 	var txID TransactionID
 	copy(txID[:], outputIDBytes[:TransactionIDLength])
 	outputIndex := binary.LittleEndian.Uint16(outputIDBytes[TransactionIDLength : TransactionIDLength+serializer.UInt16ByteSize])
@@ -139,6 +142,9 @@ func (ids HexOutputIDs) OutputIDs() (OutputIDs, error) {
 		if err != nil {
 			return nil, err
 		}
+		if err := IsValidOutputID(val); err != nil {
+			return nil, err
+		}
 		copy(vals[i][:], val)
 	}
 
diff --git a/signed_transaction_id.gen.go b/signed_transaction_id.gen.go
index 8ecf09f..be04fe0 100644
--- a/signed_transaction_id.gen.go
+++ b/signed_transaction_id.gen.go
@@ -47,6 +47,10 @@ func SignedTransactionIDFromHexString(hex string) (SignedTransactionID, error) {
 		return EmptySignedTransactionID, err
 	}
 
+	if err := IsValidSignedTransactionID(b); err != nil {
+		return EmptySignedTransactionID, err
+	}
+
 	s, _, err := SignedTransactionIDFromBytes(b)
 
 	return s, err
@@ -92,6 +96,10 @@ func (t SignedTransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *SignedTransactionID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(SignedTransactionIDLength) {
+		return ierrors.Errorf("invalid length for SignedTransactionID text, expected %d characters, got %d characters", hex.EncodedLen(SignedTransactionIDLength), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
diff --git a/transaction_id.gen.go b/transaction_id.gen.go
index 85b702b..770fde3 100644
--- a/transaction_id.gen.go
+++ b/transaction_id.gen.go
@@ -47,6 +47,10 @@ func TransactionIDFromHexString(hex string) (TransactionID, error) {
 		return EmptyTransactionID, err
 	}
 
+	if err := IsValidTransactionID(b); err != nil {
+		return EmptyTransactionID, err
+	}
+
 	s, _, err := TransactionIDFromBytes(b)
 
 	return s, err
@@ -92,6 +96,10 @@ func (t TransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *TransactionID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(TransactionIDLength) {
+		return ierrors.Errorf("invalid length for TransactionID text, expected %d characters, got %d characters", hex.EncodedLen(TransactionIDLength), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
-- 
2.43.0


From 480840e496bf7e7ff1c9798d808170cc10c1aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 06/50] fix: report the consumed instead of the given number of
 bytes when parsing identifiers

---
 gen/identifier.tmpl       | 2 +-
 identifier.gen.go         | 2 +-
 identifier_account.gen.go | 2 +-
 identifier_anchor.gen.go  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 9a0b233..6b86f85 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -73,7 +73,7 @@ func {{.Name}}FromBytes(bytes []byte) ({{.Name}}, int, error) {
 	}
 	copy({{.Receiver}}[:], bytes)
 
-	return {{.Receiver}}, len(bytes), nil
+	return {{.Receiver}}, {{.Name}}Length, nil
 }
 
 func ({{.Receiver}} {{.Name}}) Bytes() ([]byte, error) {
diff --git a/identifier.gen.go b/identifier.gen.go
index 7f9c1b3..47abe8f 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -73,7 +73,7 @@ func IdentifierFromBytes(bytes []byte) (Identifier, int, error) {
 	}
 	copy(i[:], bytes)
 
-	return i, len(bytes), nil
+	return i, IdentifierLength, nil
 }
 
 func (i Identifier) Bytes() ([]byte, error) {
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index f174f6c..6c2340c 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -73,7 +73,7 @@ func AccountIDFromBytes(bytes []byte) (AccountID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AccountIDLength, nil
 }
 
 func (a AccountID) Bytes() ([]byte, error) {
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index e5d0bb2..f520bcb 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -73,7 +73,7 @@ func AnchorIDFromBytes(bytes []byte) (AnchorID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AnchorIDLength, nil
 }
 
 func (a AnchorID) Bytes() ([]byte, error) {
-- 
2.43.0


From 0f2557450a931e69baf951875eeb4fdbf6cf3249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 07/50] fix: cloning a multi address always panicked

---
 address_multi.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/address_multi.go b/address_multi.go
index 9a9a3d1..013781b 100644
--- a/address_multi.go
+++ b/address_multi.go
@@ -65,11 +65,11 @@ func (addr *MultiAddress) Clone() Address {
 		Threshold: addr.Threshold,
 	}
 
-	for i, address := range addr.Addresses {
-		cpy.Addresses[i] = &AddressWithWeight{
+	for _, address := range addr.Addresses {
+		cpy.Addresses = append(cpy.Addresses, &AddressWithWeight{
 			Address: address.Address.Clone(),
 			Weight:  address.Weight,
-		}
+		})
 	}
 
 	return cpy
-- 
2.43.0


From 0b6eff09c4ed0995d453060b91fd2f2852c1d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 08/50] fix: block issuer keys could not be parsed from bytes

---
 block_issuer_key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block_issuer_key.go b/block_issuer_key.go
index 7f6a39e..45cfad5 100644
--- a/block_issuer_key.go
+++ b/block_issuer_key.go
@@ -177,7 +177,7 @@ func BlockIssuerKeyFromReader(reader io.ReadSeeker) (BlockIssuerKey, error) {
 func BlockIssuerKeyFromBytes(bytes []byte) (BlockIssuerKey, int, error) {
 	var blockIssuerKey BlockIssuerKey
 
-	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, blockIssuerKey)
+	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, &blockIssuerKey)
 	if err != nil {
 		return nil, 0, ierrors.Wrap(err, "unable to decode block issuer key")
 	}
-- 
2.43.0


From 2ba393c2dcc5da84b23068170af7d9a8fb6525a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 09/50] fix: reject trailing data in bech32 strings of multi
 addresses

---
 address.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/address.go b/address.go
index 49e8c3f..34afd61 100644
--- a/address.go
+++ b/address.go
@@ -221,11 +221,15 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 	//nolint:exhaustive
 	switch addrType {
 	case AddressMulti:
-		multiAddrRef, _, err := MultiAddressReferenceFromBytes(addrData)
+		multiAddrRef, consumed, err := MultiAddressReferenceFromBytes(addrData)
 		if err != nil {
 			return "", nil, ierrors.Wrap(err, "invalid multi address")
 		}
 
+		if consumed != len(addrData) {
+			return "", nil, serializer.ErrDeserializationNotAllConsumed
+		}
+
 		return NetworkPrefix(hrp), multiAddrRef, nil
 
 	case AddressRestricted:
@@ -240,11 +244,15 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 			}
 
 			// get the address capabilities from the remaining bytes
-			capabilities, _, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
+			capabilities, capabilitiesConsumed, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
 			if err != nil {
 				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
 			}
 
+			if 1+consumed+capabilitiesConsumed != len(addrData) {
+				return "", nil, serializer.ErrDeserializationNotAllConsumed
+			}
+
 			return NetworkPrefix(hrp), &RestrictedAddress{
 				Address:             multiAddrRef,
 				AllowedCapabilities: capabilities,
-- 
2.43.0


From d9de8780eda1a351c8ca30d69d6d535db33d8dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 10/50] fix: clones of block issuer features and delegation
 outputs shared memory with the original

---
 feat_blockissuer.go  | 2 +-
 output_delegation.go | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/feat_blockissuer.go b/feat_blockissuer.go
index 400d315..ad0f898 100644
--- a/feat_blockissuer.go
+++ b/feat_blockissuer.go
@@ -40,7 +40,7 @@ type BlockIssuerFeature struct {
 func (s *BlockIssuerFeature) Clone() Feature {
 	return &BlockIssuerFeature{
 		ExpirySlot:      s.ExpirySlot,
-		BlockIssuerKeys: s.BlockIssuerKeys,
+		BlockIssuerKeys: s.BlockIssuerKeys.Clone(),
 	}
 }
 
diff --git a/output_delegation.go b/output_delegation.go
index 3d85146..2e37f16 100644
--- a/output_delegation.go
+++ b/output_delegation.go
@@ -112,11 +112,17 @@ type DelegationOutput struct {
 }
 
 func (d *DelegationOutput) Clone() Output {
+	var validatorAddress *AccountAddress
+	if d.ValidatorAddress != nil {
+		//nolint:forcetypeassert // we can safely assume that this is an AccountAddress
+		validatorAddress = d.ValidatorAddress.Clone().(*AccountAddress)
+	}
+
 	return &DelegationOutput{
 		Amount:           d.Amount,
 		DelegatedAmount:  d.DelegatedAmount,
 		DelegationID:     d.DelegationID,
-		ValidatorAddress: d.ValidatorAddress,
+		ValidatorAddress: validatorAddress,
 		StartEpoch:       d.StartEpoch,
 		EndEpoch:         d.EndEpoch,
 		UnlockConditions: d.UnlockConditions.Clone(),
-- 
2.43.0


From 78ca43a60674ddfa2d6769a5d7386615c2d4f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 11/50] fix: decoding a truncated Ed25519 signature panicked or
 was accepted

---
 signature_ed25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signature_ed25519.go b/signature_ed25519.go
index 6c2e492..6e689d3 100644
--- a/signature_ed25519.go
+++ b/signature_ed25519.go
@@ -38,6 +38,10 @@ func (e *Ed25519Signature) Clone() Signature {
 }
 
 func (e *Ed25519Signature) Decode(b []byte) (int, error) {
+	if len(b) < Ed25519SignatureSerializedBytesSize-1 {
+		return 0, ierrors.WithMessagef(serializer.ErrDeserializationNotEnoughData, "expected at least %d bytes, got %d bytes", Ed25519SignatureSerializedBytesSize-1, len(b))
+	}
+
 	copy(e.PublicKey[:], b[:ed25519.PublicKeySize])
 	copy(e.Signature[:], b[ed25519.PublicKeySize:])
 
-- 
2.43.0


From c06c17a29e33795e180b982a8ba1e2e356295daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 12/50] fix: report malformed JSON as an error instead of
 panicking

---
 api_v3.go                    |  9 ++++++++-
 merklehasher/merkle_proof.go | 11 +++++++++--
 nodeclient/http.go           | 13 ++++++++++++-
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/api_v3.go b/api_v3.go
index 0393cae..96e7113 100644
--- a/api_v3.go
+++ b/api_v3.go
@@ -179,7 +179,14 @@ func (v *v3api) JSONEncode(obj any, opts ...serix.Option) ([]byte, error) {
 	return v.serixAPI.JSONEncode(v.context(), obj, opts...)
 }
 
-func (v *v3api) JSONDecode(jsonData []byte, obj any, opts ...serix.Option) error {
+func (v *v3api) JSONDecode(jsonData []byte, obj any, opts ...serix.Option) (err error) {
+	// the decoder panics on JSON values of an unexpected type
+	defer func() {
+		if r := recover(); r != nil {
+			err = ierrors.Errorf("malformed JSON: %v", r)
+		}
+	}()
+
 	return v.serixAPI.JSONDecode(v.context(), jsonData, obj, opts...)
 }
 
diff --git a/merklehasher/merkle_proof.go b/merklehasher/merkle_proof.go
index 07019c9..f06b6e4 100644
--- a/merklehasher/merkle_proof.go
+++ b/merklehasher/merkle_proof.go
@@ -229,8 +229,15 @@ func (p *Proof[V]) JSONEncode() ([]byte, error) {
 	return serixAPI[V]().JSONEncode(context.TODO(), p)
 }
 
-func ProofFromJSON[V Value](bytes []byte) (*Proof[V], error) {
-	p := new(Proof[V])
+func ProofFromJSON[V Value](bytes []byte) (p *Proof[V], err error) {
+	// the decoder panics on JSON values of an unexpected type
+	defer func() {
+		if r := recover(); r != nil {
+			p, err = nil, ierrors.Errorf("malformed JSON: %v", r)
+		}
+	}()
+
+	p = new(Proof[V])
 	if err := serixAPI[V]().JSONDecode(context.TODO(), bytes, p); err != nil {
 		return nil, err
 	}
diff --git a/nodeclient/http.go b/nodeclient/http.go
index 48bf16e..e7e45b9 100644
--- a/nodeclient/http.go
+++ b/nodeclient/http.go
@@ -53,6 +53,17 @@ func readBody(res *http.Response) ([]byte, error) {
 	return resBody, nil
 }
 
+func decodeJSON(ctx context.Context, serixAPI *serix.API, jsonData []byte, decodeTo interface{}) (err error) {
+	// the decoder panics on JSON values of an unexpected type
+	defer func() {
+		if r := recover(); r != nil {
+			err = ierrors.Errorf("malformed JSON: %v", r)
+		}
+	}()
+
+	return serixAPI.JSONDecode(ctx, jsonData, decodeTo)
+}
+
 func interpretBody(ctx context.Context, serixAPI *serix.API, res *http.Response, decodeTo interface{}) error {
 	defer res.Body.Close()
 
@@ -77,7 +88,7 @@ func interpretBody(ctx context.Context, serixAPI *serix.API, res *http.Response,
 			return nil
 		}
 
-		return serixAPI.JSONDecode(ctx, resBody, decodeTo)
+		return decodeJSON(ctx, serixAPI, resBody, decodeTo)
 	}
 
 	resBody, err := readBody(res)
-- 
2.43.0


From ba15bf64a14595d78872b628c9df2ad91511f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 13/50] fix: parsing transaction capabilities from bytes always
 failed

---
 api_common.go | 3 +++
 api_v3.go     | 3 ---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/api_common.go b/api_common.go
index 00cdd9a..8ac1603 100644
--- a/api_common.go
+++ b/api_common.go
@@ -144,6 +144,9 @@ func CommonSerixAPI() *serix.API {
 		must(api.RegisterTypeSettings(AddressCapabilitiesBitMask{},
 			serix.TypeSettings{}.WithLengthPrefixType(serix.LengthPrefixTypeAsByte).WithMaxLen(2),
 		))
+		must(api.RegisterTypeSettings(TransactionCapabilitiesBitMask{},
+			serix.TypeSettings{}.WithLengthPrefixType(serix.LengthPrefixTypeAsByte).WithMaxLen(1),
+		))
 
 		must(api.RegisterInterfaceObjects((*Address)(nil), (*Ed25519Address)(nil)))
 		must(api.RegisterInterfaceObjects((*Address)(nil), (*AccountAddress)(nil)))
diff --git a/api_v3.go b/api_v3.go
index 96e7113..6510f98 100644
--- a/api_v3.go
+++ b/api_v3.go
@@ -565,9 +565,6 @@ func V3API(protoParams ProtocolParameters) API {
 				WithLengthPrefixType(serix.LengthPrefixTypeAsUint16).
 				WithArrayRules(txEssenceV3AllotmentsArrRules),
 		))
-		must(api.RegisterTypeSettings(TransactionCapabilitiesBitMask{},
-			serix.TypeSettings{}.WithLengthPrefixType(serix.LengthPrefixTypeAsByte).WithMaxLen(1),
-		))
 
 		must(api.RegisterInterfaceObjects((*TxEssenceOutput)(nil), (*BasicOutput)(nil)))
 		must(api.RegisterInterfaceObjects((*TxEssenceOutput)(nil), (*AccountOutput)(nil)))
-- 
2.43.0


From 443a9318ab56771a7c681ad53779a69cff4bf142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:19 +0000
Subject: [PATCH 14/50] fix: limit the size of immutable metadata features too

---
 output.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/output.go b/output.go
index 3da1543..f7d07e2 100644
--- a/output.go
+++ b/output.go
@@ -844,7 +844,7 @@ func OutputsSyntacticalChainConstrainedOutputUniqueness() ElementValidationFunc[
 	}
 }
 
-// Checks that the (state) metadata feature in outputs do not exceed the max allowed size.
+// Checks that the (state and immutable) metadata feature in outputs do not exceed the max allowed size.
 func OutputsSyntacticalMetadataFeatureMaxSize() ElementValidationFunc[Output] {
 	checkMaxSize := func(index int, featType FeatureType, mapSize int) error {
 		if mapSize > MaxMetadataMapSize {
@@ -874,6 +874,16 @@ func OutputsSyntacticalMetadataFeatureMaxSize() ElementValidationFunc[Output] {
 			}
 		}
 
+		if immutableOutput, is := output.(ChainOutputImmutable); is {
+			immutableMetadataFeat := immutableOutput.ImmutableFeatureSet().Metadata()
+			if immutableMetadataFeat != nil {
+				mapSize := immutableMetadataFeat.mapSize()
+				if err := checkMaxSize(index, immutableMetadataFeat.Type(), mapSize); err != nil {
+					return ierrors.WithMessagef(err, "output %d (immutable)", index)
+				}
+			}
+		}
+
 		return nil
 	}
 }
-- 
2.43.0


From 543f8f57f1f5c1f16c46303ac29a066dd8723824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 15/50] fix: do not count the genesis slot as generating slots
 when computing generated mana

---
 mana_decay_provider.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/mana_decay_provider.go b/mana_decay_provider.go
index ea66b3a..8d3a7ba 100644
--- a/mana_decay_provider.go
+++ b/mana_decay_provider.go
@@ -162,6 +162,24 @@ func (p *ManaDecayProvider) generateMana(value BaseToken, slotDiff SlotIndex) (M
 	return Mana(result), nil
 }
 
+// slotsBeforeNextEpoch returns the number of slots from the given slot until the start of the next epoch, independent of the genesis slot.
+func (p *ManaDecayProvider) slotsBeforeNextEpoch(slot SlotIndex) SlotIndex {
+	if slot < p.timeProvider.GenesisSlot() {
+		return 0
+	}
+
+	return p.timeProvider.EpochStart(p.timeProvider.EpochFromSlot(slot)+1) - slot
+}
+
+// slotsSinceEpochStart returns the number of slots from the start of the epoch until the given slot, independent of the genesis slot.
+func (p *ManaDecayProvider) slotsSinceEpochStart(slot SlotIndex) SlotIndex {
+	if slot < p.timeProvider.GenesisSlot() {
+		return 0
+	}
+
+	return slot - p.timeProvider.EpochStart(p.timeProvider.EpochFromSlot(slot))
+}
+
 // DecayManaBySlots applies the decay between the epochs corresponding to the creation and target slots to the given mana.
 func (p *ManaDecayProvider) DecayManaBySlots(mana Mana, creationSlot SlotIndex, targetSlot SlotIndex) (Mana, error) {
 	creationEpoch := p.timeProvider.EpochFromSlot(creationSlot)
@@ -203,7 +221,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 	// case 1 means that the creationSlot and targetSlot belong to subsequent epochs.
 	// In that case, we generate the mana for the slots belonging to the first epoch and decay it, later we add it to the undecayed mana of the second epoch
 	case 1:
-		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.timeProvider.SlotsBeforeNextEpoch(creationSlot))
+		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.slotsBeforeNextEpoch(creationSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the first epoch")
 		}
@@ -213,7 +231,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 			return 0, ierrors.Wrap(err, "failed to decay generated mana in the first epoch")
 		}
 
-		manaGeneratedSecondEpoch, err := p.generateMana(amount, p.timeProvider.SlotsSinceEpochStart(targetSlot))
+		manaGeneratedSecondEpoch, err := p.generateMana(amount, p.slotsSinceEpochStart(targetSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the second epoch")
 		}
@@ -228,7 +246,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 	// the default case means that the creationSlot and targetSlot belong to separated epochs.
 	// Parts of the generated mana are decayed by epochDiff epochs, other parts by epochDiff-1, and other parts are not decayed at all
 	default:
-		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.timeProvider.SlotsBeforeNextEpoch(creationSlot))
+		manaGeneratedFirstEpoch, err := p.generateMana(amount, p.slotsBeforeNextEpoch(creationSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the first epoch")
 		}
@@ -254,7 +272,7 @@ func (p *ManaDecayProvider) GenerateManaAndDecayBySlots(amount BaseToken, creati
 			return 0, ierrors.Wrap(err, "failed to decay generated mana in the intermediate epochs")
 		}
 
-		manaGeneratedLastEpoch, err := p.generateMana(amount, p.timeProvider.SlotsSinceEpochStart(targetSlot))
+		manaGeneratedLastEpoch, err := p.generateMana(amount, p.slotsSinceEpochStart(targetSlot))
 		if err != nil {
 			return 0, ierrors.Wrap(err, "failed to calculate generated mana in the last epoch")
 		}
-- 
2.43.0


From 96c6a13ba93560954b8407c78fd208f07e2f2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:53 +0000
Subject: [PATCH 16/50] fix: creating a foundry of an implicit account must
 fail instead of panicking

---
 vm/nova/vm.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vm/nova/vm.go b/vm/nova/vm.go
index 9f41510..bf31191 100644
--- a/vm/nova/vm.go
+++ b/vm/nova/vm.go
@@ -808,8 +808,16 @@ func foundryGenesisValid(vmParams *vm.Params, current *iotago.FoundryOutput, thi
 		)
 	}
 
+	// the account might be an implicit account on the input side, which is not able to create foundries
+	inAccountOutput, isAccount := inAccount.Output.(*iotago.AccountOutput)
+	if !isAccount {
+		return ierrors.WithMessagef(iotago.ErrFoundryTransitionWithoutAccount,
+			"input account %s of new foundry output %s is an implicit account", accountID, thisFoundryID.ToHex(),
+		)
+	}
+
 	//nolint:forcetypeassert // we can safely assume that this is an AccountOutput
-	return foundrySerialNumberValid(vmParams, current, inAccount.Output.(*iotago.AccountOutput), outAccount.(*iotago.AccountOutput), thisFoundryID)
+	return foundrySerialNumberValid(vmParams, current, inAccountOutput, outAccount.(*iotago.AccountOutput), thisFoundryID)
 }
 
 func foundrySerialNumberValid(vmParams *vm.Params, current *iotago.FoundryOutput, inAccount *iotago.AccountOutput, outAccount *iotago.AccountOutput, thisFoundryID iotago.FoundryID) error {
-- 
2.43.0


From 3b40f9c83107cdddd812607c21a75446147bc1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:55 +0000
Subject: [PATCH 17/50] fix: an account made from an implicit account must
 start with foundry counter zero

---
 vm/nova/vm.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vm/nova/vm.go b/vm/nova/vm.go
index bf31191..8717a0f 100644
--- a/vm/nova/vm.go
+++ b/vm/nova/vm.go
@@ -225,6 +225,13 @@ func implicitAccountSTVF(vmParams *vm.Params, implicitAccount *vm.ImplicitAccoun
 		return err
 	}
 
+	// An implicit account cannot create foundries, hence the account it is transitioned to has none.
+	if next.FoundryCounter != 0 {
+		return ierrors.WithMessagef(iotago.ErrAccountInvalidFoundryCounter,
+			"foundry counter must be zero when transitioning an implicit account, is %d", next.FoundryCounter,
+		)
+	}
+
 	implicitAccountBlockIssuerFeature := &iotago.BlockIssuerFeature{
 		BlockIssuerKeys: iotago.NewBlockIssuerKeys(),
 		// Setting MaxSlotIndex means one cannot remove the block issuer feature in the transition, but it does allow for setting
-- 
2.43.0


From 78540205c24dda03f90c1cb1bdbc9dd6fcb651d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:12 +0000
Subject: [PATCH 18/50] fix: an error that is not wrapped must determine its
 own transaction failure reason

---
 api/core.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/core.go b/api/core.go
index 364111c..09501c8 100644
--- a/api/core.go
+++ b/api/core.go
@@ -445,6 +445,8 @@ func unwrapErrors(err error, errList []error) []error {
 func DetermineTransactionFailureReason(err error) TransactionFailureReason {
 	errorList := make([]error, 0)
 	errorList = unwrapErrors(err, errorList)
+	// The error itself is the least detailed one and not part of the unwrapped errors.
+	errorList = append(errorList, err)
 
 	// Map the error to the transaction failure reason.
 	// The strategy is to map the first failure reason that exists in order of most-detailed to least-detailed error.
-- 
2.43.0


From 98064f379ab7ef7a5e91d1e3527cc00b43b893f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:36 +0000
Subject: [PATCH 19/50] fix: determining the failure reason of an error of an
 uncomparable type must not panic

---
 api/core.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/core.go b/api/core.go
index 09501c8..30e3003 100644
--- a/api/core.go
+++ b/api/core.go
@@ -1,6 +1,7 @@
 package api
 
 import (
+	"reflect"
 	"time"
 
 	"github.com/iotaledger/hive.go/ierrors"
@@ -451,6 +452,11 @@ func DetermineTransactionFailureReason(err error) TransactionFailureReason {
 	// Map the error to the transaction failure reason.
 	// The strategy is to map the first failure reason that exists in order of most-detailed to least-detailed error.
 	for _, err := range errorList {
+		// Errors of an uncomparable type cannot be looked up (and are never one of the mapped errors).
+		if err == nil || !reflect.ValueOf(err).Comparable() {
+			continue
+		}
+
 		if txFailureReason, matches := txErrorsFailureReasonMap[err]; matches {
 			return txFailureReason
 		}
-- 
2.43.0


From 62d0e88d590b9b72f9a509bfbd727c6c46d6e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:26 +0000
Subject: [PATCH 20/50] fix: the transaction builder must know the chains that
 consumed outputs created

---
 builder/transaction_builder.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 1584b8e..c90d67a 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -732,7 +732,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 			// always mark the chain as unlocked in case the output is a chain output.
 			// e.g. "an NFT owns an NFT".
-			unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+			unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIDs[inputIndex], inputIndex)
 
 			// skip the rest of the input processing because we don't need to sign chain inputs
 			continue
@@ -777,7 +777,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 		// always mark the chain as unlocked in case the output is a chain output
 		// e.g. "an NFT owned by an ed25519 address".
-		unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+		unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIDs[inputIndex], inputIndex)
 	}
 
 	sigTxPayload := &iotago.SignedTransaction{
@@ -826,9 +826,16 @@ func (u *txBuilderUnlockedSet) addSignerUID(signerUID iotago.Identifier, unlocke
 // addChainAsUnlocked marks the underlying chain address as unlocked at "unlockedAtIndex".
 // This is only done if the output is a chain output and the chain ID is addressable,
 // which is only valid for AccountOutput, AnchorOutput and NFTOutput.
-func (u *txBuilderUnlockedSet) addChainAsUnlocked(input iotago.Output, unlockedAtIndex int) {
+func (u *txBuilderUnlockedSet) addChainAsUnlocked(input iotago.Output, inputID iotago.OutputID, unlockedAtIndex int) {
 	if chainInput, is := input.(iotago.ChainOutput); is && chainInput.ChainID().Addressable() {
-		u.unlockedChains[chainInput.ChainID().ToAddress().Key()] = unlockedAtIndex
+		chainID := chainInput.ChainID()
+		if chainID.Empty() {
+			// the chain was created by this output, so its ID is derived from the output ID
+			if utxoIDChainID, isUTXOIDChainID := chainID.(iotago.UTXOIDChainID); isUTXOIDChainID {
+				chainID = utxoIDChainID.FromOutputID(inputID)
+			}
+		}
+		u.unlockedChains[chainID.ToAddress().Key()] = unlockedAtIndex
 	}
 }
 
-- 
2.43.0


From 0e64c509022193fe496508801a7643e892ac19fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:50 +0000
Subject: [PATCH 21/50] fix: mana of newly created accounts must stay bound to
 them in the transaction builder

---
 builder/transaction_builder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index c90d67a..786ceb6 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -610,7 +610,13 @@ func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.Slot
 				return nil, ierrors.Wrap(err, "failed to add input mana")
 			}
 
-			if err := result.AddAccountBoundMana(accountOutput.AccountID, inputTotalMana); err != nil {
+			accountID := accountOutput.AccountID
+			if accountID.Empty() {
+				// the account was created by this output, so its ID is derived from the output ID
+				accountID = iotago.AccountIDFromOutputID(inputID)
+			}
+
+			if err := result.AddAccountBoundMana(accountID, inputTotalMana); err != nil {
 				return nil, err
 			}
 		} else {
-- 
2.43.0


From b5b94c2d9425df10a1566baa1a845e4a6c523418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 22/50] fix: mana of consumed implicit accounts must stay bound
 to them in the transaction builder

---
 builder/transaction_builder.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 786ceb6..0a66c56 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -604,18 +604,12 @@ func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.Slot
 			return nil, err
 		}
 
-		if accountOutput, isAccountOutput := input.(*iotago.AccountOutput); isAccountOutput {
+		if accountID, isAccount := accountIDOfInput(input, inputID); isAccount {
 			inputTotalMana, err := safemath.SafeAdd(inputPotentialMana, inputStoredMana)
 			if err != nil {
 				return nil, ierrors.Wrap(err, "failed to add input mana")
 			}
 
-			accountID := accountOutput.AccountID
-			if accountID.Empty() {
-				// the account was created by this output, so its ID is derived from the output ID
-				accountID = iotago.AccountIDFromOutputID(inputID)
-			}
-
 			if err := result.AddAccountBoundMana(accountID, inputTotalMana); err != nil {
 				return nil, err
 			}
@@ -638,6 +632,28 @@ func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.Slot
 	return result, nil
 }
 
+// accountIDOfInput returns the ID of the account the mana of the given input is bound to, if the input is an account or implicit account.
+func accountIDOfInput(input iotago.Output, inputID iotago.OutputID) (iotago.AccountID, bool) {
+	switch output := input.(type) {
+	case *iotago.AccountOutput:
+		if !output.AccountID.Empty() {
+			return output.AccountID, true
+		}
+
+	case *iotago.BasicOutput:
+		addressUnlockCondition := output.UnlockConditionSet().Address()
+		if addressUnlockCondition == nil || addressUnlockCondition.Address.Type() != iotago.AddressImplicitAccountCreation {
+			return iotago.EmptyAccountID, false
+		}
+
+	default:
+		return iotago.EmptyAccountID, false
+	}
+
+	// the account was created by this output, so its ID is derived from the output ID
+	return iotago.AccountIDFromOutputID(inputID), true
+}
+
 // MinRequiredAllottedMana returns the minimum allotted mana required to issue a Block
 // with the transaction payload from the builder and 1 allotment for the block issuer.
 func (b *TransactionBuilder) MinRequiredAllottedMana(rmc iotago.Mana, blockIssuerAccountID iotago.AccountID) (iotago.Mana, error) {
-- 
2.43.0


From c2188b467cd51bc2bf796d88d59783b95212d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 23/50] fix: mana allotments and rewards must not overflow in
 the transaction builder

---
 builder/transaction_builder.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 0a66c56..1ec22f3 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -100,7 +100,12 @@ func (b *TransactionBuilder) AddBlockIssuanceCreditInput(blockIssuanceCreditInpu
 // AddRewardInput adds the given reward input to the builder.
 func (b *TransactionBuilder) AddRewardInput(rewardInput *iotago.RewardInput, mana iotago.Mana) *TransactionBuilder {
 	b.transaction.TransactionEssence.ContextInputs = append(b.transaction.TransactionEssence.ContextInputs, rewardInput)
-	b.rewards += mana
+
+	rewards, err := safemath.SafeAdd(b.rewards, mana)
+	if err != nil {
+		return b.setBuildError(ierrors.Wrap(err, "failed to add rewards"))
+	}
+	b.rewards = rewards
 
 	return b
 }
@@ -114,7 +119,12 @@ func (b *TransactionBuilder) IncreaseAllotment(accountID iotago.AccountID, value
 	// check if the allotment already exists and add the value on top
 	for _, allotment := range b.transaction.Allotments {
 		if allotment.AccountID == accountID {
-			allotment.Mana += value
+			allottedMana, err := safemath.SafeAdd(allotment.Mana, value)
+			if err != nil {
+				return b.setBuildError(ierrors.Wrapf(err, "failed to increase the allotment to account %s", accountID.ToHex()))
+			}
+			allotment.Mana = allottedMana
+
 			return b
 		}
 	}
@@ -666,7 +676,9 @@ func (b *TransactionBuilder) MinRequiredAllottedMana(rmc iotago.Mana, blockIssue
 	}()
 
 	// add a dummy allotment to account for the later added allotment for the block issuer in case it does not exist yet
-	b.IncreaseAllotment(blockIssuerAccountID, 1074)
+	if b.transaction.Allotments.Get(blockIssuerAccountID) == 0 {
+		b.IncreaseAllotment(blockIssuerAccountID, 1074)
+	}
 
 	// the transaction is "signed" with empty signatures to get the correct workscore.
 	// later the transaction needs to be signed with the correct signer, after the allotted mana was set correctly.
-- 
2.43.0


From 01c02e9e171b6edf0d41a6cfd0eb96c67ba080ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:59 +0000
Subject: [PATCH 24/50] fix: attestations must not verify with an empty public
 key

---
 attestation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/attestation.go b/attestation.go
index bf194e5..5d3c5fc 100644
--- a/attestation.go
+++ b/attestation.go
@@ -3,6 +3,7 @@ package iotago
 import (
 	"bytes"
 	"context"
+	"crypto/ed25519"
 
 	hiveEd25519 "github.com/iotaledger/hive.go/crypto/ed25519"
 	"github.com/iotaledger/hive.go/ierrors"
@@ -111,6 +112,10 @@ func (a *Attestation) VerifySignature() (valid bool, err error) {
 		return false, ierrors.Errorf("only ed2519 signatures supported, got %s", a.Signature.Type())
 	}
 
+	if edSig.PublicKey == [ed25519.PublicKeySize]byte{} {
+		return false, ierrors.New("ed25519 public key must not be empty")
+	}
+
 	return hiveEd25519.Verify(edSig.PublicKey[:], signingMessage, edSig.Signature[:]), nil
 }
 
-- 
2.43.0


From e30236c9d7ee760905f6da05e818e3ad3d0b64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 25/50] fix: block issuer and staking transitions must add a
 missing feature to the account

---
 builder/output_builder_account.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/output_builder_account.go b/builder/output_builder_account.go
index 37a659e..fdb9b1c 100644
--- a/builder/output_builder_account.go
+++ b/builder/output_builder_account.go
@@ -169,6 +169,7 @@ func (builder *AccountOutputBuilder) BlockIssuerTransition() *BlockIssuerTransit
 			BlockIssuerKeys: iotago.NewBlockIssuerKeys(),
 			ExpirySlot:      0,
 		}
+		builder.output.Features.Upsert(blockIssuerFeature)
 	}
 
 	return &BlockIssuerTransition{
@@ -188,6 +189,7 @@ func (builder *AccountOutputBuilder) StakingTransition() *StakingTransition {
 			StartEpoch:   0,
 			EndEpoch:     0,
 		}
+		builder.output.Features.Upsert(stakingFeature)
 	}
 
 	return &StakingTransition{
-- 
2.43.0


From 5c465c4d7e1de558fb8656a7eeb088fdb212d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:04 +0000
Subject: [PATCH 26/50] fix: the account output builder must not alter the
 block issuer keys passed to it

---
 builder/output_builder_account.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/output_builder_account.go b/builder/output_builder_account.go
index fdb9b1c..3d8eeab 100644
--- a/builder/output_builder_account.go
+++ b/builder/output_builder_account.go
@@ -88,7 +88,7 @@ func (builder *AccountOutputBuilder) Metadata(entries iotago.MetadataFeatureEntr
 // BlockIssuer sets/modifies an iotago.BlockIssuerFeature as a mutable feature on the output.
 func (builder *AccountOutputBuilder) BlockIssuer(keys iotago.BlockIssuerKeys, expirySlot iotago.SlotIndex) *AccountOutputBuilder {
 	builder.output.Features.Upsert(&iotago.BlockIssuerFeature{
-		BlockIssuerKeys: keys,
+		BlockIssuerKeys: keys.Clone(),
 		ExpirySlot:      expirySlot,
 	})
 
@@ -221,7 +221,7 @@ func (trans *BlockIssuerTransition) RemoveKey(keyToDelete iotago.BlockIssuerKey)
 
 // Keys sets the keys of the iotago.BlockIssuerFeature.
 func (trans *BlockIssuerTransition) Keys(keys iotago.BlockIssuerKeys) *BlockIssuerTransition {
-	trans.feature.BlockIssuerKeys = keys
+	trans.feature.BlockIssuerKeys = keys.Clone()
 
 	return trans
 }
-- 
2.43.0


From 399f22a11e5f4fb17baa65d0c7ffae2ddf9a12d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:07 +0000
Subject: [PATCH 27/50] fix: building an anchor output twice must not advance
 the state index twice

---
 builder/output_builder_anchor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/output_builder_anchor.go b/builder/output_builder_anchor.go
index d875d24..6de4e75 100644
--- a/builder/output_builder_anchor.go
+++ b/builder/output_builder_anchor.go
@@ -117,7 +117,7 @@ func (builder *AnchorOutputBuilder) Build() (*iotago.AnchorOutput, error) {
 
 	if builder.prev != nil {
 		if builder.stateCtrlReq {
-			builder.output.StateIndex++
+			builder.output.StateIndex = builder.prev.StateIndex + 1
 		}
 		if !builder.prev.ImmutableFeatures.Equal(builder.output.ImmutableFeatures) {
 			return nil, ierrors.New("immutable features are not allowed to be changed")
-- 
2.43.0


From ecc9a9661b67889598a0c0c7ecc9215234e20548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 28/50] fix: setting mana in an anchor state transition must
 advance the state index

---
 builder/output_builder_anchor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/output_builder_anchor.go b/builder/output_builder_anchor.go
index 6de4e75..989a669 100644
--- a/builder/output_builder_anchor.go
+++ b/builder/output_builder_anchor.go
@@ -157,6 +157,8 @@ func (trans *AnchorStateTransition) Amount(amount iotago.BaseToken) *AnchorState
 
 // Mana sets the mana of the output.
 func (trans *AnchorStateTransition) Mana(mana iotago.Mana) *AnchorStateTransition {
+	trans.builder.stateCtrlReq = true
+
 	return trans.builder.Mana(mana).StateTransition()
 }
 
-- 
2.43.0


From 941ed4f0ad6eec059039be5657f1733d7437904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:05 +0000
Subject: [PATCH 29/50] fix: computing a Merkle proof for a negative index must
 be an error

---
 merklehasher/merkle_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merklehasher/merkle_proof.go b/merklehasher/merkle_proof.go
index f06b6e4..5e9b157 100644
--- a/merklehasher/merkle_proof.go
+++ b/merklehasher/merkle_proof.go
@@ -81,7 +81,7 @@ func (t *Hasher[V]) ComputeProofForIndex(values []V, index int) (*Proof[V], erro
 	if len(values) < 1 {
 		return nil, ierrors.New("at least one item is needed to create an inclusion proof")
 	}
-	if index >= len(values) {
+	if index < 0 || index >= len(values) {
 		return nil, ierrors.Errorf("index %d out of bounds for 'values' of len %d", index, len(values))
 	}
 
-- 
2.43.0


From 8383a3ab8b3c94652e982c205b1bbf55ace211be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:38 +0000
Subject: [PATCH 30/50] fix: bech32 strings with non-ASCII characters must be
 rejected

---
 bech32/bech32.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bech32/bech32.go b/bech32/bech32.go
index c6faca6..ee41367 100644
--- a/bech32/bech32.go
+++ b/bech32/bech32.go
@@ -3,6 +3,7 @@ package bech32
 
 import (
 	"strings"
+	"unicode"
 
 	"github.com/iotaledger/hive.go/ierrors"
 	"github.com/iotaledger/iota.go/v4/bech32/internal/base32"
@@ -82,6 +83,12 @@ func Decode(s string) (string, []byte, error) {
 			return "", nil, &SyntaxError{ierrors.WithMessage(ErrInvalidCharacter, "non US-ASCII character in human-readable part"), i}
 		}
 	}
+	// validate characters in data part, non US-ASCII characters could be mapped to charset characters when lowercased
+	for i, c := range s[hrpLen+1:] {
+		if c > unicode.MaxASCII {
+			return "", nil, &SyntaxError{ierrors.WithMessage(ErrInvalidCharacter, "non-charset character in data part"), hrpLen + 1 + i}
+		}
+	}
 	// validate that the case of the entire string is consistent
 	if err := validateCase(s); err != nil {
 		return "", nil, err
-- 
2.43.0


From 34c8e6cd9728b7f4d6a517fff181fc5f6ab15c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 31/50] fix: reading the protocol epoch versions must not race
 with adding versions

---
 api_epoch_based_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index 356f7ba..892ec7f 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -217,6 +217,9 @@ func (e *EpochBasedProvider) ProtocolParametersHash(version Version) Identifier
 }
 
 func (e *EpochBasedProvider) ProtocolEpochVersions() []ProtocolEpochVersion {
+	e.mutex.RLock()
+	defer e.mutex.RUnlock()
+
 	return e.protocolVersions.Slice()
 }
 
-- 
2.43.0


From 6353da32361d8a93c8027ee3cc2495d9e4a73b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 32/50] fix: reading the cached bytes of the protocol
 parameters must not race with caching them

---
 api_v3_protocol_parameters.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 281bcff..3551acb 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -147,14 +147,9 @@ func (p *V3ProtocolParameters) ChainSwitchingThreshold() uint8 {
 }
 
 func (p *V3ProtocolParameters) Bytes() ([]byte, error) {
-	if len(p.bytes) > 0 {
-		return p.bytes, nil
-	}
-
 	p.bytesMutex.Lock()
 	defer p.bytesMutex.Unlock()
 
-	// Check if some other goroutine cached the bytes while waiting for the lock.
 	if len(p.bytes) > 0 {
 		return p.bytes, nil
 	}
-- 
2.43.0


From 921c474f7cc268fb1bb5c43a65de62ae880a0107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:38 +0000
Subject: [PATCH 33/50] fix: the committed API must not depend on the order in
 which versions and parameters are added

---
 api_epoch_based_provider.go    | 19 ++++++++++++++-----
 api_protocol_epoch_versions.go | 16 +++++++++++++---
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index 892ec7f..19b8772 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -66,6 +66,15 @@ func (e *EpochBasedProvider) AddProtocolParameters(protocolParameters ProtocolPa
 	if e.latestAPI == nil || e.latestAPI.Version() < protocolParameters.Version() {
 		e.latestAPI = lo.PanicOnErr(e.apiForVersion(protocolParameters.Version()))
 	}
+
+	e.committedSlotMutex.RLock()
+	defer e.committedSlotMutex.RUnlock()
+
+	// The version that is in force at the committed slot might have been added before its parameters.
+	committedEpoch := e.latestAPI.TimeProvider().EpochFromSlot(e.committedSlot)
+	if version, exists := e.protocolVersions.lookupVersionForEpoch(committedEpoch); exists && version == protocolParameters.Version() {
+		e.updateCommittedAPI(e.committedSlot)
+	}
 }
 
 func (e *EpochBasedProvider) AddVersion(version Version, epoch EpochIndex) {
@@ -245,13 +254,13 @@ func (e *EpochBasedProvider) updateCommittedAPI(slot SlotIndex) {
 	}
 
 	epoch := e.latestAPI.TimeProvider().EpochFromSlot(slot)
-	version := e.versionForEpoch(epoch)
+	version, exists := e.protocolVersions.lookupVersionForEpoch(epoch)
+	if !exists {
+		// None of the versions added so far started at the committed slot, it might still be added.
+		return
+	}
 
 	if e.committedAPI == nil || version > e.committedAPI.ProtocolParameters().Version() {
 		e.committedAPI = lo.PanicOnErr(e.apiForVersion(version))
 	}
 }
-
-func (e *EpochBasedProvider) versionForEpoch(epoch EpochIndex) Version {
-	return e.protocolVersions.VersionForEpoch(epoch)
-}
diff --git a/api_protocol_epoch_versions.go b/api_protocol_epoch_versions.go
index fcbc876..ce62a5d 100644
--- a/api_protocol_epoch_versions.go
+++ b/api_protocol_epoch_versions.go
@@ -22,14 +22,24 @@ func NewProtocolEpochVersions() *ProtocolEpochVersions {
 }
 
 func (p *ProtocolEpochVersions) VersionForEpoch(epoch EpochIndex) Version {
+	version, exists := p.lookupVersionForEpoch(epoch)
+	if !exists {
+		// This means that the protocol versions are not properly configured.
+		panic(ierrors.Errorf("could not find a protocol version for epoch %d", epoch))
+	}
+
+	return version
+}
+
+// lookupVersionForEpoch returns the protocol version for the given epoch and whether any version started until then.
+func (p *ProtocolEpochVersions) lookupVersionForEpoch(epoch EpochIndex) (Version, bool) {
 	for i := len(p.versionsPerEpoch) - 1; i >= 0; i-- {
 		if p.versionsPerEpoch[i].StartEpoch <= epoch {
-			return p.versionsPerEpoch[i].Version
+			return p.versionsPerEpoch[i].Version, true
 		}
 	}
 
-	// This means that the protocol versions are not properly configured.
-	panic(ierrors.Errorf("could not find a protocol version for epoch %d", epoch))
+	return 0, false
 }
 
 func (p *ProtocolEpochVersions) Add(version Version, epoch EpochIndex) {
-- 
2.43.0


From 457fa5090375683dd96739460af8823e21650280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 34/50] fix: replacing the protocol parameters of a version
 must replace its cached APIs

---
 api_epoch_based_provider.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index 19b8772..5863b66 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -60,9 +60,17 @@ func (e *EpochBasedProvider) AddProtocolParameters(protocolParameters ProtocolPa
 	e.mutex.Lock()
 	defer e.mutex.Unlock()
 
+	existing, replaced := e.protocolParametersByVersion[protocolParameters.Version()]
+	replaced = replaced && !existing.Equals(protocolParameters)
+
 	e.protocolParametersByVersion[protocolParameters.Version()] = protocolParameters
 	delete(e.futureProtocolParametersByVersion, protocolParameters.Version())
 
+	// Replacing the parameters of a version invalidates the APIs which were created from the previous ones.
+	if replaced {
+		e.replaceAPIs(protocolParameters.Version())
+	}
+
 	if e.latestAPI == nil || e.latestAPI.Version() < protocolParameters.Version() {
 		e.latestAPI = lo.PanicOnErr(e.apiForVersion(protocolParameters.Version()))
 	}
@@ -77,6 +85,26 @@ func (e *EpochBasedProvider) AddProtocolParameters(protocolParameters ProtocolPa
 	}
 }
 
+// replaceAPIs recreates the cached APIs of the given version from its current parameters.
+func (e *EpochBasedProvider) replaceAPIs(version Version) {
+	isLatest := e.latestAPI != nil && e.latestAPI.Version() == version
+	isCommitted := e.committedAPI != nil && e.committedAPI.Version() == version
+
+	if isLatest {
+		e.latestAPI = nil
+	}
+	if isCommitted {
+		e.committedAPI = nil
+	}
+
+	if isLatest {
+		e.latestAPI = lo.PanicOnErr(e.apiForVersion(version))
+	}
+	if isCommitted {
+		e.committedAPI = lo.PanicOnErr(e.apiForVersion(version))
+	}
+}
+
 func (e *EpochBasedProvider) AddVersion(version Version, epoch EpochIndex) {
 	e.mutex.Lock()
 	defer e.mutex.Unlock()
-- 
2.43.0


From b8101a72d981c9bcd9505ca1541505f77c431f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 35/50] fix: a single version provider must not answer for
 other versions

---
 api_single_version_provider.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/api_single_version_provider.go b/api_single_version_provider.go
index 94cf58e..fe71ac8 100644
--- a/api_single_version_provider.go
+++ b/api_single_version_provider.go
@@ -2,6 +2,8 @@ package iotago
 
 import (
 	"time"
+
+	"github.com/iotaledger/hive.go/ierrors"
 )
 
 func SingleVersionProvider(api API) APIProvider {
@@ -12,7 +14,11 @@ type singleVersionProvider struct {
 	api API
 }
 
-func (t *singleVersionProvider) APIForVersion(Version) (API, error) {
+func (t *singleVersionProvider) APIForVersion(version Version) (API, error) {
+	if version != t.api.Version() {
+		return nil, ierrors.Errorf("no api available for version %d, the only available version is %d", version, t.api.Version())
+	}
+
 	return t.api, nil
 }
 
-- 
2.43.0


From 57469013a43f1e4c47a340f18ca4001360d0e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 36/50] fix: encoding the protocol parameters must not race
 with caching their hash and network ID

---
 api_v3_protocol_parameters.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 3551acb..4f58deb 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -154,7 +154,8 @@ func (p *V3ProtocolParameters) Bytes() ([]byte, error) {
 		return p.bytes, nil
 	}
 
-	bytes, err := CommonSerixAPI().Encode(context.TODO(), p)
+	// encoding reads the whole struct, so the caches that are written concurrently must not be part of it
+	bytes, err := CommonSerixAPI().Encode(context.TODO(), &V3ProtocolParameters{basicProtocolParameters: p.basicProtocolParameters})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a80b9c2da94474650dab30189bcb2160eea80d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 37/50] fix: a response without content is no valid data in the
 node client

---
 nodeclient/http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nodeclient/http.go b/nodeclient/http.go
index e7e45b9..c8bf1f3 100644
--- a/nodeclient/http.go
+++ b/nodeclient/http.go
@@ -68,6 +68,10 @@ func interpretBody(ctx context.Context, serixAPI *serix.API, res *http.Response,
 	defer res.Body.Close()
 
 	if res.StatusCode == http.StatusNoContent {
+		if decodeTo != nil {
+			return ierrors.Errorf("url %s: response has no content", res.Request.URL.String())
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From 4a77a7e074a149803f6b69baf9b60a750d674120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 38/50] fix: bytes after the requested object must be an error
 in the node client

---
 nodeclient/http.go            | 20 ++++++++++++++++++++
 nodeclient/http_api_client.go | 21 ++++++++++++++-------
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/nodeclient/http.go b/nodeclient/http.go
index c8bf1f3..cf9a61d 100644
--- a/nodeclient/http.go
+++ b/nodeclient/http.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/iotaledger/hive.go/ierrors"
 	"github.com/iotaledger/hive.go/serializer/v2/serix"
+	iotago "github.com/iotaledger/iota.go/v4"
 	"github.com/iotaledger/iota.go/v4/api"
 )
 
@@ -64,6 +65,25 @@ func decodeJSON(ctx context.Context, serixAPI *serix.API, jsonData []byte, decod
 	return serixAPI.JSONDecode(ctx, jsonData, decodeTo)
 }
 
+// decodeBinary decodes the whole data into the given object.
+func decodeBinary(iotaAPI iotago.API, data []byte, decodeTo interface{}, opts ...serix.Option) error {
+	consumedBytes, err := iotaAPI.Decode(data, decodeTo, opts...)
+	if err != nil {
+		return err
+	}
+
+	return checkConsumed(data, consumedBytes)
+}
+
+// checkConsumed checks that all bytes of the data were consumed.
+func checkConsumed(data []byte, consumedBytes int) error {
+	if consumedBytes != len(data) {
+		return ierrors.Errorf("malformed binary data: consumed %d of %d bytes", consumedBytes, len(data))
+	}
+
+	return nil
+}
+
 func interpretBody(ctx context.Context, serixAPI *serix.API, res *http.Response, decodeTo interface{}) error {
 	defer res.Body.Close()
 
diff --git a/nodeclient/http_api_client.go b/nodeclient/http_api_client.go
index 262e74d..c414072 100644
--- a/nodeclient/http_api_client.go
+++ b/nodeclient/http_api_client.go
@@ -323,11 +323,15 @@ func (client *Client) BlockByBlockID(ctx context.Context, blockID iotago.BlockID
 		return nil, err
 	}
 
-	block, _, err := iotago.BlockFromBytes(client)(res.Data)
+	block, consumedBytes, err := iotago.BlockFromBytes(client)(res.Data)
 	if err != nil {
 		return nil, err
 	}
 
+	if err := checkConsumed(res.Data, consumedBytes); err != nil {
+		return nil, err
+	}
+
 	return block, nil
 }
 
@@ -360,8 +364,7 @@ func (client *Client) BlockWithMetadataByBlockID(ctx context.Context, blockID io
 	}
 
 	metadata := new(api.BlockMetadataResponse)
-	_, err = client.APIForSlot(blockID.Slot()).Decode(res.Data[consumedBytes:], metadata)
-	if err != nil {
+	if err := decodeBinary(client.APIForSlot(blockID.Slot()), res.Data[consumedBytes:], metadata); err != nil {
 		return nil, err
 	}
 
@@ -394,7 +397,7 @@ func (client *Client) OutputByID(ctx context.Context, outputID iotago.OutputID)
 	}
 
 	var outputResponse api.OutputResponse
-	if _, err := client.CommittedAPI().Decode(res.Data, &outputResponse, serix.WithValidation()); err != nil {
+	if err := decodeBinary(client.CommittedAPI(), res.Data, &outputResponse, serix.WithValidation()); err != nil {
 		return nil, err
 	}
 
@@ -434,7 +437,7 @@ func (client *Client) OutputWithMetadataByID(ctx context.Context, outputID iotag
 	}
 
 	var outputResponse api.OutputWithMetadataResponse
-	if _, err := client.CommittedAPI().Decode(res.Data, &outputResponse, serix.WithValidation()); err != nil {
+	if err := decodeBinary(client.CommittedAPI(), res.Data, &outputResponse, serix.WithValidation()); err != nil {
 		return nil, nil, err
 	}
 
@@ -461,7 +464,7 @@ func (client *Client) TransactionByID(ctx context.Context, txID iotago.Transacti
 	}
 
 	tx := new(iotago.Transaction)
-	if _, err := client.CommittedAPI().Decode(res.Data, tx, serix.WithValidation()); err != nil {
+	if err := decodeBinary(client.CommittedAPI(), res.Data, tx, serix.WithValidation()); err != nil {
 		return nil, err
 	}
 
@@ -478,11 +481,15 @@ func (client *Client) TransactionIncludedBlock(ctx context.Context, txID iotago.
 		return nil, err
 	}
 
-	block, _, err := iotago.BlockFromBytes(client)(res.Data)
+	block, consumedBytes, err := iotago.BlockFromBytes(client)(res.Data)
 	if err != nil {
 		return nil, err
 	}
 
+	if err := checkConsumed(res.Data, consumedBytes); err != nil {
+		return nil, err
+	}
+
 	return block, nil
 }
 
-- 
2.43.0


From 3d8fae8a4e9bfbaa4111e4d5456c783b40b90f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 39/50] fix: malformed output IDs from the indexer must be
 errors instead of panics

---
 nodeclient/indexer_client.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nodeclient/indexer_client.go b/nodeclient/indexer_client.go
index 7f86996..85101f9 100644
--- a/nodeclient/indexer_client.go
+++ b/nodeclient/indexer_client.go
@@ -81,7 +81,11 @@ func (resultSet *IndexerResultSet) Next() bool {
 
 // Outputs collects/fetches the outputs result from the query.
 func (resultSet *IndexerResultSet) Outputs(ctx context.Context) (iotago.Outputs[iotago.Output], error) {
-	outputIDs := resultSet.Response.Items.MustOutputIDs()
+	outputIDs, err := resultSet.Response.Items.OutputIDs()
+	if err != nil {
+		return nil, ierrors.Wrap(err, "unable to parse output IDs")
+	}
+
 	outputs := make(iotago.Outputs[iotago.Output], len(outputIDs))
 	for i, outputID := range outputIDs {
 		output, err := resultSet.client.OutputByID(ctx, outputID)
@@ -163,7 +167,12 @@ func (client *indexerClient) singleOutputQuery(ctx context.Context, route string
 		return nil, nil, res.CommittedSlot, ierrors.WithMessagef(ErrIndexerNotFound, "route %s", route)
 	}
 
-	outputID := res.Items.MustOutputIDs()[0]
+	outputIDs, err := res.Items.OutputIDs()
+	if err != nil {
+		return nil, nil, res.CommittedSlot, ierrors.Wrap(err, "unable to parse output IDs")
+	}
+
+	outputID := outputIDs[0]
 	output, err := client.core.OutputByID(ctx, outputID)
 	if err != nil {
 		return nil, nil, res.CommittedSlot, err
-- 
2.43.0


From 10849643c6e12e539c0c530d6907bc5283bd6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 40/50] fix: unexpected output types from the indexer must be
 errors instead of panics

---
 nodeclient/indexer_client.go | 40 +++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/nodeclient/indexer_client.go b/nodeclient/indexer_client.go
index 85101f9..10198aa 100644
--- a/nodeclient/indexer_client.go
+++ b/nodeclient/indexer_client.go
@@ -187,8 +187,12 @@ func (client *indexerClient) Account(ctx context.Context, accountAddress *iotago
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an AccountOutput
-	return outputID, output.(*iotago.AccountOutput), ledgerIndex, nil
+	accountOutput, isAccount := output.(*iotago.AccountOutput)
+	if !isAccount {
+		return nil, nil, ledgerIndex, ierrors.Errorf("unexpected output type %s of output %s", output.Type(), outputID.ToHex())
+	}
+
+	return outputID, accountOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Anchor(ctx context.Context, anchorAddress *iotago.AnchorAddress) (*iotago.OutputID, *iotago.AnchorOutput, iotago.SlotIndex, error) {
@@ -197,8 +201,12 @@ func (client *indexerClient) Anchor(ctx context.Context, anchorAddress *iotago.A
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an AnchorOutput
-	return outputID, output.(*iotago.AnchorOutput), ledgerIndex, nil
+	anchorOutput, isAnchor := output.(*iotago.AnchorOutput)
+	if !isAnchor {
+		return nil, nil, ledgerIndex, ierrors.Errorf("unexpected output type %s of output %s", output.Type(), outputID.ToHex())
+	}
+
+	return outputID, anchorOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Foundry(ctx context.Context, foundryID iotago.FoundryID) (*iotago.OutputID, *iotago.FoundryOutput, iotago.SlotIndex, error) {
@@ -207,8 +215,12 @@ func (client *indexerClient) Foundry(ctx context.Context, foundryID iotago.Found
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an FoundryOutput
-	return outputID, output.(*iotago.FoundryOutput), ledgerIndex, nil
+	foundryOutput, isFoundry := output.(*iotago.FoundryOutput)
+	if !isFoundry {
+		return nil, nil, ledgerIndex, ierrors.Errorf("unexpected output type %s of output %s", output.Type(), outputID.ToHex())
+	}
+
+	return outputID, foundryOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) NFT(ctx context.Context, nftAddress *iotago.NFTAddress) (*iotago.OutputID, *iotago.NFTOutput, iotago.SlotIndex, error) {
@@ -217,8 +229,12 @@ func (client *indexerClient) NFT(ctx context.Context, nftAddress *iotago.NFTAddr
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an NFTOutput
-	return outputID, output.(*iotago.NFTOutput), ledgerIndex, nil
+	nftOutput, isNFT := output.(*iotago.NFTOutput)
+	if !isNFT {
+		return nil, nil, ledgerIndex, ierrors.Errorf("unexpected output type %s of output %s", output.Type(), outputID.ToHex())
+	}
+
+	return outputID, nftOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Delegation(ctx context.Context, delegationID iotago.DelegationID) (*iotago.OutputID, *iotago.DelegationOutput, iotago.SlotIndex, error) {
@@ -227,6 +243,10 @@ func (client *indexerClient) Delegation(ctx context.Context, delegationID iotago
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is a DelegationOutput
-	return outputID, output.(*iotago.DelegationOutput), ledgerIndex, nil
+	delegationOutput, isDelegation := output.(*iotago.DelegationOutput)
+	if !isDelegation {
+		return nil, nil, ledgerIndex, ierrors.Errorf("unexpected output type %s of output %s", output.Type(), outputID.ToHex())
+	}
+
+	return outputID, delegationOutput, ledgerIndex, nil
 }
-- 
2.43.0


From 3870a9e1165fa6d4f197f363fa3252fb45436f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 41/50] fix: find the keys registered for restricted addresses
 in the in-memory signer

---
 address_signer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/address_signer.go b/address_signer.go
index 6dbcb7e..47a78cd 100644
--- a/address_signer.go
+++ b/address_signer.go
@@ -70,7 +70,13 @@ func NewInMemoryAddressSigner(addrKeys ...AddressKeys) AddressSigner {
 		addrKeys: map[string]interface{}{},
 	}
 	for _, c := range addrKeys {
-		ss.addrKeys[c.Address.Key()] = c.Keys
+		addr := c.Address
+		if restrictedAddr, isRestricted := addr.(*RestrictedAddress); isRestricted {
+			// the keys of a restricted address are the ones of its underlying address
+			addr = restrictedAddr.Address
+		}
+
+		ss.addrKeys[addr.Key()] = c.Keys
 	}
 
 	return ss
-- 
2.43.0


From 461d74c0ee987567b9610c19173ec4e96a6a6af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 42/50] fix: do not share the seed and path of a key manager
 with its callers

---
 wallet/keymanager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wallet/keymanager.go b/wallet/keymanager.go
index 856615c..95c4f8a 100644
--- a/wallet/keymanager.go
+++ b/wallet/keymanager.go
@@ -60,7 +60,7 @@ func NewKeyManager(seed []byte, path string) (*KeyManager, error) {
 	}
 
 	return &KeyManager{
-		seed: seed,
+		seed: lo.CopySlice(seed),
 		path: bip32Path,
 	}, nil
 }
@@ -81,7 +81,7 @@ func (k *KeyManager) KeyPair(index ...uint32) (ed25519.PrivateKey, ed25519.Publi
 func (k *KeyManager) Path(index ...uint32) bip32path.Path {
 	if len(index) == 0 {
 		// no additional index given, use the internal path
-		return k.path
+		return lo.CopySlice(k.path)
 	}
 
 	// new index given, check if the internal path contains the index part
-- 
2.43.0


From c8706dd5bcd4ceb082b196f28972d64abcf66508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 43/50] fix: return the mnemonic the keys of a key manager are
 derived from

---
 wallet/keymanager.go | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/wallet/keymanager.go b/wallet/keymanager.go
index 95c4f8a..9b5c862 100644
--- a/wallet/keymanager.go
+++ b/wallet/keymanager.go
@@ -24,17 +24,32 @@ const (
 type KeyManager struct {
 	seed []byte
 	path bip32path.Path
+	// mnemonic is the mnemonic the seed was derived from, if there is one.
+	mnemonic bip39.Mnemonic
 }
 
 // NewKeyManagerFromRandom creates a new key manager from random entropy.
 func NewKeyManagerFromRandom(path string) (*KeyManager, error) {
-	// Generate random entropy by using ed25519 key generation and using the private key seed (32 bytes)
-	_, random, err := ed25519.GenerateKey(nil)
-	if err != nil {
-		return nil, ierrors.Wrap(err, "failed to generate random entropy")
-	}
+	for {
+		// Generate random entropy by using ed25519 key generation and using the private key seed (32 bytes)
+		_, random, err := ed25519.GenerateKey(nil)
+		if err != nil {
+			return nil, ierrors.Wrap(err, "failed to generate random entropy")
+		}
+
+		mnemonicSentence, err := bip39.EntropyToMnemonic(random.Seed())
+		if err != nil {
+			return nil, ierrors.Wrap(err, "failed to convert entropy to mnemonic")
+		}
+
+		keyManager, err := newKeyManagerFromMnemonicSentence(mnemonicSentence, path)
+		if ierrors.Is(err, bip39.ErrInvalidChecksum) {
+			// the bip39 package can't read back entropy with leading zero bytes, so such a mnemonic is of no use
+			continue
+		}
 
-	return NewKeyManager(random.Seed(), path)
+		return keyManager, err
+	}
 }
 
 // NewKeyManagerFromMnemonic creates a new key manager from a mnemonic.
@@ -44,12 +59,22 @@ func NewKeyManagerFromMnemonic(mnemonic string, path string) (*KeyManager, error
 		return nil, ierrors.New("mnemomic sentence is not 24 words long")
 	}
 
+	return newKeyManagerFromMnemonicSentence(mnemonicSentence, path)
+}
+
+func newKeyManagerFromMnemonicSentence(mnemonicSentence bip39.Mnemonic, path string) (*KeyManager, error) {
 	seed, err := bip39.MnemonicToSeed(mnemonicSentence, "")
 	if err != nil {
 		return nil, ierrors.Wrap(err, "failed to convert mnemonic to seed")
 	}
 
-	return NewKeyManager(seed, path)
+	keyManager, err := NewKeyManager(seed, path)
+	if err != nil {
+		return nil, err
+	}
+	keyManager.mnemonic = mnemonicSentence
+
+	return keyManager, nil
 }
 
 // NewKeyManager creates a new key manager.
@@ -99,7 +124,12 @@ func (k *KeyManager) Path(index ...uint32) bip32path.Path {
 }
 
 // Mnemonic returns the mnemonic of the key manager.
+// If the key manager was created from a raw seed, the mnemonic encodes that seed.
 func (k *KeyManager) Mnemonic() bip39.Mnemonic {
+	if k.mnemonic != nil {
+		return lo.CopySlice(k.mnemonic)
+	}
+
 	mnemonic, err := bip39.EntropyToMnemonic(k.seed)
 	if err != nil {
 		panic(ierrors.Wrap(err, "failed to convert seed to mnemonic"))
-- 
2.43.0


From 088688c5fad7c30a5d868a61a7c0de7777c3c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 44/50] fix: report an undecodable event only once

---
 nodeclient/event_api_client.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/nodeclient/event_api_client.go b/nodeclient/event_api_client.go
index 2cb1a95..9742c95 100644
--- a/nodeclient/event_api_client.go
+++ b/nodeclient/event_api_client.go
@@ -161,7 +161,6 @@ func (eac *EventAPIClient) subscribeToCommitmentsTopicRaw(topic string) (<-chan
 	return subscribeToTopic(eac, topic+api.EventAPITopicSuffixRaw, func(payload []byte) (*iotago.Commitment, error) {
 		response := new(iotago.Commitment)
 		if _, err := eac.Client.CommittedAPI().Decode(payload, response); err != nil {
-			sendErrOrDrop(eac.Errors, err)
 			return nil, err
 		}
 
@@ -173,19 +172,16 @@ func (eac *EventAPIClient) subscribeToBlocksTopicRaw(topic string) (<-chan *iota
 	return subscribeToTopic(eac, topic+api.EventAPITopicSuffixRaw, func(payload []byte) (*iotago.Block, error) {
 		version, _, err := iotago.VersionFromBytes(payload)
 		if err != nil {
-			sendErrOrDrop(eac.Errors, err)
 			return nil, err
 		}
 
 		apiForVersion, err := eac.Client.apiProvider.APIForVersion(version)
 		if err != nil {
-			sendErrOrDrop(eac.Errors, err)
 			return nil, err
 		}
 
 		block := new(iotago.Block)
 		if _, err := apiForVersion.Decode(payload, block); err != nil {
-			sendErrOrDrop(eac.Errors, err)
 			return nil, err
 		}
 
@@ -197,7 +193,6 @@ func (eac *EventAPIClient) subscribeToTransactionMetadataTopicRaw(topic string)
 	return subscribeToTopic(eac, topic+api.EventAPITopicSuffixRaw, func(payload []byte) (*api.TransactionMetadataResponse, error) {
 		response := new(api.TransactionMetadataResponse)
 		if _, err := eac.Client.CommittedAPI().Decode(payload, response); err != nil {
-			sendErrOrDrop(eac.Errors, err)
 			return nil, err
 		}
 
@@ -209,7 +204,6 @@ func (eac *EventAPIClient) subscribeToBlockMetadataTopicRaw(topic string) (<-cha
 	return subscribeToTopic(eac, topic+api.EventAPITopicSuffixRaw, func(payload []byte) (*api.BlockMetadataResponse, error) {
 		response := new(api.BlockMetadataResponse)
 		if _, err := eac.Client.CommittedAPI().Decode(payload, response); err != nil {
-			sendErrOrDrop(eac.Errors, err)
 			return nil, err
 		}
 
@@ -221,7 +215,6 @@ func (eac *EventAPIClient) subscribeToOutputsWithMetadataTopicRaw(topic string)
 	return subscribeToTopic(eac, topic+api.EventAPITopicSuffixRaw, func(payload []byte) (*api.OutputWithMetadataResponse, error) {
 		response := new(api.OutputWithMetadataResponse)
 		if _, err := eac.Client.CommittedAPI().Decode(payload, response); err != nil {
-			sendErrOrDrop(eac.Errors, err)
 			return nil, err
 		}
 
-- 
2.43.0


From 20e308a25005fc6e661b03076501e1a62a9bfc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 45/50] fix: validate events and refuse payloads with trailing
 bytes in the event client

---
 nodeclient/event_api_client.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/nodeclient/event_api_client.go b/nodeclient/event_api_client.go
index 9742c95..0b91549 100644
--- a/nodeclient/event_api_client.go
+++ b/nodeclient/event_api_client.go
@@ -11,6 +11,7 @@ import (
 	mqtt "github.com/eclipse/paho.mqtt.golang"
 
 	"github.com/iotaledger/hive.go/ierrors"
+	"github.com/iotaledger/hive.go/serializer/v2/serix"
 	iotago "github.com/iotaledger/iota.go/v4"
 	"github.com/iotaledger/iota.go/v4/api"
 	"github.com/iotaledger/iota.go/v4/hexutil"
@@ -160,7 +161,7 @@ func subscribeToTopic[T any](eac *EventAPIClient, topic string, deseriFunc func(
 func (eac *EventAPIClient) subscribeToCommitmentsTopicRaw(topic string) (<-chan *iotago.Commitment, *EventAPIClientSubscription) {
 	return subscribeToTopic(eac, topic+api.EventAPITopicSuffixRaw, func(payload []byte) (*iotago.Commitment, error) {
 		response := new(iotago.Commitment)
-		if _, err := eac.Client.CommittedAPI().Decode(payload, response); err != nil {
+		if err := decodeBinary(eac.Client.CommittedAPI(), payload, response, serix.WithValidation()); err != nil {
 			return nil, err
 		}
 
@@ -170,18 +171,12 @@ func (eac *EventAPIClient) subscribeToCommitmentsTopicRaw(topic string) (<-chan
 
 func (eac *EventAPIClient) subscribeToBlocksTopicRaw(topic string) (<-chan *iotago.Block, *EventAPIClientSubscription) {
 	return subscribeToTopic(eac, topic+api.EventAPITopicSuffixRaw, func(payload []byte) (*iotago.Block, error) {
-		version, _, err := iotago.VersionFromBytes(payload)
+		block, consumedBytes, err := iotago.BlockFromBytes(eac.Client)(payload)
 		if err != nil {
 			return nil, err
 		}
 
-		apiForVersion, err := eac.Client.apiProvider.APIForVersion(version)
-		if err != nil {
-			return nil, err
-		}
-
-		block := new(iotago.Block)
-		if _, err := apiForVersion.Decode(payload, block); err != nil {
+		if err := checkConsumed(payload, consumedBytes); err != nil {
 			return nil, err
 		}
 
@@ -192,7 +187,7 @@ func (eac *EventAPIClient) subscribeToBlocksTopicRaw(topic string) (<-chan *iota
 func (eac *EventAPIClient) subscribeToTransactionMetadataTopicRaw(topic string) (<-chan *api.TransactionMetadataResponse, *EventAPIClientSubscription) {
 	return subscribeToTopic(eac, topic+api.EventAPITopicSuffixRaw, func(payload []byte) (*api.TransactionMetadataResponse, error) {
 		response := new(api.TransactionMetadataResponse)
-		if _, err := eac.Client.CommittedAPI().Decode(payload, response); err != nil {
+		if err := decodeBinary(eac.Client.CommittedAPI(), payload, response, serix.WithValidation()); err != nil {
 			return nil, err
 		}
 
@@ -203,7 +198,7 @@ func (eac *EventAPIClient) subscribeToTransactionMetadataTopicRaw(topic string)
 func (eac *EventAPIClient) subscribeToBlockMetadataTopicRaw(topic string) (<-chan *api.BlockMetadataResponse, *EventAPIClientSubscription) {
 	return subscribeToTopic(eac, topic+api.EventAPITopicSuffixRaw, func(payload []byte) (*api.BlockMetadataResponse, error) {
 		response := new(api.BlockMetadataResponse)
-		if _, err := eac.Client.CommittedAPI().Decode(payload, response); err != nil {
+		if err := decodeBinary(eac.Client.CommittedAPI(), payload, response, serix.WithValidation()); err != nil {
 			return nil, err
 		}
 
@@ -214,7 +209,7 @@ func (eac *EventAPIClient) subscribeToBlockMetadataTopicRaw(topic string) (<-cha
 func (eac *EventAPIClient) subscribeToOutputsWithMetadataTopicRaw(topic string) (<-chan *api.OutputWithMetadataResponse, *EventAPIClientSubscription) {
 	return subscribeToTopic(eac, topic+api.EventAPITopicSuffixRaw, func(payload []byte) (*api.OutputWithMetadataResponse, error) {
 		response := new(api.OutputWithMetadataResponse)
-		if _, err := eac.Client.CommittedAPI().Decode(payload, response); err != nil {
+		if err := decodeBinary(eac.Client.CommittedAPI(), payload, response, serix.WithValidation()); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From a9df3c567801a4af1b7c02e50f054ab9b2d7f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 46/50] fix: return an error when connecting to a node whose
 protocol parameters cannot be used

---
 nodeclient/http_api_client.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/nodeclient/http_api_client.go b/nodeclient/http_api_client.go
index c414072..452527c 100644
--- a/nodeclient/http_api_client.go
+++ b/nodeclient/http_api_client.go
@@ -110,12 +110,32 @@ func New(baseURL string, opts ...ClientOption) (*Client, error) {
 		return nil, ierrors.Wrap(err, "unable to call info endpoint for protocol parameter init")
 	}
 	for _, params := range info.ProtocolParameters {
-		client.apiProvider.AddProtocolParametersAtEpoch(params.Parameters, params.StartEpoch)
+		if err := client.addProtocolParameters(params); err != nil {
+			return nil, err
+		}
+	}
+
+	if client.apiProvider.CommittedAPI() == nil {
+		return nil, ierrors.New("the node did not provide the protocol parameters in force at its latest commitment")
 	}
 
 	return client, nil
 }
 
+// addProtocolParameters adds the protocol parameters provided by the node.
+// Returns an error if no API can be created from them, e.g. because their version is not supported.
+func (client *Client) addProtocolParameters(params *api.InfoResProtocolParameters) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = ierrors.Errorf("unable to use the protocol parameters for version %d provided by the node: %v", params.Parameters.Version(), r)
+		}
+	}()
+
+	client.apiProvider.AddProtocolParametersAtEpoch(params.Parameters, params.StartEpoch)
+
+	return nil
+}
+
 // Client is a client for node HTTP REST API endpoints.
 type Client struct {
 	// The base URL for all API calls.
-- 
2.43.0


From bb4e6e2f341328816c99039a4c80ff3b31e0409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 47/50] fix: copy the multi address ID out of the parsed bytes

---
 address_multi_reference.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address_multi_reference.go b/address_multi_reference.go
index db153e0..6795883 100644
--- a/address_multi_reference.go
+++ b/address_multi_reference.go
@@ -67,7 +67,7 @@ func MultiAddressReferenceFromBytes(bytes []byte) (*MultiAddressReference, int,
 		return nil, 0, ErrInvalidAddressType
 	}
 
-	return &MultiAddressReference{MultiAddressID: bytes[:AddressMultiIDLength]}, AddressMultiIDLength, nil
+	return &MultiAddressReference{MultiAddressID: lo.CopySlice(bytes[:AddressMultiIDLength])}, AddressMultiIDLength, nil
 }
 
 func NewMultiAddressReferenceFromMultiAddress(address *MultiAddress) *MultiAddressReference {
-- 
2.43.0


From c19e19df7b1c3d261d8c9a339c8f1c1a1bc5fac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 48/50] fix: record referential unlocks of key addresses with
 the address they unlock

---
 vm/vm.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vm/vm.go b/vm/vm.go
index 47fa9ac..d94c5c4 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -244,8 +244,6 @@ func (s *unlockedAddressesSet) ReferentialUnlockDirectlyUnlockable(owner iotago.
 		return nil
 	}
 
-	referencedAddrWithSignature.ReferencedByInputIndex[inputIndex] = struct{}{}
-
 	// we need to add the address to the unlocked addresses map, in case it didn't exist yet.
 	// this is necessary if for example the same signature was used before to unlock another address
 	// (e.g. derived from the same public key) and is now used in the referential unlock.
@@ -255,14 +253,19 @@ func (s *unlockedAddressesSet) ReferentialUnlockDirectlyUnlockable(owner iotago.
 	// for further "ReferentialUnlockDirect" referential unlocks which is correct
 	// because the original one should be used instead.
 	ownerKey := owner.Key()
-	if _, contains := s.UnlockedAddrsByAddrKey[ownerKey]; !contains {
+	unlockedAddr, contains := s.UnlockedAddrsByAddrKey[ownerKey]
+	if !contains {
 		s.UnlockedAddrsByAddrKey[ownerKey] = &UnlockedAddress{
 			Address:                owner,
 			UnlockedAtInputIndex:   inputIndex,
 			ReferencedByInputIndex: map[uint16]struct{}{},
 		}
+
+		return nil
 	}
 
+	unlockedAddr.ReferencedByInputIndex[inputIndex] = struct{}{}
+
 	return nil
 }
 
-- 
2.43.0


From a5e43c9890e61a8acc0675b3eeb375b8135ef308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 49/50] fix: storage deposits returned to the restricted
 address that unlocked the input

---
 vm/vm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vm/vm.go b/vm/vm.go
index d94c5c4..66ae096 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -729,8 +729,10 @@ func ExecFuncBalancedBaseTokens() ExecFunc {
 			returnAddr := returnUnlockCond.ReturnAddress.Key()
 
 			// if the return address unlocked this input, then the return amount does
-			// not have to be fulfilled (this can happen implicit through an expiration condition)
-			if vmParams.WorkingSet.UnlockedAddrs.UnlockedBy(vmParams.WorkingSet.InputIDToInputIndex[inputID], returnAddr) {
+			// not have to be fulfilled (this can happen implicit through an expiration condition).
+			// Addresses are unlocked without their restrictions.
+			unlockableAddr := resolveUnderlyingAddress(returnUnlockCond.ReturnAddress).Key()
+			if vmParams.WorkingSet.UnlockedAddrs.UnlockedBy(vmParams.WorkingSet.InputIDToInputIndex[inputID], unlockableAddr) {
 				continue
 			}
 
-- 
2.43.0


From ce782c4e382186c2f18ce153d80bb55c05f12426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:52 +0000
Subject: [PATCH 50/50] fix: bech32 strings of invalid restricted addresses
 must be rejected

---
 address.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/address.go b/address.go
index 34afd61..b193422 100644
--- a/address.go
+++ b/address.go
@@ -249,6 +249,10 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
 			}
 
+			if err := BitMaskNonTrailingZeroBytesValidatorFunc(capabilities); err != nil {
+				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
+			}
+
 			if 1+consumed+capabilitiesConsumed != len(addrData) {
 				return "", nil, serializer.ErrDeserializationNotAllConsumed
 			}
@@ -266,7 +270,7 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 	}
 
 	serixAPI := CommonSerixAPI()
-	n, err := serixAPI.Decode(context.TODO(), addrData, addr)
+	n, err := serixAPI.Decode(context.TODO(), addrData, addr, serix.WithValidation())
 	if err != nil {
 		return "", nil, err
 	}
-- 
2.43.0

