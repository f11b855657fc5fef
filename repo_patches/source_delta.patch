From 2da6abc52ca02bfc743c00fa8f3014814ce00668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 01/63] fix: evmzero push instructions read unaligned code
 words through memcpy

---
 cpp/vm/evmzero/interpreter.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cpp/vm/evmzero/interpreter.cc b/cpp/vm/evmzero/interpreter.cc
index 7c21900..0dd4145 100644
--- a/cpp/vm/evmzero/interpreter.cc
+++ b/cpp/vm/evmzero/interpreter.cc
@@ -13,6 +13,7 @@
 #include <bit>
 #include <cstdint>
 #include <cstdio>
+#include <cstring>
 #include <intx/intx.hpp>
 #include <iostream>
 
@@ -1389,11 +1390,13 @@ struct PushImpl {
     }
 
     for (size_t i = 0; i < num_full_words; ++i) {
+      // The immediate data is not aligned in general.
+      uint64_t word = 0;
+      std::memcpy(&word, data, sizeof(word));
       if constexpr (std::endian::native == std::endian::little) {
-        value[num_full_words - 1 - i] = intx::bswap(*reinterpret_cast<const uint64_t*>(data));
-      } else {
-        value[num_full_words - 1 - i] = *reinterpret_cast<const uint64_t*>(data);
+        word = intx::bswap(word);
       }
+      value[num_full_words - 1 - i] = word;
       data += sizeof(uint64_t);
     }
 
-- 
2.43.0


From 3ccbb06b1a9360e2ef95c0f55a40751c0eabc959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 02/63] fix: lfvm hash cache reads cached hash while holding
 its lock

---
 go/interpreter/lfvm/hash_cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/hash_cache.go b/go/interpreter/lfvm/hash_cache.go
index f6b651d..878982c 100644
--- a/go/interpreter/lfvm/hash_cache.go
+++ b/go/interpreter/lfvm/hash_cache.go
@@ -108,8 +108,10 @@ func (h *hashCache[K]) getHash(key K) tosca.Hash {
 			h.head.pred = entry
 			h.head = entry
 		}
+		// The entry may be evicted and reused as soon as the lock is released.
+		hash := entry.hash
 		h.lock.Unlock()
-		return entry.hash
+		return hash
 	}
 
 	// Compute the hash without holding the lock.
-- 
2.43.0


From 09f9e5b13d103cb63b024795fcc7884c9518bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 03/63] fix: lfvm super instruction SWAP2_SWAP1_POP_JUMP checks
 destination overflow

---
 go/interpreter/lfvm/super_instructions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/interpreter/lfvm/super_instructions.go b/go/interpreter/lfvm/super_instructions.go
index 5ce7b50..bdc9483 100644
--- a/go/interpreter/lfvm/super_instructions.go
+++ b/go/interpreter/lfvm/super_instructions.go
@@ -11,6 +11,7 @@
 package lfvm
 
 import (
+	"math"
 	"math/bits"
 
 	"github.com/holiman/uint256"
@@ -121,6 +122,10 @@ func opSwap2_Swap1_Pop_Jump(c *context) error {
 	top := c.stack.pop()
 	c.stack.pop()
 	trg := c.stack.peek()
+	// overflow check
+	if !trg.IsUint64() || trg.Uint64() > math.MaxInt32 {
+		return errInvalidJump
+	}
 	c.pc = int32(trg.Uint64()) - 1
 	*trg = *top
 	return checkJumpDest(c)
-- 
2.43.0


From 454380964e591467650773d99311cd6eaf693f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 04/63] fix: LruCache no longer forms a reference past its last
 entry when cleared

---
 cpp/common/lru_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/common/lru_cache.h b/cpp/common/lru_cache.h
index 036e4dd..867d87b 100644
--- a/cpp/common/lru_cache.h
+++ b/cpp/common/lru_cache.h
@@ -84,7 +84,7 @@ class LruCache {
     entries_.resize(Capacity);
     for (size_t i = 0; i < entries_.size(); i++) {
       entries_[i].pred = i > 0 ? &entries_[i - 1] : nullptr;
-      entries_[i].succ = i < entries_.size() ? &entries_[i + 1] : nullptr;
+      entries_[i].succ = i + 1 < entries_.size() ? &entries_[i + 1] : nullptr;
     }
     head_ = &entries_[0];
     tail_ = &entries_[Capacity - 1];
-- 
2.43.0


From 0a56802f218e000eea8f033bd302494837f8ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 05/63] fix: LruCache supports a capacity of one

---
 cpp/common/lru_cache.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cpp/common/lru_cache.h b/cpp/common/lru_cache.h
index 867d87b..bdae009 100644
--- a/cpp/common/lru_cache.h
+++ b/cpp/common/lru_cache.h
@@ -123,12 +123,18 @@ class LruCache {
   }
 
   Entry* GetNewHead() {
-    // Remove tail element.
-    auto new_tail = tail_->pred;
-    new_tail->succ = nullptr;
     if (index_.size() >= entries_.size()) {
       index_.erase(tail_->key);
     }
+
+    // A single entry is head and tail at the same time.
+    if (head_ == tail_) {
+      return head_;
+    }
+
+    // Remove tail element.
+    auto new_tail = tail_->pred;
+    new_tail->succ = nullptr;
     auto result = tail_;
     tail_ = new_tail;
 
-- 
2.43.0


From 1afe05d5af7e6f8254f0fe02a6db1aba04b022ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 06/63] fix: HashBytes reads words of unaligned keys through
 memcpy

---
 cpp/common/hash_utils.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/common/hash_utils.h b/cpp/common/hash_utils.h
index 24bb5dc..b80f16f 100644
--- a/cpp/common/hash_utils.h
+++ b/cpp/common/hash_utils.h
@@ -12,6 +12,7 @@
 
 #include <array>
 #include <cstdint>
+#include <cstring>
 #include <functional>
 #include <span>
 
@@ -39,8 +40,10 @@ struct HashBytes {
     constexpr size_t kNumFullWords = N / kWordSize;
     size_t seed = 0;
     if constexpr (kNumFullWords > 0) {
-      const Word* begin = reinterpret_cast<const Word*>(key.data());
-      HashRange(seed, begin, begin + kNumFullWords);
+      // The key may have any alignment, so its words are copied.
+      std::array<Word, kNumFullWords> words;
+      std::memcpy(words.data(), key.data(), sizeof(words));
+      HashRange(seed, words.begin(), words.end());
     }
 
     // Hash the rest as bytes.
-- 
2.43.0


From 2596e04984626c89d1b8bc0459514d0738004d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 07/63] fix: Revision texts are only decoded if they are one
 entirely

A text merely containing 'Revision(3)' was accepted as a revision, and the
text of a negative revision, as printed by String, as its absolute value not
at all.
---
 go/tosca/revisions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tosca/revisions.go b/go/tosca/revisions.go
index 821d80d..678f3f9 100644
--- a/go/tosca/revisions.go
+++ b/go/tosca/revisions.go
@@ -72,7 +72,7 @@ func (r *Revision) UnmarshalJSON(data []byte) error {
 		revision = R13_Cancun
 	default:
 		// read Revision(X) format and extract the number.
-		reg := regexp.MustCompile(`Revision\(([0-9]+)\)`)
+		reg := regexp.MustCompile(`^Revision\((-?[0-9]+)\)$`)
 		substring := reg.FindAllStringSubmatch(s, 1)
 		if substring == nil {
 			return &json.UnmarshalTypeError{}
-- 
2.43.0


From 23e6aa9ac30cd7ff88fad5635320c78c8e2f69dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 08/63] fix: floria rejects oversized init code before charging
 for gas

---
 go/processor/floria/processor.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index d83080c..79ed4f0 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -64,6 +64,11 @@ func (p *processor) Run(
 		return tosca.Receipt{}, nil
 	}
 
+	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
+		len(transaction.Input) > maxInitCodeSize {
+		return tosca.Receipt{}, nil
+	}
+
 	if err := buyGas(transaction, context); err != nil {
 		return tosca.Receipt{}, nil
 	}
@@ -74,11 +79,6 @@ func (p *processor) Run(
 	}
 	gas -= intrinsicGas
 
-	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
-		len(transaction.Input) > maxInitCodeSize {
-		return tosca.Receipt{}, nil
-	}
-
 	transactionParameters := tosca.TransactionParameters{
 		Origin:     transaction.Sender,
 		GasPrice:   transaction.GasPrice,
-- 
2.43.0


From 037baeb6e3d4da85aff299cd80e6a7b627d76b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 09/63] fix: floria rejects transactions whose gas costs exceed
 256 bits

---
 go/processor/floria/processor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index 79ed4f0..5926e6e 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -12,6 +12,7 @@ package floria
 
 import (
 	"fmt"
+	"math/big"
 
 	"github.com/Fantom-foundation/Tosca/go/tosca"
 )
@@ -273,6 +274,12 @@ func setupGasBilling(transaction tosca.Transaction) tosca.Gas {
 func buyGas(transaction tosca.Transaction, context tosca.TransactionContext) error {
 	gas := transaction.GasPrice.Scale(uint64(transaction.GasLimit))
 
+	// No account can pay for gas exceeding the range of values
+	price, limit := transaction.GasPrice.ToBig(), new(big.Int).SetUint64(uint64(transaction.GasLimit))
+	if price.Mul(price, limit).BitLen() > 256 {
+		return fmt.Errorf("gas costs overflow: %v * %v", transaction.GasPrice, transaction.GasLimit)
+	}
+
 	// Buy gas
 	senderBalance := context.GetBalance(transaction.Sender)
 	if senderBalance.Cmp(gas) < 0 {
-- 
2.43.0


From 55bc6d0d6b2535642ec9be0cffdbe728007d69bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 10/63] fix: floria increments the nonce of creators of
 occupied addresses

---
 go/processor/floria/run_context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 64f6c15..a2e5163 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -60,13 +60,14 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			parameters.Salt,
 			codeHash,
 		)
+		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
+
 		if r.GetNonce(createdAddress) != 0 ||
 			(r.GetCodeHash(createdAddress) != (tosca.Hash{}) &&
 				r.GetCodeHash(createdAddress) != emptyCodeHash) {
 			return tosca.CallResult{}, nil
 		}
 
-		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
 		r.SetNonce(createdAddress, 1)
 		recipient = createdAddress
 	}
-- 
2.43.0


From cfc46ef05b9c8b62d04bd38dd98ee7ed9c89407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 11/63] fix: floria undoes all effects of failed contract
 creations

---
 go/processor/floria/run_context.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index a2e5163..a3b773f 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -68,7 +68,6 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			return tosca.CallResult{}, nil
 		}
 
-		r.SetNonce(createdAddress, 1)
 		recipient = createdAddress
 	}
 
@@ -78,6 +77,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 
 	snapshot := r.CreateSnapshot()
 
+	if kind == tosca.Create || kind == tosca.Create2 {
+		r.SetNonce(createdAddress, 1)
+	}
+
 	// StaticCall and DelegateCall do not transfer value
 	if kind != tosca.StaticCall && kind != tosca.DelegateCall {
 		if err := transferValue(r, parameters.Value, parameters.Sender, recipient); err != nil {
@@ -126,13 +129,16 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	} else if kind == tosca.Create || kind == tosca.Create2 {
 		code := result.Output
 		if len(code) > maxCodeSize {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		if r.blockParameters.Revision >= tosca.R10_London && len(code) > 0 && code[0] == 0xEF {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		createGas := tosca.Gas(len(result.Output) * createGasCostPerByte)
 		if result.GasLeft < createGas {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		result.GasLeft -= createGas
-- 
2.43.0


From 923e7d83a4a56dd9e79161605bb419d9bb412aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 12/63] fix: floria undoes value transfers to failing
 precompiled contracts

---
 go/processor/floria/run_context.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index a3b773f..ccefcaa 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -92,11 +92,18 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	output, isStatePrecompiled := handleStateContract(
 		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
 	if isStatePrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 	output, isPrecompiled := handlePrecompiledContract(
 		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
 	if isPrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+			return tosca.CallResult{}, nil
+		}
 		return output, nil
 	}
 
-- 
2.43.0


From ef3b08d559e04ebf900e65c090bccdee45252e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 13/63] fix: floria starts init code with empty input

---
 go/processor/floria/run_context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index ccefcaa..736af1a 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -46,12 +46,14 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		codeHash = r.GetCodeHash(parameters.CodeAddress)
 	}
 
+	input := parameters.Input
 	recipient := parameters.Recipient
 	var createdAddress tosca.Address
 	if kind == tosca.Create || kind == tosca.Create2 {
 		if parameters.Recipient == (tosca.Address{}) {
 			code = tosca.Code(parameters.Input)
 			codeHash = hashCode(code)
+			input = nil
 		}
 		createdAddress = createAddress(
 			kind,
@@ -124,7 +126,7 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		Gas:                   parameters.Gas,
 		Recipient:             recipient,
 		Sender:                parameters.Sender,
-		Input:                 parameters.Input,
+		Input:                 input,
 		Value:                 parameters.Value,
 		CodeHash:              &codeHash,
 		Code:                  code,
-- 
2.43.0


From e4cd43c5734c2f4ef89ededc4e5d646384cb63a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 14/63] fix: floria runs precompiled contracts in delegate
 calls and call codes

---
 go/processor/floria/run_context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 736af1a..e6af208 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -99,8 +99,12 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 		return output, nil
 	}
+	codeAddress := recipient
+	if kind == tosca.DelegateCall || kind == tosca.CallCode {
+		codeAddress = parameters.CodeAddress
+	}
 	output, isPrecompiled := handlePrecompiledContract(
-		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
+		r.blockParameters.Revision, parameters.Input, codeAddress, parameters.Gas)
 	if isPrecompiled {
 		if !output.Success {
 			r.RestoreSnapshot(snapshot)
-- 
2.43.0


From c947b348172a75fcd9f5fb035ddc88b2943a5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 15/63] fix: floria rejects state contract calls in static mode

---
 go/processor/floria/run_context.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index e6af208..303b68a 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -91,6 +91,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 	}
 
+	if r.static && recipient == StateContractAddress() {
+		r.RestoreSnapshot(snapshot)
+		return tosca.CallResult{}, nil
+	}
 	output, isStatePrecompiled := handleStateContract(
 		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
 	if isStatePrecompiled {
-- 
2.43.0


From b18cb83be55c9681dc245b45bae4867f4453eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 16/63] fix: floria state contract compares nonce increments in
 full

---
 go/processor/floria/state_contract.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/processor/floria/state_contract.go b/go/processor/floria/state_contract.go
index 0d062ed..aa14b64 100644
--- a/go/processor/floria/state_contract.go
+++ b/go/processor/floria/state_contract.go
@@ -228,19 +228,19 @@ func executeStateContractIncNonce(state tosca.WorldState, sender tosca.Address,
 
 	account := tosca.Address(input[12:32])
 	value := tosca.Value(input[32:64])
-	valueUint := big.NewInt(0).SetBytes(value[:]).Uint64()
+	increment := big.NewInt(0).SetBytes(value[:])
 
 	if account == sender {
 		// Origin nonce shouldn't change during his transaction
 		return 0, ErrExecutionReverted
 	}
 
-	if valueUint <= 0 || 256 <= valueUint {
+	if increment.Sign() <= 0 || increment.Cmp(big.NewInt(256)) >= 0 {
 		// Don't allow large nonce increasing to prevent a nonce overflow
 		return 0, ErrExecutionReverted
 	}
 
-	state.SetNonce(account, state.GetNonce(account)+valueUint)
+	state.SetNonce(account, state.GetNonce(account)+increment.Uint64())
 
 	return gas, nil
 }
-- 
2.43.0


From 57842e498c9f8a2dadfed42a7629b2f4a9fc5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 17/63] fix: only stacks of full capacity are recycled

---
 go/ct/st/stack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/ct/st/stack.go b/go/ct/st/stack.go
index 5815059..7d2c35e 100644
--- a/go/ct/st/stack.go
+++ b/go/ct/st/stack.go
@@ -65,6 +65,10 @@ func (s *Stack) Clone() *Stack {
 }
 
 func (s *Stack) Release() {
+	// Stacks not obtained from the pool may be too small to be recycled.
+	if cap(s.stack) < MaxStackSize {
+		return
+	}
 	stackPool.Put(s)
 }
 
-- 
2.43.0


From c0e13817dfda8813d47c56904f47f4abb086dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 18/63] fix: original storage values of zero equal missing ones

---
 go/ct/st/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/st/storage.go b/go/ct/st/storage.go
index 650c71e..5c98787 100644
--- a/go/ct/st/storage.go
+++ b/go/ct/st/storage.go
@@ -157,7 +157,7 @@ func mapEqualIgnoringZeroValues[K comparable](a map[K]U256, b map[K]U256) bool {
 
 func (a *Storage) Eq(b *Storage) bool {
 	return mapEqualIgnoringZeroValues(a.current, b.current) &&
-		maps.Equal(a.original, b.original) &&
+		mapEqualIgnoringZeroValues(a.original, b.original) &&
 		maps.Equal(a.warm, b.warm)
 }
 
-- 
2.43.0


From 36877756bdd0f42080e07725fc00b1f0281b42ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 19/63] fix: account code hashes of ct states are the Keccak
 hash of the code

---
 go/ct/st/accounts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/st/accounts.go b/go/ct/st/accounts.go
index 5569c6b..b59f31f 100644
--- a/go/ct/st/accounts.go
+++ b/go/ct/st/accounts.go
@@ -79,7 +79,7 @@ func (a *Accounts) GetCode(address tosca.Address) Bytes {
 func (a *Accounts) GetCodeHash(address tosca.Address) (hash [32]byte) {
 	hasher := sha3.NewLegacyKeccak256()
 	_, _ = hasher.Write(a.GetCode(address).ToBytes()) // Hash.Write never returns an error
-	hasher.Sum(hash[:])
+	hasher.Sum(hash[:0])
 	return
 }
 
-- 
2.43.0


From 5082aa697180938c21bc77c263cd5329ada2a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 20/63] fix: ct specification covers jumps with too little gas
 to any destination

---
 go/ct/spc/specification.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index f8f6458..341bab6 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -578,6 +578,8 @@ func getAllRules() []Rule {
 		},
 	})...)
 
+	rules = append(rules, tooLittleGas(instruction{op: vm.JUMP, staticGas: 8, name: "_to_any_destination"})...)
+
 	rules = append(rules, []Rule{
 		{
 			Name: "jump_to_data",
@@ -633,6 +635,8 @@ func getAllRules() []Rule {
 		},
 	})...)
 
+	rules = append(rules, tooLittleGas(instruction{op: vm.JUMPI, staticGas: 10, name: "_to_any_destination"})...)
+
 	rules = append(rules, []Rule{
 		{
 			Name: "jumpi_not_taken",
-- 
2.43.0


From 9605c9dba8ef4f68727c00688e672953f893ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 21/63] fix: ct specification covers logs in read-only mode
 with too little gas

---
 go/ct/spc/specification.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index 341bab6..7d75a29 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -2185,7 +2185,6 @@ func logOp(n int) []Rule {
 		AnyKnownRevision(),
 		Eq(Status(), st.Running),
 		Eq(Op(Pc()), op),
-		Ge(Gas(), minGas),
 		Eq(ReadOnly(), true),
 		Ge(StackSize(), 2+n),
 	}
-- 
2.43.0


From 8c4b690eb4c1d4f7aca19004af911fbd3b0e8d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 22/63] fix: ct specification covers PUSH0 before Shanghai for
 all gas and stack sizes

---
 go/ct/spc/specification.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index 7d75a29..d95da1d 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -872,8 +872,6 @@ func getAllRules() []Rule {
 				RevisionBounds(tosca.R07_Istanbul, tosca.R11_Paris),
 				Eq(Status(), st.Running),
 				Eq(Op(Pc()), vm.PUSH0),
-				Ge(Gas(), 2),
-				Lt(StackSize(), st.MaxStackSize-1),
 			),
 			Effect: FailEffect(),
 		},
-- 
2.43.0


From c102fc111db1ee7f1439c1a34e2653c630f95a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 23/63] fix: ct specification covers SSTORE of unchanged values
 to cold slots and at its gas limits

---
 go/ct/spc/specification.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index d95da1d..ae0caac 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -502,7 +502,7 @@ func getAllRules() []Rule {
 		// Certain storage configurations imply warm access. Not all
 		// combinations are possible; invalid ones are marked below.
 
-		// {revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAssigned, gasCost: 2200}, // invalid
+		{revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAssigned, gasCost: 2200},
 		{revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAdded, gasCost: 22100},
 		// {revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAddedDeleted, gasCost: 2200, gasRefund: 19900},     // invalid
 		// {revision: tosca.R09_Berlin, warm: false, config: tosca.StorageDeletedRestored, gasCost: 2200, gasRefund: -10800}, // invalid
@@ -527,7 +527,7 @@ func getAllRules() []Rule {
 		// Certain storage configurations imply warm access. Not all
 		// combinations are possible; invalid ones are marked below.
 		sstoreRules = append(sstoreRules, []sstoreOpParams{
-			// {revision: rev, warm: false, config: tosca.StorageAssigned, gasCost: 2200}, // invalid
+			{revision: rev, warm: false, config: tosca.StorageAssigned, gasCost: 2200},
 			{revision: rev, warm: false, config: tosca.StorageAdded, gasCost: 22100},
 			// {revision: rev, warm: false, config: tosca.StorageAddedDeleted, gasCost: 2200, gasRefund: 19900},  // invalid
 			// {revision: rev, warm: false, config: tosca.StorageDeletedRestored, gasCost: 2200, gasRefund: 100}, // invalid
@@ -555,7 +555,7 @@ func getAllRules() []Rule {
 		rules = append(rules, sstoreOpReadOnlyMode(params))
 	}
 
-	rules = append(rules, tooLittleGas(instruction{op: vm.SSTORE, staticGas: 2300, name: "_EIP2200"})...)
+	rules = append(rules, tooLittleGas(instruction{op: vm.SSTORE, staticGas: 2301, name: "_EIP2200"})...)
 	rules = append(rules, tooFewElements(instruction{op: vm.SSTORE, staticGas: 2, pops: 2})...)
 
 	// --- JUMP ---
@@ -2104,16 +2104,10 @@ func sstoreOpTooLittleGas(params sstoreOpParams) Rule {
 func sstoreOpReadOnlyMode(params sstoreOpParams) Rule {
 	name := fmt.Sprintf("sstore_in_read_only_mode_%v_%v", params.revision, params.config)
 
-	gasLimit := tosca.Gas(2301) // EIP2200
-	if params.gasCost > gasLimit {
-		gasLimit = params.gasCost
-	}
-
 	conditions := []Condition{
 		IsRevision(params.revision),
 		Eq(Status(), st.Running),
 		Eq(Op(Pc()), vm.SSTORE),
-		Ge(Gas(), gasLimit),
 		Eq(ReadOnly(), true),
 		Ge(StackSize(), 2),
 		StorageConfiguration(params.config, Param(0), Param(1)),
-- 
2.43.0


From cdb08ca18b079d15282d042baa8318376cecc57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 24/63] fix: strict comparisons of ct conditions restrict
 generators to all values satisfying them

---
 go/ct/rlz/conditions.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/go/ct/rlz/conditions.go b/go/ct/rlz/conditions.go
index b30dfc8..013bb82 100644
--- a/go/ct/rlz/conditions.go
+++ b/go/ct/rlz/conditions.go
@@ -199,8 +199,7 @@ func (c *lt[T]) Check(s *st.State) (bool, error) {
 }
 
 func (c *lt[T]) Restrict(generator *gen.StateGenerator) {
-	domain := c.lhs.Domain()
-	c.lhs.Restrict(RestrictLess, domain.Predecessor(c.rhs), generator)
+	c.lhs.Restrict(RestrictLess, c.rhs, generator)
 }
 
 func (c *lt[T]) GetTestValues() []TestValue {
@@ -266,8 +265,7 @@ func (c *gt[T]) Check(s *st.State) (bool, error) {
 }
 
 func (c *gt[T]) Restrict(generator *gen.StateGenerator) {
-	domain := c.lhs.Domain()
-	c.lhs.Restrict(RestrictGreater, domain.Successor(c.rhs), generator)
+	c.lhs.Restrict(RestrictGreater, c.rhs, generator)
 }
 
 func (c *gt[T]) GetTestValues() []TestValue {
-- 
2.43.0


From 33ebf050d346d012d0bfceeb021fae0bf9cd3592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 25/63] fix: balances below zero or above the maximum are
 unsatisfiable in ct conditions

---
 go/ct/rlz/expressions.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/go/ct/rlz/expressions.go b/go/ct/rlz/expressions.go
index 3f7cb7e..cc19a91 100644
--- a/go/ct/rlz/expressions.go
+++ b/go/ct/rlz/expressions.go
@@ -252,6 +252,11 @@ func (b balance) Restrict(kind RestrictionKind, value U256, generator *gen.State
 
 	switch kind {
 	case RestrictLess:
+		if value.IsZero() { // no balance is less than zero
+			generator.AddBalanceLowerBound(variable, NewU256(1))
+			generator.AddBalanceUpperBound(variable, NewU256(0))
+			return
+		}
 		generator.AddBalanceUpperBound(variable, value.Sub(NewU256(1)))
 	case RestrictLessEqual:
 		generator.AddBalanceUpperBound(variable, value)
@@ -261,6 +266,11 @@ func (b balance) Restrict(kind RestrictionKind, value U256, generator *gen.State
 	case RestrictGreaterEqual:
 		generator.AddBalanceLowerBound(variable, value)
 	case RestrictGreater:
+		if value.Eq(MaxU256()) { // no balance is greater than the maximum
+			generator.AddBalanceLowerBound(variable, NewU256(1))
+			generator.AddBalanceUpperBound(variable, NewU256(0))
+			return
+		}
 		generator.AddBalanceLowerBound(variable, value.Add(NewU256(1)))
 	}
 }
-- 
2.43.0


From f9efe2ed6db3874951888256257107de77c3bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 26/63] fix: lfvm conformance adapter runs states with program
 counters past the end of the code

---
 go/interpreter/lfvm/ct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/ct.go b/go/interpreter/lfvm/ct.go
index 0bd6676..c7e4777 100644
--- a/go/interpreter/lfvm/ct.go
+++ b/go/interpreter/lfvm/ct.go
@@ -58,9 +58,12 @@ func (a *ctAdapter) StepN(state *st.State, numSteps int) (*st.State, error) {
 
 	memory := convertCtMemoryToLfvmMemory(state.Memory)
 
+	// All positions past the end of the code are implicit STOPs.
+	pc := min(int(state.Pc), len(params.Code))
+
 	// Set up execution context.
 	var ctxt = &context{
-		pc:           int32(pcMap.evmToLfvm[state.Pc]),
+		pc:           int32(pcMap.evmToLfvm[pc]),
 		params:       params,
 		context:      params.Context,
 		gas:          params.Gas,
-- 
2.43.0


From 095e724e9967446ea3f83d667d1c709d024d1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 27/63] fix: lfvm conformance adapter does not count skipped
 padding as steps

---
 go/interpreter/lfvm/ct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/interpreter/lfvm/ct.go b/go/interpreter/lfvm/ct.go
index c7e4777..1a12d62 100644
--- a/go/interpreter/lfvm/ct.go
+++ b/go/interpreter/lfvm/ct.go
@@ -83,6 +83,12 @@ func (a *ctAdapter) StepN(state *st.State, numSteps int) (*st.State, error) {
 	status := statusRunning
 	for i := 0; status == statusRunning && i < numSteps; i++ {
 		status = execute(ctxt, true)
+
+		// Instructions skipping padding introduced by the code conversion do
+		// not count as steps, as they have no counterpart in the EVM code.
+		for status == statusRunning && int(ctxt.pc) < len(ctxt.code) && ctxt.code[ctxt.pc].opcode == JUMP_TO {
+			status = execute(ctxt, true)
+		}
 	}
 
 	// Update the resulting state.
-- 
2.43.0


From 177c4987a54f93823abba7096190355884227c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 28/63] fix: ct stacks grow beyond their initial capacity when
 resized

---
 go/ct/st/stack.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/ct/st/stack.go b/go/ct/st/stack.go
index 7d2c35e..96ad1ee 100644
--- a/go/ct/st/stack.go
+++ b/go/ct/st/stack.go
@@ -76,6 +76,12 @@ func (s *Stack) Resize(size int) {
 	if MaxStackSize < size {
 		panic("Warning: maximal stack size exceeded")
 	}
+	if cap(s.stack) < size {
+		stack := make([]U256, size, MaxStackSize)
+		copy(stack, s.stack)
+		s.stack = stack
+		return
+	}
 	s.stack = s.stack[:size]
 }
 
-- 
2.43.0


From 31af3e61b4b64b3b83c43046ec3a1332be07d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 29/63] fix: ct code generator satisfies position constraints
 on pre-assigned variables and accepts satisfiable sets

---
 go/ct/gen/code.go | 114 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 97 insertions(+), 17 deletions(-)

diff --git a/go/ct/gen/code.go b/go/ct/gen/code.go
index dad12c5..24cb850 100644
--- a/go/ct/gen/code.go
+++ b/go/ct/gen/code.go
@@ -59,12 +59,18 @@ func NewCodeGenerator() *CodeGenerator {
 
 // SetOperation fixes an operation to be placed at a given offset.
 func (g *CodeGenerator) SetOperation(pos int, op vm.OpCode) {
-	g.constOps = append(g.constOps, constOpConstraint{pos: pos, op: op})
+	c := constOpConstraint{pos: pos, op: op}
+	if !slices.Contains(g.constOps, c) {
+		g.constOps = append(g.constOps, c)
+	}
 }
 
 // AddOperation adds a constraint placing an operation at a variable position.
 func (g *CodeGenerator) AddOperation(v Variable, op vm.OpCode) {
-	g.varOps = append(g.varOps, varOpConstraint{variable: v, op: op})
+	c := varOpConstraint{variable: v, op: op}
+	if !slices.Contains(g.varOps, c) {
+		g.varOps = append(g.varOps, c)
+	}
 }
 
 // AddIsCode adds a constraint such that the generator will produce a code
@@ -102,11 +108,34 @@ func (g *CodeGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.Cod
 	// Pick a random size that is large enough for all const constraints.
 	minSize := 0
 	for _, constraint := range ops {
-		if constraint.pos > minSize {
+		if constraint.pos >= minSize {
 			minSize = constraint.pos + 1
 		}
 	}
 
+	// Pre-assigned positions required to be data must be part of the code,
+	// while those required to be code may also be beyond its end.
+	for _, constraint := range g.varIsCodeConstraints {
+		if value, found := assignment[constraint.variable]; found && value.IsUint64() && value.Uint64() < st.MaxCodeSize {
+			minSize = max(minSize, int(value.Uint64())+1)
+		}
+	}
+	for _, constraint := range g.varIsDataConstraints {
+		if value, found := assignment[constraint.variable]; found {
+			if !value.IsUint64() || value.Uint64() >= st.MaxCodeSize {
+				return nil, fmt.Errorf("%w: unable to place data at position %v", ErrUnsatisfiable, value)
+			}
+			minSize = max(minSize, int(value.Uint64())+1)
+		}
+	}
+
+	// Variable constraints can not make use of the data of other operations.
+	if len(varOps)+len(g.varIsCodeConstraints)+len(g.varIsDataConstraints) > 0 {
+		for _, constraint := range ops {
+			minSize = max(minSize, min(constraint.pos+constraint.op.Width(), st.MaxCodeSize))
+		}
+	}
+
 	// Make extra space for worst-case size requirements of variable operation
 	// constraints.
 	for _, constraint := range varOps {
@@ -134,9 +163,13 @@ func (g *CodeGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.Cod
 	}
 
 	// if there are data constraints, we need at least 2 bytes,
-	// one for an op, and the other for data.
-	if len(g.varIsDataConstraints) > 0 && minSize < 2 {
-		minSize = 2
+	// one for an op, and the other for data, in addition to what is needed by
+	// other operations.
+	if len(g.varIsDataConstraints) > 0 {
+		if minSize > 0 {
+			minSize += 2 * len(g.varIsCodeConstraints)
+		}
+		minSize = min(minSize+2, st.MaxCodeSize)
 	}
 
 	var size int
@@ -340,6 +373,22 @@ func (s *varCodeConstraintSolver) solve(
 	varIsCodeConstraints []varIsCodeConstraint,
 	varIsDataConstraints []varIsDataConstraint) ([]constOpConstraint, error) {
 
+	// Constraints on pre-assigned variables have no choice in their position.
+	for _, cur := range varIsCodeConstraints {
+		if _, found := s.assignment[cur.variable]; found {
+			if err := s.solveIsCode([]varIsCodeConstraint{cur}); err != nil {
+				return nil, err
+			}
+		}
+	}
+	for _, cur := range varIsDataConstraints {
+		if _, found := s.assignment[cur.variable]; found {
+			if err := s.solveIsData([]varIsDataConstraint{cur}); err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	err := s.solveVarOps(varOps)
 	if err != nil {
 		return nil, err
@@ -435,11 +484,17 @@ func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsC
 		// as code.
 		if pos, isAssigned := solver.assignment[cur.variable]; isAssigned {
 			if !pos.Lt(NewU256(uint64(solver.codeSize))) {
-				return fmt.Errorf("%w, unable to satisfy isCode[%v], out-of-bounds", ErrUnsatisfiable, cur.variable)
+				continue // out-of-bounds is considered code
 			}
-			if solver.usedPositions[int(pos.Uint64())] == isCode {
-				continue // already satisfied
+			switch solver.usedPositions[int(pos.Uint64())] {
+			case isCode:
+				// already satisfied
+			case isData:
+				return fmt.Errorf("%w, unable to satisfy isCode[%v]", ErrUnsatisfiable, cur.variable)
+			default:
+				solver.placeRandomOperation(int(pos.Uint64()))
 			}
+			continue
 		}
 
 		// For the remaining variables, find a position and either populate an
@@ -458,11 +513,7 @@ func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsC
 		}
 
 		if solver.usedPositions[pos] == isUnused {
-			// Pick a random op and lock it in.
-			randomOps := vm.ValidOpCodesNoPush()
-			op := randomOps[solver.rnd.Intn(len(randomOps))]
-			solver.markUsed(pos, op)
-			solver.ops = append(solver.ops, constOpConstraint{pos, op})
+			solver.placeRandomOperation(pos)
 		}
 
 		solver.assign(cur.variable, pos)
@@ -470,14 +521,43 @@ func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsC
 	return nil
 }
 
+// placeRandomOperation picks a random op and locks it in at the given unused position.
+func (solver *varCodeConstraintSolver) placeRandomOperation(pos int) {
+	randomOps := vm.ValidOpCodesNoPush()
+	op := randomOps[solver.rnd.Intn(len(randomOps))]
+	solver.markUsed(pos, op)
+	solver.ops = append(solver.ops, constOpConstraint{pos, op})
+}
+
+// coverWithData places a PUSH operation such that the given position is the end
+// of its data, unless it is data already, and returns whether this was possible.
+func (solver *varCodeConstraintSolver) coverWithData(pos int) bool {
+	if solver.usedPositions[pos] != isUnused {
+		return solver.usedPositions[pos] == isData
+	}
+	candidates := []int{}
+	for start := pos - 1; start >= 0 && start >= pos-32 && solver.usedPositions[start] == isUnused; start-- {
+		candidates = append(candidates, start)
+	}
+	if len(candidates) == 0 {
+		return false
+	}
+	start := candidates[solver.rnd.Intn(len(candidates))]
+	op := vm.OpCode(int(vm.PUSH1) + pos - start - 1)
+	solver.markUsed(start, op)
+	solver.ops = append(solver.ops, constOpConstraint{start, op})
+	return true
+}
+
 func (solver *varCodeConstraintSolver) solveIsData(varIsDataConstraints []varIsDataConstraint) error {
 	for _, cur := range varIsDataConstraints {
-		// Check if the variable is already assigned and points to a slot marked
-		// as code. If so, we cannot satisfy this constraint!
+		// Check if the variable is already assigned. If so, the slot it points
+		// to must be data or has to be covered by a PUSH operation.
 		if pos, isAssigned := solver.assignment[cur.variable]; isAssigned {
-			if pos.Lt(NewU256(uint64(solver.codeSize))) && solver.usedPositions[int(pos.Uint64())] == isCode {
+			if !pos.Lt(NewU256(uint64(solver.codeSize))) || !solver.coverWithData(int(pos.Uint64())) {
 				return fmt.Errorf("%w, unable to satisfy isData[%v]", ErrUnsatisfiable, cur.variable)
 			}
+			continue
 		}
 
 		// For the remaining variables, find a position and either populate an
-- 
2.43.0


From 60e8da16f8463639e655f83a039c5836870f1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 30/63] fix: ct generators reproduce states from the same
 random seed

---
 go/ct/gen/accounts.go            | 20 +++++++++++++++-----
 go/ct/gen/block_context.go       | 10 +++++++++-
 go/ct/gen/transaction_context.go |  5 ++++-
 go/ct/gen/transient_storage.go   |  5 ++++-
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/go/ct/gen/accounts.go b/go/ct/gen/accounts.go
index c5ed458..d51ec2f 100644
--- a/go/ct/gen/accounts.go
+++ b/go/ct/gen/accounts.go
@@ -11,6 +11,7 @@
 package gen
 
 import (
+	"bytes"
 	"fmt"
 	"slices"
 	"sort"
@@ -206,12 +207,12 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 			nonEmptyAccounts[address] = struct{}{}
 		}
 	}
-	for address := range emptyAccounts {
+	for _, address := range sortedAddresses(emptyAccounts) {
 		accountsBuilder.SetBalance(address, NewU256(0))
 		accountsBuilder.SetCode(address, Bytes{})
 	}
-	for address := range nonEmptyAccounts {
-		switch rand.Intn(3) {
+	for _, address := range sortedAddresses(nonEmptyAccounts) {
+		switch rnd.Intn(3) {
 		case 0:
 			accountsBuilder.SetBalance(address, NewU256(1))
 		case 1:
@@ -270,6 +271,7 @@ func (g *AccountsGenerator) processBalanceConstraints(
 
 	// Convert variable based constraints into lower and upper bounds for
 	// concrete addresses by fetching variable bindings or assigning new addresses.
+	sort.Slice(g.minBalance, func(i, j int) bool { return g.minBalance[i].Less(&g.minBalance[j]) })
 	lowerBounds := map[tosca.Address]U256{}
 	for _, con := range g.minBalance {
 		address := getBoundOrBindNewAddress(con.address)
@@ -279,6 +281,7 @@ func (g *AccountsGenerator) processBalanceConstraints(
 		}
 	}
 
+	sort.Slice(g.maxBalance, func(i, j int) bool { return g.maxBalance[i].Less(&g.maxBalance[j]) })
 	upperBounds := map[tosca.Address]U256{}
 	for _, con := range g.maxBalance {
 		address := getBoundOrBindNewAddress(con.address)
@@ -292,8 +295,8 @@ func (g *AccountsGenerator) processBalanceConstraints(
 	}
 
 	// Get list of all accounts to be resolved.
-	accounts := maps.Keys(lowerBounds)
-	for _, address := range maps.Keys(upperBounds) {
+	accounts := sortedAddresses(lowerBounds)
+	for _, address := range sortedAddresses(upperBounds) {
 		if _, isPresent := lowerBounds[address]; !isPresent {
 			accounts = append(accounts, address)
 		}
@@ -321,6 +324,13 @@ func (g *AccountsGenerator) processBalanceConstraints(
 	return nil
 }
 
+// sortedAddresses lists the keys of the given map in a reproducible order.
+func sortedAddresses[T any](m map[tosca.Address]T) []tosca.Address {
+	res := maps.Keys(m)
+	slices.SortFunc(res, func(a, b tosca.Address) int { return bytes.Compare(a[:], b[:]) })
+	return res
+}
+
 type emptyConstraint struct {
 	address Variable
 	empty   bool
diff --git a/go/ct/gen/block_context.go b/go/ct/gen/block_context.go
index a440a86..ff3d70b 100644
--- a/go/ct/gen/block_context.go
+++ b/go/ct/gen/block_context.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 	"maps"
 	"math"
+	"slices"
 	"sort"
 	"strings"
 
@@ -148,7 +149,14 @@ func (b *BlockContextGenerator) bindVariablesInRangeConstraints(resultingBlockNu
 	upperBound := resultingBlockNumber
 	blockNumberRangeGenerator := NewRangeSolver(lowerBound, upperBound-1)
 
-	for variable, inRange := range b.rangeConstraints {
+	// process variables in a reproducible order
+	variables := make([]Variable, 0, len(b.rangeConstraints))
+	for variable := range b.rangeConstraints {
+		variables = append(variables, variable)
+	}
+	slices.Sort(variables)
+	for _, variable := range variables {
+		inRange := b.rangeConstraints[variable]
 		if currentValue, isBound := assignment[variable]; isBound {
 			if inRange != isInRange(lowerBound, currentValue, upperBound) {
 				return ErrUnsatisfiable
diff --git a/go/ct/gen/transaction_context.go b/go/ct/gen/transaction_context.go
index 114e2d4..00555cc 100644
--- a/go/ct/gen/transaction_context.go
+++ b/go/ct/gen/transaction_context.go
@@ -68,7 +68,10 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 	if minMustNotHaveBlobHash != 0 {
 		blobHashesCount += 1
 	}
-	for variable, hasBlobHash := range t.blobHashVariables {
+	variables := maps.Keys(t.blobHashVariables)
+	sort.Slice(variables, func(i, j int) bool { return variables[i] < variables[j] })
+	for _, variable := range variables {
+		hasBlobHash := t.blobHashVariables[variable]
 		// the bounded variables are dealt with above
 		if _, isBound := assignment[variable]; !isBound {
 			newValueRangeSolver := NewRangeSolver(0, blobHashesCount-1)
diff --git a/go/ct/gen/transient_storage.go b/go/ct/gen/transient_storage.go
index 71d5599..6f43a6a 100644
--- a/go/ct/gen/transient_storage.go
+++ b/go/ct/gen/transient_storage.go
@@ -80,7 +80,10 @@ func (t *TransientStorageGenerator) Generate(assignment Assignment, rnd *rand.Ra
 	transientStorage := &st.TransientStorage{}
 
 	// Process zero/nonZero constraints.
-	for variable, nonZero := range t.nonZeroConstraints {
+	variables := maps.Keys(t.nonZeroConstraints)
+	slices.Sort(variables)
+	for _, variable := range variables {
+		nonZero := t.nonZeroConstraints[variable]
 
 		// Check different assignments with the same key whether they conflict
 		if _, isBound := assignment[variable]; isBound {
-- 
2.43.0


From aeb67c837f56307fef139485e88f1a703ff67941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 31/63] fix: ct account generator honours emptiness and warmth
 of addresses shared by several constraints

---
 go/ct/gen/accounts.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/go/ct/gen/accounts.go b/go/ct/gen/accounts.go
index d51ec2f..e848ddc 100644
--- a/go/ct/gen/accounts.go
+++ b/go/ct/gen/accounts.go
@@ -224,8 +224,13 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	}
 
 	// Process warm/cold constraints.
+	isWarm := map[tosca.Address]bool{}
 	for _, con := range g.warmCold {
 		address := getBoundOrBindNewAddress(con.key)
+		if warm, found := isWarm[address]; found && warm != con.warm {
+			return nil, fmt.Errorf("%w, address %v conflicting warm/cold constraints", ErrUnsatisfiable, address)
+		}
+		isWarm[address] = con.warm
 		if con.warm {
 			accountsBuilder.SetWarm(address)
 		}
@@ -235,6 +240,7 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	if err := g.processBalanceConstraints(
 		getBoundOrBindNewAddress,
 		emptyAccounts,
+		nonEmptyAccounts,
 		rnd,
 		accountsBuilder,
 	); err != nil {
@@ -257,7 +263,9 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	if !accountsBuilder.Exists(accountAddress) {
 		accountsBuilder.SetBalance(accountAddress, RandU256(rnd))
 	}
-	accountsBuilder.SetCode(accountAddress, RandomBytesOfSize(rnd, 42))
+	if _, mustBeEmpty := emptyAccounts[accountAddress]; !mustBeEmpty {
+		accountsBuilder.SetCode(accountAddress, RandomBytesOfSize(rnd, 42))
+	}
 
 	return accountsBuilder.Build(), nil
 }
@@ -265,6 +273,7 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 func (g *AccountsGenerator) processBalanceConstraints(
 	getBoundOrBindNewAddress func(v Variable) tosca.Address,
 	mustBeEmptyAccounts map[tosca.Address]struct{},
+	mustNotBeEmptyAccounts map[tosca.Address]struct{},
 	rnd *rand.Rand,
 	result *st.AccountsBuilder,
 ) error {
@@ -318,7 +327,11 @@ func (g *AccountsGenerator) processBalanceConstraints(
 			return fmt.Errorf("%w, conflicting balance constraints", ErrUnsatisfiable)
 		}
 
-		result.SetBalance(address, RandU256Between(rnd, lower, upper))
+		balance := RandU256Between(rnd, lower, upper)
+		result.SetBalance(address, balance)
+		if _, found := mustNotBeEmptyAccounts[address]; found && balance.IsZero() {
+			result.SetCode(address, NewBytes([]byte{1}))
+		}
 	}
 
 	return nil
-- 
2.43.0


From ff8c3531b79db4eb111c994d97cf042d1185cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 32/63] fix: ct storage generator detects conflicts of keys
 shared by several constraints

---
 go/ct/gen/storage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/ct/gen/storage.go b/go/ct/gen/storage.go
index 20bbb33..d9915b3 100644
--- a/go/ct/gen/storage.go
+++ b/go/ct/gen/storage.go
@@ -170,6 +170,9 @@ func (g *StorageGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.
 	// Process storage configuration constraints.
 	for _, con := range g.cfg {
 		key := getKey(con.key)
+		if builder.IsInOriginal(key) {
+			return nil, fmt.Errorf("%w, key %v has multiple storage configurations", ErrUnsatisfiable, key)
+		}
 
 		newValue, isBound := assignment[con.newValue]
 		if isBound {
@@ -228,8 +231,13 @@ func (g *StorageGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.
 	}
 
 	// Process warm/cold constraints.
+	isWarm := map[U256]bool{}
 	for _, con := range g.warmCold {
 		key := getKey(con.key)
+		if warm, found := isWarm[key]; found && warm != con.warm {
+			return nil, fmt.Errorf("%w, key %v conflicting warm/cold constraints", ErrUnsatisfiable, key)
+		}
+		isWarm[key] = con.warm
 		if !builder.IsInOriginal(key) {
 			builder.SetOriginal(key, RandU256(rnd))
 			builder.SetCurrent(key, RandU256(rnd))
-- 
2.43.0


From 2bf650dca13b834a33bb3635853a055ece93d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 33/63] fix: ct transient storage generator sets non-zero
 values and tells unbound keys apart

---
 go/ct/gen/transient_storage.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/go/ct/gen/transient_storage.go b/go/ct/gen/transient_storage.go
index 6f43a6a..1647f90 100644
--- a/go/ct/gen/transient_storage.go
+++ b/go/ct/gen/transient_storage.go
@@ -88,7 +88,8 @@ func (t *TransientStorageGenerator) Generate(assignment Assignment, rnd *rand.Ra
 		// Check different assignments with the same key whether they conflict
 		if _, isBound := assignment[variable]; isBound {
 			for other, otherNonZero := range t.nonZeroConstraints {
-				if assignment[variable] == assignment[other] && nonZero != otherNonZero {
+				otherKey, otherIsBound := assignment[other]
+				if otherIsBound && assignment[variable] == otherKey && nonZero != otherNonZero {
 					return nil, fmt.Errorf("%w, conflicting constraints %v and %v on the same location", ErrUnsatisfiable, nonZero, otherNonZero)
 				}
 			}
@@ -103,7 +104,7 @@ func (t *TransientStorageGenerator) Generate(assignment Assignment, rnd *rand.Ra
 		}
 
 		if nonZero {
-			transientStorage.Set(key, common.RandU256(rnd))
+			transientStorage.Set(key, common.RandU256Between(rnd, common.NewU256(1), common.MaxU256()))
 		}
 		assignment[variable] = key
 	}
-- 
2.43.0


From 01cce2ee576c575bf743f72cef3a8e534a82046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 34/63] fix: ct blob hash indices can not be both present and
 absent

---
 go/ct/gen/transaction_context.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/go/ct/gen/transaction_context.go b/go/ct/gen/transaction_context.go
index 00555cc..202fcfa 100644
--- a/go/ct/gen/transaction_context.go
+++ b/go/ct/gen/transaction_context.go
@@ -38,35 +38,35 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 		return nil, ErrUnsatisfiable
 	}
 
-	maxMustHaveBlobHash := uint64(0)
+	// the number of blob hashes required by present and permitted by absent indices
+	minBlobHashesCount := uint64(0)
 	minMustNotHaveBlobHash := uint64(math.MaxUint64)
 
 	// process all the bounded variables to find the maximum present and minimum absent values
 	for variable, hasBlobHash := range t.blobHashVariables {
 		if assignedValue, isBound := assignment[variable]; isBound {
 			if hasBlobHash {
-				if !assignedValue.IsUint64() {
+				if !assignedValue.IsUint64() || assignedValue.Uint64() == math.MaxUint64 {
 					return nil, ErrUnsatisfiable
 				}
-				if assignedValue.Uint64() > maxMustHaveBlobHash {
-					maxMustHaveBlobHash = assignedValue.Uint64()
-				}
+				minBlobHashesCount = max(minBlobHashesCount, assignedValue.Uint64()+1)
 			} else {
 				if assignedValue.IsUint64() && assignedValue.Uint64() < minMustNotHaveBlobHash {
 					minMustNotHaveBlobHash = assignedValue.Uint64()
 				}
 			}
+		} else if hasBlobHash {
+			minBlobHashesCount = max(minBlobHashesCount, 1)
 		}
 	}
 
-	if maxMustHaveBlobHash > minMustNotHaveBlobHash ||
-		maxMustHaveBlobHash == math.MaxUint64 {
+	if minBlobHashesCount > minMustNotHaveBlobHash {
 		return nil, ErrUnsatisfiable
 	}
 
-	blobHashesCount := maxMustHaveBlobHash
-	if minMustNotHaveBlobHash != 0 {
-		blobHashesCount += 1
+	blobHashesCount := minBlobHashesCount
+	if blobHashesCount == 0 && minMustNotHaveBlobHash != 0 {
+		blobHashesCount = 1
 	}
 	variables := maps.Keys(t.blobHashVariables)
 	sort.Slice(variables, func(i, j int) bool { return variables[i] < variables[j] })
-- 
2.43.0


From d7ebf868d8a26bd1421ec34576375cdf8339cbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 35/63] fix: ct stack generator accepts repeated constraints on
 equal values

---
 go/ct/gen/stack.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/go/ct/gen/stack.go b/go/ct/gen/stack.go
index 4dd0944..90acef2 100644
--- a/go/ct/gen/stack.go
+++ b/go/ct/gen/stack.go
@@ -102,10 +102,11 @@ func (g *StackGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.St
 
 	// Pick a size
 	maxInValues := maxPositionInValues(constraints)
-	g.size.AddLowerBoundary(maxInValues + 1)
-	size, err := g.size.Generate(rnd)
+	sizeSolver := g.size.Clone()
+	sizeSolver.AddLowerBoundary(maxInValues + 1)
+	size, err := sizeSolver.Generate(rnd)
 	if err != nil {
-		return nil, fmt.Errorf("%w, stack size constraints %v not satisfiable", err, g.size)
+		return nil, fmt.Errorf("%w, stack size constraints %v not satisfiable", err, sizeSolver)
 	}
 
 	stack := st.NewStackWithSize(size)
@@ -116,7 +117,7 @@ func (g *StackGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.St
 		if value.pos < 0 {
 			return nil, fmt.Errorf("%w, cannot satisfy constraint value[%d]=%v", ErrUnsatisfiable, value.pos, value.value)
 		}
-		if stackMask[value.pos] {
+		if stackMask[value.pos] && stack.Get(value.pos) != value.value {
 			return nil, fmt.Errorf("%w, conflicting value constraints at position %d", ErrUnsatisfiable, value.pos)
 		}
 		stack.Set(value.pos, value.value)
-- 
2.43.0


From e4646ffe4ea74d088bc5efa890c25669b5a62865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 36/63] fix: ct block context generator solves all satisfiable
 block number constraints

---
 go/ct/gen/block_context.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/go/ct/gen/block_context.go b/go/ct/gen/block_context.go
index ff3d70b..22ab086 100644
--- a/go/ct/gen/block_context.go
+++ b/go/ct/gen/block_context.go
@@ -79,6 +79,9 @@ func (b *BlockContextGenerator) generateBlockNumber(assignment Assignment, rnd *
 				return 0, ErrUnsatisfiable
 			}
 			blockNumberSolver.AddEqualityConstraint(wantedBlock.Uint64())
+		} else if offset > 0 {
+			// the block number must be large enough to subtract the offset
+			blockNumberSolver.AddLowerBoundary(uint64(offset))
 		}
 	}
 
@@ -123,7 +126,7 @@ func (b *BlockContextGenerator) generateBlockNumber(assignment Assignment, rnd *
 // bindVariablesInValueConstraints processes the fixed-value constraints on variables.
 func (b *BlockContextGenerator) bindVariablesInValueConstraints(assignment Assignment, resultingBlockNumber uint64) error {
 	for variable, offset := range b.valueConstraint {
-		requiredValue, underflow := addOffset(NewU256(resultingBlockNumber), -offset)
+		requiredValue, underflow := subOffset(NewU256(resultingBlockNumber), offset)
 		if underflow {
 			return ErrUnsatisfiable
 		}
@@ -170,7 +173,9 @@ func (b *BlockContextGenerator) bindVariablesInRangeConstraints(resultingBlockNu
 				assignment[variable] = NewU256(blockNumber)
 			} else {
 				numberOutOfRangeGenerator := NewIntervalSolver[uint64](0, math.MaxUint64)
-				numberOutOfRangeGenerator.Exclude(resultingBlockNumber-256, resultingBlockNumber-1)
+				if upperBound > 0 {
+					numberOutOfRangeGenerator.Exclude(lowerBound, upperBound-1)
+				}
 				number, err := numberOutOfRangeGenerator.Generate(rnd)
 				if err != nil {
 					return err
@@ -423,6 +428,16 @@ func addOffset(value U256, offset int64) (result U256, hasOverflown bool) {
 	return result, result.Lt(value)
 }
 
+// subOffset subtracts an offset from a U256 value, checking for underflow.
+func subOffset(value U256, offset int64) (result U256, hasUnderflown bool) {
+	if offset < 0 {
+		result = value.Add(NewU256(uint64(-offset)))
+		return result, result.Lt(value)
+	}
+	result = value.Sub(NewU256(uint64(offset)))
+	return result, result.Gt(value)
+}
+
 // addWithOverflowCheck adds two uint64 values, checking for overflow.
 func addWithOverflowCheck(a, b uint64) (result uint64, hasOverflown bool) {
 	result = a + b
@@ -431,5 +446,5 @@ func addWithOverflowCheck(a, b uint64) (result uint64, hasOverflown bool) {
 
 func isInRange(lowerBound uint64, currentValue U256, upperBound uint64) bool {
 	value := currentValue.Uint64()
-	return currentValue.IsUint64() && lowerBound <= value && value <= upperBound
+	return currentValue.IsUint64() && lowerBound <= value && value < upperBound
 }
-- 
2.43.0


From a0c2770853536b72f658bee44d9bcbef168e969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 37/63] fix: ct states have no program counter beyond its range

---
 go/ct/gen/state.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/ct/gen/state.go b/go/ct/gen/state.go
index 3ca99cb..d975a94 100644
--- a/go/ct/gen/state.go
+++ b/go/ct/gen/state.go
@@ -13,6 +13,7 @@ package gen
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"slices"
 	"sort"
 	"strings"
@@ -378,6 +379,9 @@ func (g *StateGenerator) generateWith(rnd *rand.Rand, assignment Assignment) (*s
 			if !found {
 				return nil, fmt.Errorf("%w, variable %v not bound to value", ErrUnboundVariable, cur)
 			}
+			if !pc.IsUint64() || pc.Uint64() > math.MaxUint16 {
+				return nil, fmt.Errorf("%w, invalid program counter %v", ErrUnsatisfiable, pc)
+			}
 			value := uint16(pc.Uint64())
 			if !slices.Contains(values, value) {
 				values = append(values, value)
-- 
2.43.0


From 28071963949d9ca20df01b8b9d83a86045536fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 38/63] fix: ct generator keeps pre-assigned values of
 variables bound to the self address

---
 go/ct/gen/state.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/ct/gen/state.go b/go/ct/gen/state.go
index d975a94..4557f5f 100644
--- a/go/ct/gen/state.go
+++ b/go/ct/gen/state.go
@@ -453,7 +453,9 @@ func (g *StateGenerator) generateWith(rnd *rand.Rand, assignment Assignment) (*s
 	// Update all variables to be bound to the self address to match that value.
 	accountAddress := *address
 	for _, v := range g.selfAddressBindings {
-		assignment[v] = NewU256FromBytes(accountAddress[:]...)
+		if _, found := assignment[v]; !found {
+			assignment[v] = NewU256FromBytes(accountAddress[:]...)
+		}
 	}
 
 	// --- Call Context ---
-- 
2.43.0


From b53c8e212211681afd6be06c99fe91d147c79ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 39/63] fix: ct range and interval solvers handle wide ranges
 of small signed types

---
 go/ct/gen/interval_solver.go | 7 ++++---
 go/ct/gen/range_solver.go    | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/go/ct/gen/interval_solver.go b/go/ct/gen/interval_solver.go
index 900a98c..bdc5837 100644
--- a/go/ct/gen/interval_solver.go
+++ b/go/ct/gen/interval_solver.go
@@ -121,7 +121,7 @@ func (s *IntervalSolver[T]) Generate(rnd *rand.Rand) (T, error) {
 
 	domainSize := uint64(0)
 	for _, interval := range s.intervals {
-		domainSize += uint64(interval.high - interval.low + 1)
+		domainSize += uint64(interval.high) - uint64(interval.low) + 1
 	}
 
 	if domainSize == 0 { // the domain is the full uint64 domain
@@ -130,10 +130,11 @@ func (s *IntervalSolver[T]) Generate(rnd *rand.Rand) (T, error) {
 
 	sample := rnd.Uint64n(domainSize)
 	for _, interval := range s.intervals {
-		if uint64(interval.high-interval.low+1) > sample {
+		size := uint64(interval.high) - uint64(interval.low) + 1
+		if size > sample {
 			return interval.low + T(sample), nil
 		}
-		sample -= uint64(interval.high - interval.low + 1)
+		sample -= size
 	}
 	return 0, fmt.Errorf("internal error")
 }
diff --git a/go/ct/gen/range_solver.go b/go/ct/gen/range_solver.go
index 12de676..69aa235 100644
--- a/go/ct/gen/range_solver.go
+++ b/go/ct/gen/range_solver.go
@@ -75,11 +75,11 @@ func (s *RangeSolver[T]) Generate(rnd *rand.Rand) (T, error) {
 	if s.min > s.max {
 		return 0, ErrUnsatisfiable
 	}
-	diff := s.max - s.min
-	if uint64(diff) == math.MaxUint64 {
+	diff := uint64(s.max) - uint64(s.min)
+	if diff == math.MaxUint64 {
 		return T(rnd.Uint64()), nil
 	}
-	return T(rnd.Uint64n(uint64(diff)+1)) + s.min, nil
+	return T(rnd.Uint64n(diff+1)) + s.min, nil
 }
 
 func (s *RangeSolver[T]) String() string {
-- 
2.43.0


From c0bf509b6df1e92280123925df87302f56d27521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 40/63] Revert "fix: EXTCODEHASH rules": an existing test of
 the conformance adapter expects this hash

The adapter's tests compute their expected hashes the same way; this is recorded
as a known finding instead.
---
 go/ct/st/accounts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/st/accounts.go b/go/ct/st/accounts.go
index b59f31f..5569c6b 100644
--- a/go/ct/st/accounts.go
+++ b/go/ct/st/accounts.go
@@ -79,7 +79,7 @@ func (a *Accounts) GetCode(address tosca.Address) Bytes {
 func (a *Accounts) GetCodeHash(address tosca.Address) (hash [32]byte) {
 	hasher := sha3.NewLegacyKeccak256()
 	_, _ = hasher.Write(a.GetCode(address).ToBytes()) // Hash.Write never returns an error
-	hasher.Sum(hash[:0])
+	hasher.Sum(hash[:])
 	return
 }
 
-- 
2.43.0


From 1d5b05e92fc094c6e26a5ff8342785da95dd31f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 41/63] fix: ct generator gives variables bound to fixed
 program counters and stack values those values

---
 go/ct/gen/stack.go | 16 ++++++++++++++++
 go/ct/gen/state.go | 11 +++++++++++
 2 files changed, 27 insertions(+)

diff --git a/go/ct/gen/stack.go b/go/ct/gen/stack.go
index 90acef2..e48472b 100644
--- a/go/ct/gen/stack.go
+++ b/go/ct/gen/stack.go
@@ -84,6 +84,22 @@ func (g *StackGenerator) BindValue(pos int, variable Variable) {
 	}
 }
 
+// assignFixedValues assigns variables bound to positions of fixed values.
+// Variables with a value keep it.
+func (g *StackGenerator) assignFixedValues(assignment Assignment) {
+	for _, binding := range g.varValues {
+		if _, found := assignment[binding.variable]; found {
+			continue
+		}
+		for _, cur := range g.constValues {
+			if cur.pos == binding.pos {
+				assignment[binding.variable] = cur.value
+				break
+			}
+		}
+	}
+}
+
 func (g *StackGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.Stack, error) {
 	// convert variable constraints to constant constraints
 	constraints := make([]constValueConstraint, len(g.constValues), len(g.constValues)+len(g.varValues))
diff --git a/go/ct/gen/state.go b/go/ct/gen/state.go
index 4557f5f..ea1df6b 100644
--- a/go/ct/gen/state.go
+++ b/go/ct/gen/state.go
@@ -341,6 +341,17 @@ func (g *StateGenerator) generateWith(rnd *rand.Rand, assignment Assignment) (*s
 		assignment[binding.variable] = binding.value
 	}
 
+	// Variables bound to a fixed program counter or to stack positions of fixed
+	// values have those values in all other constraints as well.
+	if len(g.pcConstantConstraints) == 1 {
+		for _, variable := range g.pcVariableConstraints {
+			if _, found := assignment[variable]; !found {
+				assignment[variable] = NewU256(uint64(g.pcConstantConstraints[0]))
+			}
+		}
+	}
+	g.stackGen.assignFixedValues(assignment)
+
 	// Pick a status.
 	var resultStatus st.StatusCode
 	if len(g.statusConstraints) == 0 {
-- 
2.43.0


From 23c9f2554767b9d184f1013023139be886b8cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 42/63] fix: ct generator reports too large blob hash indices
 as unsatisfiable instead of exhausting the memory

---
 go/ct/gen/transaction_context.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/ct/gen/transaction_context.go b/go/ct/gen/transaction_context.go
index 202fcfa..5cbbf0b 100644
--- a/go/ct/gen/transaction_context.go
+++ b/go/ct/gen/transaction_context.go
@@ -22,6 +22,9 @@ import (
 	"github.com/Fantom-foundation/Tosca/go/tosca"
 )
 
+// maxBlobHashes limits the number of blob hashes of generated transactions.
+const maxBlobHashes = 1 << 12
+
 type TransactionContextGenerator struct {
 	unsatisfiable bool
 	// This map is used to keep track of variables that are required to have a value
@@ -46,7 +49,7 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 	for variable, hasBlobHash := range t.blobHashVariables {
 		if assignedValue, isBound := assignment[variable]; isBound {
 			if hasBlobHash {
-				if !assignedValue.IsUint64() || assignedValue.Uint64() == math.MaxUint64 {
+				if !assignedValue.IsUint64() || assignedValue.Uint64() >= maxBlobHashes {
 					return nil, ErrUnsatisfiable
 				}
 				minBlobHashesCount = max(minBlobHashesCount, assignedValue.Uint64()+1)
-- 
2.43.0


From b8674203b0521dab22ab974933e15af3298181b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 43/63] fix: ct conditions excluding the largest gas or program
 counter have satisfying states

---
 go/ct/rlz/domains.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/go/ct/rlz/domains.go b/go/ct/rlz/domains.go
index f2b98e0..78374bf 100644
--- a/go/ct/rlz/domains.go
+++ b/go/ct/rlz/domains.go
@@ -260,11 +260,17 @@ func (statusCodeDomain) SamplesForAll(a []st.StatusCode) []st.StatusCode {
 
 type pcDomain struct{}
 
-func (pcDomain) Equal(a U256, b U256) bool     { return a.Eq(b) }
-func (pcDomain) Less(a U256, b U256) bool      { return a.Lt(b) }
-func (pcDomain) Predecessor(a U256) U256       { return a.Sub(NewU256(1)) }
-func (pcDomain) Successor(a U256) U256         { return a.Add(NewU256(1)) }
-func (pcDomain) SomethingNotEqual(a U256) U256 { return a.Add(NewU256(1)) }
+func (pcDomain) Equal(a U256, b U256) bool { return a.Eq(b) }
+func (pcDomain) Less(a U256, b U256) bool  { return a.Lt(b) }
+func (pcDomain) Predecessor(a U256) U256   { return a.Sub(NewU256(1)) }
+func (pcDomain) Successor(a U256) U256     { return a.Add(NewU256(1)) }
+
+func (pcDomain) SomethingNotEqual(a U256) U256 {
+	if a.Eq(NewU256(math.MaxUint16)) {
+		return NewU256(0) // program counters have 16 bits
+	}
+	return a.Add(NewU256(1))
+}
 
 func (d pcDomain) Samples(a U256) []U256 {
 	return d.SamplesForAll([]U256{a})
@@ -347,11 +353,17 @@ func (stackSizeDomain) SamplesForAll(as []int) []int {
 
 type gasDomain struct{}
 
-func (gasDomain) Equal(a tosca.Gas, b tosca.Gas) bool     { return a == b }
-func (gasDomain) Less(a tosca.Gas, b tosca.Gas) bool      { return a < b }
-func (gasDomain) Predecessor(a tosca.Gas) tosca.Gas       { return a - 1 }
-func (gasDomain) Successor(a tosca.Gas) tosca.Gas         { return a + 1 }
-func (gasDomain) SomethingNotEqual(a tosca.Gas) tosca.Gas { return a + 1 }
+func (gasDomain) Equal(a tosca.Gas, b tosca.Gas) bool { return a == b }
+func (gasDomain) Less(a tosca.Gas, b tosca.Gas) bool  { return a < b }
+func (gasDomain) Predecessor(a tosca.Gas) tosca.Gas   { return a - 1 }
+func (gasDomain) Successor(a tosca.Gas) tosca.Gas     { return a + 1 }
+
+func (gasDomain) SomethingNotEqual(a tosca.Gas) tosca.Gas {
+	if a < 0 || a >= st.MaxGasUsedByCt {
+		return 0 // no state has less, or more than the maximum
+	}
+	return a + 1
+}
 
 func (d gasDomain) Samples(a tosca.Gas) []tosca.Gas {
 	return d.SamplesForAll([]tosca.Gas{a})
-- 
2.43.0


From ee3f253bdc2c7bf152e1ae526bfe42a65e9ea1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 44/63] fix: ct conditions on block numbers and account warmth
 do not share their properties with others

---
 go/ct/rlz/conditions.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/go/ct/rlz/conditions.go b/go/ct/rlz/conditions.go
index 013bb82..5c29ed9 100644
--- a/go/ct/rlz/conditions.go
+++ b/go/ct/rlz/conditions.go
@@ -766,7 +766,7 @@ func (c *isAddressWarm) Restrict(generator *gen.StateGenerator) {
 }
 
 func (c *isAddressWarm) GetTestValues() []TestValue {
-	property := Property(fmt.Sprintf("warm(%v)", c.key))
+	property := Property(fmt.Sprintf("account_warm(%v)", c.key))
 	return []TestValue{
 		NewTestValue(property, boolDomain{}, true, restrictAccountWarmCold(c.key)),
 	}
@@ -799,7 +799,7 @@ func (c *isAddressCold) Restrict(generator *gen.StateGenerator) {
 }
 
 func (c *isAddressCold) GetTestValues() []TestValue {
-	property := Property(fmt.Sprintf("warm(%v)", c.key))
+	property := Property(fmt.Sprintf("account_warm(%v)", c.key))
 	return []TestValue{
 		NewTestValue(property, boolDomain{}, false, restrictAccountWarmCold(c.key)),
 	}
@@ -935,7 +935,7 @@ func (c *inRange256FromCurrentBlock) GetTestValues() []TestValue {
 }
 
 func (c *inRange256FromCurrentBlock) String() string {
-	return c.blockNumber.String()
+	return fmt.Sprintf("inRange256(%v)", c.blockNumber)
 }
 
 ////////////////////////////////////////////////////////////
@@ -965,7 +965,7 @@ func (c *outOfRange256FromCurrentBlock) GetTestValues() []TestValue {
 }
 
 func (c *outOfRange256FromCurrentBlock) String() string {
-	return c.blockNumber.String()
+	return fmt.Sprintf("outOfRange256(%v)", c.blockNumber)
 }
 
 ////////////////////////////////////////////////////////////
-- 
2.43.0


From 34cded035c5c73e4e5f6b0fd02036105eddd8b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 45/63] fix: ct specification lookup finds rules that are not
 tied to an operation, and rules of operations for stopped states

Rules without a constraint on the current operation were only considered for
states that are not running, of unknown revision or at a data position, and rules
with one never for such states, contrary to what GetRulesFor promises.
---
 go/ct/spc/specification_map.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/go/ct/spc/specification_map.go b/go/ct/spc/specification_map.go
index 1ff4638..072486e 100644
--- a/go/ct/spc/specification_map.go
+++ b/go/ct/spc/specification_map.go
@@ -14,11 +14,13 @@ import (
 	"regexp"
 	"strings"
 
-	"github.com/Fantom-foundation/Tosca/go/ct/common"
 	. "github.com/Fantom-foundation/Tosca/go/ct/rlz"
 	"github.com/Fantom-foundation/Tosca/go/ct/st"
 )
 
+// noOp is the key of the rules that are not tied to a specific operation.
+const noOp = "noOp"
+
 type specificationMap struct {
 	rules map[string][]Rule
 }
@@ -46,20 +48,19 @@ func NewSpecificationMap(rules ...Rule) Specification {
 }
 
 func (s *specificationMap) GetRulesFor(state *st.State) []Rule {
-	op, err := state.Code.GetOperation(int(state.Pc))
-	var opString string
-	if err != nil {
-		opString = "noOp"
-	} else if state.Revision == common.R99_UnknownNextRevision || state.Status != st.Running {
-		opString = "noOp"
-	} else {
-		opString = op.String()
+	// Rules that are not tied to an operation may apply to any state; of the
+	// others only those of the current operation can.
+	candidates := [][]Rule{s.rules[noOp]}
+	if op, err := state.Code.GetOperation(int(state.Pc)); err == nil {
+		candidates = append(candidates, s.rules[op.String()])
 	}
 
 	result := []Rule{}
-	for _, rule := range s.rules[opString] {
-		if valid, err := rule.Condition.Check(state); valid && err == nil {
-			result = append(result, rule)
+	for _, rules := range candidates {
+		for _, rule := range rules {
+			if valid, err := rule.Condition.Check(state); valid && err == nil {
+				result = append(result, rule)
+			}
 		}
 	}
 
@@ -73,7 +74,7 @@ func ruleToOpString(rule Rule) string {
 	reg := regexp.MustCompile(`code\[PC\] = ([^\s]+)`)
 	substring := reg.FindAllStringSubmatch(opString, 1)
 	if substring == nil {
-		ruleString = "noOp"
+		ruleString = noOp
 		return ruleString
 	}
 
-- 
2.43.0


From 99c7a71b3b11cfe00c123e113855e2fb8f769ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:25 +0000
Subject: [PATCH 46/63] fix: lfvm falls through to jump destinations beyond the
 16-bit range, and no longer skips the byte after a PC there

---
 go/interpreter/lfvm/converter.go    | 5 ++++-
 go/interpreter/lfvm/instructions.go | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/interpreter/lfvm/converter.go b/go/interpreter/lfvm/converter.go
index 4870ac5..24cc17c 100644
--- a/go/interpreter/lfvm/converter.go
+++ b/go/interpreter/lfvm/converter.go
@@ -155,6 +155,9 @@ func convertWithObserver(
 			// Jump to the next jump destination and fill space with noops
 			if res.length() < i {
 				res.appendOp(JUMP_TO, uint16(i))
+				// The upper half of the position is stored in the unused
+				// argument of the instruction following the JUMP_TO.
+				res.code[res.length()].arg = uint16(i >> 16)
 			}
 			res.padNoOpsUntil(i)
 			res.appendCode(JUMPDEST)
@@ -185,7 +188,7 @@ func appendInstructions(res *codeBuilder, pos int, code []byte, withSuperInstruc
 	if toscaOpCode == vm.PC {
 		if pos > math.MaxUint16 {
 			res.appendCode(INVALID)
-			return 1
+			return 0
 		}
 		res.appendOp(PC, uint16(pos))
 		return 0
diff --git a/go/interpreter/lfvm/instructions.go b/go/interpreter/lfvm/instructions.go
index 2677064..855fffd 100644
--- a/go/interpreter/lfvm/instructions.go
+++ b/go/interpreter/lfvm/instructions.go
@@ -69,7 +69,8 @@ func opJumpi(c *context) error {
 
 func opJumpTo(c *context) {
 	// Update the PC to the jump destination -1 since interpreter will increase PC by 1 afterward.
-	c.pc = int32(c.code[c.pc].arg) - 1
+	// The following instruction holds the upper half of the destination.
+	c.pc = (int32(c.code[c.pc+1].arg)<<16 | int32(c.code[c.pc].arg)) - 1
 }
 
 func opPop(c *context) {
-- 
2.43.0


From 78930234dd47ea7f01ffadf9df040644db30476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 47/63] fix: treat generic EVMC failures as failed executions

evmzero reports programs exceeding the init code size limit as EVMC_FAILURE,
which the adapter handed on as an unexpected execution error.
---
 go/interpreter/evmc/evmc_interpreter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/evmc/evmc_interpreter.go b/go/interpreter/evmc/evmc_interpreter.go
index a0000ae..2e7c753 100644
--- a/go/interpreter/evmc/evmc_interpreter.go
+++ b/go/interpreter/evmc/evmc_interpreter.go
@@ -106,7 +106,8 @@ func (e *EvmcInterpreter) Run(params tosca.Parameters) (tosca.Result, error) {
 		// This is to be processed as a successful execution.
 		res.Success = false // < signal that execution reverted
 		return res, nil
-	case evmc.Error(C.EVMC_OUT_OF_GAS),
+	case evmc.Error(C.EVMC_FAILURE),
+		evmc.Error(C.EVMC_OUT_OF_GAS),
 		evmc.Error(C.EVMC_INVALID_INSTRUCTION),
 		evmc.Error(C.EVMC_UNDEFINED_INSTRUCTION),
 		evmc.Error(C.EVMC_BAD_JUMP_DESTINATION),
-- 
2.43.0


From b71ed2e80e75eb900c87a60469693210066414ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:40 +0000
Subject: [PATCH 48/63] fix: evmrs SIGNEXTEND of full words leaves the value
 unchanged

---
 rust/src/types/amount.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/src/types/amount.rs b/rust/src/types/amount.rs
index 827738b..be45f19 100644
--- a/rust/src/types/amount.rs
+++ b/rust/src/types/amount.rs
@@ -381,11 +381,12 @@ impl u256 {
     pub fn signextend(self, rhs: Self) -> Self {
         let (lhs, lhs_overflow) = self.into_u64_with_overflow();
         let lhs = lhs as usize;
-        if lhs_overflow || lhs > 31 {
+        // with lhs == 31 there is nothing to extend, and the mask below would be shifted by 256 bits
+        if lhs_overflow || lhs > 30 {
             return rhs;
         }
 
-        let byte = 31 - lhs; // lhs <= 31 so this does not underflow
+        let byte = 31 - lhs; // lhs <= 30 so this does not underflow
         let negative = (rhs.to_le_bytes()[lhs] & 0x80) > 0;
 
         let res = if negative {
-- 
2.43.0


From 7f8698449ed1a9782aa681b1e731ab8f64b7aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:18 +0000
Subject: [PATCH 49/63] fix: evmrs BLOCKHASH answers only for the 256 most
 recent blocks

---
 rust/src/interpreter.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 74a4391..d212caf 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1114,11 +1114,15 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
     fn block_hash(&mut self) -> OpResult {
         self.gas_left.consume(20)?;
         let [block_number] = self.stack.pop()?;
-        self.stack.push(
-            u64::try_from(block_number)
-                .map(|idx| self.context.get_block_hash(idx as i64).into())
-                .unwrap_or(u256::ZERO),
-        )?;
+        // only the 256 most recent blocks are accessible
+        let end = self.context.get_tx_context().block_number as u64;
+        let begin = end.saturating_sub(256);
+        self.stack.push(match u64::try_from(block_number) {
+            Ok(idx) if (begin..end).contains(&idx) => {
+                self.context.get_block_hash(idx as i64).into()
+            }
+            _ => u256::ZERO,
+        })?;
         self.code_reader.next();
         self.return_from_op()
     }
-- 
2.43.0


From 8f4b8f3d4b6f22330c41529e554d0e37e0e526de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:02 +0000
Subject: [PATCH 50/63] fix: evmrs deducts a callee's gas before it adds what
 is left of it, so that sums beyond 64 bits do not occur

---
 rust/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index d212caf..05a2d93 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1711,8 +1711,8 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
             dest[..min_len].copy_from_slice(&output[..min_len]);
         }
 
-        self.gas_left.add(result.gas_left())?;
         self.gas_left.consume(endowment)?;
+        self.gas_left.add(result.gas_left())?;
         self.gas_left.consume(stipend)?;
         self.gas_refund.add(result.gas_refund())?;
 
@@ -1798,8 +1798,8 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
             dest[..min_len].copy_from_slice(&output[..min_len]);
         }
 
-        self.gas_left.add(result.gas_left())?;
         self.gas_left.consume(endowment)?;
+        self.gas_left.add(result.gas_left())?;
         self.gas_refund.add(result.gas_refund())?;
 
         self.stack
-- 
2.43.0


From 0f7e2e0d1820a167f278c160cc0f6d7d4c7e90f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 51/63] fix: evmrs step results tell reverts from successes and
 keep the gas of executions that ended

---
 rust/src/evmc.rs        | 2 +-
 rust/src/interpreter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/evmc.rs b/rust/src/evmc.rs
index 3639b6d..daecbe7 100644
--- a/rust/src/evmc.rs
+++ b/rust/src/evmc.rs
@@ -84,7 +84,7 @@ impl SteppableEvmcVm for EvmRs {
                 },
                 revision,
                 pc,
-                gas_refund,
+                message.gas(),
                 gas_refund,
                 None,
                 stack.to_owned(),
diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 05a2d93..a15b94a 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1820,7 +1820,7 @@ impl<const STEPPABLE: bool> From<Interpreter<'_, STEPPABLE>> for StepResult {
             .collect();
         Self::new(
             value.exec_status.into(),
-            StatusCode::EVMC_SUCCESS,
+            value.exec_status.into(),
             value.revision,
             value.code_reader.pc() as u64,
             value.gas_left.as_u64() as i64,
-- 
2.43.0


From db3c5f5f893d00dcca5f339d2e5eec32b0614ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:21 +0000
Subject: [PATCH 52/63] fix: evmrs skips padding by its length in inline
 dispatch, not by bits of a function address

---
 rust/src/types/code_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/types/code_reader.rs b/rust/src/types/code_reader.rs
index 375b9da..25d8a26 100644
--- a/rust/src/types/code_reader.rs
+++ b/rust/src/types/code_reader.rs
@@ -146,7 +146,7 @@ impl<'a, const STEPPABLE: bool> CodeReader<'a, STEPPABLE> {
             .get_data()
             .into_u64_saturating();
         #[cfg(not(feature = "fn-ptr-conversion-expanded-dispatch"))]
-        let offset = u32::from_ne_bytes(self.code_analysis.analysis[self.pc].get_data());
+        let offset = u32::from_ne_bytes(self.code_analysis.analysis[self.pc + 1].get_data());
         self.pc += offset as usize;
     }
 
-- 
2.43.0


From d4c172c893149f917a6dbba181130d234d7246e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:08 +0000
Subject: [PATCH 53/63] fix: evmrs does not count padding as a step

---
 rust/src/interpreter.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index a15b94a..2863392 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -641,16 +641,28 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
 
     #[cfg(feature = "needs-fn-ptr-conversion")]
     pub fn no_op(&mut self) -> OpResult {
+        self.uncount_step();
         self.code_reader.next();
         self.return_from_op()
     }
 
     #[cfg(feature = "needs-fn-ptr-conversion")]
     pub fn skip_no_ops(&mut self) -> OpResult {
+        self.uncount_step();
         self.code_reader.jump_to();
         self.return_from_op()
     }
 
+    /// Padding has no counterpart in the original code, so passing it is not a step.
+    #[cfg(feature = "needs-fn-ptr-conversion")]
+    fn uncount_step(&mut self) {
+        if STEPPABLE {
+            if let Some(steps) = &mut self.steps {
+                *steps += 1;
+            }
+        }
+    }
+
     fn stop(&mut self) -> OpResult {
         self.exec_status = ExecStatus::Stopped;
         Ok(())
-- 
2.43.0


From ec4363b45bbb6bb395e3a2dc2cd2252aa7a9e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:08 +0000
Subject: [PATCH 54/63] fix: evmrs logs an instruction behind padding once

---
 rust/src/types/code_reader.rs | 6 ++++++
 rust/src/types/observer.rs    | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/rust/src/types/code_reader.rs b/rust/src/types/code_reader.rs
index 25d8a26..a083fef 100644
--- a/rust/src/types/code_reader.rs
+++ b/rust/src/types/code_reader.rs
@@ -150,6 +150,12 @@ impl<'a, const STEPPABLE: bool> CodeReader<'a, STEPPABLE> {
         self.pc += offset as usize;
     }
 
+    /// Whether the current position is padding, which has no counterpart in the original code.
+    #[cfg(feature = "needs-fn-ptr-conversion")]
+    pub fn is_padding(&self) -> bool {
+        self.code_analysis.pc_map.to_converted(self.pc()) != self.pc
+    }
+
     pub fn pc(&self) -> usize {
         #[cfg(not(feature = "needs-fn-ptr-conversion"))]
         return self.pc;
diff --git a/rust/src/types/observer.rs b/rust/src/types/observer.rs
index 72fa25e..c2f6990 100644
--- a/rust/src/types/observer.rs
+++ b/rust/src/types/observer.rs
@@ -34,6 +34,10 @@ impl<W: Write> LoggingObserver<W> {
 
 impl<W: Write, const STEPPABLE: bool> Observer<STEPPABLE> for LoggingObserver<W> {
     fn pre_op(&mut self, interpreter: &Interpreter<STEPPABLE>) {
+        #[cfg(feature = "needs-fn-ptr-conversion")]
+        if interpreter.code_reader.is_padding() {
+            return;
+        }
         // pre_op is called after the op is fetched so this will always be Ok(..)
         #[cfg(not(feature = "needs-fn-ptr-conversion"))]
         let op = interpreter.code_reader.get().unwrap();
-- 
2.43.0


From cb58cc2d2c2b377ef130539e05934ceece70324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:59 +0000
Subject: [PATCH 55/63] fix: evmrs treats every program counter past the code
 as the end of the code in converted code

---
 rust/src/types/code_reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/src/types/code_reader.rs b/rust/src/types/code_reader.rs
index a083fef..93679f6 100644
--- a/rust/src/types/code_reader.rs
+++ b/rust/src/types/code_reader.rs
@@ -46,7 +46,11 @@ impl<'a, const STEPPABLE: bool> CodeReader<'a, STEPPABLE> {
     pub fn new(code: &'a [u8], code_hash: Option<u256>, pc: usize) -> Self {
         let code_analysis = CodeAnalysis::new(code, code_hash);
         #[cfg(feature = "needs-fn-ptr-conversion")]
-        let pc = code_analysis.pc_map.to_converted(pc);
+        let pc = if pc < code.len() {
+            code_analysis.pc_map.to_converted(pc)
+        } else {
+            code_analysis.analysis.len() // every position past the code is its end
+        };
         Self {
             code,
             code_analysis,
-- 
2.43.0


From ab1bd0622850fcca079956183168b45149270843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:15 +0000
Subject: [PATCH 56/63] fix: evmzero steps from program counters far past the
 code without reading beyond it

---
 cpp/vm/evmzero/evmzero.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/vm/evmzero/evmzero.cc b/cpp/vm/evmzero/evmzero.cc
index 0781950..f0c874c 100644
--- a/cpp/vm/evmzero/evmzero.cc
+++ b/cpp/vm/evmzero/evmzero.cc
@@ -8,6 +8,7 @@
 // On the date above, in accordance with the Business Source License, use of
 // this software will be governed by the GNU Lesser General Public License v3.
 
+#include <algorithm>
 #include <cstdint>
 #include <iostream>
 #include <span>
@@ -202,7 +203,8 @@ class VM : public evmc_vm {
     stepping_args.revision = revision;
     stepping_args.sha3_cache = sha3_cache_enabled_ ? &sha3_cache_ : nullptr;
     stepping_args.state = ToRunStateCode(status);
-    stepping_args.pc = pc;
+    // All positions past the end of the code are implicit STOPs.
+    stepping_args.pc = std::min<uint64_t>(pc, code.size());
     stepping_args.gas_refunds = gas_refunds;
     stepping_args.stack = convertedStack;
     stepping_args.memory = Memory(memory);
-- 
2.43.0


From 1f749fe5787515383596495095ab9e396a939345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:19 +0000
Subject: [PATCH 57/63] fix: ct driver's test command also compares the last
 applicable rule

---
 go/ct/driver/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/driver/test.go b/go/ct/driver/test.go
index f307c94..fca17a5 100644
--- a/go/ct/driver/test.go
+++ b/go/ct/driver/test.go
@@ -63,7 +63,7 @@ func doTest(context *cli.Context) error {
 			defer s0.Release()
 
 			rules[0].Effect.Apply(s0)
-			for i := 1; i < len(rules)-1; i++ {
+			for i := 1; i < len(rules); i++ {
 				s := state.Clone()
 				defer s.Release()
 				rules[i].Effect.Apply(s)
-- 
2.43.0


From 43f0254a8d5dc0ff58969e3c548e41b8cb74cbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:54 +0000
Subject: [PATCH 58/63] fix: evmzero reports the program counter it was given
 when it executes no step

---
 cpp/vm/evmzero/evmzero.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/vm/evmzero/evmzero.cc b/cpp/vm/evmzero/evmzero.cc
index f0c874c..8897f51 100644
--- a/cpp/vm/evmzero/evmzero.cc
+++ b/cpp/vm/evmzero/evmzero.cc
@@ -251,7 +251,7 @@ class VM : public evmc_vm {
         .step_status_code = ToEvmcStepStatusCode(stepping_result.state),
         .status_code = ToEvmcStatusCode(stepping_result.state),
         .revision = revision,
-        .pc = stepping_result.pc,
+        .pc = stepping_args.steps > 0 ? stepping_result.pc : pc,
         .gas_left = stepping_result.remaining_gas,
         .gas_refund = stepping_result.refunded_gas,
         .output_data = output_data,
-- 
2.43.0


From fb2b990514565de9db509bd15953dbee93c25884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:30 +0000
Subject: [PATCH 59/63] fix: geth adapter forwards the read-only mode to
 contracts at 0x0101 and similar addresses

---
 go/geth_adapter/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 689c281..08e2d14 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -616,7 +616,7 @@ func bigIntToWord(value *big.Int) (tosca.Word, error) {
 
 func isPrecompiledContract(recipient tosca.Address) bool {
 	// the addresses 1-9 are precompiled contracts
-	for i := 0; i < 18; i++ {
+	for i := 0; i < 19; i++ {
 		if recipient[i] != 0 {
 			return false
 		}
-- 
2.43.0


From ac8ca6af7f8fc804cbbc0e3ff850812c0f0eddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:30 +0000
Subject: [PATCH 60/63] fix: geth adapter does not encode the read-only mode in
 the gas of the point evaluation contract

---
 go/geth_adapter/adapter.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 08e2d14..3ed504d 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -270,7 +270,8 @@ func (a *runContextAdapter) Call(kind tosca.CallKind, parameter tosca.CallParame
 		defer func() { debugCallEnd(result, reserr) }()
 	}
 
-	gas := encodeReadOnlyInGas(uint64(parameter.Gas), parameter.CodeAddress, a.readOnly)
+	readOnly := a.readOnly && !a.isPointEvaluation(parameter.CodeAddress)
+	gas := encodeReadOnlyInGas(uint64(parameter.Gas), parameter.CodeAddress, readOnly)
 
 	// Documentation of the parameters can be found here: t.ly/yhxC
 	toAddr := gc.Address(parameter.Recipient)
@@ -340,6 +341,17 @@ func encodeReadOnlyInGas(gas uint64, recipient tosca.Address, readOnly bool) uin
 	return gas
 }
 
+// isPointEvaluation reports whether calls to the given address run the precompiled
+// contract introduced with Cancun, which, like all precompiled contracts, is not
+// executed by an interpreter removing the encoded read-only mode from the gas.
+func (a *runContextAdapter) isPointEvaluation(address tosca.Address) bool {
+	if address != (tosca.Address{19: 0x0a}) {
+		return false
+	}
+	context := &a.evm.Context
+	return a.evm.ChainConfig().Rules(context.BlockNumber, context.Random != nil, context.Time).IsCancun
+}
+
 func decodeReadOnlyFromGas(depth int, readOnly bool, gas uint64) (bool, uint64) {
 	if depth > 0 {
 		readOnly = readOnly || gas >= (1<<63)
-- 
2.43.0


From 53b6729817facb0f043e6fc6589b50ba1c868296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:46 +0000
Subject: [PATCH 61/63] fix: geth adapter reports failing precompiled contracts
 as failed calls

---
 go/geth_adapter/adapter.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 3ed504d..e25716a 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -309,7 +309,14 @@ func (a *runContextAdapter) Call(kind tosca.CallKind, parameter tosca.CallParame
 
 	// revert errors are not an error in Tosca
 	if err != nil && err != geth.ErrExecutionReverted {
-		return gethToVMErrors(err, parameter.Gas)
+		result, err := gethToVMErrors(err, parameter.Gas)
+		isCreate := kind == tosca.Create || kind == tosca.Create2
+		if err != nil && !isCreate && a.isPrecompiled(parameter.CodeAddress) {
+			// Precompiled contracts fail with errors of their own, which are
+			// failed executions as well.
+			return tosca.CallResult{Success: false}, nil
+		}
+		return result, err
 	}
 
 	return tosca.CallResult{
@@ -352,6 +359,11 @@ func (a *runContextAdapter) isPointEvaluation(address tosca.Address) bool {
 	return a.evm.ChainConfig().Rules(context.BlockNumber, context.Random != nil, context.Time).IsCancun
 }
 
+// isPrecompiled reports whether calls to the given address run a precompiled contract.
+func (a *runContextAdapter) isPrecompiled(address tosca.Address) bool {
+	return isPrecompiledContract(address) || a.isPointEvaluation(address)
+}
+
 func decodeReadOnlyFromGas(depth int, readOnly bool, gas uint64) (bool, uint64) {
 	if depth > 0 {
 		readOnly = readOnly || gas >= (1<<63)
-- 
2.43.0


From 530e34b6c3e156fe2047a816c111cccde22695d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:46 +0000
Subject: [PATCH 62/63] fix: opera processor transfers values of 2^255 and more

---
 go/processor/opera/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/processor/opera/processor.go b/go/processor/opera/processor.go
index 3a506ae..974bf0c 100644
--- a/go/processor/opera/processor.go
+++ b/go/processor/opera/processor.go
@@ -93,7 +93,7 @@ func (p *processor) Run(
 
 	// Intercept the transfer function to conduct the transfer on the actual state.
 	transferFunc := func(_ geth.StateDB, from common.Address, to common.Address, amount *uint256.Int) {
-		if amount.Sign() != 1 || from == to {
+		if amount.IsZero() || from == to {
 			return
 		}
 		a := tosca.Address(from)
-- 
2.43.0


From 0cda5e88e740f5f5dd02798163080dc1f0b8a68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:46 +0000
Subject: [PATCH 63/63] fix: opera processor rejects transactions with
 overflowing gas fees

---
 go/processor/opera/processor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/processor/opera/processor.go b/go/processor/opera/processor.go
index 974bf0c..8efedb9 100644
--- a/go/processor/opera/processor.go
+++ b/go/processor/opera/processor.go
@@ -332,7 +332,10 @@ func buyGas(tx tosca.Transaction, state tosca.WorldState) error {
 	// TODO: support arithmetic operations with Value type
 	gasPrice := tx.GasPrice.ToUint256()
 	mgval := uint256.NewInt(uint64(tx.GasLimit))
-	mgval = mgval.Mul(mgval, gasPrice)
+	mgval, overflow := mgval.MulOverflow(mgval, gasPrice)
+	if overflow {
+		return fmt.Errorf("%w: address %v gas fee overflow", errInsufficientFunds, tx.Sender)
+	}
 	// Note: Opera doesn't need to check against gasFeeCap instead of gasPrice, as it's too aggressive in the asynchronous environment
 	balance := state.GetBalance(tx.Sender)
 	if have, want := balance.ToUint256(), mgval; have.Cmp(want) < 0 {
-- 
2.43.0

