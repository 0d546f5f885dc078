From 11f7a4df7d77cc078ed3a2d30630d8e424cbc75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 01/37] fix: event: unsubscribing removed nothing and shifted
 the wrong subscriptions

caseList.delete appended cs[:index+1] instead of cs[index+1:], so an
unsubscribed channel stayed in the feed and others were lost.
---
 event/feed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/feed.go b/event/feed.go
index 28e5a8f..9e48d87 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -205,7 +205,7 @@ func (cs caseList) find(channel interface{}) int {
 
 // delete 从 cs 中移除给定的 case。
 func (cs caseList) delete(index int) caseList {
-	return append(cs[:index], cs[:index+1]...)
+	return append(cs[:index], cs[index+1:]...)
 }
 
 // deactivate 将索引处的案例移动到 cs 切片的不可访问部分。
-- 
2.43.0


From 473219ec3a3087f2280d734a5bfaafcd7658db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 02/37] fix: event: Unsubscribe of a finished resubscription
 blocked forever

Once the inner subscription has ended without error nothing receives from
unsub any more, so the send in Unsubscribe never returned.
---
 event/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index 2ea9897..cc24bf9 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -103,7 +103,7 @@ func ResubscribeErr(backoffMax time.Duration, fn ResubscribeErrFunc) Subscriptio
 		backoffMax: backoffMax,
 		fn:         fn,
 		err:        make(chan error),
-		unsub:      make(chan struct{}),
+		unsub:      make(chan struct{}, 1),
 	}
 	go s.loop()
 	return s
-- 
2.43.0


From db7a6f7b987016ad8da89a7d43f4f7e4360905a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 03/37] fix: event: resubscription cancelled while subscribing
 leaked the new subscription

When Unsubscribe raced with the subscribe function and that function
still succeeded, the subscription it returned was dropped without ever
being unsubscribed.
---
 event/subscription.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index cc24bf9..4a566f1 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -174,7 +174,10 @@ func (s *resubscribeSub) subscribe() Subscription {
 			}
 		case <-s.unsub:
 			cancel()
-			<-subscribed// 避免泄露 s.fn goroutine。
+			err := <-subscribed // 避免泄露 s.fn goroutine。
+			if err == nil && sub != nil {
+				sub.Unsubscribe()
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 4a579112bff0149e7da495d41af3496254daafaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 04/37] fix: log: logging before a handler was set crashed the
 program

The root logger had no handler until SetHandler was called, so every log
call of a program that had not configured logging yet panicked.
---
 log/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/log/root.go b/log/root.go
index eeaab79..ac3bc5b 100644
--- a/log/root.go
+++ b/log/root.go
@@ -10,6 +10,10 @@ var (
 	stderrHandler = StreamHandler(os.Stderr, LogfmtFormat())
 )
 
+func init() {
+	root.SetHandler(DiscardHandler())
+}
+
 // New 返回具有给定上下文的新记录器。
 // New 是 Root().New 的一个方便的别名
 func New(ctx ...interface{}) Logger {
-- 
2.43.0


From 929d59be5c5cc2761e462e46e480d84bb5049485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 05/37] fix: log: logfmt printed the value in place of the key

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index 6e49762..bca50e1 100644
--- a/log/format.go
+++ b/log/format.go
@@ -169,7 +169,7 @@ func logfmt(buf *bytes.Buffer, ctx []interface{}, color int, term bool) {
 		if !ok {
 			k, v = errorKey, formatLogfmtValue(k, term)
 		} else {
-			k = escapeString(v)
+			k = escapeString(k)
 		}
 
 		// XXX: 我们可能应该检查你所有的关键字节是否无效
-- 
2.43.0


From 434c12ec2fdf23e026e6bc3351ca69e7a5e6c875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 06/37] fix: log: origins were not printed by the colourless
 terminal format

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index bca50e1..e6c545b 100644
--- a/log/format.go
+++ b/log/format.go
@@ -125,7 +125,7 @@ func TerminalFormat(usecolor bool) Format {
 			if color > 0 {
 				fmt.Fprintf(b, "\x1b[%dm%s\x1b[0m[%s|%s]%s %s ", color, lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			} else {
-				fmt.Fprintf(b, "%s[%s] %s ", lvl, r.Time.Format(termTimeFormat), msg)
+				fmt.Fprintf(b, "%s[%s|%s]%s %s ", lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			}
 		} else {
 			if color > 0 {
-- 
2.43.0


From 06b499ed4a78be9e84a4ee319d0f2a11f90e262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 07/37] fix: crypto/sha3: every digest crashed or was wrong

The state is 25 lanes of 8 bytes, not 8x8 bytes (NewKeccak256 had a rate of
0 and divided by it), and minInt always returned its first argument.
---
 crypto/sha3/sha3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index 36b90a7..f8b5ac3 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -18,7 +18,7 @@ const sliceSize = 5
 const numLanes = sliceSize * sliceSize
 
 // stateSize 是 SHA3 内部状态的字节大小 (5 * 5 * WSize)
-const stateSize = laneSize * laneSize
+const stateSize = laneSize * numLanes
 
 // 摘要表示校验和的部分评估
 type digest struct {
@@ -29,7 +29,7 @@ type digest struct {
 }
 
 func minInt(v1, v2 int) int {
-	if v1 <= v1 {
+	if v1 <= v2 {
 		return v1
 	}
 	return v2
-- 
2.43.0


From 172eee30515bafbdcce290841e49f532e2797b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 08/37] fix: common: ages of exactly one unit were printed
 empty or without it

---
 common/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/format.go b/common/format.go
index e5cb82e..2a68c0f 100644
--- a/common/format.go
+++ b/common/format.go
@@ -52,7 +52,7 @@ func (t PrettyAge) String() string {
 	// 返回前累加 3 个分量的精度
 	result, prec := "", 0
 	for _, unit := range ageUnits {
-		if diff > unit.Size{
+		if diff >= unit.Size {
 			result = fmt.Sprintf("%s%d%s", result, diff/unit.Size, unit.Symbol)
 			diff %= unit.Size
 
-- 
2.43.0


From 58fdafb5d7e6178c378f4256080ba90c35caf058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 09/37] fix: log: replacing the sub-handler of a GlogHandler
 raced with logging

---
 log/handler_glog.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/log/handler_glog.go b/log/handler_glog.go
index 004cf63..b2ef9f7 100644
--- a/log/handler_glog.go
+++ b/log/handler_glog.go
@@ -59,9 +59,18 @@ func NewGlogHandler(h Handler) *GlogHandler {
 
 // SetHandler updates the handler to write records to the specified sub-handler.
 func (h *GlogHandler) SetHandler(nh Handler) {
+	h.lock.Lock()
+	defer h.lock.Unlock()
 	h.origin = nh
 }
 
+// handler returns the current sub-handler.
+func (h *GlogHandler) handler() Handler {
+	h.lock.RLock()
+	defer h.lock.RUnlock()
+	return h.origin
+}
+
 // pattern contains a filter for the Vmodule option, holding a verbosity level
 // and a file pattern to match.
 type pattern struct {
@@ -199,7 +208,7 @@ func (h *GlogHandler) Log(r *Record) error {
 	}
 	// If the global log level allows, fast track logging
 	if atomic.LoadUint32(&h.level) >= uint32(r.Lvl) {
-		return h.origin.Log(r)
+		return h.handler().Log(r)
 	}
 	// If no local overrides are present, fast track skipping
 	if atomic.LoadUint32(&h.override) == 0 {
@@ -226,7 +235,7 @@ func (h *GlogHandler) Log(r *Record) error {
 		h.lock.Unlock()
 	}
 	if lvl >= r.Lvl {
-		return h.origin.Log(r)
+		return h.handler().Log(r)
 	}
 	return nil
 }
\ No newline at end of file
-- 
2.43.0


From e4da44da8e1f935942615856a6451f944fa7be29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 10/37] fix: event: Feed.Send(nil) panicked with the send lock
 held, so the feed was dead afterwards

---
 event/feed.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/event/feed.go b/event/feed.go
index 9e48d87..a015e17 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -111,6 +111,7 @@ func (f *Feed) remove(sub *feedSub) {
 // 它返回值被发送到的订阅者的数量。
 func (f *Feed) Send(value interface{}) (nsent int) {
 	rvalue := reflect.ValueOf(value)
+	rtype := rvalue.Type() // 在持有任何锁之前：无类型的 nil 会在这里恐慌
 
 	f.once.Do(f.init)
 	<-f.sendLock
@@ -120,10 +121,10 @@ func (f *Feed) Send(value interface{}) (nsent int) {
 	f.sendCases = append(f.sendCases, f.inbox...)
 	f.inbox = nil
 
-	if !f.typecheck(rvalue.Type()) {
+	if !f.typecheck(rtype) {
 		f.sendLock <- struct{}{}
 		f.mu.Unlock()
-		panic(feedTypeError{op: "Send", got: rvalue.Type(), want: f.etype})
+		panic(feedTypeError{op: "Send", got: rtype, want: f.etype})
 	}
 	f.mu.Unlock()
 
-- 
2.43.0


From bf59b551ffc6a2f9bb39c993c25128f7d646e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 11/37] fix: event: sending a nil interface value on a FeedOf
 panicked with the send lock held

---
 event/feedof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/feedof.go b/event/feedof.go
index 1d001a8..7fcf4be 100644
--- a/event/feedof.go
+++ b/event/feedof.go
@@ -72,7 +72,7 @@ func (f *FeedOf[T]) remove(sub *feedOfSub[T]) {
 // Send 同时传送到所有订阅的频道。
 // 它返回值被发送到的订阅者的数量。
 func (f *FeedOf[T]) Send(value T) (nsent int) {
-	rvalue := reflect.ValueOf(value)
+	rvalue := reflect.ValueOf(&value).Elem() // T 可能是接口类型，value 可能是 nil
 
 	f.once.Do(f.init)
 	<-f.sendLock
-- 
2.43.0


From ad181029cadad225b12f67eb1dad91bdf96addf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 12/37] fix: log: an odd number of arguments was padded in the
 caller's own array

---
 log/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/logger.go b/log/logger.go
index 809fb06..95d0962 100644
--- a/log/logger.go
+++ b/log/logger.go
@@ -207,7 +207,7 @@ func normalize(ctx []interface{}) []interface{} {
 	// that things are the right length and users can fix bugs
 	// when they see the output looks wrong
 	if len(ctx)%2 != 0 {
-		ctx = append(ctx, nil, errorKey, "Normalized odd number of arguments by adding nil")
+		ctx = append(ctx[:len(ctx):len(ctx)], nil, errorKey, "Normalized odd number of arguments by adding nil")
 	}
 
 	return ctx
-- 
2.43.0


From 426b856dd4fafe0a8b4404860e2c8561dda746c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 13/37] fix: log: a Lazy without a function crashed the program

---
 log/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/handler.go b/log/handler.go
index 82a60f6..091df6e 100644
--- a/log/handler.go
+++ b/log/handler.go
@@ -281,7 +281,7 @@ func LazyHandler(h Handler) Handler {
 func evaluateLazy(lz Lazy) (interface{}, error) {
 	t := reflect.TypeOf(lz.Fn)
 
-	if t.Kind() != reflect.Func {
+	if t == nil || t.Kind() != reflect.Func || reflect.ValueOf(lz.Fn).IsNil() {
 		return nil, fmt.Errorf("INVALID_LAZY, not func: %+v", lz.Fn)
 	}
 
-- 
2.43.0


From 42f96f3b3e5b23d16ce6ce9db9b6a95833e774c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 14/37] fix: log: a record that cannot be encoded as JSON was
 not terminated by a newline

---
 log/format.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index e6c545b..3a58d27 100644
--- a/log/format.go
+++ b/log/format.go
@@ -278,7 +278,6 @@ func JSONFormatEx(pretty, lineSeparated bool) Format {
 			b, _ = jsonMarshal(map[string]string{
 				errorKey: err.Error(),
 			})
-			return b
 		}
 
 		if lineSeparated {
-- 
2.43.0


From 84c2142a53c5d338e61642c9091148acfe5b9366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 15/37] fix: crypto: key generation crashed on the scalars at
 which point addition degenerates

---
 crypto/curve.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/curve.go b/crypto/curve.go
index cc5c239..6eb056b 100644
--- a/crypto/curve.go
+++ b/crypto/curve.go
@@ -99,6 +99,9 @@ func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int
 	if r.Sign() == -1 {
 		r.Add(r, BitCurve.P)
 	}
+	if h.Sign() == 0 && r.Sign() == 0 {
+		return BitCurve.doubleJacobian(x1, y1, z1)
+	}
 	r.Lsh(r, 1)
 	v := new(big.Int).Mul(u1, i)
 
@@ -195,7 +198,7 @@ func (BitCurve *BitCurve) ScalarMult(Bx, By *big.Int, k []byte) (*big.Int, *big.
 		}
 	}
 
-	if !seenFirstTrue {
+	if !seenFirstTrue || z.Sign() == 0 {
 		return nil, nil
 	}
 
-- 
2.43.0


From ad781eb2b80f47334f8ca2d765fd8faf4e5a791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 16/37] fix: crypto/sha3: Sum of a 224-bit digest overwrote
 four bytes of the caller's array beyond the digest

---
 crypto/sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index f8b5ac3..ce3c46e 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -154,7 +154,7 @@ func (d *digest) squeeze(in []byte, toSqueeze int) []byte {
 	// 因为我们读取的是 laneSize 块，所以我们需要足够的空间来读取
 	// 整数个车道
 	needed := toSqueeze + (laneSize-toSqueeze%laneSize)%laneSize
-	if cap(in)-len(in) < needed {
+	if cap(in)-len(in) < needed || needed != toSqueeze {
 		newIn := make([]byte, len(in), len(in)+needed)
 		copy(newIn, in)
 		in = newIn
-- 
2.43.0


From c11ee5ff7277fbd103a4f5d5603aabcb4a1d1c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 17/37] fix: crypto/sha3: one step of the permutation was
 wrong, so every digest was

---
 crypto/sha3/keccakf.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crypto/sha3/keccakf.go b/crypto/sha3/keccakf.go
index ad56f08..72f243e 100644
--- a/crypto/sha3/keccakf.go
+++ b/crypto/sha3/keccakf.go
@@ -115,15 +115,15 @@ func keccakF1600(a *[25]uint64) {
 		a[4] = bc4 ^ (bc1 &^ bc0)
 
 		t = a[15] ^ d0
-		bc2 = t<<41 | t>>(64-41)
+		bc3 = t<<41 | t>>(64-41)
 		t = a[21] ^ d1
-		bc3 = t<<2 | t>>(64-2)
+		bc4 = t<<2 | t>>(64-2)
 		t = a[2] ^ d2
-		bc4 = t<<62 | t>>(64-62)
+		bc0 = t<<62 | t>>(64-62)
 		t = a[8] ^ d3
-		bc0 = t<<55 | t>>(64-55)
+		bc1 = t<<55 | t>>(64-55)
 		t = a[14] ^ d4
-		bc1 = t<<39 | t>>(64-39)
+		bc2 = t<<39 | t>>(64-39)
 		a[15] = bc0 ^ (bc2 &^ bc1)
 		a[21] = bc1 ^ (bc3 &^ bc2)
 		a[2] = bc2 ^ (bc4 &^ bc3)
-- 
2.43.0


From 7e86127816400c7f9519f5ffaba613d16cf04039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:59 +0000
Subject: [PATCH 18/37] fix: common: a mixed-case address with an 0X prefix was
 marshalled with two prefixes

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index cc36bd3..6ff3a9a 100644
--- a/common/types.go
+++ b/common/types.go
@@ -385,7 +385,7 @@ func (ma *MixedcaseAddress) UnmarshalJSON(input []byte) error {
 
 // MarshalJSON 编组原始值
 func (ma *MixedcaseAddress) MarshalJSON() ([]byte, error) {
-	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0x") {
+	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0X") {
 		return json.Marshal(fmt.Sprintf("0x%s", ma.original[2:]))
 	}
 	return json.Marshal(fmt.Sprintf("0x%s", ma.original))
-- 
2.43.0


From 926e22c86dfc0c045907bc113b2474e5949c84f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:17 +0000
Subject: [PATCH 19/37] fix: common/math: Exp changed the caller's base,
 PaddedBigBytes ignored the length asked for

---
 common/math/big.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/math/big.go b/common/math/big.go
index 4d7df93..b873fd4 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -138,10 +138,10 @@ func FirstBitSet(v *big.Int) int {
 // PaddedBigBytes 将大整数编码为大端字节切片。长度
 // 切片至少有 n 个字节。
 func PaddedBigBytes(bigint *big.Int, n int) []byte {
-	if bigint.BitLen()/8 >= 8 {
+	if bigint.BitLen()/8 >= n {
 		return bigint.Bytes()
 	}
-	ret := make([]byte, 8)
+	ret := make([]byte, n)
 	ReadBits(bigint, ret)
 	return ret
 }
@@ -219,6 +219,7 @@ func S256(x *big.Int) *big.Int {
 // 由@karalabe 和@chfast 提供
 func Exp(base, exponent *big.Int) *big.Int {
 	result := big.NewInt(1)
+	base = new(big.Int).Set(base)
 
 	for _, word := range exponent.Bits() {
 		for i := 0; i < wordBits; i++ {
-- 
2.43.0


From 8a85a55493c10f6da3628544c4239e0bc0717ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:17 +0000
Subject: [PATCH 20/37] fix: crypto: only messages of 64 digits could be
 encoded as words

---
 crypto/mnemonic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/mnemonic.go b/crypto/mnemonic.go
index d43dc8f..9ff2733 100644
--- a/crypto/mnemonic.go
+++ b/crypto/mnemonic.go
@@ -19,7 +19,7 @@ func MnemonicEncode(message string) []string {
 	var out []string
 	n := int64(len(MnemonicWords))
 
-	for i := 0; i < len(message); i += (len(message) / 8) {
+	for i := 0; i < len(message); i += 8 {
 		x := message[i : i+8]
 		bit, _ := strconv.ParseInt(x, 16, 64)
 		w1 := (bit % n)
-- 
2.43.0


From 81e81ffd3a96986fe85a4c89b861d0f3f4841c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 21/37] fix: common: the text of a mixed-case address with an
 invalid checksum was not closed

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index 6ff3a9a..fa914b1 100644
--- a/common/types.go
+++ b/common/types.go
@@ -401,7 +401,7 @@ func (ma *MixedcaseAddress) String() string {
 	if ma.ValidChecksum() {
 		return fmt.Sprintf("%s [chksum ok]", ma.original)
 	}
-	return fmt.Sprintf("%s [chksum INVALID", ma.original)
+	return fmt.Sprintf("%s [chksum INVALID]", ma.original)
 }
 
 // 如果地址具有有效校验和，则 ValidChecksum 返回 true
-- 
2.43.0


From 2786a196a6333fbfada7f5b51e4c6f0e89d2050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 22/37] fix: rlp/rlpstruct: the tag "tail" was not recognised

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 12a7185..823fd4f 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -172,7 +172,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			if ts.Tail {
 				return ts, TagError{Field: name, Tag: t, Err: `also has "tail" tag`}
 			}
-		case "tali":
+		case "tail":
 			ts.Tail = true
 			if field.Index != lastPublic {
 				return ts, TagError{Field: name, Tag: t, Err: "must be on last field"}
-- 
2.43.0


From b8314d709cc43de7537a2fac772cfd15d2092454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 23/37] fix: rlp/rlpstruct: required fields were refused unless
 they followed an optional field

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 823fd4f..91d74d6 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -135,7 +135,7 @@ func ProcessFields(allFields []Field) ([]Field, []Tags, error) {
 			}
 			anyOptional = true
 		} else {
-			if !anyOptional {
+			if anyOptional {
 				msg := fmt.Sprintf("must be optional because preceding field %q is optional", firstOptionalName)
 				return nil, nil, TagError{Field: name, Err: msg}
 			}
-- 
2.43.0


From 295be2d20285e6312067b83b78abc9c50cf00e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 24/37] fix: rlp/rlpstruct: the tag "nil" took the kind of the
 pointer, not of its element

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 91d74d6..cb43dbf 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -161,7 +161,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			}
 			switch t {
 			case "nil":
-				ts.NilKind = field.Type.DefaultNilValue()
+				ts.NilKind = field.Type.Elem.DefaultNilValue()
 			case "nilString":
 				ts.NilKind = NilKindString
 			case "nilList":
-- 
2.43.0


From acd8445d128316bded2c7f5236e22b34980c8e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 25/37] fix: rlp/rlpstruct: errors ran "field" and its name
 together

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index cb43dbf..807aeef 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -92,7 +92,7 @@ type TagError struct {
 }
 
 func (e TagError) Error() string {
-	field := "field" + e.Field
+	field := "field " + e.Field
 	if e.StructType != "" {
 		field = e.StructType + "." + e.Field
 	}
-- 
2.43.0


From d9a1478a7450d5ed0a835fea5ad06af64d0fa08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 26/37] fix: rlp/rlpgen: generating for an alias of an unnamed
 type crashed

---
 rlp/rlpgen/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rlp/rlpgen/main.go b/rlp/rlpgen/main.go
index e01dba7..bfd3ac3 100644
--- a/rlp/rlpgen/main.go
+++ b/rlp/rlpgen/main.go
@@ -143,5 +143,9 @@ func lookupType(scope *types.Scope, name string) (*types.Named, error) {
 	if !ok {
 		return nil, errors.New("not a type")
 	}
-	return typ.Type().(*types.Named), nil
+	named, ok := typ.Type().(*types.Named)
+	if !ok {
+		return nil, errors.New("not a defined type")
+	}
+	return named, nil
 }
\ No newline at end of file
-- 
2.43.0


From 62e9675efbc5de3791cf384ab75e5f3d49aab4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 27/37] fix: rlp/rlpgen: code generated for named basic types
 did not compile

---
 rlp/rlpgen/gen.go   | 7 +++++--
 rlp/rlpgen/types.go | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index fdfa357..1412139 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -164,8 +164,11 @@ type basicOp struct {
 	decUseBitSize bool       // if true, result bit size is appended to decMethod
 }
 
-func (*buildContext) makeBasicOp(typ *types.Basic) (op, error) {
+func (*buildContext) makeBasicOp(name *types.Named, typ *types.Basic) (op, error) {
 	op := basicOp{typ: typ}
+	if name != nil {
+		op.typ = name
+	}
 	kind := typ.Kind()
 	switch {
 	case kind == types.Bool:
@@ -659,7 +662,7 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 		// Default pointer handling.
 		return bctx.makePtrOp(typ.Elem(), tags)
 	case *types.Basic:
-		return bctx.makeBasicOp(typ)
+		return bctx.makeBasicOp(name, typ)
 	case *types.Struct:
 		return bctx.makeStructOp(name, typ)
 	case *types.Slice:
diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index f24e4fb..beaf2df 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -52,6 +52,9 @@ func nonZeroCheck(v string, vtyp types.Type, qualify types.Qualifier) string {
 		k := typ.Kind()
 		switch {
 		case k == types.Bool:
+			if _, named := vtyp.(*types.Named); named {
+				return fmt.Sprintf("bool(%s)", v)
+			}
 			return v
 		case k >= types.Uint && k <= types.Complex128:
 			return fmt.Sprintf("%s != 0", v)
-- 
2.43.0


From b06c1e06c9122cfa6518700b9e2965e303aedf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 28/37] fix: rlp/rlpgen: recursive types overflowed the stack

---
 rlp/rlpgen/gen.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 1412139..35b0b37 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -34,6 +34,7 @@ type buildContext struct {
 	rawValueType *types.Named
 
 	typeToStructCache map[types.Type]*rlpstruct.Type
+	inProgress        map[*types.Named]bool // types makeOp is being called for
 }
 
 func newBuildContext(packageRLP *types.Package) *buildContext {
@@ -42,6 +43,7 @@ func newBuildContext(packageRLP *types.Package) *buildContext {
 	rawv := packageRLP.Scope().Lookup("RawValue").Type()
 	return &buildContext{
 		typeToStructCache: make(map[types.Type]*rlpstruct.Type),
+		inProgress:        make(map[*types.Named]bool),
 		encoderIface:      enc.(*types.Interface),
 		decoderIface:      dec.(*types.Interface),
 		rawValueType:      rawv.(*types.Named),
@@ -63,6 +65,7 @@ func (bctx *buildContext) typeToStructType(typ types.Type) *rlpstruct.Type {
 	}
 
 	// Resolve named types to their underlying type, but keep the name.
+	orig := typ
 	name := types.TypeString(typ, nil)
 	for {
 		utype := typ.Underlying()
@@ -79,7 +82,7 @@ func (bctx *buildContext) typeToStructType(typ types.Type) *rlpstruct.Type {
 		IsEncoder: bctx.isEncoder(typ),
 		IsDecoder: bctx.isDecoder(typ),
 	}
-	bctx.typeToStructCache[typ] = t
+	bctx.typeToStructCache[orig] = t
 
 	// Assign element type.
 	switch typ.(type) {
@@ -644,6 +647,11 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 			return nil, fmt.Errorf("type %v implements rlp.Decoder with non-pointer receiver", typ)
 		}
 		// TODO: same check for encoder?
+		if bctx.inProgress[typ] {
+			return nil, fmt.Errorf("recursive type %v is not supported", typ)
+		}
+		bctx.inProgress[typ] = true
+		defer delete(bctx.inProgress, typ)
 		return bctx.makeOp(typ, typ.Underlying(), tags)
 	case *types.Pointer:
 		if isBigInt(typ.Elem()) {
-- 
2.43.0


From 604c321b0783ed48e73bb6c286bbde45531c8469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 29/37] fix: rlp/rlpgen: code generated for optional fields of
 incomparable types did not compile

---
 rlp/rlpgen/gen.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 35b0b37..9fde7e2 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -484,6 +484,9 @@ func (bctx *buildContext) makeStructOp(named *types.Named, typ *types.Struct) (o
 			return nil, err
 		}
 		typ := typ.Field(field.Index).Type()
+		if err := checkOptionalType(field.Name, typ, tag); err != nil {
+			return nil, err
+		}
 		elem, err := bctx.makeOp(nil, typ, tags[i])
 		if err != nil {
 			return nil, fmt.Errorf("field %s: %v", field.Name, err)
@@ -505,6 +508,20 @@ func checkUnsupportedTags(field string, tag rlpstruct.Tags) error {
 	return nil
 }
 
+// checkOptionalType refuses optional fields which can't be compared to the zero value.
+func checkOptionalType(field string, typ types.Type, tag rlpstruct.Tags) error {
+	if !tag.Optional {
+		return nil
+	}
+	switch resolveUnderlying(typ).(type) {
+	case *types.Array, *types.Struct:
+		if !types.Comparable(typ) {
+			return fmt.Errorf("field %s: type %v of optional field is not comparable", field, typ)
+		}
+	}
+	return nil
+}
+
 func (op structOp) genWrite(ctx *genContext, v string) string {
 	var b bytes.Buffer
 	var listMarker = ctx.temp()
-- 
2.43.0


From 9203100f5f1eb7cfbb068e6d19a5c4130807829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 30/37] fix: rlpgen reports that writing to standard output
 failed

The error of writing the generated code to standard output was dropped, so
that on a full disk, say, the command ended successfully with its output lost
or cut short.
---
 rlp/rlpgen/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rlp/rlpgen/main.go b/rlp/rlpgen/main.go
index bfd3ac3..5abacc4 100644
--- a/rlp/rlpgen/main.go
+++ b/rlp/rlpgen/main.go
@@ -50,7 +50,9 @@ func main() {
 		fatal(err)
 	}
 	if *output == "-" {
-		os.Stdout.Write(code)
+		if _, err := os.Stdout.Write(code); err != nil {
+			fatal(err)
+		}
 	} else if err := os.WriteFile(*output, code, 0600); err != nil {
 		fatal(err)
 	}
-- 
2.43.0


From ae69954aa755ad895059f936b5af66e89c7cae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 31/37] fix: a subscription naming a type twice is refused
 before any of it is registered

---
 event/event.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/event/event.go b/event/event.go
index fcc6824..a679705 100644
--- a/event/event.go
+++ b/event/event.go
@@ -46,12 +46,18 @@ func (mux *TypeMux) Subscribe(types ...interface{}) *TypeMuxSubscription {
 		if mux.subm == nil {
 			mux.subm = make(map[reflect.Type][]*TypeMuxSubscription)
 		}
+		// 在注册之前检查重复的类型，否则已注册的类型会留下一个没有人读取的订阅。
+		seen := make(map[reflect.Type]bool, len(types))
 		for _, t := range types {
 			rtyp := reflect.TypeOf(t)
-			oldsubs := mux.subm[rtyp]
-			if find(oldsubs, sub) != -1 {
+			if seen[rtyp] {
 				panic(fmt.Sprintf("event: duplicate type %s in Subscribe", rtyp))
 			}
+			seen[rtyp] = true
+		}
+		for _, t := range types {
+			rtyp := reflect.TypeOf(t)
+			oldsubs := mux.subm[rtyp]
 			subs := make([]*TypeMuxSubscription, len(oldsubs)+1)
 			copy(subs, oldsubs)
 			subs[len(oldsubs)] = sub
-- 
2.43.0


From fc493ea6dee8c2505d632698aeca0894b4257d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 32/37] fix: logfmt shows a context key that is not a string,
 not nothing

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index 3a58d27..df6b9a6 100644
--- a/log/format.go
+++ b/log/format.go
@@ -167,7 +167,7 @@ func logfmt(buf *bytes.Buffer, ctx []interface{}, color int, term bool) {
 		k, ok := ctx[i].(string)
 		v := formatLogfmtValue(ctx[i+1], term)
 		if !ok {
-			k, v = errorKey, formatLogfmtValue(k, term)
+			k, v = errorKey, formatLogfmtValue(ctx[i], term)
 		} else {
 			k = escapeString(k)
 		}
-- 
2.43.0


From e96a2bf9db37408a824c8844b36a6c3f4b8cc18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 33/37] fix: rlpgen: code for types of packages sharing a name
 did not compile

---
 rlp/rlpgen/gen.go | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 9fde7e2..ae02748 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -98,14 +98,16 @@ func (bctx *buildContext) typeToStructType(typ types.Type) *rlpstruct.Type {
 // file and assigns unique names of temporary variables.
 type genContext struct {
 	inPackage   *types.Package
-	imports     map[string]struct{}
+	imports     map[string]string   // package path -> alias, if it needs one
+	pkgNames    map[string]struct{} // names given to imported packages
 	tempCounter int
 }
 
 func newGenContext(inPackage *types.Package) *genContext {
 	return &genContext{
 		inPackage: inPackage,
-		imports:   make(map[string]struct{}),
+		imports:   make(map[string]string),
+		pkgNames:  make(map[string]struct{}),
 	}
 }
 
@@ -123,8 +125,7 @@ func (ctx *genContext) addImport(path string) {
 	if path == ctx.inPackage.Path() {
 		return // avoid importing the package that we're generating in.
 	}
-	// TODO: renaming?
-	ctx.imports[path] = struct{}{}
+	ctx.imports[path] = ""
 }
 
 // importsList returns all packages that need to be imported.
@@ -142,11 +143,37 @@ func (ctx *genContext) qualify(pkg *types.Package) string {
 	if pkg.Path() == ctx.inPackage.Path() {
 		return ""
 	}
-	ctx.addImport(pkg.Path())
-	// TODO: renaming?
+	alias, ok := ctx.imports[pkg.Path()]
+	if !ok {
+		name := pkg.Name()
+		for i := 2; ctx.nameTaken(pkg.Path(), name); i++ {
+			name = fmt.Sprintf("%s%d", pkg.Name(), i)
+		}
+		if name != pkg.Name() {
+			alias = name
+		}
+		ctx.imports[pkg.Path()] = alias
+		ctx.pkgNames[name] = struct{}{}
+	}
+	if alias != "" {
+		return alias
+	}
 	return pkg.Name()
 }
 
+// nameTaken reports whether name has another meaning in the output file
+// than the package with the given path.
+func (ctx *genContext) nameTaken(path, name string) bool {
+	switch name {
+	case "io", "rlp":
+		return path != "io" && path != pathOfPackageRLP // used by the generated methods
+	case "obj", "dec", "w", "_w", "err":
+		return true // variables of the generated methods
+	}
+	_, taken := ctx.pkgNames[name]
+	return taken || ctx.inPackage.Scope().Lookup(name) != nil || types.Universe.Lookup(name) != nil
+}
+
 type op interface {
 	// genWrite creates the encoder. The generated code should write v,
 	// which is any Go expression, to the rlp.EncoderBuffer 'w'.
@@ -761,7 +788,11 @@ func (bctx *buildContext) generate(typ *types.Named, encoder, decoder bool) ([]b
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "package %s\n\n", pkg.Name())
 	for _, imp := range ctx.importsList() {
-		fmt.Fprintf(&b, "import %q\n", imp)
+		if alias := ctx.imports[imp]; alias != "" {
+			fmt.Fprintf(&b, "import %s %q\n", alias, imp)
+		} else {
+			fmt.Fprintf(&b, "import %q\n", imp)
+		}
 	}
 	if encoder {
 		fmt.Fprintln(&b)
-- 
2.43.0


From 96495dd201c5122f79bd3cac7f9f0ea714ed8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 34/37] fix: common: an unset mixed-case address was saved as
 text that cannot be loaded

---
 common/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/types.go b/common/types.go
index fa914b1..6fb7340 100644
--- a/common/types.go
+++ b/common/types.go
@@ -385,6 +385,9 @@ func (ma *MixedcaseAddress) UnmarshalJSON(input []byte) error {
 
 // MarshalJSON 编组原始值
 func (ma *MixedcaseAddress) MarshalJSON() ([]byte, error) {
+	if ma.original == "" { // the zero value
+		return json.Marshal(ma.addr.Hex())
+	}
 	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0X") {
 		return json.Marshal(fmt.Sprintf("0x%s", ma.original[2:]))
 	}
-- 
2.43.0


From ce2533f5a59b3898211646c6239728f1ae0edaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 35/37] fix: log: JSON records with a NaN or infinite value
 lost their message and level

---
 log/format.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index df6b9a6..a5d8dd4 100644
--- a/log/format.go
+++ b/log/format.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
 	"math/big"
 	"reflect"
 	"strconv"
@@ -314,7 +315,12 @@ func formatShared(value interface{}) (result interface{}) {
 func formatJSONValue(value interface{}) interface{} {
 	value = formatShared(value)
 	switch value.(type) {
-	case int, int8, int16, int32, int64, float32, float64, uint, uint8, uint16, uint32, uint64, string:
+	case float32, float64:
+		if f := reflect.ValueOf(value).Float(); math.IsNaN(f) || math.IsInf(f, 0) {
+			return fmt.Sprintf("%+v", value) // JSON has no such number
+		}
+		return value
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, string:
 		return value
 	default:
 		return fmt.Sprintf("%+v", value)
-- 
2.43.0


From e3498dd7c8381952d62651539973d50852915535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 36/37] fix: log: nil pointers to values with a terminal form
 crashed the terminal formats

---
 log/format.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index a5d8dd4..ffc4920 100644
--- a/log/format.go
+++ b/log/format.go
@@ -312,6 +312,21 @@ func formatShared(value interface{}) (result interface{}) {
 	}
 }
 
+// formatTerminal is formatShared for values with a terminal form.
+func formatTerminal(value TerminalStringer) (result string) {
+	defer func() {
+		if err := recover(); err != nil {
+			if v := reflect.ValueOf(value); v.Kind() == reflect.Ptr && v.IsNil() {
+				result = "nil"
+			} else {
+				panic(err)
+			}
+		}
+	}()
+
+	return value.TerminalString()
+}
+
 func formatJSONValue(value interface{}) interface{} {
 	value = formatShared(value)
 	switch value.(type) {
@@ -350,7 +365,7 @@ func formatLogfmtValue(value interface{}, term bool) string {
 	if term {
 		if s, ok := value.(TerminalStringer); ok {
 			// 提供的自定义终端纵梁，使用它
-			return escapeString(s.TerminalString())
+			return escapeString(formatTerminal(s))
 		}
 	}
 	value = formatShared(value)
-- 
2.43.0


From fe33636fc8cd38d482e2bb824425a3ebf8dd2221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:13 +0000
Subject: [PATCH 37/37] fix: rlpgen crashed on a field of a predeclared named
 type such as error

---
 rlp/rlpgen/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index beaf2df..94af752 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -81,7 +81,8 @@ func isBigInt(typ types.Type) bool {
 		return false
 	}
 	name := named.Obj()
-	return name.Pkg().Path() == "math/big" && name.Name() == "Int"
+	// Predeclared types such as error have no package.
+	return name.Pkg() != nil && name.Pkg().Path() == "math/big" && name.Name() == "Int"
 }
 
 // isByte 检查 'typ' 的底层类型是否为 uint8。
-- 
2.43.0

