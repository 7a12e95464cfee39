From 6c28c446d6a2be695da4f021121e8d64e49f7d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 01/49] fix: setting a broadcast value again must not panic

---
 pkg/concurrency/broadcast.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/concurrency/broadcast.go b/pkg/concurrency/broadcast.go
index 98e0bec..a4ad1a2 100644
--- a/pkg/concurrency/broadcast.go
+++ b/pkg/concurrency/broadcast.go
@@ -1,5 +1,7 @@
 package concurrency
 
+import "sync"
+
 // BroadCaster is a simple message wrapper.
 //
 // It provides the semantic for 1 to M message consumers, no error will be produced.
@@ -15,6 +17,7 @@ type BroadCaster interface {
 type broadCaster struct {
 	message      interface{}
 	readyChannel chan bool
+	setOnce      sync.Once
 }
 
 // NewBroadCaster will return a BroadCaster instance.
@@ -26,8 +29,10 @@ func NewBroadCaster() BroadCaster {
 }
 
 func (bc *broadCaster) Set(message interface{}) {
-	bc.message = message
-	close(bc.readyChannel)
+	bc.setOnce.Do(func() {
+		bc.message = message
+		close(bc.readyChannel)
+	})
 }
 
 func (bc *broadCaster) Get() interface{} {
-- 
2.43.0


From 38438db7b841ffd98a73a6525afae9238539ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 02/49] fix: a future's completion and cancellation exclude
 each other

---
 pkg/concurrency/future.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/concurrency/future.go b/pkg/concurrency/future.go
index 3210155..27bbbb4 100644
--- a/pkg/concurrency/future.go
+++ b/pkg/concurrency/future.go
@@ -2,6 +2,7 @@ package concurrency
 
 import (
 	"errors"
+	"sync"
 	"time"
 )
 
@@ -46,6 +47,7 @@ type future struct {
 	err        error
 	doneChan   chan struct{}
 	cancelChan chan struct{}
+	mutex      sync.Mutex // decides between done and cancelled
 }
 
 // NewFuture will start a new future with the given function.
@@ -66,18 +68,25 @@ func NewFuture(task Task) Future {
 
 func (f *future) start() {
 	go func() {
-		f.result, f.err = f.task.Run()
+		result, err := f.task.Run()
+
+		f.mutex.Lock()
+		defer f.mutex.Unlock()
 		select {
 		// Already cancelled, leaves the doneChan open
 		case <-f.cancelChan:
 			return
 		default:
+			f.result, f.err = result, err
 			close(f.doneChan)
 		}
 	}()
 }
 
 func (f *future) Cancel() error {
+	f.mutex.Lock()
+	defer f.mutex.Unlock()
+
 	select {
 	case <-f.doneChan:
 		return ErrFulfilled
-- 
2.43.0


From 11ba4951b7cda5b8218f2074c31871febc06f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 03/49] fix: closing a data channel is final for senders and
 blocked receivers

---
 pkg/concurrency/data_channel.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/concurrency/data_channel.go b/pkg/concurrency/data_channel.go
index 7e5d0f8..f770360 100644
--- a/pkg/concurrency/data_channel.go
+++ b/pkg/concurrency/data_channel.go
@@ -56,7 +56,7 @@ type Sender interface {
 
 type receiver struct {
 	dataChannel  <-chan Event
-	closeChannel chan<- struct{}
+	closeChannel chan struct{}
 	closed       int32
 }
 
@@ -117,7 +117,12 @@ func (r *receiver) Receive() (Event, error) {
 		return nil, ErrChannelClosed
 	}
 
-	return <-r.dataChannel, nil
+	select {
+	case event := <-r.dataChannel:
+		return event, nil
+	case <-r.closeChannel:
+		return nil, ErrChannelClosed
+	}
 }
 
 func (r *receiver) Close() {
@@ -127,6 +132,13 @@ func (r *receiver) Close() {
 }
 
 func (s *sender) Send(event Event) int {
+	// A closed channel takes precedence over free buffer space
+	select {
+	case <-s.closeChannel:
+		return Closed
+	default:
+	}
+
 	select {
 	case <-s.closeChannel:
 		return Closed
-- 
2.43.0


From 0c6c66ce4e9df50c757edf83ed5baf7dd581ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 04/49] fix: cleaning up closed subscribers must not drop a new
 subscription

---
 pkg/concurrency/topic.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/pkg/concurrency/topic.go b/pkg/concurrency/topic.go
index cdc0622..d1157d2 100644
--- a/pkg/concurrency/topic.go
+++ b/pkg/concurrency/topic.go
@@ -40,17 +40,27 @@ func NewTopic(name string) Topic {
 type topic struct {
 	name        string
 	subscribers sync.Map
+	mutex       sync.Mutex // keeps the clean up of closed subscribers apart from new subscriptions
+}
+
+type closedSubscriber struct {
+	name   string
+	sender Sender
 }
 
 func (t *topic) Subscribe(name string) Receiver {
 	r, s := NewDataChannel()
+	t.mutex.Lock()
 	t.subscribers.Store(name, s)
+	t.mutex.Unlock()
 	return r
 }
 
 func (t *topic) SubscribeWithOptions(name string, size int, duration time.Duration) Receiver {
 	r, s := NewDataChannelWithOption(size, duration)
+	t.mutex.Lock()
 	t.subscribers.Store(name, s)
+	t.mutex.Unlock()
 	return r
 }
 
@@ -75,16 +85,18 @@ func (t *topic) Remove() {
 }
 
 func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
-	var closedKeys []string
+	var closedKeys []closedSubscriber
 	var wg sync.WaitGroup
 	var successCount int32
 
-	ch := make(chan string)
+	ch := make(chan closedSubscriber)
+	collected := make(chan struct{})
 
 	go func() {
 		for key := range ch {
 			closedKeys = append(closedKeys, key)
 		}
+		close(collected)
 	}()
 
 	t.subscribers.Range(func(k interface{}, s interface{}) bool {
@@ -96,7 +108,7 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 		go func() {
 			status := subscriber.Send(e)
 			if status == Closed {
-				ch <- name
+				ch <- closedSubscriber{name: name, sender: subscriber}
 			} else if status == Expired {
 				common.Infof("send event to subscriber expired. topic=%s, subscriber=%s", t.name, name)
 			} else {
@@ -112,12 +124,19 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 	wg.Wait()
 	successChan <- successCount
 	close(ch)
+	<-collected
 
 	go t.batchRemove(closedKeys)
 }
 
-func (t *topic) batchRemove(removeKeys []string) {
-	for _, name := range removeKeys {
-		t.subscribers.Delete(name)
+func (t *topic) batchRemove(removeKeys []closedSubscriber) {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	for _, key := range removeKeys {
+		// The name may have been subscribed again in the meantime
+		if current, ok := t.subscribers.Load(key.name); ok && current == key.sender {
+			t.subscribers.Delete(key.name)
+		}
 	}
 }
-- 
2.43.0


From 88b3f1d7ca418c1e871cd9508b244e4183c7d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 05/49] fix: keep the size of a sync data map in step with its
 content

---
 pkg/types/data_map.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/types/data_map.go b/pkg/types/data_map.go
index fa2726e..b1ba7cf 100644
--- a/pkg/types/data_map.go
+++ b/pkg/types/data_map.go
@@ -108,6 +108,7 @@ func (ldm *lockedDataMap) Len() int {
 type syncDataMap struct {
 	container sync.Map
 	size      int32
+	mutex     sync.Mutex // keeps size in step with container
 }
 
 // NewSyncDataMap returns a new syncDataMap instance
@@ -118,6 +119,9 @@ func NewSyncDataMap() *syncDataMap {
 // Set will do insert and size increment
 // It will do a check if the key is exist to determine if we need to increase the size
 func (sdm *syncDataMap) Set(key string, value interface{}) {
+	sdm.mutex.Lock()
+	defer sdm.mutex.Unlock()
+
 	if !sdm.Has(key) {
 		atomic.AddInt32(&sdm.size, 1)
 	}
@@ -139,13 +143,19 @@ func (sdm *syncDataMap) Has(key string) bool {
 // Remove will first check if the key is exist
 // Then do remove works, it requires one more read overhead
 func (sdm *syncDataMap) Remove(key string) {
+	sdm.mutex.Lock()
+	defer sdm.mutex.Unlock()
+
 	if sdm.Has(key) {
 		sdm.container.Delete(key)
 		atomic.AddInt32(&sdm.size, -1)
 	}
 }
 
-// Len will load size atomically so it will be safe and fast
+// Len will load size while no Set or Remove is half done
 func (sdm *syncDataMap) Len() int {
+	sdm.mutex.Lock()
+	defer sdm.mutex.Unlock()
+
 	return int(atomic.LoadInt32(&sdm.size))
 }
-- 
2.43.0


From f75a42f67ea0542b18a23aff3ab952b3a385b33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 06/49] fix: an empty string does not compare equal to a
 non-empty one

---
 pkg/util/util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 3bc988b..78c8612 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -69,6 +69,11 @@ func LexicalCompare(lhs, rhs string) int {
 
 	if lhsLen == rhsLen {
 		return 0
+	} else if lhsLen == 0 {
+		// An empty string precedes every other string
+		return -1
+	} else if rhsLen == 0 {
+		return 1
 	} else if lhsLen < rhsLen {
 		return -lhsLen
 	}
-- 
2.43.0


From af29911245dd1344bb7cf466b1a68abd114bd2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 07/49] fix: refuse increments and decrements that would
 overflow

---
 pkg/container/string.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/container/string.go b/pkg/container/string.go
index a946b89..bf47f44 100644
--- a/pkg/container/string.go
+++ b/pkg/container/string.go
@@ -3,6 +3,7 @@ package container
 import (
 	"errors"
 	"hash/fnv"
+	"math"
 
 	"github.com/lxdlam/vertex/pkg/util"
 
@@ -17,6 +18,9 @@ var (
 	// ErrNotAInt will be raised if invoke Int() on a string object that cannot be cast to a string
 	ErrNotAInt = errors.New("string_container: cannot cast the value to a string")
 
+	// ErrIntOverflow will be raised if an increment or decrement leaves the int64 range
+	ErrIntOverflow = errors.New("string_container: increment or decrement would overflow")
+
 	// ErrRangeInvalid will be raised in GetRange if the given range is invalid
 	ErrRangeInvalid = errors.New("string_container: the given range is invalid")
 )
@@ -129,6 +133,11 @@ func (s *StringContainer) AsIntObject() (protocol.RedisInteger, error) {
 // The string will be updated too.
 func (s *StringContainer) Increase(increment int64) (int64, error) {
 	if s.IsInt() {
+		val := s.intVar.Get()
+		if (increment > 0 && val > math.MaxInt64-increment) || (increment < 0 && val < math.MinInt64-increment) {
+			return 0, ErrIntOverflow
+		}
+
 		s.intVar.Increase(increment)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
@@ -141,6 +150,11 @@ func (s *StringContainer) Increase(increment int64) (int64, error) {
 // The string will be updated too.
 func (s *StringContainer) Decrease(decrement int64) (int64, error) {
 	if s.IsInt() {
+		val := s.intVar.Get()
+		if (decrement > 0 && val < math.MinInt64+decrement) || (decrement < 0 && val > math.MaxInt64+decrement) {
+			return 0, ErrIntOverflow
+		}
+
 		s.intVar.Decrease(decrement)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
-- 
2.43.0


From f17d394e0ffaf25a03c3f2daa878039dde788d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 08/49] fix: list removal and insertion must not match the
 sentinel nodes

---
 pkg/container/list.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 4b80379..231a950 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -107,7 +107,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 		count = l.size
 	}
 
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail && removed < count {
 		if cur.data.Equals(key) {
@@ -126,7 +126,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 func (l *linkedList) deleteFromTail(count int, key *StringContainer) int {
 	removed := 0
 
-	cur := l.tail
+	cur := l.tail.prev
 
 	for cur != l.head && removed < count {
 		if cur.data.Equals(key) {
@@ -276,7 +276,7 @@ func (l *linkedList) PopTail() (*StringContainer, error) {
 }
 
 func (l *linkedList) Insert(pivot, data *StringContainer, after bool) (int, error) {
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail {
 		if cur.data.Equals(pivot) {
-- 
2.43.0


From 38956ffea987a5a2cff8f97d7b27a4b021550a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 09/49] fix: resolve the right end of a list range only once

---
 pkg/container/list.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 231a950..9d8bd8b 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -159,12 +159,6 @@ func (l *linkedList) extract(index int) *listNode {
 
 // Avoid traverse twice
 func (l *linkedList) extractSegment(left, right int) (*listNode, *listNode) {
-	right = util.NewIndex(right).ResolveRaw(l.size)
-
-	if right >= l.size {
-		right = l.size - 1
-	}
-
 	normLeft, normRight := util.NewSlice(left, right).Resolve(l.size)
 
 	if normLeft != -1 && normRight != -1 {
-- 
2.43.0


From faacb3992243abe174d0ecd1ab134ab17bb4d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:41 +0000
Subject: [PATCH 10/49] fix: removing the lowest possible count from a list
 removes all matches

---
 pkg/container/list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 9d8bd8b..81dff7b 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -2,6 +2,7 @@ package container
 
 import (
 	"errors"
+	"math"
 
 	"github.com/lxdlam/vertex/pkg/common"
 	"github.com/lxdlam/vertex/pkg/util"
@@ -310,6 +311,9 @@ func (l *linkedList) Remove(count int, key *StringContainer) int {
 	var removed int
 	if count >= 0 {
 		removed = l.deleteFromHead(count, key)
+	} else if count == math.MinInt {
+		// -count does not exist
+		removed = l.deleteFromTail(math.MaxInt, key)
 	} else {
 		removed = l.deleteFromTail(-count, key)
 	}
-- 
2.43.0


From 34b56b0263f66f19729944999e90df96a3bb505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 11/49] fix: SPOP and SRANDMEMBER on an emptied set must not
 panic

---
 pkg/command/set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/command/set.go b/pkg/command/set.go
index 44d8a10..9c78801 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -591,7 +591,7 @@ func (s *spopCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).Pop(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 || ret[0] == nil {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
@@ -713,7 +713,7 @@ func (s *srandmemberCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).RandomMember(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 || ret[0] == nil {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
-- 
2.43.0


From 30337f42822f8e76aa5e818b53ed92d2df6fd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 12/49] fix: SADD, SREM and HSET refuse an empty key instead of
 crashing

---
 pkg/command/hash.go |  5 +++++
 pkg/command/set.go  | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/command/hash.go b/pkg/command/hash.go
index f143b49..50ebed8 100644
--- a/pkg/command/hash.go
+++ b/pkg/command/hash.go
@@ -121,6 +121,11 @@ func (h *hsetCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (h *hsetCommand) Execute() {
+	if h.accessObject == nil {
+		h.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if h.accessObject.Type() != h.TargetContainerType() {
 		h.err = fmt.Errorf("target container type mismatch. expected=%d, got=%d", h.TargetContainerType(), h.accessObject.Type())
 		return
diff --git a/pkg/command/set.go b/pkg/command/set.go
index 9c78801..a953594 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -192,6 +192,11 @@ func (s *saddCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *saddCommand) Execute() {
+	if s.accessObject == nil {
+		s.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
@@ -467,6 +472,11 @@ func (s *sremCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *sremCommand) Execute() {
+	if s.accessObject == nil {
+		s.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
-- 
2.43.0


From f1091c33bb0d11bc3969b86e1942e55d3fc7feae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 13/49] fix: LTRIM modifies the data and must be logged

---
 pkg/command/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/list.go b/pkg/command/list.go
index 8ceac19..2003e08 100644
--- a/pkg/command/list.go
+++ b/pkg/command/list.go
@@ -1010,7 +1010,7 @@ func (l *ltrimCommand) ToLog() string {
 }
 
 func (l *ltrimCommand) Type() CommandType {
-	return AccessCommandType
+	return ModifyCommandType
 }
 
 func (l *ltrimCommand) Keys() []string {
-- 
2.43.0


From 812edb9876c29bccb6ff747f140b70754d134a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 14/49] fix: the RESP reader rejects lengths below -1

---
 pkg/protocol/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 92c4a96..a8d4c05 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -94,6 +94,8 @@ func (r *respReader) readString() (RedisString, error) {
 		// real string section
 		if sLen == -1 {
 			return NewNullBulkRedisString(), nil
+		} else if sLen < -1 {
+			return nil, fmt.Errorf("invalid bulk string length. token=%s", curToken)
 		} else if err := r.readBytes(int(sLen) + 2); err == nil {
 			return NewBulkRedisString(r.token[:sLen]), nil
 		} else {
@@ -131,6 +133,8 @@ func (r *respReader) readArray() (RedisArray, error) {
 	if aLen == -1 {
 		// null array
 		return NewNullRedisArray(), nil
+	} else if aLen < -1 {
+		return nil, fmt.Errorf("invalid array length. token=%s", curToken)
 	}
 
 	var objects []RedisObject
-- 
2.43.0


From 3c3620c1dd2c448d5848f01fb1a3512bd468f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 15/49] fix: the RESP reader bounds how deep arrays nest

---
 pkg/protocol/reader.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index a8d4c05..03c5e65 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -10,6 +10,9 @@ import (
 
 const (
 	delimiter byte = '\n'
+
+	// maxDepth is how deep arrays may be nested
+	maxDepth = 1024
 )
 
 // RESPReader interface allow reuse a io.Reader objects to avoid
@@ -21,6 +24,7 @@ type RESPReader interface {
 type respReader struct {
 	reader *bufio.Reader
 	token  string
+	depth  int
 }
 
 func (r *respReader) readToken() error {
@@ -137,6 +141,13 @@ func (r *respReader) readArray() (RedisArray, error) {
 		return nil, fmt.Errorf("invalid array length. token=%s", curToken)
 	}
 
+	r.depth++
+	defer func() { r.depth-- }()
+
+	if r.depth > maxDepth {
+		return nil, fmt.Errorf("array nested too deep. depth=%d", r.depth)
+	}
+
 	var objects []RedisObject
 	for i := 0; i < int(aLen); i++ {
 		obj, err := r.readObject()
-- 
2.43.0


From 93c5916c7bdd6f7f6625e061cab09733e1fa13b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 16/49] fix: an error reply is a single line

---
 pkg/protocol/resp.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/protocol/resp.go b/pkg/protocol/resp.go
index 940f9ea..7dbfeba 100644
--- a/pkg/protocol/resp.go
+++ b/pkg/protocol/resp.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"strings"
 )
 
 // We use the first byte to indicate the object type
@@ -128,8 +129,13 @@ type redisError struct {
 	byteRep   []byte
 }
 
-// NewRedisError takes an string, return a new RedisError instance
+// lineBreaks replaces what would end an error on the wire
+var lineBreaks = strings.NewReplacer("\r", " ", "\n", " ")
+
+// NewRedisError takes an string, return a new RedisError instance. An error is a single
+// line, so line breaks in data become spaces.
 func NewRedisError(data string) RedisError {
+	data = lineBreaks.Replace(data)
 	s := fmt.Sprintf("%s%s%s", ErrorType, data, Delimiter)
 
 	return &redisError{
@@ -141,13 +147,7 @@ func NewRedisError(data string) RedisError {
 
 // NewRedisErrorFromGoError takes an go error, return a new RedisError instance
 func NewRedisErrorFromGoError(data error) RedisError {
-	s := fmt.Sprintf("%s%s%s", ErrorType, data.Error(), Delimiter)
-
-	return &redisError{
-		data:      data.Error(),
-		stringRep: s,
-		byteRep:   []byte(s),
-	}
+	return NewRedisError(data.Error())
 }
 
 func (re *redisError) Byte() []byte {
-- 
2.43.0


From cef5cc6b9002ff2ab3c3093eaf02909aa4438a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 17/49] fix: a log cut inside a record's length is an
 unexpected end of file

---
 pkg/util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 78c8612..d9b254c 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -104,14 +104,14 @@ func QuoteJoin(s []string, sep string) string {
 }
 
 // ReadExactBytes will takes an ByteReader then read exact count bytes to a byte slice.
-// Any error raised by the ByteReader will be directly returned.
+// Any error raised by the ByteReader will be directly returned, with the bytes read before it.
 func ReadExactBytes(reader io.ByteReader, count int) ([]byte, error) {
 	var ret []byte
 
 	for idx := 0; idx < count; idx++ {
 		b, err := reader.ReadByte()
 		if err != nil {
-			return nil, err
+			return ret, err
 		}
 
 		ret = append(ret, b)
-- 
2.43.0


From f17a106a7aa95412aac92fc5b421ec073052eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 18/49] fix: log records keep arguments that are not valid
 UTF-8

---
 pkg/db/engine.go  |  6 +++---
 pkg/log/log.go    | 13 +++++++++----
 pkg/log/log.pb.go | 14 +++++++-------
 pkg/log/log.proto |  4 ++--
 4 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 5d40462..9eb3898 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -1,12 +1,12 @@
 package db
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"net"
 	"os"
 	"reflect"
-	"strings"
 	"sync"
 
 	"github.com/lxdlam/vertex/pkg/replication"
@@ -253,11 +253,11 @@ func (e *engine) BuildFromLog(logs []*log.VertexLog) {
 	common.Infof("rebuild database by log end, success=%d", success)
 }
 
-func convertArguments(s []string) []protocol.RedisObject {
+func convertArguments(s [][]byte) []protocol.RedisObject {
 	var ret []protocol.RedisObject
 
 	for _, item := range s {
-		obj, err := protocol.Parse(strings.NewReader(item))
+		obj, err := protocol.Parse(bytes.NewReader(item))
 		if err != nil {
 			continue
 		}
diff --git a/pkg/log/log.go b/pkg/log/log.go
index 20ddf23..a8b902b 100644
--- a/pkg/log/log.go
+++ b/pkg/log/log.go
@@ -35,19 +35,24 @@ func NewLog(name string, index int, objects []protocol.RedisObject) *VertexLog {
 	vl.Name = name
 	vl.Index = int32(index)
 
-	var arguments []string
+	var arguments [][]byte
 	for _, item := range objects[1:] {
-		arguments = append(arguments, item.String())
+		arguments = append(arguments, item.Byte())
 	}
 
 	vl.Arguments = arguments
-	vl.RawRequest = protocol.NewRedisArray(objects).String()
+	vl.RawRequest = protocol.NewRedisArray(objects).Byte()
 
 	return vl
 }
 
 func FormatLog(vl *VertexLog) string {
-	return fmt.Sprintf("VectexLog{id=%s, time=%d, host=%s, name=%s, index=%d, arguments=[%s], raw_request=%s}", vl.Id, vl.Time, vl.Host, vl.Name, vl.Index, util.QuoteJoin(vl.Arguments, ","), strconv.Quote(vl.RawRequest))
+	var arguments []string
+	for _, item := range vl.Arguments {
+		arguments = append(arguments, string(item))
+	}
+
+	return fmt.Sprintf("VectexLog{id=%s, time=%d, host=%s, name=%s, index=%d, arguments=[%s], raw_request=%s}", vl.Id, vl.Time, vl.Host, vl.Name, vl.Index, util.QuoteJoin(arguments, ","), strconv.Quote(string(vl.RawRequest)))
 }
 
 // PackLog will package a log into the below form:
diff --git a/pkg/log/log.pb.go b/pkg/log/log.pb.go
index 7f63dc0..5ab2da3 100644
--- a/pkg/log/log.pb.go
+++ b/pkg/log/log.pb.go
@@ -36,8 +36,8 @@ type VertexLog struct {
 	Host       string   `protobuf:"bytes,3,opt,name=host,proto3" json:"host,omitempty"`
 	Name       string   `protobuf:"bytes,4,opt,name=name,proto3" json:"name,omitempty"`
 	Index      int32    `protobuf:"varint,5,opt,name=index,proto3" json:"index,omitempty"`
-	Arguments  []string `protobuf:"bytes,6,rep,name=arguments,proto3" json:"arguments,omitempty"` // The arguments are RESP string represent
-	RawRequest string   `protobuf:"bytes,255,opt,name=raw_request,json=rawRequest,proto3" json:"raw_request,omitempty"`
+	Arguments  [][]byte `protobuf:"bytes,6,rep,name=arguments,proto3" json:"arguments,omitempty"` // The arguments are RESP string represent, which may be binary
+	RawRequest []byte   `protobuf:"bytes,255,opt,name=raw_request,json=rawRequest,proto3" json:"raw_request,omitempty"`
 }
 
 func (x *VertexLog) Reset() {
@@ -107,18 +107,18 @@ func (x *VertexLog) GetIndex() int32 {
 	return 0
 }
 
-func (x *VertexLog) GetArguments() []string {
+func (x *VertexLog) GetArguments() [][]byte {
 	if x != nil {
 		return x.Arguments
 	}
 	return nil
 }
 
-func (x *VertexLog) GetRawRequest() string {
+func (x *VertexLog) GetRawRequest() []byte {
 	if x != nil {
 		return x.RawRequest
 	}
-	return ""
+	return nil
 }
 
 var File_log_proto protoreflect.FileDescriptor
@@ -133,9 +133,9 @@ var file_log_proto_rawDesc = []byte{
 	0x65, 0x18, 0x04, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x14, 0x0a,
 	0x05, 0x69, 0x6e, 0x64, 0x65, 0x78, 0x18, 0x05, 0x20, 0x01, 0x28, 0x05, 0x52, 0x05, 0x69, 0x6e,
 	0x64, 0x65, 0x78, 0x12, 0x1c, 0x0a, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74, 0x73,
-	0x18, 0x06, 0x20, 0x03, 0x28, 0x09, 0x52, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74,
+	0x18, 0x06, 0x20, 0x03, 0x28, 0x0c, 0x52, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74,
 	0x73, 0x12, 0x20, 0x0a, 0x0b, 0x72, 0x61, 0x77, 0x5f, 0x72, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74,
-	0x18, 0xff, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x0a, 0x72, 0x61, 0x77, 0x52, 0x65, 0x71, 0x75,
+	0x18, 0xff, 0x01, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x0a, 0x72, 0x61, 0x77, 0x52, 0x65, 0x71, 0x75,
 	0x65, 0x73, 0x74, 0x42, 0x22, 0x5a, 0x20, 0x67, 0x69, 0x74, 0x68, 0x75, 0x62, 0x2e, 0x63, 0x6f,
 	0x6d, 0x2f, 0x6c, 0x78, 0x64, 0x6c, 0x61, 0x6d, 0x2f, 0x76, 0x65, 0x72, 0x74, 0x65, 0x78, 0x2f,
 	0x70, 0x6b, 0x67, 0x2f, 0x6c, 0x6f, 0x67, 0x62, 0x06, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x33,
diff --git a/pkg/log/log.proto b/pkg/log/log.proto
index 1e3bf6d..9260068 100644
--- a/pkg/log/log.proto
+++ b/pkg/log/log.proto
@@ -9,7 +9,7 @@ message VertexLog {
     string host = 3;
     string name = 4;
     int32 index = 5;
-    repeated string arguments = 6; // The arguments are RESP string represent
+    repeated bytes arguments = 6; // The arguments are RESP string represent, which may be binary
 
-    string raw_request = 255;
+    bytes raw_request = 255;
 }
\ No newline at end of file
-- 
2.43.0


From 96a9932243ddf0be6bc411a0b96ce9453e9cbe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 19/49] fix: write the log in the order the commands are
 executed

---
 pkg/db/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 9eb3898..b87d533 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -122,7 +122,8 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 	}
 
 	if c.Type() == command.ModifyCommandType {
-		go e.writeLog(name, 1, objects)
+		// in the order of execution
+		e.writeLog(name, 1, objects)
 	}
 
 	db := e.getOrCreateDB(1)
-- 
2.43.0


From 49a14b186f77dcda727c5e721c8ad044f704b7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 20/49] fix: log what SPOP removed, not a draw to be made again

---
 pkg/command/command.go |  8 ++++++++
 pkg/command/set.go     | 16 ++++++++++++++++
 pkg/db/engine.go       | 14 +++++++++-----
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/pkg/command/command.go b/pkg/command/command.go
index 976b1ca..3e84696 100644
--- a/pkg/command/command.go
+++ b/pkg/command/command.go
@@ -49,6 +49,14 @@ type Command interface {
 	Type() CommandType
 }
 
+// RandomCommand is a modify command whose effect can differ when it is executed again
+type RandomCommand interface {
+	Command
+
+	// Effect returns the request that repeats what Execute has changed, nil if nothing
+	Effect() []protocol.RedisObject
+}
+
 var keyMap map[string]func(string, int, []protocol.RedisObject) (Command, error) = nil
 var lock sync.RWMutex
 
diff --git a/pkg/command/set.go b/pkg/command/set.go
index a953594..36cb868 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -539,6 +539,7 @@ type spopCommand struct {
 	index        int
 	count        int
 	countSet     bool
+	popped       []*container.StringContainer
 	accessObject container.ContainerObject
 	result       protocol.RedisObject
 	err          error
@@ -599,6 +600,7 @@ func (s *spopCommand) Execute() {
 	}
 
 	ret := s.accessObject.(container.SetContainer).Pop(s.count)
+	s.popped = ret
 
 	if !s.countSet {
 		if len(ret) == 0 || ret[0] == nil {
@@ -633,6 +635,20 @@ func (s *spopCommand) ToLog() string {
 	panic("implement me")
 }
 
+// Effect returns the command that removes just the members that have been popped
+func (s *spopCommand) Effect() []protocol.RedisObject {
+	if len(s.popped) == 0 {
+		return nil
+	}
+
+	objs := []protocol.RedisObject{protocol.NewBulkRedisString("SREM"), protocol.NewBulkRedisString(s.key)}
+	for _, obj := range s.popped {
+		objs = append(objs, protocol.NewBulkRedisString(obj.String()))
+	}
+
+	return objs
+}
+
 func (s *spopCommand) Type() CommandType {
 	return ModifyCommandType
 }
diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index b87d533..78df7d4 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -121,14 +121,18 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 		return nil, fmt.Errorf("new commond error, name=%s, index=1, error={%w}", name, err)
 	}
 
-	if c.Type() == command.ModifyCommandType {
-		// in the order of execution
-		e.writeLog(name, 1, objects)
-	}
-
 	db := e.getOrCreateDB(1)
 	db.ExecuteCommand(c)
 
+	// in the order of execution
+	if r, ok := c.(command.RandomCommand); ok {
+		if effect := r.Effect(); effect != nil {
+			e.writeLog(effect[0].(protocol.RedisString).Data(), 1, effect)
+		}
+	} else if c.Type() == command.ModifyCommandType {
+		e.writeLog(name, 1, objects)
+	}
+
 	ret, err := c.Result()
 	if err != nil {
 		return nil, fmt.Errorf("execute error. name=%s, command=%+v, err={%w}", name, c, err)
-- 
2.43.0


From 35ab534cb5c828c3adc436a875121a8c88f868b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 21/49] fix: an engine without a master or a file can be
 stopped

---
 pkg/db/engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 78df7d4..f430c4a 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -202,8 +202,12 @@ Outer:
 }
 
 func (e *engine) Stop() {
-	e.master.Stop()
-	_ = e.file.Flush()
+	if e.master != nil {
+		e.master.Stop()
+	}
+	if e.file != nil {
+		_ = e.file.Flush()
+	}
 	close(e.shutChan)
 }
 
-- 
2.43.0


From 5fdee06fca1340798c712098f99b8f672533d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 22/49] fix: operations on a closed connection return instead
 of hanging

---
 pkg/network/conn.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index 0c53ebf..dfb8425 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -73,8 +73,24 @@ func NewConnWithExpire(tcpConn net.Conn, expireTime time.Duration) Conn {
 	return c
 }
 
+// touch restarts the expire time
+func (c *conn) touch() error {
+	if c.IsClosed() {
+		return ErrConnIsClosed
+	}
+
+	select {
+	case c.resetChan <- 0:
+		return nil
+	case <-c.closeChan:
+		return ErrConnIsClosed
+	}
+}
+
 func (c *conn) Read() (protocol.RedisObject, error) {
-	c.resetChan <- 0
+	if err := c.touch(); err != nil {
+		return nil, err
+	}
 
 	obj, err := c.reader.ReadObject()
 
@@ -85,6 +101,8 @@ func (c *conn) Read() (protocol.RedisObject, error) {
 			}
 		}()
 		return nil, ErrConnIsClosed
+	} else if err != nil && c.IsClosed() {
+		return nil, ErrConnIsClosed
 	} else if err != nil {
 		return nil, fmt.Errorf("conn: read with unexpected error. conn.id=%s, conn.tcpConn.addr=%s, err={%w}", c.id, c.addr, err)
 	}
@@ -93,12 +111,10 @@ func (c *conn) Read() (protocol.RedisObject, error) {
 }
 
 func (c *conn) Write(s string) error {
-	if c.IsClosed() {
-		return ErrConnIsClosed
+	if err := c.touch(); err != nil {
+		return err
 	}
 
-	c.resetChan <- 0
-
 	n, err := c.tcpConn.Write([]byte(s))
 
 	if err != nil {
-- 
2.43.0


From b5fdbe7144a51412ea1a4148b0b2411c39eab70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 23/49] fix: closing a connection does not wait for a peer that
 does not read

---
 pkg/network/conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index dfb8425..9957d93 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -18,6 +18,7 @@ import (
 var (
 	defaultExpireTime = 10 * time.Minute
 	closeMessage      = []byte("TTL expired")
+	closeMessageLimit = 100 * time.Millisecond
 
 	// ErrConnIsClosed will be raised if do any operation on a closed conn
 	ErrConnIsClosed = errors.New("conn: conn is already closed")
@@ -128,6 +129,8 @@ func (c *conn) Write(s string) error {
 
 func (c *conn) Close() error {
 	if atomic.CompareAndSwapInt32(&c.closed, 0, 1) {
+		// the peer may not read anymore
+		_ = c.tcpConn.SetWriteDeadline(time.Now().Add(closeMessageLimit))
 		_, _ = c.tcpConn.Write(closeMessage)
 		// discard all streams
 		_ = c.tcpConn.Close()
-- 
2.43.0


From c62090ba4a2a9927ee05c69f7b37360d356580e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 24/49] fix: stopping the server closes the client connections

---
 pkg/network/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index ee3f5c7..489d329 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -291,7 +291,7 @@ func (s *server) stop() {
 		s.engine.Stop()
 
 		s.clients.Range(func(key, value interface{}) bool {
-			c, ok := value.(conn)
+			c, ok := value.(Conn)
 			if ok {
 				_ = c.Close()
 			}
-- 
2.43.0


From ea0e7235be561d88d7196bf7ad8fc258bafcd320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 25/49] fix: a connection accepted during the stop is closed as
 well

---
 pkg/network/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 489d329..1e9bba1 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -187,6 +187,11 @@ func (s *server) newConn(conn net.Conn) {
 	c := NewConn(conn)
 	s.clients.Store(c.ID(), c)
 
+	// stop may already have closed the others
+	if atomic.LoadInt32(&s.shutdown) == 1 {
+		_ = c.Close()
+	}
+
 	go func() {
 		for {
 			request, err := c.Read()
-- 
2.43.0


From 69572041d5b1ab53659768ebe7c7d62439535bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 26/49] fix: serving returns only after the stop has finished

---
 pkg/network/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 1e9bba1..c465876 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -53,6 +53,7 @@ type server struct {
 	sigChan          chan os.Signal
 	shutChan         chan struct{}
 	shutdown         int32
+	stopOnce         sync.Once
 	responseReceiver concurrency.Receiver
 	cleanUpHandles   []func()
 	clients          sync.Map
@@ -285,8 +286,11 @@ Outer:
 	}
 }
 
+// stop returns when the server is stopped, also if someone else is stopping it
 func (s *server) stop() {
-	if atomic.CompareAndSwapInt32(&s.shutdown, 0, 1) {
+	s.stopOnce.Do(func() {
+		atomic.StoreInt32(&s.shutdown, 1)
+
 		s.eventBus.RemoveTopic("request")
 		s.eventBus.RemoveTopic("response")
 
@@ -304,7 +308,7 @@ func (s *server) stop() {
 		})
 
 		common.Info("server shutdown")
-	}
+	})
 }
 
 func (s *server) syncExternal(file string, master string) {
-- 
2.43.0


From 3cb30c2b6db2a8bf785d88dad8f1554dec9af8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 27/49] fix: a signal is not lost while nobody waits for it

---
 pkg/network/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index c465876..fc0299e 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -121,7 +121,7 @@ func (s *server) Init(c common.Config) bool {
 	s.syncExternal(c.DatabaseFile, c.MasterAddress)
 
 	s.shutChan = make(chan struct{})
-	s.sigChan = make(chan os.Signal)
+	s.sigChan = make(chan os.Signal, 1)
 	signal.Notify(s.sigChan, syscall.SIGINT, syscall.SIGABRT, syscall.SIGTERM, syscall.SIGKILL)
 
 	go func() {
-- 
2.43.0


From 8b784a24e1a156790cf5eaa1276d5c868ccea7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 28/49] fix: workers end on a stop even if they miss the notice

---
 pkg/db/engine.go      |  4 +++-
 pkg/network/server.go | 18 ++++++++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index f430c4a..db3eb61 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -158,7 +158,7 @@ Outer:
 				if errors.Is(err, concurrency.ErrChannelClosed) {
 					break Outer
 				} else {
-					common.Warnf("unexpected error. event_id=%s, err=%+v", event.ID(), err)
+					common.Warnf("unexpected error. err=%+v", err)
 					break
 				}
 			}
@@ -209,6 +209,8 @@ func (e *engine) Stop() {
 		_ = e.file.Flush()
 	}
 	close(e.shutChan)
+	// the notice of the removed topic may not have reached a busy engine
+	e.requestReceiver.Close()
 }
 
 func (e *engine) writeLog(name string, index int, objects []protocol.RedisObject) {
diff --git a/pkg/network/server.go b/pkg/network/server.go
index fc0299e..2832c4b 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -243,22 +243,22 @@ Outer:
 		default:
 			event, err := s.responseReceiver.Receive()
 
-			eventErr := event.Error()
-			if eventErr != nil {
-				if errors.Is(eventErr, concurrency.ErrTopicRemoved) {
-					break Outer
-				}
-			}
-
 			if err != nil {
 				if errors.Is(err, concurrency.ErrChannelClosed) {
 					break Outer
 				} else {
-					common.Warnf("unexpected error. event_id=%s, err=%+v", event.ID(), err)
+					common.Warnf("unexpected error. err=%+v", err)
 					break
 				}
 			}
 
+			eventErr := event.Error()
+			if eventErr != nil {
+				if errors.Is(eventErr, concurrency.ErrTopicRemoved) {
+					break Outer
+				}
+			}
+
 			data, ok := event.Data().(types.DataMap)
 			if !ok {
 				_ = common.Errorf("data from event is not an DataMap. event_id=%s, raw_type=%s", event.ID(), reflect.TypeOf(data).String())
@@ -293,6 +293,8 @@ func (s *server) stop() {
 
 		s.eventBus.RemoveTopic("request")
 		s.eventBus.RemoveTopic("response")
+		// the notice may not have reached a busy worker
+		s.responseReceiver.Close()
 
 		_ = s.tcpListener.Close()
 
-- 
2.43.0


From 51971357d5f418476557869a44c16069126f2932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 29/49] fix: answer and close a connection whose stream is not
 RESP

---
 pkg/network/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 2832c4b..4b11240 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -201,6 +201,9 @@ func (s *server) newConn(conn net.Conn) {
 				return
 			} else if err != nil {
 				common.Warnf("server: new conn with error. addr=%s, err=%s", c.Addr(), err.Error())
+				// the rest of the stream cannot be told apart anymore
+				_ = c.Write(protocol.NewRedisError("ERR invalid request").String())
+				_ = c.Close()
 				return
 			}
 
-- 
2.43.0


From b19c3cbf9ed27de4bc01c8ee07a416fc734f33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:52 +0000
Subject: [PATCH 30/49] fix: answer a request that is not an array

---
 pkg/db/engine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index db3eb61..72d5983 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -182,12 +182,15 @@ Outer:
 
 			if !ok {
 				_ = common.Errorf("parse data from DataMap failed. event_id=%s, raw_data=%+v", event.ID(), data)
-				break
+				if id == "" {
+					break
+				}
 			}
 
 			responseMap := types.NewSimpleDataMap()
 			responseMap.Set("id", id)
 
+			// a request that is not an array has no objects
 			ret, err := e.handleRequest(objects)
 
 			if err != nil {
-- 
2.43.0


From 6c93b4973f80faffc9b4e6d6d04dcbda8b46ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 31/49] fix: requests and responses keep their order

---
 pkg/db/engine.go      |  3 ++-
 pkg/network/server.go | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 72d5983..397f0f6 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -199,7 +199,8 @@ Outer:
 				responseMap.Set("response", ret)
 			}
 
-			e.eventBus.Publish("response", responseMap, err)
+			// the next response must not overtake this one
+			_, _ = e.eventBus.Publish("response", responseMap, err).Get()
 		}
 	}
 }
diff --git a/pkg/network/server.go b/pkg/network/server.go
index 4b11240..7942e31 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -211,11 +211,29 @@ func (s *server) newConn(conn net.Conn) {
 			dataMap.Set("id", c.ID())
 			dataMap.Set("request", request)
 
-			concurrency.GetEventBus().Publish("request", dataMap, nil)
+			// the engine must take it before the next request
+			if !s.deliver(dataMap) {
+				_ = c.Close()
+				return
+			}
 		}
 	}()
 }
 
+// deliver hands a request to the engine, which may be busy for longer than the hand-off lasts
+func (s *server) deliver(request types.DataMap) bool {
+	for atomic.LoadInt32(&s.shutdown) == 0 {
+		n, err := s.eventBus.Publish("request", request, nil).Get()
+		if err != nil {
+			return false
+		} else if n.(int) > 0 {
+			return true
+		}
+	}
+
+	return false
+}
+
 func parseResponse(data types.DataMap) (id string, obj protocol.RedisObject, ok bool) {
 	i, ok := data.Get("id")
 	if !ok {
-- 
2.43.0


From cb86bef749c7659e85c3fc648e663235f22309e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 32/49] fix: the reply to a broken stream does not overtake
 earlier replies

---
 pkg/db/engine.go      |  3 +++
 pkg/network/server.go | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 397f0f6..c143fd9 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -189,6 +189,9 @@ Outer:
 
 			responseMap := types.NewSimpleDataMap()
 			responseMap.Set("id", id)
+			if data.Has("last") {
+				responseMap.Set("last", true)
+			}
 
 			// a request that is not an array has no objects
 			ret, err := e.handleRequest(objects)
diff --git a/pkg/network/server.go b/pkg/network/server.go
index 7942e31..2fbd428 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -201,14 +201,21 @@ func (s *server) newConn(conn net.Conn) {
 				return
 			} else if err != nil {
 				common.Warnf("server: new conn with error. addr=%s, err=%s", c.Addr(), err.Error())
-				// the rest of the stream cannot be told apart anymore
-				_ = c.Write(protocol.NewRedisError("ERR invalid request").String())
-				_ = c.Close()
-				return
 			}
 
 			dataMap := types.NewSimpleDataMap()
 			dataMap.Set("id", c.ID())
+
+			if err != nil {
+				// the rest of the stream cannot be told apart anymore, its reply is the last
+				dataMap.Set("request", protocol.NewRedisErrorFromGoError(err))
+				dataMap.Set("last", true)
+				if !s.deliver(dataMap) {
+					_ = c.Close()
+				}
+				return
+			}
+
 			dataMap.Set("request", request)
 
 			// the engine must take it before the next request
@@ -300,6 +307,9 @@ Outer:
 					_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", conn.(Conn).Addr(), obj.String())
 					break
 				}
+				if data.Has("last") {
+					_ = conn.(Conn).Close()
+				}
 			} else {
 				_ = common.Errorf("conn not exist. id=%s", id)
 			}
-- 
2.43.0


From 6c3d4a39a5e364f69ce2e54c4aac01550e5422fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 33/49] fix: cut an incomplete record before appending to the
 log

---
 pkg/log/log.go        | 16 ++++++++++++++--
 pkg/network/server.go |  8 ++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/log/log.go b/pkg/log/log.go
index a8b902b..480aee9 100644
--- a/pkg/log/log.go
+++ b/pkg/log/log.go
@@ -81,8 +81,19 @@ func PackLog(vl *VertexLog) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// IncompleteError will be returned if the log ends inside a record
+type IncompleteError struct {
+	// Complete is the number of bytes before that record
+	Complete int64
+}
+
+func (e *IncompleteError) Error() string {
+	return "unexpected eof when parsing log"
+}
+
 type logReader struct {
-	reader *bufio.Reader
+	reader   *bufio.Reader
+	complete int64 // bytes of the records read so far
 }
 
 // ParseLog will parse a log from a io.Reader which can be a file or net stream
@@ -99,7 +110,7 @@ func ParseLog(reader io.Reader) ([]*VertexLog, error) {
 			if errors.Is(err, io.EOF) {
 				break
 			} else if errors.Is(err, errUnexpectedEOF) {
-				return ret, fmt.Errorf("unexpected eof when parsing log")
+				return ret, &IncompleteError{Complete: lr.complete}
 			} else if errors.Is(err, errInvalidMessage) {
 				// Try parse more
 				continue
@@ -140,6 +151,7 @@ func (lr *logReader) readLog() (*VertexLog, error) {
 		return nil, err
 	}
 
+	lr.complete += int64(4 + length)
 	v := &VertexLog{}
 
 	if err := proto.Unmarshal(logByte, v); err != nil {
diff --git a/pkg/network/server.go b/pkg/network/server.go
index 2fbd428..d4d3917 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -390,6 +390,14 @@ func (s *server) fromFile(file string) {
 	if err != nil {
 		common.Warnf("parse log failed. file=%s, err=%s", file, err.Error())
 		// May contains incomplete log here, so we not return
+
+		// New logs must not follow an incomplete one
+		var incomplete *log.IncompleteError
+		if errors.As(err, &incomplete) {
+			if err := f.Truncate(incomplete.Complete); err != nil {
+				common.Warnf("cut incomplete log failed. file=%s, err=%s", file, err.Error())
+			}
+		}
 	}
 
 	if len(logs) > 0 {
-- 
2.43.0


From 8ea5884a92199875a6cf17e466a5c1518b2050b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 34/49] fix: close the connection to the master after the sync

---
 pkg/network/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index d4d3917..73893ab 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -363,6 +363,8 @@ func (s *server) fromMaster(addr string) {
 		return
 	}
 
+	defer func() { _ = conn.Close() }()
+
 	r := replication.NewReplica(conn)
 	logs, err := r.Receive()
 
-- 
2.43.0


From 2ff6f2f010a80222becea8168b238c064a9cf36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 35/49] fix: stopping the master closes its listener and keeps
 the lock

---
 pkg/replication/master.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 3067cae..2cbec77 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -82,8 +82,10 @@ func (m *master) start() {
 
 func (m *master) stop() {
 	if atomic.CompareAndSwapInt32(&m.shutdown, 0, 1) {
+		_ = m.listener.Close()
+
 		m.mutex.Lock()
-		m.mutex.Unlock()
+		defer m.mutex.Unlock()
 
 		for _, conn := range m.conn {
 			_ = conn.Close()
-- 
2.43.0


From 99e4557784d5dfd020debc6dfaa4ae83e4025b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 36/49] fix: every sync releases its connection and files

---
 pkg/replication/master.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 2cbec77..f20b91b 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -94,18 +94,29 @@ func (m *master) stop() {
 }
 
 func (m *master) handleConn(conn net.Conn) {
+	addr := conn.RemoteAddr().String()
+	defer func() { _ = conn.Close() }()
+
 	if m.file == nil {
 		_ = common.Errorf("no file provided.")
 		return
 	}
 
-	addr := conn.RemoteAddr().String()
-	defer func() { _ = conn.Close() }()
-
 	m.mutex.Lock()
+	if atomic.LoadInt32(&m.shutdown) == 1 {
+		// stop has already closed the others
+		m.mutex.Unlock()
+		return
+	}
 	m.conn[addr] = conn
 	m.mutex.Unlock()
 
+	defer func() {
+		m.mutex.Lock()
+		delete(m.conn, addr)
+		m.mutex.Unlock()
+	}()
+
 	filePath := fmt.Sprintf("/tmp/vertex/%s", util.GenNewUUID())
 	tmpFile, err := os.Create(filePath)
 	if err != nil {
@@ -129,6 +140,7 @@ func (m *master) handleConn(conn net.Conn) {
 		_ = common.Errorf("open raw file failed. addr=%s, path=%s, raw_path=%s, err=%s", addr, filePath, m.filePath, err.Error())
 		return
 	}
+	defer func() { _ = rawFile.Close() }()
 
 	n, err := io.Copy(tmpFile, rawFile)
 	if err != nil {
@@ -172,10 +184,6 @@ func (m *master) handleConn(conn net.Conn) {
 		_ = common.Errorf("write length of file failed. written=%d, addr=%s, path=%s, err=%s", n, addr, filePath, err.Error())
 		return
 	}
-
-	m.mutex.Lock()
-	delete(m.conn, addr)
-	m.mutex.Unlock()
 }
 
 func (m *master) Start() {
-- 
2.43.0


From 0e6d7f899cdd2c47d5c45d0a16af794b11fb1613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 37/49] fix: a sync sends whole records only

---
 pkg/log/persistent.go     | 17 +++++++++++++++++
 pkg/replication/master.go |  5 +++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/log/persistent.go b/pkg/log/persistent.go
index cbb7353..6c4919c 100644
--- a/pkg/log/persistent.go
+++ b/pkg/log/persistent.go
@@ -49,6 +49,23 @@ func (p *PersistentFile) Flush() error {
 	return p.writer.Flush()
 }
 
+// FlushedSize flushes and returns the size of the file, which then holds whole writes only.
+func (p *PersistentFile) FlushedSize() (int64, error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+
+	if err := p.writer.Flush(); err != nil {
+		return 0, err
+	}
+
+	s, err := p.file.Stat()
+	if err != nil {
+		return 0, err
+	}
+
+	return s.Size(), nil
+}
+
 // ReadFrom do what?
 // Not to proxy it here.
 
diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index f20b91b..0dd1281 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -129,7 +129,8 @@ func (m *master) handleConn(conn net.Conn) {
 		_ = os.Remove(filePath)
 	}()
 
-	err = m.file.Flush()
+	// Logs may be appended while the file is copied, the last of them maybe not completely
+	size, err := m.file.FlushedSize()
 	if err != nil {
 		_ = common.Errorf("save to file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
 		return
@@ -142,7 +143,7 @@ func (m *master) handleConn(conn net.Conn) {
 	}
 	defer func() { _ = rawFile.Close() }()
 
-	n, err := io.Copy(tmpFile, rawFile)
+	n, err := io.Copy(tmpFile, io.LimitReader(rawFile, size))
 	if err != nil {
 		_ = common.Errorf("copy file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
 		return
-- 
2.43.0


From 5334604c349e10c5bc655b887092ed699356afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 38/49] fix: the client sends every word and quoted string of a
 line, or refuses it

---
 cmd/client/internal/codec.go | 44 +++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/cmd/client/internal/codec.go b/cmd/client/internal/codec.go
index ed126fc..6f9d6db 100644
--- a/cmd/client/internal/codec.go
+++ b/cmd/client/internal/codec.go
@@ -11,45 +11,45 @@ import (
 	"github.com/lxdlam/vertex/pkg/protocol"
 )
 
+var errUnterminatedQuote = errors.New("a quote is not closed")
+
 func FormatInput(input string) (string, error) {
 	var arr []protocol.RedisObject
 	reader := bufio.NewReader(strings.NewReader(input))
 
 	for {
-		s, err := parseString(reader)
-
-		if err != nil {
-			if errors.Is(err, io.EOF) {
-				if s != "" {
-					arr = append(arr, protocol.NewBulkRedisString(s))
-				}
-				break
-			} else {
-				return "", err
-			}
-		}
+		s, ok, err := parseString(reader)
 
-		if s != "" {
+		if ok {
 			arr = append(arr, protocol.NewBulkRedisString(s))
 		}
+
+		if errors.Is(err, io.EOF) {
+			break
+		} else if err != nil {
+			return "", err
+		}
 	}
 
 	return protocol.NewRedisArray(arr).String(), nil
 }
 
-func parseString(reader *bufio.Reader) (string, error) {
+// parseString reads the next word or quoted string; ok is false if there is none.
+func parseString(reader *bufio.Reader) (s string, ok bool, err error) {
 	var buf bytes.Buffer
 	for {
 		b, e := reader.ReadByte()
 		if e != nil {
-			if errors.Is(e, io.EOF) {
-				return buf.String(), e
-			}
-			return "", e
+			return buf.String(), buf.Len() > 0, e
 		}
 
 		if b == '"' {
-			return parseQuote(reader)
+			if buf.Len() > 0 {
+				// the word ends here
+				return buf.String(), true, reader.UnreadByte()
+			}
+			s, err = parseQuote(reader)
+			return s, err == nil, err
 		} else if b == ' ' {
 			break
 		}
@@ -57,14 +57,16 @@ func parseString(reader *bufio.Reader) (string, error) {
 		buf.WriteByte(b)
 	}
 
-	return buf.String(), nil
+	return buf.String(), buf.Len() > 0, nil
 }
 
 func parseQuote(reader *bufio.Reader) (string, error) {
 	var buf bytes.Buffer
 	for {
 		b, e := reader.ReadByte()
-		if e != nil {
+		if errors.Is(e, io.EOF) {
+			return "", errUnterminatedQuote
+		} else if e != nil {
 			return "", e
 		} else if b == '"' {
 			break
-- 
2.43.0


From d58df7fe11e74252f3d602f46307eb8b90d6eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 39/49] fix: the client prints different replies differently

---
 cmd/client/internal/codec.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/client/internal/codec.go b/cmd/client/internal/codec.go
index 6f9d6db..917b7be 100644
--- a/cmd/client/internal/codec.go
+++ b/cmd/client/internal/codec.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"strconv"
 	"strings"
 
 	"github.com/lxdlam/vertex/pkg/protocol"
@@ -102,7 +103,7 @@ func formatString(obj protocol.RedisString) string {
 		return "(nil)"
 	}
 
-	return fmt.Sprintf("\"%s\"", obj.Data())
+	return strconv.Quote(obj.Data())
 }
 
 func formatError(obj protocol.RedisError) string {
@@ -114,14 +115,17 @@ func formatInteger(obj protocol.RedisInteger) string {
 }
 
 func formatArray(obj protocol.RedisArray) string {
-	if obj.String() == protocol.NullArrayLiteral {
+	if obj.String() == protocol.NullArrayLiteral || len(obj.Data()) == 0 {
 		return "(empty list or set)"
 	}
 
 	var ret []string
 
 	for idx, item := range obj.Data() {
-		ret = append(ret, fmt.Sprintf("%d) %s", idx+1, FormatOutput(item)))
+		prefix := fmt.Sprintf("%d) ", idx+1)
+		// the lines of an inner list stay below its number
+		indent := "\n" + strings.Repeat(" ", len(prefix))
+		ret = append(ret, prefix+strings.ReplaceAll(FormatOutput(item), "\n", indent))
 	}
 
 	return strings.Join(ret, "\n")
-- 
2.43.0


From 195ff8a97acf658c46e998d77f4b31b017499bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 40/49] fix: clients that have left are forgotten, also when
 their last reply cannot be sent

---
 pkg/network/server.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 73893ab..69aaf9a 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -198,6 +198,7 @@ func (s *server) newConn(conn net.Conn) {
 			request, err := c.Read()
 			if errors.Is(err, ErrConnIsClosed) {
 				common.Infof("client %s is leaving", c.Addr())
+				s.drop(c)
 				return
 			} else if err != nil {
 				common.Warnf("server: new conn with error. addr=%s, err=%s", c.Addr(), err.Error())
@@ -211,7 +212,7 @@ func (s *server) newConn(conn net.Conn) {
 				dataMap.Set("request", protocol.NewRedisErrorFromGoError(err))
 				dataMap.Set("last", true)
 				if !s.deliver(dataMap) {
-					_ = c.Close()
+					s.drop(c)
 				}
 				return
 			}
@@ -220,13 +221,19 @@ func (s *server) newConn(conn net.Conn) {
 
 			// the engine must take it before the next request
 			if !s.deliver(dataMap) {
-				_ = c.Close()
+				s.drop(c)
 				return
 			}
 		}
 	}()
 }
 
+// drop closes the connection of a client and forgets it
+func (s *server) drop(c Conn) {
+	_ = c.Close()
+	s.clients.Delete(c.ID())
+}
+
 // deliver hands a request to the engine, which may be busy for longer than the hand-off lasts
 func (s *server) deliver(request types.DataMap) bool {
 	for atomic.LoadInt32(&s.shutdown) == 0 {
@@ -305,10 +312,9 @@ Outer:
 			if ok {
 				if err := conn.(Conn).Write(obj.String()); err != nil {
 					_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", conn.(Conn).Addr(), obj.String())
-					break
 				}
 				if data.Has("last") {
-					_ = conn.(Conn).Close()
+					s.drop(conn.(Conn))
 				}
 			} else {
 				_ = common.Errorf("conn not exist. id=%s", id)
-- 
2.43.0


From 09b6070365521b99ef491a3b4e98fb32aa737ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 41/49] fix: a new member of a sorted set is linked on its own
 levels only

---
 pkg/container/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/container/sorted_set.go b/pkg/container/sorted_set.go
index d13a7cb..759ab93 100644
--- a/pkg/container/sorted_set.go
+++ b/pkg/container/sorted_set.go
@@ -155,7 +155,7 @@ func (sl *skipList) insert(score float64, entry *StringContainer) {
 	// |               | rank[0] - rank[level] + 1 |               | update[level].next[level].span - (rank[0] - rank[level]) |               |
 	// |               |                           |               |                                                          |               |
 	// +---------------+                           +---------------+                                                          +---------------+
-	for level := 0; level < sl.level; level++ {
+	for level := 0; level < newLevel; level++ {
 		cur.next = append(cur.next, skipListLevel{})
 		cur.next[level].node = update[level].next[level].node
 		update[level].next[level].node = cur
-- 
2.43.0


From cfb84f39bb90b975b2f4827fa6fe2672070d0b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 42/49] fix: removing a member of a sorted set left its
 successor pointing back at it

---
 pkg/container/sorted_set.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/container/sorted_set.go b/pkg/container/sorted_set.go
index 759ab93..6fc2f40 100644
--- a/pkg/container/sorted_set.go
+++ b/pkg/container/sorted_set.go
@@ -188,6 +188,8 @@ func (sl *skipList) delete(node *skipListNode, update []*skipListNode) {
 		}
 	}
 
+	node.next[0].node.prev = node.prev
+
 	for sl.level > 1 && sl.head.next[sl.level-1].node == sl.tail {
 		sl.level--
 	}
-- 
2.43.0


From 928115ebef7303bfa55981f7a5c021b12329ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 43/49] fix: removing a member of a sorted set looked for it
 past its place

---
 pkg/container/sorted_set.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/container/sorted_set.go b/pkg/container/sorted_set.go
index 6fc2f40..bb1f553 100644
--- a/pkg/container/sorted_set.go
+++ b/pkg/container/sorted_set.go
@@ -70,6 +70,11 @@ func (sln *skipListNode) release() {
 	}
 }
 
+// isBefore reports whether the node comes before the other one in the order of the list
+func (sln *skipListNode) isBefore(other *skipListNode) bool {
+	return sln.score < other.score || (sln.score == other.score && sln.data.CompareTo(other.data) < 0)
+}
+
 type skipList struct {
 	key   string
 	head  *skipListNode
@@ -204,7 +209,7 @@ func (sl *skipList) deleteNode(node *skipListNode) {
 
 	cur := sl.head
 	for level := sl.level - 1; level >= 0; level-- {
-		for cur.next[level].node != sl.tail && cur.next[level].node != node {
+		for cur.next[level].node != sl.tail && cur.next[level].node.isBefore(node) {
 			cur = cur.next[level].node
 		}
 
-- 
2.43.0


From e1d5edb220c85317045dab9c69df6c40959ad27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 44/49] fix: the rank of a member of a sorted set ran past the
 end

---
 pkg/container/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/container/sorted_set.go b/pkg/container/sorted_set.go
index bb1f553..34966b9 100644
--- a/pkg/container/sorted_set.go
+++ b/pkg/container/sorted_set.go
@@ -223,7 +223,7 @@ func (sl *skipList) getRank(node *skipListNode) int {
 	rank := 0
 	cur := sl.head
 	for level := sl.level - 1; level >= 0; level-- {
-		for cur.next[level].node != sl.tail || cur.next[level].node != node {
+		for cur.next[level].node != sl.tail && cur.next[level].node.isBefore(node) {
 			rank += cur.next[level].span
 			cur = cur.next[level].node
 		}
-- 
2.43.0


From ca5743058c09ea7103548b8a16b334f39b95dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:24 +0000
Subject: [PATCH 45/49] fix: a database file that cannot be read or repaired is
 not written to

---
 pkg/network/server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index 69aaf9a..033f3ef 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -391,10 +391,10 @@ func (s *server) fromFile(file string) {
 		return
 	}
 
-	s.engine.SetFile(f, file)
 	reader := bufio.NewReader(f)
 	logs, err := log.ParseLog(reader)
 
+	usable := err == nil
 	if err != nil {
 		common.Warnf("parse log failed. file=%s, err=%s", file, err.Error())
 		// May contains incomplete log here, so we not return
@@ -404,10 +404,19 @@ func (s *server) fromFile(file string) {
 		if errors.As(err, &incomplete) {
 			if err := f.Truncate(incomplete.Complete); err != nil {
 				common.Warnf("cut incomplete log failed. file=%s, err=%s", file, err.Error())
+			} else {
+				usable = true
 			}
 		}
 	}
 
+	// New logs must not follow what cannot be read either
+	if usable {
+		s.engine.SetFile(f, file)
+	} else {
+		_ = f.Close()
+	}
+
 	if len(logs) > 0 {
 		s.engine.BuildFromLog(logs)
 	}
-- 
2.43.0


From 9f42293fcb201c1408fd046b7903d931cfacb160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 46/49] fix: accept lines of any length in the client program

The scanner's default limit of 64 KiB ended the session silently.
---
 cmd/client/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/client/main.go b/cmd/client/main.go
index d199918..cabfb20 100644
--- a/cmd/client/main.go
+++ b/cmd/client/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"net"
 	"os"
 
@@ -15,6 +16,7 @@ const prompt = ">>> "
 
 func main() {
 	scanner := bufio.NewScanner(os.Stdin)
+	scanner.Buffer(nil, math.MaxInt)
 
 	c, err := net.Dial("tcp", "127.0.0.1:6789")
 	if err != nil {
-- 
2.43.0


From adcfe57dada297127627c26731a5159d7811db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 47/49] fix: format log messages with their arguments

The argument list was passed on as one argument, and %w, which only
errors can have, was left to the logger.
---
 pkg/common/logging.go | 18 ++++++++++--------
 pkg/db/engine.go      |  4 ++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkg/common/logging.go b/pkg/common/logging.go
index 838894c..a3dd66c 100644
--- a/pkg/common/logging.go
+++ b/pkg/common/logging.go
@@ -98,7 +98,7 @@ func Debug(log string) {
 // Debugf works like Printf and works same as Debug
 func Debugf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Debugf(template, a)
+		logger.Debugf(template, a...)
 	}
 }
 
@@ -112,7 +112,7 @@ func Info(log string) {
 // Infof works like Printf and works same as Info
 func Infof(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Infof(template, a)
+		logger.Infof(template, a...)
 	}
 }
 
@@ -126,7 +126,7 @@ func Warn(log string) {
 // Warnf works like Printf and works same as Warn
 func Warnf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Warnf(template, a)
+		logger.Warnf(template, a...)
 	}
 }
 
@@ -141,11 +141,13 @@ func Error(log string) error {
 
 // Errorf works like Printf and works same as Error
 func Errorf(template string, a ...interface{}) error {
+	err := fmt.Errorf(template, a...)
+
 	if logger != nil {
-		logger.Errorf(template, a...)
+		logger.Error(err.Error())
 	}
 
-	return fmt.Errorf(template, a...)
+	return err
 }
 
 // Panic will generate a new panic log into to the logger,
@@ -159,7 +161,7 @@ func Panic(log string) {
 // Panicf works like Printf and works same as Panic
 func Panicf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Panicf(template, a)
+		logger.Panicf(template, a...)
 	}
 }
 
@@ -174,7 +176,7 @@ func Fatal(log string) {
 // Fatalf works like Printf and works same as Fatal
 func Fatalf(template string, a ...interface{}) {
 	if logger != nil {
-		_, _ = fmt.Fprintf(os.Stderr, "Fatal: "+template+"\n", a)
-		logger.Fatalf(template, a)
+		_, _ = fmt.Fprintf(os.Stderr, "Fatal: "+template+"\n", a...)
+		logger.Fatalf(template, a...)
 	}
 }
diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index c143fd9..e24fabb 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -252,7 +252,7 @@ func (e *engine) BuildFromLog(logs []*log.VertexLog) {
 		c, err := command.NewCommand(vl.Name, int(vl.Index), arguments)
 
 		if err != nil || c == nil {
-			common.Warnf("rebuild: new command gives error, log=%s, error={%w}", log.FormatLog(vl), err)
+			common.Warnf("rebuild: new command gives error, log=%s, error={%v}", log.FormatLog(vl), err)
 			continue
 		}
 
@@ -261,7 +261,7 @@ func (e *engine) BuildFromLog(logs []*log.VertexLog) {
 
 		_, err = c.Result()
 		if err != nil {
-			common.Warnf("rebuild: execute gives error, log=%s, error={%w}", log.FormatLog(vl), err)
+			common.Warnf("rebuild: execute gives error, log=%s, error={%v}", log.FormatLog(vl), err)
 			continue
 		}
 
-- 
2.43.0


From 109e2731d4818a4a55e6b6acf5234be3363df10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 48/49] fix: panic in Panic and Panicf also without a log

---
 pkg/common/logging.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/common/logging.go b/pkg/common/logging.go
index a3dd66c..147de34 100644
--- a/pkg/common/logging.go
+++ b/pkg/common/logging.go
@@ -156,6 +156,8 @@ func Panic(log string) {
 	if logger != nil {
 		logger.Panic(log)
 	}
+
+	panic(log)
 }
 
 // Panicf works like Printf and works same as Panic
@@ -163,6 +165,8 @@ func Panicf(template string, a ...interface{}) {
 	if logger != nil {
 		logger.Panicf(template, a...)
 	}
+
+	panic(fmt.Sprintf(template, a...))
 }
 
 // Fatal will generate a new fatal log into to the logger
-- 
2.43.0


From e6bfb3e3e08e50fd91d588370dea91678cf544d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:00 +0000
Subject: [PATCH 49/49] fix: make the global random generator safe to share
 between goroutines

---
 pkg/util/random_provider.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pkg/util/random_provider.go b/pkg/util/random_provider.go
index 011f56e..21cda57 100644
--- a/pkg/util/random_provider.go
+++ b/pkg/util/random_provider.go
@@ -16,10 +16,30 @@ func GetNewRandom() *rand.Rand {
 	return r
 }
 
+// lockedSource is a rand.Source that can be shared by goroutines
+type lockedSource struct {
+	mutex  sync.Mutex
+	source rand.Source
+}
+
+func (s *lockedSource) Int63() int64 {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
+	return s.source.Int63()
+}
+
+func (s *lockedSource) Seed(seed int64) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
+	s.source.Seed(seed)
+}
+
 // GetGlobalRandom returns the global random generator while the seed is properly set
 func GetGlobalRandom() *rand.Rand {
 	once.Do(func() {
-		source = rand.NewSource(time.Now().UTC().UnixNano())
+		source = &lockedSource{source: rand.NewSource(time.Now().UTC().UnixNano())}
 		globalRand = rand.New(source)
 	})
 
-- 
2.43.0

