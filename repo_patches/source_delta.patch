From 3dd808c3a9a2cf6ee33a6b06a7cb425e6618d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 01/44] fix: removing the song at index len(playlist) no longer
 panics

---
 playback/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 97d81ef..06010a7 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -198,7 +198,7 @@ func (pl *Playlist) RemoveSong(index int) string {
 		index = 0
 	}
 	var removed string
-	if len(pl.songs) < index {
+	if len(pl.songs) <= index {
 		removed = pl.songs[len(pl.songs)-1]
 		pl.songs = pl.songs[:len(pl.songs)-1]
 	} else {
-- 
2.43.0


From d90be9987b1a3e3420cefb443d05ac228a738e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 02/44] fix: jumping to a negative position no longer crashes
 the server

---
 playback/playlist.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 06010a7..eb07e51 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -66,7 +66,7 @@ func (pl *Playlist) nextSong() (song string) {
 	if len(pl.songs) == 0 {
 		return ""
 	}
-	pos := pl.position % len(pl.songs)
+	pos := wrapPosition(pl.position, len(pl.songs))
 	pl.position = pos
 	return pl.songs[pos]
 }
@@ -149,7 +149,16 @@ func (pl *Playlist) Pos() int {
 	if len(pl.songs) == 0 {
 		return 0
 	}
-	return pl.position % len(pl.songs)
+	return wrapPosition(pl.position, len(pl.songs))
+}
+
+// wrapPosition returns pos modulo length, which is never negative.
+func wrapPosition(pos int, length int) int {
+	pos %= length
+	if pos < 0 {
+		pos += length
+	}
+	return pos
 }
 
 // Songs returns all songs in the playlist.
-- 
2.43.0


From 326c2326f646376a19b487016ab7cf16cfed1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 03/44] fix: SetPos no longer blocks when no song is streaming

---
 playback/playlist.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index eb07e51..8c48ea7 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -139,7 +139,10 @@ func (pl *Playlist) callPauseToggleHandler() {
 // SetPos jumps to the song at pos.
 func (pl *Playlist) SetPos(pos int) {
 	pl.position = pos
-	pl.forceNext <- true
+	select {
+	case pl.forceNext <- true:
+	default: // enough jumps are already pending
+	}
 }
 
 // Pos returns the position of the song currently being played.
-- 
2.43.0


From de8229429a817c7d54d49e820e68d4cad4a1beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 04/44] fix: a jump racing with the end of a song is not
 advanced past

---
 playback/playlist.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 8c48ea7..7ac427c 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -17,6 +17,7 @@ type Playlist struct {
 	songs        []string
 	songsMutex   sync.RWMutex
 	position     int
+	posMutex     sync.Mutex
 	low          chan float64
 	high         chan float64
 	forceNext    chan bool
@@ -51,7 +52,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		s, err := getStreamer(filename)
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
-			pl.position++
+			pl.advance()
 			continue
 		}
 
@@ -66,6 +67,9 @@ func (pl *Playlist) nextSong() (song string) {
 	if len(pl.songs) == 0 {
 		return ""
 	}
+	pl.posMutex.Lock()
+	defer pl.posMutex.Unlock()
+	pl.takeJump()
 	pos := wrapPosition(pl.position, len(pl.songs))
 	pl.position = pos
 	return pl.songs[pos]
@@ -94,7 +98,9 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 }
 
 func (pl *Playlist) shouldBreakStreamerPushLoop(n int, ok bool, bufSize int) bool {
-	if 0 < len(pl.forceNext) && <-pl.forceNext {
+	pl.posMutex.Lock()
+	defer pl.posMutex.Unlock()
+	if pl.takeJump() {
 		return true
 	}
 
@@ -105,6 +111,24 @@ func (pl *Playlist) shouldBreakStreamerPushLoop(n int, ok bool, bufSize int) boo
 	return false
 }
 
+// advance moves on to the next song, unless a jump was requested since the current song was chosen.
+func (pl *Playlist) advance() {
+	pl.posMutex.Lock()
+	defer pl.posMutex.Unlock()
+	if !pl.takeJump() {
+		pl.position++
+	}
+}
+
+// takeJump consumes all pending jump requests and returns true if there were any. posMutex must be held.
+func (pl *Playlist) takeJump() bool {
+	jump := false
+	for 0 < len(pl.forceNext) {
+		jump = <-pl.forceNext || jump
+	}
+	return jump
+}
+
 func (pl *Playlist) pushNanSamples(count int) {
 	for i := 0; i < count; i++ {
 		pl.pushSample(math.NaN(), math.NaN())
@@ -138,6 +162,8 @@ func (pl *Playlist) callPauseToggleHandler() {
 
 // SetPos jumps to the song at pos.
 func (pl *Playlist) SetPos(pos int) {
+	pl.posMutex.Lock()
+	defer pl.posMutex.Unlock()
 	pl.position = pos
 	select {
 	case pl.forceNext <- true:
@@ -152,6 +178,8 @@ func (pl *Playlist) Pos() int {
 	if len(pl.songs) == 0 {
 		return 0
 	}
+	pl.posMutex.Lock()
+	defer pl.posMutex.Unlock()
 	return wrapPosition(pl.position, len(pl.songs))
 }
 
-- 
2.43.0


From a8982f78a0425f742354d2b6f8b472e7b3021df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 05/44] fix: the announced playing state is the one acted upon

---
 playback/playlist.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 7ac427c..41385ad 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -83,8 +83,7 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 
 	for {
 		n, ok := streamerBufferSize, true
-		pl.callPauseToggleHandler()
-		if pl.playing {
+		if pl.callPauseToggleHandler() {
 			n, ok = s.Stream(buf)
 			pl.pushBuffer(buf[:n])
 		} else {
@@ -153,11 +152,14 @@ func (pl *Playlist) pushSample(low, high float64) {
 	pl.sampleIndexWrite++
 }
 
-func (pl *Playlist) callPauseToggleHandler() {
-	if pl.playing != pl.playingLast && pl.pauseToggleHandler != nil {
-		pl.playingLast = pl.playing
-		go pl.pauseToggleHandler(pl.playing, pl.sampleIndexWrite)
+// callPauseToggleHandler announces a change of the playing state and returns the playing state it announced.
+func (pl *Playlist) callPauseToggleHandler() bool {
+	playing := pl.playing
+	if playing != pl.playingLast && pl.pauseToggleHandler != nil {
+		pl.playingLast = playing
+		go pl.pauseToggleHandler(playing, pl.sampleIndexWrite)
 	}
+	return playing
 }
 
 // SetPos jumps to the song at pos.
-- 
2.43.0


From 7887a25ed0abc7513c2ae51cc29af477f98cb663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 06/44] fix: the sample queue no longer loses wake-ups

The ring positions were changed and read under two locks and the condition
variable was signalled without holding its lock, so that a signal between
the check and the wait was lost. All state is now guarded by the lock of the
condition variable.
---
 playback/timed_sample_queue.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/playback/timed_sample_queue.go b/playback/timed_sample_queue.go
index 4f85177..28bcaf0 100644
--- a/playback/timed_sample_queue.go
+++ b/playback/timed_sample_queue.go
@@ -7,14 +7,12 @@ type timedSampleQueue struct {
 	head   int
 	tail   int
 
-	cond      *sync.Cond
-	headMutex sync.RWMutex
-	tailMutex sync.RWMutex
+	cond *sync.Cond // its lock guards buffer, head and tail
 }
 
 func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
-	q.headMutex.Lock()
-	defer q.headMutex.Unlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotFull()
 
@@ -25,8 +23,8 @@ func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
-	q.tailMutex.Lock()
-	defer q.tailMutex.Unlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotEmpty()
 
@@ -38,8 +36,8 @@ func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotEmpty()
 
@@ -48,10 +46,8 @@ func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Len() int {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
-	q.headMutex.RLock()
-	defer q.headMutex.RUnlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 	if q.tail <= q.head {
 		return q.head - q.tail
 	}
@@ -74,20 +70,18 @@ func (q *timedSampleQueue) empty() bool {
 	return q.head == q.tail
 }
 
+// waitNotFull waits until the queue is not full. The lock of cond must be held.
 func (q *timedSampleQueue) waitNotFull() {
-	q.cond.L.Lock()
 	for q.full() {
 		q.cond.Wait()
 	}
-	q.cond.L.Unlock()
 }
 
+// waitNotEmpty waits until the queue is not empty. The lock of cond must be held.
 func (q *timedSampleQueue) waitNotEmpty() {
-	q.cond.L.Lock()
 	for q.empty() {
 		q.cond.Wait()
 	}
-	q.cond.L.Unlock()
 }
 
 func newTimedSampleQueue(size int) *timedSampleQueue {
-- 
2.43.0


From 98c9e6998b7dc319237a9cf801ae76152d2e694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 07/44] fix: playback aligns to the first queued sample that is
 due

While aligning, the player kept playing background sound until a whole
buffer after the first queued sample was due and then dropped the overdue
samples, instead of starting with the first sample at its time.
---
 playback/streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index 65337e3..f23e3cf 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -62,7 +62,7 @@ func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n in
 		tms.samples.Remove()
 		s, t = tms.samples.Peek()
 	}
-	if now < t+tms.samplesDuration(len(samples)) {
+	if now+tms.samplesDuration(len(samples)) < t {
 		tms.background.Stream(samples)
 		return len(samples), false
 	} else if now < t {
-- 
2.43.0


From 7459c7ea1a2f3170aa6fd7dd6871ff1801d3b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 08/44] fix: the list of received chunks is only read under its
 lock

ReadChunks looked at the length of the list without its lock, and held the
lock while waiting for space in the sample queue, which blocked the receiver.
---
 playback/streamer.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index f23e3cf..6e676b9 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -80,13 +80,11 @@ func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n in
 
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
 	for !util.IsCanceled(ctx) {
-		if 0 < len(tms.chunks) {
-			tms.chunksMutex.RLock()
-			st := tms.chunks[0].startTime
-			for i, s := range tms.chunks[0].samples {
+		if chunk := tms.firstChunk(); chunk != nil {
+			st := chunk.startTime
+			for i, s := range chunk.samples {
 				tms.samples.Add(s, st+tms.samplesDuration(i))
 			}
-			tms.chunksMutex.RUnlock()
 			tms.chunksMutex.Lock()
 			tms.chunks = tms.chunks[1:]
 			tms.chunksMutex.Unlock()
@@ -96,6 +94,15 @@ func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
 	}
 }
 
+func (tms *timedMultiStreamer) firstChunk() *queuedChunk {
+	tms.chunksMutex.RLock()
+	defer tms.chunksMutex.RUnlock()
+	if len(tms.chunks) == 0 {
+		return nil
+	}
+	return tms.chunks[0]
+}
+
 func (tms *timedMultiStreamer) samplesDuration(n int) int64 {
 	return int64(tms.format.SampleRate.D(n) / time.Nanosecond)
 }
-- 
2.43.0


From 2d73c96ad15dc4d2aafa662ff3742e7572d8d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 09/44] fix: full scale samples no longer wrap to the other
 sign

A sample times volume of +1 was scaled to 32768, which does not fit into 16
bits and was converted to -32768.
---
 playback/playback.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index 4012462..d5af607 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"fmt"
 	"github.com/LogicalOverflow/music-sync/util"
+	"math"
 	"os"
 	"path"
 	"time"
@@ -139,13 +140,14 @@ func samplesToAudioBuf(samples [][2]float64, buf []byte) {
 }
 
 func convertSampleToBytes(val float64) (low, high byte) {
-	if val < -1 {
-		val = -1
+	val *= 1 << 15
+	if val < math.MinInt16 {
+		val = math.MinInt16
 	}
-	if val > +1 {
-		val = +1
+	if val > math.MaxInt16 {
+		val = math.MaxInt16
 	}
-	valInt16 := int16(val * (1 << 15))
+	valInt16 := int16(val)
 	low = byte(valInt16)
 	high = byte(valInt16 >> 8)
 	return
-- 
2.43.0


From bd3b0ad85ddd1c3b4a646dcd0196bb2f7392cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:11 +0000
Subject: [PATCH 10/44] fix: a time reply is added and evaluated in one
 critical section

The number of replies was looked at, and the offset was read, without the
lock: a reset of the replies between the check and the evaluation divided by
zero, and the clock could be read while it was being set.
---
 timing/timing.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timing/timing.go b/timing/timing.go
index 6ac7ec1..c04db48 100644
--- a/timing/timing.go
+++ b/timing/timing.go
@@ -12,10 +12,12 @@ var logger = log.GetLogger("time")
 
 var offset int64
 var offsets = make([]int64, 0)
-var offsetsMutex sync.Mutex
+var offsetsMutex sync.Mutex // guards offset and offsets
 
 // GetSyncedTime returns the current time, sync to the sever, with nanosecond precision
 func GetSyncedTime() int64 {
+	offsetsMutex.Lock()
+	defer offsetsMutex.Unlock()
 	return int64(monotime.Now()) + offset
 }
 
@@ -37,18 +39,16 @@ func UpdateOffset(clientSend, serverRecv, serverSend, clientRecv int64) {
 
 	calcOffset := ((serverRecv - clientSend) + (serverSend - clientRecv)) / 2
 	offsetsMutex.Lock()
+	defer offsetsMutex.Unlock()
 	offsets = append(offsets, calcOffset)
-	offsetsMutex.Unlock()
 
 	if len(offsets) == cap(offsets) {
-		offsetsMutex.Lock()
 		avg := big.NewInt(0)
 		for _, o := range offsets {
 			avg = new(big.Int).Add(avg, big.NewInt(o))
 		}
 		avg = new(big.Int).Div(avg, big.NewInt(int64(len(offsets))))
 		offset = avg.Int64()
-		offsetsMutex.Unlock()
 		logger.Infof("time synced: offset: %d", offset)
 	}
 }
-- 
2.43.0


From 5da04e6c248b2997476e422585e446ff22d70535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 11/44] fix: time replies beyond the expected ones do not
 change the offset

A reply arriving after the last expected one was appended as well, and once
the grown list was full all replies since the reset were averaged again.
---
 timing/timing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timing/timing.go b/timing/timing.go
index c04db48..bea4503 100644
--- a/timing/timing.go
+++ b/timing/timing.go
@@ -40,6 +40,9 @@ func UpdateOffset(clientSend, serverRecv, serverSend, clientRecv int64) {
 	calcOffset := ((serverRecv - clientSend) + (serverSend - clientRecv)) / 2
 	offsetsMutex.Lock()
 	defer offsetsMutex.Unlock()
+	if len(offsets) == cap(offsets) {
+		return // no reply is expected
+	}
 	offsets = append(offsets, calcOffset)
 
 	if len(offsets) == cap(offsets) {
-- 
2.43.0


From c779a68526fc52e2a418dafc12f82e4abb29ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 12/44] fix: malformed frames no longer crash the receiver

A frame with a negative or huge length made the allocation panic, the error
of reading the envelope was ignored, and data that is no zlib stream left a
nil reader behind. Messages are limited in size on both sides, so that
neither the length nor the decompression can exhaust the memory.
---
 comm/package_util.go | 49 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/comm/package_util.go b/comm/package_util.go
index ee2b73d..2c2e01e 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -14,6 +14,9 @@ import (
 
 const zlibLevel = 5
 
+// maxMessageSize is the maximum size of messages, compressed and uncompressed
+const maxMessageSize = 1 << 28
+
 func channelOf(m proto.Message) ([]Channel, bool) {
 	switch m.(type) {
 	case *QueueChunkRequest:
@@ -33,6 +36,10 @@ func toWire(m proto.Message) ([]byte, error) {
 		return nil, fmt.Errorf("failed to marshal inner protobuf (%s): %v", proto.MessageName(m), err)
 	}
 
+	if maxMessageSize < len(inner) {
+		return nil, fmt.Errorf("message too large (%s): %d bytes", proto.MessageName(m), len(inner))
+	}
+
 	compressed := bytes.NewBuffer([]byte{})
 	w, _ := zlib.NewWriterLevel(compressed, zlibLevel)
 	io.Copy(w, bytes.NewReader(inner))
@@ -48,6 +55,10 @@ func toWire(m proto.Message) ([]byte, error) {
 		return nil, fmt.Errorf("failed to marshal envelope protobuf: %v", err)
 	}
 
+	if maxMessageSize < len(env) {
+		return nil, fmt.Errorf("message too large (%s): %d bytes", proto.MessageName(m), len(env))
+	}
+
 	wire := make([]byte, len(env)+8)
 	binary.LittleEndian.PutUint64(wire[:8], uint64(len(env)))
 	copy(wire[8:], env)
@@ -60,8 +71,14 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	if err != nil {
 		return nil, err
 	}
-	size := int64(binary.LittleEndian.Uint64(sizeBuf))
-	env, err := readBytes(conn, size)
+	size := binary.LittleEndian.Uint64(sizeBuf)
+	if maxMessageSize < size {
+		return nil, fmt.Errorf("message too large: %d bytes", size)
+	}
+	env, err := readBytes(conn, int64(size))
+	if err != nil {
+		return nil, err
+	}
 
 	envelope := &Envelope{}
 	if err := proto.Unmarshal(env, envelope); err != nil {
@@ -74,17 +91,31 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	}
 	m := reflect.New(mType.Elem()).Interface().(proto.Message)
 
-	r, _ := zlib.NewReader(bytes.NewBuffer(envelope.Data))
-	data, _ := ioutil.ReadAll(r)
-	r.Close()
+	data, err := decompress(envelope.Data)
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
 
-	e := error(nil)
 	if err := proto.Unmarshal(data, m); err != nil {
-		m = nil
-		e = fmt.Errorf("failed to unmarshal inner protobuf (%s): %v", envelope.Type, err)
+		return nil, fmt.Errorf("failed to unmarshal inner protobuf (%s): %v", envelope.Type, err)
 	}
-	return m, e
+	return m, nil
+}
 
+func decompress(compressed []byte) ([]byte, error) {
+	r, err := zlib.NewReader(bytes.NewReader(compressed))
+	if err != nil {
+		return nil, err
+	}
+	defer r.Close()
+	data, err := ioutil.ReadAll(io.LimitReader(r, maxMessageSize+1))
+	if err != nil {
+		return nil, err
+	}
+	if maxMessageSize < len(data) {
+		return nil, fmt.Errorf("message too large: more than %d bytes", maxMessageSize)
+	}
+	return data, nil
 }
 
 func sendWire(m proto.Message, conn net.Conn) error {
-- 
2.43.0


From 65502578170c35790a1d05200154e17db6276eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 13/44] fix: subscriptions of closed connections are forgotten

They stayed in the registry for ever, and a subscription handled after its
connection was closed registered it again.
---
 comm/message_sender.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index b94e60c..478b24e 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -64,23 +64,29 @@ func (mms *multiMessageSender) DelConn(c net.Conn) {
 	mms.mutex.Lock()
 	defer mms.mutex.Unlock()
 
-	index := -1
+	if index := mms.indexOf(c); 0 <= index {
+		mms.connections[index] = mms.connections[len(mms.connections)-1]
+		mms.connections = mms.connections[:len(mms.connections)-1]
+	}
+	delete(mms.channels, c)
+}
+
+// indexOf returns the index of c in connections or -1. mutex must be held.
+func (mms *multiMessageSender) indexOf(c net.Conn) int {
 	for i, conn := range mms.connections {
 		if conn == c {
-			index = i
-			break
+			return i
 		}
 	}
-
-	if 0 <= index {
-		mms.connections[index] = mms.connections[len(mms.connections)-1]
-		mms.connections = mms.connections[:len(mms.connections)-1]
-	}
+	return -1
 }
 
 func (mms *multiMessageSender) Subscribe(c net.Conn, channel Channel) {
 	mms.mutex.Lock()
 	defer mms.mutex.Unlock()
+	if mms.indexOf(c) < 0 {
+		return // already closed
+	}
 	if l, ok := mms.channels[c]; ok {
 		mms.channels[c] = append(l, channel)
 	} else {
-- 
2.43.0


From 3dfeac008a495a9150d7cf7bcd1ae72969183ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:11 +0000
Subject: [PATCH 14/44] fix: subscribing before a new client handler is set no
 longer crashes

---
 comm/package_handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comm/package_handler.go b/comm/package_handler.go
index c57a5ac..2fb269f 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -101,7 +101,9 @@ func (s serverPackageHandler) HandleTimeSyncRequest(tsr *TimeSyncRequest, c net.
 
 func (s serverPackageHandler) HandleSubscribeChannelRequest(scr *SubscribeChannelRequest, c net.Conn) {
 	s.sender.Subscribe(c, scr.Channel)
-	NewClientHandler(scr.Channel, &singleMessageSender{c})
+	if NewClientHandler != nil {
+		NewClientHandler(scr.Channel, &singleMessageSender{c})
+	}
 }
 
 func (s serverPackageHandler) HandlePingMessage(_ *PingMessage, c net.Conn) { PingHandler(c) }
-- 
2.43.0


From cbde88f51c66afce1259a61a3757fd3ea1820f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 15/44] fix: old pauses are counted and removed in one critical
 section

---
 schedule/server_state.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 31587e0..4b6342a 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -108,14 +108,12 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 	}
 }
 
+// removablePauses returns the number of pauses that are no longer needed. pausesMutex must be held while ss is shared.
 func (ss *serverState) removablePauses() int {
 	if ss.newestSong == nil {
 		return 0
 	}
 
-	ss.pausesMutex.Lock()
-	defer ss.pausesMutex.Unlock()
-
 	passed := 0
 	for i, p := range ss.pauses {
 		inPast := ss.newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
@@ -129,11 +127,11 @@ func (ss *serverState) removablePauses() int {
 }
 
 func (ss *serverState) removeOldPauses() {
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
+
 	removable := ss.removablePauses()
 	if 0 < removable {
-		ss.pausesMutex.Lock()
-		defer ss.pausesMutex.Unlock()
-
 		copy(ss.pauses, ss.pauses[removable:])
 		for i := len(ss.pauses) - removable; i < len(ss.pauses); i++ {
 			ss.pauses[i] = nil
-- 
2.43.0


From eda9b23bec6d888695862b3e3284bc4e3c604c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:25 +0000
Subject: [PATCH 16/44] fix: pause toggles are remembered in order before they
 are announced

---
 schedule/server_state.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 4b6342a..69578e3 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -98,16 +98,20 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 			Playing:           playing,
 			ToggleSampleIndex: sample,
 		}
-		go func(pause *comm.PauseInfo) {
-			ss.pausesMutex.Lock()
-			defer ss.pausesMutex.Unlock()
-			ss.pauses = append(ss.pauses, pause)
-			go ss.removeOldPauses()
-		}(pause)
+		ss.addPause(pause)
 		ss.sender.SendMessage(pause)
 	}
 }
 
+// addPause remembers a pause toggle and forgets those no longer needed.
+func (ss *serverState) addPause(pause *comm.PauseInfo) {
+	ss.pausesMutex.Lock()
+	ss.pauses = append(ss.pauses, pause)
+	ss.pausesMutex.Unlock()
+
+	ss.removeOldPauses()
+}
+
 // removablePauses returns the number of pauses that are no longer needed. pausesMutex must be held while ss is shared.
 func (ss *serverState) removablePauses() int {
 	if ss.newestSong == nil {
-- 
2.43.0


From efe09b763abffa93fd740e4ec8aa08b969f7a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 17/44] fix: an invalid volume no longer changes the stored
 volume

---
 schedule/server_state_commands.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 3b4c302..c1a406e 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -162,11 +162,11 @@ func (ss *serverState) volumeCommand() ssh.Command {
 		Usage: "volume",
 		Info:  "set the playback volume",
 		ExecFunc: func(args []string) (string, bool) {
-			var ok bool
-			ss.volume, ok = parseFloatParam(args, 0)
+			volume, ok := parseFloatParam(args, 0)
 			if !ok {
 				return "", false
 			}
+			ss.volume = volume
 			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume}); err != nil {
 				return fmt.Sprintf("failed to set volume to %.3f: %v", ss.volume, err), true
 			}
-- 
2.43.0


From c7c5d887f0847cee0890b42418a3d41e8ff6c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 18/44] fix: the volume and the newest song are only accessed
 under a lock

---
 schedule/server_state.go          | 35 ++++++++++++++++++++++++-------
 schedule/server_state_commands.go |  2 ++
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 69578e3..1f26dbe 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -16,24 +16,41 @@ type serverState struct {
 	metadataProvider metadata.Provider
 
 	playlist *playback.Playlist
-	volume   float64
 
-	newestSong *comm.NewSongInfo
+	volume      float64
+	volumeMutex sync.RWMutex // held until the volume is sent, so that no client is left with an old one
+
+	newestSong      *comm.NewSongInfo
+	newestSongMutex sync.RWMutex
 
 	pauses      []*comm.PauseInfo
 	pausesMutex sync.RWMutex
 }
 
 func (ss *serverState) sendVolume(s comm.MessageSender) {
+	ss.volumeMutex.RLock()
+	defer ss.volumeMutex.RUnlock()
 	s.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume})
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
-	if ss.newestSong != nil {
-		s.SendMessage(ss.newestSong)
+	if song := ss.getNewestSong(); song != nil {
+		s.SendMessage(song)
 	}
 }
 
+func (ss *serverState) getNewestSong() *comm.NewSongInfo {
+	ss.newestSongMutex.RLock()
+	defer ss.newestSongMutex.RUnlock()
+	return ss.newestSong
+}
+
+func (ss *serverState) setNewestSong(song *comm.NewSongInfo) {
+	ss.newestSongMutex.Lock()
+	defer ss.newestSongMutex.Unlock()
+	ss.newestSong = song
+}
+
 func (ss *serverState) sendPauses(s comm.MessageSender) {
 	ss.pausesMutex.RLock()
 	for _, p := range ss.pauses {
@@ -77,7 +94,7 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 
 		md := ss.metadataProvider.CollectMetadata(filename)
 
-		ss.newestSong = &comm.NewSongInfo{
+		song := &comm.NewSongInfo{
 			FirstSampleOfSongIndex: startSampleIndex,
 			SongFileName:           filename,
 			SongLength:             songLength,
@@ -88,7 +105,8 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 				Album:  md.Album,
 			},
 		}
-		ss.sender.SendMessage(ss.newestSong)
+		ss.setNewestSong(song)
+		ss.sender.SendMessage(song)
 	}
 }
 
@@ -114,13 +132,14 @@ func (ss *serverState) addPause(pause *comm.PauseInfo) {
 
 // removablePauses returns the number of pauses that are no longer needed. pausesMutex must be held while ss is shared.
 func (ss *serverState) removablePauses() int {
-	if ss.newestSong == nil {
+	song := ss.getNewestSong()
+	if song == nil {
 		return 0
 	}
 
 	passed := 0
 	for i, p := range ss.pauses {
-		inPast := ss.newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
+		inPast := song.FirstSampleOfSongIndex < p.ToggleSampleIndex
 		if !inPast && p.Playing {
 			passed = i
 		} else if inPast {
diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index c1a406e..1af72c4 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -166,6 +166,8 @@ func (ss *serverState) volumeCommand() ssh.Command {
 			if !ok {
 				return "", false
 			}
+			ss.volumeMutex.Lock()
+			defer ss.volumeMutex.Unlock()
 			ss.volume = volume
 			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume}); err != nil {
 				return fmt.Sprintf("failed to set volume to %.3f: %v", ss.volume, err), true
-- 
2.43.0


From d271be6b37a9fc9f1871cf4eceb284a89fccc9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 19/44] fix: do not count pauses as passed before the first
 chunk plays

---
 cmd/music-sync-infoer/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index cba440d..e7aa625 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -75,7 +75,7 @@ type pausesInCurrentSongState struct {
 }
 
 func (picss *pausesInCurrentSongState) handlePause(sample int64, p pauseToggle, startIndex uint64) {
-	if uint64(sample) <= p.toggleIndex || picss.playing == p.playing {
+	if sample < 0 || uint64(sample) <= p.toggleIndex || picss.playing == p.playing {
 		return
 	}
 
-- 
2.43.0


From 415c2b6a6e7d7a02d461d6336c222161a8349bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:56 +0000
Subject: [PATCH 20/44] fix: keep pause toggles at the same index in their
 order of arrival

---
 cmd/music-sync-infoer/infoer_package_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/infoer_package_handler.go b/cmd/music-sync-infoer/infoer_package_handler.go
index 253ee22..8a36816 100644
--- a/cmd/music-sync-infoer/infoer_package_handler.go
+++ b/cmd/music-sync-infoer/infoer_package_handler.go
@@ -64,7 +64,7 @@ func (i *infoerPackageHandler) HandlePauseInfo(pauseInfo *comm.PauseInfo, _ net.
 		playing:     pauseInfo.Playing,
 		toggleIndex: pauseInfo.ToggleSampleIndex,
 	})
-	sort.Sort(pauseByToggleIndex(currentState.Pauses))
+	sort.Stable(pauseByToggleIndex(currentState.Pauses))
 }
 
 func (i *infoerPackageHandler) HandleSetVolumeRequest(svr *comm.SetVolumeRequest, _ net.Conn) {
-- 
2.43.0


From 4d993b13f5c5a66b61dcb48ba83185bb2b381b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 21/44] fix: drop old chunks and find the current sample in one
 critical section

---
 cmd/music-sync-infoer/state.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index e7aa625..7fc3e19 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -148,11 +148,12 @@ func (s *state) currentSong(sample int64) (currentSong upcomingSong) {
 
 func (s *state) currentSample(now int64) (sample int64) {
 	sample = 0
-	s.removeOldChunks(now)
 
 	s.ChunksMutex.Lock()
 	defer s.ChunksMutex.Unlock()
 
+	s.dropOldChunks(now)
+
 	if len(s.Chunks) != 0 {
 		timeInChunk := now - s.Chunks[0].startTime
 		sampleInChunk := int64(time.Duration(timeInChunk) * time.Nanosecond * time.Duration(schedule.SampleRate) / time.Second)
@@ -166,6 +167,11 @@ func (s *state) removeOldChunks(now int64) {
 	s.ChunksMutex.Lock()
 	defer s.ChunksMutex.Unlock()
 
+	s.dropOldChunks(now)
+}
+
+// dropOldChunks removes the chunks that ended before now. ChunksMutex must be held.
+func (s *state) dropOldChunks(now int64) {
 	if len(s.Chunks) == 0 {
 		return
 	}
-- 
2.43.0


From 6c76b06f415a53b7a06fc6acd68abb2b24e9357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 22/44] fix: show time and progress of a song at the very start
 of the stream

---
 cmd/music-sync-infoer/state.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index 7fc3e19..0e74f2f 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -40,14 +40,14 @@ func (s songsByStartIndex) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
 
 func (s *state) Info(now int64) *playbackInformation {
 	sample := s.currentSample(now)
-	currentSong := s.currentSong(sample)
+	currentSong, known := s.songAt(sample)
 	s.removeOldPauses(currentSong)
 	pausesInCurrentSong, playing := s.pausesInCurrentSong(sample, currentSong)
 
 	var songLength, timeInSong time.Duration
 	var progressInSong float64
 
-	if currentSong.startIndex != 0 && int64(currentSong.startIndex) < sample {
+	if known {
 		sampleInSong := sample - int64(currentSong.startIndex) - pausesInCurrentSong
 		timeInSong = time.Duration(sampleInSong) * time.Second / time.Duration(schedule.SampleRate) / time.Nanosecond
 		if 0 < currentSong.length {
@@ -132,13 +132,19 @@ func (s *state) removeOldPauses(currentSong upcomingSong) {
 }
 
 func (s *state) currentSong(sample int64) (currentSong upcomingSong) {
+	currentSong, _ = s.songAt(sample)
+	return
+}
+
+// songAt returns the song at sample, and whether there is one.
+func (s *state) songAt(sample int64) (currentSong upcomingSong, known bool) {
 	s.SongsMutex.Lock()
 	defer s.SongsMutex.Unlock()
 
 	currentSong = upcomingSong{filename: "None", startIndex: 0, length: 0}
 	for i := len(s.Songs) - 1; 0 <= i; i-- {
 		if int64(s.Songs[i].startIndex) < sample {
-			currentSong = s.Songs[i]
+			currentSong, known = s.Songs[i], true
 			break
 		}
 	}
-- 
2.43.0


From f865158d58359b388e04a608894c7a6ad3714502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 23/44] fix: synchronize the infoer's volume

---
 cmd/music-sync-infoer/infoer_package_handler.go |  2 ++
 cmd/music-sync-infoer/state.go                  | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/infoer_package_handler.go b/cmd/music-sync-infoer/infoer_package_handler.go
index 8a36816..bc29da4 100644
--- a/cmd/music-sync-infoer/infoer_package_handler.go
+++ b/cmd/music-sync-infoer/infoer_package_handler.go
@@ -68,6 +68,8 @@ func (i *infoerPackageHandler) HandlePauseInfo(pauseInfo *comm.PauseInfo, _ net.
 }
 
 func (i *infoerPackageHandler) HandleSetVolumeRequest(svr *comm.SetVolumeRequest, _ net.Conn) {
+	currentState.VolumeMutex.Lock()
+	defer currentState.VolumeMutex.Unlock()
 	currentState.Volume = svr.Volume
 }
 
diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index 0e74f2f..ba1477d 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -17,7 +17,8 @@ type state struct {
 	Pauses      []pauseToggle
 	PausesMutex sync.RWMutex
 
-	Volume float64
+	Volume      float64
+	VolumeMutex sync.RWMutex
 }
 
 type pauseByToggleIndex []pauseToggle
@@ -62,12 +63,18 @@ func (s *state) Info(now int64) *playbackInformation {
 		PausesInCurrentSong: pausesInCurrentSong,
 		Now:                 now,
 		Playing:             playing,
-		Volume:              s.Volume,
+		Volume:              s.currentVolume(),
 		SongLength:          songLength,
 		TimeInSong:          timeInSong,
 		ProgressInSong:      progressInSong}
 }
 
+func (s *state) currentVolume() float64 {
+	s.VolumeMutex.RLock()
+	defer s.VolumeMutex.RUnlock()
+	return s.Volume
+}
+
 type pausesInCurrentSongState struct {
 	playing             bool
 	pausesInCurrentSong int64
-- 
2.43.0


From ac51aa8c163a122d09b59a4f576065926a5f085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 24/44] fix: draw strings without gaps after non-ASCII
 characters

---
 cmd/music-sync-infoer/drawing.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 7dbd956..a372a58 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -29,8 +29,9 @@ func (d *drawer) eventLoop() {
 }
 
 func (d *drawer) drawString(x, y int, style tcell.Style, str string) {
-	for i, r := range str {
-		d.SetContent(x+i, y, r, nil, style)
+	for _, r := range str {
+		d.SetContent(x, y, r, nil, style)
+		x++
 	}
 }
 
-- 
2.43.0


From 4305c9ee7bd346b0cb7790399b337b7adf9415e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:23 +0000
Subject: [PATCH 25/44] fix: keep queued songs together and in order for
 positions outside the playlist

---
 schedule/server_state_commands.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 1af72c4..cc8bfb7 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -56,6 +56,12 @@ func (ss *serverState) queueCommandExec(args []string) (string, bool) {
 
 	var insert func(string, int)
 	if pos, ok := parseIntParam(args, 1); ok {
+		if n := len(ss.playlist.Songs()); n < pos {
+			pos = n
+		}
+		if pos < 0 {
+			pos = 0
+		}
 		insert = func(s string, i int) { ss.playlist.InsertSong(s, pos+i) }
 	} else {
 		insert = func(s string, _ int) { ss.playlist.AddSong(s) }
-- 
2.43.0


From 589a1c94ee34dca8cabb3396388469135d9e763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 26/44] fix: do not run a command line abandoned with ctrl-c

---
 ssh/session_handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index d6e539c..78b21eb 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -112,6 +112,7 @@ func (s *session) readLoop() {
 	for {
 		line, err := s.ex.Readline()
 		if err == readline.ErrInterrupt {
+			continue // the line was abandoned
 		} else if err == io.EOF {
 			logger.Infof("connection %s as %s closed", s.RemoteAddr(), s.User())
 			return
-- 
2.43.0


From b30df0fa2db808aac199a86f829bd0f820b96e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 27/44] fix: keep non-ASCII characters in command lines

---
 ssh/parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index 0fe4056..928f6e5 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -62,9 +62,11 @@ func (s *shellListener) EnterCommandString(ctx *shell_parser.CommandStringContex
 }
 
 func (s *shellListener) ExitCharacter(ctx *shell_parser.CharacterContext) {
-	if len(ctx.GetText()) != 0 {
-		s.currentString += string(ctx.GetText()[len(ctx.GetText())-1])
+	text := ctx.GetText()
+	if 1 < len(text) && text[0] == '\\' {
+		text = text[1:] // escaped
 	}
+	s.currentString += text
 }
 
 func (s *shellListener) ExitCommandString(ctx *shell_parser.CommandStringContext) {
-- 
2.43.0


From 7b307172d49fc50712f621e0435de30b5b221c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 28/44] fix: escape backslashes when printing commands

---
 ssh/parser/parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index 928f6e5..c8ded4e 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -23,15 +23,15 @@ type ParsedCommand struct {
 
 // Unparse converts a parsed command back to a shell command
 func (c ParsedCommand) Unparse() string {
-	if len(c.Parameters) == 0 {
-		return strings.Replace(c.Command, " ", "\\ ", -1) + " "
-	}
-	unparsedParams := make([]string, len(c.Parameters))
-	for i, p := range c.Parameters {
-		unparsedParams[i] = strings.Replace(p, " ", "\\ ", -1)
+	line := escapeWord(c.Command) + " "
+	for _, p := range c.Parameters {
+		line += escapeWord(p) + " "
 	}
+	return line
+}
 
-	return strings.Replace(c.Command, " ", "\\ ", -1) + " " + strings.Join(unparsedParams, " ") + " "
+func escapeWord(word string) string {
+	return strings.NewReplacer("\\", "\\\\", " ", "\\ ").Replace(word)
 }
 
 // ParseCommand parses an ssh command
-- 
2.43.0


From d6df047ca77ae8141d60b2c85e226c9a357f22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 29/44] fix: keep escaped and other white space at the ends of
 words

---
 ssh/parser/parser.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index c8ded4e..e66a55e 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -91,10 +91,3 @@ func (s *shellListener) ExitParameter(ctx *shell_parser.ParameterContext) {
 		s.cmd.Parameters = append(s.cmd.Parameters, str)
 	}
 }
-
-func (s *shellListener) ExitLine(ctx *shell_parser.LineContext) {
-	s.cmd.Command = strings.TrimSpace(s.cmd.Command)
-	for i := range s.cmd.Parameters {
-		s.cmd.Parameters[i] = strings.TrimSpace(s.cmd.Parameters[i])
-	}
-}
-- 
2.43.0


From 6e4d269686ac8100dc140baa9e2585b824b5f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:41 +0000
Subject: [PATCH 30/44] fix: complete command lines from the words typed,
 whatever their spelling

---
 ssh/auto_completer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index 24519a8..a94255c 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -19,11 +19,12 @@ func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length
 	if lastChar == ' ' {
 		cmd.Parameters = append(cmd.Parameters, "")
 	}
+	end := len([]rune(cmd.Unparse())) - 1 // the end of the words typed so far, when printed
 
 	if len(cmd.Parameters) == 0 && lastChar != ' ' {
-		newLine = sac.commandsWithPrefix(cmd, pos, newLine)
+		newLine = sac.commandsWithPrefix(cmd, end, newLine)
 	} else {
-		newLine = sac.commandArgOptionsWithPrefix(cmd, pos, newLine)
+		newLine = sac.commandArgOptionsWithPrefix(cmd, end, newLine)
 	}
 
 	length = pos
@@ -41,7 +42,7 @@ func (sac *sshAutoCompleter) commandNames() []string {
 func (sac *sshAutoCompleter) commandsWithPrefix(cmd parser.ParsedCommand, pos int, result [][]rune) [][]rune {
 	for _, c := range sac.commandNames() {
 		if strings.HasPrefix(c, cmd.Command) {
-			result = append(result, []rune((c + " ")[pos:]))
+			result = append(result, []rune(parser.ParsedCommand{Command: c}.Unparse())[pos:])
 		}
 	}
 	return result
-- 
2.43.0


From ebe508dd4c93d1520cd933e8e09d7145249c5c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 31/44] fix: complete command lines ending in an escaped space
 or a backslash

---
 ssh/auto_completer.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index a94255c..07a4d73 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -10,27 +10,39 @@ type sshAutoCompleter struct{}
 func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length int) {
 	newLine = make([][]rune, 0)
 
-	lastChar := '\x00'
-	if len(line) != 0 {
-		lastChar = line[len(line)-1]
-	}
+	separated := len(line) != 0 && line[len(line)-1] == ' ' && !isEscaping(line[:len(line)-1])
 
 	cmd := parser.ParseCommand(string(line))
-	if lastChar == ' ' {
+	if separated {
 		cmd.Parameters = append(cmd.Parameters, "")
 	}
 	end := len([]rune(cmd.Unparse())) - 1 // the end of the words typed so far, when printed
 
-	if len(cmd.Parameters) == 0 && lastChar != ' ' {
+	if len(cmd.Parameters) == 0 && !separated {
 		newLine = sac.commandsWithPrefix(cmd, end, newLine)
 	} else {
 		newLine = sac.commandArgOptionsWithPrefix(cmd, end, newLine)
 	}
 
+	if isEscaping(line) { // the last backslash is part of the word
+		for i, l := range newLine {
+			newLine[i] = append([]rune{'\\'}, l...)
+		}
+	}
+
 	length = pos
 	return
 }
 
+// isEscaping returns whether a space or backslash following the line is escaped by it
+func isEscaping(line []rune) bool {
+	n := 0
+	for n < len(line) && line[len(line)-1-n] == '\\' {
+		n++
+	}
+	return n%2 == 1
+}
+
 func (sac *sshAutoCompleter) commandNames() []string {
 	cs := []string{"clear", "exit"}
 	for _, c := range commands {
-- 
2.43.0


From 40da106a6766289c1e764daed3c3638ac02e84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 32/44] fix: list names relative to the music directory however
 it is written

---
 util/file_utils.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index f8b27c7..d25deee 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -34,14 +34,13 @@ func walker(root string, pathTransform func(string) string, pathFilter func(stri
 	return walked
 }
 
-func removeDirPrefix(path string, prefix string) string {
-	if strings.HasPrefix(path, prefix) {
-		path = path[len(prefix):]
+// removeDirPrefix returns the path relative to dir, or an empty string if it does not lead to something below dir
+func removeDirPrefix(path string, dir string) string {
+	name, err := filepath.Rel(dir, path)
+	if err != nil || name == "." || name == ".." || strings.HasPrefix(name, ".."+string(filepath.Separator)) {
+		return ""
 	}
-	if strings.HasPrefix(path, "/") || strings.HasPrefix(path, "\\") {
-		path = path[1:]
-	}
-	return path
+	return name
 }
 
 // ListAllFiles recursively lists all files in songsDir/subDir
@@ -82,7 +81,9 @@ func ListGlobFiles(dir, pattern string) ([]string, error) {
 		if !IsFile(m) {
 			continue
 		}
-		result = append(result, removeDirPrefix(m, dir))
+		if name := removeDirPrefix(m, dir); name != "" {
+			result = append(result, name)
+		}
 	}
 	return result, nil
 }
-- 
2.43.0


From 048bcdcd0f5a382c6166848259eb3503db78f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:25 +0000
Subject: [PATCH 33/44] fix: go on listing after a directory that cannot be
 read

---
 util/file_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index d25deee..c98132e 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -23,7 +23,7 @@ func walker(root string, pathTransform func(string) string, pathFilter func(stri
 	walked := make([]string, 0)
 	filepath.Walk(root, func(path string, f os.FileInfo, err error) error {
 		if err != nil {
-			return err
+			return nil // leave out what cannot be read and go on with the rest
 		}
 		path = pathTransform(path)
 		if pathFilter(path, f) {
-- 
2.43.0


From 8be45a9abdf451bc6101143759692938c0a6ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 34/44] fix: list music directories given by a symbolic link

---
 util/file_utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index c98132e..b1345b0 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -43,9 +43,14 @@ func removeDirPrefix(path string, dir string) string {
 	return name
 }
 
+// dirRoot returns dir in a form that refers to the directory itself, even if dir is a symbolic link to it
+func dirRoot(dir string) string {
+	return filepath.Clean(dir) + string(filepath.Separator)
+}
+
 // ListAllFiles recursively lists all files in songsDir/subDir
 func ListAllFiles(songsDir string, subDir string) []string {
-	dir := songsDir
+	dir := dirRoot(songsDir)
 	if subDir != "" {
 		dir = filepath.Join(songsDir, subDir)
 	}
@@ -59,7 +64,7 @@ func ListAllFiles(songsDir string, subDir string) []string {
 
 // ListAllSubDirs recursively lists all directories in dir
 func ListAllSubDirs(dir string) []string {
-	return walker(dir, func(path string) string {
+	return walker(dirRoot(dir), func(path string) string {
 		return removeDirPrefix(path, dir)
 	}, func(path string, f os.FileInfo) bool {
 		return path != "" && f.IsDir()
-- 
2.43.0


From 39ea7c3f4dc83c181739060f2ca1bba66ddb309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:36 +0000
Subject: [PATCH 35/44] fix: take special characters of the music directory
 literally when matching songs

---
 util/file_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index b1345b0..99f92ce 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -73,7 +73,8 @@ func ListAllSubDirs(dir string) []string {
 
 // ListGlobFiles lists all files in a directory matching the provided glob pattern
 func ListGlobFiles(dir, pattern string) ([]string, error) {
-	matches, err := filepath.Glob(filepath.Join(dir, pattern))
+	literalDir := strings.NewReplacer("\\", "\\\\", "*", "\\*", "?", "\\?", "[", "\\[").Replace(dir)
+	matches, err := filepath.Glob(filepath.Join(literalDir, pattern))
 	if err != nil {
 		return []string{}, err
 	}
-- 
2.43.0


From b02d4c06f39f783c1c89489a1546da01b67012e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 36/44] fix: do not list symbolic links to directories as files

---
 util/file_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index 99f92ce..74f148a 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -58,7 +58,7 @@ func ListAllFiles(songsDir string, subDir string) []string {
 	return walker(dir, func(path string) string {
 		return removeDirPrefix(path, songsDir)
 	}, func(path string, f os.FileInfo) bool {
-		return path != "" && !f.IsDir()
+		return path != "" && IsFile(filepath.Join(songsDir, path))
 	})
 }
 
-- 
2.43.0


From 0d927dd7153bb2396c48b5bc3c684b50f6e8181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:15 +0000
Subject: [PATCH 37/44] fix: the logging switches set the level of the logger
 they name

---
 cmd/flags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/flags.go b/cmd/flags.go
index 81bc75d..e6cda91 100644
--- a/cmd/flags.go
+++ b/cmd/flags.go
@@ -73,7 +73,7 @@ func newLoggingFlag(name string) LoggingFlag {
 	return LoggingFlag{StringFlag: cli.StringFlag{
 		Name:  fmt.Sprintf("%s-logging", name),
 		Usage: fmt.Sprintf("sets %s logging level (values: %s)", name, levels),
-	}}
+	}, logName: name}
 }
 
 // HandleLoggingFlags sets the log levels according to the logging cli flags
@@ -82,7 +82,7 @@ func HandleLoggingFlags(ctx *cli.Context) {
 		levelName := ctx.String(FlagKey(f))
 		if levelName != "" {
 			level := log.LevelByName(levelName)
-			log.CutoffLevels[f.Name] = level
+			log.CutoffLevels[f.logName] = level
 		}
 	}
 	defaultLevelName := ctx.String("logging")
-- 
2.43.0


From e611e0f7e3a5c31c1d53155eef2b12a83c586f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:01 +0000
Subject: [PATCH 38/44] fix: close the file of a song that cannot be decoded

---
 playback/playback.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/playback/playback.go b/playback/playback.go
index d5af607..1a55668 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -41,6 +41,7 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 
 	s, _, err := mp3.Decode(f)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("failed to decode file %s: %v", filename, err)
 	}
 
-- 
2.43.0


From f97434db9511c10c773bd601e11c65ae4ebfcdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:06 +0000
Subject: [PATCH 39/44] fix: close songs after streaming them

---
 playback/playlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/playback/playlist.go b/playback/playlist.go
index 41385ad..eb41df6 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -57,6 +57,9 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		}
 
 		pl.pushStreamer(s)
+		if err := s.Close(); err != nil {
+			logger.Warnf("failed to close song %s: %v", filename, err)
+		}
 		pl.pushNanBreak()
 	}
 }
-- 
2.43.0


From 6c1057a84253cae9a8d39df4624942f1f4065888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:11 +0000
Subject: [PATCH 40/44] fix: close the lyrics file after reading it

---
 metadata/lyrics_provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metadata/lyrics_provider.go b/metadata/lyrics_provider.go
index 6662714..f7bfee5 100644
--- a/metadata/lyrics_provider.go
+++ b/metadata/lyrics_provider.go
@@ -38,6 +38,7 @@ func (basicLyricsProvider) CollectLyrics(song string) []LyricsLine {
 	if err != nil {
 		return []LyricsLine{}
 	}
+	defer f.Close()
 	result := make([]LyricsLine, 0)
 
 	if err := json.NewDecoder(f).Decode(&result); err != nil {
-- 
2.43.0


From 79270607e9e24a5d20fb00dd9ea0cdcb550ec99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:16 +0000
Subject: [PATCH 41/44] fix: close the song after reading its tags

---
 metadata/metadata_provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metadata/metadata_provider.go b/metadata/metadata_provider.go
index 7742357..2edab97 100644
--- a/metadata/metadata_provider.go
+++ b/metadata/metadata_provider.go
@@ -36,6 +36,7 @@ func (basicProvider) CollectMetadata(song string) SongMetadata {
 	if err != nil {
 		return SongMetadata{}
 	}
+	defer f.Close()
 	md, err := tag.ReadFrom(f)
 	if err != nil {
 		return SongMetadata{}
-- 
2.43.0


From 903c1703cf5e86e6972236d8bdc125ea482da98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:20 +0000
Subject: [PATCH 42/44] fix: close the users file after reading it

---
 ssh/ssh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssh/ssh.go b/ssh/ssh.go
index b53538b..e78a8f9 100644
--- a/ssh/ssh.go
+++ b/ssh/ssh.go
@@ -27,6 +27,7 @@ func ReadUsersFile(filename string) (map[string]UserAuth, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to open users file (%s): %v", filename, err)
 	}
+	defer f.Close()
 	users := make(map[string]UserAuth)
 	if err := json.NewDecoder(f).Decode(&users); err != nil {
 		return nil, fmt.Errorf("failed to decode users file (%s): %v", filename, err)
-- 
2.43.0


From 8523a2ccd12c7ff18e2847984137062a2fa09496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:03 +0000
Subject: [PATCH 43/44] fix: an announcement finished late does not replace the
 newest song

---
 schedule/server_state.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 1f26dbe..38c1b62 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -48,6 +48,9 @@ func (ss *serverState) getNewestSong() *comm.NewSongInfo {
 func (ss *serverState) setNewestSong(song *comm.NewSongInfo) {
 	ss.newestSongMutex.Lock()
 	defer ss.newestSongMutex.Unlock()
+	if ss.newestSong != nil && song.FirstSampleOfSongIndex < ss.newestSong.FirstSampleOfSongIndex {
+		return // a newer song was announced in the meantime
+	}
 	ss.newestSong = song
 }
 
-- 
2.43.0


From 1271c3e755c6a9056db49641605d72bc09863966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:08 +0000
Subject: [PATCH 44/44] fix: pause toggles handled late are remembered in the
 order of the stream

---
 schedule/server_state.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 38c1b62..df56e2b 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -124,10 +124,13 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 	}
 }
 
-// addPause remembers a pause toggle and forgets those no longer needed.
+// addPause remembers a pause toggle, in the order of the stream, and forgets those no longer needed.
 func (ss *serverState) addPause(pause *comm.PauseInfo) {
 	ss.pausesMutex.Lock()
 	ss.pauses = append(ss.pauses, pause)
+	for i := len(ss.pauses) - 1; 0 < i && pause.ToggleSampleIndex < ss.pauses[i-1].ToggleSampleIndex; i-- {
+		ss.pauses[i-1], ss.pauses[i] = pause, ss.pauses[i-1]
+	}
 	ss.pausesMutex.Unlock()
 
 	ss.removeOldPauses()
-- 
2.43.0

