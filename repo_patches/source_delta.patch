From 1cc240007f8d471196c1421179eb1ff8f19f2ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 01/31] fix: UDP scrape response was prefixed with a buffer of
 zero bytes

---
 tracker/udp/protocol/scrape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 349e71d..522486c 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -53,7 +53,7 @@ type ScrapeResp struct {
 
 // Marshall encodes a ScrapeResp to a byte slice.
 func (sr *ScrapeResp) Marshall() ([]byte, error) {
-	buff := bytes.NewBuffer(make([]byte, 8+len(sr.Info)*12))
+	buff := bytes.NewBuffer(make([]byte, 0, 8+len(sr.Info)*12))
 
 	if err := binary.Write(buff, binary.BigEndian, sr.Action); err != nil {
 		return nil, errors.Wrap(err, "failed to encode scrape response action")
-- 
2.43.0


From 15de934ba13ae6e18f5eb5d3ba563b0073c62ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 02/31] fix: initialize pools before opening storage, loading a
 non-empty backup crashed at startup

---
 tracker/tracker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index b21ccdd..a40f6b3 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -43,6 +43,9 @@ func Run() {
 		config.Logger.Error("Peer expiry < announce interval. Peers will expire before being updated.")
 	}
 
+	// pools must be initialized before storage as loading a backup allocates peers from them
+	pools.Initialize(int(config.Config.Numwant.Limit))
+
 	// db
 	peerdb, err := storage.Open()
 	if err != nil {
@@ -51,8 +54,6 @@ func Run() {
 		config.Logger.Info("Initialized storage")
 	}
 
-	pools.Initialize(int(config.Config.Numwant.Limit))
-
 	// run signal handler
 	go signalHandler(peerdb, &udptracker, &httptracker)
 
-- 
2.43.0


From 448d8d28ac120dd7d6ef4378db493d8e716eeb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 03/31] fix: send exactly one UDP reply per packet on parse
 errors and for the error action

---
 tracker/udp/protocol/announce.go | 2 +-
 tracker/udp/udptracker.go        | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/tracker/udp/protocol/announce.go b/tracker/udp/protocol/announce.go
index ecda170..984a34e 100644
--- a/tracker/udp/protocol/announce.go
+++ b/tracker/udp/protocol/announce.go
@@ -39,7 +39,7 @@ func (a *Announce) Marshall() ([]byte, error) {
 // Unmarshall decodes a byte slice into an Announce.
 func (a *Announce) Unmarshall(data []byte) error {
 	if err := binary.Read(bytes.NewReader(data), binary.BigEndian, a); err != nil {
-		errors.Wrap(err, "failed to decode announce")
+		return errors.Wrap(err, "failed to decode announce")
 	}
 
 	return nil
diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index 8952acc..5e5fd84 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -136,12 +136,14 @@ func (u *UDPTracker) process(data []byte, remote *net.UDPAddr) {
 
 	addr, ok := netip.AddrFromSlice(remote.IP)
 	if !ok {
-		u.newServerError("failed to parse ip", errors.New("failed to parse remote ip slice as netip"), txid)
+		msg := u.newServerError("failed to parse ip", errors.New("failed to parse remote ip slice as netip"), txid)
+		u.sock.WriteToUDP(msg, remote)
+		return
 	}
 	addr = addr.Unmap() // use ipv4 instead of ipv6 mapped ipv4
 	addrPort := netip.AddrPortFrom(addr, uint16(remote.Port))
 
-	if action > protocol.ActionHeartbeat {
+	if action > protocol.ActionHeartbeat || action == protocol.ActionError {
 		msg := u.newClientError("bad action", txid, cerrFields{"action": data[11], "addrPort": addrPort})
 		u.sock.WriteToUDP(msg, remote)
 		return
@@ -157,6 +159,7 @@ func (u *UDPTracker) process(data []byte, remote *net.UDPAddr) {
 		if err := c.Unmarshall(data); err != nil {
 			msg := u.newServerError("base.unmarshall()", err, txid)
 			u.sock.WriteToUDP(msg, remote)
+			return
 		}
 		u.connect(&c, remote, addrPort)
 		return
-- 
2.43.0


From 445a2348b12927cf33301c92785e3239bec482dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 04/31] fix: HTTP worker parsed leftover bytes of previous
 requests in its reused buffer

---
 tracker/http/worker.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index b6ebf69..7cb3ca2 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -57,7 +57,10 @@ func (w *workers) work() {
 		}
 		stats.Hits.Add(1)
 
-		p, err := parse(data, size)
+		// the buffer is reused, everything past size belongs to previous requests
+		request := data[:size]
+
+		p, err := parse(request, size)
 		if err == invalidParse || p.Method != "GET" {
 			// invalid request
 			writeStatus(conn, "400")
@@ -65,7 +68,7 @@ func (w *workers) work() {
 			continue
 		} else if err != nil {
 			// error in parse
-			config.Logger.Error("error parsing request", zap.Error(err), zap.Any("request data", data))
+			config.Logger.Error("error parsing request", zap.Error(err), zap.Any("request data", request))
 			writeStatus(conn, "500")
 			conn.Close()
 
@@ -116,7 +119,7 @@ func (w *workers) work() {
 			var ip netip.Addr
 			var ipStr string
 
-			forwarded, forwardedIP := parseForwarded(data)
+			forwarded, forwardedIP := parseForwarded(request)
 			if forwarded {
 				if forwardedIP == nil {
 					w.tracker.clientError(conn, "Failed to parse X-Forwarded-For")
-- 
2.43.0


From aeea6c9acac6ca09bbbdc1762194245408bc8bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 05/31] fix: X-Forwarded-For ending in a comma crashed the HTTP
 worker

---
 tracker/http/forwarded_appeng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracker/http/forwarded_appeng.go b/tracker/http/forwarded_appeng.go
index 52e2935..10b06ea 100644
--- a/tracker/http/forwarded_appeng.go
+++ b/tracker/http/forwarded_appeng.go
@@ -27,8 +27,8 @@ func parseForwarded(data []byte) (bool, []byte) {
 
 	// if list contains multiple addresses use rightmost (most recent)
 	if bytes.Contains(headerValue, []byte(",")) {
-		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 2
-		return true, headerValue[lastItemIndex:]
+		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 1
+		return true, bytes.TrimSpace(headerValue[lastItemIndex:])
 	}
 
 	return true, headerValue
-- 
2.43.0


From 9fe33b337db2037d1045921d69f83825515e420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 06/31] fix: concurrent /stats requests crashed the tracker
 writing to a shared header map

---
 tracker/http/fakeresp.go | 14 ++++----------
 tracker/http/worker.go   |  3 ++-
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/tracker/http/fakeresp.go b/tracker/http/fakeresp.go
index 31f1b19..6105f16 100644
--- a/tracker/http/fakeresp.go
+++ b/tracker/http/fakeresp.go
@@ -7,21 +7,15 @@ import (
 
 // Hacky fake http response writer to serve expvar over
 
-var (
-	fakeHdr     http.Header
-	statsHeader = []byte("HTTP/1.1 200\r\nContent-Type: application/json; charset=utf-8\r\n\r\n")
-)
-
-func init() {
-	fakeHdr = make(http.Header)
-}
+var statsHeader = []byte("HTTP/1.1 200\r\nContent-Type: application/json; charset=utf-8\r\n\r\n")
 
 type fakeRespWriter struct {
-	conn net.Conn
+	conn   net.Conn
+	header http.Header // written by handlers so it can't be shared between workers
 }
 
 func (w fakeRespWriter) Header() http.Header {
-	return fakeHdr
+	return w.header
 }
 
 func (w fakeRespWriter) Write(data []byte) (int, error) {
diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index 7cb3ca2..017fdd9 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"expvar"
 	"net"
+	"net/http"
 	"net/netip"
 	"time"
 	"unsafe"
@@ -29,7 +30,7 @@ func (w *workers) startWorkers(num int) {
 
 func (w *workers) work() {
 	expvarHandler := expvar.Handler()
-	statRespWriter := fakeRespWriter{}
+	statRespWriter := fakeRespWriter{header: make(http.Header)}
 	data := make([]byte, httpRequestMax)
 
 	for {
-- 
2.43.0


From 1b79e8149d644c5962fe8a5353b1caf7a11f74ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 07/31] fix: compact peer lists returned other requests' peers
 and ignored the requested number

---
 tracker/storage/map/hash.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index bafc7ad..3115d87 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -79,10 +79,11 @@ func (db *Memory) PeerList(hash storage.Hash, numWant uint, removePeerId bool) (
 	return
 }
 
-// PeerListBytes returns a byte encoded peer list for the given hash capped at num
+// PeerListBytes returns byte encoded IPv4 and IPv6 peer lists for the given hash, each capped at num
 func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte, peers6 []byte) {
-	peers4 = pools.Peerlists4.Get()
-	peers6 = pools.Peerlists6.Get()
+	// recycled buffers still hold the peers of previous requests
+	peers4 = pools.Peerlists4.Get()[:0]
+	peers6 = pools.Peerlists6.Get()[:0]
 
 	db.mutex.RLock()
 	peermap, ok := db.hashmap[hash]
@@ -101,22 +102,35 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 		return
 	}
 
+	size4, size6 := 6*int(numWant), 18*int(numWant)
+	if size4 > cap(peers4) {
+		size4 = cap(peers4)
+	}
+	if size6 > cap(peers6) {
+		size6 = cap(peers6)
+	}
+	peers4 = peers4[:size4]
+	peers6 = peers6[:size6]
+
 	var pos4, pos6 int
 	for _, peer := range peermap.Peers {
 		if peer.IP.Is6() {
+			if pos6+18 > size6 {
+				continue
+			}
 			copy(peers6[pos6:pos6+16], peer.IP.AsSlice())
 			binary.BigEndian.PutUint16(peers6[pos6+16:pos6+18], peer.Port)
 			pos6 += 18
-			if pos6+18 > cap(peers6) {
-				break
-			}
 		} else {
+			if pos4+6 > size4 {
+				continue
+			}
 			copy(peers4[pos4:pos4+4], peer.IP.AsSlice())
 			binary.BigEndian.PutUint16(peers4[pos4+4:pos4+6], peer.Port)
 			pos4 += 6
-			if pos4+6 > cap(peers4) {
-				break
-			}
+		}
+		if pos4+6 > size4 && pos6+18 > size6 {
+			break
 		}
 	}
 	peermap.mutex.RUnlock()
-- 
2.43.0


From b23c3f03a88315bc13b6870d2d7178523e4726b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:25 +0000
Subject: [PATCH 08/31] fix: concurrent announces, drops and trims lost peers
 and corrupted peer counts

---
 tracker/storage/map/memory.go |  9 +++++++--
 tracker/storage/map/peer.go   | 17 +++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 71b9f01..59e204e 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -107,9 +107,14 @@ func (db *Memory) trim() (peers, hashes int) {
 
 		if peersize == 0 {
 			db.mutex.Lock()
-			delete(db.hashmap, hash)
+			peermap.mutex.Lock()
+			// a peer could have been saved while the peermap was unlocked
+			if len(peermap.Peers) == 0 && db.hashmap[hash] == peermap {
+				delete(db.hashmap, hash)
+				hashes++
+			}
+			peermap.mutex.Unlock()
 			db.mutex.Unlock()
-			hashes++
 		}
 		db.mutex.RLock()
 	}
diff --git a/tracker/storage/map/peer.go b/tracker/storage/map/peer.go
index 30bbe9e..468ba9b 100644
--- a/tracker/storage/map/peer.go
+++ b/tracker/storage/map/peer.go
@@ -11,23 +11,28 @@ import (
 
 func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash storage.Hash, id storage.PeerID) {
 	// get/create the map
+	// it's locked before the database is unlocked so that it can't be trimmed in between
 	memoryDb.mutex.RLock()
 	peermap, ok := memoryDb.hashmap[hash]
+	if ok {
+		peermap.mutex.Lock()
+	}
 	memoryDb.mutex.RUnlock()
 
 	// if submap doesn't exist create it
 	if !ok {
 		memoryDb.mutex.Lock()
-		peermap = memoryDb.makePeermap(hash)
+		// it could have been created while the database was unlocked
+		peermap, ok = memoryDb.hashmap[hash]
+		if !ok {
+			peermap = memoryDb.makePeermap(hash)
+		}
+		peermap.mutex.Lock()
 		memoryDb.mutex.Unlock()
 	}
 
 	// get peer
-	peermap.mutex.RLock()
 	peer, peerExists := peermap.Peers[id]
-	peermap.mutex.RUnlock()
-
-	peermap.mutex.Lock()
 	// if peer does not exist then create
 	if !peerExists {
 		peer = pools.Peers.Get()
@@ -51,7 +56,6 @@ func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash sto
 			peermap.Incomplete++
 		}
 	}
-	peermap.mutex.Unlock()
 
 	// update metrics
 	if !fast {
@@ -89,6 +93,7 @@ func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash sto
 	peer.IP = ip
 	peer.Port = port
 	peer.LastSeen = time.Now().Unix()
+	peermap.mutex.Unlock()
 }
 
 // delete is similar to drop but doesn't lock
-- 
2.43.0


From a26307cd570c036b5b5866d4020b037656ed9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 09/31] fix: backups raced with announces writing a wrong peer
 count, locks leaked on encode errors

---
 tracker/storage/map/encode_binary.go | 68 ++++++++++++++++------------
 tracker/storage/map/encode_gob.go    |  5 +-
 tracker/udp/conndb.go                |  2 +-
 3 files changed, 44 insertions(+), 31 deletions(-)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 0f59e49..afc1140 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -20,40 +20,14 @@ func (db *Memory) encodeBinary() ([]byte, error) {
 	for hash, submap := range db.hashmap {
 		db.mutex.RUnlock()
 
-		// write hash and peermap size
+		// write hash
 		if err := binary.Write(writer, binary.LittleEndian, &hash); err != nil {
 			return nil, err
 		}
-		if err := binary.Write(writer, binary.LittleEndian, uint32(len(submap.Peers))); err != nil {
+		if err := submap.encodeBinary(writer); err != nil {
 			return nil, err
 		}
 
-		// write peerid and peer
-		submap.mutex.RLock()
-		for id, peer := range submap.Peers {
-			if err := binary.Write(writer, binary.LittleEndian, &id); err != nil {
-				return nil, err
-			}
-
-			addrSlice := peer.IP.AsSlice()
-			if err := binary.Write(writer, binary.LittleEndian, peer.Complete); err != nil {
-				return nil, err
-			}
-			if err := binary.Write(writer, binary.LittleEndian, int32(len(addrSlice))); err != nil {
-				return nil, err
-			}
-			if err := binary.Write(writer, binary.LittleEndian, addrSlice); err != nil {
-				return nil, err
-			}
-			if err := binary.Write(writer, binary.LittleEndian, peer.Port); err != nil {
-				return nil, err
-			}
-			if err := binary.Write(writer, binary.LittleEndian, peer.LastSeen); err != nil {
-				return nil, err
-			}
-		}
-		submap.mutex.RUnlock()
-
 		db.mutex.RLock()
 	}
 	db.mutex.RUnlock()
@@ -65,6 +39,44 @@ func (db *Memory) encodeBinary() ([]byte, error) {
 	return buff.Bytes(), nil
 }
 
+// encodeBinary writes the number of peers followed by the peers
+// they're written under a single lock, otherwise the count and the peers that follow it could differ
+func (submap *PeerMap) encodeBinary(writer io.Writer) error {
+	submap.mutex.RLock()
+	defer submap.mutex.RUnlock()
+
+	// write peermap size
+	if err := binary.Write(writer, binary.LittleEndian, uint32(len(submap.Peers))); err != nil {
+		return err
+	}
+
+	// write peerid and peer
+	for id, peer := range submap.Peers {
+		if err := binary.Write(writer, binary.LittleEndian, &id); err != nil {
+			return err
+		}
+
+		addrSlice := peer.IP.AsSlice()
+		if err := binary.Write(writer, binary.LittleEndian, peer.Complete); err != nil {
+			return err
+		}
+		if err := binary.Write(writer, binary.LittleEndian, int32(len(addrSlice))); err != nil {
+			return err
+		}
+		if err := binary.Write(writer, binary.LittleEndian, addrSlice); err != nil {
+			return err
+		}
+		if err := binary.Write(writer, binary.LittleEndian, peer.Port); err != nil {
+			return err
+		}
+		if err := binary.Write(writer, binary.LittleEndian, peer.LastSeen); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 	db.make()
 	reader := bufio.NewReader(bytes.NewBuffer(data))
diff --git a/tracker/storage/map/encode_gob.go b/tracker/storage/map/encode_gob.go
index bae5089..94f5c56 100644
--- a/tracker/storage/map/encode_gob.go
+++ b/tracker/storage/map/encode_gob.go
@@ -12,10 +12,11 @@ func (db *Memory) encodeGob() ([]byte, error) {
 	encoder := gob.NewEncoder(w)
 
 	db.mutex.RLock()
-	if err := encoder.Encode(db.hashmap); err != nil {
+	err := encoder.Encode(db.hashmap)
+	db.mutex.RUnlock()
+	if err != nil {
 		return nil, err
 	}
-	db.mutex.RUnlock()
 
 	if err := w.Flush(); err != nil {
 		return nil, err
diff --git a/tracker/udp/conndb.go b/tracker/udp/conndb.go
index bc1bfdd..482b057 100644
--- a/tracker/udp/conndb.go
+++ b/tracker/udp/conndb.go
@@ -146,6 +146,7 @@ func (db *connectionDatabase) marshallBinary() ([]byte, error) {
 	writer := bufio.NewWriter(&buffer)
 
 	db.mutex.Lock()
+	defer db.mutex.Unlock()
 	if err := binary.Write(writer, binary.LittleEndian, uint32(len(db.connectionMap))); err != nil {
 		return nil, err
 	}
@@ -165,7 +166,6 @@ func (db *connectionDatabase) marshallBinary() ([]byte, error) {
 			return nil, err
 		}
 	}
-	db.mutex.Unlock()
 
 	if err := writer.Flush(); err != nil {
 		return nil, err
-- 
2.43.0


From f02463e32b2e5b4eddc9c8f364aa1d1fc18c3097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 10/31] fix: a crash while saving destroyed the previous
 database backup

---
 tracker/storage/map/backup_file.go |  3 ++-
 tracker/udp/conndb.go              |  3 ++-
 tracker/utils/writefile.go         | 34 ++++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 2 deletions(-)
 create mode 100644 tracker/utils/writefile.go

diff --git a/tracker/storage/map/backup_file.go b/tracker/storage/map/backup_file.go
index 727c5ae..561c6eb 100644
--- a/tracker/storage/map/backup_file.go
+++ b/tracker/storage/map/backup_file.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/crimist/trakx/config"
 	"github.com/crimist/trakx/tracker/storage"
+	"github.com/crimist/trakx/tracker/utils"
 	"github.com/pkg/errors"
 	"go.uber.org/zap"
 )
@@ -72,7 +73,7 @@ func (bck *FileBackup) writeFile() (int, error) {
 		return 0, errors.Wrap(err, "failed to encode db")
 	}
 
-	if err := os.WriteFile(config.Config.DB.Backup.Path, encoded, 0644); err != nil {
+	if err := utils.WriteFileAtomic(config.Config.DB.Backup.Path, encoded, 0644); err != nil {
 		return 0, errors.Wrap(err, "failed to write file to disk")
 	}
 
diff --git a/tracker/udp/conndb.go b/tracker/udp/conndb.go
index 482b057..5479cb6 100644
--- a/tracker/udp/conndb.go
+++ b/tracker/udp/conndb.go
@@ -11,6 +11,7 @@ import (
 	"time"
 
 	"github.com/crimist/trakx/config"
+	"github.com/crimist/trakx/tracker/utils"
 	"github.com/pkg/errors"
 	"go.uber.org/zap"
 )
@@ -92,7 +93,7 @@ func (connDb *connectionDatabase) writeToFile(path string) error {
 		return errors.Wrap(err, "failed to marshall connection database")
 	}
 
-	if err := os.WriteFile(path, encoded, 0644); err != nil {
+	if err := utils.WriteFileAtomic(path, encoded, 0644); err != nil {
 		return errors.Wrap(err, "failed to write file")
 	}
 
diff --git a/tracker/utils/writefile.go b/tracker/utils/writefile.go
new file mode 100644
index 0000000..cad9c09
--- /dev/null
+++ b/tracker/utils/writefile.go
@@ -0,0 +1,34 @@
+package utils
+
+import (
+	"os"
+	"path/filepath"
+)
+
+// WriteFileAtomic replaces the file at path with data.
+// If it fails or the process dies at any point the previous file is left untouched.
+func WriteFileAtomic(path string, data []byte, perm os.FileMode) error {
+	file, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".tmp*")
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Chmod(perm)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(file.Name(), path)
+	}
+	if err != nil {
+		os.Remove(file.Name())
+	}
+
+	return err
+}
-- 
2.43.0


From afad026a20fa7eca68d41d056392526da24298bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 11/31] fix: postgres backup leaked a connection per save and
 crashed on an empty database

---
 tracker/storage/map/backup_pg.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracker/storage/map/backup_pg.go b/tracker/storage/map/backup_pg.go
index b79efab..0e465d6 100644
--- a/tracker/storage/map/backup_pg.go
+++ b/tracker/storage/map/backup_pg.go
@@ -75,12 +75,12 @@ func (bck PgBackup) Save() error {
 	config.Logger.Info("Encoded database", zap.Duration("duration", time.Since(start)))
 	start = time.Now()
 
-	_, err = bck.pg.Query("INSERT INTO trakx(bytes) VALUES($1)", data)
+	_, err = bck.pg.Exec("INSERT INTO trakx(bytes) VALUES($1)", data)
 	if err != nil {
 		return errors.Wrap(err, "`INSERT` statement failed")
 	}
 
-	config.Logger.Info("Saved database to pg", zap.Any("hash", data[:20]), zap.Duration("pg duration", time.Since(start)))
+	config.Logger.Info("Saved database to pg", zap.Int("size", len(data)), zap.Duration("pg duration", time.Since(start)))
 
 	return nil
 }
@@ -123,7 +123,7 @@ attemptLoad:
 		return errors.Wrap(err, "failed to decode data")
 	}
 
-	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Any("hash", bytes[:20]), zap.Int("peers", peers), zap.Int("hashes", hashes))
+	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Int("peers", peers), zap.Int("hashes", hashes))
 
 	return nil
 }
-- 
2.43.0


From b65385cdf0f7bb8f91f8784912fd8bf05f45946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 12/31] fix: a corrupt backup crashed the tracker or exhausted
 its memory

---
 tracker/storage/map/encode_binary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index afc1140..1ccc256 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -114,6 +114,10 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 			if err = binary.Read(reader, binary.LittleEndian, &addrSliceLen); err != nil {
 				return
 			}
+			if addrSliceLen != 4 && addrSliceLen != 16 {
+				err = errors.New("invalid address length")
+				return
+			}
 			addrSlice := make([]byte, addrSliceLen)
 			if err = binary.Read(reader, binary.LittleEndian, &addrSlice); err != nil {
 				return
-- 
2.43.0


From e5054cadac04e9b58b7d230582e4379b3a55d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 13/31] fix: UDP connection ids were predictable

---
 tracker/udp/connect.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tracker/udp/connect.go b/tracker/udp/connect.go
index 1588c0c..da37ee0 100644
--- a/tracker/udp/connect.go
+++ b/tracker/udp/connect.go
@@ -1,7 +1,8 @@
 package udp
 
 import (
-	"math/rand"
+	"crypto/rand"
+	"encoding/binary"
 	"net"
 	"net/netip"
 
@@ -12,7 +13,14 @@ import (
 func (u *UDPTracker) connect(connect *protocol.Connect, remote *net.UDPAddr, addr netip.AddrPort) {
 	stats.Connects.Add(1)
 
-	id := rand.Int63()
+	// ids prove ownership of the source address so they can't be guessable
+	var idBytes [8]byte
+	if _, err := rand.Read(idBytes[:]); err != nil {
+		msg := u.newServerError("rand.Read()", err, connect.TransactionID)
+		u.sock.WriteToUDP(msg, remote)
+		return
+	}
+	id := int64(binary.BigEndian.Uint64(idBytes[:]))
 	u.conndb.add(id, addr)
 
 	resp := protocol.ConnectResp{
-- 
2.43.0


From 326cbb4de251a8bd391cd93bc1a9bf4b6f7a7c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 14/31] fix: requests counted while publishing stats were lost

---
 tracker/stats/publish.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/tracker/stats/publish.go b/tracker/stats/publish.go
index bbac1bb..7012a5c 100644
--- a/tracker/stats/publish.go
+++ b/tracker/stats/publish.go
@@ -48,10 +48,11 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 
 	utils.RunOn(config.Config.ExpvarInterval, func() {
 		// set expvars
-		hits.Set(Hits.Load())
-		connects.Set(Connects.Load())
-		announces.Set(Announces.Load())
-		scrapes.Set(Scrapes.Load())
+		// requests are reset as they're read, anything counted in between would be lost
+		hits.Set(Hits.Swap(0))
+		connects.Set(Connects.Swap(0))
+		announces.Set(Announces.Swap(0))
+		scrapes.Set(Scrapes.Swap(0))
 
 		seeds.Set(Seeds.Load())
 		leeches.Set(Leeches.Load())
@@ -70,11 +71,5 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 
 		goroutines.Set(int64(runtime.NumGoroutine()))
 		uptime.Set(int64(time.Since(initTime) / time.Second))
-
-		// reset requests / s stats
-		Hits.Store(0)
-		Connects.Store(0)
-		Announces.Store(0)
-		Scrapes.Store(0)
 	})
 }
-- 
2.43.0


From efccea2732d80ceba8bdb3651357985bec3cef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 15/31] fix: listeners bound other interfaces than the
 configured ip

---
 tracker/http/httptracker.go | 4 ++--
 tracker/tracker.go          | 5 +++--
 tracker/udp/udptracker.go   | 8 +++++++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/tracker/http/httptracker.go b/tracker/http/httptracker.go
index 84f3014..34d36c7 100644
--- a/tracker/http/httptracker.go
+++ b/tracker/http/httptracker.go
@@ -1,8 +1,8 @@
 package http
 
 import (
-	"fmt"
 	"net"
+	"strconv"
 
 	"github.com/crimist/trakx/config"
 	"github.com/crimist/trakx/tracker/storage"
@@ -27,7 +27,7 @@ func (t *HTTPTracker) Init(peerdb storage.Database) {
 
 // Serve begins listening and serving clients.
 func (t *HTTPTracker) Serve() error {
-	ln, err := net.Listen("tcp", fmt.Sprintf("%v:%v", config.Config.HTTP.IP, config.Config.HTTP.Port))
+	ln, err := net.Listen("tcp", net.JoinHostPort(config.Config.HTTP.IP, strconv.Itoa(config.Config.HTTP.Port)))
 	if err != nil {
 		return errors.Wrap(err, "Failed to open TCP listen socket")
 	}
diff --git a/tracker/tracker.go b/tracker/tracker.go
index a40f6b3..a01534b 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -2,9 +2,10 @@ package tracker
 
 import (
 	"expvar"
-	"fmt"
 	"math/rand"
+	"net"
 	gohttp "net/http"
+	"strconv"
 	"time"
 
 	"github.com/crimist/trakx/bencoding"
@@ -103,7 +104,7 @@ func Run() {
 		}
 
 		server := gohttp.Server{
-			Addr:         fmt.Sprintf(":%d", config.Config.HTTP.Port),
+			Addr:         net.JoinHostPort(config.Config.HTTP.IP, strconv.Itoa(config.Config.HTTP.Port)),
 			Handler:      mux,
 			ReadTimeout:  5 * time.Second,
 			WriteTimeout: 7 * time.Second,
diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index 5e5fd84..500cc20 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -49,8 +49,14 @@ func (u *UDPTracker) Init(peerdb storage.Database) {
 func (u *UDPTracker) Serve() error {
 	var err error
 
+	// a nil ip listens on all interfaces, don't expose the tracker if the configured one is invalid
+	ip := net.ParseIP(config.Config.UDP.IP)
+	if ip == nil && config.Config.UDP.IP != "" {
+		return errors.New("Invalid UDP ip: '" + config.Config.UDP.IP + "'")
+	}
+
 	u.sock, err = net.ListenUDP("udp", &net.UDPAddr{
-		IP:   net.ParseIP(config.Config.UDP.IP),
+		IP:   ip,
 		Port: config.Config.UDP.Port,
 	})
 	if err != nil {
-- 
2.43.0


From 3a727ae31e9f7fe576d112ecd6847a112eabd4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 16/31] fix: disabling the UDP connection trim spun a goroutine
 trimming continuously

---
 tracker/udp/udptracker.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index 500cc20..bc0b103 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -42,7 +42,9 @@ func (u *UDPTracker) Init(peerdb storage.Database) {
 		u.conndb.make()
 	}
 
-	go utils.RunOn(config.Config.UDP.ConnDB.Trim, u.conndb.trim)
+	if config.Config.UDP.ConnDB.Trim > 0 {
+		go utils.RunOn(config.Config.UDP.ConnDB.Trim, u.conndb.trim)
+	}
 }
 
 // Serve begins listening and serving clients.
-- 
2.43.0


From 9411cc5d2d86f52e674993c90b7f03150e94f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 17/31] fix: stop and status commands hung forever on an
 unresponsive tracker

---
 controller/controller.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index 8826d65..576789d 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -18,6 +18,7 @@ import (
 
 const (
 	logFilePermissions = 0644
+	heartbeatTimeout   = 5 * time.Second
 )
 
 type Controller struct {
@@ -84,12 +85,12 @@ func (controller *Controller) Stop() error {
 
 	fmt.Print("waiting for process to exit")
 	i := 0
-	for ; err == nil || i == 100; err = syscall.Kill(processid, syscall.Signal(0)) {
+	for ; err == nil && i < 100; err = syscall.Kill(processid, syscall.Signal(0)) {
 		time.Sleep(100 * time.Millisecond)
 		fmt.Print(".")
 		i++
 	}
-	if i == 100 {
+	if err == nil {
 		return errors.New(" trakx failed to stop within 10s")
 	}
 	if err.Error() != "no such process" {
@@ -123,6 +124,9 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 	if config.Config.UDP.Enabled {
 		conn, err := net.Dial("udp", fmt.Sprintf("localhost:%d", config.Config.UDP.Port))
 		if err == nil {
+			defer conn.Close()
+			// packets can be dropped, without a deadline the read could block forever
+			conn.SetDeadline(time.Now().Add(heartbeatTimeout))
 			conn.Write(udpprotocol.HeartbeatRequest)
 			data := make([]byte, 1)
 			size, err := conn.Read(data)
@@ -135,9 +139,13 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 		}
 	}
 	if config.Config.HTTP.Mode == config.TrackerModeEnabled {
-		resp, err := http.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
-		if err == nil && resp.StatusCode == 200 {
-			heartbeat = true
+		client := http.Client{Timeout: heartbeatTimeout}
+		resp, err := client.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
+		if err == nil {
+			resp.Body.Close()
+			if resp.StatusCode == 200 {
+				heartbeat = true
+			}
 		}
 	}
 
-- 
2.43.0


From b7cbab8587f6a0d8122ae8cb9be9dbf3089899f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 18/31] fix: nil dereference instead of an error when the
 config fails to load

---
 config/config.go         | 2 +-
 controller/controller.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 14a1b45..259f356 100644
--- a/config/config.go
+++ b/config/config.go
@@ -67,7 +67,7 @@ type Configuration struct {
 }
 
 // Loaded returns true if the config was successfully parsed and loaded.
-func (config *Configuration) Loaded() bool { return config.loaded }
+func (config *Configuration) Loaded() bool { return config != nil && config.loaded }
 
 // SetLogLevel sets the desired loglevel in the in memory configuration and logger
 func (conf *Configuration) SetLogLevel(level LogLevel) {
diff --git a/controller/controller.go b/controller/controller.go
index 576789d..5242ed8 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -27,6 +27,10 @@ type Controller struct {
 }
 
 func NewController() *Controller {
+	if !config.Config.Loaded() {
+		config.Logger.Fatal("Config failed to load")
+	}
+
 	c := &Controller{
 		processIDFile: NewProcessIDFile(config.Config.Path.Pid),
 		logPath:       config.Config.Path.Log,
-- 
2.43.0


From 97b6caf5134f4c910823d9f5bc274ed7ac39db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 19/31] fix: seed, leech and ip counts wrapped around on swarms
 and addresses with more than 65535 peers

---
 tracker/stats/stats.go               | 2 +-
 tracker/stats/stats_slow.go          | 2 +-
 tracker/storage/database.go          | 2 +-
 tracker/storage/map/encode_binary.go | 4 ++--
 tracker/storage/map/hash.go          | 2 +-
 tracker/storage/map/memory.go        | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tracker/stats/stats.go b/tracker/stats/stats.go
index 10c5da7..5b6fe08 100644
--- a/tracker/stats/stats.go
+++ b/tracker/stats/stats.go
@@ -8,7 +8,7 @@ import (
 
 type ipStats struct {
 	sync.Mutex
-	submap map[netip.Addr]int16
+	submap map[netip.Addr]int32
 }
 
 var (
diff --git a/tracker/stats/stats_slow.go b/tracker/stats/stats_slow.go
index 485b559..50f47df 100644
--- a/tracker/stats/stats_slow.go
+++ b/tracker/stats/stats_slow.go
@@ -12,7 +12,7 @@ const (
 )
 
 func init() {
-	IPStats.submap = make(map[netip.Addr]int16, 250_000)
+	IPStats.submap = make(map[netip.Addr]int32, 250_000)
 }
 
 func (ipstats *ipStats) Total() int {
diff --git a/tracker/storage/database.go b/tracker/storage/database.go
index 4a4ffa2..b0d7819 100644
--- a/tracker/storage/database.go
+++ b/tracker/storage/database.go
@@ -48,7 +48,7 @@ type Database interface {
 	Save(netip.Addr, uint16, bool, Hash, PeerID)
 	Drop(Hash, PeerID)
 
-	HashStats(Hash) (uint16, uint16)
+	HashStats(Hash) (uint32, uint32)
 	PeerList(Hash, uint, bool) [][]byte
 	PeerListBytes(Hash, uint) ([]byte, []byte)
 
diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 1ccc256..860f668 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -93,7 +93,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 		}
 
 		var count uint32
-		var complete uint16
+		var complete uint32
 		peermap := db.makePeermap(hash)
 		if err = binary.Read(reader, binary.LittleEndian, &count); err != nil {
 			return
@@ -144,7 +144,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 
 		// set complete and incomplete
 		peermap.Complete = complete
-		peermap.Incomplete = uint16(len(peermap.Peers)) - complete
+		peermap.Incomplete = uint32(len(peermap.Peers)) - complete
 
 		hashes++
 	}
diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index 3115d87..7ef2e8b 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -14,7 +14,7 @@ func (db *Memory) Hashes() int {
 }
 
 // HashStats returns number of complete and incomplete peers associated with the hash
-func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint16) {
+func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint32) {
 	db.mutex.RLock()
 	peermap, ok := db.hashmap[hash]
 	db.mutex.RUnlock()
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 59e204e..55d7b70 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -22,8 +22,8 @@ const (
 
 type PeerMap struct {
 	mutex      sync.RWMutex // can't be embedded (https://github.com/golang/go/issues/5819#issuecomment-250596051)
-	Complete   uint16
-	Incomplete uint16
+	Complete   uint32
+	Incomplete uint32
 	Peers      map[storage.PeerID]*storage.Peer
 }
 
-- 
2.43.0


From e4bdbfa180d3f6a70558113b643e233bebf762a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 20/31] fix: info server answered unknown paths with the index
 page

---
 tracker/tracker.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index a01534b..8a055fc 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -97,8 +97,13 @@ func Run() {
 		})
 
 		for filepath, data := range cache {
-			dataBytes := []byte(data)
-			mux.HandleFunc(filepath, func(w gohttp.ResponseWriter, r *gohttp.Request) {
+			path, dataBytes := filepath, []byte(data)
+			mux.HandleFunc(path, func(w gohttp.ResponseWriter, r *gohttp.Request) {
+				// the "/" pattern matches every path
+				if r.URL.Path != path {
+					gohttp.NotFound(w, r)
+					return
+				}
 				w.Write(dataBytes)
 			})
 		}
-- 
2.43.0


From 7d2bd5bd811b60d030532846b15ecc3a8300cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 21/31] fix: encode errors of the connection database were
 dropped and the file overwritten

---
 tracker/udp/conndb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tracker/udp/conndb.go b/tracker/udp/conndb.go
index 5479cb6..1e2dd0e 100644
--- a/tracker/udp/conndb.go
+++ b/tracker/udp/conndb.go
@@ -125,8 +125,11 @@ func (db *connectionDatabase) gobEncode() ([]byte, error) {
 	writer := bufio.NewWriter(&buffer)
 
 	db.mutex.Lock()
-	gob.NewEncoder(writer).Encode(db.connectionMap)
+	err := gob.NewEncoder(writer).Encode(db.connectionMap)
 	db.mutex.Unlock()
+	if err != nil {
+		return nil, err
+	}
 
 	if err := writer.Flush(); err != nil {
 		return nil, err
-- 
2.43.0


From fe2ca9b8509c20ad89835e709b969a3efa6e1bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 22/31] fix: HTTP announces stored IPv4-mapped addresses as
 IPv6 peers

---
 tracker/http/worker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index 017fdd9..230556f 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -138,7 +138,7 @@ func (w *workers) work() {
 				break
 			}
 
-			w.tracker.announce(conn, &v, ip)
+			w.tracker.announce(conn, &v, ip.Unmap()) // use ipv4 instead of ipv6 mapped ipv4
 		case "/scrape":
 			var count int
 			for i := 0; i < len(p.Params); i++ {
-- 
2.43.0


From af7cfbd9088f9fab98dd2d6a29251c6c9b7dd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 23/31] fix: hash and ip metrics were read without their locks

---
 tracker/stats/publish.go    | 2 ++
 tracker/storage/map/hash.go | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/tracker/stats/publish.go b/tracker/stats/publish.go
index 7012a5c..6112e11 100644
--- a/tracker/stats/publish.go
+++ b/tracker/stats/publish.go
@@ -57,7 +57,9 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 		seeds.Set(Seeds.Load())
 		leeches.Set(Leeches.Load())
 		peers.Set(Seeds.Load() + Leeches.Load())
+		IPStats.Lock()
 		ips.Set(int64(IPStats.Total()))
+		IPStats.Unlock()
 		hashes.Set(int64(peerdb.Hashes()))
 		udpConnections.Set(udpconns())
 
diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index 7ef2e8b..8295bb6 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -9,7 +9,9 @@ import (
 
 // Hashes gets the number of hashes
 func (db *Memory) Hashes() int {
-	// race condition but doesn't matter as it's just for metrics
+	db.mutex.RLock()
+	defer db.mutex.RUnlock()
+
 	return len(db.hashmap)
 }
 
-- 
2.43.0


From bb4a11e99cc9855595a19ca0e60aceb77c29237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 24/31] fix: Dictionary.Any left a key without a value on
 invalid types

---
 bencoding/dictionary.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bencoding/dictionary.go b/bencoding/dictionary.go
index b0c0901..e538928 100644
--- a/bencoding/dictionary.go
+++ b/bencoding/dictionary.go
@@ -95,6 +95,8 @@ func (d *Dictionary) BytesliceSlice(key string, slice [][]byte) {
 // Any tries to write given type to dictionary. It returns an error if it is unabled to write the desired type to the dictionary.
 // Any performs far worse than specific type encoding functions and should be avoided when possible.
 func (d *Dictionary) Any(key string, v interface{}) error {
+	start := len(d.buf) // nothing is written if the type is invalid
+
 	// Add the key
 	d.write(str(key))
 
@@ -113,19 +115,28 @@ func (d *Dictionary) Any(key string, v interface{}) error {
 	case map[string]interface{}:
 		dict := NewDictionary()
 		for k, v := range v {
-			dict.Any(k, v)
+			if err := dict.Any(k, v); err != nil {
+				d.buf = d.buf[:start]
+				return err
+			}
 		}
 		d.writeBytes(dict.GetBytes())
 	case map[string]map[string]int32:
 		dict := NewDictionary()
 		for k, v := range v {
-			dict.Any(k, v)
+			if err := dict.Any(k, v); err != nil {
+				d.buf = d.buf[:start]
+				return err
+			}
 		}
 		d.writeBytes(dict.GetBytes())
 	case map[string]int32:
 		dict := NewDictionary()
 		for k, v := range v {
-			dict.Any(k, v)
+			if err := dict.Any(k, v); err != nil {
+				d.buf = d.buf[:start]
+				return err
+			}
 		}
 		d.writeBytes(dict.GetBytes())
 	case int, int8, int16, int32, int64:
@@ -133,6 +144,7 @@ func (d *Dictionary) Any(key string, v interface{}) error {
 	case uint, uint8, uint16, uint32, uint64:
 		d.write(integer(v))
 	default:
+		d.buf = d.buf[:start]
 		return errors.New("failed to write value to dictionary: invalid type")
 	}
 
-- 
2.43.0


From e6c67128a7bcf27ddde7d1711d7cfd25d3d9df1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:02 +0000
Subject: [PATCH 25/31] fix: UDP scrape entries had leechers and completed
 swapped

---
 tracker/udp/protocol/scrape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 522486c..a4c76cf 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -40,8 +40,8 @@ func (s *Scrape) Unmarshall(data []byte) error {
 // ScrapeInfo holds the information for each infohash in the scrape response
 type ScrapeInfo struct {
 	Complete   int32
-	Incomplete int32
 	Downloaded int32
+	Incomplete int32
 }
 
 // BitTorrent UDP tracker scrape response
-- 
2.43.0


From 6b742b2f533725eefa470e5995a1ec94c510300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 26/31] fix: UDP scrapes of more than 74 hashes were truncated
 and answered instead of refused

---
 tracker/udp/udptracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index bc0b103..b88b517 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -21,7 +21,7 @@ import (
 
 const (
 	errClosed      = "use of closed network connection"
-	requestSizeMax = 1496 // 1496 is max size of a scrape with 20 hashes
+	requestSizeMax = 1516 // 1496 is max size of a scrape with 74 hashes, one more hash so that larger scrapes are seen as such
 )
 
 type UDPTracker struct {
-- 
2.43.0


From adbb353790e63368d0470948411f49da1ec44bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:32 +0000
Subject: [PATCH 27/31] fix: only the X-Forwarded-For header itself names the
 peer address, not the query or another header

---
 tracker/http/forwarded_appeng.go | 2 +-
 tracker/http/worker.go           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracker/http/forwarded_appeng.go b/tracker/http/forwarded_appeng.go
index 10b06ea..0212db3 100644
--- a/tracker/http/forwarded_appeng.go
+++ b/tracker/http/forwarded_appeng.go
@@ -8,7 +8,7 @@ import (
 )
 
 func parseForwarded(data []byte) (bool, []byte) {
-	headerKey := []byte("X-Forwarded-For: ")
+	headerKey := []byte("\r\nX-Forwarded-For: ") // whole header name, not the end of another
 
 	// find X-Forwarded-For header value start and end index
 	headerValueStart := bytes.Index(data, headerKey)
diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index 230556f..47a743e 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -120,7 +120,8 @@ func (w *workers) work() {
 			var ip netip.Addr
 			var ipStr string
 
-			forwarded, forwardedIP := parseForwarded(request)
+			// only the headers: the query has been unescaped in place and could fake one
+			forwarded, forwardedIP := parseForwarded(request[p.URLend:])
 			if forwarded {
 				if forwardedIP == nil {
 					w.tracker.clientError(conn, "Failed to parse X-Forwarded-For")
-- 
2.43.0


From 75e5bd9e3467916d0e5197920debe45110566ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:37 +0000
Subject: [PATCH 28/31] fix: a failing bind of the HTTP info server ends
 start-up like that of the others

---
 tracker/tracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index 8a055fc..6fed577 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -120,7 +120,7 @@ func Run() {
 		config.Logger.Info("Running HTTP info server", zap.Int("port", config.Config.HTTP.Port))
 		go func() {
 			if err := server.ListenAndServe(); err != nil {
-				config.Logger.Error("Failed to start HTTP server", zap.Error(err))
+				config.Logger.Fatal("Failed to serve HTTP info server", zap.Error(err))
 			}
 		}()
 	}
-- 
2.43.0


From 3b5c5e9e992ef1de7c39ec27596e85006284e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:08 +0000
Subject: [PATCH 29/31] fix: synchronise database metrics before the expiry and
 backup jobs are started

---
 tracker/storage/database.go   | 4 ----
 tracker/storage/map/expvar.go | 2 +-
 tracker/storage/map/memory.go | 5 +++++
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/tracker/storage/database.go b/tracker/storage/database.go
index b0d7819..0048a1c 100644
--- a/tracker/storage/database.go
+++ b/tracker/storage/database.go
@@ -28,10 +28,6 @@ func Open() (Database, error) {
 		return nil, errors.Wrap(err, "failed to init storage driver")
 	}
 
-	if err := driver.db.SyncExpvars(); err != nil {
-		return nil, errors.Wrap(err, "failed to sync expvars on storage driver")
-	}
-
 	return driver.db, nil
 }
 
diff --git a/tracker/storage/map/expvar.go b/tracker/storage/map/expvar.go
index c8cb9fa..331fcf5 100644
--- a/tracker/storage/map/expvar.go
+++ b/tracker/storage/map/expvar.go
@@ -12,7 +12,7 @@ func (db *Memory) SyncExpvars() error {
 
 	var seeds, leeches int64
 
-	// Called on main thread before thread/queue dispatch no locking needed
+	// Called by Init before any other goroutine is started no locking needed
 	for _, peermap := range db.hashmap {
 		for _, peer := range peermap.Peers {
 			stats.IPStats.Inc(peer.IP)
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 55d7b70..34ccb2d 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -46,6 +46,11 @@ func (db *Memory) Init(backup storage.Backup) error {
 		return errors.Wrap(err, "failed to load backup")
 	}
 
+	// must be synced before anything else is started as it doesn't lock
+	if err := db.SyncExpvars(); err != nil {
+		return errors.Wrap(err, "failed to sync expvars")
+	}
+
 	if config.Config.DB.Backup.Frequency > 0 {
 		go utils.RunOn(config.Config.DB.Backup.Frequency, func() {
 			if err := db.backup.Save(); err != nil {
-- 
2.43.0


From ca73be9b0d77cb9547bbc9e02fb12555a725ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:09 +0000
Subject: [PATCH 30/31] fix: do not report saves as successful when one failed

---
 tracker/signalhandler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tracker/signalhandler.go b/tracker/signalhandler.go
index 804f98f..fbdaf86 100644
--- a/tracker/signalhandler.go
+++ b/tracker/signalhandler.go
@@ -45,15 +45,21 @@ func signalHandler(peerdb storage.Database, udptracker *udp.UDPTracker, httptrac
 		case syscall.SIGUSR1: // Save
 			config.Logger.Info("Received save signal", zap.Any("signal", sig))
 
+			saved := true
+
 			if err := peerdb.Backup().Save(); err != nil {
 				config.Logger.Error("Database save failed", zap.Error(err))
+				saved = false
 			}
 
 			if err := udptracker.WriteConns(); err != nil {
 				config.Logger.Error("UDP connections save failed", zap.Error(err))
+				saved = false
 			}
 
-			config.Logger.Info("Saves successful")
+			if saved {
+				config.Logger.Info("Saves successful")
+			}
 
 		default:
 			config.Logger.Info("Received unknown signal, ignoring", zap.Any("signal", sig))
-- 
2.43.0


From 2c843ca1d31671a31125a5c6a1b7353b11c8e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 31/31] fix: initialise the trackers before starting the signal
 handler that uses them

---
 tracker/tracker.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index 6fed577..416c9e1 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -55,6 +55,14 @@ func Run() {
 		config.Logger.Info("Initialized storage")
 	}
 
+	// the trackers must be initialized before the signal handler uses them
+	if config.Config.HTTP.Mode == config.TrackerModeEnabled {
+		httptracker.Init(peerdb)
+	}
+	if config.Config.UDP.Enabled {
+		udptracker.Init(peerdb)
+	}
+
 	// run signal handler
 	go signalHandler(peerdb, &udptracker, &httptracker)
 
@@ -66,7 +74,6 @@ func Run() {
 	if config.Config.HTTP.Mode == config.TrackerModeEnabled {
 		config.Logger.Info("HTTP tracker enabled", zap.Int("port", config.Config.HTTP.Port), zap.String("ip", config.Config.HTTP.IP))
 
-		httptracker.Init(peerdb)
 		go func() {
 			if err := httptracker.Serve(); err != nil {
 				config.Logger.Fatal("Failed to serve HTTP tracker", zap.Error(err))
@@ -128,7 +135,6 @@ func Run() {
 	// UDP tracker
 	if config.Config.UDP.Enabled {
 		config.Logger.Info("UDP tracker enabled", zap.Int("port", config.Config.UDP.Port), zap.String("ip", config.Config.UDP.IP))
-		udptracker.Init(peerdb)
 
 		go func() {
 			if err := udptracker.Serve(); err != nil {
-- 
2.43.0

