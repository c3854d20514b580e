From 22cd162ed7172d392a7e7bc1c40dfab46ec03ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 01/61] fix: report a service ended by two goroutines at once
 only once

---
 scouterx/netio/tracecontext.go | 11 +++++++++++
 scouterx/strace/tracemain.go   |  3 +--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/tracecontext.go b/scouterx/netio/tracecontext.go
index 28726fa..d402fa9 100644
--- a/scouterx/netio/tracecontext.go
+++ b/scouterx/netio/tracecontext.go
@@ -5,11 +5,13 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util/keygen"
 	"strconv"
+	"sync/atomic"
 	"time"
 )
 
 type TraceContext struct {
 	Closed     bool
+	closing    int32
 	Noop       bool
 	LastMethod string
 	IsStream   bool
@@ -95,6 +97,15 @@ func NewNoopTraceContext() *TraceContext {
 	return context
 }
 
+//TryClose marks the context as closed. It returns true for exactly one caller.
+func (tctx *TraceContext) TryClose() bool {
+	if !atomic.CompareAndSwapInt32(&tctx.closing, 0, 1) {
+		return false
+	}
+	tctx.Closed = true
+	return true
+}
+
 func (tctx (TraceContext)) ToXlog(discardType netdata.XlogDiscardType, elapsed int32) *netdata.XlogPack {
 	xlog := netdata.NewXlogPack()
 	xlog.Elapsed = elapsed
diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index aee471c..bc4db63 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -371,10 +371,9 @@ func endStuckServiceForcibly(tctx *netio.TraceContext) {
 }
 
 func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
-	if tctx.Closed {
+	if !tctx.TryClose() {
 		return
 	}
-	tctx.Closed = true
 
 	tctx.ServiceHash = netio.SendServiceName(tctx.ServiceName)
 	tctxmanager.End(tctx)
-- 
2.43.0


From 502863605f575a1d7eb436f818233400befcafd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 02/61] fix: count the last profile flush in the transaction
 record's profile count and size

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index bc4db63..f46fe2d 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -380,10 +380,10 @@ func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
 
 	elapsed := util.MillisToNow(tctx.StartTime)
 	discardType := findXLogDiscard(tctx, elapsed)
-	xlog := tctx.ToXlog(discardType, elapsed)
 
 	writeProfile := discardType == netdata.XLOG_DISCARD_NONE //TODO consequence sampling
 	tctx.Profile.Close(writeProfile)
+	xlog := tctx.ToXlog(discardType, elapsed) //after closing profile (because of profile count and size)
 
 	counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)
 	//TODO meteringInteraction
-- 
2.43.0


From bd9eabfd9724e44b358ec502c9edc38c857907f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 03/61] fix: make the profile collector safe for goroutines
 sharing a transaction and for steps after its end

---
 scouterx/netio/profilecollector.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/profilecollector.go b/scouterx/netio/profilecollector.go
index 3aaff6d..13f8370 100644
--- a/scouterx/netio/profilecollector.go
+++ b/scouterx/netio/profilecollector.go
@@ -3,11 +3,14 @@ package netio
 import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
+	"sync"
 )
 
 var aconf = conf.GetInstance()
 
 type ProfileCollector struct {
+	lock sync.Mutex
+	closed bool
 	tctx *TraceContext
 	steps []netdata.Step
 	pos int
@@ -24,6 +27,8 @@ func NewProfileCollector(tctx *TraceContext) *ProfileCollector {
 }
 
 func (c *ProfileCollector) Push(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.checkDumpStep()
 	ss.SetIndex(c.currentLevel)
 	ss.SetParent(c.parentLevel)
@@ -32,21 +37,34 @@ func (c *ProfileCollector) Push(ss netdata.Step) {
 }
 
 func (c *ProfileCollector) Pop(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.checkDumpStep()
 	c.parentLevel = ss.GetParent()
-	c.Process(ss)
+	c.process(ss)
 }
 
 func (c *ProfileCollector) Add(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.checkDumpStep()
 	ss.SetIndex(c.currentLevel)
 	ss.SetParent(c.parentLevel)
 	c.currentLevel++
-	c.Process(ss)
+	c.process(ss)
 }
 
 func (c *ProfileCollector) Process(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	c.process(ss)
+}
+
+func (c *ProfileCollector) process(ss netdata.Step) {
 	c.checkDumpStep()
+	if c.closed {
+		return
+	}
 	c.steps[c.pos] = ss
 	c.pos++
 	if c.pos >= len(c.steps) {
@@ -58,7 +76,13 @@ func (c *ProfileCollector) Process(ss netdata.Step) {
 }
 
 func (c *ProfileCollector) Close(ok bool) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.checkDumpStep()
+	if c.closed {
+		return
+	}
+	c.closed = true
 	if c.pos > 0 && ok {
 		SendProfile(c.steps[0 : c.pos], c.tctx)
 	}
-- 
2.43.0


From b9f185caf88ffaab687f3d9b66dbf0b303744200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 04/61] fix: do not consider a text delivered that was dropped
 because the send queue is full

---
 scouterx/netio/dataproxy.go           | 44 ++++++++++++++++++++-------
 scouterx/netio/udpsender/udpsender.go |  5 ++-
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index 7782a09..c24f353 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -58,7 +58,9 @@ func SendServiceName(name string) int32 {
 		return hash
 	}
 	serviceNameSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.SERVICE, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.SERVICE, hash, name}) {
+		serviceNameSent.Remove(hash) //dropped, send it on next use
+	}
 	return hash
 }
 
@@ -71,7 +73,9 @@ func SendHashedMessage(name string) int32 {
 		return hash
 	}
 	hashMessageSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.HASH_MSG, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.HASH_MSG, hash, name}) {
+		hashMessageSent.Remove(hash) //dropped, send it on next use
+	}
 	return hash
 }
 
@@ -84,7 +88,9 @@ func SendObjName(name string) int32 {
 		return hash
 	}
 	objNameSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.OBJECT, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.OBJECT, hash, name}) {
+		objNameSent.Remove(hash) //dropped, send it on next use
+	}
 	return hash
 }
 
@@ -97,7 +103,9 @@ func SendReferer(name string) int32 {
 		return hash
 	}
 	refererSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.REFERER, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.REFERER, hash, name}) {
+		refererSent.Remove(hash) //dropped, send it on next use
+	}
 	return hash
 }
 
@@ -110,7 +118,9 @@ func SendUserAgent(name string) int32 {
 		return hash
 	}
 	userAgentSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.USER_AGENT, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.USER_AGENT, hash, name}) {
+		userAgentSent.Remove(hash) //dropped, send it on next use
+	}
 	return hash
 }
 
@@ -123,7 +133,9 @@ func SendMethod(name string) int32 {
 		return hash
 	}
 	methodSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.METHOD, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.METHOD, hash, name}) {
+		methodSent.Remove(hash) //dropped, send it on next use
+	}
 	return hash
 }
 
@@ -136,7 +148,9 @@ func SendApicall(name string) int32 {
 		return hash
 	}
 	apicallSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.APICALL, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.APICALL, hash, name}) {
+		apicallSent.Remove(hash) //dropped, send it on next use
+	}
 	return hash
 }
 
@@ -149,7 +163,9 @@ func SendError(name string) int32 {
 		return hash
 	}
 	errorSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.ERROR, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.ERROR, hash, name}) {
+		errorSent.Remove(hash) //dropped, send it on next use
+	}
 	return hash
 }
 
@@ -176,7 +192,9 @@ func SendLogin(name string) int32 {
 		return hash
 	}
 	loginSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.LOGIN, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.LOGIN, hash, name}) {
+		loginSent.Remove(hash) //dropped, send it on next use
+	}
 	return hash
 }
 
@@ -189,7 +207,9 @@ func SendDesc(name string) int32 {
 		return hash
 	}
 	descSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.DESC, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.DESC, hash, name}) {
+		descSent.Remove(hash) //dropped, send it on next use
+	}
 	return hash
 }
 
@@ -202,7 +222,9 @@ func SendStackElement(name string) int32 {
 		return hash
 	}
 	stackElementSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.STACK_ELEMENT, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.STACK_ELEMENT, hash, name}) {
+		stackElementSent.Remove(hash) //dropped, send it on next use
+	}
 	return hash
 }
 
diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 2c7b948..a37917c 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -66,13 +66,16 @@ func reloadUdpSender() {
 	}
 }
 
-func (udpSender *UDPSender) AddPack(pack netdata.Pack) {
+//AddPack queues the pack. It returns false if the queue is full and the pack is dropped.
+func (udpSender *UDPSender) AddPack(pack netdata.Pack) bool {
 	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)
 	bytes := writePack.Bytes()
 	select {
 	case udpSender.udpChannel <- bytes:
+		return true
 	default:
 		logger.Warning.Println("udp channel is full.")
+		return false
 	}
 }
 
-- 
2.43.0


From e63bcd8bdb69371768b9a60cf76f07749ac0aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 05/61] fix: give processes started in the same second
 different transaction ids

---
 scouterx/common/util/keygen/keygen.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/scouterx/common/util/keygen/keygen.go b/scouterx/common/util/keygen/keygen.go
index be95773..a273363 100644
--- a/scouterx/common/util/keygen/keygen.go
+++ b/scouterx/common/util/keygen/keygen.go
@@ -1,7 +1,10 @@
 package keygen
 
 import (
+	crand "crypto/rand"
+	"encoding/binary"
 	"math/rand"
+	"os"
 	"sync"
 	"time"
 )
@@ -15,6 +18,7 @@ var keygen *KeyGen
 type KeyGen struct {
 	sync.Mutex
 	random *rand.Rand
+	mask   int64 //own to this process, rand.Source has no more than 31 bits of seed
 }
 
 // GetInstance returns single new Keygen
@@ -22,16 +26,26 @@ func getInstance() *KeyGen {
 	once.Do(
 		func() {
 			keygen = new(KeyGen)
-			keygen.random = rand.New(rand.NewSource(time.Now().Unix()))
-
+			seed, mask := newSeed()
+			keygen.random = rand.New(rand.NewSource(seed))
+			keygen.mask = mask
 		})
 	return keygen
 }
 
+// newSeed returns a seed and a mask which no other process has, even if started at the same time
+func newSeed() (seed int64, mask int64) {
+	var b [16]byte
+	if _, err := crand.Read(b[:]); err != nil {
+		return time.Now().UnixNano(), int64(os.Getpid()) << 32
+	}
+	return int64(binary.BigEndian.Uint64(b[:8])), int64(binary.BigEndian.Uint64(b[8:]) >> 1)
+}
+
 // Next returns a non-negative pseudo-random 63-bit integer
 func Next() int64 {
 	keygen.Lock()
-	key := keygen.random.Int63()
+	key := keygen.random.Int63() ^ keygen.mask
 	keygen.Unlock()
 	return key
 }
-- 
2.43.0


From 1a6899fa6fc29e8966fe9ed9e0e5084548f44ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 06/61] fix: do not lose packets being written while the
 collector address or udp_max_bytes is changed

---
 scouterx/netio/udpclient/udpclient.go | 35 +++++++++++++++++++++------
 scouterx/netio/udpsender/udpsender.go | 16 ++++--------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/scouterx/netio/udpclient/udpclient.go b/scouterx/netio/udpclient/udpclient.go
index 65f3b97..4e4ae35 100644
--- a/scouterx/netio/udpclient/udpclient.go
+++ b/scouterx/netio/udpclient/udpclient.go
@@ -9,6 +9,7 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util/keygen"
 	"net"
 	"strconv"
+	"sync"
 )
 
 //UDPClient is a upp socket client
@@ -17,6 +18,7 @@ type UDPClient struct {
 	remoteAddress string
 	remotePort    int
 	udpMaxBytes   int
+	lock          sync.RWMutex // held for writing while Conn or udpMaxBytes is replaced
 }
 
 //NewUDPClient returns new udpclient instance
@@ -28,28 +30,41 @@ func New(addr string , port int) *UDPClient {
 }
 
 func (udpClient *UDPClient) SetUDPMaxBytes (max int) {
+	udpClient.lock.Lock()
+	defer udpClient.lock.Unlock()
 	udpClient.udpMaxBytes = max
 }
 
+//Reopen connects to another address, after the writes in progress are done.
+func (udpClient *UDPClient) Reopen(addr string, port int) error {
+	conn, err := dial(addr, port)
+	udpClient.lock.Lock()
+	defer udpClient.lock.Unlock()
+	udpClient.close()
+	udpClient.remoteAddress = addr
+	udpClient.remotePort = port
+	udpClient.Conn = conn
+	return err
+}
 
 func (udpClient *UDPClient) open() error {
-	if udpClient.Conn != nil {
-		udpClient.close()
-	}
+	return udpClient.Reopen(udpClient.remoteAddress, udpClient.remotePort)
+}
 
-	address := udpClient.remoteAddress + ":" + strconv.Itoa(udpClient.remotePort)
+func dial(addr string, port int) (*net.UDPConn, error) {
+	address := addr + ":" + strconv.Itoa(port)
 	s, err := net.ResolveUDPAddr("udp", address)
 
 	if err != nil {
 		logger.Error.Printf("[scouter] can't resolve udp client. %s\n", err.Error())
-		return err
+		return nil, err
 	}
-	udpClient.Conn, err = net.DialUDP("udp", nil, s)
+	conn, err := net.DialUDP("udp", nil, s)
 	if err != nil {
 		logger.Error.Printf("[scouter] can't dialup udp client. %s\n", err.Error())
-		return err
+		return nil, err
 	}
-	return nil
+	return conn, nil
 }
 
 func (udpClient *UDPClient) close() {
@@ -104,6 +119,8 @@ func (udpClient *UDPClient) sendBufferList(bufferCount int16, data []byte) {
 
 // Send will send data via udp socket
 func (udpClient *UDPClient) WriteBuffer(buff []byte) bool {
+	udpClient.lock.RLock()
+	defer udpClient.lock.RUnlock()
 	if udpClient.Conn == nil {
 		return false
 	}
@@ -119,6 +136,8 @@ func (udpClient *UDPClient) WriteBuffer(buff []byte) bool {
 }
 
 func (udpClient *UDPClient) WriteBufferList(bufferList *list.List) bool {
+	udpClient.lock.RLock()
+	defer udpClient.lock.RUnlock()
 	if udpClient.Conn == nil {
 		return false
 	}
diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index a37917c..a6a5a29 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -48,20 +48,14 @@ func GetInstance() *UDPSender {
 func reloadUdpSender() {
 	for {
 		time.Sleep(1000 * time.Millisecond)
-		if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort || udpMaxBytes != ac.UDPMaxBytes {
+		if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort {
 			serverAddr = ac.NetCollectorIP
 			udpServerPort = ac.NetCollectorUDPPort
+			udpSender.udpClient.Reopen(serverAddr, udpServerPort)
+		}
+		if udpMaxBytes != ac.UDPMaxBytes {
 			udpMaxBytes = ac.UDPMaxBytes
-
-			udpSender.running = true
-			prevClient := udpSender.udpClient
-			udpClient := udpclient.New(serverAddr, udpServerPort)
-			udpClient.SetUDPMaxBytes(udpMaxBytes)
-			udpSender.udpClient = udpClient
-
-			if prevClient.Conn != nil {
-				prevClient.Conn.Close()
-			}
+			udpSender.udpClient.SetUDPMaxBytes(udpMaxBytes)
 		}
 	}
 }
-- 
2.43.0


From c53bbd89514afc8b24c3b627b5a1b0326203925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 07/61] fix: keep the order of packets when a batch contains
 one that needs fragments

---
 scouterx/netio/udpclient/udpclient.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scouterx/netio/udpclient/udpclient.go b/scouterx/netio/udpclient/udpclient.go
index 4e4ae35..4103359 100644
--- a/scouterx/netio/udpclient/udpclient.go
+++ b/scouterx/netio/udpclient/udpclient.go
@@ -147,6 +147,11 @@ func (udpClient *UDPClient) WriteBufferList(bufferList *list.List) bool {
 		b := buffer.Value.([]byte)
 		buffLen := len(b)
 		if buffLen > udpClient.udpMaxBytes {
+			if out.GetWriteSize() > 0 { //keep the order
+				udpClient.sendBufferList(outCount, out.Bytes())
+				out = netdata.NewDataOutputX(nil)
+				outCount = 0
+			}
 			udpClient.writeMTU(b, udpClient.udpMaxBytes)
 		} else if buffLen+ int(out.GetWriteSize()) > udpClient.udpMaxBytes {
 			udpClient.sendBufferList(outCount, out.Bytes())
-- 
2.43.0


From 0bc216c1089da14da155d7f439c4537cf48ac536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 08/61] fix: do not take the cache's read lock recursively in
 lra Empty

---
 scouterx/common/structure/lra/lra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/structure/lra/lra.go b/scouterx/common/structure/lra/lra.go
index 317681d..c16949f 100644
--- a/scouterx/common/structure/lra/lra.go
+++ b/scouterx/common/structure/lra/lra.go
@@ -71,7 +71,7 @@ func (c *Cache) Contains(key interface{}) bool {
 func (c *Cache) Empty() bool {
 	lock.RLock()
 	defer lock.RUnlock()
-	return c.Size() == 0
+	return c.lst.Len() == 0 //Size() would take the read lock again
 }
 
 
-- 
2.43.0


From f0c915982fb16565fad67430fff17ddd1f5c3978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 09/61] fix: remove a key from the ordering too when it is
 removed from cachemap2

---
 scouterx/common/structure/cachemap2/cachemap2.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index fce8574..3d4a916 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -68,12 +68,11 @@ func (m *CacheMap) Add(key interface{}, item interface{}) {
 func (m *CacheMap) Remove(key interface{}) {
 	lock.Lock()
 	defer lock.Unlock()
-	delete(m.table, key)
-	//index, contains := m.orderPos[key]
-	//if contains {
-	//	m.ordering.Remove(index)
-	//	delete(m.orderPos, key)
-	//}
+	if _, contains := m.table[key]; contains {
+		delete(m.table, key)
+		m.ordering.Remove(m.ordering.IndexOf(key))
+		delete(m.orderPos, key)
+	}
 }
 
 func (m *CacheMap) removeExceeded() {
-- 
2.43.0


From ae2c5cbfb18196485027cc145c53f2376e5df552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 10/61] fix: take the values of a bounded cache as one
 consistent snapshot

---
 scouterx/common/structure/cachemap/cachemap.go   | 4 +---
 scouterx/common/structure/cachemap2/cachemap2.go | 4 +---
 scouterx/common/structure/lra/lra.go             | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/scouterx/common/structure/cachemap/cachemap.go b/scouterx/common/structure/cachemap/cachemap.go
index fad02b2..979c27c 100644
--- a/scouterx/common/structure/cachemap/cachemap.go
+++ b/scouterx/common/structure/cachemap/cachemap.go
@@ -14,15 +14,13 @@ type CacheMap struct {
 }
 
 func (m *CacheMap) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(m.table.Size()) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(m.table.Size()) * 1.2))
 	for _, v := range m.table.Values() {
-		lock.RUnlock()
 		if v != nil {
 			l = append(l, v)
 		}
-		lock.RLock()
 	}
 	return l
 }
diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index 3d4a916..e78e25d 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -18,15 +18,13 @@ type CacheMap struct {
 }
 
 func (m *CacheMap) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(len(m.table)) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(len(m.table)) * 1.2))
 	for _, v := range m.table {
-		lock.RUnlock()
 		if v != nil {
 			l = append(l, v)
 		}
-		lock.RLock()
 	}
 	return l
 }
diff --git a/scouterx/common/structure/lra/lra.go b/scouterx/common/structure/lra/lra.go
index c16949f..0396467 100644
--- a/scouterx/common/structure/lra/lra.go
+++ b/scouterx/common/structure/lra/lra.go
@@ -119,18 +119,16 @@ func (c *Cache) Clear() {
 }
 
 func (c *Cache) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
 	for _, e := range c.table {
-		lock.RUnlock()
 		if e != nil {
 			kv := e.Value.(*entry)
 			if kv != nil && kv.value != nil {
 				l = append(l, kv.value)
 			}
 		}
-		lock.RLock()
 	}
 	return l
 }
-- 
2.43.0


From 46f236c59a8eac408dfd6738c2aa4dd701e1f49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 11/61] fix: read the size of bounded caches under their lock

---
 scouterx/common/structure/cachemap/cachemap.go   | 6 ++++--
 scouterx/common/structure/cachemap2/cachemap2.go | 6 ++++--
 scouterx/common/structure/cacheset/cacheset.go   | 2 ++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/scouterx/common/structure/cachemap/cachemap.go b/scouterx/common/structure/cachemap/cachemap.go
index 979c27c..955d701 100644
--- a/scouterx/common/structure/cachemap/cachemap.go
+++ b/scouterx/common/structure/cachemap/cachemap.go
@@ -88,10 +88,12 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 func (m *CacheMap) Empty() bool {
 	lock.Lock()
 	defer lock.Unlock()
-	return m.Size() == 0
+	return m.table.Size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return m.table.Size()
 }
 
@@ -102,5 +104,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.table.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index e78e25d..827e76f 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -102,10 +102,12 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 func (m *CacheMap) Empty() bool {
 	lock.Lock()
 	defer lock.Unlock()
-	return m.Size() == 0
+	return m.ordering.Size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return m.ordering.Size()
 }
 
@@ -118,5 +120,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.ordering.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
diff --git a/scouterx/common/structure/cacheset/cacheset.go b/scouterx/common/structure/cacheset/cacheset.go
index 607aebb..af0669a 100644
--- a/scouterx/common/structure/cacheset/cacheset.go
+++ b/scouterx/common/structure/cacheset/cacheset.go
@@ -62,6 +62,8 @@ func (set *CacheSet) Empty() bool {
 }
 
 func (set *CacheSet) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return set.table.Size()
 }
 
-- 
2.43.0


From 4775ae61d0445f613b638b1de7591549ee04963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 12/61] fix: read strings and blobs completely whatever the
 stream's chunking, and reject bad lengths

---
 scouterx/common/netdata/datainputx.go | 52 ++++++++++++++++-----------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 3c6e859..468a9f5 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -8,6 +8,8 @@ import (
 	"strconv"
 )
 
+const readChunkSize = 64 * 1024
+
 // DataInputX is a byte buffer read stream struct
 type DataInputX struct {
 	offset int32
@@ -93,26 +95,24 @@ func (in *DataInputX) ReadString() (string, error) {
 
 func (in *DataInputX) ReadBlob() ([]byte, error) {
 	baseLen, err := in.ReadUInt8()
+	if err != nil {
+		return []byte{}, err
+	}
 	var length int32
 	switch baseLen {
 	case 255:
 		var v int16
 		v, err = in.ReadInt16()
-		length = int32(v)
+		length = int32(uint16(v))
 	case 254:
 		length, err = in.ReadInt32()
-	case 0:
-		return []byte{}, err
 	default:
 		length = int32(baseLen)
 	}
-	in.offset += length
-	val := make([]byte, length)
-	_, err = in.reader.Read(val)
 	if err != nil {
-		val = []byte{}
+		return []byte{}, err
 	}
-	return val, err
+	return in.Read(length)
 }
 
 // ReadDecimal returns number value
@@ -166,24 +166,34 @@ func (in *DataInputX) ReadValue() (Value, error) {
 
 func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 	length, err := in.ReadInt32()
-	b, err := in.Read(length)
-	return b, err
-	//val := make([]byte, length)
-	//_, err = in.reader.Read(val)
-	//if err != nil {
-	//	val = []byte{}
-	//}
-	//return val, err
+	if err != nil {
+		return []byte{}, err
+	}
+	return in.Read(length)
 }
 
+// Read reads exactly len bytes. It fails when the stream ends before them.
 func (in *DataInputX) Read(len int32) ([]byte, error) {
+	if len < 0 {
+		return []byte{}, errors.New("[scouter] negative length:" + strconv.FormatInt(int64(len), 10))
+	}
 	in.offset += len
-	val := make([]byte, len)
-	_, err := in.reader.Read(val)
-	if err != nil {
-		val = []byte{}
+	if len <= readChunkSize {
+		val := make([]byte, len)
+		if _, err := io.ReadFull(in.reader, val); err != nil {
+			return []byte{}, err
+		}
+		return val, nil
+	}
+	// the length is not trusted before the bytes are there.
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, in.reader, int64(len)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return []byte{}, err
 	}
-	return val, err
+	return buf.Bytes(), nil
 }
 
 func (in *DataInputX) ReadPack() (Pack, error) {
-- 
2.43.0


From b389da45e288d50a5d9ac8832ad7823431c6cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 13/61] fix: read the 3 and 5 byte decimals the collector
 writes and reject undefined decimal lengths

---
 scouterx/common/netdata/datainputx.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 468a9f5..ce6e069 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -118,9 +118,12 @@ func (in *DataInputX) ReadBlob() ([]byte, error) {
 // ReadDecimal returns number value
 func (in *DataInputX) ReadDecimal() (int64, error) {
 	len, err := in.ReadUInt8()
+	if err != nil {
+		return 0, err
+	}
 	switch len {
 	case 0:
-		return 0, err
+		return 0, nil
 	case 1:
 		var v int8
 		v, err = in.ReadInt8()
@@ -129,6 +132,16 @@ func (in *DataInputX) ReadDecimal() (int64, error) {
 		var v int16
 		v, err = in.ReadInt16()
 		return int64(v), err
+	case 3, 5:
+		b, err := in.Read(int32(len))
+		if err != nil {
+			return 0, err
+		}
+		v := int64(int8(b[0]))
+		for _, c := range b[1:] {
+			v = v<<8 | int64(c)
+		}
+		return v, nil
 	case 4:
 		var v int32
 		v, err = in.ReadInt32()
@@ -138,7 +151,7 @@ func (in *DataInputX) ReadDecimal() (int64, error) {
 		v, err = in.ReadInt64()
 		return v, err
 	default:
-		return 0, err
+		return 0, errors.New("[scouter] Not defined decimal length:" + strconv.FormatUint(uint64(len), 10))
 	}
 }
 
-- 
2.43.0


From a071659adaa2f51cb1095fea76b087c77cb01927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 14/61] fix: report truncated and unknown values and packs as
 errors instead of reading them as good or panicking

---
 scouterx/common/netdata/datainputx.go         | 22 +++++-
 scouterx/common/netdata/listvalue.go          |  5 +-
 scouterx/common/netdata/mappack.go            |  6 ++
 scouterx/common/netdata/mapvalue.go           |  6 ++
 scouterx/common/netdata/objectpack.go         | 68 ++++++++++++++-----
 .../common/netdata/perfcounter_k8s_pack.go    | 51 ++++++++++----
 scouterx/common/netdata/perfcounterpack.go    | 15 ++--
 7 files changed, 133 insertions(+), 40 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index ce6e069..00d8081 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -168,6 +168,9 @@ func (in *DataInputX) ReadBoolean() (bool, error) {
 // ReadValue reads value from datainputx
 func (in *DataInputX) ReadValue() (Value, error) {
 	valueType, err := in.ReadInt8()
+	if err != nil {
+		return NewNilValue(), err
+	}
 	value := CreateValue(byte(valueType))
 	if value == nil {
 		return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.FormatUint(uint64(valueType), 10))
@@ -177,6 +180,19 @@ func (in *DataInputX) ReadValue() (Value, error) {
 
 }
 
+// ReadMapValue reads a value that has to be a map
+func (in *DataInputX) ReadMapValue() (*MapValue, error) {
+	value, err := in.ReadValue()
+	if err != nil {
+		return NewMapValue(), err
+	}
+	mapValue, ok := value.(*MapValue)
+	if !ok {
+		return NewMapValue(), errors.New("[scouter] Not a map value type:" + strconv.FormatUint(uint64(value.GetValueType()), 10))
+	}
+	return mapValue, nil
+}
+
 func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 	length, err := in.ReadInt32()
 	if err != nil {
@@ -215,8 +231,10 @@ func (in *DataInputX) ReadPack() (Pack, error) {
 		return nil, err
 	}
 	pack := CreatePack(byte(packType))
-	pack.Read(in)
-	return pack, err
+	if pack == nil {
+		return nil, errors.New("[scouter] Not defined pack type:" + strconv.FormatUint(uint64(uint8(packType)), 10))
+	}
+	return pack.Read(in)
 
 }
 
diff --git a/scouterx/common/netdata/listvalue.go b/scouterx/common/netdata/listvalue.go
index 62b8f50..641f788 100644
--- a/scouterx/common/netdata/listvalue.go
+++ b/scouterx/common/netdata/listvalue.go
@@ -140,7 +140,10 @@ func (listValue *ListValue) Read(in *DataInputX) (Value, error) {
 	size, err := in.ReadDecimal()
 	for i := int64(0); i < size; i++ {
 		var value Value
-		value , err = in.ReadValue()
+		value, err = in.ReadValue()
+		if err != nil {
+			return listValue, err
+		}
 		listValue.Value = append(listValue.Value, value)
 	}
 	return listValue, err
diff --git a/scouterx/common/netdata/mappack.go b/scouterx/common/netdata/mappack.go
index ba96f7c..f798aa2 100644
--- a/scouterx/common/netdata/mappack.go
+++ b/scouterx/common/netdata/mappack.go
@@ -42,7 +42,13 @@ func (mapPack *MapPack) Read(in *DataInputX) (Pack, error) {
 		var key string
 		var value Value
 		key, err = in.ReadString()
+		if err != nil {
+			return mapPack, err
+		}
 		value, err = in.ReadValue()
+		if err != nil {
+			return mapPack, err
+		}
 		mapPack.Table[key] = value
 	}
 	return mapPack, err
diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 7282ec2..92b6ad2 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -40,7 +40,13 @@ func (mapValue *MapValue) Read(in *DataInputX) (Value, error) {
 		var key string
 		var value Value
 		key, err = in.ReadString()
+		if err != nil {
+			return mapValue, err
+		}
 		value, err = in.ReadValue()
+		if err != nil {
+			return mapValue, err
+		}
 		mapValue.Table[key] = value
 	}
 	return mapValue, err
diff --git a/scouterx/common/netdata/objectpack.go b/scouterx/common/netdata/objectpack.go
index 246880c..40ad839 100644
--- a/scouterx/common/netdata/objectpack.go
+++ b/scouterx/common/netdata/objectpack.go
@@ -80,33 +80,65 @@ func (objectPack *ObjectPack) Write(out *DataOutputX) error {
 
 func (objectPack *ObjectPack2) Read(in *DataInputX) (Pack, error){
 	var err error
-	objectPack.SiteID, err = in.ReadString()
-	objectPack.ObjType, err = in.ReadString()
+	if objectPack.SiteID, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.ObjType, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
 	objHash, err := in.ReadDecimal()
+	if err != nil {
+		return objectPack, err
+	}
 	objectPack.ObjHash = int32(objHash)
-	objectPack.ObjName, err = in.ReadString()
-	objectPack.Address, err = in.ReadString()
-	objectPack.Version, err = in.ReadString()
-	objectPack.Alive, err = in.ReadBoolean()
-	objectPack.Wakeup, err = in.ReadDecimal()
-	objectPack.Family, err = in.ReadInt8()
-	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	if objectPack.ObjName, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Address, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Version, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Alive, err = in.ReadBoolean(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Wakeup, err = in.ReadDecimal(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Family, err = in.ReadInt8(); err != nil {
+		return objectPack, err
+	}
+	objectPack.Tags, err = in.ReadMapValue()
 
 	return objectPack, err
 }
 func (objectPack *ObjectPack) Read(in *DataInputX) (Pack, error) {
 	var err error
-	objectPack.ObjType, err = in.ReadString()
+	if objectPack.ObjType, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
 	objHash, err := in.ReadDecimal()
+	if err != nil {
+		return objectPack, err
+	}
 	objectPack.ObjHash = int32(objHash)
-	objectPack.ObjName, err = in.ReadString()
-	objectPack.Address, err = in.ReadString()
-	objectPack.Version, err = in.ReadString()
-	objectPack.Alive, err = in.ReadBoolean()
-	objectPack.Wakeup, err = in.ReadDecimal()
-	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	if objectPack.ObjName, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Address, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Version, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Alive, err = in.ReadBoolean(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Wakeup, err = in.ReadDecimal(); err != nil {
+		return objectPack, err
+	}
+	objectPack.Tags, err = in.ReadMapValue()
 
 	return objectPack, err
 }
diff --git a/scouterx/common/netdata/perfcounter_k8s_pack.go b/scouterx/common/netdata/perfcounter_k8s_pack.go
index c1718da..4eed01a 100644
--- a/scouterx/common/netdata/perfcounter_k8s_pack.go
+++ b/scouterx/common/netdata/perfcounter_k8s_pack.go
@@ -49,20 +49,43 @@ func (pack *PerfCounterK8SPack) Write(out *DataOutputX) error {
 // Read will read PerfCounterPack from datainputx
 func (pack *PerfCounterK8SPack) Read(in *DataInputX) (Pack, error) {
 	var err error
-	pack.Time, err = in.ReadInt64()
-	pack.SiteID, err = in.ReadString()
-	pack.Cluster, err = in.ReadString()
-	pack.NameSpace, err = in.ReadString()
-	pack.NodeName, err = in.ReadString()
-	pack.DaemonSetName, err = in.ReadString()
-	pack.DeploymentName, err = in.ReadString()
-	pack.PodName, err = in.ReadString()
-	pack.ContainerName, err = in.ReadString()
-	pack.ObjName, err = in.ReadString()
-	pack.Timetype, err = in.ReadInt8()
-	pack.MetricLevel, err = in.ReadInt8()
-	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	if pack.Time, err = in.ReadInt64(); err != nil {
+		return pack, err
+	}
+	if pack.SiteID, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.Cluster, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.NameSpace, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.NodeName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.DaemonSetName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.DeploymentName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.PodName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.ContainerName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.ObjName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.Timetype, err = in.ReadInt8(); err != nil {
+		return pack, err
+	}
+	if pack.MetricLevel, err = in.ReadInt8(); err != nil {
+		return pack, err
+	}
+	pack.Data, err = in.ReadMapValue()
 	return pack, err
 }
 
diff --git a/scouterx/common/netdata/perfcounterpack.go b/scouterx/common/netdata/perfcounterpack.go
index 49145e7..d5d6582 100644
--- a/scouterx/common/netdata/perfcounterpack.go
+++ b/scouterx/common/netdata/perfcounterpack.go
@@ -34,11 +34,16 @@ func (pack *PerfCounterPack) Write(out *DataOutputX) error {
 // Read will read PerfCounterPack from datainputx
 func (pack *PerfCounterPack) Read(in *DataInputX) (Pack, error) {
 	var err error
-	pack.Time, err = in.ReadInt64()
-	pack.ObjName, err = in.ReadString()
-	pack.Timetype, err = in.ReadInt8()
-	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	if pack.Time, err = in.ReadInt64(); err != nil {
+		return pack, err
+	}
+	if pack.ObjName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.Timetype, err = in.ReadInt8(); err != nil {
+		return pack, err
+	}
+	pack.Data, err = in.ReadMapValue()
 	return pack, err
 }
 
-- 
2.43.0


From 07ba8d0171290344b9106fc7a63bc3a625d48fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 15/61] fix: read text and alert packs

---
 scouterx/common/netdata/alertpack.go | 25 +++++++++++++++++++++++--
 scouterx/common/netdata/textpack.go  | 12 ++++++++++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/scouterx/common/netdata/alertpack.go b/scouterx/common/netdata/alertpack.go
index c86a3de..0efe267 100644
--- a/scouterx/common/netdata/alertpack.go
+++ b/scouterx/common/netdata/alertpack.go
@@ -39,8 +39,29 @@ func (p *AlertPack) Write(out *DataOutputX) error {
 }
 
 func (p *AlertPack) Read(in *DataInputX) (Pack, error) {
-	//TODO not yet implemented
-	return p, nil
+	var err error
+	if p.Time, err = in.ReadInt64(); err != nil {
+		return p, err
+	}
+	level, err := in.ReadUInt8()
+	if err != nil {
+		return p, err
+	}
+	p.Level = AlertLevel(level)
+	if p.ObjType, err = in.ReadString(); err != nil {
+		return p, err
+	}
+	if p.ObjHash, err = in.ReadInt32(); err != nil {
+		return p, err
+	}
+	if p.Title, err = in.ReadString(); err != nil {
+		return p, err
+	}
+	if p.Message, err = in.ReadString(); err != nil {
+		return p, err
+	}
+	p.Tags, err = in.ReadMapValue()
+	return p, err
 }
 
 func (pack *AlertPack) ToString() string {
diff --git a/scouterx/common/netdata/textpack.go b/scouterx/common/netdata/textpack.go
index 961c907..8b1c5a0 100644
--- a/scouterx/common/netdata/textpack.go
+++ b/scouterx/common/netdata/textpack.go
@@ -27,8 +27,16 @@ func (p *TextPack) Write(out *DataOutputX) error {
 }
 
 func (p *TextPack) Read(in *DataInputX) (Pack, error) {
-	//TODO not yet implemented
-	return p, nil
+	xtype, err := in.ReadString()
+	if err != nil {
+		return p, err
+	}
+	p.Xtype = texttype.TextType(xtype)
+	if p.Hash, err = in.ReadInt32(); err != nil {
+		return p, err
+	}
+	p.Text, err = in.ReadString()
+	return p, err
 }
 
 func (pack *TextPack) ToString() string {
-- 
2.43.0


From 56b3aa4c58eb4ba72d045b158b46402a677e570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 16/61] fix: read an IP address value as one

---
 scouterx/common/netdata/valuecreator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/valuecreator.go b/scouterx/common/netdata/valuecreator.go
index 7328182..55a6adb 100644
--- a/scouterx/common/netdata/valuecreator.go
+++ b/scouterx/common/netdata/valuecreator.go
@@ -24,7 +24,7 @@ func CreateValue(valueType byte) Value {
 	case valueconstants.BLOB:
 		return NewBlobEmptyValue()
 	case valueconstants.IP4ADDR:
-		return NewBlobEmptyValue()
+		return NewIp4EmptyValue()
 	case valueconstants.LIST:
 		return NewListValue()
 	case valueconstants.MAP:
-- 
2.43.0


From 3aedab94e5672d0b780ec138a17642f57e7d7ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 17/61] fix: register a service as active only once its name is
 set

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index f46fe2d..46f097f 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -332,7 +332,6 @@ func endChildGoroutineService(ctx context.Context) {
 
 func startService(ctx context.Context, serviceName, remoteAddr string) (context.Context, *netio.TraceContext) {
 	newCtx, tctx := tctxmanager.NewTraceContext(ctx)
-	tctxmanager.Start(tctx)
 
 	tctx.Gxid = tctx.Txid
 	tctx.Goid = common.Goid()
@@ -341,6 +340,7 @@ func startService(ctx context.Context, serviceName, remoteAddr string) (context.
 	tctx.ServiceName = serviceName
 	tctx.ServiceHash = netio.SendServiceName(serviceName)
 	tctx.RemoteIp = normalizeIp(remoteAddr)
+	tctxmanager.Start(tctx) // last: it is visible to others from now on
 	return newCtx, tctx
 }
 
-- 
2.43.0


From 96be7a4450ab9ce65f2339d391a186914e70f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 18/61] fix: retry to open the UDP socket when the collector's
 name could not be resolved

---
 scouterx/netio/udpclient/udpclient.go | 7 +++++++
 scouterx/netio/udpsender/udpsender.go | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/scouterx/netio/udpclient/udpclient.go b/scouterx/netio/udpclient/udpclient.go
index 4103359..b0ac62d 100644
--- a/scouterx/netio/udpclient/udpclient.go
+++ b/scouterx/netio/udpclient/udpclient.go
@@ -47,6 +47,13 @@ func (udpClient *UDPClient) Reopen(addr string, port int) error {
 	return err
 }
 
+//IsOpen tells if there is a socket to write to.
+func (udpClient *UDPClient) IsOpen() bool {
+	udpClient.lock.RLock()
+	defer udpClient.lock.RUnlock()
+	return udpClient.Conn != nil
+}
+
 func (udpClient *UDPClient) open() error {
 	return udpClient.Reopen(udpClient.remoteAddress, udpClient.remotePort)
 }
diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index a6a5a29..eee8426 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -48,7 +48,7 @@ func GetInstance() *UDPSender {
 func reloadUdpSender() {
 	for {
 		time.Sleep(1000 * time.Millisecond)
-		if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort {
+		if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort || !udpSender.udpClient.IsOpen() {
 			serverAddr = ac.NetCollectorIP
 			udpServerPort = ac.NetCollectorUDPPort
 			udpSender.udpClient.Reopen(serverAddr, udpServerPort)
-- 
2.43.0


From adc4f0664b60b2488b315a24db9ba233bfdac442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 19/61] fix: give up a collector connection whose peer does not
 read the answers

---
 scouterx/netio/tcpclient/tcpclient.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scouterx/netio/tcpclient/tcpclient.go b/scouterx/netio/tcpclient/tcpclient.go
index 356ffc6..e4bf5fc 100644
--- a/scouterx/netio/tcpclient/tcpclient.go
+++ b/scouterx/netio/tcpclient/tcpclient.go
@@ -111,6 +111,10 @@ func (c *TCPClient) Process() error {
 			out0.WriteIntBytes(packBytes)
 		}
 		out0.WriteUInt8(tcpflag.NoNEXT)
+		err = c.conn.SetWriteDeadline(time.Now().Add(time.Duration(ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond))
+		if err != nil {
+			return err
+		}
 		err = out.Write(out0.Bytes())
 		if err != nil {
 			return err
-- 
2.43.0


From 8de3028b308fa8297efcdc0a3b985505fea78979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 20/61] fix: leave a connection whose collector address was
 changed while it was being dialled

---
 scouterx/netio/tcpclient/tcpclient.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/scouterx/netio/tcpclient/tcpclient.go b/scouterx/netio/tcpclient/tcpclient.go
index e4bf5fc..aaf7547 100644
--- a/scouterx/netio/tcpclient/tcpclient.go
+++ b/scouterx/netio/tcpclient/tcpclient.go
@@ -71,16 +71,13 @@ func (c *TCPClient) Process() error {
 	out := netdata.NewDataOutputX(c.conn)
 	defer c.conn.Close()
 
-	serverAddr := ac.NetCollectorIP
-	serverPort := ac.NetCollectorTCPPort
-
 	_, err := out.WriteInt32(int32(netcafeconstant.TCP_AGENT_V2))
 	_, err = out.WriteInt32(c.objHash)
 	if err != nil {
 		return err
 	}
 
-	for c.objHash == ac.ObjHash && serverAddr == ac.NetCollectorIP && serverPort == ac.NetCollectorTCPPort {
+	for c.objHash == ac.ObjHash && c.host == ac.NetCollectorIP && c.port == ac.NetCollectorTCPPort {
 		err := c.conn.SetReadDeadline(time.Now().Add(time.Duration(ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond))
 		if err != nil {
 			return err
-- 
2.43.0


From cdf0532bd289c9a38d94651d50d6d2808cbfab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 21/61] fix: keep environment values containing '=' whole and
 skip entries without one

---
 scouterx/conf/configure.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index df1d3e1..82db1cf 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -227,7 +227,10 @@ func (conf *Configure) Refresh() {
 	if info == nil || info.ModTime().After(conf.lastModified) {
 		props := properties.NewProperties()
 		for _, e := range os.Environ() {
-			pair := strings.Split(e, "=")
+			pair := strings.SplitN(e, "=", 2)
+			if len(pair) != 2 {
+				continue
+			}
 			props.Set(pair[0], pair[1])
 		}
 
-- 
2.43.0


From c76314e9fb374ac6a1aa4bc3c6e3c9c7531e1865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 22/61] fix: reload the configuration file whenever its content
 changes, not only when its time stamp grows

---
 scouterx/conf/configure.go | 40 +++++++++++++-------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 82db1cf..279e018 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -1,16 +1,17 @@
 package conf
 
 import (
+	"bytes"
 	"github.com/emirpasic/gods/maps/linkedhashmap"
 	"github.com/magiconair/properties"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/logger"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
 	"sync"
-	"syscall"
 	"time"
 )
 
@@ -40,7 +41,8 @@ type ConfigureDesc struct {
 type Configure struct {
 	sync.Mutex
 
-	lastModified time.Time
+	lastExist bool
+	lastContent []byte
 
 	_trace bool
 	TraceObjSend bool
@@ -212,19 +214,13 @@ func (conf *Configure) Refresh() {
 	defer conf.Unlock()
 
 	filePath := getConfFilePath()
-	info, err := os.Stat(filePath)
-	if err != nil {
+	content, err := ioutil.ReadFile(filePath)
+	exist := err == nil
+	if err != nil && !os.IsNotExist(err) {
 		//TODO logging
-		switch e := err.(type) {
-		case *os.PathError:
-			if e.Err != syscall.ENOENT {
-				return
-			}
-		default:
-			return
-		}
+		return
 	}
-	if info == nil || info.ModTime().After(conf.lastModified) {
+	if !exist || !conf.lastExist || !bytes.Equal(content, conf.lastContent) {
 		props := properties.NewProperties()
 		for _, e := range os.Environ() {
 			pair := strings.SplitN(e, "=", 2)
@@ -234,18 +230,11 @@ func (conf *Configure) Refresh() {
 			props.Set(pair[0], pair[1])
 		}
 
-		fileProps, err := properties.LoadFile(filePath, properties.UTF8)
-		if err != nil {
-			switch e := err.(type) {
-			case *os.PathError:
-				if e.Err != syscall.ENOENT {
-					return
-				}
-			default:
+		if exist {
+			fileProps, err := properties.Load(content, properties.UTF8)
+			if err != nil {
 				return
 			}
-		}
-		if fileProps != nil {
 			props.Merge(fileProps)
 		}
 		props = props.FilterFunc(func (k, v string) bool {
@@ -253,9 +242,8 @@ func (conf *Configure) Refresh() {
 		})
 
 		conf.addToConf(props)
-		if info != nil {
-			conf.lastModified = info.ModTime()
-		}
+		conf.lastExist = exist
+		conf.lastContent = content
 
 		//last
 		confChangeNotify()
-- 
2.43.0


From bfd2c80a9d7457770f104ef0f92d37d44a87e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 23/61] fix: start with environment settings and defaults when
 the configuration file cannot be read at start

---
 scouterx/conf/configure.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 279e018..62c2006 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -41,6 +41,7 @@ type ConfigureDesc struct {
 type Configure struct {
 	sync.Mutex
 
+	loaded bool
 	lastExist bool
 	lastContent []byte
 
@@ -216,7 +217,7 @@ func (conf *Configure) Refresh() {
 	filePath := getConfFilePath()
 	content, err := ioutil.ReadFile(filePath)
 	exist := err == nil
-	if err != nil && !os.IsNotExist(err) {
+	if err != nil && !os.IsNotExist(err) && conf.loaded {
 		//TODO logging
 		return
 	}
@@ -232,16 +233,19 @@ func (conf *Configure) Refresh() {
 
 		if exist {
 			fileProps, err := properties.Load(content, properties.UTF8)
-			if err != nil {
+			if err != nil && conf.loaded {
 				return
 			}
-			props.Merge(fileProps)
+			if err == nil {
+				props.Merge(fileProps)
+			}
 		}
 		props = props.FilterFunc(func (k, v string) bool {
 			return v != ""
 		})
 
 		conf.addToConf(props)
+		conf.loaded = true
 		conf.lastExist = exist
 		conf.lastContent = content
 
-- 
2.43.0


From 3673411c465697568b1632e281bdc53642f9b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 24/61] fix: use the default for sizes and timeouts configured
 as zero or below

---
 scouterx/conf/configure.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 62c2006..e8a0310 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -282,10 +282,22 @@ func boolOf(props *properties.Properties, key string, defaultValue bool, desc st
 }
 
 func intOf(props *properties.Properties, key string, defaultValue int, desc string) int {
+	return putInt(key, props.GetInt(key, defaultValue), defaultValue, desc)
+}
+
+// positiveIntOf is intOf for sizes and durations, for which zero and below are not usable.
+func positiveIntOf(props *properties.Properties, key string, defaultValue int, desc string) int {
+	value := props.GetInt(key, defaultValue)
+	if value <= 0 {
+		value = defaultValue
+	}
+	return putInt(key, value, defaultValue, desc)
+}
+
+func putInt(key string, value int, defaultValue int, desc string) int {
 	descSync.Lock()
 	defer descSync.Unlock()
 
-	value := props.GetInt(key, defaultValue)
 	descMap.Put(key, ConfigureDesc{
 		Key:          key,
 		Value:        strconv.Itoa(value),
@@ -333,24 +345,24 @@ func (conf *Configure) addToConf(props *properties.Properties) {
 	conf._trace = props.GetBool("_trace", false)
 
 	conf.TraceObjSend = boolOf(props, "trace_obj_send", false, "")
-	conf.SendQueueSize = intOf(props, "send_queue_size", 3000, "")
+	conf.SendQueueSize = positiveIntOf(props, "send_queue_size", 3000, "")
 
 	conf.NetCollectorIP = stringOf(props, "net_collector_ip", "127.0.0.1", "")
 	conf.NetCollectorUDPPort = intOf(props, "net_collector_udp_port", 6100, "")
 	conf.NetCollectorTCPPort = intOf(props, "net_collector_tcp_port", 6100, "")
-	conf.NetCollectorTcpSoTimeoutMs = intOf(props, "net_collector_tcp_so_timeout_ms", 60000, "")
-	conf.NetCollectorTcpConnectionTimeoutMs = intOf(props, "net_collector_tcp_connection_timeout_ms", 3000, "")
-	conf.UDPMaxBytes = intOf(props, "udp_max_bytes", 60000, "")
+	conf.NetCollectorTcpSoTimeoutMs = positiveIntOf(props, "net_collector_tcp_so_timeout_ms", 60000, "")
+	conf.NetCollectorTcpConnectionTimeoutMs = positiveIntOf(props, "net_collector_tcp_connection_timeout_ms", 3000, "")
+	conf.UDPMaxBytes = positiveIntOf(props, "udp_max_bytes", 60000, "")
 
-	conf.StuckServiceBaseTimeMs = intOf(props, "stuck_service_base_time_ms", 300000, "")
+	conf.StuckServiceBaseTimeMs = positiveIntOf(props, "stuck_service_base_time_ms", 300000, "")
 	conf.StuckServiceRemoveEnabled = boolOf(props, "stuck_service_remove_enabled", true, "")
 	conf.StuckServiceAlertEnabled = boolOf(props, "stuck_service_alert_enabled", true, "")
 
 	conf.TraceActiveserviceYellowTime = intOf(props, "trace_activeservice_yellow_time", 3000, "")
 	conf.TraceActiveserviceRedTime = intOf(props, "trace_activeservice_red_time", 8000, "")
 
-	conf.ProfileStepMaxKeepInMemoryCount = intOf(props, "profile_step_max_keep_in_memory_count", 2048, "")
-	conf.ProfileStepMaxCount = intOf(props, "profile_step_max_count", 1024, "")
+	conf.ProfileStepMaxKeepInMemoryCount = positiveIntOf(props, "profile_step_max_keep_in_memory_count", 2048, "")
+	conf.ProfileStepMaxCount = positiveIntOf(props, "profile_step_max_count", 1024, "")
 
 	conf.ProfileHttpQuerystringEnabled = boolOf(props, "profile_http_querystring_enabled", false, "")
 	conf.ProfileHttpHeaderEnabled = boolOf(props, "profile_http_header_enabled", false, "")
-- 
2.43.0


From e6451411f5bb6d31806c3b2669648014b3466a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 25/61] fix: compile each pattern of a comma separated pattern
 list, so that lists match anything

---
 scouterx/common/util/strmatch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index 5b6ebfd..a1f98f1 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -122,7 +122,7 @@ func NewCommaSeparatedChainedStrMatcher(patterns string) CommaSeparatedChainedSt
 	matcher := CommaSeparatedChainedStrMatcher{}
 	arrPatterns := strings.Split(patterns, ",")
 	for _, pattern := range arrPatterns {
-		matcher.strMatches = append(matcher.strMatches, StrMatch{Pattern: pattern})
+		matcher.strMatches = append(matcher.strMatches, NewStrMatch(pattern))
 	}
 	return matcher
 }
-- 
2.43.0


From e1361549e7a74d52e0f316c754fc04004fe6ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 26/61] fix: save the configuration by replacing the file as a
 whole, so that a crash or a full disk cannot tear it

---
 scouterx/conf/exthandler.go | 55 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/scouterx/conf/exthandler.go b/scouterx/conf/exthandler.go
index f7a17d5..0261dc3 100644
--- a/scouterx/conf/exthandler.go
+++ b/scouterx/conf/exthandler.go
@@ -2,8 +2,13 @@ package conf
 
 import (
 	"io/ioutil"
+	"os"
+	"path/filepath"
+	"sync"
 )
 
+var saveLock sync.Mutex
+
 func LoadConfigText() string {
 	filePath := getConfFilePath()
 	bytes, err := ioutil.ReadFile(filePath)
@@ -15,7 +20,14 @@ func LoadConfigText() string {
 }
 
 func SaveConfigText(text string) bool {
-	err := ioutil.WriteFile(getConfFilePath(), []byte(text), 0644)
+	saveLock.Lock()
+	defer saveLock.Unlock()
+
+	filePath := getConfFilePath()
+	if target, err := filepath.EvalSymlinks(filePath); err == nil {
+		filePath = target
+	}
+	err := replaceFile(filePath, []byte(text))
 	if err != nil {
 		//TODO logging
 		return false
@@ -23,3 +35,44 @@ func SaveConfigText(text string) bool {
 	return true
 }
 
+// replaceFile puts the content in place as a whole: at any moment, and after a crash,
+// the file holds either the old or the new content.
+func replaceFile(filePath string, content []byte) error {
+	perm := os.FileMode(0644)
+	if info, err := os.Stat(filePath); err == nil {
+		perm = info.Mode().Perm()
+	}
+
+	tmpPath := filePath + ".tmp"
+	if err := writeFileSync(tmpPath, content, perm); err != nil {
+		os.Remove(tmpPath)
+		return err
+	}
+	if err := os.Rename(tmpPath, filePath); err != nil {
+		os.Remove(tmpPath)
+		return err
+	}
+
+	dir, err := os.Open(filepath.Dir(filePath))
+	if err != nil {
+		return err
+	}
+	defer dir.Close()
+	return dir.Sync()
+}
+
+func writeFileSync(filePath string, content []byte, perm os.FileMode) error {
+	f, err := os.OpenFile(filePath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(content)
+	if err == nil {
+		err = f.Sync()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
+}
+
-- 
2.43.0


From f51604247afbdeb869a14d7c65c250f427cad136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 27/61] fix: stuck service alert text has more verbs than
 arguments

---
 scouterx/strace/tctxmanager/tctxmanager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tctxmanager/tctxmanager.go b/scouterx/strace/tctxmanager/tctxmanager.go
index dc046b8..b46ca6a 100644
--- a/scouterx/strace/tctxmanager/tctxmanager.go
+++ b/scouterx/strace/tctxmanager/tctxmanager.go
@@ -94,7 +94,7 @@ func GetActiveCount() [3]int64 {
 		}
 		if elapsed > ac.StuckServiceBaseTimeMs {
 			fEndStuckServiceForcibly(tctx)
-			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d, tctxGoId: %d", tctx.ServiceName, elapsed, tctx.Goid)
+			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d", tctx.ServiceName, elapsed, tctx.Goid)
 			if ac.StuckServiceAlertEnabled {
 				netio.SendAlert(netdata.AlertError, "STUCK_SERVICE", message)
 			} else {
-- 
2.43.0


From acd96a0419fe3fa085093b603fe3c3fbbf3d1ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 28/61] fix: count services per second of a clock that does not
 jump with the wall clock

---
 scouterx/counter/metering.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scouterx/counter/metering.go b/scouterx/counter/metering.go
index ed04c51..0c49f4a 100644
--- a/scouterx/counter/metering.go
+++ b/scouterx/counter/metering.go
@@ -5,8 +5,11 @@ import (
 	"time"
 )
 
+var baseTime = time.Now()
+
+//getTimestamp returns seconds since start, that do not jump when the wall clock is set
 func getTimestamp() int {
-	return int(time.Now().Unix())
+	return int(time.Since(baseTime) / time.Second)
 }
 
 type Metering struct {
-- 
2.43.0


From 1fe7709f391c4ae79a00b755833c42ad6d792146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 29/61] fix: read the counters of a window under the lock that
 adding to them takes

---
 scouterx/counter/serviceMetering.go | 2 ++
 scouterx/counter/valueMetering.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/scouterx/counter/serviceMetering.go b/scouterx/counter/serviceMetering.go
index c17bed1..c3bc3f0 100644
--- a/scouterx/counter/serviceMetering.go
+++ b/scouterx/counter/serviceMetering.go
@@ -59,6 +59,8 @@ func (g *ServiceMetering) Add(elapsed int, err bool) {
 }
 
 func (g *ServiceMetering) GetAllCounter(period int) *ServiceCounter {
+	g.Lock()
+	defer g.Unlock()
 	var countSum int
 	var elapsedSum int
 	var errorSum int
diff --git a/scouterx/counter/valueMetering.go b/scouterx/counter/valueMetering.go
index 4af8c9c..d647939 100644
--- a/scouterx/counter/valueMetering.go
+++ b/scouterx/counter/valueMetering.go
@@ -43,6 +43,8 @@ func (g *ValueMetering) Add(value float64) {
 }
 
 func (g *ValueMetering) GetAllCounter(period int) *ValueMetric {
+	g.Lock()
+	defer g.Unlock()
 	var sum float64
 	var count int32
 	var avg float64
-- 
2.43.0


From 64ffafb7d947220c6b47c714363d8cf3fa3a5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 30/61] fix: xlog_discard_service_show_error=false had no
 effect

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 46f097f..6c675d5 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -406,7 +406,7 @@ func findXLogDiscard(tctx *netio.TraceContext, elapsed int32) netdata.XlogDiscar
 	//check xlog discard pattern
 	if GetXlogSampler().isDiscardServicePattern(tctx.ServiceName) {
 		discardMode = netdata.XLOG_DISCARD_ALL_FORCE
-		if tctx.Error != 0 {
+		if tctx.Error != 0 && ac.XlogDiscardServiceShowError {
 			discardMode = netdata.XLOG_DISCARD_NONE
 		}
 	}
-- 
2.43.0


From 36dd80f0d62863d119805b995476403c6d9ddb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 31/61] fix: patterns with several parts matched names with the
 parts overlapping or in the wrong order

---
 scouterx/common/util/strmatch.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index a1f98f1..7da3fa6 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -92,20 +92,10 @@ func (m *StrMatch) include(target string) bool {
 		return m.mid == target
 	case c_STR:
 		return strings.HasPrefix(target, m.start)
-	case c_STR_MID:
-		return strings.HasPrefix(target, m.start) && strings.Contains(target, m.mid)
-	case c_STR_END:
-		return strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)
+	case c_STR_MID, c_STR_END, c_MID_MID, c_MID_END:
+		return m.includeInOrder(target)
 	case c_MID:
 		return strings.Contains(target, m.mid)
-	case c_MID_MID:
-		x := strings.Index(target, m.mid)
-		if x < 0 {
-			return false
-		}
-		return strings.Contains(target, m.mid2) && strings.HasSuffix(target, m.end)
-	case c_MID_END:
-		return strings.Contains(target, m.mid) && strings.HasSuffix(target, m.end)
 	case c_END:
 		return strings.HasSuffix(target, m.end)
 	default:
@@ -113,6 +103,23 @@ func (m *StrMatch) include(target string) bool {
 	}
 }
 
+//includeInOrder finds the parts of the pattern one after the other, without overlap
+func (m *StrMatch) includeInOrder(target string) bool {
+	parts := strings.Split(m.Pattern, asta1)
+	last := len(parts) - 1
+	if !strings.HasPrefix(target, parts[0]) {
+		return false
+	}
+	target = target[len(parts[0]):]
+	for _, part := range parts[1:last] {
+		x := strings.Index(target, part)
+		if x < 0 {
+			return false
+		}
+		target = target[x+len(part):]
+	}
+	return strings.HasSuffix(target, parts[last])
+}
 
 type CommaSeparatedChainedStrMatcher struct {
 	strMatches []StrMatch
-- 
2.43.0


From 24b1d232819f88d862c6013b37b3886bd2f55c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 32/61] fix: a reload while the sampler was being set up left
 it with the old patterns

---
 scouterx/strace/xlogsampler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scouterx/strace/xlogsampler.go b/scouterx/strace/xlogsampler.go
index 4658988..9ddf018 100644
--- a/scouterx/strace/xlogsampler.go
+++ b/scouterx/strace/xlogsampler.go
@@ -12,6 +12,8 @@ var xlogSamplerOnce sync.Once
 var xlogSampler *XlogSampler
 
 type XlogSampler struct {
+	lock sync.Mutex
+
 	currentExcludeSamplingPattern   string
 	currentDiscardServicePatterns   string
 	currentSamplingServicePatterns  string
@@ -41,11 +43,14 @@ func GetXlogSampler() *XlogSampler {
 		xlogSampler.sampling3PatternMatcher = util.NewCommaSeparatedChainedStrMatcher(xlogSampler.currentSampling3ServicePatterns)
 
 		conf.AddToConfObserver("XlogSampler", xlogSampler)
+		xlogSampler.Run() //the patterns may have changed before it was added
 	})
 	return xlogSampler
 }
 
 func (sampler *XlogSampler) Run() {
+	sampler.lock.Lock()
+	defer sampler.lock.Unlock()
 	ac := conf.GetInstance()
 
 	if sampler.currentExcludeSamplingPattern != ac.XlogSamplingExcludePatterns {
-- 
2.43.0


From 97d28a6483203e41da5712d5d2e7c1b15335eeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 33/61] fix: the end of a thread dump was never written to its
 file

---
 scouterx/dump/dump.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index c539fe4..49a4d9a 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -64,22 +64,24 @@ func HeavyAllStackTrace() netdata.Pack {
 func heavyAllStackTrace() (string, error) {
 	fileName := filepath.Join(getDumpPath(), "go_dump_" + time.Now().Format("20060102_150405") + ".log")
 
-	var w io.Writer = os.Stdout
-	if fileName != "" {
-		f, err := os.Create(fileName)
-		if err == nil {
-			w = bufio.NewWriter(f)
-			defer f.Close()
-		} else {
-			return "", err
-		}
+	f, err := os.Create(fileName)
+	if err != nil {
+		return "", err
 	}
+	defer f.Close()
+	w := bufio.NewWriter(f)
 	profile := pprof.Lookup("goroutine")
 	if profile == nil {
 		logger.Error.Printf("could not find goroutine profile\n")
 		return "", errors.New("could not find goroutine profile")
 	}
-	return fileName, profile.WriteTo(w, 2)
+	if err := profile.WriteTo(w, 2); err != nil {
+		return "", err
+	}
+	if err := w.Flush(); err != nil {
+		return "", err
+	}
+	return fileName, nil
 }
 
 func ProfileBinaryCpu(sec int) netdata.Pack {
-- 
2.43.0


From fad80c0b80602d6dc90e60bd4449e5615eebfce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 34/61] fix: a dump file that could not be examined failed the
 whole list of dumps

---
 scouterx/dump/dump.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index 49a4d9a..92ab2fd 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -217,6 +217,9 @@ func ListDumpFiles() netdata.Pack {
 	dumpPath := getDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
+		if err != nil || info == nil {
+			return nil
+		}
 		if !info.IsDir() {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
@@ -238,6 +241,9 @@ func ListBinaryDumpFiles() netdata.Pack {
 	dumpPath := getBinaryDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
+		if err != nil || info == nil {
+			return nil
+		}
 		if !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
-- 
2.43.0


From 42c1dec886b16269b84e184e6b8837775bf0c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:57 +0000
Subject: [PATCH 35/61] fix: files outside the dump directories could be read
 and deleted by name

---
 scouterx/dump/dump.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index 92ab2fd..efaf454 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -205,6 +205,11 @@ func getBinaryDumpPath() string {
 	return dumpPath
 }
 
+// isDumpFileName reports whether name is the plain name of a file, without any path in it.
+func isDumpFileName(name string) bool {
+	return name != "" && name != "." && name != ".." && filepath.Base(name) == name
+}
+
 func ListDumpFiles() netdata.Pack {
 	pack := netdata.NewMapPack()
 	nameLv := netdata.NewListValue()
@@ -255,7 +260,7 @@ func ListBinaryDumpFiles() netdata.Pack {
 }
 
 func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
-	if fileName == "" || !strings.HasSuffix(fileName, suffix){
+	if !isDumpFileName(fileName) || !strings.HasSuffix(fileName, suffix){
 		return
 	}
 	dumpPath := getBinaryDumpPath()
@@ -292,7 +297,7 @@ func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
 
 func DeleteBinaryDumpFiles(fileName string) netdata.Pack {
 	pack := netdata.NewMapPack()
-	if fileName == "" || !strings.HasSuffix(fileName, suffix){
+	if !isDumpFileName(fileName) || !strings.HasSuffix(fileName, suffix){
 		pack.Put("success", netdata.NewBooleanValue(false))
 		pack.Put("msg", "no fileName")
 		return pack
@@ -317,6 +322,9 @@ func StreamDumpFileContents(param netdata.Pack, out *netdata.DataOutputX) {
 		return
 	}
 	name := p.GetString("name")
+	if !isDumpFileName(name) {
+		return
+	}
 	dumpFile := filepath.Join(getDumpPath(), name)
 
 	data, err := os.Open(dumpFile)
-- 
2.43.0


From 816350d1f89c194c22541f5523a49237d45702d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 36/61] fix: dumps taken in the same second overwrote each
 other

---
 scouterx/dump/dump.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index efaf454..ee27781 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -64,11 +64,12 @@ func HeavyAllStackTrace() netdata.Pack {
 func heavyAllStackTrace() (string, error) {
 	fileName := filepath.Join(getDumpPath(), "go_dump_" + time.Now().Format("20060102_150405") + ".log")
 
-	f, err := os.Create(fileName)
+	f, err := createDumpFile(fileName)
 	if err != nil {
 		return "", err
 	}
 	defer f.Close()
+	fileName = f.Name()
 	w := bufio.NewWriter(f)
 	profile := pprof.Lookup("goroutine")
 	if profile == nil {
@@ -93,7 +94,7 @@ func ProfileBinaryCpu(sec int) netdata.Pack {
 }
 
 func profileCpu(fileName string, sec int) {
-	f, err := os.Create(fileName)
+	f, err := createDumpFile(fileName)
 	if err == nil {
 		defer f.Close()
 	} else {
@@ -132,7 +133,7 @@ func profileBlock(fileName string, sec, rate, level int) {
 
 	var w *bufio.Writer
 	if fileName != "" {
-		f, err := os.Create(fileName)
+		f, err := createDumpFile(fileName)
 		if err == nil {
 			w = bufio.NewWriter(f)
 			defer f.Close()
@@ -173,7 +174,7 @@ func profileMutex(fileName string, sec, rate, level int) {
 
 	var w *bufio.Writer
 	if fileName != "" {
-		f, err := os.Create(fileName)
+		f, err := createDumpFile(fileName)
 		if err == nil {
 			w = bufio.NewWriter(f)
 			defer f.Close()
@@ -191,6 +192,20 @@ func profileMutex(fileName string, sec, rate, level int) {
 	w.Flush()
 }
 
+// createDumpFile creates a new file with the given name, or with a number appended to it
+// when a dump made in the same second already has the name.
+func createDumpFile(fileName string) (*os.File, error) {
+	ext := filepath.Ext(fileName)
+	base := strings.TrimSuffix(fileName, ext)
+	for i := 1; ; i++ {
+		f, err := os.OpenFile(fileName, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+		if err == nil || !os.IsExist(err) {
+			return f, err
+		}
+		fileName = fmt.Sprintf("%s_%d%s", base, i, ext)
+	}
+}
+
 func getDumpPath() string {
 	path := util.GetScouterPath()
 	dumpPath := filepath.Join(path, "dump")
-- 
2.43.0


From 754235e39bfa57fc5edb8fe8b9cd1cc9f4bd0a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 37/61] fix: a profile ending while another was being taken
 ended its recording too, or left it on for good

---
 scouterx/dump/dump.go | 52 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index ee27781..e6591a6 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -15,6 +15,7 @@ import (
 	"runtime"
 	"runtime/pprof"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -126,9 +127,52 @@ func ProfileBlockBinaryDump(sec, rate int) netdata.Pack {
 	return pack
 }
 
-func profileBlock(fileName string, sec, rate, level int) {
+// profiling counts the block and mutex profiles being taken: the runtime records until the last
+// of them is done, and then goes back to what it did before the first.
+var profiling struct {
+	sync.Mutex
+	block, mutex int
+	mutexBefore  int
+}
+
+func startBlockProfile(rate int) {
+	profiling.Lock()
+	defer profiling.Unlock()
+	profiling.block++
 	runtime.SetBlockProfileRate(rate)
-	defer runtime.SetBlockProfileRate(-1)
+}
+
+func stopBlockProfile() {
+	profiling.Lock()
+	defer profiling.Unlock()
+	profiling.block--
+	if profiling.block == 0 {
+		runtime.SetBlockProfileRate(-1)
+	}
+}
+
+func startMutexProfile(rate int) {
+	profiling.Lock()
+	defer profiling.Unlock()
+	old := runtime.SetMutexProfileFraction(rate)
+	if profiling.mutex == 0 {
+		profiling.mutexBefore = old
+	}
+	profiling.mutex++
+}
+
+func stopMutexProfile() {
+	profiling.Lock()
+	defer profiling.Unlock()
+	profiling.mutex--
+	if profiling.mutex == 0 {
+		runtime.SetMutexProfileFraction(profiling.mutexBefore)
+	}
+}
+
+func profileBlock(fileName string, sec, rate, level int) {
+	startBlockProfile(rate)
+	defer stopBlockProfile()
 	time.Sleep(time.Duration(sec) * time.Second)
 
 	var w *bufio.Writer
@@ -168,8 +212,8 @@ func ProfileMutexBinaryDump(sec, rate int) {
 
 
 func profileMutex(fileName string, sec, rate, level int) {
-	old := runtime.SetMutexProfileFraction(rate)
-	defer runtime.SetMutexProfileFraction(old)
+	startMutexProfile(rate)
+	defer stopMutexProfile()
 	time.Sleep(time.Duration(sec) * time.Second)
 
 	var w *bufio.Writer
-- 
2.43.0


From ad3fcd952de0ade3615dcc4126e1354417cc7860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 38/61] fix: with trace_obj_send the agent crashed the host
 while it had no UDP socket

---
 scouterx/netio/udpsender/udpsender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index eee8426..2cad180 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -84,7 +84,7 @@ func (udpSender *UDPSender) AddBuffer(buffer []byte) {
 func (udpSender *UDPSender) SendPackDirect(pack netdata.Pack) {
 	if ac.TraceObjSend {
 		if p, ok := pack.(*netdata.ObjectPack); ok {
-			logger.Info.Printf("[scouter] SendPackDirect[ObjPack], to:%s, pack:%s", udpSender.udpClient.Conn.RemoteAddr(), p.ToString())
+			logger.Info.Printf("[scouter] SendPackDirect[ObjPack], to:%s:%d, pack:%s", serverAddr, udpServerPort, p.ToString())
 		}
 	}
 	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)
-- 
2.43.0


From efd78250f87e060a4809f22b1a336a428c739398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 39/61] fix: a counter that failed crashed the host

---
 scouterx/task/countertask/countertask.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scouterx/task/countertask/countertask.go b/scouterx/task/countertask/countertask.go
index 02a4ff8..c696559 100644
--- a/scouterx/task/countertask/countertask.go
+++ b/scouterx/task/countertask/countertask.go
@@ -22,16 +22,18 @@ func Start() {
 func startRealTimeCounter() {
 	for {
 		time.Sleep(2000 * time.Millisecond)
-		pack := getAllCounterOnPack()
-		netio.SendPackDirect(pack)
+		if pack := getAllCounterOnPack(); pack != nil {
+			netio.SendPackDirect(pack)
+		}
 	}
 }
 
 func start5MinCounter() {
 	for {
 		time.Sleep(10000 * time.Millisecond)
-		pack := getAll5MinCounterOnPack()
-		netio.SendPackDirect(pack)
+		if pack := getAll5MinCounterOnPack(); pack != nil {
+			netio.SendPackDirect(pack)
+		}
 	}
 }
 
@@ -74,6 +76,8 @@ func getAllCounterOnPack() netdata.Pack {
 }
 
 func getAll5MinCounterOnPack() netdata.Pack {
+	defer common.ReportScouterPanic()
+
 	ac := conf.GetInstance()
 	pack := netdata.NewPerfCounterPack()
 	pack.ObjName = ac.ObjName
-- 
2.43.0


From f6edcdc7b91238e471093a8bd6426dfb82f5efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 40/61] fix: collections and pauses per second were wrong when
 the wall clock was set

---
 scouterx/counter/gocounter/gocounter.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scouterx/counter/gocounter/gocounter.go b/scouterx/counter/gocounter/gocounter.go
index cc3bd81..1cfce81 100644
--- a/scouterx/counter/gocounter/gocounter.go
+++ b/scouterx/counter/gocounter/gocounter.go
@@ -10,6 +10,7 @@ var statsMux sync.Mutex
 
 type GoCounter struct {
 	Timestamp    int64
+	at           time.Time
 	GoroutineNum int
 	CgoCallNum   int64
 
@@ -27,12 +28,12 @@ func GetGoCounter(prev GoCounter) GoCounter {
 	statsMux.Lock()
 	defer statsMux.Unlock()
 
-	nowNano := time.Now().UnixNano()
+	now := time.Now()
 
 	var mem runtime.MemStats
 	runtime.ReadMemStats(&mem)
 
-	counter := GoCounter{Timestamp: nowNano}
+	counter := GoCounter{Timestamp: now.UnixNano(), at: now}
 
 	counter.GoroutineNum = runtime.NumGoroutine()
 	counter.CgoCallNum = runtime.NumCgoCall()
@@ -41,9 +42,10 @@ func GetGoCounter(prev GoCounter) GoCounter {
 	counter.mPauseTotalNs = int64(mem.PauseTotalNs)
 	counter.mNumGC = int32(mem.NumGC)
 
-	if prev.Timestamp != 0 {
-		counter.GcPausePerSec = float64(int64(mem.PauseTotalNs) - prev.mPauseTotalNs) / float64(nowNano - prev.Timestamp) * 1000
-		counter.GcPerSec = float64(int32(mem.NumGC) - prev.mNumGC) / float64(nowNano - prev.Timestamp) * float64(time.Second)
+	elapsed := now.Sub(prev.at).Nanoseconds() // not by the wall clock, which may be set
+	if prev.Timestamp != 0 && elapsed > 0 {
+		counter.GcPausePerSec = float64(int64(mem.PauseTotalNs) - prev.mPauseTotalNs) / float64(elapsed) * 1000
+		counter.GcPerSec = float64(int32(mem.NumGC) - prev.mNumGC) / float64(elapsed) * float64(time.Second)
 	}
 
 	return counter
-- 
2.43.0


From dbeae8ea616608090c6ab1babfb286a0df66d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 41/61] fix: a log file that could not be opened ended the host
 process

---
 scouterx/common/logger/logger.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/scouterx/common/logger/logger.go b/scouterx/common/logger/logger.go
index 1be4dac..80de900 100644
--- a/scouterx/common/logger/logger.go
+++ b/scouterx/common/logger/logger.go
@@ -15,14 +15,18 @@ func Init() {
 	util.MakeDir(logPath)
 	fileName := filepath.Join(logPath, "scouter.log")
 	logfile, e := os.OpenFile(fileName, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0666)
+	var stdout, stderr io.Writer = os.Stdout, os.Stderr
 	if e != nil {
-		log.Fatalln("cannot open log file")
+		log.Printf("[scouter] cannot open log file: %s\n", e) //the host must run without it
+	} else {
+		stdout = io.MultiWriter(logfile, os.Stdout)
+		stderr = io.MultiWriter(logfile, os.Stderr)
 	}
 
-	Trace = log.New(io.MultiWriter(logfile, os.Stdout), "trace:", log.Ldate|log.Ltime|log.Lshortfile)
-	Info = log.New(io.MultiWriter(logfile, os.Stdout), "info:", log.Ldate|log.Ltime|log.Lshortfile)
-	Warning = log.New(io.MultiWriter(logfile, os.Stdout), "warning:", log.Ldate|log.Ltime|log.Lshortfile)
-	Error = log.New(io.MultiWriter(logfile, os.Stderr), "error:", log.Ldate|log.Ltime|log.Lshortfile)
+	Trace = log.New(stdout, "trace:", log.Ldate|log.Ltime|log.Lshortfile)
+	Info = log.New(stdout, "info:", log.Ldate|log.Ltime|log.Lshortfile)
+	Warning = log.New(stdout, "warning:", log.Ldate|log.Ltime|log.Lshortfile)
+	Error = log.New(stderr, "error:", log.Ldate|log.Ltime|log.Lshortfile)
 }
 
 // Error level
-- 
2.43.0


From 7c679e1731e3d8a97b8b93fd33e89d851c76cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 42/61] fix: a panic in a tracing call reached the application
 while the agent was not started

ReportScouterPanic called the report function without checking that one is
registered, and so panicked itself.
---
 scouterx/common/panic.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scouterx/common/panic.go b/scouterx/common/panic.go
index f928e1b..51fe752 100644
--- a/scouterx/common/panic.go
+++ b/scouterx/common/panic.go
@@ -18,7 +18,9 @@ func ReportScouterPanic() {
 	if r := recover(); r != nil {
 		stackTrace := dump.StackTrace(100)
 		fmt.Printf("[scouter][panic]%+v\n%s", r, stackTrace)
-		fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))
+		if fSendPanic != nil { // not before the agent is started
+			fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))
+		}
 	}
 }
 
-- 
2.43.0


From 65ef922e1e01d48ca3d014d6ca3bc11c407c78ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 43/61] fix: starting a service returned a nil context when its
 arguments were unusable

A request without a URL, or no parent, made StartHttpService and
StartNewInheritanceService panic inside and return nil, on which the
application's next use of its context crashed.
---
 scouterx/strace/tracemain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 6c675d5..db773b5 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -155,6 +155,7 @@ func StartHttpService(ctx context.Context, req *http.Request) (newCtx context.Co
 	if ctx == nil {
 		return context.Background()
 	}
+	newCtx = ctx // if the request is unusable
 	if tctxmanager.GetTraceContext(ctx) != nil {
 		return ctx
 	}
@@ -213,6 +214,7 @@ func StartService(ctx context.Context, serviceName, remoteIp string) (newCtx con
 	if ctx == nil {
 		ctx = context.Background()
 	}
+	newCtx = ctx
 	if tctxmanager.GetTraceContext(ctx) != nil {
 		return ctx
 	}
@@ -233,6 +235,10 @@ func StartNewInheritanceService(ctx context.Context, parentTctx *netio.TraceCont
 	if ctx == nil {
 		ctx = context.Background()
 	}
+	newCtx = ctx
+	if parentTctx == nil {
+		return ctx, nil
+	}
 	newCtx, newTctx = startService(ctx, parentTctx.ServiceName, parentTctx.RemoteIp)
 	newTctx = inheritTctx(newTctx, parentTctx)
 
-- 
2.43.0


From 88eaf23fdc0789cf4ca57a5dad55dec36bd01ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 44/61] fix: a large profile_step_max_keep_in_memory_count
 ended the host process

The step buffer of every service was allocated in full from the setting, so a
large value failed with makeslice or ran out of memory while the package was
initialised. It now grows as steps come.
---
 scouterx/netio/profilecollector.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/scouterx/netio/profilecollector.go b/scouterx/netio/profilecollector.go
index 13f8370..076039e 100644
--- a/scouterx/netio/profilecollector.go
+++ b/scouterx/netio/profilecollector.go
@@ -13,6 +13,7 @@ type ProfileCollector struct {
 	closed bool
 	tctx *TraceContext
 	steps []netdata.Step
+	maxSteps int
 	pos int
 	doingDumpStepJob bool
 	currentLevel int32
@@ -22,10 +23,24 @@ type ProfileCollector struct {
 func NewProfileCollector(tctx *TraceContext) *ProfileCollector {
 	collector := new(ProfileCollector)
 	collector.tctx = tctx
-	collector.steps = make([]netdata.Step, aconf.ProfileStepMaxKeepInMemoryCount)
+	collector.resetSteps()
 	return collector
 }
 
+const maxInitialSteps = 2048
+
+//resetSteps starts an empty step buffer. How many steps it may keep is a setting of any size, so
+//memory beyond the usual is taken only as steps come.
+func (c *ProfileCollector) resetSteps() {
+	c.maxSteps = aconf.ProfileStepMaxKeepInMemoryCount
+	initial := c.maxSteps
+	if initial > maxInitialSteps {
+		initial = maxInitialSteps
+	}
+	c.steps = make([]netdata.Step, 0, initial)
+	c.pos = 0
+}
+
 func (c *ProfileCollector) Push(ss netdata.Step) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
@@ -65,12 +80,11 @@ func (c *ProfileCollector) process(ss netdata.Step) {
 	if c.closed {
 		return
 	}
-	c.steps[c.pos] = ss
+	c.steps = append(c.steps, ss)
 	c.pos++
-	if c.pos >= len(c.steps) {
+	if c.pos >= c.maxSteps {
 		var o = c.steps
-		c.steps = make([]netdata.Step, aconf.ProfileStepMaxKeepInMemoryCount)
-		c.pos = 0;
+		c.resetSteps()
 		SendProfile(o, c.tctx)
 	}
 }
-- 
2.43.0


From a022bda495da85fe008ec4ab374fbc9d5a4a7db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 45/61] fix: a large send_queue_size ended the host process

The queue's channel was allocated with the setting as it came, which panicked
(makechan: size out of range) or ran out of memory at start-up.
---
 scouterx/common/factory/channelfactory/channelfactory.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scouterx/common/factory/channelfactory/channelfactory.go b/scouterx/common/factory/channelfactory/channelfactory.go
index d9b8177..437fcd4 100644
--- a/scouterx/common/factory/channelfactory/channelfactory.go
+++ b/scouterx/common/factory/channelfactory/channelfactory.go
@@ -8,10 +8,17 @@ import (
 var once sync.Once
 var udpChannel chan []byte
 
+//maxQueueSize bounds what is allocated for the queue, whatever is configured.
+const maxQueueSize = 1 << 20
+
 //GetUDPChannel returns  channel which stores pack data.
 func GetUDPChannel() chan []byte {
 	once.Do(func() {
-		udpChannel = make(chan []byte, conf.GetInstance().SendQueueSize)
+		size := conf.GetInstance().SendQueueSize
+		if size > maxQueueSize {
+			size = maxQueueSize
+		}
+		udpChannel = make(chan []byte, size)
 	})
 	return udpChannel
 }
-- 
2.43.0


From 4dca4d52c99da3c32855afeba6921a95e4242adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:13 +0000
Subject: [PATCH 46/61] fix: the first tracing call waited for the name service

The UDP sender is created by whoever sends first, which may be an application's
tracing call, and resolved the collector's name there: seconds with a slow name
service. It now resolves in the background; writes wait for it.
---
 scouterx/netio/udpclient/udpclient.go | 11 +++++++++++
 scouterx/netio/udpsender/udpsender.go |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/udpclient/udpclient.go b/scouterx/netio/udpclient/udpclient.go
index b0ac62d..157df60 100644
--- a/scouterx/netio/udpclient/udpclient.go
+++ b/scouterx/netio/udpclient/udpclient.go
@@ -29,6 +29,17 @@ func New(addr string , port int) *UDPClient {
 	return udpclient
 }
 
+//NewInBackground is New without waiting for the address to be resolved. Writes wait for it.
+func NewInBackground(addr string, port int, udpMaxBytes int) *UDPClient {
+	udpClient := &UDPClient{remoteAddress: addr, remotePort: port, udpMaxBytes: udpMaxBytes}
+	udpClient.lock.Lock()
+	go func() {
+		defer udpClient.lock.Unlock()
+		udpClient.Conn, _ = dial(addr, port)
+	}()
+	return udpClient
+}
+
 func (udpClient *UDPClient) SetUDPMaxBytes (max int) {
 	udpClient.lock.Lock()
 	defer udpClient.lock.Unlock()
diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 2cad180..49aca96 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -37,8 +37,8 @@ func GetInstance() *UDPSender {
 		udpSender = new(UDPSender)
 		udpSender.udpChannel = channelfactory.GetUDPChannel()
 		udpSender.running = true
-		udpSender.udpClient = udpclient.New(serverAddr, udpServerPort)
-		udpSender.udpClient.SetUDPMaxBytes(udpMaxBytes)
+		//the first caller may be the application
+		udpSender.udpClient = udpclient.NewInBackground(serverAddr, udpServerPort, udpMaxBytes)
 		go udpSender.run()
 		go reloadUdpSender()
 	})
-- 
2.43.0


From 748b70aacda8f8b2cd57abcfa33a608e7041fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 47/61] fix: an unparsable configuration file leaked a
 goroutine every five seconds

The properties parser leaves its lexer goroutine blocked for ever when it
fails, and the same unparsable content was parsed again at every refresh.
---
 scouterx/conf/configure.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index e8a0310..49c1d3e 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -234,6 +234,8 @@ func (conf *Configure) Refresh() {
 		if exist {
 			fileProps, err := properties.Load(content, properties.UTF8)
 			if err != nil && conf.loaded {
+				conf.lastExist = exist
+				conf.lastContent = content //parse it once: the parser leaves a goroutine behind when it fails
 				return
 			}
 			if err == nil {
-- 
2.43.0


From 377330288e2cb5aa29eee7d2a29aeb1363517ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 48/61] fix: a tracing call waited for the log file when the
 send queue was full

The warning was written by the caller, one line per dropped pack; with a slow
disk the application stood still. Drops are counted and logged once a second.
---
 scouterx/netio/udpsender/udpsender.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 49aca96..25c2a6e 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -5,6 +5,7 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpclient"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/factory/channelfactory"
@@ -20,6 +21,10 @@ var serverAddr string
 var udpServerPort int
 var udpMaxBytes int
 
+//dropped counts packs since the last log line. Who drops one may be the application, which is not
+//to wait for the log file.
+var dropped int64
+
 type UDPSender struct {
 	udpChannel chan []byte
 	running    bool
@@ -48,6 +53,9 @@ func GetInstance() *UDPSender {
 func reloadUdpSender() {
 	for {
 		time.Sleep(1000 * time.Millisecond)
+		if n := atomic.SwapInt64(&dropped, 0); n > 0 {
+			logger.Warning.Printf("udp channel is full. %d packs dropped.", n)
+		}
 		if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort || !udpSender.udpClient.IsOpen() {
 			serverAddr = ac.NetCollectorIP
 			udpServerPort = ac.NetCollectorUDPPort
@@ -68,7 +76,7 @@ func (udpSender *UDPSender) AddPack(pack netdata.Pack) bool {
 	case udpSender.udpChannel <- bytes:
 		return true
 	default:
-		logger.Warning.Println("udp channel is full.")
+		atomic.AddInt64(&dropped, 1)
 		return false
 	}
 }
@@ -77,7 +85,7 @@ func (udpSender *UDPSender) AddBuffer(buffer []byte) {
 	select {
 	case udpSender.udpChannel <- buffer:
 	default:
-		logger.Warning.Println("udp channel is full.")
+		atomic.AddInt64(&dropped, 1)
 	}
 }
 
-- 
2.43.0


From c04c1fbdd492d832474fea26766b816db457a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 49/61] fix: goroutines piled up without bound while UDP writes
 were stuck

Every record is written by a goroutine of its own. While the socket did not
take data, or its address was being resolved, they accumulated.
---
 scouterx/netio/udpsender/udpsender.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 25c2a6e..e4febc8 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -25,6 +25,11 @@ var udpMaxBytes int
 //to wait for the log file.
 var dropped int64
 
+//maxDirectSends bounds the goroutines that write, should writing get stuck.
+const maxDirectSends = 4096
+
+var directSends int32
+
 type UDPSender struct {
 	udpChannel chan []byte
 	running    bool
@@ -97,7 +102,15 @@ func (udpSender *UDPSender) SendPackDirect(pack netdata.Pack) {
 	}
 	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)
 	bytes := writePack.Bytes()
-	go udpSender.udpClient.WriteBuffer(bytes)
+	if atomic.AddInt32(&directSends, 1) > maxDirectSends {
+		atomic.AddInt32(&directSends, -1)
+		atomic.AddInt64(&dropped, 1)
+		return
+	}
+	go func() {
+		defer atomic.AddInt32(&directSends, -1)
+		udpSender.udpClient.WriteBuffer(bytes)
+	}()
 }
 
 func (udpSender *UDPSender) SendDirect(bufferList *list.List) {
-- 
2.43.0


From d9fab070edff64c5461a4671d5a376c73e4f6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:19 +0000
Subject: [PATCH 50/61] fix: API calls ended by two goroutines of a service at
 once were counted once

---
 scouterx/strace/tracemain.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index db773b5..b045bae 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -16,6 +16,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -596,8 +597,8 @@ func EndApiCall(ctx context.Context, step *netdata.ApiCallStep, err error) {
 		return
 	}
 	step.Elapsed = util.MillisToNow(tctx.StartTime) - step.StartTime
-	tctx.ApicallCount++
-	tctx.ApicallTime += step.Elapsed
+	atomic.AddInt32(&tctx.ApicallCount, 1) //the goroutines of a service share its context
+	atomic.AddInt32(&tctx.ApicallTime, step.Elapsed)
 	if err != nil {
 		step.Error = netio.SendError(err.Error())
 		if tctx.Error == 0 {
-- 
2.43.0


From 97ee3a8e6e7bd660f5d79f070838504fc659c401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 51/61] fix: an error marked while another goroutine marked one
 replaced the first, or the one marked forcibly

---
 scouterx/netio/tracecontext.go | 5 +++++
 scouterx/strace/tracemain.go   | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/scouterx/netio/tracecontext.go b/scouterx/netio/tracecontext.go
index d402fa9..dba15d7 100644
--- a/scouterx/netio/tracecontext.go
+++ b/scouterx/netio/tracecontext.go
@@ -106,6 +106,11 @@ func (tctx *TraceContext) TryClose() bool {
 	return true
 }
 
+//SetFirstError sets the error unless there is one, also if another goroutine of the service sets one at the same time.
+func (tctx *TraceContext) SetFirstError(hash int32) {
+	atomic.CompareAndSwapInt32(&tctx.Error, 0, hash)
+}
+
 func (tctx (TraceContext)) ToXlog(discardType netdata.XlogDiscardType, elapsed int32) *netdata.XlogPack {
 	xlog := netdata.NewXlogPack()
 	xlog.Elapsed = elapsed
diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index b045bae..218d4c0 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -62,7 +62,7 @@ func MarkAsError(ctx context.Context, errorMessage string) {
 		return
 	}
 	if tctx.Error == 0 {
-		tctx.Error = netio.SendError(errorMessage)
+		tctx.SetFirstError(netio.SendError(errorMessage))
 	}
 	AddPMessageStep(ctx, netdata.PMSG_ERROR, errorMessage, 0)
 }
@@ -371,7 +371,7 @@ func endStuckServiceForcibly(tctx *netio.TraceContext) {
 		tctx.Profile.Add(step)
 
 		if tctx.Error == 0 {
-			tctx.Error = netio.SendError("This stuck service currently may running, not finished!")
+			tctx.SetFirstError(netio.SendError("This stuck service currently may running, not finished!"))
 		}
 		endAnyServiceOfTraceContext(tctx)
 	}
@@ -602,7 +602,7 @@ func EndApiCall(ctx context.Context, step *netdata.ApiCallStep, err error) {
 	if err != nil {
 		step.Error = netio.SendError(err.Error())
 		if tctx.Error == 0 {
-			tctx.Error = step.Error
+			tctx.SetFirstError(step.Error)
 		}
 	}
 	tctx.Profile.Pop(step)
-- 
2.43.0


From 3793c29868259552e0b1835fa4a145a3080becd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:52 +0000
Subject: [PATCH 52/61] fix: records and alerts of up to 2000 services stuck at
 once are not dropped

---
 scouterx/netio/udpsender/udpsender.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index e4febc8..51b4add 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -25,8 +25,9 @@ var udpMaxBytes int
 //to wait for the log file.
 var dropped int64
 
-//maxDirectSends bounds the goroutines that write, should writing get stuck.
-const maxDirectSends = 4096
+//maxDirectSends bounds the goroutines that write, should writing get stuck. There may be as many as
+//2000 services that are finished at once for being stuck, each with an alert, a profile and a record.
+const maxDirectSends = 8192
 
 var directSends int32
 
-- 
2.43.0


From c508b8bf638db5b963ae0dab731ae46d1809b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 53/61] fix: a service that ended while stuck services were
 looked for is not announced as stuck

---
 scouterx/netio/tracecontext.go             | 5 +++++
 scouterx/strace/tctxmanager/tctxmanager.go | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/scouterx/netio/tracecontext.go b/scouterx/netio/tracecontext.go
index dba15d7..5f0e65d 100644
--- a/scouterx/netio/tracecontext.go
+++ b/scouterx/netio/tracecontext.go
@@ -106,6 +106,11 @@ func (tctx *TraceContext) TryClose() bool {
 	return true
 }
 
+//IsClosed tells if TryClose has succeeded.
+func (tctx *TraceContext) IsClosed() bool {
+	return atomic.LoadInt32(&tctx.closing) != 0
+}
+
 //SetFirstError sets the error unless there is one, also if another goroutine of the service sets one at the same time.
 func (tctx *TraceContext) SetFirstError(hash int32) {
 	atomic.CompareAndSwapInt32(&tctx.Error, 0, hash)
diff --git a/scouterx/strace/tctxmanager/tctxmanager.go b/scouterx/strace/tctxmanager/tctxmanager.go
index b46ca6a..83f0adf 100644
--- a/scouterx/strace/tctxmanager/tctxmanager.go
+++ b/scouterx/strace/tctxmanager/tctxmanager.go
@@ -92,7 +92,7 @@ func GetActiveCount() [3]int64 {
 		} else {
 			active[2]++
 		}
-		if elapsed > ac.StuckServiceBaseTimeMs {
+		if elapsed > ac.StuckServiceBaseTimeMs && !tctx.IsClosed() { //it may have ended since the list was taken
 			fEndStuckServiceForcibly(tctx)
 			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d", tctx.ServiceName, elapsed, tctx.Goid)
 			if ac.StuckServiceAlertEnabled {
-- 
2.43.0


From 1f4f4391c81d3266735614912d40bfd19ffc4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:10 +0000
Subject: [PATCH 54/61] fix: read object packs in the format they are written
 in

---
 scouterx/common/netdata/packcreator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/packcreator.go b/scouterx/common/netdata/packcreator.go
index f034776..7dc2d94 100644
--- a/scouterx/common/netdata/packcreator.go
+++ b/scouterx/common/netdata/packcreator.go
@@ -14,7 +14,7 @@ func CreatePack(packType byte) Pack {
 	case packconstants.PERFCOUNTER:
 		return NewPerfCounterPack()
 	case packconstants.OBJECT:
-		return NewObjectPack2()
+		return NewObjectPack()
 	case packconstants.ALERT:
 		return NewAlertPack()
 	default:
-- 
2.43.0


From ac8701b0df769ffbb2b15f7423c445e43ec8a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:10 +0000
Subject: [PATCH 55/61] fix: read the Kubernetes performance counter packs the
 agent writes

---
 scouterx/common/netdata/packcreator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scouterx/common/netdata/packcreator.go b/scouterx/common/netdata/packcreator.go
index 7dc2d94..4d6d269 100644
--- a/scouterx/common/netdata/packcreator.go
+++ b/scouterx/common/netdata/packcreator.go
@@ -13,6 +13,8 @@ func CreatePack(packType byte) Pack {
 		return NewTextPack()
 	case packconstants.PERFCOUNTER:
 		return NewPerfCounterPack()
+	case packconstants.PERFCOUNTER_K8S:
+		return NewPerfCounterK8SPack()
 	case packconstants.OBJECT:
 		return NewObjectPack()
 	case packconstants.ALERT:
-- 
2.43.0


From 93f4a56d37500578fc8d4662e9acda8542d11af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:41 +0000
Subject: [PATCH 56/61] fix: UDP data follows the collector's host name to its
 new address

---
 scouterx/netio/udpclient/udpclient.go | 20 ++++++++++++++++++++
 scouterx/netio/udpsender/udpsender.go |  5 +++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/udpclient/udpclient.go b/scouterx/netio/udpclient/udpclient.go
index 157df60..dcb1b21 100644
--- a/scouterx/netio/udpclient/udpclient.go
+++ b/scouterx/netio/udpclient/udpclient.go
@@ -65,6 +65,26 @@ func (udpClient *UDPClient) IsOpen() bool {
 	return udpClient.Conn != nil
 }
 
+//Moved tells if the host name has come to mean other addresses than the connected one.
+func (udpClient *UDPClient) Moved() bool {
+	udpClient.lock.RLock()
+	addr, conn := udpClient.remoteAddress, udpClient.Conn
+	udpClient.lock.RUnlock()
+	if conn == nil || net.ParseIP(addr) != nil {
+		return false
+	}
+	ips, err := net.LookupIP(addr)
+	if err != nil {
+		return false //stay with the address that was good so far
+	}
+	for _, ip := range ips {
+		if remote, ok := conn.RemoteAddr().(*net.UDPAddr); !ok || remote.IP.Equal(ip) {
+			return false
+		}
+	}
+	return len(ips) > 0
+}
+
 func (udpClient *UDPClient) open() error {
 	return udpClient.Reopen(udpClient.remoteAddress, udpClient.remotePort)
 }
diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 51b4add..fe0bf48 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -57,12 +57,13 @@ func GetInstance() *UDPSender {
 }
 
 func reloadUdpSender() {
-	for {
+	for i := 1; ; i++ {
 		time.Sleep(1000 * time.Millisecond)
 		if n := atomic.SwapInt64(&dropped, 0); n > 0 {
 			logger.Warning.Printf("udp channel is full. %d packs dropped.", n)
 		}
-		if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort || !udpSender.udpClient.IsOpen() {
+		if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort || !udpSender.udpClient.IsOpen() ||
+			i%10 == 0 && udpSender.udpClient.Moved() {
 			serverAddr = ac.NetCollectorIP
 			udpServerPort = ac.NetCollectorUDPPort
 			udpSender.udpClient.Reopen(serverAddr, udpServerPort)
-- 
2.43.0


From 9567866ce06dc74ac775917c7bf14440c1b21be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:27 +0000
Subject: [PATCH 57/61] fix: a request sent again carries the ids of the
 present call

---
 scouterx/strace/tracemain.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 218d4c0..367d846 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -562,10 +562,10 @@ func StartApiCallWithPropagation(ctx context.Context, req *http.Request, apiCall
 		tctx.Gxid = tctx.Txid
 	}
 	if req != nil {
-		req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
-		req.Header.Add(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
-		req.Header.Add(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
-		req.Header.Add(interserviceCallerObjHeaderKey, strconv.FormatInt(int64(ac.ObjHash), 10))
+		req.Header.Set(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
+		req.Header.Set(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
+		req.Header.Set(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
+		req.Header.Set(interserviceCallerObjHeaderKey, strconv.FormatInt(int64(ac.ObjHash), 10))
 	}
 
 	return step
-- 
2.43.0


From 1e1c7c84c337d2433569309b325f35a69113cbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:27 +0000
Subject: [PATCH 58/61] fix: an outgoing request without headers gets the
 propagation headers

---
 scouterx/strace/tracemain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 367d846..1f5a77c 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -562,6 +562,9 @@ func StartApiCallWithPropagation(ctx context.Context, req *http.Request, apiCall
 		tctx.Gxid = tctx.Txid
 	}
 	if req != nil {
+		if req.Header == nil {
+			req.Header = http.Header{}
+		}
 		req.Header.Set(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
 		req.Header.Set(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
 		req.Header.Set(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
-- 
2.43.0


From b258b2e949484bc44f0538ce1860aa3be24370fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:33 +0000
Subject: [PATCH 59/61] fix: a call that fails with an error whose Error method
 panics is recorded

---
 scouterx/strace/tracemain.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 1f5a77c..45cb2f1 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -603,7 +603,7 @@ func EndApiCall(ctx context.Context, step *netdata.ApiCallStep, err error) {
 	atomic.AddInt32(&tctx.ApicallCount, 1) //the goroutines of a service share its context
 	atomic.AddInt32(&tctx.ApicallTime, step.Elapsed)
 	if err != nil {
-		step.Error = netio.SendError(err.Error())
+		step.Error = netio.SendError(errorText(err))
 		if tctx.Error == 0 {
 			tctx.SetFirstError(step.Error)
 		}
@@ -611,3 +611,12 @@ func EndApiCall(ctx context.Context, step *netdata.ApiCallStep, err error) {
 	tctx.Profile.Pop(step)
 }
 
+//errorText is the text of the error, also of one whose Error method panics, like that of many a nil pointer
+func errorText(err error) (text string) {
+	defer func() {
+		if recover() != nil {
+			text = fmt.Sprint(err)
+		}
+	}()
+	return err.Error()
+}
-- 
2.43.0


From 11b4d7559f13e20dcc83bd9dc9c60418077f4396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:48 +0000
Subject: [PATCH 60/61] fix: the collector's address may be an IPv6 address

---
 scouterx/common/util/iputil.go        | 9 +++++++++
 scouterx/netio/tcpclient/tcpclient.go | 4 ++--
 scouterx/netio/udpclient/udpclient.go | 3 +--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/scouterx/common/util/iputil.go b/scouterx/common/util/iputil.go
index 449bedf..293ca97 100644
--- a/scouterx/common/util/iputil.go
+++ b/scouterx/common/util/iputil.go
@@ -1,6 +1,7 @@
 package util
 
 import (
+	"net"
 	"strconv"
 	"strings"
 )
@@ -22,3 +23,11 @@ func IpToBytes(ip string) []byte {
 	}
 	return result
 }
+
+//HostPort is the address to connect to. An IPv6 address is put in brackets, unless it is already.
+func HostPort(host string, port int) string {
+	if strings.HasPrefix(host, "[") {
+		return host + ":" + strconv.Itoa(port)
+	}
+	return net.JoinHostPort(host, strconv.Itoa(port))
+}
diff --git a/scouterx/netio/tcpclient/tcpclient.go b/scouterx/netio/tcpclient/tcpclient.go
index aaf7547..d233a12 100644
--- a/scouterx/netio/tcpclient/tcpclient.go
+++ b/scouterx/netio/tcpclient/tcpclient.go
@@ -6,8 +6,8 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/constants/tcpflag"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/logger"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
+	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"net"
-	"strconv"
 	"sync"
 	"time"
 )
@@ -45,7 +45,7 @@ func (c *TCPClient) Prepare() bool {
 	c.objHash = ac.ObjHash
 
 	logger.Info.Printf("[scouter]tcp prepare %s, %d", c.host, c.port)
-	conn0, err := net.DialTimeout("tcp", c.host+":"+strconv.Itoa(c.port), time.Duration(c.connectionTimeout)*time.Millisecond)
+	conn0, err := net.DialTimeout("tcp", util.HostPort(c.host, c.port), time.Duration(c.connectionTimeout)*time.Millisecond)
 	if err != nil {
 		logger.Error.Printf("[scouter][err]%v\n", err)
 		c.conn = nil
diff --git a/scouterx/netio/udpclient/udpclient.go b/scouterx/netio/udpclient/udpclient.go
index dcb1b21..19249f5 100644
--- a/scouterx/netio/udpclient/udpclient.go
+++ b/scouterx/netio/udpclient/udpclient.go
@@ -8,7 +8,6 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util/keygen"
 	"net"
-	"strconv"
 	"sync"
 )
 
@@ -90,7 +89,7 @@ func (udpClient *UDPClient) open() error {
 }
 
 func dial(addr string, port int) (*net.UDPConn, error) {
-	address := addr + ":" + strconv.Itoa(port)
+	address := util.HostPort(addr, port)
 	s, err := net.ResolveUDPAddr("udp", address)
 
 	if err != nil {
-- 
2.43.0


From ece15bd924b9a241cc6e19e30ec39e13496ef153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:48 +0000
Subject: [PATCH 61/61] fix: a time limit beyond 32 bits means the longest
 there is

---
 scouterx/conf/configure.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 49c1d3e..f372c61 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -7,6 +7,7 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/logger"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"io/ioutil"
+	"math"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -287,6 +288,17 @@ func intOf(props *properties.Properties, key string, defaultValue int, desc stri
 	return putInt(key, props.GetInt(key, defaultValue), defaultValue, desc)
 }
 
+// clampToInt32 keeps a value beyond the range of int32 as large (or small) as can be.
+func clampToInt32(value int) int32 {
+	if value > math.MaxInt32 {
+		return math.MaxInt32
+	}
+	if value < math.MinInt32 {
+		return math.MinInt32
+	}
+	return int32(value)
+}
+
 // positiveIntOf is intOf for sizes and durations, for which zero and below are not usable.
 func positiveIntOf(props *properties.Properties, key string, defaultValue int, desc string) int {
 	value := props.GetInt(key, defaultValue)
@@ -379,44 +391,44 @@ func (conf *Configure) addToConf(props *properties.Properties) {
 
 	conf.XlogSamplingEnabled = boolOf(props, "xlog_sampling_enabled", false, "")
 	conf.XlogSamplingOnlyProfile = boolOf(props, "xlog_sampling_only_profile", false, "")
-	conf.XlogSamplingStep1Ms = int32(intOf(props, "xlog_sampling_step1_ms", 100, ""))
+	conf.XlogSamplingStep1Ms = clampToInt32(intOf(props, "xlog_sampling_step1_ms", 100, ""))
 	conf.XlogSamplingStep1RatePct = intOf(props, "xlog_sampling_step1_rate_pct", 2, "")
-	conf.XlogSamplingStep2Ms = int32(intOf(props, "xlog_sampling_step2_ms", 500, ""))
+	conf.XlogSamplingStep2Ms = clampToInt32(intOf(props, "xlog_sampling_step2_ms", 500, ""))
 	conf.XlogSamplingStep2RatePct = intOf(props, "xlog_sampling_step2_rate_pct", 7, "")
-	conf.XlogSamplingStep3Ms = int32(intOf(props, "xlog_sampling_step3_ms", 1000, ""))
+	conf.XlogSamplingStep3Ms = clampToInt32(intOf(props, "xlog_sampling_step3_ms", 1000, ""))
 	conf.XlogSamplingStep3RatePct = intOf(props, "xlog_sampling_step3_rate_pct", 15, "")
 	conf.XlogSamplingOverRatePct = intOf(props, "xlog_sampling_over_rate_pct", 3000, "")
 
 	conf.XlogPatternedSamplingEnabled = boolOf(props, "xlog_patterned_sampling_enabled", false, "")
 	conf.XlogPatternedSamplingServicePatterns = stringOfType(props, "xlog_patterned_sampling_service_patterns", "", vtCommaSeparatedValue, "")
 	conf.XlogPatternedSamplingOnlyProfile = boolOf(props, "xlog_patterned_sampling_only_profile", false, "")
-	conf.XlogPatternedSamplingStep1Ms = int32(intOf(props, "xlog_patterned_sampling_step1_ms", 100, ""))
+	conf.XlogPatternedSamplingStep1Ms = clampToInt32(intOf(props, "xlog_patterned_sampling_step1_ms", 100, ""))
 	conf.XlogPatternedSamplingStep1RatePct = intOf(props, "xlog_patterned_sampling_step1_rate_pct", 2, "")
-	conf.XlogPatternedSamplingStep2Ms = int32(intOf(props, "xlog_patterned_sampling_step2_ms", 500, ""))
+	conf.XlogPatternedSamplingStep2Ms = clampToInt32(intOf(props, "xlog_patterned_sampling_step2_ms", 500, ""))
 	conf.XlogPatternedSamplingStep2RatePct = intOf(props, "xlog_patterned_sampling_step2_rate_pct", 7, "")
-	conf.XlogPatternedSamplingStep3Ms = int32(intOf(props, "xlog_patterned_sampling_step3_ms", 1000, ""))
+	conf.XlogPatternedSamplingStep3Ms = clampToInt32(intOf(props, "xlog_patterned_sampling_step3_ms", 1000, ""))
 	conf.XlogPatternedSamplingStep3RatePct = intOf(props, "xlog_patterned_sampling_step3_rate_pct", 15, "")
 	conf.XlogPatternedSamplingOverRatePct = intOf(props, "xlog_patterned_sampling_over_rate_pct", 3000, "")
 
 	conf.XlogPatterned2SamplingEnabled = boolOf(props, "xlog_patterned2_sampling_enabled", false, "")
 	conf.XlogPatterned2SamplingServicePatterns = stringOfType(props, "xlog_patterned2_sampling_service_patterns", "", vtCommaSeparatedValue, "")
 	conf.XlogPatterned2SamplingOnlyProfile = boolOf(props, "xlog_patterned2_sampling_only_profile", false, "")
-	conf.XlogPatterned2SamplingStep1Ms = int32(intOf(props, "xlog_patterned2_sampling_step1_ms", 100, ""))
+	conf.XlogPatterned2SamplingStep1Ms = clampToInt32(intOf(props, "xlog_patterned2_sampling_step1_ms", 100, ""))
 	conf.XlogPatterned2SamplingStep1RatePct = intOf(props, "xlog_patterned2_sampling_step1_rate_pct", 2, "")
-	conf.XlogPatterned2SamplingStep2Ms = int32(intOf(props, "xlog_patterned2_sampling_step2_ms", 500, ""))
+	conf.XlogPatterned2SamplingStep2Ms = clampToInt32(intOf(props, "xlog_patterned2_sampling_step2_ms", 500, ""))
 	conf.XlogPatterned2SamplingStep2RatePct = intOf(props, "xlog_patterned2_sampling_step2_rate_pct", 7, "")
-	conf.XlogPatterned2SamplingStep3Ms = int32(intOf(props, "xlog_patterned2_sampling_step3_ms", 1000, ""))
+	conf.XlogPatterned2SamplingStep3Ms = clampToInt32(intOf(props, "xlog_patterned2_sampling_step3_ms", 1000, ""))
 	conf.XlogPatterned2SamplingStep3RatePct = intOf(props, "xlog_patterned2_sampling_step3_rate_pct", 15, "")
 	conf.XlogPatterned2SamplingOverRatePct = intOf(props, "xlog_patterned2_sampling_over_rate_pct", 3000, "")
 
 	conf.XlogPatterned3SamplingEnabled = boolOf(props, "xlog_patterned3_sampling_enabled", false, "")
 	conf.XlogPatterned3SamplingServicePatterns = stringOfType(props, "xlog_patterned3_sampling_service_patterns", "", vtCommaSeparatedValue, "")
 	conf.XlogPatterned3SamplingOnlyProfile = boolOf(props, "xlog_patterned3_sampling_only_profile", false, "")
-	conf.XlogPatterned3SamplingStep1Ms = int32(intOf(props, "xlog_patterned3_sampling_step1_ms", 100, ""))
+	conf.XlogPatterned3SamplingStep1Ms = clampToInt32(intOf(props, "xlog_patterned3_sampling_step1_ms", 100, ""))
 	conf.XlogPatterned3SamplingStep1RatePct = intOf(props, "xlog_patterned3_sampling_step1_rate_pct", 2, "")
-	conf.XlogPatterned3SamplingStep2Ms = int32(intOf(props, "xlog_patterned3_sampling_step2_ms", 500, ""))
+	conf.XlogPatterned3SamplingStep2Ms = clampToInt32(intOf(props, "xlog_patterned3_sampling_step2_ms", 500, ""))
 	conf.XlogPatterned3SamplingStep2RatePct = intOf(props, "xlog_patterned3_sampling_step2_rate_pct", 7, "")
-	conf.XlogPatterned3SamplingStep3Ms = int32(intOf(props, "xlog_patterned3_sampling_step3_ms", 1000, ""))
+	conf.XlogPatterned3SamplingStep3Ms = clampToInt32(intOf(props, "xlog_patterned3_sampling_step3_ms", 1000, ""))
 	conf.XlogPatterned3SamplingStep3RatePct = intOf(props, "xlog_patterned3_sampling_step3_rate_pct", 15, "")
 	conf.XlogPatterned3SamplingOverRatePct = intOf(props, "xlog_patterned3_sampling_over_rate_pct", 3000, "")
 }
-- 
2.43.0

