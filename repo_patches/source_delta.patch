From ba24d009d5b60b953b1af47b8420c1e92f70cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:38 +0000
Subject: [PATCH 01/47] fix: drop discarded oversize frames from the frame
 decoder's buffer

A frame longer than MaxFrameLength was counted as discarded, but its bytes
stayed in the accumulated input, so they were parsed again as new frames on
the next read, and frames already received behind it waited for more data.
---
 zinterceptor/framedecoder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/zinterceptor/framedecoder.go b/zinterceptor/framedecoder.go
index cd3db2b..273e4c5 100644
--- a/zinterceptor/framedecoder.go
+++ b/zinterceptor/framedecoder.go
@@ -497,6 +497,9 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 	// Determine if it is in discard mode (判断是否为丢弃模式)
 	if d.discardingTooLongFrame {
 		d.discardingTooLongFrameFunc(in)
+		// Drop the discarded bytes from the accumulated input
+		// (将已丢弃的字节从累积缓冲中移除)
+		d.in = in.Bytes()
 	}
 
 	// Determine if the number of readable bytes in the buffer is less than the offset of the length field
@@ -538,6 +541,9 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 		// It has exceeded the maximum length of a single data frame, and the exceeded part is processed
 		// (已经超过单次数据帧最大长度，对超过的部分进行处理)
 		d.exceededFrameLength(in, frameLength)
+		// Drop the discarded bytes from the accumulated input
+		// (将已丢弃的字节从累积缓冲中移除)
+		d.in = in.Bytes()
 		return nil
 	}
 
@@ -581,6 +587,7 @@ func (d *FrameDecoder) Decode(buff []byte) [][]byte {
 	resp := make([][]byte, 0)
 
 	for {
+		before := len(d.in)
 		arr := d.decode(d.in)
 
 		if arr != nil {
@@ -591,7 +598,9 @@ func (d *FrameDecoder) Decode(buff []byte) [][]byte {
 			if _size > 0 {
 				d.in = d.in[_size:]
 			}
-		} else {
+		} else if len(d.in) == before {
+			// Nothing decoded and nothing discarded, wait for more data
+			// (既没有解析出数据包，也没有丢弃数据，等待更多数据)
 			return resp
 		}
 	}
-- 
2.43.0


From 5b17c29a10535d3791c17263c5216b71259a3000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:38 +0000
Subject: [PATCH 02/47] fix: reject frames whose adjusted length is shorter
 than their header

With a negative LengthAdjustment a peer could declare a frame of length 0
(the decoder returned empty frames forever and never came back) or of a
negative length (taken for an oversize frame of ~2^64 bytes).
---
 zinterceptor/framedecoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zinterceptor/framedecoder.go b/zinterceptor/framedecoder.go
index 273e4c5..9650625 100644
--- a/zinterceptor/framedecoder.go
+++ b/zinterceptor/framedecoder.go
@@ -491,6 +491,11 @@ func (d *FrameDecoder) failOnFrameLengthLessThanInitialBytesToStrip(in *bytes.Bu
 	panic(fmt.Sprintf("Adjusted frame length (%d) is less  than InitialBytesToStrip: %d", frameLength, initialBytesToStrip))
 }
 
+func (d *FrameDecoder) failOnFrameLengthLessThanLengthFieldEndOffset(in *bytes.Buffer, frameLength int64, lengthFieldEndOffset int) {
+	in.Next(lengthFieldEndOffset)
+	panic(fmt.Sprintf("Adjusted frame length (%d) is less than lengthFieldEndOffset: %d", frameLength, lengthFieldEndOffset))
+}
+
 func (d *FrameDecoder) decode(buf []byte) []byte {
 	in := bytes.NewBuffer(buf)
 
@@ -535,6 +540,11 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 	// So the frameLength calculated in the end is the length of the entire data packet (那说明最后计算出的frameLength就是整个数据包的长度)
 	frameLength += int64(d.LengthAdjustment) + int64(d.LengthFieldEndOffset)
 
+	// A frame cannot be shorter than its own header (数据包长度不能小于包头长度)
+	if frameLength < int64(d.LengthFieldEndOffset) {
+		d.failOnFrameLengthLessThanLengthFieldEndOffset(in, frameLength, d.LengthFieldEndOffset)
+	}
+
 	// Discard mode is turned on here (丢弃模式就是在这开启的)
 	// If the data packet length is greater than the maximum length (如果数据包长度大于最大长度)
 	if uint64(frameLength) > d.MaxFrameLength {
-- 
2.43.0


From 45b622e3e2fcd1add7a66e6f7268ebd6c51fe501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:03 +0000
Subject: [PATCH 03/47] fix: allow HTLV-CRC frames with a 255 byte body

The largest frame is head+function+length+255+CRC = 260 bytes, but
MaxFrameLength was 259, so a full-size frame was silently discarded.
---
 zdecoder/htlvcrcdecoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zdecoder/htlvcrcdecoder.go b/zdecoder/htlvcrcdecoder.go
index 09e39f0..06c7d7a 100644
--- a/zdecoder/htlvcrcdecoder.go
+++ b/zdecoder/htlvcrcdecoder.go
@@ -16,7 +16,7 @@
 // lengthFieldLength = 1 (len is 1 byte) The length of the length field in bytes
 // lengthAdjustment = 2 (len only represents the length of the Body, the program will only read len bytes and end, but there are still 2 bytes of CRC to read, so it's 2)
 // initialBytesToStrip = 0 (this 0 represents the complete protocol content. If you don't want A2, then it's 1) The number of bytes to strip from the decoding frame for the first time
-// maxFrameLength = 255 + 4 (starting code, function code, CRC) (len is 1 byte, so the maximum length is the maximum value of an unsigned byte plus 4 bytes)
+// maxFrameLength = 255 + 5 (starting code, function code, length, CRC) (len is 1 byte, so the maximum length is the maximum value of an unsigned byte plus 5 bytes)
 
 // [简体中文]
 //
@@ -38,7 +38,7 @@
 //   lengthFieldLength   = 1   (len是1个byte) 长度字段占的字节数
 //   lengthAdjustment    = 2   (len只表示Body长度，程序只会读取len个字节就结束，但是CRC还有2byte没读呢，所以为2)
 //   initialBytesToStrip = 0   (这个0表示完整的协议内容，如果不想要A2，那么这里就是1) 从解码帧中第一次去除的字节数
-//   maxFrameLength      = 255 + 4(起始码、功能码、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
+//   maxFrameLength      = 255 + 5(起始码、功能码、长度、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
 
 package zdecoder
 
@@ -79,9 +79,9 @@ func (hcd *HtlvCrcDecoder) GetLengthField() *ziface.LengthField {
 	//   lengthFieldLength   = 1   (len是1个byte) 长度字段占的字节数
 	//   lengthAdjustment    = 2   (len只表示Body长度，程序只会读取len个字节就结束，但是CRC还有2byte没读呢，所以为2)
 	//   initialBytesToStrip = 0   (这个0表示完整的协议内容，如果不想要A2，那么这里就是1) 从解码帧中第一次去除的字节数
-	//   maxFrameLength      = 255 + 4(起始码、功能码、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
+	//   maxFrameLength      = 255 + 5(起始码、功能码、长度、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
 	return &ziface.LengthField{
-		MaxFrameLength:      math.MaxUint8 + 4,
+		MaxFrameLength:      math.MaxUint8 + HEADER_SIZE,
 		LengthFieldOffset:   2,
 		LengthFieldLength:   1,
 		LengthAdjustment:    2,
-- 
2.43.0


From 0fcf8d0b49b1abd8d1a07558c10e75c9fd684772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:21 +0000
Subject: [PATCH 04/47] fix: give undecoded TCP requests their own copy of the
 data

Without a decoder the request carried a slice of the connection's read
buffer, which the next read overwrote before the handler ran.
---
 znet/connection.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/znet/connection.go b/znet/connection.go
index 4973bea..8c42093 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -277,7 +277,11 @@ func (c *Connection) StartReader() {
 					c.msgHandler.Execute(req)
 				}
 			} else {
-				msg := zpack.NewMessage(uint32(n), buffer[0:n])
+				// The request is handled asynchronously while buffer is reused by the next read, so it needs its own copy
+				// (请求是异步处理的，而buffer会被下一次读取复用，因此需要拷贝一份)
+				data := make([]byte, n)
+				copy(data, buffer[0:n])
+				msg := zpack.NewMessage(uint32(n), data)
 				// Get the current client's Request data
 				// (得到当前客户端请求的Request数据)
 				req := GetRequest(c, msg)
-- 
2.43.0


From 4b7c5ddc4a0e8100ee830c372fb74777f5aad618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:54 +0000
Subject: [PATCH 05/47] fix: take an extra worker out of the free set when it
 is assigned

In DynamicBind mode the id stayed in the free set, so two connections could
be given the same extra worker: requests went to an orphaned queue and the
second disconnect crashed the process by closing the queue twice.
---
 znet/msghandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 9d11558..4e0d049 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -193,6 +193,7 @@ func useWorker(conn ziface.IConnection) uint32 {
 		mh.extraFreeWorkerMu.Lock()
 		defer mh.extraFreeWorkerMu.Unlock()
 		for workerID := range mh.extraFreeWorkers {
+			delete(mh.extraFreeWorkers, workerID)
 			zlog.Ins().DebugF("start extra worker, workerID=%d", workerID)
 			mh.TaskQueue[workerID] = make(chan ziface.IRequest, zconf.GlobalObject.MaxWorkerTaskLen)
 			go mh.StartOneWorker(int(workerID), mh.TaskQueue[workerID])
-- 
2.43.0


From f35a94007f2191e635b715c336109eafcc1d4814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 06/47] fix: drop HTLV frames whose CRC does not match instead
 of dereferencing nil

---
 zdecoder/htlvcrcdecoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zdecoder/htlvcrcdecoder.go b/zdecoder/htlvcrcdecoder.go
index 06c7d7a..5e77a28 100644
--- a/zdecoder/htlvcrcdecoder.go
+++ b/zdecoder/htlvcrcdecoder.go
@@ -135,6 +135,11 @@ func (hcd *HtlvCrcDecoder) Intercept(chain ziface.IChain) ziface.IcResp {
 
 	//4. HTLV+CRC Decode
 	htlvData := hcd.decode(data)
+	if htlvData == nil {
+		// The checksum does not match, drop the frame
+		// (CRC校验失败，丢弃该帧)
+		return nil
+	}
 
 	//5. Set the decoded data back to the IMessage, the Zinx Router needs MsgID for addressing
 	// (将解码后的数据重新设置到IMessage中, Zinx的Router需要MsgID来寻址)
-- 
2.43.0


From 55cbb2e5e1ecb8206da1751db44f3b97d7efd5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:06 +0000
Subject: [PATCH 07/47] fix: give every pool worker a queue when DynamicBind's
 pool exceeds MaxConn

---
 znet/msghandler.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 4e0d049..f8d2fe7 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -80,7 +80,9 @@ func newMsgHandle() *MsgHandle {
 		for i := zconf.GlobalObject.WorkerPoolSize; i < uint32(zconf.GlobalObject.MaxConn); i++ {
 			extraFreeWorkers[i] = struct{}{}
 		}
-		TaskQueueLen = uint32(zconf.GlobalObject.MaxConn)
+		if TaskQueueLen < uint32(zconf.GlobalObject.MaxConn) {
+			TaskQueueLen = uint32(zconf.GlobalObject.MaxConn)
+		}
 	}
 
 	handle := &MsgHandle{
@@ -134,7 +136,9 @@ func newCliMsgHandle() *MsgHandle {
 		for i := zconf.GlobalObject.WorkerPoolSize; i < uint32(zconf.GlobalObject.MaxConn); i++ {
 			extraFreeWorkers[i] = struct{}{}
 		}
-		TaskQueueLen = uint32(zconf.GlobalObject.MaxConn)
+		if TaskQueueLen < uint32(zconf.GlobalObject.MaxConn) {
+			TaskQueueLen = uint32(zconf.GlobalObject.MaxConn)
+		}
 	}
 
 	handle := &MsgHandle{
-- 
2.43.0


From 8caf3b6d0a81a43ac44ba10bc8349071b63ae4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:13 +0000
Subject: [PATCH 08/47] fix: give a connection's worker back before its slot is
 reused

---
 znet/connection.go     | 7 ++++---
 znet/kcp_connection.go | 7 ++++---
 znet/ws_connection.go  | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 8c42093..f720650 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -321,9 +321,6 @@ func (c *Connection) Start() {
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -512,6 +509,10 @@ func (c *Connection) finalizer() {
 	// Close the socket connection
 	_ = c.conn.Close()
 
+	// 归还workerid
+	// Before leaving the connection manager, so that a connection accepted in its place finds the worker free
+	freeWorker(c)
+
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index e42183e..ab0e78b 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -302,9 +302,6 @@ func (c *KcpConnection) Start() {
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -509,6 +506,10 @@ func (c *KcpConnection) finalizer() {
 	// Close the socket connection
 	_ = c.conn.Close()
 
+	// 归还workerid
+	// Before leaving the connection manager, so that a connection accepted in its place finds the worker free
+	freeWorker(c)
+
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 12babfb..e84557c 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -300,9 +300,6 @@ func (c *WsConnection) Start() {
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -518,6 +515,10 @@ func (c *WsConnection) finalizer() {
 	// (关闭socket连接)
 	_ = c.conn.Close()
 
+	// 归还workerid
+	// Before leaving the connection manager, so that a connection accepted in its place finds the worker free
+	freeWorker(c)
+
 	// Remove the connection from the connection manager.
 	// (将连接从连接管理器中删除)
 	if c.connManager != nil {
-- 
2.43.0


From 26069c5c39bf401cf95c2d7a2bf7c0327f295443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:42 +0000
Subject: [PATCH 09/47] fix: recover panics in the WebSocket read loop, as for
 TCP and KCP

---
 znet/ws_connection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index e84557c..9b0a79d 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -211,6 +211,11 @@ func (c *WsConnection) StartReader() {
 	zlog.Ins().InfoF("[Reader Goroutine is running]")
 	defer zlog.Ins().InfoF("%s [conn Reader exit!]", c.RemoteAddr().String())
 	defer c.Stop()
+	defer func() {
+		if err := recover(); err != nil {
+			zlog.Ins().ErrorF("connID=%d, panic err=%v", c.GetConnID(), err)
+		}
+	}()
 
 	// Create a pack-unpack object. (创建拆包解包的对象)
 	for {
-- 
2.43.0


From 8803cac377f76320b1d4980d885073ef43545393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:54 +0000
Subject: [PATCH 10/47] fix: run handler chains of more than 127 handlers

---
 znet/request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index 6b6e474..82f6835 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -36,7 +36,7 @@ type Request struct {
 	needNext bool                   // whether to execute the next router function(是否需要执行下一个路由函数)
 	icResp   ziface.IcResp          // response data returned by the interceptors (拦截器返回数据)
 	handlers []ziface.RouterHandler // router function slice(路由函数切片)
-	index    int8                   // router function slice index(路由函数切片索引)
+	index    int                    // router function slice index(路由函数切片索引)
 	keys     map[string]interface{} // keys 路由处理时可能会存取的上下文信息
 }
 
@@ -213,7 +213,7 @@ func (r *Request) Call() {
 
 func (r *Request) Abort() {
 	if zconf.GlobalObject.RouterSlicesMode {
-		r.index = int8(len(r.handlers))
+		r.index = len(r.handlers)
 	} else {
 		r.stepLock.Lock()
 		r.steps = HANDLE_OVER
@@ -228,7 +228,7 @@ func (r *Request) BindRouterSlices(handlers []ziface.RouterHandler) {
 
 func (r *Request) RouterSlicesNext() {
 	r.index++
-	for r.index < int8(len(r.handlers)) {
+	for r.index < len(r.handlers) {
 		r.handlers[r.index](r)
 		r.index++
 	}
-- 
2.43.0


From 1d1d22d75913343231eb161953f0eb23ea2c2420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 11/47] fix: clear the response, router and handlers of a
 reused request

---
 znet/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/znet/request.go b/znet/request.go
index 82f6835..37411e0 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -91,7 +91,10 @@ func (r *Request) Reset(conn ziface.IConnection, msg ziface.IMessage) {
 	r.steps = PRE_HANDLE
 	r.conn = conn
 	r.msg = msg
+	r.router = nil
 	r.needNext = true
+	r.icResp = nil
+	r.handlers = nil
 	r.index = -1
 	r.keys = nil
 
-- 
2.43.0


From 9a5705bbfe0f3b7b46b9fc823fe0296cb944863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:35 +0000
Subject: [PATCH 12/47] fix: copy a request's payload, response and keys, not
 its raw frame

---
 znet/request.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index 37411e0..80fbba2 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -118,19 +118,19 @@ func (r *Request) Copy() ziface.IRequest {
 
 	// 复制原本的上下文信息
 	newRequest.keys = make(map[string]interface{})
+	r.stepLock.RLock()
 	for k, v := range r.keys {
 		newRequest.keys[k] = v
 	}
+	r.stepLock.RUnlock()
 
 	// 复制一份原本的 icResp
-	copyResp := []ziface.IcResp{r.icResp}
-	newIcResp := make([]ziface.IcResp, 0, 1)
-	copy(newIcResp, copyResp)
-	for _, v := range newIcResp {
-		newRequest.icResp = v
-	}
+	newRequest.icResp = r.icResp
+
 	// 复制一份原本的 msg 信息
-	newRequest.msg = zpack.NewMessageByMsgId(r.msg.GetMsgID(), r.msg.GetDataLen(), r.msg.GetRawData())
+	msg := zpack.NewMessageByMsgId(r.msg.GetMsgID(), r.msg.GetDataLen(), r.msg.GetRawData())
+	msg.SetData(append([]byte(nil), r.msg.GetData()...))
+	newRequest.msg = msg
 
 	return newRequest
 }
-- 
2.43.0


From ce8caed109637a53cd7a10470bcc2078409be4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:23 +0000
Subject: [PATCH 13/47] fix: keep user-defined requests out of the request pool

---
 znet/request.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/znet/request.go b/znet/request.go
index 80fbba2..4451d18 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -75,7 +75,10 @@ func GetRequest(conn ziface.IConnection, msg ziface.IMessage) ziface.IRequest {
 func PutRequest(request ziface.IRequest) {
 	// 判断是否开启了对象池模式
 	if zconf.GlobalObject.RequestPoolMode {
-		RequestPool.Put(request)
+		// 拦截器可能替换了自定义的 IRequest,对象池中只能存放 Request 对象
+		if r, ok := request.(*Request); ok {
+			RequestPool.Put(r)
+		}
 	}
 }
 
-- 
2.43.0


From 310ccd2b6e14045ef6c160cd08050d6e517745e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:08 +0000
Subject: [PATCH 14/47] fix: do not split a buffered message where a direct
 send can come between

---
 znet/connection.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/znet/connection.go b/znet/connection.go
index f720650..57a9459 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -387,6 +387,14 @@ func (c *Connection) SendBuf(data []byte) error {
 	if c.isClosed() == true {
 		return errors.New("connection closed when send msg")
 	}
+	// Messages sent directly bypass the buffer, so the buffer must never be flushed in the middle of a message
+	// (直接发送的消息不经过缓冲，因此缓冲区不能在一条消息的中间被刷新)
+	if len(data) > c.bufWriter.Available() {
+		if err := c.bufWriter.Flush(); err != nil {
+			zlog.Ins().ErrorF("SendMsg err data = %+v, err = %+v", data, err)
+			return err
+		}
+	}
 	_, err := c.bufWriter.Write(data)
 	if err != nil {
 		zlog.Ins().ErrorF("SendMsg err data = %+v, err = %+v", data, err)
-- 
2.43.0


From bc18395805a08e641123426c0fa28273a88db203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:55 +0000
Subject: [PATCH 15/47] fix: create a KCP connection's send queue and writer
 once, and never send on the closed queue

---
 znet/kcp_connection.go | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index ab0e78b..0ecd054 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -56,6 +56,10 @@ type KcpConnection struct {
 	// (有缓冲管道，用于读、写两个goroutine之间的消息通信)
 	msgBuffChan chan []byte
 
+	// Creates msgBuffChan and starts the writer on first use
+	// (首次使用时创建msgBuffChan并启动写协程)
+	startWriterOnce sync.Once
+
 	// Lock for user message reception and transmission
 	// (用户收发消息的Lock)
 	msgLock sync.RWMutex
@@ -365,22 +369,22 @@ func (c *KcpConnection) SendToQueue(data []byte) error {
 	c.msgLock.RLock()
 	defer c.msgLock.RUnlock()
 
-	if c.msgBuffChan == nil {
+	if c.isClosed() {
+		return errors.New("Connection closed when send buff msg")
+	}
+
+	c.startWriterOnce.Do(func() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
 		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
 		// (开启用于写回客户端数据流程的Goroutine
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
-	}
+	})
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
 
-	if c.isClosed() {
-		return errors.New("Connection closed when send buff msg")
-	}
-
 	if data == nil {
 		zlog.Ins().ErrorF("Pack data is nil")
 		return errors.New("Pack data is nil")
@@ -421,31 +425,13 @@ func (c *KcpConnection) SendBuffMsg(msgID uint32, data []byte) error {
 	if c.isClosed() {
 		return errors.New("connection closed when send buff msg")
 	}
-	if c.msgBuffChan == nil {
-		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
-		// Start a Goroutine to write data back to the client
-		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
-		// (开启用于写回客户端数据流程的Goroutine
-		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
-		go c.StartWriter()
-	}
-
-	idleTimeout := time.NewTimer(5 * time.Millisecond)
-	defer idleTimeout.Stop()
-
 	msg, err := c.packet.Pack(zpack.NewMsgPackage(msgID, data))
 	if err != nil {
 		zlog.Ins().ErrorF("Pack error msg ID = %d", msgID)
 		return errors.New("Pack error msg ")
 	}
 
-	// send timeout
-	select {
-	case <-idleTimeout.C:
-		return errors.New("send buff msg timeout")
-	case c.msgBuffChan <- msg:
-		return nil
-	}
+	return c.SendToQueue(msg)
 }
 
 func (c *KcpConnection) SetProperty(key string, value interface{}) {
-- 
2.43.0


From f637e85fb00d5036e217305c9612453fa68bfb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:41 +0000
Subject: [PATCH 16/47] fix: allow a connection to be stopped before it is
 started

---
 znet/connection.go     |  7 ++++++-
 znet/kcp_connection.go |  7 ++++++-
 znet/ws_connection.go  | 11 ++++++-----
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 57a9459..e0fa667 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -135,6 +135,9 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 		localAddr:       conn.LocalAddr().String(),
 		remoteAddr:      conn.RemoteAddr().String(),
 	}
+	// Created here, so that the connection can be stopped before it is started
+	// (在此处创建，这样连接在启动之前也可以被停止)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
@@ -173,6 +176,9 @@ func newClientConn(client ziface.IClient, conn net.Conn) ziface.IConnection {
 		localAddr:       conn.LocalAddr().String(),
 		remoteAddr:      conn.RemoteAddr().String(),
 	}
+	// Created here, so that the connection can be stopped before it is started
+	// (在此处创建，这样连接在启动之前也可以被停止)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
@@ -299,7 +305,6 @@ func (c *Connection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 0ecd054..4693107 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -137,6 +137,9 @@ func newKcpServerConn(server ziface.IServer, conn *kcp.UDPSession, connID uint64
 		localAddr:   conn.LocalAddr().String(),
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
+	// Created here, so that the connection can be stopped before it is started
+	// (在此处创建，这样连接在启动之前也可以被停止)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
@@ -173,6 +176,9 @@ func newKcpClientConn(client ziface.IClient, conn *kcp.UDPSession) ziface.IConne
 		localAddr:   conn.LocalAddr().String(),
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
+	// Created here, so that the connection can be stopped before it is started
+	// (在此处创建，这样连接在启动之前也可以被停止)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
@@ -284,7 +290,6 @@ func (c *KcpConnection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 9b0a79d..da08d58 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -130,6 +130,9 @@ func newWebsocketConn(server ziface.IServer, conn *websocket.Conn, connID uint64
 		localAddr:   conn.LocalAddr().String(),
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
+	// Created here, so that the connection can be stopped before it is started
+	// (在此处创建，这样连接在启动之前也可以被停止)
+	c.ctx, c.cancel = context.WithCancel(c.ctx)
 
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
@@ -165,6 +168,9 @@ func newWsClientConn(client ziface.IClient, conn *websocket.Conn) ziface.IConnec
 		localAddr:   conn.LocalAddr().String(),
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
+	// Created here, so that the connection can be stopped before it is started
+	// (在此处创建，这样连接在启动之前也可以被停止)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
@@ -279,11 +285,6 @@ func (c *WsConnection) StartReader() {
 // Start starts the connection and makes it work.
 // (Start 启动连接，让当前连接开始工作)
 func (c *WsConnection) Start() {
-	ctx := c.ctx
-	if ctx == nil {
-		ctx = context.Background()
-	}
-	c.ctx, c.cancel = context.WithCancel(ctx)
 	// Execute the hook method according to the business needs of creating the connection passed in by the user.
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
-- 
2.43.0


From 221cf858fa6803fe77a6af6e19a68e684258f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 17/47] fix: do not close a TCP connection's send queue while
 senders may use it

---
 znet/connection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index e0fa667..992f5ac 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -434,8 +434,8 @@ func (c *Connection) SendToQueue(data []byte) error {
 	// Send timeout
 	select {
 	case <-c.ctx.Done():
-		// Close all channels associated with the connection
-		close(c.msgBuffChan)
+		// The channel is not closed here: several senders may be waiting on it
+		// (此处不关闭channel，可能有多个发送者正在使用它)
 		return errors.New("connection closed when send buff msg")
 	case <-idleTimeout.C:
 		return errors.New("send buff msg timeout")
-- 
2.43.0


From bd44137e18e0d1762c0e310df9eeb0367a00af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 18/47] fix: close the socket of an ending connection before
 waiting for its senders

---
 znet/connection.go     |  6 +++---
 znet/kcp_connection.go |  8 ++++----
 znet/ws_connection.go  | 20 ++++++++++----------
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 992f5ac..8a665ec 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -514,14 +514,14 @@ func (c *Connection) finalizer() {
 	// (如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
+	// Close the socket connection, which also releases a sender (such as the heartbeat) blocked on it
+	_ = c.conn.Close()
+
 	// Stop the heartbeat detector associated with the connection
 	if c.hc != nil {
 		c.hc.Stop()
 	}
 
-	// Close the socket connection
-	_ = c.conn.Close()
-
 	// 归还workerid
 	// Before leaving the connection manager, so that a connection accepted in its place finds the worker free
 	freeWorker(c)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 4693107..b371b5b 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -486,16 +486,16 @@ func (c *KcpConnection) finalizer() {
 	//(如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
-	c.msgLock.Lock()
-	defer c.msgLock.Unlock()
+	// Close the socket connection first, which releases senders blocked on it while they hold msgLock
+	_ = c.conn.Close()
 
 	// Stop the heartbeat detector associated with the connection
 	if c.hc != nil {
 		c.hc.Stop()
 	}
 
-	// Close the socket connection
-	_ = c.conn.Close()
+	c.msgLock.Lock()
+	defer c.msgLock.Unlock()
 
 	// 归还workerid
 	// Before leaving the connection manager, so that a connection accepted in its place finds the worker free
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index da08d58..4a77630 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -502,6 +502,16 @@ func (c *WsConnection) finalizer() {
 	// (如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
+	// Close the socket connection first, which releases senders blocked on it while they hold msgLock.
+	// (首先关闭socket连接，释放持有msgLock并阻塞在该连接上的发送者)
+	_ = c.conn.Close()
+
+	// Stop the heartbeat detector bound to the connection.
+	// (关闭连接绑定的心跳检测器)
+	if c.hc != nil {
+		c.hc.Stop()
+	}
+
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
@@ -511,16 +521,6 @@ func (c *WsConnection) finalizer() {
 		return
 	}
 
-	// Stop the heartbeat detector bound to the connection.
-	// (关闭连接绑定的心跳检测器)
-	if c.hc != nil {
-		c.hc.Stop()
-	}
-
-	// Close the socket connection.
-	// (关闭socket连接)
-	_ = c.conn.Close()
-
 	// 归还workerid
 	// Before leaving the connection manager, so that a connection accepted in its place finds the worker free
 	freeWorker(c)
-- 
2.43.0


From 47b6177897f540c177aea504a25fead3937e5611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:05 +0000
Subject: [PATCH 19/47] fix: bind no worker where there is no worker pool, as
 on the client side

---
 znet/msghandler.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index f8d2fe7..e394ed1 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -164,14 +164,18 @@ func newCliMsgHandle() *MsgHandle {
 // Use worker ID
 // 占用workerID
 func useWorker(conn ziface.IConnection) uint32 {
-	var workerId uint32
-
 	mh, _ := conn.GetMsgHandler().(*MsgHandle)
 	if mh == nil {
 		zlog.Ins().ErrorF("useWorker failed, mh is nil")
 		return 0
 	}
 
+	// Without a worker pool (as on the client side) there is no worker to bind
+	// (没有工作池时(例如客户端)，没有worker可以绑定)
+	if mh.WorkerPoolSize == 0 {
+		return 0
+	}
+
 	if zconf.GlobalObject.WorkerMode == zconf.WorkerModeBind {
 		mh.freeWorkerMu.Lock()
 		defer mh.freeWorkerMu.Unlock()
@@ -205,20 +209,12 @@ func useWorker(conn ziface.IConnection) uint32 {
 		}
 	}
 
-	//Compatible with the situation where the client has no worker, and solve the situation divide 0
-	//(兼容client没有worker情况，解决除0的情况)
-	if mh.WorkerPoolSize == 0 {
-		workerId = 0
-	} else {
-		// Assign the worker responsible for processing the current connection based on the ConnID
-		// Using a round-robin average allocation rule to get the workerID that needs to process this connection
-		// (根据ConnID来分配当前的连接应该由哪个worker负责处理
-		// 轮询的平均分配法则
-		// 得到需要处理此条连接的workerID)
-		workerId = uint32(conn.GetConnID() % uint64(mh.WorkerPoolSize))
-	}
-
-	return workerId
+	// Assign the worker responsible for processing the current connection based on the ConnID
+	// Using a round-robin average allocation rule to get the workerID that needs to process this connection
+	// (根据ConnID来分配当前的连接应该由哪个worker负责处理
+	// 轮询的平均分配法则
+	// 得到需要处理此条连接的workerID)
+	return uint32(conn.GetConnID() % uint64(mh.WorkerPoolSize))
 }
 
 // Free worker ID
@@ -230,6 +226,10 @@ func freeWorker(conn ziface.IConnection) {
 		return
 	}
 
+	if mh.WorkerPoolSize == 0 {
+		return
+	}
+
 	if zconf.GlobalObject.WorkerMode == zconf.WorkerModeBind {
 		mh.freeWorkerMu.Lock()
 		defer mh.freeWorkerMu.Unlock()
-- 
2.43.0


From 8b2409505b27ca90de7829773cd84b169749b315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:39 +0000
Subject: [PATCH 20/47] fix: let a WebSocket connection report its end without
 waiting for blocked senders

---
 znet/ws_connection.go | 48 +++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 4a77630..1b551fb 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -66,9 +66,6 @@ type WsConnection struct {
 	// propertyLock protects the current property lock. (保护当前property的锁)
 	propertyLock sync.Mutex
 
-	// isClosed is the current connection's closed state. (当前连接的关闭状态)
-	isClosed bool
-
 	// connManager is the Connection Manager to which the current connection belongs. (当前连接是属于哪个Connection Manager的)
 	connManager ziface.IConnManager
 
@@ -123,7 +120,6 @@ func newWebsocketConn(server ziface.IServer, conn *websocket.Conn, connID uint64
 		conn:        conn,
 		connID:      connID,
 		connIdStr:   strconv.FormatUint(connID, 10),
-		isClosed:    false,
 		msgBuffChan: nil,
 		property:    nil,
 		name:        server.ServerName(),
@@ -161,7 +157,6 @@ func newWsClientConn(client ziface.IClient, conn *websocket.Conn) ziface.IConnec
 		conn:        conn,
 		connID:      0,  // client ignore
 		connIdStr:   "", // client ignore
-		isClosed:    false,
 		msgBuffChan: nil,
 		property:    nil,
 		name:        client.GetName(),
@@ -350,11 +345,11 @@ func (c *WsConnection) LocalAddr() net.Addr {
 }
 
 func (c *WsConnection) Send(data []byte) error {
-	c.msgLock.Lock()
-	defer c.msgLock.Unlock()
-	if c.isClosed == true {
+	if c.isClosed() {
 		return errors.New("WsConnection closed when send msg")
 	}
+	c.msgLock.Lock()
+	defer c.msgLock.Unlock()
 
 	err := c.conn.WriteMessage(websocket.BinaryMessage, data)
 	if err != nil {
@@ -366,6 +361,9 @@ func (c *WsConnection) Send(data []byte) error {
 }
 
 func (c *WsConnection) SendToQueue(data []byte) error {
+	if c.isClosed() {
+		return errors.New("WsConnection closed when send buff msg")
+	}
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
@@ -381,7 +379,7 @@ func (c *WsConnection) SendToQueue(data []byte) error {
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
 
-	if c.isClosed == true {
+	if c.isClosed() {
 		return errors.New("WsConnection closed when send buff msg")
 	}
 
@@ -401,11 +399,11 @@ func (c *WsConnection) SendToQueue(data []byte) error {
 // SendMsg directly sends the Message data to the remote TCP client.
 // (直接将Message数据发送数据给远程的TCP客户端)
 func (c *WsConnection) SendMsg(msgID uint32, data []byte) error {
-	c.msgLock.Lock()
-	defer c.msgLock.Unlock()
-	if c.isClosed == true {
+	if c.isClosed() {
 		return errors.New("WsConnection closed when send msg")
 	}
+	c.msgLock.Lock()
+	defer c.msgLock.Unlock()
 
 	// Package data and send
 	// (将data封包，并且发送)
@@ -427,6 +425,9 @@ func (c *WsConnection) SendMsg(msgID uint32, data []byte) error {
 
 // SendBuffMsg sends BuffMsg
 func (c *WsConnection) SendBuffMsg(msgID uint32, data []byte) error {
+	if c.isClosed() {
+		return errors.New("WsConnection closed when send buff msg")
+	}
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
@@ -442,7 +443,7 @@ func (c *WsConnection) SendBuffMsg(msgID uint32, data []byte) error {
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
 
-	if c.isClosed == true {
+	if c.isClosed() {
 		return errors.New("WsConnection closed when send buff msg")
 	}
 
@@ -515,12 +516,6 @@ func (c *WsConnection) finalizer() {
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
-	// If the current connection is already closed.
-	// (如果当前连接已经关闭)
-	if c.isClosed == true {
-		return
-	}
-
 	// 归还workerid
 	// Before leaving the connection manager, so that a connection accepted in its place finds the worker free
 	freeWorker(c)
@@ -537,9 +532,6 @@ func (c *WsConnection) finalizer() {
 		close(c.msgBuffChan)
 	}
 
-	// Set the flag to indicate that the connection is closed. (设置标志位)
-	c.isClosed = true
-
 	go func() {
 		defer func() {
 			if err := recover(); err != nil {
@@ -568,7 +560,7 @@ func (c *WsConnection) callOnConnStop() {
 }
 
 func (c *WsConnection) IsAlive() bool {
-	if c.isClosed {
+	if c.isClosed() {
 		return false
 	}
 	// Check the time duration since the last activity of the connection, if it exceeds the maximum heartbeat interval,
@@ -601,8 +593,14 @@ func (c *WsConnection) GetMsgHandler() ziface.IMsgHandle {
 	return c.msgHandler
 }
 
+// isClosed reports whether the connection has ended. It needs no lock, so a sender that is blocked does not delay it.
+// (连接是否已经关闭，不需要加锁，因此不会被阻塞的发送者延迟)
+func (c *WsConnection) isClosed() bool {
+	return c.ctx.Err() != nil
+}
+
 func (s *WsConnection) AddCloseCallback(handler, key interface{}, f func()) {
-	if s.isClosed {
+	if s.isClosed() {
 		return
 	}
 	s.closeCallbackMutex.Lock()
@@ -611,7 +609,7 @@ func (s *WsConnection) AddCloseCallback(handler, key interface{}, f func()) {
 }
 
 func (s *WsConnection) RemoveCloseCallback(handler, key interface{}) {
-	if s.isClosed {
+	if s.isClosed() {
 		return
 	}
 	s.closeCallbackMutex.Lock()
-- 
2.43.0


From 1cce2af5c6fd654adf4c8c063c7609d72c17ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:39 +0000
Subject: [PATCH 21/47] fix: contain panics of hooks on WebSocket connections,
 as for TCP and KCP

---
 znet/ws_connection.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 1b551fb..a83fd32 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -280,6 +280,12 @@ func (c *WsConnection) StartReader() {
 // Start starts the connection and makes it work.
 // (Start 启动连接，让当前连接开始工作)
 func (c *WsConnection) Start() {
+	defer func() {
+		if err := recover(); err != nil {
+			zlog.Ins().ErrorF("Connection Start() error: %v", err)
+		}
+	}()
+
 	// Execute the hook method according to the business needs of creating the connection passed in by the user.
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
-- 
2.43.0


From 339570f155e941b653380d7b02dae8c67a045b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:02 +0000
Subject: [PATCH 22/47] fix: hold the connection limit across concurrent
 WebSocket upgrades and listeners

---
 znet/server.go | 47 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 6152000..d51b8fb 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -9,6 +9,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"sync"
 	"sync/atomic"
 	"syscall"
 	"time"
@@ -89,6 +90,10 @@ type Server struct {
 
 	// connection id
 	cID uint64
+
+	// Serializes the admission of new connections, so that MaxConn holds across all listeners
+	// (串行化新连接的准入，保证所有监听器一起不超过MaxConn)
+	admitMux sync.Mutex
 }
 
 type KcpConfig struct {
@@ -235,6 +240,20 @@ func (s *Server) StartConn(conn ziface.IConnection) {
 	conn.Start()
 }
 
+// admit creates (and thereby registers) a connection unless the maximum number of connections has been reached.
+// It returns nil if the connection is not admitted.
+// (在未达到最大连接数时创建并注册连接，否则返回nil)
+func (s *Server) admit(newConn func(connID uint64) ziface.IConnection) ziface.IConnection {
+	s.admitMux.Lock()
+	defer s.admitMux.Unlock()
+
+	if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
+		zlog.Ins().InfoF("Exceeded the maxConnNum:%d, connection refused", zconf.GlobalObject.MaxConn)
+		return nil
+	}
+	return newConn(atomic.AddUint64(&s.cID, 1))
+}
+
 func (s *Server) ListenTcpConn() {
 	zlog.Ins().InfoF("[START] TCP Server name: %s,listener at IP: %s, Port %d is starting", s.Name, s.IP, s.Port)
 	// 1. Get a TCP address
@@ -297,8 +316,13 @@ func (s *Server) ListenTcpConn() {
 
 			// 3.4 Handle the business method for this new connection request. At this time, the handler and conn should be bound.
 			// (处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn是绑定的)
-			newCid := atomic.AddUint64(&s.cID, 1)
-			dealConn := newServerConn(s, conn, newCid)
+			dealConn := s.admit(func(connID uint64) ziface.IConnection {
+				return newServerConn(s, conn, connID)
+			})
+			if dealConn == nil {
+				_ = conn.Close()
+				continue
+			}
 
 			go s.StartConn(dealConn)
 
@@ -351,8 +375,13 @@ func (s *Server) ListenWebsocketConn() {
 		AcceptDelay.Reset()
 		// 5. Handle the business logic of the new connection, which should already be bound to a handler and conn
 		// 5. 处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn是绑定的
-		newCid := atomic.AddUint64(&s.cID, 1)
-		wsConn := newWebsocketConn(s, conn, newCid, r)
+		wsConn := s.admit(func(connID uint64) ziface.IConnection {
+			return newWebsocketConn(s, conn, connID, r)
+		})
+		if wsConn == nil {
+			_ = conn.Close()
+			return
+		}
 		go s.StartConn(wsConn)
 
 	})
@@ -396,15 +425,19 @@ func (s *Server) ListenKcpConn() {
 
 			// 3.4 Handle the business method for this new connection request. At this time, the handler and conn should be bound.
 			// (处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn 是绑定的)
-			newCid := atomic.AddUint64(&s.cID, 1)
-
 			kcpConn := conn.(*kcp.UDPSession)
 			kcpConn.SetACKNoDelay(s.kcpConfig.KcpACKNoDelay)
 			kcpConn.SetStreamMode(s.kcpConfig.KcpStreamMode)
 			kcpConn.SetNoDelay(s.kcpConfig.KcpNoDelay, s.kcpConfig.KcpInterval, s.kcpConfig.KcpResend, s.kcpConfig.KcpNc)
 			kcpConn.SetWindowSize(s.kcpConfig.KcpSendWindow, s.kcpConfig.KcpRecvWindow)
 
-			dealConn := newKcpServerConn(s, kcpConn, newCid)
+			dealConn := s.admit(func(connID uint64) ziface.IConnection {
+				return newKcpServerConn(s, kcpConn, connID)
+			})
+			if dealConn == nil {
+				_ = kcpConn.Close()
+				continue
+			}
 
 			go s.StartConn(dealConn)
 		}
-- 
2.43.0


From 1e23e42b9ae64f3de4cbef620632c26b6e6d58d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:59 +0000
Subject: [PATCH 23/47] fix: let a heartbeat checker be stopped when it is not
 running, stopped twice and restarted

---
 znet/heartbeat.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/znet/heartbeat.go b/znet/heartbeat.go
index b625b60..2366b10 100644
--- a/znet/heartbeat.go
+++ b/znet/heartbeat.go
@@ -2,6 +2,7 @@ package znet
 
 import (
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/aceld/zinx/ziface"
@@ -10,7 +11,8 @@ import (
 
 type HeartbeatChecker struct {
 	interval time.Duration //  Heartbeat detection interval(心跳检测时间间隔)
-	quitChan chan bool     // Quit signal(退出信号)
+	quitChan chan bool     // Quit signal of the running detection, nil when none is running(退出信号)
+	quitLock sync.Mutex    // Guards quitChan(保护退出信号)
 
 	makeMsg ziface.HeartBeatMsgFunc //User-defined heartbeat message processing method(用户自定义的心跳检测消息处理方法)
 
@@ -55,7 +57,6 @@ func notAliveDefaultFunc(conn ziface.IConnection) {
 func NewHeartbeatChecker(interval time.Duration) ziface.IHeartbeatChecker {
 	heartbeat := &HeartbeatChecker{
 		interval: interval,
-		quitChan: make(chan bool),
 
 		// Use default heartbeat message generation function and remote connection not alive handling method
 		// (均使用默认的心跳消息生成函数和远程连接不存活时的处理方法)
@@ -102,26 +103,45 @@ func (h *HeartbeatChecker) BindRouterSlices(msgID uint32, handlers ...ziface.Rou
 	}
 }
 
-func (h *HeartbeatChecker) start() {
+func (h *HeartbeatChecker) start(quitChan chan bool) {
 	ticker := time.NewTicker(h.interval)
+	defer ticker.Stop()
 	for {
 		select {
 		case <-ticker.C:
-			h.check()
-		case <-h.quitChan:
-			ticker.Stop()
+			select {
+			case <-quitChan:
+				return
+			default:
+				h.check()
+			}
+		case <-quitChan:
 			return
 		}
 	}
 }
 
 func (h *HeartbeatChecker) Start() {
-	go h.start()
+	h.quitLock.Lock()
+	defer h.quitLock.Unlock()
+	if h.quitChan != nil {
+		// Already running
+		return
+	}
+	h.quitChan = make(chan bool)
+	go h.start(h.quitChan)
 }
 
 func (h *HeartbeatChecker) Stop() {
+	h.quitLock.Lock()
+	defer h.quitLock.Unlock()
+	if h.quitChan == nil {
+		// Not running
+		return
+	}
 	zlog.Ins().InfoF("heartbeat checker stop, connID=%+v", h.conn.GetConnID())
-	h.quitChan <- true
+	close(h.quitChan)
+	h.quitChan = nil
 }
 
 func (h *HeartbeatChecker) SendHeartBeatMsg() error {
@@ -167,7 +187,6 @@ func (h *HeartbeatChecker) Clone() ziface.IHeartbeatChecker {
 
 	heartbeat := &HeartbeatChecker{
 		interval:         h.interval,
-		quitChan:         make(chan bool),
 		beatFunc:         h.beatFunc,
 		makeMsg:          h.makeMsg,
 		onRemoteNotAlive: h.onRemoteNotAlive,
-- 
2.43.0


From 81b1c4d4362753e62aa966ee4f960b91f6ac1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:04 +0000
Subject: [PATCH 24/47] fix: count WebSocket pings as activity for heartbeat
 detection

---
 znet/ws_connection.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index a83fd32..332f4f7 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -218,6 +218,14 @@ func (c *WsConnection) StartReader() {
 		}
 	}()
 
+	// ReadMessage only returns data messages: a ping counts as activity in its handler
+	// (ReadMessage只返回数据消息，ping消息在其处理函数中更新心跳检测Active状态)
+	pingHandler := c.conn.PingHandler()
+	c.conn.SetPingHandler(func(appData string) error {
+		c.updateActivity()
+		return pingHandler(appData)
+	})
+
 	// Create a pack-unpack object. (创建拆包解包的对象)
 	for {
 		select {
@@ -227,15 +235,11 @@ func (c *WsConnection) StartReader() {
 			// add by uuxia 2023-02-03
 			// Read data from the conn's IO to the memory buffer.
 			// (从conn的IO中读取数据到内存缓冲buffer中)
-			messageType, buffer, err := c.conn.ReadMessage()
+			_, buffer, err := c.conn.ReadMessage()
 			if err != nil {
 				c.cancel()
 				return
 			}
-			if messageType == websocket.PingMessage {
-				c.updateActivity()
-				continue
-			}
 			n := len(buffer)
 			if err != nil {
 				zlog.Ins().ErrorF("read msg head [read datalen=%d], error = %s", n, err.Error())
-- 
2.43.0


From bd6d0a08d704f64b4518d86602dfa97b077d73f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:04 +0000
Subject: [PATCH 25/47] fix: give each connection of a restarted client its own
 heartbeat checker

---
 znet/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/znet/client.go b/znet/client.go
index 123857a..61b29e4 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -181,7 +181,8 @@ func (c *Client) Restart() {
 		if c.hc != nil {
 			// Bind connection and heartbeat detector after connection is successfully established
 			// (创建连接成功，绑定连接与心跳检测器)
-			c.hc.BindConn(connect)
+			// Each connection gets a checker of its own: the end of an earlier one must not stop it
+			c.hc.Clone().BindConn(connect)
 		}
 
 		// Start connection
-- 
2.43.0


From 36a45e7fbe956f17c2b0ff89ef3c9af97d8b2884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:00 +0000
Subject: [PATCH 26/47] fix: stop a server in every mode and state, closing all
 its listeners first

---
 znet/server.go | 122 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 108 insertions(+), 14 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index d51b8fb..32951b8 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -94,6 +94,18 @@ type Server struct {
 	// Serializes the admission of new connections, so that MaxConn holds across all listeners
 	// (串行化新连接的准入，保证所有监听器一起不超过MaxConn)
 	admitMux sync.Mutex
+
+	// Serializes Start and Stop
+	// (串行化启动与停止)
+	lifeMux sync.Mutex
+
+	// Listeners started by Start that have not been closed yet
+	// (Start启动的尚未关闭的监听器)
+	listeners sync.WaitGroup
+
+	// Set by Stop, guarded by admitMux: no connection is admitted any more
+	// (由Stop设置，admitMux保护：不再准入新连接)
+	stopped bool
 }
 
 type KcpConfig struct {
@@ -247,6 +259,10 @@ func (s *Server) admit(newConn func(connID uint64) ziface.IConnection) ziface.IC
 	s.admitMux.Lock()
 	defer s.admitMux.Unlock()
 
+	if s.stopped {
+		zlog.Ins().InfoF("Server stopped, connection refused")
+		return nil
+	}
 	if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
 		zlog.Ins().InfoF("Exceeded the maxConnNum:%d, connection refused", zconf.GlobalObject.MaxConn)
 		return nil
@@ -254,6 +270,17 @@ func (s *Server) admit(newConn func(connID uint64) ziface.IConnection) ziface.IC
 	return newConn(atomic.AddUint64(&s.cID, 1))
 }
 
+// exited tells whether the server has been told to stop
+// (服务是否已被要求停止)
+func (s *Server) exited() bool {
+	select {
+	case <-s.exitChan:
+		return true
+	default:
+		return false
+	}
+}
+
 func (s *Server) ListenTcpConn() {
 	zlog.Ins().InfoF("[START] TCP Server name: %s,listener at IP: %s, Port %d is starting", s.Name, s.IP, s.Port)
 	// 1. Get a TCP address
@@ -289,8 +316,10 @@ func (s *Server) ListenTcpConn() {
 	}
 
 	// 3. Start server network connection business
+	done := make(chan struct{})
 	go func() {
-		for {
+		defer close(done)
+		for !s.exited() {
 			// 3.1 Set the maximum connection control for the server. If it exceeds the maximum connection, wait.
 			// (设置服务器最大连接控制,如果超过最大连接，则等待)
 			if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
@@ -334,12 +363,13 @@ func (s *Server) ListenTcpConn() {
 		if err != nil {
 			zlog.Ins().ErrorF("listener close err: %v", err)
 		}
+		<-done
 	}
 }
 
 func (s *Server) ListenWebsocketConn() {
 	zlog.Ins().InfoF("[START] WEBSOCKET Server name: %s,listener at IP: %s, Port %d, Path %s is starting", s.Name, s.IP, s.WsPort, s.WsPath)
-	http.HandleFunc(s.WsPath, func(w http.ResponseWriter, r *http.Request) {
+	upgrade := func(w http.ResponseWriter, r *http.Request) {
 		// 1. Check if the server has reached the maximum allowed number of connections
 		// (设置服务器最大连接控制,如果超过最大连接，则等待)
 		if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
@@ -384,11 +414,41 @@ func (s *Server) ListenWebsocketConn() {
 		}
 		go s.StartConn(wsConn)
 
-	})
+	}
 
-	err := http.ListenAndServe(fmt.Sprintf("%s:%d", s.IP, s.WsPort), nil)
-	if err != nil {
-		panic(err)
+	// The server has its own mux, so that it can be started again and does not share its path with other servers.
+	// Handlers registered with the default mux can still be reached on its port.
+	// (使用独立的mux，服务可以再次启动且不与其他服务共享路径，默认mux上注册的处理函数仍可访问)
+	mux := http.NewServeMux()
+	if s.WsPath == "/" {
+		mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
+			if h, pattern := http.DefaultServeMux.Handler(r); pattern != "" {
+				h.ServeHTTP(w, r)
+				return
+			}
+			upgrade(w, r)
+		})
+	} else {
+		mux.HandleFunc(s.WsPath, upgrade)
+		mux.Handle("/", http.DefaultServeMux)
+	}
+
+	httpServer := &http.Server{Addr: fmt.Sprintf("%s:%d", s.IP, s.WsPort), Handler: mux}
+	done := make(chan struct{})
+	go func() {
+		defer close(done)
+		err := httpServer.ListenAndServe()
+		if err != nil && !errors.Is(err, http.ErrServerClosed) {
+			panic(err)
+		}
+	}()
+	select {
+	case <-s.exitChan:
+		err := httpServer.Close()
+		if err != nil {
+			zlog.Ins().ErrorF("websocket listener close err: %v", err)
+		}
+		<-done
 	}
 }
 
@@ -403,8 +463,10 @@ func (s *Server) ListenKcpConn() {
 
 	zlog.Ins().InfoF("[START] KCP server listening at IP: %s, Port %d, Addr %s", s.IP, s.KcpPort, listener.Addr().String())
 	// 2. Start server network connection business
+	done := make(chan struct{})
 	go func() {
-		for {
+		defer close(done)
+		for !s.exited() {
 			// 2.1 Set the maximum connection control for the server. If it exceeds the maximum connection, wait.
 			// (设置服务器最大连接控制,如果超过最大连接，则等待)
 			if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
@@ -416,6 +478,10 @@ func (s *Server) ListenKcpConn() {
 			// (阻塞等待客户端建立连接请求)
 			conn, err := listener.Accept()
 			if err != nil {
+				if s.exited() {
+					zlog.Ins().ErrorF("KCP Listener closed")
+					return
+				}
 				zlog.Ins().ErrorF("Accept KCP err: %v", err)
 				AcceptDelay.Delay()
 				continue
@@ -448,13 +514,20 @@ func (s *Server) ListenKcpConn() {
 		if err != nil {
 			zlog.Ins().ErrorF("KCP listener close err: %v", err)
 		}
+		<-done
 	}
 }
 
 // Start the network service
 // (开启网络服务)
 func (s *Server) Start() {
+	s.lifeMux.Lock()
+	defer s.lifeMux.Unlock()
+
 	s.exitChan = make(chan struct{})
+	s.admitMux.Lock()
+	s.stopped = false
+	s.admitMux.Unlock()
 
 	// Add decoder to interceptors head
 	// (将解码器添加到拦截器最前面)
@@ -469,27 +542,48 @@ func (s *Server) Start() {
 	// (开启一个go去做服务端Listener业务)
 	switch zconf.GlobalObject.Mode {
 	case zconf.ServerModeTcp:
-		go s.ListenTcpConn()
+		s.listen(s.ListenTcpConn)
 	case zconf.ServerModeWebsocket:
-		go s.ListenWebsocketConn()
+		s.listen(s.ListenWebsocketConn)
 	case zconf.ServerModeKcp:
-		go s.ListenKcpConn()
+		s.listen(s.ListenKcpConn)
 	default:
-		go s.ListenTcpConn()
-		go s.ListenWebsocketConn()
+		s.listen(s.ListenTcpConn)
+		s.listen(s.ListenWebsocketConn)
 	}
 
 }
 
+// listen runs a listener in its own goroutine
+// (在独立的go中运行监听器)
+func (s *Server) listen(listener func()) {
+	s.listeners.Add(1)
+	go func() {
+		defer s.listeners.Done()
+		listener()
+	}()
+}
+
 // Stop stops the server (停止服务)
 func (s *Server) Stop() {
 	zlog.Ins().InfoF("[STOP] Zinx server , name %s", s.Name)
 
+	s.lifeMux.Lock()
+	defer s.lifeMux.Unlock()
+
+	// Admit no more connections and close the listeners, if the server is running
+	// (不再准入新连接并关闭监听器)
+	s.admitMux.Lock()
+	s.stopped = true
+	s.admitMux.Unlock()
+	if s.exitChan != nil && !s.exited() {
+		close(s.exitChan)
+	}
+	s.listeners.Wait()
+
 	// Clear other connection information or other information that needs to be cleaned up
 	// (将其他需要清理的连接信息或者其他信息 也要一并停止或者清理)
 	s.ConnMgr.ClearConn()
-	s.exitChan <- struct{}{}
-	close(s.exitChan)
 }
 
 // Serve runs the server (运行服务)
-- 
2.43.0


From 89cc0dc19099ef704475a2eaf1987d1a79750b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:42 +0000
Subject: [PATCH 27/47] fix: stop and restart a client in every state, whether
 or not its dial succeeded

---
 znet/client.go | 171 ++++++++++++++++++++++++++++---------------------
 1 file changed, 98 insertions(+), 73 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index 61b29e4..19d29e4 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -1,6 +1,7 @@
 package znet
 
 import (
+	"context"
 	"crypto/tls"
 	"fmt"
 	"net"
@@ -35,8 +36,13 @@ type Client struct {
 	onConnStop func(conn ziface.IConnection)
 	// Data packet packer 数据报文封包方式
 	packet ziface.IDataPack
-	// Asynchronous channel for capturing connection close status 异步捕获连接关闭状态
-	exitChan chan struct{}
+	// Ends when the client is stopped, nil while it is not running 客户端停止时结束，未运行时为nil
+	ctx    context.Context
+	cancel context.CancelFunc
+	// Dials that have not reported their result yet 尚未报告结果的拨号
+	dials *sync.WaitGroup
+	// Stop has been called since the last start 最近一次启动后调用过Stop
+	stopped bool
 	// Message management module 消息管理模块
 	msgHandler ziface.IMsgHandle
 	// Disassembly and assembly decoder for resolving sticky and broken packages
@@ -113,68 +119,45 @@ func NewTLSClient(ip string, port int, opts ...ClientOption) ziface.IClient {
 // Start starts the client, sends requests and establishes a connection.
 // (重新启动客户端，发送请求且建立连接)
 func (c *Client) Restart() {
-	c.exitChan = make(chan struct{})
-
-	go func() {
+	c.connMux.Lock()
+	defer c.connMux.Unlock()
 
-		addr := &net.TCPAddr{
-			IP:   net.ParseIP(c.Ip),
-			Port: c.Port,
-			Zone: "", //for ipv6, ignore
+	if c.ctx == nil {
+		c.ctx, c.cancel = context.WithCancel(context.Background())
+		c.dials = &sync.WaitGroup{}
+		if c.stopped {
+			// Stop has closed the previous error channel (Stop已关闭之前的ErrChan)
+			c.ErrChan = make(chan error)
+			c.stopped = false
 		}
+	}
 
-		// Create a raw socket and get net.Conn (创建原始Socket，得到net.Conn)
-		var connect ziface.IConnection
-		switch c.version {
-		case "websocket":
-			wsAddr := fmt.Sprintf("ws://%s:%d", c.Ip, c.Port)
-			if c.Url != nil {
-				wsAddr = c.Url.String()
-			}
-
-			// Create a raw socket and get net.Conn (创建原始Socket，得到net.Conn)
-			wsConn, _, err := c.dialer.Dial(wsAddr, nil)
-			if err != nil {
-				// connection failed
-				zlog.Ins().ErrorF("WsClient connect to server failed, err:%v", err)
-				c.ErrChan <- err
-				return
-			}
-			// Create Connection object
-			connect = newWsClientConn(c, wsConn)
-
-		default:
-			var conn net.Conn
-			var err error
-			if c.useTLS {
-				// TLS encryption
-				config := &tls.Config{
-					// Skip certificate verification here because the CA certificate of the certificate issuer is not authenticated
-					// (这里是跳过证书验证，因为证书签发机构的CA证书是不被认证的)
-					InsecureSkipVerify: true,
-				}
-
-				conn, err = tls.Dial("tcp", fmt.Sprintf("%v:%v", net.ParseIP(c.Ip), c.Port), config)
-				if err != nil {
-					zlog.Ins().ErrorF("tls client connect to server failed, err:%v", err)
-					c.ErrChan <- err
-					return
-				}
-			} else {
-				conn, err = net.DialTCP("tcp", nil, addr)
-				if err != nil {
-					// connection failed
-					zlog.Ins().ErrorF("client connect to server failed, err:%v", err)
-					c.ErrChan <- err
-					return
-				}
+	c.dials.Add(1)
+	go func(ctx context.Context, dials *sync.WaitGroup, errChan chan error) {
+		defer dials.Done()
+
+		// Create a raw socket (创建原始Socket)
+		newConn, closeSocket, err := c.dial(ctx)
+		if err != nil {
+			// connection failed
+			zlog.Ins().ErrorF("client connect to server failed, err:%v", err)
+			select {
+			case errChan <- err:
+			case <-ctx.Done():
 			}
-			// Create Connection object
-			connect = newClientConn(c, conn)
+			return
 		}
 
-		// Set connection to the client
-		c.setConn(connect)
+		// Set connection to the client, unless it has been stopped in the meantime
+		c.connMux.Lock()
+		if ctx.Err() != nil {
+			c.connMux.Unlock()
+			_ = closeSocket()
+			return
+		}
+		connect := newConn()
+		c.conn = connect
+		c.connMux.Unlock()
 
 		zlog.Ins().InfoF("[START] Zinx Client LocalAddr: %s, RemoteAddr: %s\n", connect.LocalAddr(), connect.RemoteAddr())
 		// HeartBeat detection
@@ -187,12 +170,48 @@ func (c *Client) Restart() {
 
 		// Start connection
 		go connect.Start()
+	}(c.ctx, c.dials, c.ErrChan)
+}
+
+// dial connects to the server. It returns how to create the Connection object of the socket, and how to close the socket.
+// (连接服务器，返回创建Connection对象的方法和关闭Socket的方法)
+func (c *Client) dial(ctx context.Context) (newConn func() ziface.IConnection, closeSocket func() error, err error) {
+	switch c.version {
+	case "websocket":
+		wsAddr := fmt.Sprintf("ws://%s:%d", c.Ip, c.Port)
+		if c.Url != nil {
+			wsAddr = c.Url.String()
+		}
 
-		select {
-		case <-c.exitChan:
-			zlog.Ins().InfoF("client exit.")
+		wsConn, _, err := c.dialer.DialContext(ctx, wsAddr, nil)
+		if err != nil {
+			return nil, nil, err
+		}
+		return func() ziface.IConnection { return newWsClientConn(c, wsConn) }, wsConn.Close, nil
+
+	default:
+		var conn net.Conn
+		if c.useTLS {
+			// TLS encryption
+			dialer := &tls.Dialer{Config: &tls.Config{
+				// Skip certificate verification here because the CA certificate of the certificate issuer is not authenticated
+				// (这里是跳过证书验证，因为证书签发机构的CA证书是不被认证的)
+				InsecureSkipVerify: true,
+			}}
+			conn, err = dialer.DialContext(ctx, "tcp", fmt.Sprintf("%v:%v", net.ParseIP(c.Ip), c.Port))
+		} else {
+			addr := &net.TCPAddr{
+				IP:   net.ParseIP(c.Ip),
+				Port: c.Port,
+				Zone: "", //for ipv6, ignore
+			}
+			conn, err = (&net.Dialer{}).DialContext(ctx, "tcp", addr.String())
 		}
-	}()
+		if err != nil {
+			return nil, nil, err
+		}
+		return func() ziface.IConnection { return newClientConn(c, conn) }, conn.Close, nil
+	}
 }
 
 // Start starts the client, sends requests and establishes a connection.
@@ -245,14 +264,24 @@ func (c *Client) StartHeartBeatWithOption(interval time.Duration, option *ziface
 }
 
 func (c *Client) Stop() {
-	con := c.Conn()
-	if con != nil {
+	c.connMux.Lock()
+	defer c.connMux.Unlock()
+
+	if con := c.conn; con != nil {
 		zlog.Ins().InfoF("[STOP] Zinx Client LocalAddr: %s, RemoteAddr: %s\n", con.LocalAddr(), con.RemoteAddr())
 		con.Stop()
 	}
-	c.exitChan <- struct{}{}
-	close(c.exitChan)
-	close(c.ErrChan)
+	if c.ctx == nil {
+		// Not running
+		return
+	}
+	c.cancel()
+	c.ctx, c.cancel = nil, nil
+	c.stopped = true
+	go func(dials *sync.WaitGroup, errChan chan error) {
+		dials.Wait()
+		close(errChan)
+	}(c.dials, c.ErrChan)
 }
 
 func (c *Client) AddRouter(msgID uint32, router ziface.IRouter) {
@@ -265,12 +294,6 @@ func (c *Client) Conn() ziface.IConnection {
 	return c.conn
 }
 
-func (c *Client) setConn(con ziface.IConnection) {
-	c.connMux.Lock()
-	defer c.connMux.Unlock()
-	c.conn = con
-}
-
 func (c *Client) SetOnConnStart(hookFunc func(ziface.IConnection)) {
 	c.onConnStart = hookFunc
 }
@@ -314,6 +337,8 @@ func (c *Client) GetLengthField() *ziface.LengthField {
 }
 
 func (c *Client) GetErrChan() chan error {
+	c.connMux.Lock()
+	defer c.connMux.Unlock()
 	return c.ErrChan
 }
 
-- 
2.43.0


From 2ae1cea99a4360c61dc4b4f0bc25db89ded23bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:48 +0000
Subject: [PATCH 28/47] fix: decode once on a client that is started again

---
 znet/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index 19d29e4..c315e7b 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -218,9 +218,10 @@ func (c *Client) dial(ctx context.Context) (newConn func() ziface.IConnection, c
 // (启动客户端，发送请求且建立连接)
 func (c *Client) Start() {
 
-	// Add the decoder to the interceptor list (将解码器添加到拦截器)
+	// Put the decoder at the head of the interceptors, once however often the client is started
+	// (将解码器放在拦截器最前面，无论启动多少次都只有一个)
 	if c.decoder != nil {
-		c.msgHandler.AddInterceptor(c.decoder)
+		c.msgHandler.SetHeadInterceptor(c.decoder)
 	}
 
 	c.Restart()
-- 
2.43.0


From 780cfd1d3c41a3811aedf48a507f05d00808a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:14 +0000
Subject: [PATCH 29/47] fix: run the completion callback of an asynchronous
 result when it is set at the same time as the result

---
 zasync_op/async_op_result.go | 84 ++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 33 deletions(-)

diff --git a/zasync_op/async_op_result.go b/zasync_op/async_op_result.go
index 27b8284..580d035 100644
--- a/zasync_op/async_op_result.go
+++ b/zasync_op/async_op_result.go
@@ -7,7 +7,7 @@
 package zasync_op
 
 import (
-	"sync/atomic"
+	"sync"
 
 	"github.com/aceld/zinx/ziface"
 	"github.com/aceld/zinx/znet"
@@ -21,61 +21,79 @@ type AsyncOpResult struct {
 	// Completion callback function(完成回调函数)
 	completeFunc func()
 	// Whether the return value has been set(是否已有返回值)
-	hasReturnedObj int32
+	hasReturnedObj bool
 	// Whether the completion callback function has been set(是否已有回调函数)
-	hasCompleteFunc int32
+	hasCompleteFunc bool
 	// Whether the completion function has already been called(是否已经调用过完成函数)
-	completeFuncHasAlreadyBeenCalled int32 // Default value = 0, not yet called (默认值 = 0, 没被调用过)
+	completeFuncHasAlreadyBeenCalled bool
+	// Guards the fields above: the result and the callback may be set by different goroutines at the same time
+	// (保护以上字段：返回值和回调函数可能被不同的协程同时设置)
+	mu sync.Mutex
 }
 
 // GetReturnedObj returns the return value (获取返回值)
 func (aor *AsyncOpResult) GetReturnedObj() interface{} {
+	aor.mu.Lock()
+	defer aor.mu.Unlock()
 	return aor.returnedObj
 }
 
 // SetReturnedObj sets the return value(设置返回值)
 func (aor *AsyncOpResult) SetReturnedObj(val interface{}) {
-	if atomic.CompareAndSwapInt32(&aor.hasReturnedObj, 0, 1) {
-		aor.returnedObj = val
-		// **** 防止未调用回调函数问题: 设置处理结果时，直接调用回调函数：1.回调函数未绑定，调用空；2.回调函数已绑定,立马调用 ****
-		// **** Prevent the problem of not calling the completion callback function:
-		// Call the callback function directly when setting the processing result:
-		// 1. If the callback function is not bound, it will be called with nil;
-		// 2. If the callback function is bound, it will be called immediately. ****
-		aor.doComplete()
+	aor.mu.Lock()
+	if aor.hasReturnedObj {
+		aor.mu.Unlock()
+		return
 	}
+	aor.hasReturnedObj = true
+	aor.returnedObj = val
+	aor.mu.Unlock()
+
+	// **** 防止未调用回调函数问题: 设置处理结果时，直接调用回调函数：1.回调函数未绑定，不调用；2.回调函数已绑定,立马调用 ****
+	// **** Prevent the problem of not calling the completion callback function:
+	// Call the callback function directly when setting the processing result:
+	// 1. If the callback function is not bound, nothing is called;
+	// 2. If the callback function is bound, it will be called immediately. ****
+	aor.doComplete()
 }
 
 // OnComplete sets the completion callback function(完成回调函数)
 func (aor *AsyncOpResult) OnComplete(val func()) {
-	if atomic.CompareAndSwapInt32(&aor.hasCompleteFunc, 0, 1) {
-		aor.completeFunc = val
-
-		// **** 防止未调用回调函数问题:设置回调函数时，发现已经有处理结果了，直接调用 ****
-		// **** Prevent the problem of not calling the completion callback function:
-		// If a processing result already exists when setting the callback function,
-		// call the callback function directly. ****
-		if atomic.LoadInt32(&aor.hasReturnedObj) == 1 {
-			aor.doComplete()
-		}
+	aor.mu.Lock()
+	if aor.hasCompleteFunc {
+		aor.mu.Unlock()
+		return
 	}
+	aor.hasCompleteFunc = true
+	aor.completeFunc = val
+	aor.mu.Unlock()
+
+	// **** 防止未调用回调函数问题:设置回调函数时，发现已经有处理结果了，直接调用 ****
+	// **** Prevent the problem of not calling the completion callback function:
+	// If a processing result already exists when setting the callback function,
+	// call the callback function directly. ****
+	aor.doComplete()
 }
 
-// doComplete executes the completion callback function, double-checking when setting the processing result and callback function to prevent the possibility of not calling the callback function
-// (执行完成回调,在设置处理结果和回调函数的时候双重检查，杜绝未调用回调函数的可能性)
+// doComplete executes the completion callback function once both the processing result and the callback function are set,
+// whichever of them comes last
+// (执行完成回调：处理结果和回调函数都已设置后执行，不论哪一个后设置)
 func (aor *AsyncOpResult) doComplete() {
-	if aor.completeFunc == nil {
+	aor.mu.Lock()
+	// Prevent re-entry problems (防止可重入问题)
+	if !aor.hasReturnedObj || aor.completeFunc == nil || aor.completeFuncHasAlreadyBeenCalled {
+		aor.mu.Unlock()
 		return
 	}
+	aor.completeFuncHasAlreadyBeenCalled = true
+	completeFunc := aor.completeFunc
+	aor.mu.Unlock()
 
-	// Prevent re-entry problems (防止可重入问题)
-	if atomic.CompareAndSwapInt32(&aor.completeFuncHasAlreadyBeenCalled, 0, 1) {
-		// Prevent cross-thread calling problems,
-		// throw it to the corresponding business thread to execute
-		// (防止跨线程调用问题,扔到所属业务线程里去执行)
-		request := znet.NewFuncRequest(aor.conn, aor.completeFunc)
-		aor.conn.GetMsgHandler().SendMsgToTaskQueue(request)
-	}
+	// Prevent cross-thread calling problems,
+	// throw it to the corresponding business thread to execute
+	// (防止跨线程调用问题,扔到所属业务线程里去执行)
+	request := znet.NewFuncRequest(aor.conn, completeFunc)
+	aor.conn.GetMsgHandler().SendMsgToTaskQueue(request)
 }
 
 // NewAsyncOpResult creates a new asynchronous result(新建异步结果)
-- 
2.43.0


From 345e51a492774bda5b53593ebaaa3ea1dd04414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:14 +0000
Subject: [PATCH 30/47] fix: complete asynchronous results of connections
 without a worker pool

---
 znet/msghandler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index e394ed1..07da69c 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -302,6 +302,13 @@ func (mh *MsgHandle) AddInterceptor(interceptor ziface.IInterceptor) {
 // SendMsgToTaskQueue sends the message to the TaskQueue for processing by the worker
 // (将消息交给TaskQueue,由worker进行处理)
 func (mh *MsgHandle) SendMsgToTaskQueue(request ziface.IRequest) {
+	// Without a worker pool (as on the client side) there is no queue: as with messages, run the function in its own goroutine
+	// (没有工作池时(例如客户端)没有任务队列：与消息一样，在单独的协程中执行函数)
+	if funcRequest, ok := request.(ziface.IFuncRequest); ok && mh.WorkerPoolSize == 0 {
+		go mh.doFuncHandler(funcRequest, WorkerIDWithoutWorkerPool)
+		return
+	}
+
 	workerID := request.GetConnection().GetWorkerID()
 	// zlog.Ins().DebugF("Add ConnID=%d request msgID=%d to workerID=%d", request.GetConnection().GetConnID(), request.GetMsgID(), workerID)
 	// Send the request message to the task queue
-- 
2.43.0


From 16e2c09a45da3a25266c36ba7f5a6a9891b8e346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:56 +0000
Subject: [PATCH 31/47] fix: rotated log files never overwrite each other

---
 zutils/witer.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 01efae5..b946984 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -135,7 +135,7 @@ func (w *Writer) rotate() error {
 		w.file.Sync()
 		w.file.Close()
 		// 保存
-		fbak := w.fname + w.time2name(w.created)
+		fbak := w.bakname()
 		fbakname := fbak + w.fsuffix
 		err := os.Rename(w.fpath, filepath.Join(w.fdir, fbakname))
 		if err == nil {
@@ -195,6 +195,21 @@ func (w *Writer) name2time(name string) (time.Time, error) {
 	// 改为微秒级别的文件后缀，避免1s内大量写入造成多次rotate，而覆盖丢失之前的日志文件
 	return time.Parse(".2006-01-02-150405.000000", name)
 }
+
+// bakname 切割后的文件名，不与已有的文件重名(时钟可能停顿或回拨，重启后取文件修改时间)
+// (the name of the file being rotated, which no file rotated earlier has:
+// the clock may stand still or be set back, and after a restart the time is that of the file)
+func (w *Writer) bakname() string {
+	for t := w.created; ; t = t.Add(time.Microsecond) {
+		fbak := w.fname + w.time2name(t)
+		_, errLog := os.Lstat(filepath.Join(w.fdir, fbak+w.fsuffix))
+		_, errZip := os.Lstat(filepath.Join(w.fdir, fbak+w.zipsuffix))
+		if errLog != nil && errZip != nil {
+			return fbak
+		}
+	}
+}
+
 func (w *Writer) time2name(t time.Time) string {
 	return t.Format(".2006-01-02-150405.000000")
 }
-- 
2.43.0


From ac8beeaabf7bcf3ad6ab809f6c41d6c4cec4ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:03 +0000
Subject: [PATCH 32/47] fix: read the time in the name of a rotated log file as
 the local time it is

---
 zutils/witer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index b946984..0a15b7e 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -193,7 +193,8 @@ func (w *Writer) name2time(name string) (time.Time, error) {
 	name = strings.TrimPrefix(name, filepath.Base(w.fname))
 	name = strings.TrimSuffix(name, w.zipsuffix)
 	// 改为微秒级别的文件后缀，避免1s内大量写入造成多次rotate，而覆盖丢失之前的日志文件
-	return time.Parse(".2006-01-02-150405.000000", name)
+	// 文件名中的时间是本地时间 (the time in the name is local time)
+	return time.ParseInLocation(".2006-01-02-150405.000000", name, time.Local)
 }
 
 // bakname 切割后的文件名，不与已有的文件重名(时钟可能停顿或回拨，重启后取文件修改时间)
-- 
2.43.0


From e71caff6786b52ae92a354668ab1cda9dbf7492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:09 +0000
Subject: [PATCH 33/47] fix: lose nothing that is written while a log file is
 closed, and report a failed flush

---
 zutils/witer.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 0a15b7e..58efd83 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -215,20 +215,20 @@ func (w *Writer) time2name(t time.Time) string {
 	return t.Format(".2006-01-02-150405.000000")
 }
 
+// Close flushes and closes the file if it is open.
 func (w *Writer) Close() error {
-	w.flush()
-	return w.close()
-}
-
-// close closes the file if it is open.
-func (w *Writer) close() error {
+	// 刷新和关闭必须在同一个锁内，否则两者之间写入的数据会丢失
+	// (flush and close under one lock: what is written between the two would be lost)
 	w.mu.Lock()
 	defer w.mu.Unlock()
 	if w.file == nil {
 		return nil
 	}
+	err := w.bw.Flush()
 	w.file.Sync()
-	err := w.file.Close()
+	if cerr := w.file.Close(); err == nil {
+		err = cerr
+	}
 	w.file = nil
 	return err
 }
@@ -236,7 +236,7 @@ func (w *Writer) close() error {
 func (w *Writer) flush() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
-	if w.bw == nil {
+	if w.file == nil {
 		return nil
 	}
 	return w.bw.Flush()
-- 
2.43.0


From bd90188e1b7053440d87126c5983ea3e87bbccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:36 +0000
Subject: [PATCH 34/47] fix: keep a rotated log file when its archive could not
 be completed

---
 zutils/witer.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 58efd83..7508ec4 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -252,30 +252,38 @@ func ZipToFile(dst, src string) error {
 	if err != nil {
 		return err
 	}
-	defer fw.Close()
 
 	// 执行压缩
-	return Zip(fw, src)
+	err = Zip(fw, src)
+	if cerr := fw.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 // Zip 压缩文件或目录
 // @params dst io.Writer 压缩文件可写流
 // @params src string    待压缩源文件/目录路径
-func Zip(dst io.Writer, src string) error {
+func Zip(dst io.Writer, src string) (err error) {
 	// 强转一下路径
 	src = filepath.Clean(src)
 	// 提取最后一个文件或目录的名称
 	baseFile := filepath.Base(src)
 	// 判断src是否存在
-	_, err := os.Stat(src)
+	_, err = os.Stat(src)
 	if err != nil {
 		return err
 	}
 
 	// 通文件流句柄创建一个ZIP压缩包
 	zw := zip.NewWriter(dst)
-	// 延迟关闭这个压缩包
-	defer zw.Close()
+	// 延迟关闭这个压缩包，关闭失败时压缩包不完整
+	// (the archive is not complete when closing it fails)
+	defer func() {
+		if cerr := zw.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	// 通过filepath封装的Walk来递归处理源路径到压缩文件中
 	return filepath.Walk(src, func(path string, info fs.FileInfo, err error) error {
-- 
2.43.0


From 698d2927989ccbc1c14722785413dc8bbd76bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:50 +0000
Subject: [PATCH 35/47] fix: open the log file again after it could not be
 opened at a rotation

---
 zutils/witer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zutils/witer.go b/zutils/witer.go
index 7508ec4..f7256e2 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -134,6 +134,9 @@ func (w *Writer) rotate() error {
 		w.bw.Flush()
 		w.file.Sync()
 		w.file.Close()
+		// 打开新文件失败时，下一次写入重新打开，而不是写入已关闭的文件
+		// (when the new file cannot be opened, the next write opens it and does not write to the closed one)
+		w.file = nil
 		// 保存
 		fbak := w.bakname()
 		fbakname := fbak + w.fsuffix
-- 
2.43.0


From df383b937eabf1d746b20d1c89814abb1755f827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:38 +0000
Subject: [PATCH 36/47] fix: print the level and the caller in the log header
 whether or not the time is printed

---
 zlog/logger_core.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 143e64c..4e616f3 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -165,31 +165,31 @@ func (log *ZinxLoggerCore) formatHeader(t time.Time, file string, line int, leve
 			}
 			buf.WriteByte(' ')
 		}
+	}
 
-		// Log level flag is set
-		if log.flag&BitLevel != 0 {
-			buf.WriteString(levels[level])
-		}
+	// Log level flag is set
+	if log.flag&BitLevel != 0 {
+		buf.WriteString(levels[level])
+	}
 
-		// Short file name flag or long file name flag is set
-		if log.flag&(BitShortFile|BitLongFile) != 0 {
-			// Short file name flag is set
-			if log.flag&BitShortFile != 0 {
-				short := file
-				for i := len(file) - 1; i > 0; i-- {
-					if file[i] == '/' {
-						// Get the file name after the last '/' character, e.g. "zinx.go" from "/home/go/src/zinx.go"
-						short = file[i+1:]
-						break
-					}
+	// Short file name flag or long file name flag is set
+	if log.flag&(BitShortFile|BitLongFile) != 0 {
+		// Short file name flag is set
+		if log.flag&BitShortFile != 0 {
+			short := file
+			for i := len(file) - 1; i > 0; i-- {
+				if file[i] == '/' {
+					// Get the file name after the last '/' character, e.g. "zinx.go" from "/home/go/src/zinx.go"
+					short = file[i+1:]
+					break
 				}
-				file = short
 			}
-			buf.WriteString(file)
-			buf.WriteByte(':')
-			itoa(buf, line, -1) // line number
-			buf.WriteString(": ")
+			file = short
 		}
+		buf.WriteString(file)
+		buf.WriteByte(':')
+		itoa(buf, line, -1) // line number
+		buf.WriteString(": ")
 	}
 }
 
-- 
2.43.0


From c962ab6d7d825831f7c214f009bdd00e6e2a8d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:38 +0000
Subject: [PATCH 37/47] fix: end the line of an empty log message

---
 zlog/logger_core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 4e616f3..ae1119b 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -220,7 +220,7 @@ func (log *ZinxLoggerCore) OutPut(level int, s string) error {
 	// write log content
 	log.buf.WriteString(s)
 	// add line break
-	if len(s) > 0 && s[len(s)-1] != '\n' {
+	if len(s) == 0 || s[len(s)-1] != '\n' {
 		log.buf.WriteByte('\n')
 	}
 
-- 
2.43.0


From ca23a912b00af866c5e89333adfb6efc721b7357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:38 +0000
Subject: [PATCH 38/47] fix: lose no lines while the log file is changed

---
 zlog/logger_core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index ae1119b..c18192f 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -378,6 +378,10 @@ func (log *ZinxLoggerCore) SetPrefix(prefix string) {
 // SetLogFile sets the log file output
 // (设置日志文件输出)
 func (log *ZinxLoggerCore) SetLogFile(fileDir string, fileName string) {
+	// A line that is being written goes to either file, not to the one just closed
+	// (正在写入的日志写入新旧文件之一，而不是刚关闭的文件)
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw != nil {
 		log.fw.Close()
 	}
-- 
2.43.0


From 2d2eec71427482337175434adc4544fca5aa26bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:38 +0000
Subject: [PATCH 39/47] fix: write what is buffered for the log file before a
 fatal or panic call ends the process

---
 zlog/logger_core.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index c18192f..e3526d9 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -304,6 +304,8 @@ func (log *ZinxLoggerCore) Fatalf(format string, v ...interface{}) {
 		return
 	}
 	_ = log.OutPut(LogFatal, fmt.Sprintf(format, v...))
+	// What is buffered would be lost (缓冲区内的日志会丢失)
+	log.closeFile()
 	os.Exit(1)
 }
 
@@ -312,6 +314,8 @@ func (log *ZinxLoggerCore) Fatal(v ...interface{}) {
 		return
 	}
 	_ = log.OutPut(LogFatal, fmt.Sprintln(v...))
+	// What is buffered would be lost (缓冲区内的日志会丢失)
+	log.closeFile()
 	os.Exit(1)
 }
 
@@ -321,6 +325,8 @@ func (log *ZinxLoggerCore) Panicf(format string, v ...interface{}) {
 	}
 	s := fmt.Sprintf(format, v...)
 	_ = log.OutPut(LogPanic, s)
+	// What is buffered would be lost if the panic ends the process (如果进程因panic退出，缓冲区内的日志会丢失)
+	log.closeFile()
 	panic(s)
 }
 
@@ -330,6 +336,8 @@ func (log *ZinxLoggerCore) Panic(v ...interface{}) {
 	}
 	s := fmt.Sprintln(v...)
 	_ = log.OutPut(LogPanic, s)
+	// What is buffered would be lost if the panic ends the process (如果进程因panic退出，缓冲区内的日志会丢失)
+	log.closeFile()
 	panic(s)
 }
 
-- 
2.43.0


From 2c53fdfac74758cd3fe224ea16cf3e45b0a82e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:08 +0000
Subject: [PATCH 40/47] fix: keep the log level when a user configuration does
 not set one

---
 zconf/userconf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index e1c8bfd..bedc2c4 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -49,7 +49,9 @@ func UserConfToGlobal(config *Config) {
 	// logger
 	// By default, it is False. If the config is not initialized, the default configuration will be used.
 	// (默认是False, config没有初始化即使用默认配置)
-	GlobalObject.LogIsolationLevel = config.LogIsolationLevel
+	if config.LogIsolationLevel != 0 {
+		GlobalObject.LogIsolationLevel = config.LogIsolationLevel
+	}
 	if GlobalObject.LogIsolationLevel > zlog.LogDebug {
 		zlog.SetLogLevel(GlobalObject.LogIsolationLevel)
 	}
-- 
2.43.0


From 788783a26c845deb40834a81e2f956db558b41cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:08 +0000
Subject: [PATCH 41/47] fix: let a user configuration switch the KCP stream
 mode on

---
 zconf/userconf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index bedc2c4..7be2be5 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -106,9 +106,9 @@ func UserConfToGlobal(config *Config) {
 		GlobalObject.KcpACKNoDelay = config.KcpACKNoDelay
 	}
 
-	if !config.KcpStreamMode {
-		GlobalObject.KcpStreamMode = config.KcpStreamMode
-	}
+	// It is on by default, so that leaving it out switches it off
+	// (默认开启，不设置即关闭)
+	GlobalObject.KcpStreamMode = config.KcpStreamMode
 
 	if config.KcpNoDelay != 0 {
 		GlobalObject.KcpNoDelay = config.KcpNoDelay
-- 
2.43.0


From 81250b4c431b3d99db6f58a7fdde656369a1e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:08 +0000
Subject: [PATCH 42/47] fix: apply every log option of a user configuration

---
 zconf/userconf.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index 7be2be5..20c99ee 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -64,7 +64,24 @@ func UserConfToGlobal(config *Config) {
 
 	if config.LogFile != "" {
 		GlobalObject.LogFile = config.LogFile
-		zlog.SetLogFile(GlobalObject.LogDir, GlobalObject.LogFile)
+	}
+
+	if config.LogSaveDays != 0 {
+		GlobalObject.LogSaveDays = config.LogSaveDays
+	}
+
+	if config.LogFileSize != 0 {
+		GlobalObject.LogFileSize = config.LogFileSize
+	}
+
+	if config.LogCons {
+		GlobalObject.LogCons = config.LogCons
+	}
+
+	// Apply what has been set to the logger, together with what was set before
+	// (将本次及之前的日志配置应用到日志模块)
+	if config.LogDir != "" || config.LogFile != "" || config.LogSaveDays != 0 || config.LogFileSize != 0 || config.LogCons {
+		GlobalObject.InitLogConfig()
 	}
 
 	// Keepalive
-- 
2.43.0


From e48e712a64d05888d00e471f0c2aeddac6d0bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:47 +0000
Subject: [PATCH 43/47] fix: find a grid for every position in the demo game's
 area

---
 zinx_app_demo/mmo_game/core/aoi.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/zinx_app_demo/mmo_game/core/aoi.go b/zinx_app_demo/mmo_game/core/aoi.go
index 7304f29..980f024 100644
--- a/zinx_app_demo/mmo_game/core/aoi.go
+++ b/zinx_app_demo/mmo_game/core/aoi.go
@@ -1,6 +1,9 @@
 package core
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 const (
 	AOI_MIN_X  int = 85
@@ -134,12 +137,26 @@ func (m *AOIManager) GetSurroundGrIDsByGID(gID int) (grIDs []*GrID) {
 // GetGIDByPos Get the corresponding grid ID by horizontal and vertical coordinates
 // 通过横纵坐标获取对应的格子ID
 func (m *AOIManager) GetGIDByPos(x, y float32) int {
-	gx := (int(x) - m.MinX) / m.grIDWIDth()
-	gy := (int(y) - m.MinY) / m.grIDLength()
+	gx := gridIndex(x, m.MinX, m.grIDWIDth(), m.CntsX)
+	gy := gridIndex(y, m.MinY, m.grIDLength(), m.CntsY)
 
 	return gy*m.CntsX + gx
 }
 
+// gridIndex Get the column (row) of a coordinate. What lies beyond the last grid or outside the area
+// belongs to the nearest grid, so that every position has one
+// 得到坐标所在的列(行)。超出最后一个格子或区域之外的坐标属于最近的格子，保证任何坐标都有对应的格子
+func gridIndex(pos float32, min, size, cnts int) int {
+	i := math.Floor((float64(pos) - float64(min)) / float64(size))
+	if !(i > 0) {
+		return 0
+	}
+	if i >= float64(cnts) {
+		return cnts - 1
+	}
+	return int(i)
+}
+
 // GetPIDsByPos Get all PlayerIDs within the surrounding nine grids by horizontal and vertical coordinates
 // 通过横纵坐标得到周边九宫格内的全部PlayerIDs
 func (m *AOIManager) GetPIDsByPos(x, y float32) (playerIDs []int) {
-- 
2.43.0


From 7e460fbb8074a669730bf179c45f800620f75924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:03 +0000
Subject: [PATCH 44/47] fix: mark a connection active before its heartbeat
 checker starts

The checker was started first, so a check that came before the first activity
stamp took the new connection for dead and ended it.
---
 znet/connection.go     | 3 ++-
 znet/kcp_connection.go | 3 ++-
 znet/ws_connection.go  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 8a665ec..88381fd 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -312,8 +312,9 @@ func (c *Connection) Start() {
 
 	// Start heartbeating detection
 	if c.hc != nil {
-		c.hc.Start()
+		// Before the first check can look at it
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index b371b5b..c2c92a6 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -297,8 +297,9 @@ func (c *KcpConnection) Start() {
 
 	// Start heartbeating detection
 	if c.hc != nil {
-		c.hc.Start()
+		// Before the first check can look at it
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 332f4f7..aea1b02 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -297,8 +297,9 @@ func (c *WsConnection) Start() {
 	// Start the heartbeat check
 	// (启动心跳检测)
 	if c.hc != nil {
-		c.hc.Start()
+		// Before the first check can look at it
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
-- 
2.43.0


From 9fc7b672035cf09b4711dfbc2e4ae5602c8ac888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:33 +0000
Subject: [PATCH 45/47] fix: give each WebSocket upgrade its own subprotocols

The handler of every upgrade request wrote the offered subprotocols into the
server's one upgrader, so peers asking at the same moment were answered with
each other's subprotocols or none.
---
 znet/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 32951b8..bcd36fd 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -390,12 +390,15 @@ func (s *Server) ListenWebsocketConn() {
 		}
 		// 3. Check if there is a subprotocol specified in the header
 		// (判断 header 里面是有子协议)
+		// Requests are upgraded concurrently, so each has its own upgrader
+		// (请求是并发升级的，因此每个请求使用自己的upgrader)
+		upgrader := *s.upgrader
 		if len(r.Header.Get("Sec-Websocket-Protocol")) > 0 {
-			s.upgrader.Subprotocols = websocket.Subprotocols(r)
+			upgrader.Subprotocols = websocket.Subprotocols(r)
 		}
 		// 4. Upgrade the connection to a websocket connection
 		// (升级成 websocket 连接)
-		conn, err := s.upgrader.Upgrade(w, r, nil)
+		conn, err := upgrader.Upgrade(w, r, nil)
 		if err != nil {
 			zlog.Ins().ErrorF("new websocket err:%v", err)
 			w.WriteHeader(500)
-- 
2.43.0


From cdff32819afd7b51f16fb600370b5be8954455be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:11 +0000
Subject: [PATCH 46/47] fix: name a log file opened again no earlier than it
 was created

---
 zutils/witer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index f7256e2..ddd8662 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -153,11 +153,17 @@ func (w *Writer) rotate() error {
 		w.size = 0
 	}
 	finfo, err := os.Stat(w.fpath)
-	w.created = now
+	created := now
 	if err == nil {
 		w.size = finfo.Size()
-		w.created = finfo.ModTime()
+		created = finfo.ModTime()
+		// 文件系统的时钟可能落后于系统时钟，重新打开的文件不早于其创建时间
+		// (the file system's clock may lag behind: a file opened again is not older than its creation)
+		if created.Before(w.created) {
+			created = w.created
+		}
 	}
+	w.created = created
 	w.creates = w.created.AppendFormat(nil, time.RFC3339)
 	fout, err := os.OpenFile(w.fpath, os.O_CREATE|os.O_RDWR|os.O_APPEND, 0666)
 	if err != nil {
-- 
2.43.0


From 71790538f11f3681816201e33a39616eb1908d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:19 +0000
Subject: [PATCH 47/47] fix: leave out players who have left when a player
 looks around

---
 zinx_app_demo/mmo_game/core/player.go        | 10 ++++++++--
 zinx_app_demo/mmo_game/core/world_manager.go |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/zinx_app_demo/mmo_game/core/player.go b/zinx_app_demo/mmo_game/core/player.go
index 3736825..fb14730 100644
--- a/zinx_app_demo/mmo_game/core/player.go
+++ b/zinx_app_demo/mmo_game/core/player.go
@@ -96,7 +96,10 @@ func (p *Player) SyncSurrounding() {
 	// 3 Send MsgID:200 message to these players to display themselves in each other's views
 	// 给这些玩家发送MsgID:200消息，让自己出现在对方视野中
 	for _, pID := range pIDs {
-		players = append(players, WorldMgrObj.GetPlayerByPID(int32(pID)))
+		// The player may have left in the meantime (玩家可能已经下线)
+		if player := WorldMgrObj.GetPlayerByPID(int32(pID)); player != nil {
+			players = append(players, player)
+		}
 	}
 
 	// 3.1 Assemble MsgID200 proto data
@@ -357,7 +360,10 @@ func (p *Player) GetSurroundingPlayers() []*Player {
 	// 将所有pID对应的Player放到Player切片中
 	players := make([]*Player, 0, len(pIDs))
 	for _, pID := range pIDs {
-		players = append(players, WorldMgrObj.GetPlayerByPID(int32(pID)))
+		// The player may have left in the meantime (玩家可能已经下线)
+		if player := WorldMgrObj.GetPlayerByPID(int32(pID)); player != nil {
+			players = append(players, player)
+		}
 	}
 
 	return players
diff --git a/zinx_app_demo/mmo_game/core/world_manager.go b/zinx_app_demo/mmo_game/core/world_manager.go
index 7d785fa..e95163e 100644
--- a/zinx_app_demo/mmo_game/core/world_manager.go
+++ b/zinx_app_demo/mmo_game/core/world_manager.go
@@ -86,7 +86,10 @@ func (wm *WorldManager) GetPlayersByGID(gID int) []*Player {
 	players := make([]*Player, 0, len(pIDs))
 	wm.pLock.RLock()
 	for _, pID := range pIDs {
-		players = append(players, wm.Players[int32(pID)])
+		// The player may have left in the meantime (玩家可能已经下线)
+		if player := wm.Players[int32(pID)]; player != nil {
+			players = append(players, player)
+		}
 	}
 	wm.pLock.RUnlock()
 
-- 
2.43.0

