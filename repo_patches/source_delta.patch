From d2a0afee702bf0e098bd61c9da32e981a8b76f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 01/57] fix: parse messages independently of how the byte
 stream is segmented

Message types leaked from one frame to the next, the size limit was applied to
everything received at once, MessagePack frames were lost or mixed up when
several frames or parts of them came with one read, and messages before an
invalid one were dropped.
---
 jsonhubprotocol.go        |  74 ++++++++++++++++-----------
 messagepackhubprotocol.go | 103 ++++++++++++++++++--------------------
 2 files changed, 94 insertions(+), 83 deletions(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index ce1e7bd..923ac9f 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -3,7 +3,6 @@ package signalr
 import (
 	"bytes"
 	"encoding/json"
-	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -64,23 +63,24 @@ func (j *jsonHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) er
 	return nil
 }
 
-// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf
+// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf.
+// When a message is invalid, the messages received before it are returned together with the error.
 func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffer) (messages []interface{}, err error) {
 	frames, err := readJSONFrames(reader, remainBuf, int(j.maximumReceiveMessageSize))
 	if err != nil {
 		return nil, err
 	}
-	message := hubMessage{}
 	messages = make([]interface{}, 0)
 	for _, frame := range frames {
+		message := hubMessage{}
 		err = json.Unmarshal(frame, &message)
 		_ = j.dbg.Log(evt, "read", msg, string(frame))
 		if err != nil {
-			return nil, &jsonError{string(frame), err}
+			return messages, &jsonError{string(frame), err}
 		}
 		typedMessage, err := j.parseMessage(message.Type, frame)
 		if err != nil {
-			return nil, err
+			return messages, err
 		}
 		// No specific type (aka Ping), use hubMessage
 		if typedMessage == nil {
@@ -154,50 +154,66 @@ func (j *jsonHubProtocol) parseMessage(messageType int, text []byte) (message in
 }
 
 // readJSONFrames reads all complete frames (delimited by 0x1e) from the reader and puts the remaining bytes into remainBuf.
-// maxSize is the maximum number of bytes that may accumulate before a delimiter; 0 means unlimited.
+// maxSize is the maximum size of one frame; 0 means unlimited.
 func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][]byte, error) {
 	p := make([]byte, 1<<15)
 	buf := &bytes.Buffer{}
 	_, _ = buf.ReadFrom(remainBuf)
 	// Try getting data until at least one frame is available
 	for {
-		n, err := reader.Read(p)
-		// Some reader implementations return io.EOF additionally to n=0 if no data could be read
-		if err != nil && !errors.Is(err, io.EOF) {
+		frames, err := parseJSONFrames(buf, maxSize)
+		if len(frames) > 0 {
+			// Even if there is an error, it will occur again when the bytes after these frames are parsed
+			_, _ = remainBuf.ReadFrom(buf)
+			return frames, nil
+		}
+		if err != nil {
 			return nil, err
 		}
+		n, err := reader.Read(p)
 		if n > 0 {
 			_, _ = buf.Write(p[:n])
-			if maxSize > 0 && buf.Len() > maxSize {
-				return nil, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
-			}
-			frames, err := parseJSONFrames(buf)
-			if err != nil {
-				return nil, err
-			}
-			if len(frames) > 0 {
-				_, _ = remainBuf.ReadFrom(buf)
-				return frames, nil
-			}
+		} else if err != nil {
+			return nil, err
 		}
 	}
 }
 
-func parseJSONFrames(buf *bytes.Buffer) ([][]byte, error) {
+// parseJSONFrames cuts all complete frames from buf
+func parseJSONFrames(buf *bytes.Buffer, maxSize int) ([][]byte, error) {
 	frames := make([][]byte, 0)
 	for {
-		frame, err := buf.ReadBytes(0x1e)
-		if errors.Is(err, io.EOF) {
-			// Restore incomplete frame in buffer
-			_, _ = buf.Write(frame)
-			break
+		frameLen := bytes.IndexByte(buf.Bytes(), 0x1e) + 1
+		if maxSize > 0 && (frameLen > maxSize || frameLen == 0 && buf.Len() > maxSize) {
+			return frames, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
+		}
+		if frameLen == 0 {
+			return frames, nil
+		}
+		// Don't reference buf in the frame. It will be overwritten
+		frames = append(frames, append([]byte{}, buf.Next(frameLen)[:frameLen-1]...))
+	}
+}
+
+// readHandshakeFrame reads the handshake frame (delimited by 0x1e) from the reader.
+// Bytes which have been received after the handshake are returned in remain.
+func readHandshakeFrame(reader io.Reader, maxSize int) (frame []byte, remain []byte, err error) {
+	p := make([]byte, 1<<15)
+	buf := make([]byte, 0)
+	for {
+		n, err := reader.Read(p)
+		buf = append(buf, p[:n]...)
+		frameLen := bytes.IndexByte(buf, 0x1e)
+		if maxSize > 0 && (frameLen >= maxSize || frameLen < 0 && len(buf) > maxSize) {
+			return nil, nil, fmt.Errorf("handshake exceeded maximum receive message size %d", maxSize)
+		}
+		if frameLen >= 0 {
+			return buf[:frameLen], buf[frameLen+1:], nil
 		}
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
-		frames = append(frames, frame[:len(frame)-1])
 	}
-	return frames, nil
 }
 
 // WriteMessage writes a message as JSON to the specified writer
diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 8b26358..30d6957 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -16,6 +16,8 @@ type messagePackHubProtocol struct {
 	maximumReceiveMessageSize uint
 }
 
+// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf.
+// When a message is invalid, the messages received before it are returned together with the error.
 func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffer) ([]interface{}, error) {
 	frames, err := m.readFrames(reader, remainBuf)
 	if err != nil {
@@ -25,76 +27,69 @@ func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *byte
 	for _, frame := range frames {
 		message, err := m.parseMessage(bytes.NewBuffer(frame))
 		if err != nil {
-			return nil, err
+			return messages, err
 		}
 		messages = append(messages, message)
 	}
 	return messages, nil
 }
 
+// readFrames reads all complete frames from the reader and puts the remaining bytes into remainBuf.
+// It returns as soon as at least one frame is complete.
 func (m *messagePackHubProtocol) readFrames(reader io.Reader, remainBuf *bytes.Buffer) ([][]byte, error) {
-	frames := make([][]byte, 0)
+	p := make([]byte, 1<<15)
+	buf := &bytes.Buffer{}
+	_, _ = buf.ReadFrom(remainBuf)
 	for {
-		// Try to get the frame length
-		frameLenBuf := make([]byte, binary.MaxVarintLen32)
-		n1, err := remainBuf.Read(frameLenBuf)
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
+		frames, err := m.parseFrames(buf)
+		if len(frames) > 0 {
+			// Even if there is an error, it will occur again when the bytes after these frames are parsed
+			_, _ = remainBuf.ReadFrom(buf)
+			return frames, nil
+		}
+		if err != nil {
 			return nil, err
 		}
-		n2, err := reader.Read(frameLenBuf[n1:])
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
+		n, err := reader.Read(p)
+		if n > 0 {
+			_, _ = buf.Write(p[:n])
+		} else if errors.Is(err, io.EOF) {
+			// Let the caller come here again later, when there is more data
+			_, _ = remainBuf.ReadFrom(buf)
+			return frames, nil
+		} else if err != nil {
 			return nil, err
 		}
-		frameLen, lenLen := binary.Uvarint(frameLenBuf[:n1+n2])
+	}
+}
+
+// parseFrames cuts all complete frames from buf
+func (m *messagePackHubProtocol) parseFrames(buf *bytes.Buffer) ([][]byte, error) {
+	frames := make([][]byte, 0)
+	for {
+		lenBuf := buf.Bytes()
+		if len(lenBuf) > binary.MaxVarintLen32 {
+			lenBuf = lenBuf[:binary.MaxVarintLen32]
+		}
+		frameLen, lenLen := binary.Uvarint(lenBuf)
+		if lenLen < 0 || lenLen == 0 && len(lenBuf) == binary.MaxVarintLen32 {
+			return frames, fmt.Errorf("messagepack frame length to large")
+		}
 		if lenLen == 0 {
-			// reader could not supply enough bytes to decode the Uvarint
-			// Store the already read bytes in the remainBuf for next iteration
-			_, _ = remainBuf.Write(frameLenBuf[:n1+n2])
+			// Not enough bytes to decode the Uvarint
 			return frames, nil
 		}
-		if lenLen < 0 {
-			return nil, fmt.Errorf("messagepack frame length to large")
+		if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
+			return frames, fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
 		}
-		// Still wondering why this happens, but it happens!
-		if frameLen == 0 {
-			// Store the overread bytes for the next iteration
-			_, _ = remainBuf.Write(frameLenBuf[lenLen:])
-			continue
+		if uint64(buf.Len()-lenLen) < frameLen {
+			return frames, nil
 		}
-		if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
-			return nil, fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
-		}
-		// Try getting data until at least one frame is available
-		readBuf := make([]byte, frameLen)
-		frameBuf := &bytes.Buffer{}
-		// Did we read too many bytes when detecting the frameLen?
-		_, _ = frameBuf.Write(frameLenBuf[lenLen:])
-		// Read the rest of the bytes from the last iteration
-		_, _ = frameBuf.ReadFrom(remainBuf)
-		for {
-			n, err := reader.Read(readBuf)
-			if errors.Is(err, io.EOF) {
-				// Less than frameLen. Let the caller parse the already read frames and come here again later
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				return frames, nil
-			}
-			if err != nil {
-				return nil, err
-			}
-			_, _ = frameBuf.Write(readBuf[:n])
-			if frameBuf.Len() == int(frameLen) {
-				// Frame completely read. Return it to the caller
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				return frames, nil
-			}
-			if frameBuf.Len() > int(frameLen) {
-				// More than frameLen. Append the current frame to the result and start reading the next frame
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				break
-			}
+		_ = buf.Next(lenLen)
+		// Empty frames contain no message
+		if frameLen > 0 {
+			// Don't reference buf in the frame. It will be overwritten
+			frames = append(frames, append([]byte{}, buf.Next(int(frameLen))...))
 		}
 	}
 }
@@ -245,7 +240,7 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 		}
 		return closeMessage, nil
 	}
-	return msg, nil
+	return nil, fmt.Errorf("invalid message type %v", msgType)
 }
 
 func (m *messagePackHubProtocol) decodeInvocationID(decoder *msgpack.Decoder) (string, error) {
-- 
2.43.0


From 3aedd40857c4f3a8ddfd55bbb18e77ea8dd263be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 02/57] fix: keep messages which are received together with the
 handshake

Everything after the handshake frame in the same read was dropped, on both
sides. The handshake read also spun forever on io.EOF and had no size limit.
---
 client.go          | 53 +++++++++++++++++++++-------------------------
 hubconnection.go   | 24 +++++++++++----------
 jsonhubprotocol.go | 26 +++++++++++++++++++----
 loop.go            |  5 +++--
 server.go          | 37 ++++++++++++++------------------
 5 files changed, 78 insertions(+), 67 deletions(-)

diff --git a/client.go b/client.go
index 1baf2b7..936eb6c 100644
--- a/client.go
+++ b/client.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -234,12 +233,12 @@ func (c *client) Stop() {
 
 func (c *client) run() error {
 	// negotiate and so on
-	protocol, err := c.setupConnectionAndProtocol()
+	protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
 		return err
 	}
 
-	loop := newLoop(c, c.conn, protocol)
+	loop := newLoop(c, c.conn, protocol, received)
 	c.mx.Lock()
 	c.loop = loop
 	c.mx.Unlock()
@@ -284,31 +283,32 @@ func (c *client) shouldClientEnd() bool {
 	return false
 }
 
-func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
-	return func() (hubProtocol, error) {
+// setupConnectionAndProtocol returns the protocol and the bytes already received after the handshake response
+func (c *client) setupConnectionAndProtocol() (hubProtocol, []byte, error) {
+	return func() (hubProtocol, []byte, error) {
 		c.mx.Lock()
 		defer c.mx.Unlock()
 
 		if c.conn == nil {
 			if c.connectionFactory == nil {
-				return nil, ErrUnableToConnect
+				return nil, nil, ErrUnableToConnect
 			}
 			var err error
 			c.conn, err = c.connectionFactory()
 			if err != nil {
-				return nil, err
+				return nil, nil, err
 			}
 		}
 		// Pass maximum receive message size to a potential websocket connection
 		if wsConn, ok := c.conn.(*webSocketConnection); ok {
 			wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
 		}
-		protocol, err := c.processHandshake()
+		protocol, received, err := c.processHandshake()
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 
-		return protocol, nil
+		return protocol, received, nil
 	}()
 }
 
@@ -571,9 +571,10 @@ func (c *client) prefixLoggers(connectionID string) (info StructuredLogger, dbg
 			"hub", t)
 }
 
-func (c *client) processHandshake() (hubProtocol, error) {
+// processHandshake returns the protocol and the bytes already received after the handshake response
+func (c *client) processHandshake() (hubProtocol, []byte, error) {
 	if err := c.sendHandshakeRequest(); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	return c.receiveHandshakeResponse()
 }
@@ -595,31 +596,25 @@ func (c *client) sendHandshakeRequest() error {
 	return nil
 }
 
-func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
+func (c *client) receiveHandshakeResponse() (hubProtocol, []byte, error) {
 	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
-	readJSONFramesChan := make(chan []interface{}, 1)
-	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(c.conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
-	}()
+	handshakeChan := readHandshake(c.conn)
 	select {
-	case result := <-readJSONFramesChan:
-		if result[1] != nil {
-			return nil, result[1].(error)
+	case result := <-handshakeChan:
+		if result.err != nil {
+			return nil, nil, result.err
 		}
-		rawHandshake := result[0].([][]byte)
 		response := handshakeResponse{}
-		if err := json.Unmarshal(rawHandshake[0], &response); err != nil {
+		if err := json.Unmarshal(result.frame, &response); err != nil {
 			// Malformed handshake
-			_ = info.Log(evt, "handshake received", "msg", string(rawHandshake[0]), "error", err)
-			return nil, err
+			_ = info.Log(evt, "handshake received", "msg", string(result.frame), "error", err)
+			return nil, nil, err
 		} else {
 			if response.Error != "" {
 				_ = info.Log(evt, "handshake received", "error", response.Error)
-				return nil, errors.New(response.Error)
+				return nil, nil, errors.New(response.Error)
 			}
 			_ = dbg.Log(evt, "handshake received", "msg", fmtMsg(response))
 			var protocol hubProtocol
@@ -633,9 +628,9 @@ func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
 				_, pDbg := c.loggers()
 				protocol.setDebugLogger(pDbg)
 			}
-			return protocol, nil
+			return protocol, result.remain, nil
 		}
 	case <-ctx.Done():
-		return nil, ctx.Err()
+		return nil, nil, ctx.Err()
 	}
 }
diff --git a/hubconnection.go b/hubconnection.go
index 8c60f85..5573ce0 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -32,7 +32,7 @@ type receiveResult struct {
 	err     error
 }
 
-func newHubConnection(connection Connection, protocol hubProtocol, maximumReceiveMessageSize uint, info StructuredLogger) HubConnection {
+func newHubConnection(connection Connection, protocol hubProtocol, maximumReceiveMessageSize uint, info StructuredLogger, received ...byte) HubConnection {
 	ctx, cancelFunc := context.WithCancel(connection.Context())
 	c := &defaultHubConnection{
 		ctx:                       ctx,
@@ -43,6 +43,7 @@ func newHubConnection(connection Connection, protocol hubProtocol, maximumReceiv
 		maximumReceiveMessageSize: maximumReceiveMessageSize,
 		items:                     &sync.Map{},
 		info:                      info,
+		received:                  received,
 	}
 	if connectionWithTransferMode, ok := connection.(ConnectionWithTransferMode); ok {
 		connectionWithTransferMode.SetTransferMode(protocol.transferMode())
@@ -60,6 +61,7 @@ type defaultHubConnection struct {
 	items                     *sync.Map
 	lastWriteStamp            time.Time
 	info                      StructuredLogger
+	received                  []byte // bytes already received from the connection
 }
 
 func (c *defaultHubConnection) Items() *sync.Map {
@@ -133,6 +135,7 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	// parse
 	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult, writerDone <-chan struct{}) {
 		remainBuf := bytes.Buffer{}
+		_, _ = remainBuf.Write(c.received)
 	loop:
 		for {
 			select {
@@ -142,6 +145,15 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 				break loop
 			default:
 				messages, err := c.protocol.ParseMessages(reader, &remainBuf)
+				for _, message := range messages {
+					select {
+					case recvChan <- receiveResult{message: message}:
+					case <-ctx.Done():
+						break loop
+					case <-writerDone:
+						break loop
+					}
+				}
 				if err != nil {
 					select {
 					case recvChan <- receiveResult{err: err}:
@@ -150,16 +162,6 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 					case <-writerDone:
 						break loop
 					}
-				} else {
-					for _, message := range messages {
-						select {
-						case recvChan <- receiveResult{message: message}:
-						case <-ctx.Done():
-							break loop
-						case <-writerDone:
-							break loop
-						}
-					}
 				}
 			}
 		}
diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index 923ac9f..eb158d3 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -195,27 +195,45 @@ func parseJSONFrames(buf *bytes.Buffer, maxSize int) ([][]byte, error) {
 	}
 }
 
+const maxHandshakeSize = 1 << 15
+
 // readHandshakeFrame reads the handshake frame (delimited by 0x1e) from the reader.
 // Bytes which have been received after the handshake are returned in remain.
-func readHandshakeFrame(reader io.Reader, maxSize int) (frame []byte, remain []byte, err error) {
+func readHandshakeFrame(reader io.Reader) (frame []byte, remain []byte, err error) {
 	p := make([]byte, 1<<15)
 	buf := make([]byte, 0)
 	for {
 		n, err := reader.Read(p)
 		buf = append(buf, p[:n]...)
 		frameLen := bytes.IndexByte(buf, 0x1e)
-		if maxSize > 0 && (frameLen >= maxSize || frameLen < 0 && len(buf) > maxSize) {
-			return nil, nil, fmt.Errorf("handshake exceeded maximum receive message size %d", maxSize)
-		}
 		if frameLen >= 0 {
 			return buf[:frameLen], buf[frameLen+1:], nil
 		}
+		if len(buf) > maxHandshakeSize {
+			return nil, nil, fmt.Errorf("handshake exceeds %d bytes", maxHandshakeSize)
+		}
 		if err != nil {
 			return nil, nil, err
 		}
 	}
 }
 
+type handshakeResult struct {
+	frame  []byte
+	remain []byte
+	err    error
+}
+
+// readHandshake calls readHandshakeFrame asynchronously
+func readHandshake(reader io.Reader) <-chan handshakeResult {
+	ch := make(chan handshakeResult, 1)
+	go func() {
+		frame, remain, err := readHandshakeFrame(reader)
+		ch <- handshakeResult{frame, remain, err}
+	}()
+	return ch
+}
+
 // WriteMessage writes a message as JSON to the specified writer
 func (j *jsonHubProtocol) WriteMessage(message interface{}, writer io.Writer) error {
 	var b []byte
diff --git a/loop.go b/loop.go
index 3d413d0..08155fa 100644
--- a/loop.go
+++ b/loop.go
@@ -24,13 +24,14 @@ type loop struct {
 	closeMessage *closeMessage
 }
 
-func newLoop(p Party, conn Connection, protocol hubProtocol) *loop {
+// newLoop creates a loop. The bytes in received have been received from conn before.
+func newLoop(p Party, conn Connection, protocol hubProtocol, received []byte) *loop {
 	protocol = reflect.New(reflect.ValueOf(protocol).Elem().Type()).Interface().(hubProtocol)
 	_, dbg := p.loggers()
 	protocol.setDebugLogger(dbg)
 	protocol.setMaxReceiveMessageSize(p.maximumReceiveMessageSize())
 	pInfo, pDbg := p.prefixLoggers(conn.ConnectionID())
-	hubConn := newHubConnection(conn, protocol, p.maximumReceiveMessageSize(), pInfo)
+	hubConn := newHubConnection(conn, protocol, p.maximumReceiveMessageSize(), pInfo, received...)
 	return &loop{
 		party:        p,
 		protocol:     protocol,
diff --git a/server.go b/server.go
index 7989887..9febb55 100644
--- a/server.go
+++ b/server.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -127,14 +126,14 @@ func (s *server) MapHTTP(routerFactory func() MappableRouter, path string) {
 // or the servers' context is canceled.
 func (s *server) Serve(conn Connection) error {
 
-	protocol, err := s.processHandshake(conn)
+	protocol, received, err := s.processHandshake(conn)
 	if err != nil {
 		info, _ := s.prefixLoggers("")
 		_ = info.Log(evt, "processHandshake", "connectionId", conn.ConnectionID(), "error", err, react, "do not connect")
 		return err
 	}
 
-	return newLoop(s, conn, protocol).Run(make(chan struct{}, 1))
+	return newLoop(s, conn, protocol, received).Run(make(chan struct{}, 1))
 }
 
 func (s *server) HubClients() HubClients {
@@ -246,35 +245,31 @@ func (s *server) newConnectionHubContext(hubConn HubConnection) HubContext {
 	}
 }
 
-func (s *server) processHandshake(conn Connection) (hubProtocol, error) {
-	if request, err := s.receiveHandshakeRequest(conn); err != nil {
-		return nil, err
+// processHandshake returns the protocol and the bytes already received after the handshake request
+func (s *server) processHandshake(conn Connection) (hubProtocol, []byte, error) {
+	if request, received, err := s.receiveHandshakeRequest(conn); err != nil {
+		return nil, nil, err
 	} else {
-		return s.sendHandshakeResponse(conn, request)
+		protocol, err := s.sendHandshakeResponse(conn, request)
+		return protocol, received, err
 	}
 }
 
-func (s *server) receiveHandshakeRequest(conn Connection) (handshakeRequest, error) {
+func (s *server) receiveHandshakeRequest(conn Connection) (handshakeRequest, []byte, error) {
 	_, dbg := s.prefixLoggers(conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(s.Context(), s.HandshakeTimeout())
 	defer cancelRead()
-	readJSONFramesChan := make(chan []interface{}, 1)
-	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
-	}()
+	handshakeChan := readHandshake(conn)
 	request := handshakeRequest{}
 	select {
-	case result := <-readJSONFramesChan:
-		if result[1] != nil {
-			return request, result[1].(error)
+	case result := <-handshakeChan:
+		if result.err != nil {
+			return request, nil, result.err
 		}
-		rawHandshake := result[0].([][]byte)
-		_ = dbg.Log(evt, "handshake received", "msg", string(rawHandshake[0]))
-		return request, json.Unmarshal(rawHandshake[0], &request)
+		_ = dbg.Log(evt, "handshake received", "msg", string(result.frame))
+		return request, result.remain, json.Unmarshal(result.frame, &request)
 	case <-ctx.Done():
-		return request, ctx.Err()
+		return request, nil, ctx.Err()
 	}
 }
 
-- 
2.43.0


From 7873f0441b30dc6ba5bc2495bb42dad2081d1433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 03/57] fix: do not block the client's state during the
 handshake, reconnect with a new connection

The client's lock was held while connecting and doing the handshake, so State()
blocked up to the handshake timeout. When the handshake failed, the next try
used the same connection again instead of asking the connector for a new one.
---
 client.go | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/client.go b/client.go
index 936eb6c..731d4c7 100644
--- a/client.go
+++ b/client.go
@@ -235,6 +235,8 @@ func (c *client) run() error {
 	// negotiate and so on
 	protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
+		// The next try needs a new connection
+		c.conn = nil
 		return err
 	}
 
@@ -256,9 +258,7 @@ func (c *client) run() error {
 	}
 
 	// Reset conn to allow reconnecting
-	c.mx.Lock()
 	c.conn = nil
-	c.mx.Unlock()
 
 	return err
 }
@@ -285,31 +285,23 @@ func (c *client) shouldClientEnd() bool {
 
 // setupConnectionAndProtocol returns the protocol and the bytes already received after the handshake response
 func (c *client) setupConnectionAndProtocol() (hubProtocol, []byte, error) {
-	return func() (hubProtocol, []byte, error) {
-		c.mx.Lock()
-		defer c.mx.Unlock()
-
-		if c.conn == nil {
-			if c.connectionFactory == nil {
-				return nil, nil, ErrUnableToConnect
-			}
-			var err error
-			c.conn, err = c.connectionFactory()
-			if err != nil {
-				return nil, nil, err
-			}
+	// c.conn is only used by the goroutine of the client loop. Don't hold the lock while connecting and doing the
+	// handshake, as this would block everyone who asks for the state of the client.
+	if c.conn == nil {
+		if c.connectionFactory == nil {
+			return nil, nil, ErrUnableToConnect
 		}
-		// Pass maximum receive message size to a potential websocket connection
-		if wsConn, ok := c.conn.(*webSocketConnection); ok {
-			wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
-		}
-		protocol, received, err := c.processHandshake()
+		var err error
+		c.conn, err = c.connectionFactory()
 		if err != nil {
 			return nil, nil, err
 		}
-
-		return protocol, received, nil
-	}()
+	}
+	// Pass maximum receive message size to a potential websocket connection
+	if wsConn, ok := c.conn.(*webSocketConnection); ok {
+		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
+	}
+	return c.processHandshake()
 }
 
 func (c *client) State() ClientState {
-- 
2.43.0


From 5d54448042fcccc03ed01dc9a6eaabbba643cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 04/57] fix: send no completion for invocations without id

Unknown methods, argument mismatches and wrong stream invocations were answered
with a completion with an empty id, which makes the other side close the connection.
---
 loop.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/loop.go b/loop.go
index 08155fa..1dfb130 100644
--- a/loop.go
+++ b/loop.go
@@ -202,16 +202,16 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	if method, ok := getMethod(l.party.invocationTarget(l.hubConn), methodName); !ok {
 		// Unable to find the method
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("Unknown method %s", invocation.Target))
+		l.sendError(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
 	} else if in, err := buildMethodArguments(method, invocation, l.streamClient, l.protocol); err != nil {
 		// argument build failed
 		_ = l.info.Log(evt, "buildMethodArguments", "error", err, "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, err.Error())
+		l.sendError(invocation, err.Error())
 	} else {
 		// Stream invocation is only allowed when the method has only one return value
 		// We allow no channel return values, because a client can receive as stream with only one item
 		if invocation.Type == 4 && method.Type().NumOut() != 1 {
-			_ = l.hubConn.Completion(invocation.InvocationID, nil,
+			l.sendError(invocation,
 				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
 			// hub method might take a long time
@@ -226,6 +226,13 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	}
 }
 
+// sendError completes an invocation with an error. No invocation id, no completion
+func (l *loop) sendError(invocation invocationMessage, errorText string) {
+	if invocation.InvocationID != "" {
+		_ = l.hubConn.Completion(invocation.InvocationID, nil, errorText)
+	}
+}
+
 func (l *loop) returnInvocationResult(invocation invocationMessage, result []reflect.Value) {
 	// No invocation id, no completion
 	if invocation.InvocationID != "" {
-- 
2.43.0


From e8213b91fe8f564b873d0dbd8a314a81f574b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 05/57] fix: do not panic when an invocation has more stream
 ids than the method has channels

---
 loop.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loop.go b/loop.go
index 1dfb130..56662d2 100644
--- a/loop.go
+++ b/loop.go
@@ -369,6 +369,9 @@ func buildMethodArguments(method reflect.Value, invocation invocationMessage,
 			arguments[i] = arg
 		} else {
 			// it is not, so do the normal thing
+			if i-chanCount >= len(invocation.Arguments) {
+				return arguments, fmt.Errorf("parameter mismatch calling method %v", invocation.Target)
+			}
 			arg := reflect.New(t)
 			if err := protocol.UnmarshalArgument(invocation.Arguments[i-chanCount], arg.Interface()); err != nil {
 				return arguments, err
-- 
2.43.0


From d897ec28776098910ef6cbee0450e60a18b7c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 06/57] fix: a value which can't be serialized does not abort
 the connection

A hub method's result, or an argument of an invocation, which can't be
serialized aborted the connection, in case of Clients().All() of all clients.
Now only the message is not sent, and an invocation gets an error completion.
---
 hubconnection.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 5573ce0..af48868 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -212,7 +212,12 @@ func (c *defaultHubConnection) StreamItem(id string, item interface{}) error {
 		InvocationID: id,
 		Item:         item,
 	}
-	return c.writeMessage(streamItemMessage)
+	err := c.writeMessage(streamItemMessage)
+	if _, ok := err.(*serializeError); ok {
+		// The stream would silently miss an item
+		c.Abort()
+	}
+	return err
 }
 
 func (c *defaultHubConnection) Completion(id string, result interface{}, error string) error {
@@ -222,7 +227,14 @@ func (c *defaultHubConnection) Completion(id string, result interface{}, error s
 		Result:       result,
 		Error:        error,
 	}
-	return c.writeMessage(completionMessage)
+	err := c.writeMessage(completionMessage)
+	if _, ok := err.(*serializeError); ok {
+		// The invocation has to be completed nevertheless
+		completionMessage.Result = nil
+		completionMessage.Error = err.Error()
+		_ = c.writeMessage(completionMessage)
+	}
+	return err
 }
 
 func (c *defaultHubConnection) Ping() error {
@@ -232,6 +244,19 @@ func (c *defaultHubConnection) Ping() error {
 	return c.writeMessage(pingMessage)
 }
 
+// serializeError is returned when a message could not be serialized
+type serializeError struct {
+	err error
+}
+
+func (s *serializeError) Error() string {
+	return s.err.Error()
+}
+
+func (s *serializeError) Unwrap() error {
+	return s.err
+}
+
 func (c *defaultHubConnection) LastWriteStamp() time.Time {
 	defer c.mx.Unlock()
 	c.mx.Lock()
@@ -246,8 +271,16 @@ func (c *defaultHubConnection) writeMessage(message interface{}) error {
 		if c.ctx.Err() != nil {
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
 		}
+		// When the message can't be serialized, nothing has been sent and the connection is still usable
+		var buf bytes.Buffer
+		if err := c.protocol.WriteMessage(message, &buf); err != nil {
+			return &serializeError{err}
+		}
 		e := make(chan error, 1)
-		go func() { e <- c.protocol.WriteMessage(message, c.connection) }()
+		go func() {
+			_, err := c.connection.Write(buf.Bytes())
+			e <- err
+		}()
 		select {
 		case <-c.ctx.Done():
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
-- 
2.43.0


From ede0dd4c7533f9f5f8b6d31dd7ad8e945f81ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 07/57] fix: cancels of finished streams do not disable later
 cancels

---
 loop.go     |  9 +++++++++
 streamer.go | 40 ++++++++++++++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 56662d2..a35e44f 100644
--- a/loop.go
+++ b/loop.go
@@ -184,6 +184,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	}
 	// Start streaming on all channels
 	for i, reflectedChannel := range reflectedChannels {
+		l.streamer.announce(streamIds[i])
 		l.streamer.Start(streamIds[i], reflectedChannel)
 	}
 	return irCh, nil
@@ -214,6 +215,10 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 			l.sendError(invocation,
 				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
+			if invocation.Type == 4 {
+				// Might be canceled before the hub method returns the channel
+				l.streamer.announce(invocation.InvocationID)
+			}
 			// hub method might take a long time
 			go func() {
 				result := func() []reflect.Value {
@@ -234,6 +239,10 @@ func (l *loop) sendError(invocation invocationMessage, errorText string) {
 }
 
 func (l *loop) returnInvocationResult(invocation invocationMessage, result []reflect.Value) {
+	isStream := invocation.InvocationID != "" && len(result) == 1 && result[0].Kind() == reflect.Chan
+	if invocation.Type == 4 && !isStream {
+		l.streamer.done(invocation.InvocationID)
+	}
 	// No invocation id, no completion
 	if invocation.InvocationID != "" {
 		// if the hub method returns a chan, it should be considered asynchronous or source for a stream
diff --git a/streamer.go b/streamer.go
index faf8486..c642e10 100644
--- a/streamer.go
+++ b/streamer.go
@@ -11,6 +11,38 @@ type streamer struct {
 	cancelCount int64 // atomic; tracks entries in cancels for the cap check
 	maxCancels  uint
 	conn        HubConnection
+	mx          sync.Mutex
+	streams     map[string]int // ids of the announced and the running streams
+}
+
+// announce tells that a stream with this id is running or might be started soon, so it can be canceled
+func (s *streamer) announce(invocationID string) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	if s.streams == nil {
+		s.streams = make(map[string]int)
+	}
+	if s.streams[invocationID] == 0 {
+		// Ignore cancels for former streams with the same id
+		s.removeCancel(invocationID)
+	}
+	s.streams[invocationID]++
+}
+
+// done ends what announce has begun
+func (s *streamer) done(invocationID string) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	if s.streams[invocationID]--; s.streams[invocationID] <= 0 {
+		delete(s.streams, invocationID)
+		s.removeCancel(invocationID)
+	}
+}
+
+func (s *streamer) removeCancel(invocationID string) {
+	if _, loaded := s.cancels.LoadAndDelete(invocationID); loaded {
+		atomic.AddInt64(&s.cancelCount, -1)
+	}
 }
 
 func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
@@ -20,7 +52,7 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 			// Waits for channel, so might hang
 			if chanResult, ok := reflectedChannel.Recv(); ok {
 				if _, ok := s.cancels.Load(invocationID); ok {
-					s.cancels.Delete(invocationID)
+					s.done(invocationID)
 					_ = s.conn.Completion(invocationID, nil, "")
 					break loop
 				}
@@ -29,6 +61,7 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 				}
 				_ = s.conn.StreamItem(invocationID, chanResult.Interface())
 			} else {
+				s.done(invocationID)
 				if s.conn.Context().Err() == nil {
 					_ = s.conn.Completion(invocationID, nil, "")
 				}
@@ -39,7 +72,10 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 }
 
 func (s *streamer) Stop(invocationID string) {
-	if s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	// The number of cancels for streams which are not announced is limited
+	if s.streams[invocationID] == 0 && s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
 		return
 	}
 	if _, loaded := s.cancels.LoadOrStore(invocationID, struct{}{}); !loaded {
-- 
2.43.0


From 314dfd5e14702b14667a80f39875c7e9ae68a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 08/57] fix: an upload stream which the client ends with an
 error does not end the connection

---
 streamclient.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamclient.go b/streamclient.go
index 1ee7781..0d16a93 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -122,8 +122,10 @@ func (c *streamClient) receiveCompletionItem(completion completionMessage, invok
 	if ok {
 		var err error
 		if completion.Error != "" {
-			// Push error to the error channel
-			err = invokeClient.receiveCompletionItem(completion)
+			// Push error to the error channel. Upload streams have none, they just end
+			if invokeClient.handlesInvocationID(completion.InvocationID) {
+				err = invokeClient.receiveCompletionItem(completion)
+			}
 		} else {
 			if completion.Result != nil {
 				c.mx.Lock()
-- 
2.43.0


From 4ef91c9597ea5f08f8a24bfffed1f3642b27e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 09/57] fix: OnConnected and OnDisconnected use the
 connection's own hub

---
 server.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/server.go b/server.go
index 9febb55..2923909 100644
--- a/server.go
+++ b/server.go
@@ -150,17 +150,28 @@ func (s *server) availableTransports() []TransportType {
 
 func (s *server) onConnected(hc HubConnection) {
 	s.lifetimeManager.OnConnected(hc)
-	go func() {
-		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnConnected(hc.ConnectionID())
-	}()
+	if hub := s.lifeCycleHub(hc); hub != nil {
+		go func() {
+			defer s.recoverHubLifeCyclePanic()
+			hub.OnConnected(hc.ConnectionID())
+		}()
+	}
+}
+
+// lifeCycleHub returns the hub for OnConnected and OnDisconnected. When there is a hub per connection, it has to be
+// the one which is used while the connection is registered, whenever these methods run.
+func (s *server) lifeCycleHub(hc HubConnection) HubInterface {
+	defer s.recoverHubLifeCyclePanic()
+	return s.invocationTarget(hc).(HubInterface)
 }
 
 func (s *server) onDisconnected(hc HubConnection) {
-	go func() {
-		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnDisconnected(hc.ConnectionID())
-	}()
+	if hub := s.lifeCycleHub(hc); hub != nil {
+		go func() {
+			defer s.recoverHubLifeCyclePanic()
+			hub.OnDisconnected(hc.ConnectionID())
+		}()
+	}
 	s.lifetimeManager.OnDisconnected(hc)
 
 	// Clean up the connection hub
-- 
2.43.0


From 42bd26962c59d4081343ef6c54d0531807b62822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 10/57] fix: concurrent calls get different ids

---
 loop.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index a35e44f..2f4fa38 100644
--- a/loop.go
+++ b/loop.go
@@ -192,8 +192,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 
 // GetNewID returns a new, connection-unique id for invocations and streams
 func (l *loop) GetNewID() string {
-	atomic.AddUint64(&l.lastID, 1)
-	return fmt.Sprint(atomic.LoadUint64(&l.lastID))
+	return fmt.Sprint(atomic.AddUint64(&l.lastID, 1))
 }
 
 func (l *loop) handleInvocationMessage(invocation invocationMessage) {
-- 
2.43.0


From a8b0da71de8282f0e8a8156d7df9d984511b3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 11/57] fix: calls of the client deliver their outcome exactly
 once

---
 Invokeresult.go | 45 ++++++++++++++++++++++++++-------------------
 client.go       |  6 +++---
 invokeclient.go | 26 +++++++++++++++-----------
 loop.go         |  8 ++++----
 4 files changed, 48 insertions(+), 37 deletions(-)

diff --git a/Invokeresult.go b/Invokeresult.go
index a602ae1..4d97630 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -1,9 +1,5 @@
 package signalr
 
-import (
-	"context"
-)
-
 // InvokeResult is the combined value/error result for async invocations. Used as channel type.
 type InvokeResult struct {
 	Value interface{}
@@ -11,19 +7,17 @@ type InvokeResult struct {
 }
 
 // newInvokeResultChan combines a value result and an error result channel into one InvokeResult channel
-// The InvokeResult channel is automatically closed when both input channels are closed.
-func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, errChan <-chan error) <-chan InvokeResult {
+// The InvokeResult channel is automatically closed when both input channels are closed or an error was received.
+// An error is the last item. The values which have been sent before it are delivered before it.
+func newInvokeResultChan(resultChan <-chan interface{}, errChan <-chan error) <-chan InvokeResult {
 	ch := make(chan InvokeResult, 1)
-	go func(ctx context.Context, ch chan InvokeResult, resultChan <-chan interface{}, errChan <-chan error) {
-		var resultChanClosed, errChanClosed bool
-	loop:
-		for !resultChanClosed || !errChanClosed {
+	go func(ch chan InvokeResult, resultChan <-chan interface{}, errChan <-chan error) {
+		defer close(ch)
+		for resultChan != nil || errChan != nil {
 			select {
-			case <-ctx.Done():
-				break loop
 			case value, ok := <-resultChan:
 				if !ok {
-					resultChanClosed = true
+					resultChan = nil
 				} else {
 					ch <- InvokeResult{
 						Value: value,
@@ -31,15 +25,28 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 				}
 			case err, ok := <-errChan:
 				if !ok {
-					errChanClosed = true
-				} else {
-					ch <- InvokeResult{
-						Error: err,
+					errChan = nil
+					continue
+				}
+				for {
+					select {
+					case value, ok := <-resultChan:
+						if ok {
+							ch <- InvokeResult{
+								Value: value,
+							}
+							continue
+						}
+					default:
 					}
+					break
+				}
+				ch <- InvokeResult{
+					Error: err,
 				}
+				return
 			}
 		}
-		close(ch)
-	}(ctx, ch, resultChan, errChan)
+	}(ch, resultChan, errChan)
 	return ch
 }
diff --git a/client.go b/client.go
index 731d4c7..d4e3e03 100644
--- a/client.go
+++ b/client.go
@@ -426,7 +426,7 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 		}
 		id := c.loop.GetNewID()
 		resultCh, errCh := c.loop.invokeClient.newInvocation(id)
-		irCh := newInvokeResultChan(c.Context(), resultCh, errCh)
+		irCh := newInvokeResultChan(resultCh, errCh)
 		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
 			c.loop.invokeClient.deleteInvocation(id)
 			ch <- InvokeResult{Error: err}
@@ -519,11 +519,11 @@ func (c *client) waitForConnected() <-chan error {
 	return c.WaitForState(context.Background(), ClientConnected)
 }
 
-func createResultChansWithError(ctx context.Context, err error) (<-chan InvokeResult, chan error) {
+func createResultChansWithError(err error) (<-chan InvokeResult, chan error) {
 	resultCh := make(chan interface{}, 1)
 	errCh := make(chan error, 1)
 	errCh <- err
-	invokeResultChan := newInvokeResultChan(ctx, resultCh, errCh)
+	invokeResultChan := newInvokeResultChan(resultCh, errCh)
 	close(errCh)
 	close(resultCh)
 	return invokeResultChan, errCh
diff --git a/invokeclient.go b/invokeclient.go
index 126f7da..56db459 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -10,6 +10,7 @@ import (
 type invokeClient struct {
 	mx                 sync.Mutex
 	resultChans        map[string]invocationResultChans
+	ended              bool
 	protocol           hubProtocol
 	chanReceiveTimeout time.Duration
 }
@@ -28,13 +29,24 @@ type invocationResultChans struct {
 	errChan    chan error
 }
 
+// end ends an invocation for which no completion will be received
+func (r invocationResultChans) end() {
+	close(r.resultChan)
+	r.errChan <- errors.New("message loop ended")
+	close(r.errChan)
+}
+
 func (i *invokeClient) newInvocation(id string) (chan interface{}, chan error) {
 	i.mx.Lock()
 	r := invocationResultChans{
 		resultChan: make(chan interface{}, 1),
 		errChan:    make(chan error, 1),
 	}
-	i.resultChans[id] = r
+	if i.ended {
+		r.end()
+	} else {
+		i.resultChans[id] = r
+	}
 	i.mx.Unlock()
 	return r.resultChan, r.errChan
 }
@@ -51,12 +63,9 @@ func (i *invokeClient) deleteInvocation(id string) {
 
 func (i *invokeClient) cancelAllInvokes() {
 	i.mx.Lock()
+	i.ended = true
 	for _, r := range i.resultChans {
-		close(r.resultChan)
-		go func(errChan chan error) {
-			errChan <- errors.New("message loop ended")
-			close(errChan)
-		}(r.errChan)
+		r.end()
 	}
 	// Clear map
 	i.resultChans = make(map[string]invocationResultChans)
@@ -97,11 +106,6 @@ func (i *invokeClient) receiveCompletionItem(completion completionMessage) error
 			done := make(chan struct{})
 			go func() {
 				ir.resultChan <- result
-				if completion.Error != "" {
-					ir.errChan <- errors.New(completion.Error)
-				} else {
-					ir.errChan <- nil
-				}
 				close(done)
 			}()
 			select {
diff --git a/loop.go b/loop.go
index 2f4fa38..9ad3ea2 100644
--- a/loop.go
+++ b/loop.go
@@ -139,11 +139,11 @@ msgLoop:
 		}
 	}
 	l.party.onDisconnected(l.hubConn)
+	l.invokeClient.cancelAllInvokes()
 	if err != nil {
 		_ = l.hubConn.Close(fmt.Sprintf("%v", err), l.party.allowReconnect())
 	}
 	_ = l.dbg.Log(evt, "message loop ended")
-	l.invokeClient.cancelAllInvokes()
 	l.hubConn.Abort()
 	return err
 }
@@ -151,11 +151,11 @@ msgLoop:
 func (l *loop) PullStream(method, id string, arguments ...interface{}) <-chan InvokeResult {
 	_, errChan := l.invokeClient.newInvocation(id)
 	upChan := l.streamClient.newUpstreamChannel(id)
-	ch := newInvokeResultChan(l.party.Context(), upChan, errChan)
+	ch := newInvokeResultChan(upChan, errChan)
 	if err := l.hubConn.SendStreamInvocation(id, method, arguments); err != nil {
 		// When we get an error here, the loop is closed and the errChan might be already closed
 		// We create a new one to deliver our error
-		ch, _ = createResultChansWithError(l.party.Context(), err)
+		ch, _ = createResultChansWithError(err)
 		l.streamClient.deleteUpstreamChannel(id)
 		l.invokeClient.deleteInvocation(id)
 	}
@@ -164,7 +164,7 @@ func (l *loop) PullStream(method, id string, arguments ...interface{}) <-chan In
 
 func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan InvokeResult, error) {
 	resultCh, errCh := l.invokeClient.newInvocation(id)
-	irCh := newInvokeResultChan(l.party.Context(), resultCh, errCh)
+	irCh := newInvokeResultChan(resultCh, errCh)
 	invokeArgs := make([]interface{}, 0)
 	reflectedChannels := make([]reflect.Value, 0)
 	streamIds := make([]string, 0)
-- 
2.43.0


From 3db7807c962868a8e49aa793194bfc062e18a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 12/57] fix: a read error of the connection does not overtake
 received messages

---
 hubconnection.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index af48868..ebede8d 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -3,6 +3,7 @@ package signalr
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"sync"
@@ -102,7 +103,7 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	}()
 
 	p := make([]byte, c.maximumReceiveMessageSize)
-	go func(ctx context.Context, connection io.Reader, writer io.Writer, recvChan chan<- receiveResult, writerDone chan<- struct{}) {
+	go func(ctx context.Context, connection io.Reader, writer *io.PipeWriter, recvChan chan<- receiveResult, writerDone chan<- struct{}) {
 	loop:
 		for {
 			select {
@@ -110,16 +111,8 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 				break loop
 			default:
 				n, err := connection.Read(p)
-				if err != nil {
-					select {
-					case recvChan <- receiveResult{err: err}:
-					case <-ctx.Done():
-						break loop
-					}
-				}
 				if n > 0 {
-					_, err = writer.Write(p[:n])
-					if err != nil {
+					if _, err := writer.Write(p[:n]); err != nil {
 						select {
 						case recvChan <- receiveResult{err: err}:
 						case <-ctx.Done():
@@ -127,6 +120,12 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 						}
 					}
 				}
+				if err != nil {
+					// The parser delivers the error after all messages which have been received before
+					_ = writer.CloseWithError(&readError{err})
+					<-ctx.Done()
+					break loop
+				}
 			}
 		}
 		// The pipe writer is done
@@ -155,6 +154,10 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 					}
 				}
 				if err != nil {
+					var readErr *readError
+					if errors.As(err, &readErr) {
+						err = readErr.err
+					}
 					select {
 					case recvChan <- receiveResult{err: err}:
 					case <-ctx.Done():
@@ -244,6 +247,16 @@ func (c *defaultHubConnection) Ping() error {
 	return c.writeMessage(pingMessage)
 }
 
+// readError is an error of the connection on its way through the pipe to the parser.
+// It hides io.EOF, which the protocols take for a pause in the data.
+type readError struct {
+	err error
+}
+
+func (r *readError) Error() string {
+	return r.err.Error()
+}
+
 // serializeError is returned when a message could not be serialized
 type serializeError struct {
 	err error
-- 
2.43.0


From 6b4d5068451e644d713da4f021067ea3e5d0b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 13/57] fix: MessagePack close messages have no header

---
 messagepackhubprotocol.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 30d6957..05bf9e6 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/go-kit/log"
 	"github.com/vmihailenco/msgpack/v5"
+	"github.com/vmihailenco/msgpack/v5/msgpcode"
 )
 
 type messagePackHubProtocol struct {
@@ -108,9 +109,18 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	if err != nil {
 		return nil, err
 	}
-	// Ignore Header for all messages, except ping message that has no header
+	// Ignore Header for all messages, except ping and close message that have no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
-	if msgType != 6 {
+	hasHeader := msgType != 6
+	if msgType == 7 {
+		// Former versions of this library send a close message with header
+		code, err := decoder.PeekCode()
+		if err != nil {
+			return nil, err
+		}
+		hasHeader = msgpcode.IsFixedMap(code)
+	}
+	if hasHeader {
 		_, err = decoder.DecodeMap()
 		if err != nil {
 			return nil, err
@@ -354,7 +364,10 @@ func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Wri
 			return err
 		}
 	case closeMessage:
-		if err := encodeMsgHeader(encoder, 3, msg.Type); err != nil {
+		if err := encoder.EncodeArrayLen(3); err != nil {
+			return err
+		}
+		if err := encoder.EncodeInt(int64(msg.Type)); err != nil {
 			return err
 		}
 		if err := encoder.EncodeString(msg.Error); err != nil {
-- 
2.43.0


From 0c2e9da1d8aa4d77393381b3a268dc9302abd0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 14/57] fix: PushStreams accepts nil arguments

---
 loop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index 9ad3ea2..9b2c0df 100644
--- a/loop.go
+++ b/loop.go
@@ -170,7 +170,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	streamIds := make([]string, 0)
 	// Parse arguments for channels and other kind of arguments
 	for _, arg := range arguments {
-		if reflect.TypeOf(arg).Kind() == reflect.Chan {
+		if t := reflect.TypeOf(arg); t != nil && t.Kind() == reflect.Chan && t.ChanDir() != reflect.SendDir {
 			reflectedChannels = append(reflectedChannels, reflect.ValueOf(arg))
 			streamIds = append(streamIds, l.GetNewID())
 		} else {
-- 
2.43.0


From c28a5d5acd6c28e0ca0682507d448069cbdaacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 15/57] fix: a connection which does not accept the close
 message ends nevertheless

---
 hubconnection.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/hubconnection.go b/hubconnection.go
index ebede8d..fe20330 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -28,6 +28,9 @@ type HubConnection interface {
 	Abort()
 }
 
+// closeTimeout limits how long Close waits for the close message to be sent
+const closeTimeout = 5 * time.Second
+
 type receiveResult struct {
 	message interface{}
 	err     error
@@ -75,7 +78,19 @@ func (c *defaultHubConnection) Close(errorText string, allowReconnect bool) erro
 		Error:          errorText,
 		AllowReconnect: allowReconnect,
 	}
-	return c.protocol.WriteMessage(closeMessage, c.connection)
+	// The other side might not read anymore, but this must not keep the connection from ending
+	done := make(chan error, 1)
+	go func() {
+		done <- c.protocol.WriteMessage(closeMessage, c.connection)
+	}()
+	timer := time.NewTimer(closeTimeout)
+	defer timer.Stop()
+	select {
+	case err := <-done:
+		return err
+	case <-timer.C:
+		return fmt.Errorf("timeout (%v) sending the close message", closeTimeout)
+	}
 }
 
 func (c *defaultHubConnection) ConnectionID() string {
-- 
2.43.0


From 34ec3dd179572607f863f4cf9fb4f3be569dd4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 16/57] fix: the loop of a connection does not wait for its own
 writes

---
 loop.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/loop.go b/loop.go
index 9b2c0df..7d84495 100644
--- a/loop.go
+++ b/loop.go
@@ -76,6 +76,9 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 	}()
 	timeoutTicker := time.NewTicker(l.party.timeout())
 	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
+	// The loop never writes by itself. A connection which does not accept data must not keep it from ending
+	pinging := false
+	pinged := make(chan error, 1)
 msgLoop:
 	for {
 	pingLoop:
@@ -115,14 +118,20 @@ msgLoop:
 				nextPingIn := l.party.keepAliveInterval() - time.Since(l.hubConn.LastWriteStamp())
 
 				if nextPingIn <= 0 {
-					if err = l.hubConn.Ping(); err != nil {
-						break pingLoop
+					if !pinging {
+						pinging = true
+						go func() { pinged <- l.hubConn.Ping() }()
 					}
 					keepAliveTicker.Reset(l.party.keepAliveInterval())
 				} else {
 					keepAliveTicker.Reset(nextPingIn)
 				}
 				// Don't break the pingLoop when keepAlive is over, it exists for this case
+			case err = <-pinged:
+				pinging = false
+				if err != nil {
+					break pingLoop
+				}
 			case <-timeoutTicker.C:
 				err = fmt.Errorf("timeout interval elapsed (%v)", l.party.timeout())
 				break pingLoop
@@ -233,7 +242,7 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 // sendError completes an invocation with an error. No invocation id, no completion
 func (l *loop) sendError(invocation invocationMessage, errorText string) {
 	if invocation.InvocationID != "" {
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, errorText)
+		go func() { _ = l.hubConn.Completion(invocation.InvocationID, nil, errorText) }()
 	}
 }
 
@@ -282,7 +291,7 @@ func (l *loop) handleStreamItemMessage(streamItemMessage streamItemMessage) erro
 	if err := l.streamClient.receiveStreamItem(streamItemMessage); err != nil {
 		switch t := err.(type) {
 		case *hubChanTimeoutError:
-			_ = l.hubConn.Completion(streamItemMessage.InvocationID, nil, t.Error())
+			go func() { _ = l.hubConn.Completion(streamItemMessage.InvocationID, nil, t.Error()) }()
 		default:
 			_ = l.info.Log(evt, msgRecv, "error", err, msg, fmtMsg(streamItemMessage), react, "close connection")
 			return err
-- 
2.43.0


From b7faf8c11f75e4fda1e1f8a80ed5fc03500595f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 17/57] fix: no goroutine is left behind when a client streamed
 value is not received

---
 streamclient.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/streamclient.go b/streamclient.go
index 0d16a93..a217d08 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -81,23 +81,25 @@ func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 	return fmt.Errorf(`unknown stream id "%v"`, streamItem.InvocationID)
 }
 
-func (c *streamClient) sendChanValSave(upChan reflect.Value, chanVal reflect.Value) error {
-	done := make(chan error)
-	go func() {
-		defer func() {
-			if r := recover(); r != nil {
-				done <- fmt.Errorf("%v", r)
-			}
-		}()
-		upChan.Send(chanVal)
-		done <- nil
+func (c *streamClient) sendChanValSave(upChan reflect.Value, chanVal reflect.Value) (err error) {
+	// The hub method might have closed the channel
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
 	}()
-	select {
-	case err := <-done:
-		return err
-	case <-time.After(c.chanReceiveTimeout):
+	if upChan.TrySend(chanVal) {
+		return nil
+	}
+	timer := time.NewTimer(c.chanReceiveTimeout)
+	defer timer.Stop()
+	if chosen, _, _ := reflect.Select([]reflect.SelectCase{
+		{Dir: reflect.SelectSend, Chan: upChan, Send: chanVal},
+		{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(timer.C)},
+	}); chosen == 1 {
 		return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client streamed value", c.chanReceiveTimeout)}
 	}
+	return nil
 }
 
 type hubChanTimeoutError struct {
-- 
2.43.0


From 897aff411903ac0e79ad7e2f5e4f97291a9f4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 18/57] fix: a value which can't be serialized does not delay
 the keep-alive ping

---
 hubconnection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index fe20330..b236b75 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -292,9 +292,6 @@ func (c *defaultHubConnection) LastWriteStamp() time.Time {
 }
 
 func (c *defaultHubConnection) writeMessage(message interface{}) error {
-	c.mx.Lock()
-	c.lastWriteStamp = time.Now()
-	c.mx.Unlock()
 	err := func() error {
 		if c.ctx.Err() != nil {
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
@@ -304,6 +301,9 @@ func (c *defaultHubConnection) writeMessage(message interface{}) error {
 		if err := c.protocol.WriteMessage(message, &buf); err != nil {
 			return &serializeError{err}
 		}
+		c.mx.Lock()
+		c.lastWriteStamp = time.Now()
+		c.mx.Unlock()
 		e := make(chan error, 1)
 		go func() {
 			_, err := c.connection.Write(buf.Bytes())
-- 
2.43.0


From 910605141f67462af98aeea2b445aa344f9575aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 19/57] fix: no timeout while a received message waits for the
 loop

---
 loop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/loop.go b/loop.go
index 7d84495..427f100 100644
--- a/loop.go
+++ b/loop.go
@@ -133,6 +133,10 @@ msgLoop:
 					break pingLoop
 				}
 			case <-timeoutTicker.C:
+				if len(ch) > 0 {
+					// The loop has been busy, but a message has been received in time
+					continue
+				}
 				err = fmt.Errorf("timeout interval elapsed (%v)", l.party.timeout())
 				break pingLoop
 			case <-l.hubConn.Context().Done():
-- 
2.43.0


From 737e454525df1120918a78210fcae2de766bf65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 20/57] fix: the handshake error response is valid JSON for
 every protocol name

---
 server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 2923909..81680e5 100644
--- a/server.go
+++ b/server.go
@@ -305,8 +305,12 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 		_ = info.Log(evt, "protocol requested", "error", err)
 		if _, respErr := ReadWriteWithContext(ctx,
 			func() (int, error) {
-				const errorHandshakeResponse = "{\"error\":\"%s\"}\u001e"
-				return fmt.Fprintf(conn, errorHandshakeResponse, err)
+				// The name of the protocol might contain characters which JSON strings have to escape
+				errorHandshakeResponse, jsonErr := json.Marshal(handshakeResponse{Error: err.Error()})
+				if jsonErr != nil {
+					return 0, jsonErr
+				}
+				return conn.Write(append(errorHandshakeResponse, 0x1e))
 			}, func() {}); respErr != nil {
 			_ = dbg.Log(evt, "handshake sent", "error", respErr)
 			err = respErr
-- 
2.43.0


From a708106c63715694f34ed242d873be0bc7e6b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 21/57] fix: MessagePack messages with maps with invalid keys
 or huge lengths do not crash the process

---
 hubprotocol.go            |  9 +++++++++
 messagepackhubprotocol.go | 33 ++++++++++++++++++++++-----------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/hubprotocol.go b/hubprotocol.go
index 3d3d1e1..da8b548 100644
--- a/hubprotocol.go
+++ b/hubprotocol.go
@@ -2,6 +2,7 @@ package signalr
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 )
 
@@ -71,3 +72,11 @@ type handshakeRequest struct {
 type handshakeResponse struct {
 	Error string `json:"error,omitempty"`
 }
+
+// recoverMarshalPanic has to be deferred. It makes a panic in the code which marshals or unmarshals a value,
+// e.g. because of maps with invalid keys or in a marshaler of the user, to an error.
+func recoverMarshalPanic(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("panic while processing a value: %v", r)
+	}
+}
diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 05bf9e6..34b71fe 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -95,7 +95,9 @@ func (m *messagePackHubProtocol) parseFrames(buf *bytes.Buffer) ([][]byte, error
 	}
 }
 
-func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, error) {
+func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (message interface{}, err error) {
+	// Maps with keys which are no valid map keys in Go let the decoder panic
+	defer recoverMarshalPanic(&err)
 	decoder := msgpack.NewDecoder(buf)
 	// Default map decoding expects all maps to have string keys
 	decoder.SetMapDecoder(func(decoder *msgpack.Decoder) (interface{}, error) {
@@ -121,10 +123,19 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 		hasHeader = msgpcode.IsFixedMap(code)
 	}
 	if hasHeader {
-		_, err = decoder.DecodeMap()
+		// Don't decode the map. This would allocate as much memory as its length asks for
+		headerLen, err := decoder.DecodeMapLen()
 		if err != nil {
 			return nil, err
 		}
+		for i := 0; i < headerLen; i++ {
+			if _, err = decoder.DecodeString(); err != nil {
+				return nil, err
+			}
+			if err = decoder.Skip(); err != nil {
+				return nil, err
+			}
+		}
 	}
 	switch msgType {
 	case 1, 4:
@@ -254,20 +265,19 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 }
 
 func (m *messagePackHubProtocol) decodeInvocationID(decoder *msgpack.Decoder) (string, error) {
-	rawID, err := decoder.DecodeInterface()
+	code, err := decoder.PeekCode()
 	if err != nil {
 		return "", err
 	}
 	// nil is ok
-	if rawID == nil {
-		return "", nil
+	if code == msgpcode.Nil {
+		return "", decoder.DecodeNil()
 	}
-	// Otherwise, it must be string
-	invocationID, ok := rawID.(string)
-	if !ok {
-		return "", fmt.Errorf("invalid InvocationID %#v", rawID)
+	// Otherwise, it must be string. Don't decode other types. Their length might ask for a lot of memory
+	if !msgpcode.IsString(code) {
+		return "", fmt.Errorf("invalid InvocationID, type code 0x%x", code)
 	}
-	return invocationID, nil
+	return decoder.DecodeString()
 }
 
 func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Writer) error {
@@ -417,7 +427,8 @@ func (m *messagePackHubProtocol) setMaxReceiveMessageSize(size uint) {
 }
 
 // UnmarshalArgument unmarshals raw bytes to a destination value. dst is the pointer to the destination value.
-func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) error {
+func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) (err error) {
+	defer recoverMarshalPanic(&err)
 	rawSrc, ok := src.(msgpack.RawMessage)
 	if !ok {
 		return fmt.Errorf("invalid source %#v for UnmarshalArgument", src)
-- 
2.43.0


From 04cea8e771175a76a4647d3f5d991778a0526a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 22/57] fix: observers get every change of the client state in
 order and never block the client

---
 client.go | 114 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 74 insertions(+), 40 deletions(-)

diff --git a/client.go b/client.go
index d4e3e03..1601848 100644
--- a/client.go
+++ b/client.go
@@ -121,13 +121,12 @@ func NewClient(ctx context.Context, options ...func(Party) error) (Client, error
 	ctx, cancelFunc = context.WithCancel(ctx)
 	info, dbg := buildInfoDebugLogger(log.NewLogfmtLogger(os.Stderr), true)
 	c := &client{
-		state:            ClientCreated,
-		stateChangeChans: make([]chan ClientState, 0),
-		format:           "json",
-		partyBase:        newPartyBase(ctx, info, dbg),
-		lastID:           -1,
-		backoffFactory:   func() backoff.BackOff { return backoff.NewExponentialBackOff() },
-		cancelFunc:       cancelFunc,
+		state:          ClientCreated,
+		format:         "json",
+		partyBase:      newPartyBase(ctx, info, dbg),
+		lastID:         -1,
+		backoffFactory: func() backoff.BackOff { return backoff.NewExponentialBackOff() },
+		cancelFunc:     cancelFunc,
 	}
 	for _, option := range options {
 		if option != nil {
@@ -154,7 +153,7 @@ type client struct {
 	conn              Connection
 	connectionFactory func() (Connection, error)
 	state             ClientState
-	stateChangeChans  []chan ClientState
+	stateObservers    []*stateObserver
 	err               error
 	format            string
 	loop              *loop
@@ -314,23 +313,54 @@ func (c *client) setState(state ClientState) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
+	if c.state == state {
+		return
+	}
 	c.state = state
 	_ = c.dbg.Log("state", state)
 
-	for _, ch := range c.stateChangeChans {
-		go func(ch chan ClientState, state ClientState) {
-			c.mx.Lock()
-			defer c.mx.Unlock()
+	for _, o := range c.stateObservers {
+		o.pending = append(o.pending, state)
+		if !o.sending {
+			o.sending = true
+			go c.notify(o)
+		}
+	}
+}
 
-			for _, cch := range c.stateChangeChans {
-				if cch == ch {
-					select {
-					case ch <- state:
-					case <-c.ctx.Done():
-					}
-				}
-			}
-		}(ch, state)
+// stateObserver is an observation of the client state.
+type stateObserver struct {
+	ch       chan ClientState
+	canceled chan struct{}
+	// protected by client.mx
+	pending []ClientState
+	sending bool
+}
+
+// notify sends the pending state changes. It does not hold the lock of the client while waiting for the observer.
+func (c *client) notify(o *stateObserver) {
+	for {
+		c.mx.Lock()
+		select {
+		case <-o.canceled:
+			o.sending = false
+			close(o.ch)
+			c.mx.Unlock()
+			return
+		default:
+		}
+		if len(o.pending) == 0 {
+			o.sending = false
+			c.mx.Unlock()
+			return
+		}
+		state := o.pending[0]
+		o.pending = o.pending[1:]
+		c.mx.Unlock()
+		select {
+		case o.ch <- state:
+		case <-o.canceled:
+		}
 	}
 }
 
@@ -338,20 +368,25 @@ func (c *client) ObserveStateChanged(ch chan ClientState) context.CancelFunc {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	c.stateChangeChans = append(c.stateChangeChans, ch)
+	o := &stateObserver{ch: ch, canceled: make(chan struct{})}
+	c.stateObservers = append(c.stateObservers, o)
 
 	return func() {
-		c.cancelObserveStateChanged(ch)
+		c.cancelObserveStateChanged(o)
 	}
 }
 
-func (c *client) cancelObserveStateChanged(ch chan ClientState) {
+func (c *client) cancelObserveStateChanged(o *stateObserver) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
-	for i, cch := range c.stateChangeChans {
-		if cch == ch {
-			c.stateChangeChans = append(c.stateChangeChans[:i], c.stateChangeChans[i+1:]...)
-			close(ch)
+	for i, observer := range c.stateObservers {
+		if observer == o {
+			c.stateObservers = append(c.stateObservers[:i], c.stateObservers[i+1:]...)
+			close(o.canceled)
+			// otherwise notify does it
+			if !o.sending {
+				close(o.ch)
+			}
 			break
 		}
 	}
@@ -371,22 +406,21 @@ func (c *client) setErr(err error) {
 
 func (c *client) WaitForState(ctx context.Context, waitFor ClientState) <-chan error {
 	ch := make(chan error, 1)
-	if c.waitingIsOver(waitFor, ch) {
+	// Observe first, to miss no change after the state has been asked for
+	stateCh := make(chan ClientState, 1)
+	cancel := c.ObserveStateChanged(stateCh)
+	if c.waitingIsOver(c.State(), waitFor, ch) {
+		cancel()
 		close(ch)
 		return ch
 	}
-	stateCh := make(chan ClientState, 1)
-	cancel := c.ObserveStateChanged(stateCh)
-	go func(waitFor ClientState) {
+	go func() {
 		defer close(ch)
 		defer cancel()
-		if c.waitingIsOver(waitFor, ch) {
-			return
-		}
 		for {
 			select {
-			case <-stateCh:
-				if c.waitingIsOver(waitFor, ch) {
+			case state := <-stateCh:
+				if c.waitingIsOver(state, waitFor, ch) {
 					return
 				}
 			case <-ctx.Done():
@@ -397,12 +431,12 @@ func (c *client) WaitForState(ctx context.Context, waitFor ClientState) <-chan e
 				return
 			}
 		}
-	}(waitFor)
+	}()
 	return ch
 }
 
-func (c *client) waitingIsOver(waitFor ClientState, ch chan<- error) bool {
-	switch c.State() {
+func (c *client) waitingIsOver(state ClientState, waitFor ClientState, ch chan<- error) bool {
+	switch state {
 	case waitFor:
 		return true
 	case ClientCreated:
-- 
2.43.0


From 9ac0326959c354f26f8860c70e92443588023eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 23/57] fix: the client state is Connecting as long as there is
 no connection, and Closed at the end

---
 client.go | 45 ++++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/client.go b/client.go
index 1601848..8e34112 100644
--- a/client.go
+++ b/client.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"reflect"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/cenkalti/backoff/v4"
@@ -174,49 +173,33 @@ func (c *client) Start() {
 
 		for {
 			c.setErr(nil)
-			// Listen for state change to ClientConnected and signal backoff Reset then.
-			stateChangeChan := make(chan ClientState, 1)
-			var connected atomic.Value
-			connected.Store(false)
-			cancelObserve := c.ObserveStateChanged(stateChangeChan)
-			go func() {
-				for range stateChangeChan {
-					if c.State() == ClientConnected {
-						connected.Store(true)
-						return
-					}
-				}
-			}()
 			// RUN!
-			err := c.run()
+			loop, err := c.run()
 			if err != nil {
 				_ = c.info.Log("connect", fmt.Sprintf("%v", err))
 				c.setErr(err)
 			}
-			shouldEnd := c.shouldClientEnd()
-			cancelObserve()
-			if shouldEnd {
+			if c.shouldClientEnd(loop) {
 				return
 			}
 
 			// When the client has connected, BackOff should be reset
-			if connected.Load().(bool) {
+			if loop != nil {
 				boff.Reset()
 			}
 			// Reconnect after BackOff
 			nextBackoff := boff.NextBackOff()
 			// Check for exceeded backoff
 			if nextBackoff == backoff.Stop {
-				c.setState(ClientClosed)
 				c.setErr(errors.New("backoff exceeded"))
+				c.setState(ClientClosed)
 				return
 			}
+			c.setState(ClientConnecting)
 			select {
 			case <-time.After(nextBackoff):
 			case <-c.ctx.Done():
-				return
 			}
-			c.setState(ClientConnecting)
 		}
 	}()
 }
@@ -230,13 +213,17 @@ func (c *client) Stop() {
 	}
 }
 
-func (c *client) run() error {
+// run connects and runs the loop until the connection ends. The returned loop is nil when the client could not connect
+func (c *client) run() (*loop, error) {
+	if err := c.ctx.Err(); err != nil {
+		return nil, err
+	}
 	// negotiate and so on
 	protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
 		// The next try needs a new connection
 		c.conn = nil
-		return err
+		return nil, err
 	}
 
 	loop := newLoop(c, c.conn, protocol, received)
@@ -245,12 +232,16 @@ func (c *client) run() error {
 	c.mx.Unlock()
 	// Broadcast when loop is connected
 	isLoopConnected := make(chan struct{}, 1)
+	broadcasted := make(chan struct{})
 	go func() {
+		defer close(broadcasted)
 		<-isLoopConnected
 		c.setState(ClientConnected)
 	}()
 	// Run the loop
 	err = loop.Run(isLoopConnected)
+	// The state must not change to ClientConnected when the connection has already ended
+	<-broadcasted
 
 	if err == nil {
 		err = loop.hubConn.Close("", false) // allowReconnect value is ignored as servers never initiate a connection
@@ -259,10 +250,10 @@ func (c *client) run() error {
 	// Reset conn to allow reconnecting
 	c.conn = nil
 
-	return err
+	return loop, err
 }
 
-func (c *client) shouldClientEnd() bool {
+func (c *client) shouldClientEnd(loop *loop) bool {
 	// Canceled?
 	if c.ctx.Err() != nil {
 		c.setErr(c.ctx.Err())
@@ -275,7 +266,7 @@ func (c *client) shouldClientEnd() bool {
 		return true
 	}
 	// Reconnecting not allowed
-	if c.loop != nil && c.loop.closeMessage != nil && !c.loop.closeMessage.AllowReconnect {
+	if loop != nil && loop.closeMessage != nil && !loop.closeMessage.AllowReconnect {
 		c.setState(ClientClosed)
 		return true
 	}
-- 
2.43.0


From ec829c7ac57655897d6520d09b8bbb34c66dc489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 24/57] fix: a call of the client uses one connection from
 begin to end

---
 client.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index 8e34112..e7987cf 100644
--- a/client.go
+++ b/client.go
@@ -449,11 +449,12 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 			close(ch)
 			return
 		}
-		id := c.loop.GetNewID()
-		resultCh, errCh := c.loop.invokeClient.newInvocation(id)
+		loop := c.currentLoop()
+		id := loop.GetNewID()
+		resultCh, errCh := loop.invokeClient.newInvocation(id)
 		irCh := newInvokeResultChan(resultCh, errCh)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			ch <- InvokeResult{Error: err}
 			close(ch)
 			return
@@ -476,10 +477,11 @@ func (c *client) Send(method string, arguments ...interface{}) <-chan error {
 			close(errCh)
 			return
 		}
-		id := c.loop.GetNewID()
-		_, sendErrCh := c.loop.invokeClient.newInvocation(id)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		loop := c.currentLoop()
+		id := loop.GetNewID()
+		_, sendErrCh := loop.invokeClient.newInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			errCh <- err
 			close(errCh)
 			return
@@ -502,7 +504,8 @@ func (c *client) PullStream(method string, arguments ...interface{}) <-chan Invo
 			close(irCh)
 			return
 		}
-		pullCh := c.loop.PullStream(method, c.loop.GetNewID(), arguments...)
+		loop := c.currentLoop()
+		pullCh := loop.PullStream(method, loop.GetNewID(), arguments...)
 		go func() {
 			for ir := range pullCh {
 				irCh <- ir
@@ -524,7 +527,8 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 			close(irCh)
 			return
 		}
-		pushCh, err := c.loop.PushStreams(method, c.loop.GetNewID(), arguments...)
+		loop := c.currentLoop()
+		pushCh, err := loop.PushStreams(method, loop.GetNewID(), arguments...)
 		if err != nil {
 			irCh <- InvokeResult{Error: err}
 			close(irCh)
@@ -540,6 +544,13 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 	return irCh
 }
 
+// currentLoop returns the loop of the current connection. A call has to use the same loop all the time.
+func (c *client) currentLoop() *loop {
+	c.mx.RLock()
+	defer c.mx.RUnlock()
+	return c.loop
+}
+
 func (c *client) waitForConnected() <-chan error {
 	return c.WaitForState(context.Background(), ClientConnected)
 }
-- 
2.43.0


From cfc7da64cc7bd4f65a3fad0e7d14167ddeb7bd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:42 +0000
Subject: [PATCH 25/57] fix: server sent events: writes don't deadlock or get
 the result of others, a failed POST does not block the connection, the
 response ends with the connection

---
 httpmux.go             | 30 ++++++++++--------
 serversseconnection.go | 70 +++++++++++++++++++++++++-----------------
 2 files changed, 59 insertions(+), 41 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index 9d21116..ed72bfa 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -132,12 +132,10 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 	h.mx.RUnlock()
 	if ok {
 		if _, ok := c.(*negotiateConnection); ok {
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
-			if err != nil {
-				writer.WriteHeader(http.StatusInternalServerError)
-				return
-			}
+			ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
+			// Serve and everything which is still writing ends with the response
+			defer cancel()
+			sseConn, jobChan := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
 			flusher, ok := writer.(http.Flusher)
 			if !ok {
 				writer.WriteHeader(http.StatusInternalServerError)
@@ -152,19 +150,27 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 			// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
 			_, _ = fmt.Fprint(writer, ":\r\n\r\n")
 			writer.(http.Flusher).Flush()
+			served := make(chan struct{})
 			go func() {
+				defer close(served)
 				// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
 				_ = h.serveConnection(sseConn)
 			}()
 			// Loop for write jobs from the sseServerConnection
-			for buf := range jobChan {
-				n, err := writer.Write(buf)
-				if err == nil {
-					flusher.Flush()
+			for {
+				select {
+				case job := <-jobChan:
+					n, err := writer.Write(job.payload)
+					if err == nil {
+						flusher.Flush()
+					}
+					job.result <- RWJobResult{n: n, err: err}
+				case <-served:
+					return
+				case <-ctx.Done():
+					return
 				}
-				jobResultChan <- RWJobResult{n: n, err: err}
 			}
-			close(jobResultChan)
 		} else {
 			// connectionID in use
 			writer.WriteHeader(http.StatusConflict)
diff --git a/serversseconnection.go b/serversseconnection.go
index 665d696..b713b77 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -12,28 +12,33 @@ import (
 
 type serverSSEConnection struct {
 	ConnectionBase
-	mx            sync.Mutex
-	postWriting   bool
-	postWriter    io.Writer
-	postReader    io.Reader
-	jobChan       chan []byte
-	jobResultChan chan RWJobResult
+	mx          sync.Mutex
+	postWriting bool
+	postWriter  *io.PipeWriter
+	postReader  *io.PipeReader
+	jobChan     chan sseJob
 }
 
-func newServerSSEConnection(ctx context.Context, connectionID string) (*serverSSEConnection, <-chan []byte, chan RWJobResult, error) {
+// sseJob is a server sent event on its way to the response. result is buffered, the writer of the response never waits.
+type sseJob struct {
+	payload []byte
+	result  chan RWJobResult
+}
+
+// newServerSSEConnection creates a serverSSEConnection. The jobs have to be processed until ctx is canceled.
+// ctx has to be canceled when the connection is not used anymore.
+func newServerSSEConnection(ctx context.Context, connectionID string) (*serverSSEConnection, <-chan sseJob) {
 	s := serverSSEConnection{
 		ConnectionBase: *NewConnectionBase(ctx, connectionID),
-		jobChan:        make(chan []byte, 1),
-		jobResultChan:  make(chan RWJobResult, 1),
+		jobChan:        make(chan sseJob),
 	}
 	s.postReader, s.postWriter = io.Pipe()
 	go func() {
-		<-s.Context().Done()
-		s.mx.Lock()
-		close(s.jobChan)
-		s.mx.Unlock()
+		<-ctx.Done()
+		// Unblock Read and consumeRequest
+		_ = s.postReader.CloseWithError(ctx.Err())
 	}()
-	return &s, s.jobChan, s.jobResultChan, nil
+	return &s, s.jobChan
 }
 
 func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
@@ -47,6 +52,17 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 	}
 	s.postWriting = true
 	s.mx.Unlock()
+	status := s.consumeBody(request)
+	s.mx.Lock()
+	s.postWriting = false
+	s.mx.Unlock()
+	if status == http.StatusOK {
+		<-time.After(50 * time.Millisecond)
+	}
+	return status
+}
+
+func (s *serverSSEConnection) consumeBody(request *http.Request) int {
 	defer func() {
 		_ = request.Body.Close()
 	}()
@@ -56,17 +72,13 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 	} else if _, err := s.postWriter.Write(body); err != nil {
 		return http.StatusInternalServerError // 500
 	}
-	s.mx.Lock()
-	s.postWriting = false
-	s.mx.Unlock()
-	<-time.After(50 * time.Millisecond)
 	return http.StatusOK // 200
 }
 
 func (s *serverSSEConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(s.Context(),
 		func() (int, error) { return s.postReader.Read(p) },
-		func() { _, _ = s.postWriter.Write([]byte("\n")) })
+		func() {})
 	if err != nil {
 		err = fmt.Errorf("%T: %w", s, err)
 	}
@@ -75,25 +87,25 @@ func (s *serverSSEConnection) Read(p []byte) (n int, err error) {
 
 func (s *serverSSEConnection) Write(p []byte) (n int, err error) {
 	if err := s.Context().Err(); err != nil {
-		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
+		return 0, fmt.Errorf("%T: %w", s, err)
 	}
 	payload := ""
 	for _, line := range strings.Split(strings.TrimRight(string(p), "\n"), "\n") {
 		payload = payload + "data: " + line + "\n"
 	}
-	// prevent race with goroutine closing the jobChan
-	s.mx.Lock()
-	if s.Context().Err() == nil {
-		s.jobChan <- []byte(payload + "\n")
-	} else {
+	job := sseJob{payload: []byte(payload + "\n"), result: make(chan RWJobResult, 1)}
+	select {
+	case <-s.Context().Done():
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
+	case s.jobChan <- job:
 	}
-	s.mx.Unlock()
 	select {
 	case <-s.Context().Done():
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
-	case r := <-s.jobResultChan:
-		return r.n, r.err
+	case r := <-job.result:
+		if r.err != nil {
+			return 0, r.err
+		}
+		return len(p), nil
 	}
-
 }
-- 
2.43.0


From 44c213127cb167768bf66da51189943ca7f8acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 26/57] fix: websocket messages may have any size and are
 closed when the connection ends

---
 httpmux.go             |  3 ++-
 websocketconnection.go | 37 +++++++++++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index ed72bfa..3287a95 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -193,7 +193,6 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		// don't need to write an error header here as websocket.Accept has already used http.Error
 		return
 	}
-	websocketConn.SetReadLimit(int64(h.server.maximumReceiveMessageSize()))
 	connectionMapKey := request.URL.Query().Get("id")
 	if connectionMapKey == "" {
 		// Support websocket connection without negotiate
@@ -215,6 +214,8 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 			err = h.serveConnection(newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
 			if err != nil {
 				_ = websocketConn.Close(1005, err.Error())
+			} else {
+				_ = websocketConn.Close(websocket.StatusNormalClosure, "")
 			}
 		} else {
 			// Already initiated
diff --git a/websocketconnection.go b/websocketconnection.go
index e6ec983..4476d5d 100644
--- a/websocketconnection.go
+++ b/websocketconnection.go
@@ -1,9 +1,10 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
+	"errors"
 	"fmt"
+	"io"
 	"net/http"
 	"net/url"
 	"github.com/coder/websocket"
@@ -22,9 +23,12 @@ type webSocketConnection struct {
 	ConnectionBase
 	conn         *websocket.Conn
 	transferMode TransferMode
+	reader       io.Reader // The rest of the websocket message which is currently read
 }
 
 func newWebSocketConnection(ctx context.Context, connectionID string, conn *websocket.Conn) *webSocketConnection {
+	// The size of the hub messages is checked by the hub protocol. It does not depend on the size of the websocket messages
+	conn.SetReadLimit(-1)
 	w := &webSocketConnection{
 		conn:           conn,
 		ConnectionBase: *NewConnectionBase(ctx, connectionID),
@@ -55,13 +59,7 @@ func (w *webSocketConnection) Write(p []byte) (n int, err error) {
 
 func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(w.Context(),
-		func() (int, error) {
-			_, data, err := w.conn.Read(w.Context())
-			if err != nil {
-				return 0, err
-			}
-			return bytes.NewReader(data).Read(p)
-		},
+		func() (int, error) { return w.readMessages(p) },
 		func() {})
 	if err != nil {
 		err = fmt.Errorf("%T: %w", w, err)
@@ -70,6 +68,29 @@ func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	return n, err
 }
 
+// readMessages reads from the websocket messages as if they were a stream
+func (w *webSocketConnection) readMessages(p []byte) (int, error) {
+	for {
+		if w.reader == nil {
+			_, reader, err := w.conn.Reader(w.Context())
+			if err != nil {
+				return 0, err
+			}
+			w.reader = reader
+		}
+		n, err := w.reader.Read(p)
+		if errors.Is(err, io.EOF) {
+			// End of the websocket message
+			w.reader = nil
+			err = nil
+			if n == 0 {
+				continue
+			}
+		}
+		return n, err
+	}
+}
+
 func (w *webSocketConnection) TransferMode() TransferMode {
 	return w.transferMode
 }
-- 
2.43.0


From 82ca1612802f122b8cbfc8d400e7c93eb079c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 27/57] fix: a negotiated connection can be initiated only once
 and has the negotiated id

---
 httpmux.go | 178 +++++++++++++++++++++++++++++------------------------
 1 file changed, 99 insertions(+), 79 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index 3287a95..e41431b 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -122,61 +122,61 @@ func (h *httpMux) handleGet(writer http.ResponseWriter, request *http.Request) {
 }
 
 func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *http.Request) {
-	connectionIDorToken := request.URL.Query().Get("id")
-	if connectionIDorToken == "" {
+	connectionMapKey := request.URL.Query().Get("id") // version 1 uses the token to initiate the connection, not the ID
+	if connectionMapKey == "" {
 		writer.WriteHeader(http.StatusBadRequest)
 		return
 	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionIDorToken]
-	h.mx.RUnlock()
-	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
-			ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
-			// Serve and everything which is still writing ends with the response
-			defer cancel()
-			sseConn, jobChan := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
-			flusher, ok := writer.(http.Flusher)
-			if !ok {
-				writer.WriteHeader(http.StatusInternalServerError)
-				return
-			}
-			// Connection is negotiated but not initiated
-			// We compose http and send it over sse
-			writer.Header().Set("Content-Type", "text/event-stream")
-			writer.Header().Set("Connection", "keep-alive")
-			writer.Header().Set("Cache-Control", "no-cache")
-			writer.WriteHeader(http.StatusOK)
-			// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
-			_, _ = fmt.Fprint(writer, ":\r\n\r\n")
-			writer.(http.Flusher).Flush()
-			served := make(chan struct{})
-			go func() {
-				defer close(served)
-				// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
-				_ = h.serveConnection(sseConn)
-			}()
-			// Loop for write jobs from the sseServerConnection
-			for {
-				select {
-				case job := <-jobChan:
-					n, err := writer.Write(job.payload)
-					if err == nil {
-						flusher.Flush()
-					}
-					job.result <- RWJobResult{n: n, err: err}
-				case <-served:
-					return
-				case <-ctx.Done():
-					return
-				}
+	flusher, ok := writer.(http.Flusher)
+	if !ok {
+		writer.WriteHeader(http.StatusInternalServerError)
+		return
+	}
+	ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
+	// Serve and everything which is still writing ends with the response
+	defer cancel()
+	var sseConn *serverSSEConnection
+	var jobChan <-chan sseJob
+	switch h.initiate(connectionMapKey, func(connectionID string) Connection {
+		sseConn, jobChan = newServerSSEConnection(ctx, connectionID)
+		return sseConn
+	}) {
+	case connectionUnknown:
+		writer.WriteHeader(http.StatusNotFound)
+		return
+	case connectionInUse:
+		writer.WriteHeader(http.StatusConflict)
+		return
+	}
+	// Connection is negotiated but not initiated
+	// We compose http and send it over sse
+	writer.Header().Set("Content-Type", "text/event-stream")
+	writer.Header().Set("Connection", "keep-alive")
+	writer.Header().Set("Cache-Control", "no-cache")
+	writer.WriteHeader(http.StatusOK)
+	// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
+	_, _ = fmt.Fprint(writer, ":\r\n\r\n")
+	flusher.Flush()
+	served := make(chan struct{})
+	go func() {
+		defer close(served)
+		// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
+		_ = h.serveConnection(connectionMapKey, sseConn)
+	}()
+	// Loop for write jobs from the sseServerConnection
+	for {
+		select {
+		case job := <-jobChan:
+			n, err := writer.Write(job.payload)
+			if err == nil {
+				flusher.Flush()
 			}
-		} else {
-			// connectionID in use
-			writer.WriteHeader(http.StatusConflict)
+			job.result <- RWJobResult{n: n, err: err}
+		case <-served:
+			return
+		case <-ctx.Done():
+			return
 		}
-	} else {
-		writer.WriteHeader(http.StatusNotFound)
 	}
 }
 
@@ -193,37 +193,36 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		// don't need to write an error header here as websocket.Accept has already used http.Error
 		return
 	}
+	ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
+	defer cancel()
+	var conn Connection
 	connectionMapKey := request.URL.Query().Get("id")
 	if connectionMapKey == "" {
 		// Support websocket connection without negotiate
 		connectionMapKey = newConnectionID()
+		conn = newWebSocketConnection(ctx, connectionMapKey, websocketConn)
 		h.mx.Lock()
-		h.connectionMap[connectionMapKey] = &negotiateConnection{
-			ConnectionBase: ConnectionBase{connectionID: connectionMapKey},
-			createdAt:      time.Now(),
-		}
+		h.connectionMap[connectionMapKey] = conn
 		h.mx.Unlock()
-	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionMapKey]
-	h.mx.RUnlock()
-	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
-			// Connection is negotiated but not initiated
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			err = h.serveConnection(newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
-			if err != nil {
-				_ = websocketConn.Close(1005, err.Error())
-			} else {
-				_ = websocketConn.Close(websocket.StatusNormalClosure, "")
-			}
-		} else {
+	} else {
+		switch h.initiate(connectionMapKey, func(connectionID string) Connection {
+			conn = newWebSocketConnection(ctx, connectionID, websocketConn)
+			return conn
+		}) {
+		case connectionUnknown:
+			// Not negotiated
+			_ = websocketConn.Close(1002, "Not found")
+			return
+		case connectionInUse:
 			// Already initiated
 			_ = websocketConn.Close(1002, "Bad request")
+			return
 		}
+	}
+	if err = h.serveConnection(connectionMapKey, conn); err != nil {
+		_ = websocketConn.Close(1005, err.Error())
 	} else {
-		// Not negotiated
-		_ = websocketConn.Close(1002, "Not found")
+		_ = websocketConn.Close(websocket.StatusNormalClosure, "")
 	}
 }
 
@@ -306,15 +305,36 @@ func (h *httpMux) negotiate(w http.ResponseWriter, req *http.Request) {
 	}
 }
 
-func (h *httpMux) serveConnection(c Connection) error {
-	h.mx.Lock()
-	h.connectionMap[c.ConnectionID()] = c
-	h.mx.Unlock()
-	err := h.server.Serve(c)
+type connectionState int
+
+const (
+	connectionUnknown connectionState = iota
+	connectionInUse
+	connectionInitiated
+)
+
+// initiate replaces a negotiated connection with the one it becomes. A negotiated connection can be initiated only once.
+func (h *httpMux) initiate(connectionMapKey string, newConnection func(connectionID string) Connection) connectionState {
 	h.mx.Lock()
-	delete(h.connectionMap, c.ConnectionID())
-	h.mx.Unlock()
-	return err
+	defer h.mx.Unlock()
+	c, ok := h.connectionMap[connectionMapKey]
+	if !ok {
+		return connectionUnknown
+	}
+	if _, ok := c.(*negotiateConnection); !ok {
+		return connectionInUse
+	}
+	h.connectionMap[connectionMapKey] = newConnection(c.ConnectionID())
+	return connectionInitiated
+}
+
+func (h *httpMux) serveConnection(connectionMapKey string, c Connection) error {
+	defer func() {
+		h.mx.Lock()
+		delete(h.connectionMap, connectionMapKey)
+		h.mx.Unlock()
+	}()
+	return h.server.Serve(c)
 }
 
 func newConnectionID() string {
-- 
2.43.0


From 2a128da21dad86bacc9ece0b45c16dba56cda329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 28/57] fix: negotiate answers with a version the server
 supports

---
 httpmux.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/httpmux.go b/httpmux.go
index e41431b..4aced3a 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -251,6 +251,13 @@ func (h *httpMux) negotiate(w http.ResponseWriter, req *http.Request) {
 			negotiateVersion = headerNegotiateVersion
 		}
 
+		// The highest version we know
+		if negotiateVersion > 1 {
+			negotiateVersion = 1
+		} else if negotiateVersion < 0 {
+			negotiateVersion = 0
+		}
+
 		connectionToken := ""
 		if negotiateVersion == 1 {
 			connectionToken = newConnectionID()
-- 
2.43.0


From 37ceec2ee4ef3739f719dfdde27ab04fe0266348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 29/57] fix: don't change the http headers of the user

---
 httpconnection.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/httpconnection.go b/httpconnection.go
index 629d8c1..fe2995c 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -106,9 +106,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		return nil, err
 	}
 
-	if httpConn.headers != nil {
-		req.Header = httpConn.headers()
-	}
+	req.Header = httpConn.requestHeader()
 
 	resp, err := httpConn.client.Do(req)
 	if err != nil {
@@ -174,11 +172,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			opts.HTTPClient = c
 		}
 
-		if httpConn.headers != nil {
-			opts.HTTPHeader = httpConn.headers()
-		} else {
-			opts.HTTPHeader = http.Header{}
-		}
+		opts.HTTPHeader = httpConn.requestHeader()
 
 		for _, cookie := range resp.Cookies() {
 			opts.HTTPHeader.Add("Cookie", cookie.String())
@@ -198,9 +192,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		if httpConn.headers != nil {
-			req.Header = httpConn.headers()
-		}
+		req.Header = httpConn.requestHeader()
 		req.Header.Set("Accept", "text/event-stream")
 
 		resp, err := httpConn.client.Do(req)
@@ -220,6 +212,16 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 	return conn, nil
 }
 
+// requestHeader returns the headers for a new request. The result of headers belongs to the user and must not be changed.
+func (h *httpConnection) requestHeader() http.Header {
+	if h.headers != nil {
+		if header := h.headers().Clone(); header != nil {
+			return header
+		}
+	}
+	return http.Header{}
+}
+
 // closeResponseBody reads a http response body to the end and closes it
 // See https://blog.cubieserver.de/2022/http-connection-reuse-in-go-clients/
 // The body needs to be fully read and closed, otherwise the connection will not be reused
-- 
2.43.0


From 0edab98bc814a303eb9c62d90c134ea39141dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 30/57] fix: client side server sent events: events may be
 split, the end of the stream ends the connection, POST uses the right URL

---
 clientsseconnection.go | 104 +++++++++++++++++++++++++----------------
 httpconnection.go      |   9 ++--
 2 files changed, 68 insertions(+), 45 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 1ca613c..83d811e 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -1,70 +1,88 @@
 package signalr
 
 import (
+	"bufio"
 	"bytes"
 	"context"
 	"fmt"
 	"io"
 	"net/http"
-	"net/url"
-	"strings"
+	"sync"
 )
 
 type clientSSEConnection struct {
 	ConnectionBase
+	mx        sync.Mutex
 	client    Doer
+	header    func() http.Header
 	reqURL    string
-	sseReader io.Reader
-	sseWriter io.Writer
+	sseReader *io.PipeReader
+	sseWriter *io.PipeWriter
 }
 
-func newClientSSEConnection(address string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
-	// Setup request
-	reqURL, err := url.Parse(address)
-	if err != nil {
-		return nil, err
-	}
-	q := reqURL.Query()
-	q.Set("id", connectionID)
-	reqURL.RawQuery = q.Encode()
+// newClientSSEConnection creates a clientSSEConnection. reqURL is the URL which opened the event stream in body.
+func newClientSSEConnection(reqURL string, connectionID string, body io.ReadCloser, client Doer, header func() http.Header) *clientSSEConnection {
 	c := clientSSEConnection{
 		ConnectionBase: ConnectionBase{
 			ctx:          context.Background(),
 			connectionID: connectionID,
 		},
 		client: client,
-		reqURL: reqURL.String(),
+		header: header,
+		reqURL: reqURL,
 	}
 	c.sseReader, c.sseWriter = io.Pipe()
 	go func() {
-		defer func() { closeResponseBody(body) }()
-		p := make([]byte, 1<<15)
-	loop:
-		for {
-			n, err := body.Read(p)
-			if err != nil {
-				break loop
-			}
-			lines := strings.Split(string(p[:n]), "\n")
-			for _, line := range lines {
-				line = strings.Trim(line, "\r\t ")
-				// Ignore everything but data
-				if strings.Index(line, "data:") != 0 {
-					continue
+		defer func() { _ = body.Close() }()
+		// Read returns the reason why there are no more events
+		_ = c.sseWriter.CloseWithError(readServerSentEvents(body, c.sseWriter))
+	}()
+	return &c
+}
+
+// readServerSentEvents writes the data of all events in body.
+// See https://html.spec.whatwg.org/multipage/server-sent-events.html#event-stream-interpretation
+func readServerSentEvents(body io.Reader, writer io.Writer) error {
+	reader := bufio.NewReaderSize(body, 1<<15)
+	var line, data []byte
+	hasData, lastCR := false, false
+	for {
+		b, err := reader.ReadByte()
+		if err != nil {
+			// The last event was not complete
+			return err
+		}
+		wasCR := lastCR
+		lastCR = b == '\r'
+		if b == '\n' && wasCR {
+			// The line already ended with the CR
+			continue
+		}
+		if b != '\n' && b != '\r' {
+			line = append(line, b)
+			continue
+		}
+		if len(line) > 0 {
+			// Ignore everything but data
+			if field, value, _ := bytes.Cut(line, []byte(":")); string(field) == "data" {
+				if hasData {
+					data = append(data, '\n')
 				}
-				json := strings.Replace(strings.Trim(line, "\r"), "data:", "", 1)
 				// Spec says: If it starts with Space, remove it
-				if len(json) > 0 && json[0] == ' ' {
-					json = json[1:]
-				}
-				_, err = c.sseWriter.Write([]byte(json))
-				if err != nil {
-					break loop
-				}
+				data = append(data, bytes.TrimPrefix(value, []byte(" "))...)
+				hasData = true
 			}
+			line = line[:0]
+			continue
 		}
-	}()
-	return &c, nil
+		// The event is complete
+		if len(data) > 0 {
+			if _, err := writer.Write(data); err != nil {
+				return err
+			}
+		}
+		data, hasData = data[:0], false
+	}
 }
 
 func (c *clientSSEConnection) Read(p []byte) (n int, err error) {
@@ -76,13 +94,17 @@ func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
 	if err != nil {
 		return 0, err
 	}
+	req.Header = c.header()
+	// The server accepts one POST at a time
+	c.mx.Lock()
+	defer c.mx.Unlock()
 	resp, err := c.client.Do(req)
 	if err != nil {
 		return 0, err
 	}
+	closeResponseBody(resp.Body)
 	if resp.StatusCode != 200 {
-		err = fmt.Errorf("POST %v -> %v", c.reqURL, resp.Status)
+		return 0, fmt.Errorf("POST %v -> %v", c.reqURL, resp.Status)
 	}
-	closeResponseBody(resp.Body)
-	return len(p), err
+	return len(p), nil
 }
diff --git a/httpconnection.go b/httpconnection.go
index fe2995c..cb2bbca 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -199,12 +199,13 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		if err != nil {
 			return nil, err
 		}
-
-		conn, err = newClientSSEConnection(address, negotiateResponse.ConnectionID, resp.Body, httpConn.client)
-		if err != nil {
-			return nil, err
+		if resp.StatusCode != 200 {
+			_ = resp.Body.Close()
+			return nil, fmt.Errorf("%v %v -> %v", req.Method, req.URL.String(), resp.Status)
 		}
 
+		conn = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client, httpConn.requestHeader)
+
 	default:
 		return nil, fmt.Errorf("transport not configured or unknown negotiation transports: %v", negotiateResponse.AvailableTransports)
 	}
-- 
2.43.0


From 1788c776cc66e881b644fd3b4901bc9e1710cf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:16 +0000
Subject: [PATCH 31/57] fix: the client does not limit the size of websocket
 messages, the hub protocol does it for hub messages

---
 client.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/client.go b/client.go
index e7987cf..927ef32 100644
--- a/client.go
+++ b/client.go
@@ -287,10 +287,6 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, []byte, error) {
 			return nil, nil, err
 		}
 	}
-	// Pass maximum receive message size to a potential websocket connection
-	if wsConn, ok := c.conn.(*webSocketConnection); ok {
-		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
-	}
 	return c.processHandshake()
 }
 
-- 
2.43.0


From 5fa1edcaa14baa687ab24745ed04056da1bfb540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 32/57] fix: the client closes the websocket or event stream it
 has opened

---
 client.go              | 12 ++++++++++--
 clientsseconnection.go | 16 ++++++++++++++--
 websocketconnection.go |  5 +++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 927ef32..c4954ae 100644
--- a/client.go
+++ b/client.go
@@ -222,7 +222,7 @@ func (c *client) run() (*loop, error) {
 	protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
 		// The next try needs a new connection
-		c.conn = nil
+		c.dropConnection()
 		return nil, err
 	}
 
@@ -248,11 +248,19 @@ func (c *client) run() (*loop, error) {
 	}
 
 	// Reset conn to allow reconnecting
-	c.conn = nil
+	c.dropConnection()
 
 	return loop, err
 }
 
+// dropConnection forgets the connection. Nobody else would close the transport, when it has been opened by this package.
+func (c *client) dropConnection() {
+	if conn, ok := c.conn.(interface{ closeTransport() }); ok {
+		conn.closeTransport()
+	}
+	c.conn = nil
+}
+
 func (c *client) shouldClientEnd(loop *loop) bool {
 	// Canceled?
 	if c.ctx.Err() != nil {
diff --git a/clientsseconnection.go b/clientsseconnection.go
index 83d811e..65fff57 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -13,6 +13,8 @@ import (
 type clientSSEConnection struct {
 	ConnectionBase
 	mx        sync.Mutex
+	cancel    context.CancelFunc
+	body      io.Closer
 	client    Doer
 	header    func() http.Header
 	reqURL    string
@@ -22,11 +24,14 @@ type clientSSEConnection struct {
 
 // newClientSSEConnection creates a clientSSEConnection. reqURL is the URL which opened the event stream in body.
 func newClientSSEConnection(reqURL string, connectionID string, body io.ReadCloser, client Doer, header func() http.Header) *clientSSEConnection {
+	ctx, cancel := context.WithCancel(context.Background())
 	c := clientSSEConnection{
 		ConnectionBase: ConnectionBase{
-			ctx:          context.Background(),
+			ctx:          ctx,
 			connectionID: connectionID,
 		},
+		cancel: cancel,
+		body:   body,
 		client: client,
 		header: header,
 		reqURL: reqURL,
@@ -85,12 +90,19 @@ func readServerSentEvents(body io.Reader, writer io.Writer) error {
 	}
 }
 
+// closeTransport closes the event stream
+func (c *clientSSEConnection) closeTransport() {
+	c.cancel()
+	_ = c.sseReader.CloseWithError(c.Context().Err())
+	_ = c.body.Close()
+}
+
 func (c *clientSSEConnection) Read(p []byte) (n int, err error) {
 	return c.sseReader.Read(p)
 }
 
 func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
-	req, err := http.NewRequest("POST", c.reqURL, bytes.NewReader(p))
+	req, err := http.NewRequestWithContext(c.Context(), "POST", c.reqURL, bytes.NewReader(p))
 	if err != nil {
 		return 0, err
 	}
diff --git a/websocketconnection.go b/websocketconnection.go
index 4476d5d..416b156 100644
--- a/websocketconnection.go
+++ b/websocketconnection.go
@@ -91,6 +91,11 @@ func (w *webSocketConnection) readMessages(p []byte) (int, error) {
 	}
 }
 
+// closeTransport closes the websocket. It does not wait for the peer.
+func (w *webSocketConnection) closeTransport() {
+	go func() { _ = w.conn.Close(websocket.StatusNormalClosure, "") }()
+}
+
 func (w *webSocketConnection) TransferMode() TransferMode {
 	return w.transferMode
 }
-- 
2.43.0


From 79be471f06b6e1b09e9e4b6d8bb9ba5301f30f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 33/57] fix: HttpConnectionFactory connects with the same
 transports every time

It removed the WithTransports option from the caller's slice and appended to it, so later connections
(each reconnect of WithHttpConnection) were made with other transports than the configured ones.
Options which are nil are ignored, as in NewHTTPConnection.
---
 clientoptions.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/clientoptions.go b/clientoptions.go
index 4aed5e5..2334dd2 100644
--- a/clientoptions.go
+++ b/clientoptions.go
@@ -42,26 +42,27 @@ func WithConnector(connectionFactory func() (Connection, error)) func(Party) err
 // with WebSockets (if it is allowed by the HttpConnection options) and if this fails, falls back to a SSE based connection.
 func HttpConnectionFactory(ctx context.Context, address string, options ...func(*httpConnection) error) (Connection, error) {
 	conn := &httpConnection{}
-	for i, option := range options {
-		if err := option(conn); err != nil {
-			return nil, err
-		}
-		if conn.transports != nil {
-			// Remove the WithTransports option
-			options = append(options[:i], options[i+1:]...)
-			break
+	for _, option := range options {
+		if option != nil {
+			if err := option(conn); err != nil {
+				return nil, err
+			}
 		}
 	}
 	// If no WithTransports was given, NewHTTPConnection fallbacks to both
 	if conn.transports == nil {
 		conn.transports = []TransportType{TransportWebSockets, TransportServerSentEvents}
 	}
+	// The options are used again for the next connection, so they must not be changed.
+	// The last WithTransports option wins.
+	withTransport := func(transport TransportType) []func(*httpConnection) error {
+		return append(append([]func(*httpConnection) error{}, options...), WithTransports(transport))
+	}
 
 	for _, transport := range conn.transports {
 		// If Websockets are allowed, we try to connect with these
 		if transport == TransportWebSockets {
-			wsOptions := append(options, WithTransports(TransportWebSockets))
-			conn, err := NewHTTPConnection(ctx, address, wsOptions...)
+			conn, err := NewHTTPConnection(ctx, address, withTransport(TransportWebSockets)...)
 			// If this is ok, return the conn
 			if err == nil {
 				return conn, err
@@ -72,8 +73,7 @@ func HttpConnectionFactory(ctx context.Context, address string, options ...func(
 	for _, transport := range conn.transports {
 		// If SSE is allowed, with fallback to try these
 		if transport == TransportServerSentEvents {
-			sseOptions := append(options, WithTransports(TransportServerSentEvents))
-			return NewHTTPConnection(ctx, address, sseOptions...)
+			return NewHTTPConnection(ctx, address, withTransport(TransportServerSentEvents)...)
 		}
 	}
 	// None of the transports worked
-- 
2.43.0


From 3fc7ea34c636254aeb684aba578aaa54b1346560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 34/57] fix: cookies of the negotiate response are sent without
 their attributes

---
 httpconnection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpconnection.go b/httpconnection.go
index cb2bbca..1119bd3 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -175,7 +175,8 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		opts.HTTPHeader = httpConn.requestHeader()
 
 		for _, cookie := range resp.Cookies() {
-			opts.HTTPHeader.Add("Cookie", cookie.String())
+			// Only name and value, the attributes are for the client
+			opts.HTTPHeader.Add("Cookie", (&http.Cookie{Name: cookie.Name, Value: cookie.Value, Quoted: cookie.Quoted}).String())
 		}
 
 		ws, _, err := websocket.Dial(ctx, wsURL.String(), opts)
-- 
2.43.0


From 08f419dce5a4f54fb0976d3dc23d105762d15fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 35/57] fix: negotiate with the escaped path of the hub

---
 httpconnection.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/httpconnection.go b/httpconnection.go
index 1119bd3..18c777e 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -7,7 +7,6 @@ import (
 	"io"
 	"net/http"
 	"net/url"
-	"path"
 
 	"github.com/coder/websocket"
 	"github.com/quic-go/webtransport-go"
@@ -94,8 +93,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		return nil, err
 	}
 
-	negotiateURL := *reqURL
-	negotiateURL.Path = path.Join(negotiateURL.Path, "negotiate")
+	negotiateURL := reqURL.JoinPath("negotiate")
 	if httpConn.negotiateVersion != nil {
 		q := negotiateURL.Query()
 		q.Set("negotiateVersion", fmt.Sprint(*httpConn.negotiateVersion))
-- 
2.43.0


From 0676b5c6941f33cbaf715ae6fbf37f72f9536f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 36/57] fix: cancelling NewHTTPConnection ends the server sent
 events request

---
 httpconnection.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/httpconnection.go b/httpconnection.go
index 18c777e..efeb33a 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -186,7 +186,10 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		conn = newWebSocketConnection(context.Background(), negotiateResponse.ConnectionID, ws)
 
 	case httpConn.hasTransport(TransportServerSentEvents) && negotiateResponse.hasTransport(TransportServerSentEvents):
-		req, err := http.NewRequest("GET", reqURL.String(), nil)
+		// ctx cancels the request, but not the event stream of the established connection
+		streamCtx, cancelStream := context.WithCancel(context.WithoutCancel(ctx))
+		stop := context.AfterFunc(ctx, cancelStream)
+		req, err := http.NewRequestWithContext(streamCtx, "GET", reqURL.String(), nil)
 		if err != nil {
 			return nil, err
 		}
@@ -195,9 +198,14 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		req.Header.Set("Accept", "text/event-stream")
 
 		resp, err := httpConn.client.Do(req)
+		cancelled := !stop()
 		if err != nil {
 			return nil, err
 		}
+		if cancelled {
+			_ = resp.Body.Close()
+			return nil, ctx.Err()
+		}
 		if resp.StatusCode != 200 {
 			_ = resp.Body.Close()
 			return nil, fmt.Errorf("%v %v -> %v", req.Method, req.URL.String(), resp.Status)
-- 
2.43.0


From a42aa489d6b9ce6dbbb77eabb8189947861c88b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:37 +0000
Subject: [PATCH 37/57] fix: panics in marshalers of the user don't crash the
 process

Both protocols now make them to errors, also when reading JSON and writing, as when reading MessagePack.
---
 jsonhubprotocol.go        | 7 ++++---
 messagepackhubprotocol.go | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index eb158d3..1c95dc2 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -49,7 +49,8 @@ func (j *jsonError) Error() string {
 }
 
 // UnmarshalArgument unmarshals a json.RawMessage depending on the specified value type into value
-func (j *jsonHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) error {
+func (j *jsonHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) (err error) {
+	defer recoverMarshalPanic(&err)
 	rawSrc, ok := src.(json.RawMessage)
 	if !ok {
 		return fmt.Errorf("invalid source %#v for UnmarshalArgument", src)
@@ -235,9 +236,9 @@ func readHandshake(reader io.Reader) <-chan handshakeResult {
 }
 
 // WriteMessage writes a message as JSON to the specified writer
-func (j *jsonHubProtocol) WriteMessage(message interface{}, writer io.Writer) error {
+func (j *jsonHubProtocol) WriteMessage(message interface{}, writer io.Writer) (err error) {
+	defer recoverMarshalPanic(&err)
 	var b []byte
-	var err error
 	if marshaler, ok := message.(json.Marshaler); ok {
 		b, err = marshaler.MarshalJSON()
 	} else {
diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 34b71fe..fc2758a 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -280,7 +280,8 @@ func (m *messagePackHubProtocol) decodeInvocationID(decoder *msgpack.Decoder) (s
 	return decoder.DecodeString()
 }
 
-func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Writer) error {
+func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Writer) (err error) {
+	defer recoverMarshalPanic(&err)
 	// Encode message body
 	buf := &bytes.Buffer{}
 	encoder := msgpack.NewEncoder(buf)
@@ -396,7 +397,7 @@ func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Wri
 	}
 	_ = m.dbg.Log(evt, "Write", msg, fmt.Sprintf("%#v", message))
 	_, _ = frameBuf.ReadFrom(buf)
-	_, err := frameBuf.WriteTo(writer)
+	_, err = frameBuf.WriteTo(writer)
 	return err
 }
 
-- 
2.43.0


From 2c4eddefea4036cfb84b3749181072fc9a986aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 38/57] fix: completions with a result kind beyond the range of
 int8 are invalid

---
 messagepackhubprotocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index fc2758a..cd3cb7c 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -203,7 +203,7 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (message interf
 		if err != nil {
 			return nil, err
 		}
-		resultKind, err := decoder.DecodeInt8()
+		resultKind, err := decoder.DecodeInt()
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 790451cc82fd1f3f095264393d6c728d1411999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:02 +0000
Subject: [PATCH 39/57] fix: a client does not receive messages any more after
 Stop

---
 hubconnection.go | 12 +++++-------
 loop.go          |  3 +++
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index b236b75..9d5baab 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -118,7 +118,7 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	}()
 
 	p := make([]byte, c.maximumReceiveMessageSize)
-	go func(ctx context.Context, connection io.Reader, writer *io.PipeWriter, recvChan chan<- receiveResult, writerDone chan<- struct{}) {
+	go func(ctx context.Context, connection io.Reader, writer *io.PipeWriter, writerDone chan<- struct{}) {
 	loop:
 		for {
 			select {
@@ -128,11 +128,8 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 				n, err := connection.Read(p)
 				if n > 0 {
 					if _, err := writer.Write(p[:n]); err != nil {
-						select {
-						case recvChan <- receiveResult{err: err}:
-						case <-ctx.Done():
-							break loop
-						}
+						// The parser has ended
+						break loop
 					}
 				}
 				if err != nil {
@@ -145,9 +142,10 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 		}
 		// The pipe writer is done
 		close(writerDone)
-	}(c.ctx, c.connection, writer, recvChan, writerDone)
+	}(c.ctx, c.connection, writer, writerDone)
 	// parse
 	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult, writerDone <-chan struct{}) {
+		defer close(recvChan)
 		remainBuf := bytes.Buffer{}
 		_, _ = remainBuf.Write(c.received)
 	loop:
diff --git a/loop.go b/loop.go
index 427f100..6868db3 100644
--- a/loop.go
+++ b/loop.go
@@ -73,6 +73,9 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 				break loop
 			}
 		}
+		// Wait until the connection has stopped receiving
+		for range recv {
+		}
 	}()
 	timeoutTicker := time.NewTicker(l.party.timeout())
 	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
-- 
2.43.0


From 7d3fc79494e24908fb7d21f50cfdcae5967d5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:21 +0000
Subject: [PATCH 40/57] fix: the answer to a call whose invocation could not be
 sent does not crash the client

---
 invokeclient.go | 70 ++++++++++++++++++-------------------------------
 loop.go         |  2 +-
 streamclient.go | 10 +++----
 3 files changed, 31 insertions(+), 51 deletions(-)

diff --git a/invokeclient.go b/invokeclient.go
index 56db459..3cb6c82 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -4,23 +4,20 @@ import (
 	"errors"
 	"fmt"
 	"sync"
-	"time"
 )
 
 type invokeClient struct {
-	mx                 sync.Mutex
-	resultChans        map[string]invocationResultChans
-	ended              bool
-	protocol           hubProtocol
-	chanReceiveTimeout time.Duration
+	mx          sync.Mutex
+	resultChans map[string]invocationResultChans
+	ended       bool
+	protocol    hubProtocol
 }
 
-func newInvokeClient(protocol hubProtocol, chanReceiveTimeout time.Duration) *invokeClient {
+func newInvokeClient(protocol hubProtocol) *invokeClient {
 	return &invokeClient{
-		mx:                 sync.Mutex{},
-		resultChans:        make(map[string]invocationResultChans),
-		protocol:           protocol,
-		chanReceiveTimeout: chanReceiveTimeout,
+		mx:          sync.Mutex{},
+		resultChans: make(map[string]invocationResultChans),
+		protocol:    protocol,
 	}
 }
 
@@ -80,42 +77,27 @@ func (i *invokeClient) handlesInvocationID(invocationID string) bool {
 }
 
 func (i *invokeClient) receiveCompletionItem(completion completionMessage) error {
-	defer i.deleteInvocation(completion.InvocationID)
 	i.mx.Lock()
 	ir, ok := i.resultChans[completion.InvocationID]
+	// From now on nobody else uses or closes the channels. They have room for the one value which is sent here
+	delete(i.resultChans, completion.InvocationID)
 	i.mx.Unlock()
-	if ok {
-		if completion.Error != "" {
-			done := make(chan struct{})
-			go func() {
-				ir.errChan <- errors.New(completion.Error)
-				done <- struct{}{}
-			}()
-			select {
-			case <-done:
-				return nil
-			case <-time.After(i.chanReceiveTimeout):
-				return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client sent error", i.chanReceiveTimeout)}
-			}
-		}
-		if completion.Result != nil {
-			var result interface{}
-			if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
-				return err
-			}
-			done := make(chan struct{})
-			go func() {
-				ir.resultChan <- result
-				close(done)
-			}()
-			select {
-			case <-done:
-				return nil
-			case <-time.After(i.chanReceiveTimeout):
-				return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client sent value", i.chanReceiveTimeout)}
-			}
-		}
+	if !ok {
+		return fmt.Errorf(`unknown completion id "%v"`, completion.InvocationID)
+	}
+	defer close(ir.errChan)
+	defer close(ir.resultChan)
+	if completion.Error != "" {
+		ir.errChan <- errors.New(completion.Error)
 		return nil
 	}
-	return fmt.Errorf(`unknown completion id "%v"`, completion.InvocationID)
+	if completion.Result != nil {
+		var result interface{}
+		if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
+			ir.errChan <- err
+			return err
+		}
+		ir.resultChan <- result
+	}
+	return nil
 }
diff --git a/loop.go b/loop.go
index 6868db3..41dc3cc 100644
--- a/loop.go
+++ b/loop.go
@@ -36,7 +36,7 @@ func newLoop(p Party, conn Connection, protocol hubProtocol, received []byte) *l
 		party:        p,
 		protocol:     protocol,
 		hubConn:      hubConn,
-		invokeClient: newInvokeClient(protocol, p.chanReceiveTimeout()),
+		invokeClient: newInvokeClient(protocol),
 		streamer:     &streamer{conn: hubConn, maxCancels: p.maxConcurrentStreams()},
 		streamClient: newStreamClient(protocol, p.chanReceiveTimeout(), p.streamBufferCapacity(), p.maxConcurrentStreams()),
 		info:         pInfo,
diff --git a/streamclient.go b/streamclient.go
index a217d08..c045238 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -62,6 +62,7 @@ func (c *streamClient) deleteUpstreamChannel(invocationID string) {
 		upChan.Close()
 		delete(c.upstreamChannels, invocationID)
 	}
+	delete(c.runningStreams, invocationID)
 	c.mx.Unlock()
 }
 
@@ -119,7 +120,7 @@ func (c *streamClient) handlesInvocationID(invocationID string) bool {
 
 func (c *streamClient) receiveCompletionItem(completion completionMessage, invokeClient *invokeClient) error {
 	c.mx.Lock()
-	channel, ok := c.upstreamChannels[completion.InvocationID]
+	_, ok := c.upstreamChannels[completion.InvocationID]
 	c.mx.Unlock()
 	if ok {
 		var err error
@@ -145,13 +146,10 @@ func (c *streamClient) receiveCompletionItem(completion completionMessage, invok
 				}
 			}
 		}
-		channel.Close()
+		// Close the channel, but not when PullStream has done this meanwhile
+		c.deleteUpstreamChannel(completion.InvocationID)
 		// Close error channel
 		invokeClient.deleteInvocation(completion.InvocationID)
-		c.mx.Lock()
-		delete(c.upstreamChannels, completion.InvocationID)
-		delete(c.runningStreams, completion.InvocationID)
-		c.mx.Unlock()
 		return err
 	}
 	return fmt.Errorf("received completion with unknown id %v", completion.InvocationID)
-- 
2.43.0


From ae940aa24bd1b5857999690320ec5dea7630b5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:44 +0000
Subject: [PATCH 41/57] fix: a call whose result can't be read ends with an
 error

---
 invokeclient.go | 19 ++++++++++++++-----
 streamclient.go |  3 +++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/invokeclient.go b/invokeclient.go
index 3cb6c82..f873604 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -26,10 +26,10 @@ type invocationResultChans struct {
 	errChan    chan error
 }
 
-// end ends an invocation for which no completion will be received
-func (r invocationResultChans) end() {
+// end ends an invocation which has no result
+func (r invocationResultChans) end(err error) {
 	close(r.resultChan)
-	r.errChan <- errors.New("message loop ended")
+	r.errChan <- err
 	close(r.errChan)
 }
 
@@ -40,7 +40,7 @@ func (i *invokeClient) newInvocation(id string) (chan interface{}, chan error) {
 		errChan:    make(chan error, 1),
 	}
 	if i.ended {
-		r.end()
+		r.end(errors.New("message loop ended"))
 	} else {
 		i.resultChans[id] = r
 	}
@@ -58,11 +58,20 @@ func (i *invokeClient) deleteInvocation(id string) {
 	i.mx.Unlock()
 }
 
+func (i *invokeClient) failInvocation(id string, err error) {
+	i.mx.Lock()
+	if r, ok := i.resultChans[id]; ok {
+		delete(i.resultChans, id)
+		r.end(err)
+	}
+	i.mx.Unlock()
+}
+
 func (i *invokeClient) cancelAllInvokes() {
 	i.mx.Lock()
 	i.ended = true
 	for _, r := range i.resultChans {
-		r.end()
+		r.end(errors.New("message loop ended"))
 	}
 	// Clear map
 	i.resultChans = make(map[string]invocationResultChans)
diff --git a/streamclient.go b/streamclient.go
index c045238..924e838 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -146,6 +146,9 @@ func (c *streamClient) receiveCompletionItem(completion completionMessage, invok
 				}
 			}
 		}
+		if err != nil {
+			invokeClient.failInvocation(completion.InvocationID, err)
+		}
 		// Close the channel, but not when PullStream has done this meanwhile
 		c.deleteUpstreamChannel(completion.InvocationID)
 		// Close error channel
-- 
2.43.0


From a932f8dd497cc250e1cd080871b365f8952688bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 42/57] fix: a hub method which closes its stream channel does
 not crash the server

---
 streamclient.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/streamclient.go b/streamclient.go
index 924e838..5148487 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -59,13 +59,19 @@ func (c *streamClient) newUpstreamChannel(invocationID string) <-chan interface{
 func (c *streamClient) deleteUpstreamChannel(invocationID string) {
 	c.mx.Lock()
 	if upChan, ok := c.upstreamChannels[invocationID]; ok {
-		upChan.Close()
+		closeSave(upChan)
 		delete(c.upstreamChannels, invocationID)
 	}
 	delete(c.runningStreams, invocationID)
 	c.mx.Unlock()
 }
 
+func closeSave(upChan reflect.Value) {
+	// The hub method might have closed the channel
+	defer func() { _ = recover() }()
+	upChan.Close()
+}
+
 func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 	c.mx.Lock()
 	defer c.mx.Unlock()
-- 
2.43.0


From 72972f42163ac6101ecc0667ad6da476ea995f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:19 +0000
Subject: [PATCH 43/57] fix: the clients of the sending server get messages
 sent over Redis

---
 ext/redishublifetimemnager.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 2be652b..ea7cc4e 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -23,11 +23,6 @@ const (
 	// redisConnectionGroupsPrefix = redisChannelPrefix + "connectiongroups:" // Not strictly needed with Redis Sets for membership; local cache is sufficient.
 )
 
-// SECURITY NOTE: This implementation includes protection against infinite loops
-// by tracking the source instance ID and skipping self-messages.
-// Without this protection, Redis Pub/Sub would cause infinite message loops
-// where each instance processes its own published messages.
-
 // redisInvocation represents a message sent over Redis for hub invocations
 type redisInvocation struct {
 	Target         string        `json:"t"`
@@ -35,7 +30,7 @@ type redisInvocation struct {
 	ExcludedIDs    []string      `json:"e,omitempty"` // Optional: Connection IDs to exclude (e.g., for SendAllExcept)
 	GroupName      string        `json:"g,omitempty"` // Used for group messages to identify the target group
 	ConnectionID   string        `json:"c,omitempty"` // Used for client messages to identify the target client
-	SourceInstance string        `json:"s,omitempty"` // Source instance ID to prevent infinite loops
+	SourceInstance string        `json:"s,omitempty"` // Source instance ID (can be useful for debugging)
 }
 
 // redisHubLifetimeManager manages hub connections using Redis Pub/Sub and Sets
@@ -132,11 +127,8 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 		return
 	}
 
-	// CRITICAL: Skip messages from this instance to prevent infinite loops
-	if invocation.SourceInstance == r.instanceID {
-		level.Debug(r.logger).Log("event", "skipped_self_message", "sourceInstance", invocation.SourceInstance, "target", invocation.Target)
-		return
-	}
+	// Messages of this instance are handled like those of the others: they are for its clients, too.
+	// Handling a message never publishes one, so there is no loop.
 
 	// Create exclusion map for faster lookup
 	excludedMap := make(map[string]struct{}, len(invocation.ExcludedIDs))
-- 
2.43.0


From b8c387bb67cc624489517e1f5ec391da4ff39f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:20 +0000
Subject: [PATCH 44/57] fix: messages to all and to groups sent over Redis
 don't ask for a completion

---
 ext/redishublifetimemnager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index ea7cc4e..1cf5325 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -196,7 +196,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 				// Send the invocation asynchronously
 				go func(conn signalr.HubConnection, connID string) {
 					// Timeout removed as per request
-					err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+					err := conn.SendInvocation("", invocation.Target, invocation.Args)
 					if err != nil {
 						level.Error(r.logger).Log("event", "send_invocation_failed", "target", "group", "groupName", groupName, "connectionId", connID, "err", err)
 					} else {
@@ -232,7 +232,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 			go func(conn signalr.HubConnection, connID string) {
 				_, cancel := context.WithTimeout(r.ctx, 5*time.Second)
 				defer cancel()
-				err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+				err := conn.SendInvocation("", invocation.Target, invocation.Args)
 				if err != nil {
 					level.Error(r.logger).Log("event", "send_invocation_failed", "target", "all", "connectionId", connID, "err", err)
 				} else {
-- 
2.43.0


From 5ab8f5b01d223fcbc72270f0b8360fabdb37ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:42 +0000
Subject: [PATCH 45/57] fix: a message to the client without id is not sent to
 all clients

---
 ext/redishublifetimemnager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 1cf5325..2b95c52 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -334,6 +334,10 @@ func (r *redisHubLifetimeManager) InvokeClient(connectionID string, target strin
 	//   // Let's stick to the Redis publish model for simplicity and consistency.
 	// }
 
+	if connectionID == "" {
+		// No client has this ID, and a message without ConnectionID is for all clients
+		return
+	}
 	msg := redisInvocation{Target: target, Args: args, ConnectionID: connectionID, SourceInstance: r.instanceID}
 	payload, err := json.Marshal(msg)
 	if err != nil {
-- 
2.43.0


From 10578779e07febb00f7e0aa267eea4e3b907222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:42 +0000
Subject: [PATCH 46/57] fix: a group with an empty name gets the messages sent
 over Redis

---
 ext/redishublifetimemnager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 2b95c52..9c3062c 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -168,8 +168,8 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	}
 
 	// 2. Message for a group (sent via InvokeGroup)
-	if invocation.GroupName != "" && strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
-		groupName := invocation.GroupName // Group name is in the payload
+	if strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
+		groupName := invocation.GroupName // Group name is in the payload. It might be empty
 		level.Debug(r.logger).Log("event", "processing_group_message", "group", groupName, "method", invocation.Target)
 
 		// Iterate through local connections ONLY
-- 
2.43.0


From 80ec9f67da03db6132a69de97039c43214fcb2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:05 +0000
Subject: [PATCH 47/57] fix: integer arguments sent over Redis stay exact

---
 ext/redishublifetimemnager.go | 53 +++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 9c3062c..4fe6105 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -1,8 +1,10 @@
 package ext
 
 import (
+	"bytes"
 	"context"
 	"encoding/json"
+	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -25,12 +27,51 @@ const (
 
 // redisInvocation represents a message sent over Redis for hub invocations
 type redisInvocation struct {
-	Target         string        `json:"t"`
-	Args           []interface{} `json:"a"`
-	ExcludedIDs    []string      `json:"e,omitempty"` // Optional: Connection IDs to exclude (e.g., for SendAllExcept)
-	GroupName      string        `json:"g,omitempty"` // Used for group messages to identify the target group
-	ConnectionID   string        `json:"c,omitempty"` // Used for client messages to identify the target client
-	SourceInstance string        `json:"s,omitempty"` // Source instance ID (can be useful for debugging)
+	Target         string    `json:"t"`
+	Args           redisArgs `json:"a"`
+	ExcludedIDs    []string  `json:"e,omitempty"` // Optional: Connection IDs to exclude (e.g., for SendAllExcept)
+	GroupName      string    `json:"g,omitempty"` // Used for group messages to identify the target group
+	ConnectionID   string    `json:"c,omitempty"` // Used for client messages to identify the target client
+	SourceInstance string    `json:"s,omitempty"` // Source instance ID (can be useful for debugging)
+}
+
+// redisArgs are the arguments of an invocation. Integers stay exact.
+type redisArgs []interface{}
+
+func (a *redisArgs) UnmarshalJSON(data []byte) error {
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	if err := decoder.Decode((*[]interface{})(a)); err != nil {
+		return err
+	}
+	for i, arg := range *a {
+		(*a)[i] = exactNumbers(arg)
+	}
+	return nil
+}
+
+// exactNumbers replaces the json.Number in value by int64 or uint64, where possible, or float64
+func exactNumbers(value interface{}) interface{} {
+	switch v := value.(type) {
+	case json.Number:
+		if i, err := strconv.ParseInt(v.String(), 10, 64); err == nil {
+			return i
+		}
+		if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return u
+		}
+		f, _ := v.Float64()
+		return f
+	case []interface{}:
+		for i := range v {
+			v[i] = exactNumbers(v[i])
+		}
+	case map[string]interface{}:
+		for k := range v {
+			v[k] = exactNumbers(v[k])
+		}
+	}
+	return value
 }
 
 // redisHubLifetimeManager manages hub connections using Redis Pub/Sub and Sets
-- 
2.43.0


From deb09784e3e4ad6f1664ee068656552404aeae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:25 +0000
Subject: [PATCH 48/57] fix: the handshake request of a stopped client is not
 written to a connection which is gone

---
 client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index c4954ae..48797b7 100644
--- a/client.go
+++ b/client.go
@@ -616,9 +616,11 @@ func (c *client) sendHandshakeRequest() error {
 	request := fmt.Sprintf("{\"protocol\":\"%v\",\"version\":1}\u001e", c.format)
 	ctx, cancelWrite := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelWrite()
+	// When ctx ends, c.conn might be reset before the write starts
+	conn := c.conn
 	_, err := ReadWriteWithContext(ctx,
 		func() (int, error) {
-			return c.conn.Write([]byte(request))
+			return conn.Write([]byte(request))
 		}, func() {})
 	if err != nil {
 		_ = info.Log(evt, "handshake sent", "msg", request, "error", err)
-- 
2.43.0


From 7d3ef3141ecb0da39c6188749dcbef7b3bf59d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:25 +0000
Subject: [PATCH 49/57] fix: no data race when the error response of a
 handshake times out

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 81680e5..bc07a29 100644
--- a/server.go
+++ b/server.go
@@ -303,10 +303,10 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 	} else {
 		err = fmt.Errorf("protocol %v not supported", request.Protocol)
 		_ = info.Log(evt, "protocol requested", "error", err)
+		// The name of the protocol might contain characters which JSON strings have to escape
+		errorHandshakeResponse, jsonErr := json.Marshal(handshakeResponse{Error: err.Error()})
 		if _, respErr := ReadWriteWithContext(ctx,
 			func() (int, error) {
-				// The name of the protocol might contain characters which JSON strings have to escape
-				errorHandshakeResponse, jsonErr := json.Marshal(handshakeResponse{Error: err.Error()})
 				if jsonErr != nil {
 					return 0, jsonErr
 				}
-- 
2.43.0


From 7ecbbf87de9482b6146a3b7ba8b6920f1c847930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:40 +0000
Subject: [PATCH 50/57] fix: no data race between a panic in a hub's lifecycle
 methods and the ends of other connections

---
 server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index bc07a29..0cff016 100644
--- a/server.go
+++ b/server.go
@@ -10,6 +10,7 @@ import (
 	"reflect"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 
 	"github.com/go-kit/log"
 )
@@ -47,7 +48,7 @@ type server struct {
 	lifetimeManager         HubLifetimeManager
 	defaultHubClients       *defaultHubClients
 	groupManager            GroupManager
-	reconnectAllowed           bool
+	reconnectDenied            atomic.Bool
 	transports                 []TransportType
 	negotiationConnectionLimit int
 }
@@ -62,7 +63,6 @@ func NewServer(ctx context.Context, options ...func(Party) error) (Server, error
 		connectionHubs:            make(map[string]HubInterface),
 		// Do NOT initialize defaultHubClients or groupManager yet
 		partyBase:                  newPartyBase(ctx, info, dbg),
-		reconnectAllowed:           true,
 		negotiationConnectionLimit: 1000,
 	}
 	// apply any option including lifetime manager, logger, etc.
@@ -202,12 +202,12 @@ func (s *server) invocationTarget(conn HubConnection) interface{} {
 }
 
 func (s *server) allowReconnect() bool {
-	return s.reconnectAllowed
+	return !s.reconnectDenied.Load()
 }
 
 func (s *server) recoverHubLifeCyclePanic() {
 	if err := recover(); err != nil {
-		s.reconnectAllowed = false
+		s.reconnectDenied.Store(true)
 		info, dbg := s.prefixLoggers("")
 		_ = info.Log(evt, "panic in hub lifecycle", "error", err, react, "close connection, allow no reconnect")
 		_ = dbg.Log(evt, "panic in hub lifecycle", "error", err, react, "close connection, allow no reconnect", "stack", string(debug.Stack()))
-- 
2.43.0


From 9a69e5eb477c4b68f1560a5cca44b1a88bc69484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:04 +0000
Subject: [PATCH 51/57] fix: groups of a connection can be changed concurrently
 with the Redis lifetime manager

---
 ext/redishublifetimemnager.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 4fe6105..90037cc 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -76,8 +76,9 @@ func exactNumbers(value interface{}) interface{} {
 
 // redisHubLifetimeManager manages hub connections using Redis Pub/Sub and Sets
 type redisHubLifetimeManager struct {
-	clients          sync.Map // Map[string]signalr.HubConnection - Local connections on this server instance
-	connectionGroups sync.Map // Map[string]map[string]struct{} - Local cache: connectionID -> set of groupNames this connection belongs to *locally*
+	clients          sync.Map   // Map[string]signalr.HubConnection - Local connections on this server instance
+	connectionGroups sync.Map   // Map[string]map[string]struct{} - Local cache: connectionID -> set of groupNames this connection belongs to *locally*
+	groupsMx         sync.Mutex // Guards the sets of group names in connectionGroups
 	redisClient      *redis.Client
 	pubSub           *redis.PubSub
 	logger           signalr.StructuredLogger
@@ -313,13 +314,21 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 			return // Cannot proceed if cache is corrupt
 		}
 
-		if len(groupSet) > 0 {
+		// AddToGroup might have got the set before
+		r.groupsMx.Lock()
+		groupNames := make([]string, 0, len(groupSet))
+		for groupName := range groupSet {
+			groupNames = append(groupNames, groupName)
+		}
+		r.groupsMx.Unlock()
+
+		if len(groupNames) > 0 {
 			// Use a pipeline for efficiency if removing from multiple groups
 			pipe := r.redisClient.Pipeline()
 			ctx, cancel := context.WithTimeout(r.ctx, 5*time.Second) // Timeout for Redis operation
 			defer cancel()
 
-			for groupName := range groupSet {
+			for _, groupName := range groupNames {
 				redisKey := r.groupMembershipKey(groupName)
 				pipe.SRem(ctx, redisKey, connectionID)
 				level.Debug(r.logger).Log("event", "queueing_redis_srem", "group", groupName, "connectionId", connectionID)
@@ -330,7 +339,7 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 				level.Error(r.logger).Log("event", "redis_srem_pipeline_failed", "connectionId", connectionID, "err", err)
 				// Log the error, but the connection is already considered disconnected locally.
 			} else if err == nil {
-				level.Debug(r.logger).Log("event", "executed_redis_srem_pipeline", "connectionId", connectionID, "group_count", len(groupSet))
+				level.Debug(r.logger).Log("event", "executed_redis_srem_pipeline", "connectionId", connectionID, "group_count", len(groupNames))
 			}
 		}
 	} else {
@@ -459,8 +468,7 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 		// We could try loading again or just log a warning.
 		level.Warn(r.logger).Log("event", "group_cache_not_found_on_add", "connectionId", connectionID, "group", groupName)
 		// Initialize it defensively?
-		groupsRaw = make(map[string]struct{})
-		r.connectionGroups.Store(connectionID, groupsRaw)
+		groupsRaw, _ = r.connectionGroups.LoadOrStore(connectionID, make(map[string]struct{}))
 	}
 
 	groupSet, castOK := groupsRaw.(map[string]struct{})
@@ -469,7 +477,9 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 		// Don't proceed with Redis if local cache is bad.
 		return
 	}
+	r.groupsMx.Lock()
 	groupSet[groupName] = struct{}{} // Add to the local set
+	r.groupsMx.Unlock()
 
 	// Add connection ID to the Redis Set for the group
 	redisKey := r.groupMembershipKey(groupName)
@@ -482,7 +492,9 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 		// For simplicity, we leave it in the local cache. If Redis fails,
 		// the connection might not receive group messages, but disconnect
 		// will still try to clean up the (potentially non-existent) Redis entry.
+		r.groupsMx.Lock()
 		delete(groupSet, groupName) // Rollback local add on Redis failure
+		r.groupsMx.Unlock()
 	} else {
 		level.Debug(r.logger).Log("event", "added_to_redis_group", "group", groupName, "connectionId", connectionID)
 	}
@@ -497,10 +509,12 @@ func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID
 	if groupsRaw, ok := r.connectionGroups.Load(connectionID); ok {
 		groupSet, castOK := groupsRaw.(map[string]struct{})
 		if castOK {
+			r.groupsMx.Lock()
 			if _, exists := groupSet[groupName]; exists {
 				delete(groupSet, groupName)
 				removedLocally = true
 			}
+			r.groupsMx.Unlock()
 		} else {
 			level.Error(r.logger).Log("event", "invalid_group_cache_type_on_remove", "connectionId", connectionID)
 			// Don't attempt Redis removal if local cache is bad? Or proceed anyway?
-- 
2.43.0


From 8e9f24577dd5852bc10a107daa8dafdd66be644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:47 +0000
Subject: [PATCH 52/57] fix: a client can be started while it is stopped

---
 party.go | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/party.go b/party.go
index f19d10d..e0756d0 100644
--- a/party.go
+++ b/party.go
@@ -59,7 +59,7 @@ type Party interface {
 	maximumReceiveMessageSize() uint
 	setMaximumReceiveMessageSize(size uint)
 
-	waitGroup() *sync.WaitGroup
+	waitGroup() *waitGroup
 }
 
 func newPartyBase(parentContext context.Context, info log.Logger, dbg log.Logger) partyBase {
@@ -99,7 +99,7 @@ type partyBase struct {
 	methodNamesByAlternateName map[string]string
 	info                       StructuredLogger
 	dbg                        StructuredLogger
-	wg                         sync.WaitGroup
+	wg                         waitGroup
 }
 
 func (p *partyBase) Context() context.Context {
@@ -201,7 +201,7 @@ func (p *partyBase) loggers() (info StructuredLogger, debug StructuredLogger) {
 	return p.info, p.dbg
 }
 
-func (p *partyBase) waitGroup() *sync.WaitGroup {
+func (p *partyBase) waitGroup() *waitGroup {
 	return &p.wg
 }
 
@@ -216,3 +216,38 @@ func (p *partyBase) getMethodNameByAlternateName(alternateName string) (methodNa
 	}
 	return methodName
 }
+
+// waitGroup is a sync.WaitGroup which allows to call Add concurrently with Wait, even when the counter is zero.
+// This happens when a client is started while it is stopped.
+type waitGroup struct {
+	mx   sync.Mutex
+	n    int
+	done chan struct{} // closed when the counter gets zero
+}
+
+func (w *waitGroup) Add(n int) {
+	w.mx.Lock()
+	defer w.mx.Unlock()
+	if w.n == 0 {
+		w.done = make(chan struct{})
+	}
+	w.n += n
+}
+
+func (w *waitGroup) Done() {
+	w.mx.Lock()
+	defer w.mx.Unlock()
+	w.n--
+	if w.n == 0 {
+		close(w.done)
+	}
+}
+
+func (w *waitGroup) Wait() {
+	w.mx.Lock()
+	n, done := w.n, w.done
+	w.mx.Unlock()
+	if n > 0 {
+		<-done
+	}
+}
-- 
2.43.0


From 916dda0d7b90528b1cb3c988e240eb83c672a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:10 +0000
Subject: [PATCH 53/57] fix: a deeply nested MessagePack message ends the
 process

---
 messagepackhubprotocol.go | 53 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index cd3cb7c..20022ca 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -26,6 +26,9 @@ func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *byte
 	}
 	messages := make([]interface{}, 0)
 	for _, frame := range frames {
+		if err := checkNesting(frame); err != nil {
+			return messages, err
+		}
 		message, err := m.parseMessage(bytes.NewBuffer(frame))
 		if err != nil {
 			return messages, err
@@ -95,6 +98,56 @@ func (m *messagePackHubProtocol) parseFrames(buf *bytes.Buffer) ([][]byte, error
 	}
 }
 
+// maxNesting is the limit for the nesting of arrays and maps in a message. encoding/json has the same limit
+const maxNesting = 10000
+
+// checkNesting returns an error if arrays and maps are nested too deep. They are decoded recursively,
+// so the stack might overflow, and this can't be recovered.
+func checkNesting(frame []byte) error {
+	if len(frame) <= maxNesting {
+		return nil
+	}
+	decoder := msgpack.NewDecoder(bytes.NewReader(frame))
+	// The number of missing values for each of the open arrays and maps
+	open := make([]int, 0)
+	for {
+		code, err := decoder.PeekCode()
+		if err != nil {
+			// End of frame
+			return nil
+		}
+		valuesLen := 0
+		switch {
+		case msgpcode.IsFixedArray(code), code == msgpcode.Array16, code == msgpcode.Array32:
+			valuesLen, err = decoder.DecodeArrayLen()
+		case msgpcode.IsFixedMap(code), code == msgpcode.Map16, code == msgpcode.Map32:
+			valuesLen, err = decoder.DecodeMapLen()
+			valuesLen *= 2
+		default:
+			err = decoder.Skip()
+		}
+		if err != nil {
+			// parseMessage will find this error, too
+			return nil
+		}
+		if valuesLen > 0 {
+			open = append(open, valuesLen)
+			if len(open) > maxNesting {
+				return fmt.Errorf("messagepack frame is nested deeper than %d", maxNesting)
+			}
+			continue
+		}
+		// A value is complete. It might have been the last one of the arrays or maps it is in
+		for last := len(open) - 1; last >= 0; last-- {
+			open[last]--
+			if open[last] > 0 {
+				break
+			}
+			open = open[:last]
+		}
+	}
+}
+
 func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (message interface{}, err error) {
 	// Maps with keys which are no valid map keys in Go let the decoder panic
 	defer recoverMarshalPanic(&err)
-- 
2.43.0


From 1e9110aa00a3f3c7c071973cb1ce24246d50ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:39 +0000
Subject: [PATCH 54/57] fix: intervals which are not positive end the process

---
 options.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/options.go b/options.go
index e02ed6d..8e1921a 100644
--- a/options.go
+++ b/options.go
@@ -15,6 +15,9 @@ import (
 // Default is 30 seconds.
 func TimeoutInterval(timeout time.Duration) func(Party) error {
 	return func(p Party) error {
+		if timeout <= 0 {
+			return fmt.Errorf("unsupported TimeoutInterval %v", timeout)
+		}
 		p.setTimeout(timeout)
 		return nil
 	}
@@ -27,6 +30,9 @@ func TimeoutInterval(timeout time.Duration) func(Party) error {
 // see https://github.com/dotnet/aspnetcore/blob/master/src/SignalR/docs/specs/HubProtocol.md
 func HandshakeTimeout(timeout time.Duration) func(Party) error {
 	return func(p Party) error {
+		if timeout <= 0 {
+			return fmt.Errorf("unsupported HandshakeTimeout %v", timeout)
+		}
 		p.setHandshakeTimeout(timeout)
 		return nil
 	}
@@ -39,6 +45,9 @@ func HandshakeTimeout(timeout time.Duration) func(Party) error {
 // Default is 15 seconds.
 func KeepAliveInterval(interval time.Duration) func(Party) error {
 	return func(p Party) error {
+		if interval <= 0 {
+			return fmt.Errorf("unsupported KeepAliveInterval %v", interval)
+		}
 		p.setKeepAliveInterval(interval)
 		return nil
 	}
-- 
2.43.0


From 8d9ee0459ef299b9e6aa4566e5707f2f2c334314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:49 +0000
Subject: [PATCH 55/57] fix: connections of a server which ends stay in their
 Redis groups

---
 ext/redishublifetimemnager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 90037cc..a54b12d 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -325,7 +325,8 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 		if len(groupNames) > 0 {
 			// Use a pipeline for efficiency if removing from multiple groups
 			pipe := r.redisClient.Pipeline()
-			ctx, cancel := context.WithTimeout(r.ctx, 5*time.Second) // Timeout for Redis operation
+			// Timeout for Redis operation. The groups have to be left also when the server has ended
+			ctx, cancel := context.WithTimeout(context.WithoutCancel(r.ctx), 5*time.Second)
 			defer cancel()
 
 			for _, groupName := range groupNames {
-- 
2.43.0


From b4d46eb1a142a5b36bdfa565c46f33bda10c539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:01 +0000
Subject: [PATCH 56/57] fix: connections stay in Redis groups which other
 servers have added them to

---
 ext/redishublifetimemnager.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index a54b12d..187dee9 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -21,8 +21,8 @@ const (
 	redisAllChannel         = redisChannelPrefix + "all"    // Channel for InvokeAll and InvokeClient messages
 	redisGroupChannelPrefix = redisChannelPrefix + "group:" // Channel for InvokeGroup messages
 	// redisClientChannelPrefix   = redisChannelPrefix + "client:" // Not used with current invoke approach
-	redisGroupMembershipPrefix = redisChannelPrefix + "groupmembers:" // Key prefix for Redis Sets storing group members (Set key: signalr:groupmembers:<groupName>, Value: {connectionID1, connectionID2, ...})
-	// redisConnectionGroupsPrefix = redisChannelPrefix + "connectiongroups:" // Not strictly needed with Redis Sets for membership; local cache is sufficient.
+	redisGroupMembershipPrefix  = redisChannelPrefix + "groupmembers:"     // Key prefix for Redis Sets storing group members (Set key: signalr:groupmembers:<groupName>, Value: {connectionID1, connectionID2, ...})
+	redisConnectionGroupsPrefix = redisChannelPrefix + "connectiongroups:" // Key prefix for Redis Sets storing the groups other instances have added a connection to. For the own connections, the local cache is sufficient.
 )
 
 // redisInvocation represents a message sent over Redis for hub invocations
@@ -322,18 +322,25 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 		}
 		r.groupsMx.Unlock()
 
+		// Timeout for Redis operations. The groups have to be left also when the server has ended
+		ctx, cancel := context.WithTimeout(context.WithoutCancel(r.ctx), 5*time.Second)
+		defer cancel()
+		// Other instances might have added the connection to groups
+		foreignNames, err := r.redisClient.SMembers(ctx, r.connectionGroupsKey(connectionID)).Result()
+		if err != nil {
+			level.Error(r.logger).Log("event", "redis_smembers_failed", "connectionId", connectionID, "err", err)
+		}
+		groupNames = append(groupNames, foreignNames...)
+
 		if len(groupNames) > 0 {
 			// Use a pipeline for efficiency if removing from multiple groups
 			pipe := r.redisClient.Pipeline()
-			// Timeout for Redis operation. The groups have to be left also when the server has ended
-			ctx, cancel := context.WithTimeout(context.WithoutCancel(r.ctx), 5*time.Second)
-			defer cancel()
-
 			for _, groupName := range groupNames {
 				redisKey := r.groupMembershipKey(groupName)
 				pipe.SRem(ctx, redisKey, connectionID)
 				level.Debug(r.logger).Log("event", "queueing_redis_srem", "group", groupName, "connectionId", connectionID)
 			}
+			pipe.Del(ctx, r.connectionGroupsKey(connectionID))
 
 			_, err := pipe.Exec(ctx)
 			if err != nil && err != redis.Nil { // redis.Nil might occur if pipeline was empty, ignore it
@@ -486,7 +493,14 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 	redisKey := r.groupMembershipKey(groupName)
 	ctx, cancel := context.WithTimeout(r.ctx, 2*time.Second) // Timeout for Redis op
 	defer cancel()
-	err := r.redisClient.SAdd(ctx, redisKey, connectionID).Err()
+	var err error
+	if _, local := r.clients.Load(connectionID); !local {
+		// The instance of the connection does not know about the group, but has to leave it when the connection ends
+		err = r.redisClient.SAdd(ctx, r.connectionGroupsKey(connectionID), groupName).Err()
+	}
+	if err == nil {
+		err = r.redisClient.SAdd(ctx, redisKey, connectionID).Err()
+	}
 	if err != nil {
 		level.Error(r.logger).Log("event", "redis_sadd_failed", "group", groupName, "connectionId", connectionID, "err", err)
 		// Rollback local cache add? Depends on consistency requirements.
@@ -564,6 +578,11 @@ func (r *redisHubLifetimeManager) groupMembershipKey(groupName string) string {
 	return redisGroupMembershipPrefix + groupName
 }
 
+// connectionGroupsKey returns the Redis key for the Set storing the groups other instances have added a connection to.
+func (r *redisHubLifetimeManager) connectionGroupsKey(connectionID string) string {
+	return redisConnectionGroupsPrefix + connectionID
+}
+
 // GetInstanceID returns the unique instance ID for debugging and monitoring purposes.
 func (r *redisHubLifetimeManager) GetInstanceID() string {
 	return r.instanceID
-- 
2.43.0


From ecf1584a9cac23641758c4eb03ca752b5b981b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:55 +0000
Subject: [PATCH 57/57] fix: closing a slow connection by its hub does not hold
 up other connections with the same hub

---
 hub.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hub.go b/hub.go
index cc46e3e..0c3fb60 100644
--- a/hub.go
+++ b/hub.go
@@ -82,6 +82,8 @@ func (h *Hub) OnDisconnected(string) {}
 
 func (h *Hub) Close(errorMessage string, allowReconnect bool) error {
 	h.cm.RLock()
-	defer h.cm.RUnlock()
-	return h.context.Close(errorMessage, allowReconnect)
+	ctx := h.context
+	h.cm.RUnlock()
+	// Closing might take its time, other connections with the same hub should not wait for it
+	return ctx.Close(errorMessage, allowReconnect)
 }
-- 
2.43.0

