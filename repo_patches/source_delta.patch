From 175fa63a045aaf94305b189878559c38c3f2acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 01/16] fix: read the whole reply to the protocol probe, and
 nothing more

The reply to the binary ping was taken from a single Read. An acknowledge
that TCP split over segments, or joined with the frames that follow it, was
classified as ASCII (and frames joined with it lost). The stand-alone
detector also took a CRLF terminated RDY for a binary panel.
---
 connecttopanel.go  | 32 ++++++++++++++++++++++++++++++--
 rawpanelhelpers.go |  6 +++---
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index e471b34..d5e7075 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -2,6 +2,7 @@ package rawpanellib
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"encoding/binary"
 	"io"
@@ -84,10 +85,10 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			log.Should(err)
 
 			// Prepare reception of the response (times out after two seconds)
-			byteArray := make([]byte, 1000)
 			err = conn.SetReadDeadline(time.Now().Add(2000 * time.Millisecond))
 			log.Should(err)
-			byteCount, err := conn.Read(byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+			byteArray, err := readProbeReply(conn) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+			byteCount := len(byteArray)
 			assumeASCII := false
 			binaryPanel := true
 			if err == nil {
@@ -239,3 +240,30 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 		}
 	}
 }
+
+// Reads what a panel replies to the binary ping, until the read deadline set on the connection.
+// TCP may split the reply over several segments or join it with whatever the panel sends next. So this reads exactly one length-prefixed frame if the reply begins like one, otherwise text up to the end of the line, and leaves all bytes that follow on the connection.
+// The error is only non-nil if there was no reply at all.
+func readProbeReply(conn net.Conn) ([]byte, error) {
+	reply := make([]byte, 4)
+	n, err := io.ReadFull(conn, reply)
+	reply = reply[:n]
+	if n == 0 {
+		return reply, err
+	}
+
+	if err == nil {
+		if payloadLength := binary.LittleEndian.Uint32(reply); payloadLength > 0 && payloadLength < 500000 {
+			payload := make([]byte, payloadLength)
+			n, _ = io.ReadFull(conn, payload)
+			return append(reply, payload[:n]...), nil
+		}
+	}
+
+	char := make([]byte, 1)
+	for err == nil && len(reply) < 1000 && bytes.IndexByte(reply, '\n') < 0 {
+		n, err = conn.Read(char)
+		reply = append(reply, char[:n]...)
+	}
+	return reply, nil
+}
diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 6f7f0c6..7b11ede 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -694,11 +694,10 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 
 	_, err = c.Write(pbdata) // Send "ping" and wait one second for a reply:
 	log.Should(err)
-	byteArray := make([]byte, 1000)
 	err = c.SetReadDeadline(time.Now().Add(2000 * time.Millisecond))
 	log.Should(err)
 
-	byteCount, err := c.Read(byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+	byteArray, err := readProbeReply(c) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
 	if err != nil {
 		log.WithError(err).Debug("tried to connected in binarymode failed, trying asciimode...")
 		log.Infoln("Using ASCII Protocol Mode for panel", panelIPAndPort)
@@ -707,7 +706,8 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 		return false
 	}
 
-	if byteCount >= 4 && (string(byteArray[0:4]) == "RDY\n" || string(byteArray[0:4]) == "map=") {
+	byteCount := len(byteArray)
+	if byteCount >= 4 && (string(byteArray[0:4]) == "RDY\n" || string(byteArray[0:4]) == "RDY\r" || string(byteArray[0:4]) == "map=") {
 		log.Debugln("Detected map or RDY message issued by UniSketch ASCII panels - we conclude ASCII")
 		_, err = c.Write([]byte("\n")) // Clearing an ASCII panels buffer with a newline since we sent it binary stuff
 		log.Should(err)
-- 
2.43.0


From 6a76d0342a5747526eace4bd82bf32c5b476815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 02/16] fix: time out on a frame that stalls inside its header

The 2 seconds deadline for incoming frames only covered the payload. A panel
that stopped sending after one to three header bytes kept the connection
occupied for ever.
---
 connecttopanel.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index d5e7075..2753aa3 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -180,7 +180,11 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				for {
 					conn.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 					headerArray := make([]byte, 4)
-					_, err := io.ReadFull(conn, headerArray) // Read 4 header bytes
+					_, err := io.ReadFull(conn, headerArray[:1]) // Wait for the first of 4 header bytes
+					if err == nil {
+						conn.SetReadDeadline(time.Now().Add(2 * time.Second)) // A frame has begun, so the rest of the header must follow within 2 seconds, just like the payload below
+						_, err = io.ReadFull(conn, headerArray[1:])
+					}
 					if err != nil {
 						log.Debugln("Binary: ", err)
 						break
-- 
2.43.0


From 847571096bb925efab2ecc9c789b6b7435646cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 03/16] fix: let the context interrupt a pending dial and the
 wait before a reconnect

---
 connecttopanel.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 2753aa3..7d8d1b8 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -54,7 +54,7 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 	// Main loop for continuous connection attempts:
 	for {
 		log.Debugln("Trying to connect to panel on " + panelIPAndPort)
-		conn, err := net.Dial("tcp", panelIPAndPort)
+		conn, err := (&net.Dialer{}).DialContext(ctx, "tcp", panelIPAndPort)
 
 		if err != nil {
 			//fmt.Println(err)
@@ -240,7 +240,13 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			}
 
 			log.Debugf("Retrying in %d seconds for %s\n", reConnectionRetryPeriod, panelIPAndPort)
-			time.Sleep(time.Duration(reConnectionRetryPeriod) * time.Second)
+			timer1 := time.NewTimer(time.Duration(reConnectionRetryPeriod) * time.Second)
+			select {
+			case <-ctx.Done():
+				log.Debugln("Stop trying to reconnect to " + panelIPAndPort)
+				return
+			case <-timer1.C:
+			}
 		}
 	}
 }
-- 
2.43.0


From 6684617f2cf0aa9a0deaf4bf15aed90c9b7f5fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 04/16] fix: close the connection on cancellation even while a
 write is blocked

---
 connecttopanel.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 7d8d1b8..ce1e02d 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -133,17 +133,16 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			// This goroutine is reading the msgsToPanel channel and sending over the panel in the proper encoding (binary or ASCII)
 			var exit atomic.Bool
 			quit := make(chan bool)
+			if wg != nil {
+				wg.Add(2) // Here and not inside the goroutines, where it could come too late for wg.Wait()
+			}
 			go func() {
 				if wg != nil {
-					wg.Add(1)
 					defer wg.Done()
 				}
 				for {
 					select {
-					case <-ctx.Done(): // Context shutdown.
-						log.Debugln("Closing network connection because context was done, ", panelIPAndPort)
-						exit.Store(true)
-						conn.Close() // The implications of closing the connection should be that the listening code below will also fail and exit - but it might not happen if the msgsFromPanel channel reader outside this function has been stopped prematurely, so watch out for that.
+					case <-ctx.Done(): // Context shutdown, the goroutine below closes the connection
 						return
 					case <-quit:
 						return
@@ -170,6 +169,20 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				}
 			}()
 
+			// This goroutine closes the connection on context shutdown. It is separate from the one above, because that one may be blocked writing to a panel which doesn't read.
+			go func() {
+				if wg != nil {
+					defer wg.Done()
+				}
+				select {
+				case <-ctx.Done():
+					log.Debugln("Closing network connection because context was done, ", panelIPAndPort)
+					exit.Store(true)
+					conn.Close() // The implications of closing the connection should be that the listening code below will also fail and exit - but it might not happen if the msgsFromPanel channel reader outside this function has been stopped prematurely, so watch out for that.
+				case <-quit:
+				}
+			}()
+
 			// At this point we should be connected and know what prototol to use. We may also have received an errormessage and been disconnected, but in that case we will figure it out later.
 			if onconnect != nil {
 				onconnect(errorMsg, binaryPanel, conn)
-- 
2.43.0


From 68a58dfc42a7cd47eaf6e9ff4f14fe82a66640ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 05/16] fix: gorwp: don't let feedback sent from handlers block
 the dispatcher

One loop served both the outgoing queue and the dispatch of events. A handler
that sent more than the queue holds, or a ping tick while the queue was full,
blocked that loop for ever.
---
 gorwp/rawpanel.go | 56 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 079674a..f5529ae 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -149,36 +149,31 @@ func (rp *RawPanel) init(ctx context.Context) error {
 
 func (rp *RawPanel) listen(ctx context.Context) {
 
-	// Listening for messages to/from panel
+	// Sending messages to panel:
 	go func() {
 		ticker := time.NewTicker(1000 * time.Millisecond)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ctx.Done():
 				//fmt.Println("Stops listening for toPanel messages")
 				return
 			case messagesToPanel := <-rp.toPanel: // Messages from us to the panel.
-				if rp.binaryPanel {
-					for _, msg := range messagesToPanel {
-						pbdata, _ := proto.Marshal(msg) // Encode data
-						log.Debugln("System -> Panel: ", pbdata)
-
-						header := make([]byte, 4)                                  // Create a 4-bytes header
-						binary.LittleEndian.PutUint32(header, uint32(len(pbdata))) // Fill it in
-						pbdata = append(header, pbdata...)                         // and concatenate it with the binary message
-						rp.connection.Write(pbdata)
-					}
-				} else {
-					lines := helpers.InboundMessagesToRawPanelASCIIstrings(messagesToPanel)
-					for _, line := range lines {
-						log.Debugln(string("System -> Panel: " + strings.TrimSpace(string(line))))
-						rp.connection.Write([]byte(line + "\n"))
-					}
-				}
+				rp.writeToPanel(messagesToPanel)
 			case <-ticker.C: // Sending a ping periodically to the panel to make sure TCP will close connection if it doesn't get through. Strictly, the panel should answer back with ACK, but we don't check for that (seems this is enough)
-				rp.toPanel <- []*rwp.InboundMessage{{
+				rp.writeToPanel([]*rwp.InboundMessage{{
 					FlowMessage: rwp.InboundMessage_PING,
-				}}
+				}})
+			}
+		}
+	}()
+
+	// Processing messages from panel. This calls the bound functions which may send to the panel, so it can't be the same goroutine that serves rp.toPanel
+	go func() {
+		for {
+			select {
+			case <-ctx.Done():
+				return
 			case messagesFromPanel := <-rp.fromPanel:
 				rp.procesMessagesFromPanel(messagesFromPanel)
 			}
@@ -193,6 +188,27 @@ func (rp *RawPanel) listen(ctx context.Context) {
 	(*rp.cancel)()
 }
 
+// Encodes messages and writes them to the panel
+func (rp *RawPanel) writeToPanel(messagesToPanel []*rwp.InboundMessage) {
+	if rp.binaryPanel {
+		for _, msg := range messagesToPanel {
+			pbdata, _ := proto.Marshal(msg) // Encode data
+			log.Debugln("System -> Panel: ", pbdata)
+
+			header := make([]byte, 4)                                  // Create a 4-bytes header
+			binary.LittleEndian.PutUint32(header, uint32(len(pbdata))) // Fill it in
+			pbdata = append(header, pbdata...)                         // and concatenate it with the binary message
+			rp.connection.Write(pbdata)
+		}
+	} else {
+		lines := helpers.InboundMessagesToRawPanelASCIIstrings(messagesToPanel)
+		for _, line := range lines {
+			log.Debugln(string("System -> Panel: " + strings.TrimSpace(string(line))))
+			rp.connection.Write([]byte(line + "\n"))
+		}
+	}
+}
+
 func (rp *RawPanel) readFromPanel() error {
 	// Reading from panel:
 	if rp.binaryPanel {
-- 
2.43.0


From 337caf6d4651ff2ef7200b7e7c4aaaf5540c22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 06/16] fix: gorwp: don't report a connection that was lost
 before it initialised as a success

---
 gorwp/rawpanel.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index f5529ae..a33f37e 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -124,27 +124,24 @@ func (rp *RawPanel) init(ctx context.Context) error {
 		},
 	}}
 
-	// Check for initialization, if we get it, return in channel:
-	initialized := make(chan bool, 1)
-	go func() {
-		for {
-			if rp.IsInitialized() {
-				initialized <- true
-				return
+	// Check regularly for initialization - and fail if it did not happen within two seconds or if the connection was lost before
+	timeout := time.After(2 * time.Second)
+	ticker := time.NewTicker(time.Millisecond * 10)
+	defer ticker.Stop()
+	for !rp.IsInitialized() {
+		select {
+		case <-ticker.C:
+		case <-ctx.Done():
+			if !rp.IsInitialized() {
+				return ctx.Err()
+			}
+		case <-timeout:
+			if !rp.IsInitialized() {
+				return fmt.Errorf("panel did not respond to initialization timely")
 			}
-			time.Sleep(time.Millisecond * 10)
 		}
-	}()
-
-	// Wait for either signal that init was OK - or return after two seconds where it did not happen
-	select {
-	case <-ctx.Done():
-		return nil
-	case <-initialized:
-		return nil
-	case <-time.After(2 * time.Second):
-		return fmt.Errorf("panel did not respond to initialization timely")
 	}
+	return nil
 }
 
 func (rp *RawPanel) listen(ctx context.Context) {
-- 
2.43.0


From 1c88701117eb1bcc01999400a076b6d7a3c866da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 07/16] fix: gorwp: don't drop events and information that come
 along with an ACK

---
 gorwp/rawpanel.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index a33f37e..e60fdbb 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -232,9 +232,7 @@ func (rp *RawPanel) readFromPanel() error {
 					} else {
 						outgoingMessage := &rwp.OutboundMessage{}
 						proto.Unmarshal(payload, outgoingMessage)
-						if outgoingMessage.FlowMessage != 2 { // ack
-							rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}
-						}
+						rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage} // Also if it's an ACK: it may carry events and information on top
 					}
 				} else {
 					log.Println("Error: Payload", currentPayloadLength, "exceed limit")
-- 
2.43.0


From fdbd128b8ac158f3d99d0b3cceded0a2cd414c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 08/16] fix: gorwp: stop reading after an over-limit frame,
 time out inside a frame header

---
 gorwp/rawpanel.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index e60fdbb..3cb5e2d 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -212,7 +212,11 @@ func (rp *RawPanel) readFromPanel() error {
 		for {
 			rp.connection.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 			headerArray := make([]byte, 4)
-			_, err := io.ReadFull(rp.connection, headerArray) // Read 4 header bytes
+			_, err := io.ReadFull(rp.connection, headerArray[:1]) // Wait for the first of 4 header bytes
+			if err == nil {
+				rp.connection.SetReadDeadline(time.Now().Add(2 * time.Second)) // A frame has begun, so the rest of the header must follow within 2 seconds, just like the payload below
+				_, err = io.ReadFull(rp.connection, headerArray[1:])
+			}
 			if err != nil {
 				if err == io.EOF {
 					log.Errorln("Panel: " + rp.connection.RemoteAddr().String() + " disconnected")
@@ -228,14 +232,16 @@ func (rp *RawPanel) readFromPanel() error {
 					_, err := io.ReadFull(rp.connection, payload)
 					if err != nil {
 						log.Errorln(err)
-						break
+						return err
 					} else {
 						outgoingMessage := &rwp.OutboundMessage{}
 						proto.Unmarshal(payload, outgoingMessage)
 						rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage} // Also if it's an ACK: it may carry events and information on top
 					}
 				} else {
-					log.Println("Error: Payload", currentPayloadLength, "exceed limit")
+					err := fmt.Errorf("payload %d exceeds limit", currentPayloadLength) // What follows on the connection can't be interpreted as frames anymore
+					log.Errorln(err)
+					return err
 				}
 			}
 		}
@@ -265,8 +271,6 @@ func (rp *RawPanel) readFromPanel() error {
 			}
 		}
 	}
-
-	return nil
 }
 
 func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMessage) {
-- 
2.43.0


From 92b55860428ae8d333026bf9a9c41c77621250e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 09/16] fix: gorwp: process what was received before the
 connection ended

---
 gorwp/rawpanel.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 3cb5e2d..362dee1 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -166,22 +166,34 @@ func (rp *RawPanel) listen(ctx context.Context) {
 	}()
 
 	// Processing messages from panel. This calls the bound functions which may send to the panel, so it can't be the same goroutine that serves rp.toPanel
+	processed := make(chan bool)
 	go func() {
+		defer close(processed)
 		for {
 			select {
 			case <-ctx.Done():
 				return
-			case messagesFromPanel := <-rp.fromPanel:
+			case messagesFromPanel, more := <-rp.fromPanel:
+				if !more {
+					return
+				}
 				rp.procesMessagesFromPanel(messagesFromPanel)
 			}
 		}
 	}()
 
 	// Read from panel. This will send into the rp.fromPanel channel. It returns when there is an error:
-	err := rp.readFromPanel()
+	err := rp.readFromPanel(ctx)
 	log.Should(err)
 
 	rp.connection.Close()
+
+	// Let everything that was received before the error be processed:
+	close(rp.fromPanel)
+	select {
+	case <-processed:
+	case <-ctx.Done():
+	}
 	(*rp.cancel)()
 }
 
@@ -206,7 +218,17 @@ func (rp *RawPanel) writeToPanel(messagesToPanel []*rwp.InboundMessage) {
 	}
 }
 
-func (rp *RawPanel) readFromPanel() error {
+// Passes messages from the panel on to be processed. Returns false if the context is done
+func (rp *RawPanel) received(ctx context.Context, messagesFromPanel []*rwp.OutboundMessage) bool {
+	select {
+	case rp.fromPanel <- messagesFromPanel:
+		return true
+	case <-ctx.Done():
+		return false
+	}
+}
+
+func (rp *RawPanel) readFromPanel(ctx context.Context) error {
 	// Reading from panel:
 	if rp.binaryPanel {
 		for {
@@ -236,7 +258,9 @@ func (rp *RawPanel) readFromPanel() error {
 					} else {
 						outgoingMessage := &rwp.OutboundMessage{}
 						proto.Unmarshal(payload, outgoingMessage)
-						rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage} // Also if it's an ACK: it may carry events and information on top
+						if !rp.received(ctx, []*rwp.OutboundMessage{outgoingMessage}) { // Also if it's an ACK: it may carry events and information on top
+							return ctx.Err()
+						}
 					}
 				} else {
 					err := fmt.Errorf("payload %d exceeds limit", currentPayloadLength) // What follows on the connection can't be interpreted as frames anymore
@@ -266,7 +290,9 @@ func (rp *RawPanel) readFromPanel() error {
 				switch netDataStr {
 				case "ack":
 				default:
-					rp.fromPanel <- helpers.RawPanelASCIIstringsToOutboundMessages([]string{netDataStr})
+					if !rp.received(ctx, helpers.RawPanelASCIIstringsToOutboundMessages([]string{netDataStr})) {
+						return ctx.Err()
+					}
 				}
 			}
 		}
-- 
2.43.0


From a6d8b32e1b016c75d50fa6131fd5727ac938bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 10/16] fix: gorwp: guard the bindings, functions may be bound
 while events are dispatched

---
 gorwp/inputs.go   | 10 ++++++++++
 gorwp/rawpanel.go | 20 +++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/gorwp/inputs.go b/gorwp/inputs.go
index 4de80cd..53230bc 100644
--- a/gorwp/inputs.go
+++ b/gorwp/inputs.go
@@ -44,6 +44,8 @@ type BinaryFunc func(uint32, BinaryStatus, BinaryEdge)
 // binary trigger.  When the binary trigger is pushed down, then the provided
 // BinaryFunc is called.
 func (rp *RawPanel) BindBinary(hwc uint32, f BinaryFunc) {
+	rp.bindingsMutex.Lock()
+	defer rp.bindingsMutex.Unlock()
 	rp.binaryBindings[hwc] = f
 }
 
@@ -56,6 +58,8 @@ type PulsedFunc func(uint32, int)
 // encoder. When the encoder is turned then the provided
 // PulsedFunc is called.
 func (rp *RawPanel) BindPulsed(hwc uint32, f PulsedFunc) {
+	rp.bindingsMutex.Lock()
+	defer rp.bindingsMutex.Unlock()
 	rp.pulsedBindings[hwc] = f
 }
 
@@ -67,6 +71,8 @@ type AbsoluteFunc func(uint32, int)
 // fader.  When the fader is moved then the provided
 // AbsoluteFunc is called.
 func (rp *RawPanel) BindAbsolute(hwc uint32, f AbsoluteFunc) {
+	rp.bindingsMutex.Lock()
+	defer rp.bindingsMutex.Unlock()
 	rp.absoluteBindings[hwc] = f
 }
 
@@ -79,6 +85,8 @@ type IntensityFunc func(uint32, int)
 // joystick. When the joystick axis is manipulated then the provided
 // IntensityFunc is called.
 func (rp *RawPanel) BindIntensity(hwc uint32, f IntensityFunc) {
+	rp.bindingsMutex.Lock()
+	defer rp.bindingsMutex.Unlock()
 	rp.intensityBindings[hwc] = f
 }
 
@@ -90,5 +98,7 @@ type TriggerFunc func(uint32, *rwp.HWCEvent)
 // Function BindTrigger sets a general callback for actions on a specific
 // hardware component.
 func (rp *RawPanel) BindTrigger(hwc uint32, f TriggerFunc) {
+	rp.bindingsMutex.Lock()
+	defer rp.bindingsMutex.Unlock()
 	rp.triggerBindings[hwc] = f
 }
diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 362dee1..dc0058c 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -23,6 +23,7 @@ import (
 	"io"
 	"net"
 	"strings"
+	"sync"
 	"time"
 
 	"google.golang.org/protobuf/proto"
@@ -47,6 +48,7 @@ type RawPanel struct {
 	fromPanel chan []*rwp.OutboundMessage
 
 	// Trigger Bindings
+	bindingsMutex     sync.RWMutex // Mutex for accessing the bindings below: functions may be bound while events are processed
 	binaryBindings    map[uint32]BinaryFunc
 	pulsedBindings    map[uint32]PulsedFunc
 	absoluteBindings  map[uint32]AbsoluteFunc
@@ -360,19 +362,19 @@ func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMes
 		// Events:
 		if len(msg.Events) > 0 {
 			for _, event := range msg.Events {
-				if receiverFunc, exists := rp.triggerBindings[event.HWCID]; exists {
+				if receiverFunc, exists := getBinding(&rp.bindingsMutex, rp.triggerBindings, event.HWCID); exists {
 					receiverFunc(event.HWCID, event)
 				}
-				if receiverFunc, exists := rp.binaryBindings[event.HWCID]; exists && event.Binary != nil {
+				if receiverFunc, exists := getBinding(&rp.bindingsMutex, rp.binaryBindings, event.HWCID); exists && event.Binary != nil {
 					receiverFunc(event.HWCID, BinaryStatus(su.Qint(event.Binary.Pressed, 1, 0)), BinaryEdge(event.Binary.Edge))
 				}
-				if receiverFunc, exists := rp.pulsedBindings[event.HWCID]; exists && event.Pulsed != nil {
+				if receiverFunc, exists := getBinding(&rp.bindingsMutex, rp.pulsedBindings, event.HWCID); exists && event.Pulsed != nil {
 					receiverFunc(event.HWCID, int(event.Pulsed.Value))
 				}
-				if receiverFunc, exists := rp.absoluteBindings[event.HWCID]; exists && event.Absolute != nil {
+				if receiverFunc, exists := getBinding(&rp.bindingsMutex, rp.absoluteBindings, event.HWCID); exists && event.Absolute != nil {
 					receiverFunc(event.HWCID, int(event.Absolute.Value))
 				}
-				if receiverFunc, exists := rp.intensityBindings[event.HWCID]; exists && event.Speed != nil {
+				if receiverFunc, exists := getBinding(&rp.bindingsMutex, rp.intensityBindings, event.HWCID); exists && event.Speed != nil {
 					receiverFunc(event.HWCID, int(event.Speed.Value))
 				}
 			}
@@ -380,6 +382,14 @@ func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMes
 	}
 }
 
+// Looks up the function bound to a hardware component
+func getBinding[F any](mutex *sync.RWMutex, bindings map[uint32]F, hwc uint32) (F, bool) {
+	mutex.RLock()
+	defer mutex.RUnlock()
+	receiverFunc, exists := bindings[hwc]
+	return receiverFunc, exists
+}
+
 func (rp *RawPanel) IsInitialized() bool {
 	rp.State.Lock()
 	defer rp.State.Unlock()
-- 
2.43.0


From dbb7e779bb396cb4a929a1b03ebc6ed76ddb80d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 11/16] fix: accept only the next chunk in line, and nothing
 after an image is delivered

---
 converterFunctions.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 3c4d2d6..186541d 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -377,8 +377,8 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 				}
 				if temp_HWCGfx_ImageType == imageType {
 					if submatches[2] == temp_HWCGfx_HWClist { // Check that HWC list is the same as last one
-						temp_HWCGfx_count++
-						if gPartIndex == temp_HWCGfx_count { // Make sure index is the next in line
+						if gPartIndex == temp_HWCGfx_count+1 { // Make sure index is the next in line
+							temp_HWCGfx_count++
 							temp_HWCGfx.ImageData = append(temp_HWCGfx.ImageData, decodedSlice...)
 							if gPartIndex == temp_HWCGfx_max { // If we have reached the final one, wrap it up:
 								msg = &rwp.InboundMessage{
@@ -389,6 +389,7 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 										},
 									},
 								}
+								temp_HWCGfx_HWClist = "" // The image is delivered now, so nothing more can be added to it
 								//fmt.Println("DID IT! ", submatches)
 							}
 						} else {
-- 
2.43.0


From 72891403060556a39f2caa39c2105bb73c1158b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 12/16] fix: ASCIIreader: accept only the next chunk in line,
 and nothing after an image is delivered

---
 rawpanelhelpers.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 7b11ede..47aeee7 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -653,15 +653,16 @@ func (ar *ASCIIreader) Parse(inputString string) []*rwp.InboundMessage {
 
 		if ar.HWCGfx_ImageType == submatches[1] {
 			if ar.HWCGfx_HWClist == submatches[2] { // Check that HWC list is the same as last one
-				ar.HWCGfx_count++
-				if gPartIndex == ar.HWCGfx_count { // Make sure index is the next in line
+				if gPartIndex == ar.HWCGfx_count+1 { // Make sure index is the next in line
+					ar.HWCGfx_count++
 					ar.HWCGfx = append(ar.HWCGfx, inputString)
 					if gPartIndex == ar.HWCGfx_max { // If we have reached the final one, wrap it up:
-						ar.HWCGfx_count = -1 // Reset
-						return RawPanelASCIIstringsToInboundMessages(ar.HWCGfx)
+						lines := ar.HWCGfx
+						*ar = ASCIIreader{HWCGfx_count: -1} // Reset, so nothing more can be added to this image
+						return RawPanelASCIIstringsToInboundMessages(lines)
 					}
 				} else {
-					log.Warnf("gPartIndex %d didn't match expected %d\n", gPartIndex, ar.HWCGfx_count)
+					log.Warnf("gPartIndex %d didn't match expected %d\n", gPartIndex, ar.HWCGfx_count+1)
 				}
 			} else {
 				log.Warnf("Wrong HWC %s addressed! Should be %s\n", submatches[2], ar.HWCGfx_HWClist)
-- 
2.43.0


From 08baf7063ff0b887d54b3cf90b329db8f5c0a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 13/16] fix: don't return nil messages for null elements of
 JSON input

---
 converterFunctions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 186541d..496bd98 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -173,7 +173,11 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 				myStateMsgs := []*rwp.InboundMessage{}
 				json.Unmarshal([]byte(inputString), &myStateMsgs)
 				msg = nil
-				returnMsgs = append(returnMsgs, myStateMsgs...)
+				for _, myStateMsg := range myStateMsgs {
+					if myStateMsg != nil { // JSON null
+						returnMsgs = append(returnMsgs, myStateMsg)
+					}
+				}
 			} else if regex_cmd.MatchString(inputString) {
 				HWCidArray := su.IntExplode(regex_cmd.FindStringSubmatch(inputString)[2], ",")
 				switch regex_cmd.FindStringSubmatch(inputString)[1] {
-- 
2.43.0


From fd3f7b00f655ecdc19b064d3a5328f8d1d1fd914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 14/16] fix: encode unformatted text without text styling

---
 converterFunctions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 496bd98..697e824 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -875,7 +875,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 							if !su.IsIntIn(int(stateRec.HWCText.Formatting), []int{7, 10, 11}) {
 								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.IntegerValue))
 							} else if su.IsIntIn(int(stateRec.HWCText.Formatting), []int{10, 11}) {
-								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.TextStyling.UnformattedFontSize))
+								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.GetTextStyling().GetUnformattedFontSize()))
 							} else { // Formatting == 7
 								stringSlice[1] = ""
 								stringSlice[0] = ""
-- 
2.43.0


From 275d782ff8c9d50a418605ff854696ce13053549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 15/16] fix: never renumber a type to 0, which means disabled

---
 topology/topology.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topology/topology.go b/topology/topology.go
index 6d7ce7e..c9848e6 100644
--- a/topology/topology.go
+++ b/topology/topology.go
@@ -277,7 +277,7 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 	seq := uint32(1)
 	for typeNum, typeStruct := range topology.TypeIndex {
 		// Find new random index not used:
-		typeMapping[typeNum] = uint32(r1.Intn(1000000))
+		typeMapping[typeNum] = uint32(1 + r1.Intn(999999)) // Never 0, which means disabled
 		if sequence {
 			typeMapping[typeNum] = seq
 		}
@@ -289,7 +289,7 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 					//fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
 				} else {
 					fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
-					typeMapping[typeNum] = uint32(r1.Intn(1000000))
+					typeMapping[typeNum] = uint32(1 + r1.Intn(999999))
 				}
 			} else {
 				break
-- 
2.43.0


From 5718527fc1ada5093e5784b88c31f610f27add21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 16/16] fix: DrawImage panics for a hardware component that is
 not in the topology

---
 gorwp/rawpanel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index dc0058c..335cfba 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -514,7 +514,10 @@ const (
 // the displayInfo of the HWC, but it's convenient
 func (rp *RawPanel) DrawImage(hwc uint32, inImg image.Image) error {
 	top := rp.State.GetTopology()
-	typeDef, _ := top.GetHWCtype(hwc)
+	typeDef, err := top.GetHWCtype(hwc)
+	if err != nil {
+		return err
+	}
 	displayInfo := typeDef.DisplayInfo()
 	if displayInfo != nil && displayInfo.W > 0 && displayInfo.H > 0 {
 		log.Println(log.Indent(displayInfo))
-- 
2.43.0

