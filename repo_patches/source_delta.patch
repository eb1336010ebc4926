From c46b5b117045ae32f2165a3f94b31625ad61847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 01/13] fix: uAvionix: use the parser table's actual name so
 that the package compiles

---
 uAvionix/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uAvionix/dialect.go b/uAvionix/dialect.go
index d9de5c4..423b956 100644
--- a/uAvionix/dialect.go
+++ b/uAvionix/dialect.go
@@ -47,7 +47,7 @@ func (d Dialect) GetMeta(messageID uint32) (meta mavlink2.MessageMeta, err error
 
 // GetMessage extracts and parses the message contained in the Frame
 func (d Dialect) GetMessage(frame mavlink2.Frame) (message mavlink2.Message, err error) {
-	if parser, ok := uavionixParsers[frame.GetMessageID()]; ok {
+	if parser, ok := uAvionixParsers[frame.GetMessageID()]; ok {
 		message, err = parser(frame)
 		return
 	}
-- 
2.43.0


From f513d14a3e21bbf3aefa6b42a6f5c1c8edd1f908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 02/13] fix: closing a stream while a frame waits for the
 consumer no longer panics

close() closed outputFrames while ReadContext could be blocked sending on it.
---
 stream.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index e5379b3..825ec4b 100644
--- a/stream.go
+++ b/stream.go
@@ -66,6 +66,7 @@ type FrameStream struct {
 	writer              io.Writer
 	closeErr            error
 	closeOnce           sync.Once
+	closing             chan struct{}
 	closed              chan struct{}
 	buffer              []byte
 	bufferIndex         int
@@ -97,6 +98,7 @@ func NewFrameStreamWithLogger(rwc io.ReadWriteCloser, inputFrames chan Frame, di
 		reader:              bufio.NewReader(rwc),
 		rwc:                 rwc,
 		closeOnce:           sync.Once{},
+		closing:             make(chan struct{}),
 		closed:              make(chan struct{}),
 		buffer:              make([]byte, maxFrameLength*2, maxFrameLength*2),
 		bufferIndex:         0,
@@ -130,6 +132,9 @@ func (s *FrameStream) Closed() <-chan struct{} {
 
 func (s *FrameStream) close(err error) {
 	s.closeOnce.Do(func() {
+		// Wakes a pending deliver, which holds the lock
+		close(s.closing)
+
 		s.Lock()
 		defer s.Unlock()
 
@@ -185,11 +190,34 @@ func (s *FrameStream) ReadContext(ctx context.Context) {
 			if s.logger != nil {
 				s.logger.LogRead(frame.Bytes())
 			}
-			s.outputFrames <- frame
+			if !s.deliver(frame) {
+				return
+			}
 		}
 	}
 }
 
+// deliver passes the Frame to the consumer. It holds the read lock so that
+// outputFrames is not closed while the Frame is being sent, and reports false
+// if the FrameStream was closed before the consumer took the Frame
+func (s *FrameStream) deliver(frame Frame) bool {
+	s.RLock()
+	defer s.RUnlock()
+
+	select {
+	case <-s.closing:
+		return false
+	default:
+	}
+
+	select {
+	case s.outputFrames <- frame:
+		return true
+	case <-s.closing:
+		return false
+	}
+}
+
 func peekHeader(buffer []byte) (frameLength uint16, startFound bool) {
 	messageLength := buffer[1]
 	startByte := buffer[0]
-- 
2.43.0


From 553a14fa422510b2ffb09a745a59ace84e9c20f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 03/13] fix: end both loops when the stream is closed or a
 context is done

WriteContext ignored a closed stream while it waited for frames, and neither
loop noticed its context being done while blocked in the transport or waiting
for the consumer.
---
 stream.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/stream.go b/stream.go
index 825ec4b..94b060d 100644
--- a/stream.go
+++ b/stream.go
@@ -150,12 +150,26 @@ func (s *FrameStream) GetCloseErr() error {
 	return s.closeErr
 }
 
+// closeOnDone closes the FrameStream, and with it the transport, when the
+// context is done. This ends transport reads and writes that are blocked
+func (s *FrameStream) closeOnDone(ctx context.Context) {
+	select {
+	case <-ctx.Done():
+		s.close(ctx.Err())
+	case <-s.closed:
+	}
+}
+
 func (s *FrameStream) WriteContext(ctx context.Context) {
+	go s.closeOnDone(ctx)
+
 	for {
 		select {
 		case <-ctx.Done():
 			s.close(ctx.Err())
 			return
+		case <-s.closed:
+			return
 		case frame, ok := <-s.inputFrames:
 			if !ok {
 				s.close(ErrWriteChannelClosed)
@@ -175,6 +189,8 @@ func (s *FrameStream) WriteContext(ctx context.Context) {
 }
 
 func (s *FrameStream) ReadContext(ctx context.Context) {
+	go s.closeOnDone(ctx)
+
 	for {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 24e1a0bb5fc7e556dd37ac5c758c35d0929b866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 04/13] fix: GetCloseErr reads the close reason under the lock
 that guards it

---
 stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stream.go b/stream.go
index 94b060d..f171d64 100644
--- a/stream.go
+++ b/stream.go
@@ -147,6 +147,9 @@ func (s *FrameStream) close(err error) {
 }
 
 func (s *FrameStream) GetCloseErr() error {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.closeErr
 }
 
-- 
2.43.0


From 5999e9a966e6362d864a12608a2bcfca8c0c7ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:50 +0000
Subject: [PATCH 05/13] fix: deliver complete frames that are buffered behind a
 false start byte when the transport ends

---
 stream.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/stream.go b/stream.go
index f171d64..cfd31ae 100644
--- a/stream.go
+++ b/stream.go
@@ -70,6 +70,7 @@ type FrameStream struct {
 	closed              chan struct{}
 	buffer              []byte
 	bufferIndex         int
+	readErr             error
 	dialects            Dialects
 	returnInvalidFrames bool
 	invalidLogged       map[frameLoggingMetaData]bool
@@ -258,15 +259,26 @@ func peekHeader(buffer []byte) (frameLength uint16, startFound bool) {
 	}
 }
 
+// fillBuffer reads at least bytesNeeded bytes into the buffer. Once reading has
+// failed, nothing more is read and the same error is returned
+func (s *FrameStream) fillBuffer(reader *bufio.Reader, bytesNeeded int) error {
+	if s.readErr != nil {
+		return s.readErr
+	}
+
+	n, err := io.ReadAtLeast(reader, s.buffer[s.bufferIndex:], bytesNeeded)
+	s.bufferIndex += n
+	s.readErr = err
+	return err
+}
+
 func (s *FrameStream) readFrame(reader *bufio.Reader) (frame Frame, err error) {
 	for {
 		if s.bufferIndex < 3 {
 			bytesNeeded := 3 - s.bufferIndex
-			n, err := io.ReadAtLeast(reader, s.buffer[s.bufferIndex:], bytesNeeded)
-			if err != nil {
+			if err := s.fillBuffer(reader, bytesNeeded); err != nil {
 				return frame, err
 			}
-			s.bufferIndex += n
 		}
 
 		frameLength, startFound := peekHeader(s.buffer)
@@ -274,11 +286,13 @@ func (s *FrameStream) readFrame(reader *bufio.Reader) (frame Frame, err error) {
 			if s.bufferIndex < int(frameLength) {
 				bytesNeeded := int(frameLength) - s.bufferIndex
 				//bytes := make([]byte, bytesNeeded)
-				n, err := io.ReadAtLeast(reader, s.buffer[s.bufferIndex:], bytesNeeded)
-				if err != nil {
-					return frame, err
+				if err := s.fillBuffer(reader, bytesNeeded); err != nil {
+					// The frame will never be complete, but the start byte may
+					// be a false one with complete frames behind it
+					copy(s.buffer, s.buffer[1:])
+					s.bufferIndex -= 1
+					continue
 				}
-				s.bufferIndex += n
 			}
 
 			// validate
-- 
2.43.0


From 36d78ba6ae16d2cc9cb82b2ff69b7bd9d2b0e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 06/13] fix: bound the record of invalid frames that were
 already logged

Line noise produces ever new header combinations, each of which was kept for
the life of the stream.
---
 stream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stream.go b/stream.go
index cfd31ae..cbd6191 100644
--- a/stream.go
+++ b/stream.go
@@ -88,6 +88,9 @@ type FrameLogger interface {
 // mavlink v1 has max length 263, v2 has max length 279
 const maxFrameLength = 279
 
+// The number of different invalid frames to remember as already logged
+const maxInvalidLogged = 1024
+
 func NewFrameStream(rwc io.ReadWriteCloser, inputFrames chan Frame, dialects Dialects, returnInvalidFrames bool) *FrameStream {
 	return NewFrameStreamWithLogger(rwc, inputFrames, dialects, returnInvalidFrames, nil)
 }
@@ -311,6 +314,9 @@ func (s *FrameStream) readFrame(reader *bufio.Reader) (frame Frame, err error) {
 					frame.GetSenderSystemID(),
 					frame.GetSenderComponentID()}
 				if _, ok := s.invalidLogged[metaData]; !ok {
+					if len(s.invalidLogged) >= maxInvalidLogged {
+						s.invalidLogged = make(map[frameLoggingMetaData]bool)
+					}
 					fmt.Printf("Got invalid frame, version %d, message id %d, system id %d, component id %d\n",
 						metaData.version, metaData.messageID,
 						metaData.senderSystemID, metaData.senderComponentID)
-- 
2.43.0


From 6125dff739db1c3b888468e07123b49beba61f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 07/13] fix: write the V1 header in wire order: sequence,
 system id, component id

---
 stream.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stream.go b/stream.go
index cbd6191..646b4f9 100644
--- a/stream.go
+++ b/stream.go
@@ -372,9 +372,9 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		frameBytes = make([]byte, len(messageBytes)+6)
 		frameBytes[0] = V1StartByte
 		frameBytes[1] = uint8(len(messageBytes))
-		frameBytes[2] = senderSystemID
-		frameBytes[3] = senderComponentID
-		frameBytes[4] = messageSequence
+		frameBytes[2] = messageSequence
+		frameBytes[3] = senderSystemID
+		frameBytes[4] = senderComponentID
 
 		idBytes := make([]byte, 4)
 		binary.LittleEndian.PutUint32(idBytes, message.GetID())
-- 
2.43.0


From 1939c157b5c5a1ddbfd7e9b907cffed19542ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 08/13] fix: GetSignature looks for the signature flag in the
 incompatibility flags

The flag is in byte 2, as peekHeader knows. Frames with bit 0 of byte 3 set
panicked, and signed frames reported no signature.
---
 frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame.go b/frame.go
index a27cc43..27d1995 100644
--- a/frame.go
+++ b/frame.go
@@ -195,7 +195,7 @@ func (frame FrameV2) GetChecksumInput() []byte {
 
 // GetSignature returns the V2 Signature of the frame, if it exists
 func (frame FrameV2) GetSignature() []byte {
-	if frame.GetCompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
+	if frame.GetIncompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
 		return nil
 	}
 	start := frame.GetMessageLength() + 12
-- 
2.43.0


From 69046d36179bd4dd6a3a819fa611e1d23e5d1cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 09/13] fix: truncate all-zero V2 payloads to their first byte

---
 util/util.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index 4ca91fd..7643ef0 100644
--- a/util/util.go
+++ b/util/util.go
@@ -3,13 +3,14 @@ package util
 func TruncateV2(input []byte) []byte {
 	var i int
 	// Loop through the array in reverse until the first non-zero byte is found
-	for i = len(input); i > 0; i-- {
+	// The first byte of the payload is never truncated, even if it is zero
+	for i = len(input); i > 1; i-- {
 		if input[i-1] != 0 {
 			return input[:i]
 		}
 	}
 
-	return input
+	return input[:i]
 }
 
 // CStrLen returns the length of the null-terminated C string contained in the input buffer
-- 
2.43.0


From cdc80daa4b0b640bf5533cf0ef653458a5a874fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:03 +0000
Subject: [PATCH 10/13] fix: an empty Dialects knows no message

GetMessage returned neither a message nor an error, and Validate and GetFrame
worked with zero metadata.
---
 dialect.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dialect.go b/dialect.go
index 1beea4e..607d02c 100644
--- a/dialect.go
+++ b/dialect.go
@@ -37,6 +37,8 @@ type Dialects []Dialect
 
 // GetMessage decodes the message in the Frame
 func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		message, err = dialect.GetMessage(frame)
 
@@ -59,6 +61,8 @@ func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
 func (d Dialects) GetFrame(version int, senderSystemID, senderComponentID, messageSequence uint8, message Message) (frame Frame, err error) {
 	var meta MessageMeta
 
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(message.GetID())
 
@@ -85,7 +89,9 @@ func (d Dialects) Validate(frame Frame) error {
 	checksum.Reset()
 
 	var meta MessageMeta
-	var err error
+
+	err := ErrUnknownMessage
+
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(frame.GetMessageID())
 
-- 
2.43.0


From 81f59ef744ce82589f83065b4ead71a112e780f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 11/13] fix: V2Extension: full-length V1 payloads, and payload
 lengths that match the bytes

V1 frames were shorter than the message's minimum length, so receivers dropped
them. Reading a V2 frame truncated to less than 5 bytes or longer than the
message gave a PayloadLength with which GetPayload panicked, and writing a
PayloadLength above 250 overflowed.
---
 common/v2_extension.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/common/v2_extension.go b/common/v2_extension.go
index 58bc6a5..f9e9dd7 100644
--- a/common/v2_extension.go
+++ b/common/v2_extension.go
@@ -163,7 +163,8 @@ func (m *V2Extension) Read(frame mavlink2.Frame) (err error) {
 	copy(ioBytes, frame.GetMessageBytes())
 
 	// Add the length of the payload to the end of the array so that it is read in as PayloadLength
-	ioBytes[len(ioBytes)-1] = uint8(math.Max(0, float64(frame.GetMessageLength()-5)))
+	payloadLength := math.Max(0, float64(frame.GetMessageLength())-5)
+	ioBytes[len(ioBytes)-1] = uint8(math.Min(payloadLength, float64(len(m.Payload))))
 
 	buffer := bytes.NewBuffer(ioBytes)
 
@@ -192,10 +193,17 @@ func (m *V2Extension) Write(version int) (output []byte, err error) {
 	}
 
 	output = buffer.Bytes()
-	// V2Extension packets are always variable length,
-	// regardless of whether they are in a V1 or V2 stream
 	// Cut off the trailing bytes past the end of the payload
-	output = output[:5+m.PayloadLength]
+	payloadLength := int(m.PayloadLength)
+	if payloadLength > len(m.Payload) {
+		payloadLength = len(m.Payload)
+	}
+	output = output[:5+payloadLength]
+
+	// V1 uses fixed message lengths, so the unused rest of the payload is sent as zeroes
+	if version == 1 {
+		output = append(output, make([]byte, len(m.Payload)-payloadLength)...)
+	}
 
 	if version == 2 {
 		output = util.TruncateV2(output)
-- 
2.43.0


From a120e4697921ff092f580106b908709d1d0f3f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 12/13] fix: refuse message ids and payloads that do not fit
 the frame

A V1 frame has one byte for the message id, so a message with a larger id was
sent as a different message when its Write did not object (UnknownMessage). A
payload of more than 255 bytes was sent with a wrapped length.
---
 stream.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stream.go b/stream.go
index 646b4f9..8389209 100644
--- a/stream.go
+++ b/stream.go
@@ -359,12 +359,24 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 	var frameBytes []byte
 	var messageBytes []byte
 
+	// V1 frames have a single byte for the message ID
+	if version == 1 && message.GetID() > 255 {
+		err = ErrEncodeV2MessageV1Frame
+		return
+	}
+
 	messageBytes, err = message.Write(version)
 
 	if err != nil {
 		return
 	}
 
+	// Frames have a single byte for the payload length
+	if len(messageBytes) > 255 {
+		err = ErrMessageTooLong
+		return
+	}
+
 	x25 := X25CRC{}
 	x25.Reset()
 
-- 
2.43.0


From 8bb60dcafcce7a18f1ad894872ab1036662077fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 13/13] fix: text setters clear what an earlier, longer text
 left in the field

Setting a text in a message that already held a longer one kept the tail of
the old text, so the message was sent with a mixture of both.
---
 ardupilotmega/device_op_read.go     | 1 +
 ardupilotmega/device_op_write.go    | 1 +
 common/adsb_vehicle.go              | 1 +
 common/ais_vessel.go                | 2 ++
 common/auth_key.go                  | 1 +
 common/camera_image_captured.go     | 1 +
 common/camera_information.go        | 1 +
 common/change_operator_control.go   | 1 +
 common/component_information.go     | 1 +
 common/debug_float_array.go         | 1 +
 common/debug_vect.go                | 1 +
 common/named_value_float.go         | 1 +
 common/named_value_int.go           | 1 +
 common/open_drone_id_operator_id.go | 1 +
 common/open_drone_id_self_id.go     | 1 +
 common/param_ext_ack.go             | 2 ++
 common/param_ext_request_read.go    | 1 +
 common/param_ext_set.go             | 2 ++
 common/param_ext_value.go           | 2 ++
 common/param_map_rc.go              | 1 +
 common/param_request_read.go        | 1 +
 common/param_set.go                 | 1 +
 common/param_value.go               | 1 +
 common/play_tune.go                 | 2 ++
 common/play_tune_v2.go              | 1 +
 common/smart_battery_info.go        | 1 +
 common/statustext.go                | 1 +
 common/statustext_long.go           | 1 +
 common/uavcan_node_info.go          | 1 +
 common/video_stream_information.go  | 2 ++
 common/wifi_config_ap.go            | 2 ++
 paparazzi/script_item.go            | 1 +
 uAvionix/uavionix_adsb_out_cfg.go   | 1 +
 33 files changed, 40 insertions(+)

diff --git a/ardupilotmega/device_op_read.go b/ardupilotmega/device_op_read.go
index fa99ade..d7af7e1 100644
--- a/ardupilotmega/device_op_read.go
+++ b/ardupilotmega/device_op_read.go
@@ -100,6 +100,7 @@ func (m *DeviceOpRead) String() string {
 // SetBusname encodes the input string to the Busname array
 func (m *DeviceOpRead) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
+	m.Busname = [40]byte{}
 	copy(m.Busname[:], []byte(input)[:clen])
 
 	if len(input) > 40 {
diff --git a/ardupilotmega/device_op_write.go b/ardupilotmega/device_op_write.go
index cbff8ce..00e0bd0 100644
--- a/ardupilotmega/device_op_write.go
+++ b/ardupilotmega/device_op_write.go
@@ -104,6 +104,7 @@ func (m *DeviceOpWrite) String() string {
 // SetBusname encodes the input string to the Busname array
 func (m *DeviceOpWrite) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
+	m.Busname = [40]byte{}
 	copy(m.Busname[:], []byte(input)[:clen])
 
 	if len(input) > 40 {
diff --git a/common/adsb_vehicle.go b/common/adsb_vehicle.go
index cd7493c..25d7bf7 100644
--- a/common/adsb_vehicle.go
+++ b/common/adsb_vehicle.go
@@ -116,6 +116,7 @@ func (m *AdsbVehicle) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *AdsbVehicle) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
+	m.Callsign = [9]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 9 {
diff --git a/common/ais_vessel.go b/common/ais_vessel.go
index 2f81840..497e532 100644
--- a/common/ais_vessel.go
+++ b/common/ais_vessel.go
@@ -132,6 +132,7 @@ func (m *AisVessel) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *AisVessel) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(7)))
+	m.Callsign = [7]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 7 {
@@ -151,6 +152,7 @@ func (m *AisVessel) GetCallsign() string {
 // SetName encodes the input string to the Name array
 func (m *AisVessel) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
+	m.Name = [20]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 20 {
diff --git a/common/auth_key.go b/common/auth_key.go
index 40953ae..f2af34e 100644
--- a/common/auth_key.go
+++ b/common/auth_key.go
@@ -68,6 +68,7 @@ func (m *AuthKey) String() string {
 // SetKey encodes the input string to the Key array
 func (m *AuthKey) SetKey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.Key = [32]byte{}
 	copy(m.Key[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
diff --git a/common/camera_image_captured.go b/common/camera_image_captured.go
index ab33c9e..bfc2cbc 100644
--- a/common/camera_image_captured.go
+++ b/common/camera_image_captured.go
@@ -108,6 +108,7 @@ func (m *CameraImageCaptured) String() string {
 // SetFileURL encodes the input string to the FileURL array
 func (m *CameraImageCaptured) SetFileURL(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(205)))
+	m.FileURL = [205]byte{}
 	copy(m.FileURL[:], []byte(input)[:clen])
 
 	if len(input) > 205 {
diff --git a/common/camera_information.go b/common/camera_information.go
index 14340b6..efbd79d 100644
--- a/common/camera_information.go
+++ b/common/camera_information.go
@@ -116,6 +116,7 @@ func (m *CameraInformation) String() string {
 // SetCamDefinitionURI encodes the input string to the CamDefinitionURI array
 func (m *CameraInformation) SetCamDefinitionURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(140)))
+	m.CamDefinitionURI = [140]byte{}
 	copy(m.CamDefinitionURI[:], []byte(input)[:clen])
 
 	if len(input) > 140 {
diff --git a/common/change_operator_control.go b/common/change_operator_control.go
index d999970..ddc101e 100644
--- a/common/change_operator_control.go
+++ b/common/change_operator_control.go
@@ -80,6 +80,7 @@ func (m *ChangeOperatorControl) String() string {
 // SetPasskey encodes the input string to the Passkey array
 func (m *ChangeOperatorControl) SetPasskey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(25)))
+	m.Passkey = [25]byte{}
 	copy(m.Passkey[:], []byte(input)[:clen])
 
 	if len(input) > 25 {
diff --git a/common/component_information.go b/common/component_information.go
index caca03b..59bd067 100644
--- a/common/component_information.go
+++ b/common/component_information.go
@@ -96,6 +96,7 @@ func (m *ComponentInformation) String() string {
 // SetComponentDefinitionURI encodes the input string to the ComponentDefinitionURI array
 func (m *ComponentInformation) SetComponentDefinitionURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(140)))
+	m.ComponentDefinitionURI = [140]byte{}
 	copy(m.ComponentDefinitionURI[:], []byte(input)[:clen])
 
 	if len(input) > 140 {
diff --git a/common/debug_float_array.go b/common/debug_float_array.go
index ce35d70..68cc81f 100644
--- a/common/debug_float_array.go
+++ b/common/debug_float_array.go
@@ -97,6 +97,7 @@ func (m *DebugFloatArray) String() string {
 // SetName encodes the input string to the Name array
 func (m *DebugFloatArray) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/debug_vect.go b/common/debug_vect.go
index 52a2b4e..dc4dc20 100644
--- a/common/debug_vect.go
+++ b/common/debug_vect.go
@@ -84,6 +84,7 @@ func (m *DebugVect) String() string {
 // SetName encodes the input string to the Name array
 func (m *DebugVect) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/named_value_float.go b/common/named_value_float.go
index 492728a..5eb9d62 100644
--- a/common/named_value_float.go
+++ b/common/named_value_float.go
@@ -76,6 +76,7 @@ func (m *NamedValueFloat) String() string {
 // SetName encodes the input string to the Name array
 func (m *NamedValueFloat) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/named_value_int.go b/common/named_value_int.go
index a347384..4de1246 100644
--- a/common/named_value_int.go
+++ b/common/named_value_int.go
@@ -76,6 +76,7 @@ func (m *NamedValueInt) String() string {
 // SetName encodes the input string to the Name array
 func (m *NamedValueInt) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/open_drone_id_operator_id.go b/common/open_drone_id_operator_id.go
index 5d0a1ee..41a0e06 100644
--- a/common/open_drone_id_operator_id.go
+++ b/common/open_drone_id_operator_id.go
@@ -72,6 +72,7 @@ func (m *OpenDroneIDOperatorID) String() string {
 // SetOperatorID encodes the input string to the OperatorID array
 func (m *OpenDroneIDOperatorID) SetOperatorID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
+	m.OperatorID = [20]byte{}
 	copy(m.OperatorID[:], []byte(input)[:clen])
 
 	if len(input) > 20 {
diff --git a/common/open_drone_id_self_id.go b/common/open_drone_id_self_id.go
index 8f0eb12..2146aea 100644
--- a/common/open_drone_id_self_id.go
+++ b/common/open_drone_id_self_id.go
@@ -72,6 +72,7 @@ func (m *OpenDroneIDSelfID) String() string {
 // SetDescription encodes the input string to the Description array
 func (m *OpenDroneIDSelfID) SetDescription(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(23)))
+	m.Description = [23]byte{}
 	copy(m.Description[:], []byte(input)[:clen])
 
 	if len(input) > 23 {
diff --git a/common/param_ext_ack.go b/common/param_ext_ack.go
index 6aafc61..1f849a0 100644
--- a/common/param_ext_ack.go
+++ b/common/param_ext_ack.go
@@ -80,6 +80,7 @@ func (m *ParamExtAck) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtAck) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -99,6 +100,7 @@ func (m *ParamExtAck) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtAck) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_ext_request_read.go b/common/param_ext_request_read.go
index 6f95d4e..903ca11 100644
--- a/common/param_ext_request_read.go
+++ b/common/param_ext_request_read.go
@@ -80,6 +80,7 @@ func (m *ParamExtRequestRead) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_ext_set.go b/common/param_ext_set.go
index 12c1530..74fce6a 100644
--- a/common/param_ext_set.go
+++ b/common/param_ext_set.go
@@ -84,6 +84,7 @@ func (m *ParamExtSet) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -103,6 +104,7 @@ func (m *ParamExtSet) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtSet) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_ext_value.go b/common/param_ext_value.go
index 743dc97..365ea67 100644
--- a/common/param_ext_value.go
+++ b/common/param_ext_value.go
@@ -84,6 +84,7 @@ func (m *ParamExtValue) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -103,6 +104,7 @@ func (m *ParamExtValue) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtValue) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_map_rc.go b/common/param_map_rc.go
index 8aec9b0..1d699be 100644
--- a/common/param_map_rc.go
+++ b/common/param_map_rc.go
@@ -100,6 +100,7 @@ func (m *ParamMapRC) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamMapRC) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_request_read.go b/common/param_request_read.go
index 2a6456d..2a4abc9 100644
--- a/common/param_request_read.go
+++ b/common/param_request_read.go
@@ -80,6 +80,7 @@ func (m *ParamRequestRead) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_set.go b/common/param_set.go
index 8f5d597..5a29857 100644
--- a/common/param_set.go
+++ b/common/param_set.go
@@ -84,6 +84,7 @@ func (m *ParamSet) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_value.go b/common/param_value.go
index 9cb1a20..8664315 100644
--- a/common/param_value.go
+++ b/common/param_value.go
@@ -84,6 +84,7 @@ func (m *ParamValue) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/play_tune.go b/common/play_tune.go
index 9aeff5e..b365da0 100644
--- a/common/play_tune.go
+++ b/common/play_tune.go
@@ -97,6 +97,7 @@ func (m *PlayTune) String() string {
 // SetTune encodes the input string to the Tune array
 func (m *PlayTune) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(30)))
+	m.Tune = [30]byte{}
 	copy(m.Tune[:], []byte(input)[:clen])
 
 	if len(input) > 30 {
@@ -116,6 +117,7 @@ func (m *PlayTune) GetTune() string {
 // SetTune2 encodes the input string to the Tune2 array
 func (m *PlayTune) SetTune2(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(200)))
+	m.Tune2 = [200]byte{}
 	copy(m.Tune2[:], []byte(input)[:clen])
 
 	if len(input) > 200 {
diff --git a/common/play_tune_v2.go b/common/play_tune_v2.go
index 4399c8c..cd1f10c 100644
--- a/common/play_tune_v2.go
+++ b/common/play_tune_v2.go
@@ -80,6 +80,7 @@ func (m *PlayTuneV2) String() string {
 // SetTune encodes the input string to the Tune array
 func (m *PlayTuneV2) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(248)))
+	m.Tune = [248]byte{}
 	copy(m.Tune[:], []byte(input)[:clen])
 
 	if len(input) > 248 {
diff --git a/common/smart_battery_info.go b/common/smart_battery_info.go
index 82355e8..8d75d5c 100644
--- a/common/smart_battery_info.go
+++ b/common/smart_battery_info.go
@@ -104,6 +104,7 @@ func (m *SmartBatteryInfo) String() string {
 // SetDeviceName encodes the input string to the DeviceName array
 func (m *SmartBatteryInfo) SetDeviceName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.DeviceName = [50]byte{}
 	copy(m.DeviceName[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/common/statustext.go b/common/statustext.go
index addfc4e..aae7e13 100644
--- a/common/statustext.go
+++ b/common/statustext.go
@@ -72,6 +72,7 @@ func (m *Statustext) String() string {
 // SetText encodes the input string to the Text array
 func (m *Statustext) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.Text = [50]byte{}
 	copy(m.Text[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/common/statustext_long.go b/common/statustext_long.go
index dff0134..ea70a5e 100644
--- a/common/statustext_long.go
+++ b/common/statustext_long.go
@@ -72,6 +72,7 @@ func (m *StatustextLong) String() string {
 // SetText encodes the input string to the Text array
 func (m *StatustextLong) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(254)))
+	m.Text = [254]byte{}
 	copy(m.Text[:], []byte(input)[:clen])
 
 	if len(input) > 254 {
diff --git a/common/uavcan_node_info.go b/common/uavcan_node_info.go
index 00fb5c7..948974c 100644
--- a/common/uavcan_node_info.go
+++ b/common/uavcan_node_info.go
@@ -100,6 +100,7 @@ func (m *UavcanNodeInfo) String() string {
 // SetName encodes the input string to the Name array
 func (m *UavcanNodeInfo) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(80)))
+	m.Name = [80]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 80 {
diff --git a/common/video_stream_information.go b/common/video_stream_information.go
index e8cd673..1fbb155 100644
--- a/common/video_stream_information.go
+++ b/common/video_stream_information.go
@@ -112,6 +112,7 @@ func (m *VIDeoStreamInformation) String() string {
 // SetName encodes the input string to the Name array
 func (m *VIDeoStreamInformation) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.Name = [32]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
@@ -131,6 +132,7 @@ func (m *VIDeoStreamInformation) GetName() string {
 // SetURI encodes the input string to the URI array
 func (m *VIDeoStreamInformation) SetURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(160)))
+	m.URI = [160]byte{}
 	copy(m.URI[:], []byte(input)[:clen])
 
 	if len(input) > 160 {
diff --git a/common/wifi_config_ap.go b/common/wifi_config_ap.go
index 4b5febf..c964746 100644
--- a/common/wifi_config_ap.go
+++ b/common/wifi_config_ap.go
@@ -72,6 +72,7 @@ func (m *WifiConfigAp) String() string {
 // SetSsID encodes the input string to the SsID array
 func (m *WifiConfigAp) SetSsID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.SsID = [32]byte{}
 	copy(m.SsID[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
@@ -91,6 +92,7 @@ func (m *WifiConfigAp) GetSsID() string {
 // SetPassword encodes the input string to the Password array
 func (m *WifiConfigAp) SetPassword(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(64)))
+	m.Password = [64]byte{}
 	copy(m.Password[:], []byte(input)[:clen])
 
 	if len(input) > 64 {
diff --git a/paparazzi/script_item.go b/paparazzi/script_item.go
index cdb8974..8a384d1 100644
--- a/paparazzi/script_item.go
+++ b/paparazzi/script_item.go
@@ -80,6 +80,7 @@ func (m *ScriptItem) String() string {
 // SetName encodes the input string to the Name array
 func (m *ScriptItem) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.Name = [50]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/uAvionix/uavionix_adsb_out_cfg.go b/uAvionix/uavionix_adsb_out_cfg.go
index 64dd936..4f6ecaf 100644
--- a/uAvionix/uavionix_adsb_out_cfg.go
+++ b/uAvionix/uavionix_adsb_out_cfg.go
@@ -96,6 +96,7 @@ func (m *UavionixAdsbOutCfg) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *UavionixAdsbOutCfg) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
+	m.Callsign = [9]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 9 {
-- 
2.43.0

