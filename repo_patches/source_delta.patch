From e52758305a7b12ed2ccc224ef8ba15bd35f77ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:42 +0000
Subject: [PATCH 01/67] fix: SetPublishingMode refuses an empty list of
 subscriptions with BadNothingToDo

---
 server/server_service_set.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a309b18..d1c57f1 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5078,6 +5078,26 @@ func (srv *Server) handleSetPublishingMode(ch *serverSecureChannel, requestid ui
 		return nil
 	}
 
+	if len(req.SubscriptionIDs) == 0 {
+		session.setPublishingModeErrorCount++
+		session.errorCount++
+		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		err := ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadNothingToDo,
+				},
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	results := make([]ua.StatusCode, len(req.SubscriptionIDs))
 	sm := srv.SubscriptionManager()
 	for i, id := range req.SubscriptionIDs {
-- 
2.43.0


From a01335f0e1342c8c53b7ab009f9bf7902323a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:42 +0000
Subject: [PATCH 02/67] fix: SetTriggering refuses more links than
 MaxMonitoredItemsPerCall

---
 server/server_service_set.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index d1c57f1..de3aca1 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -4482,6 +4482,27 @@ func (srv *Server) handleSetTriggering(ch *serverSecureChannel, requestid uint32
 		return nil
 	}
 
+	// check too many operations
+	if len(req.LinksToRemove)+len(req.LinksToAdd) > int(srv.serverCapabilities.OperationLimits.MaxMonitoredItemsPerCall) {
+		session.setTriggeringErrorCount++
+		session.errorCount++
+		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		err := ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadTooManyOperations,
+				},
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	trigger, ok := sub.FindItem(req.TriggeringItemID)
 	if !ok {
 		session.setTriggeringErrorCount++
-- 
2.43.0


From bcf1d0ad804bbfd5f06a04d29c210aab27d00725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:42 +0000
Subject: [PATCH 03/67] fix: a late keep-alive response returns the results of
 the request's acknowledgements

---
 server/subscription.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/server/subscription.go b/server/subscription.go
index cd290e0..8a46612 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -613,7 +613,6 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 					avail = append(avail, nm.SequenceNumber)
 				}
 			}
-			results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 			err := ch.Write(
 				&ua.PublishResponse{
 					ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From 61c1e855ea237551c396b53fe70efe5116cb9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:42 +0000
Subject: [PATCH 04/67] fix: a notification message's sequence number is
 consumed once queued, and never wraps to zero

---
 server/subscription.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/server/subscription.go b/server/subscription.go
index 8a46612..e3c9401 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -265,6 +265,15 @@ func (s *Subscription) setMaxNotificationsPerPublish(maxNotificationsPerPublish
 	s.maxNotificationsPerPublish = math.MaxInt32
 }
 
+// advanceSequenceNumber consumes the current sequence number. Zero is never used.
+func (s *Subscription) advanceSequenceNumber() {
+	if s.nextSequenceNumber == math.MaxUint32 {
+		s.nextSequenceNumber = 1
+		return
+	}
+	s.nextSequenceNumber++
+}
+
 func (s *Subscription) acknowledge(seqNum uint32) bool {
 	s.Lock()
 	defer s.Unlock()
@@ -379,6 +388,7 @@ func (s *Subscription) publish(tn time.Time) error {
 				e.Value = nil
 			}
 			q.PushBack(nm)
+			s.advanceSequenceNumber()
 			avail := make([]uint32, 0, 4)
 			for e := q.Front(); e != nil; e = e.Next() {
 				if nm, ok := e.Value.(ua.NotificationMessage); ok {
@@ -405,7 +415,6 @@ func (s *Subscription) publish(tn time.Time) error {
 			}
 			s.unacknowledgedMessageCount = uint32(len(avail))
 			s.publishRequestCount++
-			s.nextSequenceNumber++
 			s.keepAliveCount = 0
 			s.lifetimeCount = 0
 			s.isLate = false
@@ -423,7 +432,7 @@ func (s *Subscription) publish(tn time.Time) error {
 				NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 			}
 			s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
-			s.nextSequenceNumber++
+			s.advanceSequenceNumber()
 			s.manager.Delete(s)
 			s.deleteImpl()
 		}
@@ -489,7 +498,7 @@ func (s *Subscription) publish(tn time.Time) error {
 					NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 				}
 				s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
-				s.nextSequenceNumber++
+				s.advanceSequenceNumber()
 				s.manager.Delete(s)
 				s.deleteImpl()
 			}
@@ -568,6 +577,7 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 			q.Remove(e)
 		}
 		q.PushBack(nm)
+		s.advanceSequenceNumber()
 		avail := make([]uint32, 0, 4)
 		for e := q.Front(); e != nil; e = e.Next() {
 			if nm, ok := e.Value.(ua.NotificationMessage); ok {
@@ -595,7 +605,6 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 		s.publishRequestCount++
 		s.latePublishRequestCount++
 		s.unacknowledgedMessageCount = uint32(len(avail))
-		s.nextSequenceNumber++
 		s.keepAliveCount = 0
 		s.lifetimeCount = 0
 		s.moreNotifications = more
-- 
2.43.0


From cfb9d477eb77801758ff2a48f3b87d14bd9b1ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:44 +0000
Subject: [PATCH 05/67] fix: Republish searches the retransmission queue under
 the subscription's lock and keeps the message until acknowledged

---
 server/server_service_set.go | 42 ++++++++++++------------------------
 server/subscription.go       | 18 ++++++++++++++++
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index de3aca1..dc1cc4f 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5558,35 +5558,21 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 		return nil
 	}
 
-	s.Lock()
-	s.lifetimeCount = 0
-	s.Unlock()
-
-	s.republishRequestCount++
-	s.republishMessageRequestCount++
-	q := s.retransmissionQueue
-	for e := q.Front(); e != nil; e = e.Next() {
-		if nm, ok := e.Value.(ua.NotificationMessage); ok {
-			if req.RetransmitSequenceNumber == nm.SequenceNumber {
-				err := ch.Write(
-					&ua.RepublishResponse{
-						ResponseHeader: ua.ResponseHeader{
-							Timestamp:     time.Now(),
-							RequestHandle: req.RequestHeader.RequestHandle,
-						},
-						NotificationMessage: nm,
-					},
-					requestid,
-				)
-				if err != nil {
-					return err
-				}
-				s.republishMessageCount++
-				q.Remove(e)
-				e.Value = nil
-				return nil
-			}
+	if nm, ok := s.republish(req.RetransmitSequenceNumber); ok {
+		err := ch.Write(
+			&ua.RepublishResponse{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHeader.RequestHandle,
+				},
+				NotificationMessage: nm,
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
 		}
+		return nil
 	}
 	session.republishErrorCount++
 	session.errorCount++
diff --git a/server/subscription.go b/server/subscription.go
index e3c9401..62eebbf 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -288,6 +288,24 @@ func (s *Subscription) acknowledge(seqNum uint32) bool {
 	return false
 }
 
+// republish returns the notification message with the given sequence number. The message is kept until acknowledged.
+func (s *Subscription) republish(seqNum uint32) (ua.NotificationMessage, bool) {
+	s.Lock()
+	defer s.Unlock()
+	s.lifetimeCount = 0
+	s.republishRequestCount++
+	s.republishMessageRequestCount++
+	if q := s.retransmissionQueue; q != nil {
+		for e := q.Front(); e != nil; e = e.Next() {
+			if nm, ok := e.Value.(ua.NotificationMessage); ok && nm.SequenceNumber == seqNum {
+				s.republishMessageCount++
+				return nm, true
+			}
+		}
+	}
+	return ua.NotificationMessage{}, false
+}
+
 func (s *Subscription) startPublishing() {
 	// log.Printf("startPublishing %d \n", s.id)
 	s.cancelPublishing = make(chan struct{})
-- 
2.43.0


From 53324d23f33fe455d68b8ea4e353cd7b5c8f23a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:02 +0000
Subject: [PATCH 06/67] fix: decoding a DiagnosticInfo allocates the optional
 fields instead of writing through nil pointers

---
 ua/binary_decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 11cde47..6f2f7c0 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -2091,36 +2091,43 @@ func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
 		return BadDecodingError
 	}
 	if (b & 1) != 0 {
+		result.SymbolicID = new(int32)
 		if err := dec.ReadInt32(result.SymbolicID); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 2) != 0 {
+		result.NamespaceURI = new(int32)
 		if err := dec.ReadInt32(result.NamespaceURI); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 8) != 0 {
+		result.Locale = new(int32)
 		if err := dec.ReadInt32(result.Locale); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 4) != 0 {
+		result.LocalizedText = new(int32)
 		if err := dec.ReadInt32(result.LocalizedText); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 16) != 0 {
+		result.AdditionalInfo = new(string)
 		if err := dec.ReadString(result.AdditionalInfo); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 32) != 0 {
+		result.InnerStatusCode = new(StatusCode)
 		if err := dec.ReadStatusCode(result.InnerStatusCode); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 64) != 0 {
+		result.InnerDiagnosticInfo = new(DiagnosticInfo)
 		if err := dec.ReadDiagnosticInfo(result.InnerDiagnosticInfo); err != nil {
 			return BadDecodingError
 		}
-- 
2.43.0


From d9cefe2b8fcdae69e56b4052e75c362584d1618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:02 +0000
Subject: [PATCH 07/67] fix: an ExpandedNodeID with a null NodeID keeps its
 namespace-URI and server-index flags when encoded

---
 ua/binary_encoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 015cc77..41b0f3a 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -705,7 +705,10 @@ func (enc *BinaryEncoder) WriteExpandedNodeID(value ExpandedNodeID) error {
 			return BadEncodingError
 		}
 	default:
-		if err := enc.WriteUInt16(0); err != nil {
+		if err := enc.WriteByte(0x00 | b); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteByte(0); err != nil {
 			return BadEncodingError
 		}
 	}
-- 
2.43.0


From e55a000daf4149512210bcd7f42ac6c772d40a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:06 +0000
Subject: [PATCH 08/67] fix: a Variant can hold a DataValue or DiagnosticInfo,
 which the decoder already accepts

---
 ua/binary_encoder.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 41b0f3a..7067e68 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -1046,6 +1046,20 @@ func (enc *BinaryEncoder) WriteVariant(value Variant) error {
 		if err := enc.WriteLocalizedText(v1); err != nil {
 			return BadEncodingError
 		}
+	case DataValue:
+		if err := enc.WriteByte(VariantTypeDataValue); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDataValue(v1); err != nil {
+			return BadEncodingError
+		}
+	case DiagnosticInfo:
+		if err := enc.WriteByte(VariantTypeDiagnosticInfo); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDiagnosticInfo(v1); err != nil {
+			return BadEncodingError
+		}
 	case []bool:
 		if err := enc.WriteByte(VariantTypeBoolean | VariantTypeArray); err != nil {
 			return BadEncodingError
@@ -1695,6 +1709,33 @@ func (enc *BinaryEncoder) WriteVariant(value Variant) error {
 		if err := enc.WriteInt32Array(dims3D(v1)); err != nil {
 			return BadEncodingError
 		}
+	case []DiagnosticInfo:
+		if err := enc.WriteByte(VariantTypeDiagnosticInfo | VariantTypeArray); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDiagnosticInfoArray(v1); err != nil {
+			return BadEncodingError
+		}
+	case [][]DiagnosticInfo:
+		if err := enc.WriteByte(VariantTypeDiagnosticInfo | VariantTypeArray | VariantTypeMultiDimensionArray); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDiagnosticInfoArray(flatten2D(v1)); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteInt32Array(dims2D(v1)); err != nil {
+			return BadEncodingError
+		}
+	case [][][]DiagnosticInfo:
+		if err := enc.WriteByte(VariantTypeDiagnosticInfo | VariantTypeArray | VariantTypeMultiDimensionArray); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDiagnosticInfoArray(flatten3D(v1)); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteInt32Array(dims3D(v1)); err != nil {
+			return BadEncodingError
+		}
 	default:
 		switch v2 := reflect.ValueOf(value); v2.Kind() {
 		case reflect.Struct:
-- 
2.43.0


From 6e718172640d63d7058699e5f15952bc7569860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:05 +0000
Subject: [PATCH 09/67] fix: a DataValue whose value cannot be decoded is a
 decoding error, not a value with the rest of the stream misread

---
 ua/binary_decoder.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 6f2f7c0..a6cc99c 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -829,11 +829,10 @@ func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
 	}
 	if (b & 1) != 0 {
 		if err := dec.ReadVariant(&v); err != nil {
-			// return BadDecodingError
-			statusCode = BadDataTypeIDUnknown
+			return BadDecodingError
 		}
 	}
-	if (b&2) != 0 && statusCode == 0 {
+	if (b & 2) != 0 {
 		if err := dec.ReadStatusCode(&statusCode); err != nil {
 			return BadDecodingError
 		}
-- 
2.43.0


From bcac052f8de6779dd326cdd7784db16531f887dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:01 +0000
Subject: [PATCH 10/67] fix: the decoder refuses a length that exceeds the
 bytes that remain, before allocating for it

---
 ua/binary_decoder.go | 75 +++++++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 28 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index a6cc99c..78f79a8 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -194,7 +194,7 @@ func getSliceDecoder(typ reflect.Type) (decoderFunc, error) {
 	return func(buf *BinaryDecoder, p unsafe.Pointer) error {
 		hdr := (*sliceHeader)(p)
 		var l int32
-		if err := buf.ReadInt32(&l); err != nil {
+		if err := buf.readLength(&l); err != nil {
 			return err
 		}
 		len := int(l)
@@ -437,10 +437,29 @@ func (dec *BinaryDecoder) ReadDouble(value *float64) error {
 	return nil
 }
 
+// readLength reads the length of a string or array. A length that exceeds the number of bytes that
+// remain to be read is refused, before anything is allocated for it.
+func (dec *BinaryDecoder) readLength(value *int32) error {
+	if err := dec.ReadInt32(value); err != nil {
+		return BadDecodingError
+	}
+	switch r := dec.r.(type) {
+	case interface{ Len() int }:
+		if int64(*value) > int64(r.Len()) {
+			return BadDecodingError
+		}
+	case interface{ Len() int64 }:
+		if int64(*value) > r.Len() {
+			return BadDecodingError
+		}
+	}
+	return nil
+}
+
 // ReadString reads a string.
 func (dec *BinaryDecoder) ReadString(value *string) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -497,7 +516,7 @@ func (dec *BinaryDecoder) ReadGUID(value *uuid.UUID) error {
 // ReadByteString reads a ByteString.
 func (dec *BinaryDecoder) ReadByteString(value *ByteString) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n <= 0 {
@@ -2138,7 +2157,7 @@ func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
 // ReadBooleanArray reads a bool array.
 func (dec *BinaryDecoder) ReadBooleanArray(value *[]bool) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2158,7 +2177,7 @@ func (dec *BinaryDecoder) ReadBooleanArray(value *[]bool) error {
 // ReadSByteArray reads a int8 array.
 func (dec *BinaryDecoder) ReadSByteArray(value *[]int8) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2178,7 +2197,7 @@ func (dec *BinaryDecoder) ReadSByteArray(value *[]int8) error {
 // ReadByteArray reads a byte array.
 func (dec *BinaryDecoder) ReadByteArray(value *[]byte) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2196,7 +2215,7 @@ func (dec *BinaryDecoder) ReadByteArray(value *[]byte) error {
 // ReadInt16Array reads a int16 array.
 func (dec *BinaryDecoder) ReadInt16Array(value *[]int16) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2216,7 +2235,7 @@ func (dec *BinaryDecoder) ReadInt16Array(value *[]int16) error {
 // ReadUInt16Array reads a uint16 array.
 func (dec *BinaryDecoder) ReadUInt16Array(value *[]uint16) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2236,7 +2255,7 @@ func (dec *BinaryDecoder) ReadUInt16Array(value *[]uint16) error {
 // ReadInt32Array reads a int32 array.
 func (dec *BinaryDecoder) ReadInt32Array(value *[]int32) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2256,7 +2275,7 @@ func (dec *BinaryDecoder) ReadInt32Array(value *[]int32) error {
 // ReadUInt32Array reads a uint32 array.
 func (dec *BinaryDecoder) ReadUInt32Array(value *[]uint32) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2276,7 +2295,7 @@ func (dec *BinaryDecoder) ReadUInt32Array(value *[]uint32) error {
 // ReadInt64Array reads a int64 array.
 func (dec *BinaryDecoder) ReadInt64Array(value *[]int64) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2296,7 +2315,7 @@ func (dec *BinaryDecoder) ReadInt64Array(value *[]int64) error {
 // ReadUInt64Array reads a uint64 array.
 func (dec *BinaryDecoder) ReadUInt64Array(value *[]uint64) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2316,7 +2335,7 @@ func (dec *BinaryDecoder) ReadUInt64Array(value *[]uint64) error {
 // ReadFloatArray reads a float32 array.
 func (dec *BinaryDecoder) ReadFloatArray(value *[]float32) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2336,7 +2355,7 @@ func (dec *BinaryDecoder) ReadFloatArray(value *[]float32) error {
 // ReadDoubleArray reads a float64 array.
 func (dec *BinaryDecoder) ReadDoubleArray(value *[]float64) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2356,7 +2375,7 @@ func (dec *BinaryDecoder) ReadDoubleArray(value *[]float64) error {
 // ReadStringArray reads a string array.
 func (dec *BinaryDecoder) ReadStringArray(value *[]string) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2376,7 +2395,7 @@ func (dec *BinaryDecoder) ReadStringArray(value *[]string) error {
 // ReadDateTimeArray reads a Time array.
 func (dec *BinaryDecoder) ReadDateTimeArray(value *[]time.Time) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2396,7 +2415,7 @@ func (dec *BinaryDecoder) ReadDateTimeArray(value *[]time.Time) error {
 // ReadGUIDArray reads a UUID array.
 func (dec *BinaryDecoder) ReadGUIDArray(value *[]uuid.UUID) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2416,7 +2435,7 @@ func (dec *BinaryDecoder) ReadGUIDArray(value *[]uuid.UUID) error {
 // ReadByteStringArray reads a ByteString array.
 func (dec *BinaryDecoder) ReadByteStringArray(value *[]ByteString) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2436,7 +2455,7 @@ func (dec *BinaryDecoder) ReadByteStringArray(value *[]ByteString) error {
 // ReadXMLElementArray reads a XMLElement array.
 func (dec *BinaryDecoder) ReadXMLElementArray(value *[]XMLElement) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2456,7 +2475,7 @@ func (dec *BinaryDecoder) ReadXMLElementArray(value *[]XMLElement) error {
 // ReadNodeIDArray reads a NodeID array.
 func (dec *BinaryDecoder) ReadNodeIDArray(value *[]NodeID) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2476,7 +2495,7 @@ func (dec *BinaryDecoder) ReadNodeIDArray(value *[]NodeID) error {
 // ReadExpandedNodeIDArray reads a ExpandedNodeID array.
 func (dec *BinaryDecoder) ReadExpandedNodeIDArray(value *[]ExpandedNodeID) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2496,7 +2515,7 @@ func (dec *BinaryDecoder) ReadExpandedNodeIDArray(value *[]ExpandedNodeID) error
 // ReadStatusCodeArray reads a StatusCode array.
 func (dec *BinaryDecoder) ReadStatusCodeArray(value *[]StatusCode) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2516,7 +2535,7 @@ func (dec *BinaryDecoder) ReadStatusCodeArray(value *[]StatusCode) error {
 // ReadQualifiedNameArray reads a QualifiedName array.
 func (dec *BinaryDecoder) ReadQualifiedNameArray(value *[]QualifiedName) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2536,7 +2555,7 @@ func (dec *BinaryDecoder) ReadQualifiedNameArray(value *[]QualifiedName) error {
 // ReadLocalizedTextArray reads a LocalizedText array.
 func (dec *BinaryDecoder) ReadLocalizedTextArray(value *[]LocalizedText) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2556,7 +2575,7 @@ func (dec *BinaryDecoder) ReadLocalizedTextArray(value *[]LocalizedText) error {
 // ReadExtensionObjectArray reads a ExtensionObject array.
 func (dec *BinaryDecoder) ReadExtensionObjectArray(value *[]ExtensionObject) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2576,7 +2595,7 @@ func (dec *BinaryDecoder) ReadExtensionObjectArray(value *[]ExtensionObject) err
 // ReadDataValueArray reads a DataValue array.
 func (dec *BinaryDecoder) ReadDataValueArray(value *[]DataValue) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2596,7 +2615,7 @@ func (dec *BinaryDecoder) ReadDataValueArray(value *[]DataValue) error {
 // ReadVariantArray reads a Variant array.
 func (dec *BinaryDecoder) ReadVariantArray(value *[]Variant) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2616,7 +2635,7 @@ func (dec *BinaryDecoder) ReadVariantArray(value *[]Variant) error {
 // ReadDiagnosticInfoArray reads a DiagnosticInfo array.
 func (dec *BinaryDecoder) ReadDiagnosticInfoArray(value *[]DiagnosticInfo) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
-- 
2.43.0


From 6e689db68c310bc75dc104cab20e2ebd5de0a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:06 +0000
Subject: [PATCH 11/67] fix: the decoder limits the nesting of variants,
 extension objects and diagnostic infos

---
 ua/binary_decoder.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 78f79a8..76a5ba6 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -24,11 +24,16 @@ type BinaryDecoder struct {
 	r  io.Reader
 	ec EncodingContext
 	bs [8]byte
+	// depth is the number of nested values being decoded.
+	depth int
 }
 
+// maxDecodingDepth is the number of nested Variants, ExtensionObjects and DiagnosticInfos a decoder accepts.
+const maxDecodingDepth = 100
+
 // NewBinaryDecoder returns a new decoder that reads from an io.Reader.
 func NewBinaryDecoder(r io.Reader, ec EncodingContext) *BinaryDecoder {
-	return &BinaryDecoder{r, ec, [8]byte{}}
+	return &BinaryDecoder{r, ec, [8]byte{}, 0}
 }
 
 type decoderFunc func(*BinaryDecoder, unsafe.Pointer) error
@@ -786,6 +791,11 @@ func (dec *BinaryDecoder) ReadLocalizedText(value *LocalizedText) error {
 
 // ReadExtensionObject reads an Extensionobject.
 func (dec *BinaryDecoder) ReadExtensionObject(value *ExtensionObject) error {
+	if dec.depth >= maxDecodingDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	var nodeID NodeID
 	if err := dec.ReadNodeID(&nodeID); err != nil {
 		return BadDecodingError
@@ -882,6 +892,11 @@ func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
 
 // ReadVariant reads a Variant.
 func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
+	if dec.depth >= maxDecodingDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	var b byte
 	if err := dec.ReadByte(&b); err != nil {
 		return BadDecodingError
@@ -2103,6 +2118,11 @@ func split(level, i, j int, dims []int, vals reflect.Value) reflect.Value {
 
 // ReadDiagnosticInfo reads a DiagnosticInfo.
 func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
+	if dec.depth >= maxDecodingDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	result := DiagnosticInfo{}
 	var b byte
 	if err := dec.ReadByte(&b); err != nil {
-- 
2.43.0


From eabb5ba58089e38bee1824128acf16f946564edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:30 +0000
Subject: [PATCH 12/67] fix: the decoder checks the dimensions of a
 multi-dimensional array against its elements

---
 ua/binary_decoder.go | 80 ++++++++++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 76a5ba6..b86b72b 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -28,6 +28,9 @@ type BinaryDecoder struct {
 	depth int
 }
 
+// maxEmptyArrays is the number of arrays without elements a multi-dimensional array may consist of.
+const maxEmptyArrays = 65535
+
 // maxDecodingDepth is the number of nested Variants, ExtensionObjects and DiagnosticInfos a decoder accepts.
 const maxDecodingDepth = 100
 
@@ -1337,7 +1340,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1367,7 +1370,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1397,7 +1400,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1427,7 +1430,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1457,7 +1460,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1487,7 +1490,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1517,7 +1520,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1547,7 +1550,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1577,7 +1580,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1607,7 +1610,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1637,7 +1640,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1667,7 +1670,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1697,7 +1700,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1727,7 +1730,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1757,7 +1760,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1787,7 +1790,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1817,7 +1820,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1847,7 +1850,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1877,7 +1880,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1907,7 +1910,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1937,7 +1940,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1967,7 +1970,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1997,7 +2000,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2027,7 +2030,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2057,7 +2060,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2086,6 +2089,33 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 	}
 }
 
+// readDimensions reads the dimensions of an array of n elements. Dimensions that are negative or
+// do not agree with the number of elements are refused.
+func (dec *BinaryDecoder) readDimensions(value *[]int32, n int) error {
+	var dims []int32
+	if err := dec.ReadInt32Array(&dims); err != nil {
+		return BadDecodingError
+	}
+	product, size := int64(1), int64(1)
+	for _, d := range dims {
+		if d < 0 {
+			return BadDecodingError
+		}
+		product *= int64(d)
+		if d > 0 {
+			size *= int64(d)
+		}
+		if size > int64(n) && size > maxEmptyArrays {
+			return BadDecodingError
+		}
+	}
+	if product != int64(n) {
+		return BadDecodingError
+	}
+	*value = dims
+	return nil
+}
+
 // split recursively creates a multi-dimensional array from a set of values
 // and some given dimensions.
 func split(level, i, j int, dims []int, vals reflect.Value) reflect.Value {
-- 
2.43.0


From 02c7fb39bdb4ee5b6f5e426875ff5c283bd54629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:55 +0000
Subject: [PATCH 13/67] fix: a chunk too short for its headers, signature or
 padding, or with token id zero, is an error instead of a panic

---
 client/client_secure_channel.go | 12 ++++++++++++
 server/server_secure_channel.go | 17 +++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 4352104..22f598a 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1454,6 +1454,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			ch.tokenLock.RUnlock()
 
 			plainHeaderSize = 16
+			if count < plainHeaderSize+sequenceHeaderSize+signatureSize {
+				return nil, ua.BadDecodingError
+			}
 			// decrypt
 			if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt {
 				span := receiveBuffer[plainHeaderSize:count]
@@ -1502,6 +1505,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			default:
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize - signatureSize
 			}
+			if bodySize < 0 {
+				return nil, ua.BadDecodingError
+			}
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
@@ -1557,6 +1563,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				// verify with remote public key.
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.remotePublicKeySize
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, ua.BadDecodingError
+				}
 				err := ch.securityPolicy.RSAVerify(ch.remotePublicKey, receiveBuffer[:sigStart], receiveBuffer[sigStart:sigEnd])
 				if err != nil {
 					return nil, ua.BadDecodingError
@@ -1591,6 +1600,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			default:
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize // - ch.asymRemoteSignatureSize
 			}
+			if bodySize < 0 {
+				return nil, ua.BadDecodingError
+			}
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 43fcd48..6cc8fde 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1088,6 +1088,11 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				return nil, 0, ua.BadDecodingError
 			}
 
+			// no token has been issued with id zero, nor any keys
+			if newTokenID == 0 {
+				return nil, 0, ua.BadSecureChannelTokenUnknown
+			}
+
 			// detect new token
 			if ch.tokenID != newTokenID {
 				if newTokenID != ch.pendingTokenID {
@@ -1149,6 +1154,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			plainHeaderSize = 16
+			if count < plainHeaderSize+sequenceHeaderSize+ch.securityPolicy.SymSignatureSize() {
+				return nil, 0, ua.BadDecodingError
+			}
 			// decrypt
 			if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt {
 				span := ch.receiveBuffer[plainHeaderSize:count]
@@ -1201,6 +1209,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			} else {
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize - symSignatureSize
 			}
+			if bodySize < 0 {
+				return nil, 0, ua.BadDecodingError
+			}
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
@@ -1294,6 +1305,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				// verify with remote public key.
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.remotePublicKey.Size()
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, 0, ua.BadDecodingError
+				}
 				err := ch.securityPolicy.RSAVerify(ch.remotePublicKey, ch.receiveBuffer[:sigStart], ch.receiveBuffer[sigStart:sigEnd])
 				if err != nil {
 					return nil, 0, ua.BadDecodingError
@@ -1328,6 +1342,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			} else {
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize //- ch.asymRemoteSignatureSize
 			}
+			if bodySize < 0 {
+				return nil, 0, ua.BadDecodingError
+			}
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
-- 
2.43.0


From 8293ecf9c4450abf431c9fc6688416c4bb0bb02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:16 +0000
Subject: [PATCH 14/67] fix: the client refuses a message secured by a token
 before the server has issued one

---
 client/client_secure_channel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 22f598a..6c713a3 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1433,6 +1433,11 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 			// detect new token
 			ch.tokenLock.RLock()
+			// no keys exist before the server has issued a token
+			if tokenID == 0 || ch.tokenID == 0 {
+				ch.tokenLock.RUnlock()
+				return nil, ua.BadSecureChannelTokenUnknown
+			}
 			if tokenID != ch.receivingTokenID {
 				ch.receivingTokenID = tokenID
 
-- 
2.43.0


From 29bd38c37ff1c41202a5536b76d497766171decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:39 +0000
Subject: [PATCH 15/67] fix: a certificate whose key is not RSA is refused
 instead of a panic

---
 client/client_secure_channel.go | 2 +-
 server/server_secure_channel.go | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 6c713a3..1ce4d8d 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -187,7 +187,7 @@ func newClientSecureChannel(
 		trace:                                trace,
 	}
 	if certs, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(certs) > 0 {
-		ch.remotePublicKey = certs[0].PublicKey.(*rsa.PublicKey)
+		ch.remotePublicKey, _ = certs[0].PublicKey.(*rsa.PublicKey)
 		ch.remoteThumbprint = sha1.Sum(certs[0].Raw)
 	}
 	return ch
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 6cc8fde..0c36f16 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -338,7 +338,11 @@ func (ch *serverSecureChannel) Open() error {
 			return err
 		}
 		cert := certs[0]
-		ch.remotePublicKey = cert.PublicKey.(*rsa.PublicKey)
+		publicKey, ok := cert.PublicKey.(*rsa.PublicKey)
+		if !ok {
+			return ua.BadSecurityChecksFailed
+		}
+		ch.remotePublicKey = publicKey
 		if len(cert.URIs) > 0 {
 			ch.remoteApplicationURI = cert.URIs[0].String()
 		}
@@ -1277,7 +1281,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				}
 
 				if crts, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(crts) > 0 {
-					ch.remotePublicKey = crts[0].PublicKey.(*rsa.PublicKey)
+					ch.remotePublicKey, _ = crts[0].PublicKey.(*rsa.PublicKey)
 				}
 
 				if ch.remotePublicKey == nil {
-- 
2.43.0


From 6df40f60561abc0370aa7fafac6a95b4cad00c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:21 +0000
Subject: [PATCH 16/67] fix: the server neither opens an endpoint it does not
 offer nor lets a renewal change the channel's security policy or certificate

---
 server/server_secure_channel.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 0c36f16..938fb65 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -291,7 +291,7 @@ func (ch *serverSecureChannel) Open() error {
 			break
 		}
 	}
-	// connecting for discovery only
+	// an endpoint that is not offered is not accepted, except when connecting for discovery only
 	if ch.localEndpoint.EndpointURL == "" && ch.securityPolicyURI == ua.SecurityPolicyURINone && ch.securityMode == ua.MessageSecurityModeNone {
 		ch.discoveryOnly = true
 		ch.localEndpoint = ua.EndpointDescription{
@@ -310,6 +310,9 @@ func (ch *serverSecureChannel) Open() error {
 			SecurityLevel:       0,
 		}
 	}
+	if ch.localEndpoint.EndpointURL == "" {
+		return ua.BadSecurityPolicyRejected
+	}
 
 	if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 		rc := ch.remoteCertificate
@@ -1230,12 +1233,20 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				return nil, 0, ua.BadDecodingError
 			}
 			// asymmetric header
-			if err := decoder.ReadString(&ch.securityPolicyURI); err != nil {
+			var securityPolicyURI string
+			if err := decoder.ReadString(&securityPolicyURI); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
-			if err := decoder.ReadByteArray(&ch.remoteCertificate); err != nil {
+			var remoteCertificate []byte
+			if err := decoder.ReadByteArray(&remoteCertificate); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			// the security policy and the certificate are fixed once the channel is open
+			if ch.pendingTokenID != 0 && (securityPolicyURI != ch.securityPolicyURI || !bytes.Equal(remoteCertificate, ch.remoteCertificate)) {
+				return nil, 0, ua.BadSecurityChecksFailed
+			}
+			ch.securityPolicyURI = securityPolicyURI
+			ch.remoteCertificate = remoteCertificate
 			if err := decoder.ReadByteArray(&ch.remoteCertificateThumbprint); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
-- 
2.43.0


From bd8464134c96cf2441c0249ea7ff90ef475ea462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:26 +0000
Subject: [PATCH 17/67] fix: only chunks of the same message are joined

---
 client/client_secure_channel.go | 13 ++++++++++++-
 server/server_secure_channel.go | 12 +++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 1ce4d8d..465bfdb 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1373,6 +1373,7 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 	var plainHeaderSize int
 	var bodySize int
 	var paddingSize int
+	var id uint32
 	signatureSize := ch.securityPolicy.SymSignatureSize()
 
 	var bodyStream = buffer.NewPartitionAt(ch.bufferPool)
@@ -1489,9 +1490,15 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				return nil, ua.BadDecodingError
 			}
 
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var requestID uint32
+			if err = decoder.ReadUInt32(&requestID); err != nil {
+				return nil, ua.BadDecodingError
+			}
+			// all chunks of a message carry the id of its request
+			if chunkCount > 1 && requestID != id {
 				return nil, ua.BadDecodingError
 			}
+			id = requestID
 
 			// body
 			switch ch.securityMode {
@@ -1524,6 +1531,10 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			isFinal = messageType == ua.MessageTypeFinal
 
 		case ua.MessageTypeOpenFinal:
+			// a message to open the channel has one chunk, and is not part of another message
+			if chunkCount > 1 {
+				return nil, ua.BadTCPMessageTypeInvalid
+			}
 			// header
 			var unused1 uint32
 			if err = decoder.ReadUInt32(&unused1); err != nil {
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 938fb65..0a6f295 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1194,9 +1194,15 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				return nil, 0, ua.BadDecodingError
 			}
 
-			if err = decoder.ReadUInt32(&id); err != nil {
+			var requestID uint32
+			if err = decoder.ReadUInt32(&requestID); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			// all chunks of a message carry the id of its request
+			if chunkCount > 1 && requestID != id {
+				return nil, 0, ua.BadDecodingError
+			}
+			id = requestID
 
 			// body
 			var symEncryptionBlockSize = ch.securityPolicy.SymEncryptionBlockSize()
@@ -1228,6 +1234,10 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			isFinal = messageType != ua.MessageTypeChunk
 
 		case ua.MessageTypeOpenFinal:
+			// a message to open the channel has one chunk, and is not part of another message
+			if chunkCount > 1 {
+				return nil, 0, ua.BadTCPMessageTypeInvalid
+			}
 			// header
 			if err = decoder.ReadUInt32(&channelID); err != nil {
 				return nil, 0, ua.BadDecodingError
-- 
2.43.0


From ca782f2cde066f4befde55356ece170a888e9db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:05 +0000
Subject: [PATCH 18/67] fix: a received chunk whose sequence number does not
 follow the previous one ends the channel

---
 client/client_secure_channel.go | 30 ++++++++++++++++++++++++++----
 server/server_secure_channel.go | 28 ++++++++++++++++++++++++----
 2 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 465bfdb..9cee179 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -109,6 +109,8 @@ type clientSecureChannel struct {
 	closing                    bool
 	requestHandle              uint32
 	sequenceNumber             uint32
+	lastReceivedSequenceNumber uint32
+	receivedSequenceNumber     bool
 	sendingTokenID             uint32
 	receivingTokenID           uint32
 	localSigningKey            []byte
@@ -440,6 +442,7 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 	ch.tokenID = 0
 	ch.sendingTokenID = 0
 	ch.receivingTokenID = 0
+	ch.receivedSequenceNumber = false
 
 	go ch.responseWorker()
 
@@ -1485,10 +1488,13 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 
 			// read sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			if !ch.checkSequenceNumber(sequenceNumber) {
+				return nil, ua.BadSequenceNumberInvalid
+			}
 
 			var requestID uint32
 			if err = decoder.ReadUInt32(&requestID); err != nil {
@@ -1589,10 +1595,14 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 
 			// sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			if !ch.checkSequenceNumber(sequenceNumber) {
+				return nil, ua.BadSequenceNumberInvalid
+			}
+			var unused uint32
 			if err = decoder.ReadUInt32(&unused); err != nil {
 				return nil, ua.BadDecodingError
 			}
@@ -1876,6 +1886,18 @@ func (ch *clientSecureChannel) getNextSequenceNumber() uint32 {
 	}
 }
 
+// checkSequenceNumber reports whether the sequence number of a received chunk follows that of the previous one.
+// Near its maximum the number may wrap around to a value below 1024.
+func (ch *clientSecureChannel) checkSequenceNumber(value uint32) bool {
+	last := ch.lastReceivedSequenceNumber
+	if ch.receivedSequenceNumber && value != last+1 && !(last > math.MaxUint32-1024 && value < 1024) {
+		return false
+	}
+	ch.receivedSequenceNumber = true
+	ch.lastReceivedSequenceNumber = value
+	return true
+}
+
 // getNextNonce gets next random nonce of requested length.
 func getNextNonce(length int) []byte {
 	var nonce = make([]byte, length)
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 0a6f295..38923df 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -65,6 +65,8 @@ type serverSecureChannel struct {
 	sendingSemaphore            sync.Mutex
 	receivingSemaphore          sync.Mutex
 	lastSequenceNumber          uint32
+	lastReceivedSequenceNumber  uint32
+	receivedSequenceNumber      bool
 	pendingTokenID              uint32
 	pendingTokenExpiration      time.Time
 	tokenID                     uint32
@@ -1189,10 +1191,13 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			// read sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			if !ch.checkSequenceNumber(sequenceNumber) {
+				return nil, 0, ua.BadSequenceNumberInvalid
+			}
 
 			var requestID uint32
 			if err = decoder.ReadUInt32(&requestID); err != nil {
@@ -1340,10 +1345,13 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			// sequence header
-			var unused uint32
-			if err := decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err := decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			if !ch.checkSequenceNumber(sequenceNumber) {
+				return nil, 0, ua.BadSequenceNumberInvalid
+			}
 
 			if err := decoder.ReadUInt32(&id); err != nil {
 				return nil, 0, ua.BadDecodingError
@@ -1571,6 +1579,18 @@ func (ch *serverSecureChannel) getNextSequenceNumber() uint32 {
 	}
 }
 
+// checkSequenceNumber reports whether the sequence number of a received chunk follows that of the previous one.
+// Near its maximum the number may wrap around to a value below 1024.
+func (ch *serverSecureChannel) checkSequenceNumber(value uint32) bool {
+	last := ch.lastReceivedSequenceNumber
+	if ch.receivedSequenceNumber && value != last+1 && !(last > math.MaxUint32-1024 && value < 1024) {
+		return false
+	}
+	ch.receivedSequenceNumber = true
+	ch.lastReceivedSequenceNumber = value
+	return true
+}
+
 // getNextTokenID gets next TokenID in sequence, skipping zero.
 func (ch *serverSecureChannel) getNextTokenID() uint32 {
 	for {
-- 
2.43.0


From 502cae6ac03a03e8733b67705b72aa324806d974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:23 +0000
Subject: [PATCH 19/67] fix: Hello and Acknowledge with buffer sizes below the
 protocol's minimum are refused, and buffers never exceed the local ones

---
 client/client_secure_channel.go | 25 +++++++++++++++++++------
 server/server_secure_channel.go | 10 ++++++++--
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 9cee179..f81d6ff 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -46,6 +46,8 @@ const (
 	protocolVersion uint32 = 0
 	// defaultMaxBufferSize is the default limit on the size of the send and receive buffers.
 	defaultMaxBufferSize uint32 = 64 * 1024
+	// minBufferSize is the least size of the send and receive buffers that the protocol allows.
+	minBufferSize uint32 = 8192
 	// defaultMaxMessageSize is the default limit on the size of messages that may be accepted.
 	defaultMaxMessageSize uint32 = 64 * 1024 * 1024
 	// defaultMaxChunkCount is the default limit on the number of message chunks that may be accepted.
@@ -328,12 +330,12 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 	//   log.Printf("Hello{\"Version\":%d,\"ReceiveBufferSize\":%d,\"SendBufferSize\":%d,\"MaxMessageSize\":%d,\"MaxChunkCount\":%d,\"EndpointURL\":\"%s\"}\n", protocolVersion, ch.receiveBufferSize, ch.sendBufferSize, ch.maxResponseMessageSize, ch.maxResponseChunkCount, ch.endpointURL)
 	// }
 
-	_, err = ch.Read(buf)
+	count, err := ch.Read(buf)
 	if err != nil {
 		return err
 	}
 
-	var reader = bytes.NewReader(buf)
+	var reader = bytes.NewReader(buf[:count])
 	var dec = ua.NewBinaryDecoder(reader, ch)
 	var msgType uint32
 	if err := dec.ReadUInt32(&msgType); err != nil {
@@ -356,14 +358,25 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		if remoteProtocolVersion < protocolVersion {
 			return ua.BadProtocolVersionUnsupported
 		}
-		// read the remote receiveBufferSize into the local sendBufferSize
-		if err := dec.ReadUInt32(&ch.sendBufferSize); err != nil {
+		var remoteReceiveBufferSize, remoteSendBufferSize uint32
+		if err := dec.ReadUInt32(&remoteReceiveBufferSize); err != nil {
 			return err
 		}
-		// read the remote sendBufferSize into the local receiveBufferSize
-		if err := dec.ReadUInt32(&ch.receiveBufferSize); err != nil {
+		if err := dec.ReadUInt32(&remoteSendBufferSize); err != nil {
 			return err
 		}
+		// buffers must have room for the headers and signature of a chunk
+		if remoteReceiveBufferSize < minBufferSize || remoteSendBufferSize < minBufferSize {
+			return ua.BadConnectionRejected
+		}
+		// limit the send buffer to what the server can receive
+		if ch.sendBufferSize > remoteReceiveBufferSize {
+			ch.sendBufferSize = remoteReceiveBufferSize
+		}
+		// limit the receive buffer to what the server can send
+		if ch.receiveBufferSize > remoteSendBufferSize {
+			ch.receiveBufferSize = remoteSendBufferSize
+		}
 		if err := dec.ReadUInt32(&ch.maxRequestMessageSize); err != nil {
 			return err
 		}
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 38923df..321df74 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -31,6 +31,8 @@ const (
 	protocolVersion uint32 = 0
 	// defaultMaxBufferSize is the default limit on the size of the send and receive buffers.
 	defaultMaxBufferSize uint32 = 64 * 1024
+	// minBufferSize is the least size of the send and receive buffers that the protocol allows.
+	minBufferSize uint32 = 8192
 	// defaultMaxMessageSize is the default limit on the size of messages that may be accepted.
 	defaultMaxMessageSize uint32 = 64 * 1024 * 1024
 	// defaultMaxChunkCount is the default limit on the number of message chunks that may be accepted.
@@ -190,12 +192,12 @@ func (ch *serverSecureChannel) Open() error {
 	buf := *(ch.bytesPool.Get().(*[]byte))
 	defer ch.bytesPool.Put(&buf)
 	ch.conn.SetDeadline(ch.tokenExpiration)
-	_, err := ch.read(buf)
+	count, err := ch.read(buf)
 	if err != nil {
 		return ua.BadDecodingError
 	}
 
-	var reader = bytes.NewReader(buf)
+	var reader = bytes.NewReader(buf[:count])
 	var ec = ua.NewEncodingContext()
 	var dec = ua.NewBinaryDecoder(reader, ec)
 
@@ -232,6 +234,10 @@ func (ch *serverSecureChannel) Open() error {
 		if err := dec.ReadString(&ch.endpointURL); err != nil {
 			return ua.BadDecodingError
 		}
+		// buffers must have room for the headers and signature of a chunk
+		if cliReceiveBufferSize < minBufferSize || cliSendBufferSize < minBufferSize {
+			return ua.BadConnectionRejected
+		}
 		// log.Printf("-> Hello { ver: %d, rec: %d, snd: %d, msg: %d, chk: %d, ep: %s }\n", remoteProtocolVersion, remoteReceiveBufferSize, remoteSendBufferSize, remoteMaxMessageSize, remoteMaxChunkCount, ch.endpointURL)
 
 	default:
-- 
2.43.0


From 3a60979218e2edc9b52fb260c7288a83cf9c0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:24 +0000
Subject: [PATCH 20/67] fix: an error message with status Good from the server
 does not pass for a response

---
 client/client_secure_channel.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index f81d6ff..ca50cc1 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1660,6 +1660,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			if err = decoder.ReadString(&unused); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			if statusCode == uint32(ua.Good) {
+				return nil, ua.BadUnknownResponse
+			}
 			return nil, ua.StatusCode(statusCode)
 
 		default:
-- 
2.43.0


From f2cae48c714ea997a4e0df7e3e7c08a3424ecca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 21/67] fix: a browse continuation point of the wrong length is
 invalid instead of a panic

---
 server/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session.go b/server/session.go
index 3f63c06..d5bcf9a 100644
--- a/server/session.go
+++ b/server/session.go
@@ -359,7 +359,7 @@ func (s *Session) addBrowseContinuationPoint(data []ua.ReferenceDescription, max
 }
 
 func (s *Session) removeBrowseContinuationPoint(cp []byte) ([]ua.ReferenceDescription, int, bool) {
-	if cp == nil {
+	if len(cp) != 4 {
 		return nil, 0, false
 	}
 	s.Lock()
-- 
2.43.0


From 696198fd2abe521f53ec392c62dbbd91173b3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:50 +0000
Subject: [PATCH 22/67] fix: adding a browse continuation point to a deleted
 session is refused instead of a panic

---
 server/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/session.go b/server/session.go
index d5bcf9a..b9c16cd 100644
--- a/server/session.go
+++ b/server/session.go
@@ -348,6 +348,9 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 func (s *Session) addBrowseContinuationPoint(data []ua.ReferenceDescription, max int) ([]byte, error) {
 	s.Lock()
 	defer s.Unlock()
+	if s.browseCPs == nil {
+		return nil, ua.BadSessionClosed
+	}
 	if s.maxBrowseContinuationPoints > 0 && len(s.browseCPs) >= s.maxBrowseContinuationPoints {
 		return nil, ua.BadNoContinuationPoints
 	}
-- 
2.43.0


From c152cf6620c9e10e096bebbb3fc73b949708d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:34 +0000
Subject: [PATCH 23/67] fix: a response of another type than the request's is
 an error to the client instead of a panic

---
 client/client_secure_channel.go |  10 +-
 client/client_service_set.go    | 192 ++++++++++++++++++++++++++------
 2 files changed, 168 insertions(+), 34 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index ca50cc1..2f258f1 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -470,7 +470,10 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 	if err != nil {
 		return err
 	}
-	response := res.(*ua.OpenSecureChannelResponse)
+	response, ok := res.(*ua.OpenSecureChannelResponse)
+	if !ok {
+		return ua.BadUnknownResponse
+	}
 	if response.ServerProtocolVersion < protocolVersion {
 		return ua.BadProtocolVersionUnsupported
 	}
@@ -1825,7 +1828,10 @@ func (ch *clientSecureChannel) renewToken(ctx context.Context) error {
 	if err != nil {
 		return err
 	}
-	response := res.(*ua.OpenSecureChannelResponse)
+	response, ok := res.(*ua.OpenSecureChannelResponse)
+	if !ok {
+		return ua.BadUnknownResponse
+	}
 	if response.ServerProtocolVersion < protocolVersion {
 		return ua.BadProtocolVersionUnsupported
 	}
diff --git a/client/client_service_set.go b/client/client_service_set.go
index 83626b2..2ad6d03 100644
--- a/client/client_service_set.go
+++ b/client/client_service_set.go
@@ -15,7 +15,11 @@ func (ch *clientSecureChannel) FindServers(ctx context.Context, request *ua.Find
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.FindServersResponse), nil
+	res, ok := response.(*ua.FindServersResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // GetEndpoints returns the endpoint descriptions supported by the server.
@@ -25,7 +29,11 @@ func (ch *clientSecureChannel) GetEndpoints(ctx context.Context, request *ua.Get
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.GetEndpointsResponse), nil
+	res, ok := response.(*ua.GetEndpointsResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // FindServers returns the Servers known to a Server or Discovery Server.
@@ -135,7 +143,11 @@ func (ch *Client) createSession(ctx context.Context, request *ua.CreateSessionRe
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.CreateSessionResponse), nil
+	res, ok := response.(*ua.CreateSessionResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // Activate a session.
@@ -145,7 +157,11 @@ func (ch *Client) activateSession(ctx context.Context, request *ua.ActivateSessi
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.ActivateSessionResponse), nil
+	res, ok := response.(*ua.ActivateSessionResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // Close a session.
@@ -155,7 +171,11 @@ func (ch *Client) closeSession(ctx context.Context, request *ua.CloseSessionRequ
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.CloseSessionResponse), nil
+	res, ok := response.(*ua.CloseSessionResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // Cancel sends a cancel request.
@@ -165,7 +185,11 @@ func (ch *Client) Cancel(ctx context.Context, request *ua.CancelRequest) (*ua.Ca
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.CancelResponse), nil
+	res, ok := response.(*ua.CancelResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // AddNodes adds one or more Nodes into the AddressSpace hierarchy.
@@ -175,7 +199,11 @@ func (ch *Client) AddNodes(ctx context.Context, request *ua.AddNodesRequest) (*u
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.AddNodesResponse), nil
+	res, ok := response.(*ua.AddNodesResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // AddReferences adds one or more References to one or more Nodes.
@@ -185,7 +213,11 @@ func (ch *Client) AddReferences(ctx context.Context, request *ua.AddReferencesRe
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.AddReferencesResponse), nil
+	res, ok := response.(*ua.AddReferencesResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // DeleteNodes deletes one or more Nodes from the AddressSpace.
@@ -195,7 +227,11 @@ func (ch *Client) DeleteNodes(ctx context.Context, request *ua.DeleteNodesReques
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.DeleteNodesResponse), nil
+	res, ok := response.(*ua.DeleteNodesResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // DeleteReferences deletes one or more References of a Node.
@@ -205,7 +241,11 @@ func (ch *Client) DeleteReferences(ctx context.Context, request *ua.DeleteRefere
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.DeleteReferencesResponse), nil
+	res, ok := response.(*ua.DeleteReferencesResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // Browse discovers the References of a specified Node.
@@ -215,7 +255,11 @@ func (ch *Client) Browse(ctx context.Context, request *ua.BrowseRequest) (*ua.Br
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.BrowseResponse), nil
+	res, ok := response.(*ua.BrowseResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // BrowseNext requests the next set of Browse responses, when the information is too large to be sent in a single response.
@@ -225,7 +269,11 @@ func (ch *Client) BrowseNext(ctx context.Context, request *ua.BrowseNextRequest)
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.BrowseNextResponse), nil
+	res, ok := response.(*ua.BrowseNextResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // TranslateBrowsePathsToNodeIDs translates one or more browse paths to NodeIDs.
@@ -235,7 +283,11 @@ func (ch *Client) TranslateBrowsePathsToNodeIDs(ctx context.Context, request *ua
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.TranslateBrowsePathsToNodeIDsResponse), nil
+	res, ok := response.(*ua.TranslateBrowsePathsToNodeIDsResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // RegisterNodes registers the Nodes that will be accessed repeatedly (e.g. Write, Call).
@@ -245,7 +297,11 @@ func (ch *Client) RegisterNodes(ctx context.Context, request *ua.RegisterNodesRe
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.RegisterNodesResponse), nil
+	res, ok := response.(*ua.RegisterNodesResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // UnregisterNodes unregisters NodeIDs that have been obtained via the RegisterNodes service.
@@ -255,7 +311,11 @@ func (ch *Client) UnregisterNodes(ctx context.Context, request *ua.UnregisterNod
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.UnregisterNodesResponse), nil
+	res, ok := response.(*ua.UnregisterNodesResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // Read returns values of Attributes of one or more Nodes.
@@ -265,7 +325,11 @@ func (ch *Client) Read(ctx context.Context, request *ua.ReadRequest) (*ua.ReadRe
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.ReadResponse), nil
+	res, ok := response.(*ua.ReadResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // Write sets values of Attributes of one or more Nodes
@@ -275,7 +339,11 @@ func (ch *Client) Write(ctx context.Context, request *ua.WriteRequest) (*ua.Writ
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.WriteResponse), nil
+	res, ok := response.(*ua.WriteResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // HistoryRead returns historical values or events of one or more Nodes.
@@ -285,7 +353,11 @@ func (ch *Client) HistoryRead(ctx context.Context, request *ua.HistoryReadReques
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.HistoryReadResponse), nil
+	res, ok := response.(*ua.HistoryReadResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // HistoryUpdate sets historical values or events of one or more Nodes.
@@ -295,7 +367,11 @@ func (ch *Client) HistoryUpdate(ctx context.Context, request *ua.HistoryUpdateRe
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.HistoryUpdateResponse), nil
+	res, ok := response.(*ua.HistoryUpdateResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // Call invokes a list of Methods.
@@ -305,7 +381,11 @@ func (ch *Client) Call(ctx context.Context, request *ua.CallRequest) (*ua.CallRe
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.CallResponse), nil
+	res, ok := response.(*ua.CallResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // CreateMonitoredItems creates and adds one or more MonitoredItems to a Subscription.
@@ -315,7 +395,11 @@ func (ch *Client) CreateMonitoredItems(ctx context.Context, request *ua.CreateMo
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.CreateMonitoredItemsResponse), nil
+	res, ok := response.(*ua.CreateMonitoredItemsResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // ModifyMonitoredItems modifies MonitoredItems of a Subscription.
@@ -325,7 +409,11 @@ func (ch *Client) ModifyMonitoredItems(ctx context.Context, request *ua.ModifyMo
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.ModifyMonitoredItemsResponse), nil
+	res, ok := response.(*ua.ModifyMonitoredItemsResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // SetMonitoringMode sets the monitoring mode for one or more MonitoredItems of a Subscription.
@@ -335,7 +423,11 @@ func (ch *Client) SetMonitoringMode(ctx context.Context, request *ua.SetMonitori
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.SetMonitoringModeResponse), nil
+	res, ok := response.(*ua.SetMonitoringModeResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // SetTriggering creates and deletes triggering links for a triggering item.
@@ -345,7 +437,11 @@ func (ch *Client) SetTriggering(ctx context.Context, request *ua.SetTriggeringRe
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.SetTriggeringResponse), nil
+	res, ok := response.(*ua.SetTriggeringResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // DeleteMonitoredItems removes one or more MonitoredItems of a Subscription.
@@ -355,7 +451,11 @@ func (ch *Client) DeleteMonitoredItems(ctx context.Context, request *ua.DeleteMo
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.DeleteMonitoredItemsResponse), nil
+	res, ok := response.(*ua.DeleteMonitoredItemsResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // CreateSubscription creates a Subscription.
@@ -365,7 +465,11 @@ func (ch *Client) CreateSubscription(ctx context.Context, request *ua.CreateSubs
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.CreateSubscriptionResponse), nil
+	res, ok := response.(*ua.CreateSubscriptionResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // ModifySubscription modifies a Subscription.
@@ -375,7 +479,11 @@ func (ch *Client) ModifySubscription(ctx context.Context, request *ua.ModifySubs
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.ModifySubscriptionResponse), nil
+	res, ok := response.(*ua.ModifySubscriptionResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // SetPublishingMode enables sending of Notifications on one or more Subscriptions.
@@ -385,7 +493,11 @@ func (ch *Client) SetPublishingMode(ctx context.Context, request *ua.SetPublishi
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.SetPublishingModeResponse), nil
+	res, ok := response.(*ua.SetPublishingModeResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // Publish requests the Server to return a NotificationMessage or a keep-alive Message.
@@ -395,7 +507,11 @@ func (ch *Client) Publish(ctx context.Context, request *ua.PublishRequest) (*ua.
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.PublishResponse), nil
+	res, ok := response.(*ua.PublishResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // Republish requests the Server to republish a NotificationMessage from its retransmission queue.
@@ -405,7 +521,11 @@ func (ch *Client) Republish(ctx context.Context, request *ua.RepublishRequest) (
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.RepublishResponse), nil
+	res, ok := response.(*ua.RepublishResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // TransferSubscriptions ransfers a Subscription and its MonitoredItems from one Session to another.
@@ -415,7 +535,11 @@ func (ch *Client) TransferSubscriptions(ctx context.Context, request *ua.Transfe
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.TransferSubscriptionsResponse), nil
+	res, ok := response.(*ua.TransferSubscriptionsResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
 
 // DeleteSubscriptions deletes one or more Subscriptions.
@@ -425,5 +549,9 @@ func (ch *Client) DeleteSubscriptions(ctx context.Context, request *ua.DeleteSub
 	if err != nil {
 		return nil, err
 	}
-	return response.(*ua.DeleteSubscriptionsResponse), nil
+	res, ok := response.(*ua.DeleteSubscriptionsResponse)
+	if !ok {
+		return nil, ua.BadUnknownResponse
+	}
+	return res, nil
 }
-- 
2.43.0


From 7bbeace5ef932884e37b36d5bce81eda75c81058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:14 +0000
Subject: [PATCH 24/67] fix: writing an index range with a value of another
 type than the array is a type mismatch instead of a panic

---
 server/server_service_set.go | 136 ++++++++++++++++++++++++++++-------
 1 file changed, 109 insertions(+), 27 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index dc1cc4f..b860274 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2984,7 +2984,11 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := []rune(value.Value.(string))
+		str, ok := value.Value.(string)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
+		v2 := []rune(str)
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3000,7 +3004,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.(ua.ByteString)
+		v2, ok := value.Value.(ua.ByteString)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3016,7 +3023,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]bool)
+		v2, ok := value.Value.([]bool)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3032,7 +3042,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]int8)
+		v2, ok := value.Value.([]int8)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3048,7 +3061,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]byte)
+		v2, ok := value.Value.([]byte)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3064,7 +3080,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]int16)
+		v2, ok := value.Value.([]int16)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3080,7 +3099,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]uint16)
+		v2, ok := value.Value.([]uint16)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3096,7 +3118,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]int32)
+		v2, ok := value.Value.([]int32)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3112,7 +3137,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]uint32)
+		v2, ok := value.Value.([]uint32)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3128,7 +3156,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]int64)
+		v2, ok := value.Value.([]int64)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3144,7 +3175,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]uint64)
+		v2, ok := value.Value.([]uint64)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3160,7 +3194,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]float32)
+		v2, ok := value.Value.([]float32)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3176,7 +3213,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]float64)
+		v2, ok := value.Value.([]float64)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3192,7 +3232,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]string)
+		v2, ok := value.Value.([]string)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3208,7 +3251,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]time.Time)
+		v2, ok := value.Value.([]time.Time)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3224,7 +3270,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]uuid.UUID)
+		v2, ok := value.Value.([]uuid.UUID)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3240,7 +3289,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.ByteString)
+		v2, ok := value.Value.([]ua.ByteString)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3256,7 +3308,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.XMLElement)
+		v2, ok := value.Value.([]ua.XMLElement)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3272,7 +3327,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.NodeID)
+		v2, ok := value.Value.([]ua.NodeID)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3288,7 +3346,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.ExpandedNodeID)
+		v2, ok := value.Value.([]ua.ExpandedNodeID)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3304,7 +3365,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.StatusCode)
+		v2, ok := value.Value.([]ua.StatusCode)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3320,7 +3384,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.QualifiedName)
+		v2, ok := value.Value.([]ua.QualifiedName)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3336,7 +3403,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.LocalizedText)
+		v2, ok := value.Value.([]ua.LocalizedText)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3352,7 +3422,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.ExtensionObject)
+		v2, ok := value.Value.([]ua.ExtensionObject)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3368,7 +3441,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.DataValue)
+		v2, ok := value.Value.([]ua.DataValue)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3384,7 +3460,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.Variant)
+		v2, ok := value.Value.([]ua.Variant)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3400,7 +3479,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.DiagnosticInfo)
+		v2, ok := value.Value.([]ua.DiagnosticInfo)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
-- 
2.43.0


From 51a5bbe572bc0c3d97c9f3869bf2885dc869390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:16 +0000
Subject: [PATCH 25/67] fix: a namespace or server array of an unexpected type
 is ignored by the client instead of a panic

---
 client/client.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/client/client.go b/client/client.go
index 0e739b7..8ad74b1 100644
--- a/client/client.go
+++ b/client/client.go
@@ -732,13 +732,15 @@ func (ch *Client) open(ctx context.Context) error {
 	}
 	if len(readResponse.Results) == 2 {
 		if readResponse.Results[0].StatusCode.IsGood() {
-			value := readResponse.Results[0].Value.([]string)
-			ch.channel.SetNamespaceURIs(value)
+			if value, ok := readResponse.Results[0].Value.([]string); ok {
+				ch.channel.SetNamespaceURIs(value)
+			}
 		}
 
 		if readResponse.Results[1].StatusCode.IsGood() {
-			value := readResponse.Results[1].Value.([]string)
-			ch.channel.SetServerURIs(value)
+			if value, ok := readResponse.Results[1].Value.([]string); ok {
+				ch.channel.SetServerURIs(value)
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From cd7fc4be5fc100ecdd65f33b9704e7f2fddcaebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:36 +0000
Subject: [PATCH 26/67] fix: an authenticator may reject an identity with any
 error, not only a status code

---
 server/server_service_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index b860274..708004d 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -822,12 +822,16 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		srv.serverDiagnosticsSummary.RejectedSessionCount++
 		srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		result, ok := err.(ua.StatusCode)
+		if !ok {
+			result = ua.BadIdentityTokenRejected
+		}
 		err = ch.Write(
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
 					RequestHandle: req.RequestHandle,
-					ServiceResult: err.(ua.StatusCode),
+					ServiceResult: result,
 				},
 			},
 			requestid,
-- 
2.43.0


From bd74e05c1ec023d48d8a66663a5cf8a5c6c9266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:12 +0000
Subject: [PATCH 27/67] fix: a write to a multi-state variable whose EnumValues
 hold something else does not panic

---
 server/namespace_manager.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 7b878d2..295e3f9 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -324,7 +324,8 @@ func (m *NamespaceManager) SetMultiStateValueDiscreteTypeBehavior(node *Variable
 			return req.Value, ua.Good
 		}
 		// validate
-		enumValues := toEnumValues(enumValuesNode.Value().Value.([]ua.ExtensionObject))
+		values, _ := enumValuesNode.Value().Value.([]ua.ExtensionObject)
+		enumValues := toEnumValues(values)
 		for _, ev := range enumValues {
 			if ev.Value == value {
 				node.SetValue(ua.NewDataValue(req.Value.Value, req.Value.StatusCode, time.Now(), 0, time.Now(), 0))
@@ -338,9 +339,11 @@ func (m *NamespaceManager) SetMultiStateValueDiscreteTypeBehavior(node *Variable
 }
 
 func toEnumValues(v []ua.ExtensionObject) []ua.EnumValueType {
-	ret := make([]ua.EnumValueType, len(v))
-	for i, v := range v {
-		ret[i] = v.(ua.EnumValueType)
+	ret := make([]ua.EnumValueType, 0, len(v))
+	for _, v := range v {
+		if ev, ok := v.(ua.EnumValueType); ok {
+			ret = append(ret, ev)
+		}
 	}
 	return ret
 }
-- 
2.43.0


From 8b5de114575498b4e7b0eaee26d9cf0b230f11d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:08 +0000
Subject: [PATCH 28/67] fix: the server changes the token id it sends together
 with the keys of that token

---
 server/server_secure_channel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 321df74..fbd6e05 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1113,7 +1113,6 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				if newTokenID != ch.pendingTokenID {
 					return nil, 0, ua.BadSecureChannelTokenUnknown
 				}
-				ch.tokenID = ch.pendingTokenID
 				ch.tokenExpiration = ch.pendingTokenExpiration
 				ch.conn.SetDeadline(ch.tokenExpiration)
 				if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
@@ -1140,6 +1139,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				}
 
 				ch.sendingSemaphore.Lock()
+				ch.tokenID = ch.pendingTokenID
 				if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 
 					// (re)create security keys for signing, encrypting
-- 
2.43.0


From c48bb7f1cc1ca6f245833b63c8a33ba2b42cb1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:25 +0000
Subject: [PATCH 29/67] fix: the client sends a chunk with the id of the token
 whose keys secure it

---
 client/client_secure_channel.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 2f258f1..227120d 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -846,9 +846,6 @@ func (ch *clientSecureChannel) sendCloseSecureChannelRequest(ctx context.Context
 		encoder.WriteUInt32(uint32(chunkSize))
 		encoder.WriteUInt32(ch.channelID)
 
-		// symmetric security header
-		encoder.WriteUInt32(ch.tokenID)
-
 		// detect new TokenId
 		ch.tokenLock.RLock()
 		if ch.tokenID != ch.sendingTokenID {
@@ -871,6 +868,9 @@ func (ch *clientSecureChannel) sendCloseSecureChannelRequest(ctx context.Context
 		}
 		ch.tokenLock.RUnlock()
 
+		// symmetric security header, with the token whose keys secure this chunk
+		encoder.WriteUInt32(ch.sendingTokenID)
+
 		// sequence header
 		encoder.WriteUInt32(ch.getNextSequenceNumber())
 		encoder.WriteUInt32(request.Header().RequestHandle)
@@ -1285,9 +1285,6 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 		encoder.WriteUInt32(uint32(chunkSize))
 		encoder.WriteUInt32(ch.channelID)
 
-		// symmetric security header
-		encoder.WriteUInt32(ch.tokenID)
-
 		// detect new TokenId
 		ch.tokenLock.RLock()
 		if ch.tokenID != ch.sendingTokenID {
@@ -1310,6 +1307,9 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 		}
 		ch.tokenLock.RUnlock()
 
+		// symmetric security header, with the token whose keys secure this chunk
+		encoder.WriteUInt32(ch.sendingTokenID)
+
 		// sequence header
 		encoder.WriteUInt32(ch.getNextSequenceNumber())
 		encoder.WriteUInt32(request.Header().RequestHandle)
-- 
2.43.0


From f248dbaf1efcea6a79f1b655245046c9472b8f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:33 +0000
Subject: [PATCH 30/67] fix: a subscription is used only by the session that
 owns it

---
 server/server_service_set.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 708004d..92659a3 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3846,7 +3846,7 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.createMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4360,7 +4360,7 @@ func (srv *Server) handleSetMonitoringMode(ch *serverSecureChannel, requestid ui
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setMonitoringModeErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4525,7 +4525,7 @@ func (srv *Server) handleSetTriggering(ch *serverSecureChannel, requestid uint32
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setTriggeringErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4729,7 +4729,7 @@ func (srv *Server) handleDeleteMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.deleteMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -5462,7 +5462,7 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 	// process sub ack's
 	results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 	for i, sa := range req.SubscriptionAcknowledgements {
-		if sub, ok := sm.Get(sa.SubscriptionID); ok {
+		if sub, ok := sm.Get(sa.SubscriptionID); ok && sub.sessionId == session.sessionId {
 			if sub.acknowledge(sa.SequenceNumber) {
 				results[i] = ua.Good
 			} else {
@@ -5624,7 +5624,7 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 	}
 
 	s, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || s.sessionId != session.sessionId {
 		session.republishErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
-- 
2.43.0


From 359fc94132a547d8b9da24a16f473f98c4044a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:08 +0000
Subject: [PATCH 31/67] fix: triggering an item does not take its lock, so that
 trigger links may form a cycle

---
 server/datachange_monitored_item.go | 16 ++++++----------
 server/event_monitored_item.go      | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index db6f5ae..bdb13b2 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -37,7 +37,7 @@ type DataChangeMonitoredItem struct {
 	ts                  time.Time
 	ti                  time.Duration
 	triggeredItems      []MonitoredItem
-	triggered           bool
+	triggered           atomic.Bool
 }
 
 // NewDataChangeMonitoredItem constructs a new DataChangeMonitoredItem.
@@ -112,16 +112,12 @@ func (mi *DataChangeMonitoredItem) ClientHandle() uint32 {
 
 // Triggered returns true when the MonitoredItem is triggered.
 func (mi *DataChangeMonitoredItem) Triggered() bool {
-	mi.RLock()
-	defer mi.RUnlock()
-	return mi.triggered
+	return mi.triggered.Load()
 }
 
 // SetTriggered sets when the MonitoredItem is triggered.
 func (mi *DataChangeMonitoredItem) SetTriggered(val bool) {
-	mi.Lock()
-	defer mi.Unlock()
-	mi.triggered = val
+	mi.triggered.Store(val)
 }
 
 // Modify modifies the MonitoredItem.
@@ -345,8 +341,8 @@ func (mi *DataChangeMonitoredItem) notifications(max int) (notifications []any,
 		}
 	}
 	more = mi.queue.Len() > 0
-	if mi.triggered && !more {
-		mi.triggered = false
+	if mi.triggered.Load() && !more {
+		mi.triggered.Store(false)
 		// log.Printf("Reset triggered %d", mi.id)
 	}
 	return notifications, more
@@ -407,7 +403,7 @@ func (mi *DataChangeMonitoredItem) notificationsAvailable(tn time.Time, late boo
 			mi.previousQueuedValue = v
 		}
 	}
-	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered)
+	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered.Load())
 }
 
 func (mi *DataChangeMonitoredItem) isDataChange(current, previous ua.DataValue) bool {
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index bd86136..9597be6 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -28,7 +28,7 @@ type EventMonitoredItem struct {
 	sub              *Subscription
 	srv              *Server
 	triggeredItems   []MonitoredItem
-	triggered        bool
+	triggered        atomic.Bool
 }
 
 // NewEventMonitoredItem constructs a new EventMonitoredItem.
@@ -99,16 +99,12 @@ func (mi *EventMonitoredItem) ClientHandle() uint32 {
 
 // Triggered returns true when the MonitoredItem is triggered.
 func (mi *EventMonitoredItem) Triggered() bool {
-	mi.RLock()
-	defer mi.RUnlock()
-	return mi.triggered
+	return mi.triggered.Load()
 }
 
 // SetTriggered sets when the MonitoredItem is triggered.
 func (mi *EventMonitoredItem) SetTriggered(val bool) {
-	mi.Lock()
-	defer mi.Unlock()
-	mi.triggered = val
+	mi.triggered.Store(val)
 }
 
 // Modify modifies the MonitoredItem.
@@ -306,8 +302,8 @@ func (mi *EventMonitoredItem) notifications(max int) (notifications []any, more
 		}
 	}
 	more = mi.queue.Len() > 0
-	if mi.triggered && !more {
-		mi.triggered = false
+	if mi.triggered.Load() && !more {
+		mi.triggered.Store(false)
 		// log.Printf("Reset triggered %d", mi.id)
 	}
 	return notifications, more
@@ -322,7 +318,7 @@ func (mi *EventMonitoredItem) notificationsAvailable(tn time.Time, late bool, re
 		return false
 	}
 
-	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered)
+	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered.Load())
 }
 
 // AddTriggeredItem adds a item to be triggered by this item.
-- 
2.43.0


From 18621a6c67a9f594906feb2ed378ebbd411464af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:08 +0000
Subject: [PATCH 32/67] fix: an event is passed to its listeners without
 holding the lock of the node

---
 server/event_monitored_item.go | 6 ++++--
 server/object_node.go          | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 9597be6..39c83a2 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -208,8 +208,10 @@ func (mi *EventMonitoredItem) enqueue(item []ua.Variant) {
 
 func (mi *EventMonitoredItem) OnEvent(evt ua.Event) {
 	mi.Lock()
-	if res, ok := mi.whereClause(evt, 0).(bool); ok && res {
-		mi.enqueue(mi.selectFields(evt))
+	if mi.node != nil && mi.monitoringMode != ua.MonitoringModeDisabled {
+		if res, ok := mi.whereClause(evt, 0).(bool); ok && res {
+			mi.enqueue(mi.selectFields(evt))
+		}
 	}
 	mi.Unlock()
 }
diff --git a/server/object_node.go b/server/object_node.go
index 1c90889..2406b6d 100644
--- a/server/object_node.go
+++ b/server/object_node.go
@@ -116,8 +116,12 @@ func (n *ObjectNode) EventNotifier() byte {
 // OnEvent raises an event from this node.
 func (n *ObjectNode) OnEvent(evt ua.Event) {
 	n.RLock()
-	defer n.RUnlock()
+	subs := make([]EventListener, 0, len(n.subs))
 	for sub := range n.subs {
+		subs = append(subs, sub)
+	}
+	n.RUnlock()
+	for _, sub := range subs {
 		sub.OnEvent(evt)
 	}
 }
-- 
2.43.0


From bd4bd6ac1b0955496244b26133eb4fe41390eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:44 +0000
Subject: [PATCH 33/67] fix: a monitored item reads its value without holding
 its lock

---
 server/datachange_monitored_item.go | 34 ++++++++++++++++++++++++-----
 server/subscription.go              |  7 ++++++
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index bdb13b2..2e609ce 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -31,6 +31,7 @@ type DataChangeMonitoredItem struct {
 	node                Node
 	dataChangeFilter    ua.DataChangeFilter
 	previousQueuedValue ua.DataValue
+	latestValue         ua.DataValue
 	sub                 *Subscription
 	srv                 *Server
 	prequeue            deque.Deque[ua.DataValue]
@@ -56,6 +57,7 @@ func NewDataChangeMonitoredItem(sub *Subscription, node Node, itemToMonitor ua.R
 		queue:               deque.Deque[ua.DataValue]{},
 		prequeue:            deque.Deque[ua.DataValue]{},
 		previousQueuedValue: ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0),
+		latestValue:         ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0),
 	}
 	mi.setQueueSize(parameters.QueueSize)
 	mi.setSamplingInterval(parameters.SamplingInterval)
@@ -245,24 +247,44 @@ func (mi *DataChangeMonitoredItem) startMonitoring() {
 	if mi.monitoringMode == ua.MonitoringModeDisabled {
 		return
 	}
-	v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
+	// the value is read without holding the lock, as reading may need the lock of the subscription.
+	sub, interval := mi.sub, time.Duration(mi.samplingInterval)*time.Millisecond
+	mi.Unlock()
+	v := mi.srv.readValue(sub.Session(), mi.itemToMonitor)
+	mi.Lock()
+	if mi.node == nil {
+		return
+	}
+	mi.latestValue = v
 	mi.prequeue.PushBack(v)
 	mi.Unlock()
-	mi.srv.Scheduler().GetPollGroup(time.Duration(mi.samplingInterval) * time.Millisecond).Subscribe(mi)
+	mi.srv.Scheduler().GetPollGroup(interval).Subscribe(mi)
 	mi.Lock()
+	if mi.node == nil {
+		mi.stopMonitoring()
+	}
 }
 
 func (mi *DataChangeMonitoredItem) stopMonitoring() {
+	interval := time.Duration(mi.samplingInterval) * time.Millisecond
 	mi.Unlock()
-	mi.srv.Scheduler().GetPollGroup(time.Duration(mi.samplingInterval) * time.Millisecond).Unsubscribe(mi)
+	mi.srv.Scheduler().GetPollGroup(interval).Unsubscribe(mi)
 	mi.Lock()
 }
 
 // Poll reads the value of the itemToMonitor.
 func (mi *DataChangeMonitoredItem) Poll() {
+	mi.RLock()
+	sub := mi.sub
+	mi.RUnlock()
+	if sub == nil {
+		return
+	}
+	// the value is read without holding the lock, as reading may need the lock of the subscription.
+	v := mi.srv.readValue(sub.Session(), mi.itemToMonitor)
 	mi.Lock()
-	if n := mi.node; n != nil {
-		v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
+	if mi.node != nil {
+		mi.latestValue = v
 		mi.prequeue.PushBack(v)
 	}
 	mi.Unlock()
@@ -398,7 +420,7 @@ func (mi *DataChangeMonitoredItem) notificationsAvailable(tn time.Time, late boo
 	}
 	if resend && mi.monitoringMode == ua.MonitoringModeReporting {
 		if mi.queue.Len() == 0 {
-			v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
+			v := mi.latestValue
 			mi.enqueue(withTimestamps(v, mi.timestampsToReturn))
 			mi.previousQueuedValue = v
 		}
diff --git a/server/subscription.go b/server/subscription.go
index 62eebbf..c5c6728 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -114,6 +114,13 @@ func (s *Subscription) deleteImpl() {
 	s.manager = nil
 }
 
+// Session returns the session of the Subscription, or nil if the Subscription was deleted.
+func (s *Subscription) Session() *Session {
+	s.RLock()
+	defer s.RUnlock()
+	return s.session
+}
+
 func (s *Subscription) Items() []MonitoredItem {
 	s.RLock()
 	defer s.RUnlock()
-- 
2.43.0


From 0183a63453b760d16788694bbfba9607d17101a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:11 +0000
Subject: [PATCH 34/67] fix: a request that meets a deleted subscription or
 item does not panic or revive it

---
 server/datachange_monitored_item.go |  6 +++++-
 server/event_monitored_item.go      |  6 +++++-
 server/server_service_set.go        | 18 +++++++++++++++---
 server/subscription.go              | 19 +++++++++++++++++--
 4 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 2e609ce..94b03cc 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -126,6 +126,10 @@ func (mi *DataChangeMonitoredItem) SetTriggered(val bool) {
 func (mi *DataChangeMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.MonitoredItemModifyResult {
 	mi.Lock()
 	defer mi.Unlock()
+	if mi.node == nil {
+		// already deleted
+		return ua.MonitoredItemModifyResult{StatusCode: ua.BadMonitoredItemIDInvalid}
+	}
 	mi.stopMonitoring()
 	mi.clientHandle = req.RequestedParameters.ClientHandle
 	mi.discardOldest = req.RequestedParameters.DiscardOldest
@@ -153,7 +157,7 @@ func (mi *DataChangeMonitoredItem) Delete() {
 func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	mi.Lock()
 	defer mi.Unlock()
-	if mi.monitoringMode == mode {
+	if mi.monitoringMode == mode || mi.node == nil {
 		return
 	}
 	mi.stopMonitoring()
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 39c83a2..4990d55 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -111,6 +111,10 @@ func (mi *EventMonitoredItem) SetTriggered(val bool) {
 func (mi *EventMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.MonitoredItemModifyResult {
 	mi.Lock()
 	defer mi.Unlock()
+	if mi.node == nil {
+		// already deleted
+		return ua.MonitoredItemModifyResult{StatusCode: ua.BadMonitoredItemIDInvalid}
+	}
 	mi.stopMonitoring()
 	mi.clientHandle = req.RequestedParameters.ClientHandle
 	mi.discardOldest = req.RequestedParameters.DiscardOldest
@@ -136,7 +140,7 @@ func (mi *EventMonitoredItem) Delete() {
 func (mi *EventMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	mi.Lock()
 	defer mi.Unlock()
-	if mi.monitoringMode == mode {
+	if mi.monitoringMode == mode || mi.node == nil {
 		return
 	}
 	mi.stopMonitoring()
diff --git a/server/server_service_set.go b/server/server_service_set.go
index 92659a3..84fea98 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3985,7 +3985,11 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				}
 			}
 			mi := NewDataChangeMonitoredItem(sub, n, item.ItemToMonitor, item.MonitoringMode, item.RequestedParameters, req.TimestampsToReturn, minSupportedSampleRate)
-			sub.AppendItem(mi)
+			if !sub.AppendItem(mi) {
+				mi.Delete()
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadSubscriptionIDInvalid}
+				continue
+			}
 			results[i] = ua.MonitoredItemCreateResult{
 				MonitoredItemID:         mi.ID(),
 				RevisedSamplingInterval: mi.SamplingInterval(),
@@ -4014,7 +4018,11 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				continue
 			}
 			mi := NewEventMonitoredItem(sub, n, item.ItemToMonitor, item.MonitoringMode, item.RequestedParameters)
-			sub.AppendItem(mi)
+			if !sub.AppendItem(mi) {
+				mi.Delete()
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadSubscriptionIDInvalid}
+				continue
+			}
 			results[i] = ua.MonitoredItemCreateResult{
 				MonitoredItemID:         mi.ID(),
 				RevisedSamplingInterval: mi.SamplingInterval(),
@@ -4032,7 +4040,11 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				continue
 			}
 			mi := NewDataChangeMonitoredItem(sub, n, item.ItemToMonitor, item.MonitoringMode, item.RequestedParameters, req.TimestampsToReturn, minSupportedSampleRate)
-			sub.AppendItem(mi)
+			if !sub.AppendItem(mi) {
+				mi.Delete()
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadSubscriptionIDInvalid}
+				continue
+			}
 			results[i] = ua.MonitoredItemCreateResult{
 				MonitoredItemID:         mi.ID(),
 				RevisedSamplingInterval: mi.SamplingInterval(),
diff --git a/server/subscription.go b/server/subscription.go
index c5c6728..337ac30 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -97,6 +97,10 @@ func (s *Subscription) Delete() {
 }
 
 func (s *Subscription) deleteImpl() {
+	if s.items == nil {
+		// already deleted
+		return
+	}
 	s.stopPublishing()
 	for id, item := range s.items {
 		delete(s.items, id)
@@ -111,7 +115,6 @@ func (s *Subscription) deleteImpl() {
 	}
 	s.retransmissionQueue = nil
 	s.session = nil
-	s.manager = nil
 }
 
 // Session returns the session of the Subscription, or nil if the Subscription was deleted.
@@ -142,6 +145,10 @@ func (s *Subscription) AppendItem(item MonitoredItem) bool {
 	s.Lock()
 	defer s.Unlock()
 	ret := false
+	if s.items == nil {
+		// already deleted
+		return ret
+	}
 	if _, ok := s.items[item.ID()]; !ok {
 		s.items[item.ID()] = item
 		s.monitoredItemCount++
@@ -179,6 +186,10 @@ func (s *Subscription) SetPublishingMode(publishingEnabled bool) {
 func (s *Subscription) Modify(publishingInterval float64, lifetimeCount uint32, maxKeepAliveCount uint32, maxNotificationsPerPublish uint32, priority byte) {
 	s.Lock()
 	defer s.Unlock()
+	if s.items == nil {
+		// already deleted
+		return
+	}
 	s.stopPublishing()
 	s.setPublishingInterval(publishingInterval)
 	s.setMaxKeepAliveCount(maxKeepAliveCount)
@@ -285,6 +296,10 @@ func (s *Subscription) acknowledge(seqNum uint32) bool {
 	s.Lock()
 	defer s.Unlock()
 	q := s.retransmissionQueue
+	if q == nil {
+		// already deleted
+		return false
+	}
 	for e := q.Front(); e != nil; e = e.Next() {
 		if nm, ok := e.Value.(ua.NotificationMessage); ok && nm.SequenceNumber == seqNum {
 			q.Remove(e)
@@ -536,7 +551,7 @@ func (s *Subscription) publish(tn time.Time) error {
 func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, requestid uint32, req *ua.PublishRequest, results []ua.StatusCode) (bool, error) {
 	s.Lock()
 	defer s.Unlock()
-	if !s.isLate {
+	if !s.isLate || s.items == nil {
 		return false, nil
 	}
 	tn := time.Now()
-- 
2.43.0


From 168615cba0117003c12643f9f5d28396cda7356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:14 +0000
Subject: [PATCH 35/67] fix: the check for expired subscriptions does not
 deadlock with a publishing subscription

---
 server/subscription_manager.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/server/subscription_manager.go b/server/subscription_manager.go
index a1d27fe..d7fba37 100644
--- a/server/subscription_manager.go
+++ b/server/subscription_manager.go
@@ -95,22 +95,17 @@ func (m *SubscriptionManager) GetBySession(session *Session) []*Subscription {
 }
 
 func (m *SubscriptionManager) checkForExpiredSubscriptions() {
-	m.Lock()
-	defer m.Unlock()
-	for k, s := range m.subscriptionsByID {
+	m.RLock()
+	subs := make([]*Subscription, 0, len(m.subscriptionsByID))
+	for _, s := range m.subscriptionsByID {
+		subs = append(subs, s)
+	}
+	m.RUnlock()
+	// the subscriptions are examined without holding the lock, as a publishing subscription may be waiting for it.
+	for _, s := range subs {
 		if s.IsExpired() {
-			delete(m.subscriptionsByID, k)
-			if m.server.serverDiagnostics {
-				// remove diagnostic node
-				nm := m.server.NamespaceManager()
-				if n, ok := nm.FindNode(s.diagnosticsNodeId); ok {
-					nm.DeleteNode(n, true)
-				}
-				m.server.Lock()
-				m.server.serverDiagnosticsSummary.CurrentSubscriptionCount = uint32(len(m.subscriptionsByID))
-				m.server.Unlock()
-			}
-			// log.Printf("Deleted expired subscription '%d'.\n", k)
+			m.Delete(s)
+			// log.Printf("Deleted expired subscription '%d'.\n", s.id)
 			s.Delete()
 		}
 	}
-- 
2.43.0


From 9128f41ae90723231cf8070fe0f91bbbc3e6ca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:17 +0000
Subject: [PATCH 36/67] fix: the endpoint descriptions are built without
 holding, and kept under, the lock of the server

---
 server/server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 1084098..a7959a7 100644
--- a/server/server.go
+++ b/server/server.go
@@ -174,9 +174,16 @@ func (srv *Server) EndpointURL() string {
 // Endpoints gets the endpoint descriptions.
 func (srv *Server) Endpoints() []ua.EndpointDescription {
 	srv.RLock()
-	defer srv.RUnlock()
+	eds := srv.endpoints
+	srv.RUnlock()
+	if eds != nil {
+		return eds
+	}
+	eds = srv.buildEndpointDescriptions()
+	srv.Lock()
+	defer srv.Unlock()
 	if srv.endpoints == nil {
-		srv.endpoints = srv.buildEndpointDescriptions()
+		srv.endpoints = eds
 	}
 	return srv.endpoints
 }
-- 
2.43.0


From b2e5fe1ffa40a2ce32c2e013373eb790a1ca1ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:03 +0000
Subject: [PATCH 37/67] fix: the client channel is opened and closed without
 holding its lock while a request is under way

---
 client/client_secure_channel.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 227120d..716ac84 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -270,8 +270,8 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 	}
 }
 
-// Open opens the channel.
-func (ch *clientSecureChannel) Open(ctx context.Context) error {
+// connect opens the connection, says hello, and starts to receive responses.
+func (ch *clientSecureChannel) connect(ctx context.Context) error {
 	ch.Lock()
 	defer ch.Unlock()
 
@@ -458,7 +458,16 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 	ch.receivedSequenceNumber = false
 
 	go ch.responseWorker()
+	return nil
+}
+
+// Open opens the channel.
+func (ch *clientSecureChannel) Open(ctx context.Context) error {
+	if err := ch.connect(ctx); err != nil {
+		return err
+	}
 
+	// wait for the response without holding the lock, so that the channel can be aborted meanwhile
 	request := &ua.OpenSecureChannelRequest{
 		ClientProtocolVersion: protocolVersion,
 		RequestType:           ua.SecurityTokenRequestTypeIssue,
@@ -491,16 +500,16 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 // Close closes the channel.
 func (ch *clientSecureChannel) Close(ctx context.Context) error {
 	ch.Lock()
-	defer ch.Unlock()
 	ch.closing = true
+	ch.Unlock()
+	// wait without holding the lock, which the requests under way may need to complete
 	_, err := ch.Request(ctx, &ua.CloseSecureChannelRequest{})
-	if err != nil {
-		return err
-	}
+	ch.Lock()
+	defer ch.Unlock()
 	if ch.conn != nil {
 		ch.conn.Close()
 	}
-	return nil
+	return err
 }
 
 // Abort closes the channel abruptly.
-- 
2.43.0


From 647a5852703ee98eed0c91b17301642ba1b417c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:45 +0000
Subject: [PATCH 38/67] fix: queueing a publish request or a status change does
 not wait for another request

---
 server/session.go      | 21 ++++++++++++++++++++-
 server/subscription.go |  4 ++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/server/session.go b/server/session.go
index b9c16cd..4c0b71c 100644
--- a/server/session.go
+++ b/server/session.go
@@ -295,7 +295,10 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 		case s.publishRequests <- &publishOp{ch, requestid, req, results}:
 			return nil
 		default:
-			op := <-s.publishRequests
+		}
+		// the queue is full: reject the oldest, unless it was taken meanwhile
+		select {
+		case op := <-s.publishRequests:
 			err := op.ch.Write(
 				&ua.ServiceFault{
 					ResponseHeader: ua.ResponseHeader{
@@ -309,6 +312,22 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 			if err != nil {
 				return err
 			}
+		default:
+		}
+	}
+}
+
+// addStateChange queues a status change for the next publish request, giving up the oldest when the queue is full.
+func (s *Session) addStateChange(op *stateChangeOp) {
+	for {
+		select {
+		case s.stateChanges <- op:
+			return
+		default:
+		}
+		select {
+		case <-s.stateChanges:
+		default:
 		}
 	}
 }
diff --git a/server/subscription.go b/server/subscription.go
index 337ac30..31c1ca1 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -471,7 +471,7 @@ func (s *Subscription) publish(tn time.Time) error {
 				PublishTime:      time.Now(),
 				NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 			}
-			s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
+			s.session.addStateChange(&stateChangeOp{subscriptionId: s.id, message: nm})
 			s.advanceSequenceNumber()
 			s.manager.Delete(s)
 			s.deleteImpl()
@@ -537,7 +537,7 @@ func (s *Subscription) publish(tn time.Time) error {
 					PublishTime:      time.Now(),
 					NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 				}
-				s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
+				s.session.addStateChange(&stateChangeOp{subscriptionId: s.id, message: nm})
 				s.advanceSequenceNumber()
 				s.manager.Delete(s)
 				s.deleteImpl()
-- 
2.43.0


From e4edc38f4eb591b39946dacbc0bec23ba67b9889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:59 +0000
Subject: [PATCH 39/67] fix: the children of a node are collected under the
 lock, each once

---
 server/namespace_manager.go | 47 +++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 295e3f9..fa25e26 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -407,7 +407,7 @@ func (m *NamespaceManager) DeleteNodes(nodes []Node, deleteChildren bool) error
 	defer m.Unlock()
 	for _, node := range nodes {
 		if deleteChildren {
-			children := m.GetChildren(node, m.namespaces, hasChildandSubtypes)
+			children := m.getChildren(node, m.namespaces, hasChildandSubtypes)
 			for _, child := range children {
 				m.deleteNodeandInverseReferences(child, m.namespaces)
 			}
@@ -535,7 +535,7 @@ func (m *NamespaceManager) DeleteNodeByIDRecursive(nodeId ua.NodeID) (int, error
 	}
 
 	// Get all children recursively
-	children := m.GetChildren(node, m.namespaces, hasChildandSubtypes)
+	children := m.getChildren(node, m.namespaces, hasChildandSubtypes)
 
 	// Delete all children first
 	for _, child := range children {
@@ -559,39 +559,34 @@ func (m *NamespaceManager) DeleteNodeByIDRecursive(nodeId ua.NodeID) (int, error
 
 // GetSubTypes traverses the tree to get all target nodes with HasSubtype reference type.
 func (m *NamespaceManager) GetSubTypes(node Node) []Node {
-	children := []Node{}
-	queue := deque.Deque[Node]{}
-	queue.PushBack(node)
-	for queue.Len() > 0 {
-		node := queue.PopFront()
-		for _, r := range node.References() {
-			if !r.IsInverse && r.ReferenceTypeID == ua.ReferenceTypeIDHasSubtype {
-				queue.PushBack(node)
-				children = append(children, node)
-			}
-		}
-	}
-	return children
+	m.RLock()
+	defer m.RUnlock()
+	return m.getChildren(node, m.namespaces, []ua.NodeID{ua.ReferenceTypeIDHasSubtype})
 }
 
 // GetChildren traverses the tree to get all target nodes with the given reference types.
 func (m *NamespaceManager) GetChildren(node Node, uris []string, withRefTypes []ua.NodeID) []Node {
+	m.RLock()
+	defer m.RUnlock()
+	return m.getChildren(node, uris, withRefTypes)
+}
+
+// getChildren visits each node once, as references may form a cycle. The caller holds the lock.
+func (m *NamespaceManager) getChildren(node Node, uris []string, withRefTypes []ua.NodeID) []Node {
 	children := []Node{}
-	type queuedItem struct {
-		Node    Node
-		Visited bool
-	}
-	queue := deque.Deque[queuedItem]{}
-	queue.PushBack(queuedItem{node, false})
+	visited := map[Node]struct{}{node: {}}
+	queue := deque.Deque[Node]{}
+	queue.PushBack(node)
 	for queue.Len() > 0 {
 		item := queue.PopFront()
-		if item.Visited {
-			continue
-		}
-		for _, r := range item.Node.References() {
+		for _, r := range item.References() {
 			if !r.IsInverse && (withRefTypes == nil || Contains(withRefTypes, r.ReferenceTypeID)) {
 				if target, ok := m.nodes[ua.ToNodeID(r.TargetID, uris)]; ok {
-					queue.PushBack(queuedItem{target, false})
+					if _, ok := visited[target]; ok {
+						continue
+					}
+					visited[target] = struct{}{}
+					queue.PushBack(target)
 					children = append(children, target)
 				}
 			}
-- 
2.43.0


From 1884f93b38fd012883de1b16554c72cd02169c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:02 +0000
Subject: [PATCH 40/67] fix: the state of a subscription is read and its
 publishing stopped under its lock

---
 server/datachange_monitored_item.go | 20 +++++++++---
 server/event_monitored_item.go      |  2 ++
 server/server.go                    |  8 ++---
 server/server_service_set.go        | 16 ++++-----
 server/subscription.go              | 50 ++++++++++++++++++++++++++++-
 server/subscription_manager.go      | 27 +++++++++-------
 6 files changed, 93 insertions(+), 30 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 94b03cc..66210d1 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -60,7 +60,7 @@ func NewDataChangeMonitoredItem(sub *Subscription, node Node, itemToMonitor ua.R
 		latestValue:         ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0),
 	}
 	mi.setQueueSize(parameters.QueueSize)
-	mi.setSamplingInterval(parameters.SamplingInterval)
+	mi.setSamplingInterval(parameters.SamplingInterval, sub.PublishingInterval())
 	mi.setFilter(parameters.Filter)
 
 	mi.Lock()
@@ -76,6 +76,8 @@ func (mi *DataChangeMonitoredItem) ID() uint32 {
 
 // Node returns the Node of the MonitoredItem.
 func (mi *DataChangeMonitoredItem) Node() Node {
+	mi.RLock()
+	defer mi.RUnlock()
 	return mi.node
 }
 
@@ -124,6 +126,14 @@ func (mi *DataChangeMonitoredItem) SetTriggered(val bool) {
 
 // Modify modifies the MonitoredItem.
 func (mi *DataChangeMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.MonitoredItemModifyResult {
+	// the lock of the subscription is not taken while holding the lock of the item
+	publishingInterval := float64(minPublishingInterval)
+	mi.RLock()
+	sub := mi.sub
+	mi.RUnlock()
+	if sub != nil {
+		publishingInterval = sub.PublishingInterval()
+	}
 	mi.Lock()
 	defer mi.Unlock()
 	if mi.node == nil {
@@ -134,7 +144,7 @@ func (mi *DataChangeMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.
 	mi.clientHandle = req.RequestedParameters.ClientHandle
 	mi.discardOldest = req.RequestedParameters.DiscardOldest
 	mi.setQueueSize(req.RequestedParameters.QueueSize)
-	mi.setSamplingInterval(req.RequestedParameters.SamplingInterval)
+	mi.setSamplingInterval(req.RequestedParameters.SamplingInterval, publishingInterval)
 	mi.setFilter(req.RequestedParameters.Filter)
 	mi.startMonitoring()
 	return ua.MonitoredItemModifyResult{RevisedSamplingInterval: mi.samplingInterval, RevisedQueueSize: mi.queueSize}
@@ -206,11 +216,11 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 	}
 }
 
-func (mi *DataChangeMonitoredItem) setSamplingInterval(samplingInterval float64) {
+func (mi *DataChangeMonitoredItem) setSamplingInterval(samplingInterval float64, publishingInterval float64) {
 	switch mi.itemToMonitor.AttributeID {
 	case ua.AttributeIDValue:
 		if samplingInterval < 0 {
-			samplingInterval = mi.sub.publishingInterval
+			samplingInterval = publishingInterval
 		}
 		if samplingInterval < mi.minSamplingInterval {
 			samplingInterval = mi.minSamplingInterval
@@ -225,7 +235,7 @@ func (mi *DataChangeMonitoredItem) setSamplingInterval(samplingInterval float64)
 		}
 	default:
 		if samplingInterval < 0 {
-			samplingInterval = mi.sub.publishingInterval
+			samplingInterval = publishingInterval
 		}
 		if samplingInterval < mi.minSamplingInterval {
 			samplingInterval = mi.minSamplingInterval
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 4990d55..96a5af4 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -61,6 +61,8 @@ func (mi *EventMonitoredItem) ID() uint32 {
 
 // Node returns the Node of the MonitoredItem.
 func (mi *EventMonitoredItem) Node() Node {
+	mi.RLock()
+	defer mi.RUnlock()
 	return mi.node
 }
 
diff --git a/server/server.go b/server/server.go
index a7959a7..b9ab77d 100644
--- a/server/server.go
+++ b/server/server.go
@@ -818,7 +818,7 @@ func (srv *Server) initializeNamespace() error {
 				return ua.NewDataValue(nil, 0, time.Now(), 0, time.Now(), 0)
 			}
 			a := make([]ua.ExtensionObject, 0, 16)
-			for _, s := range srv.SubscriptionManager().subscriptionsByID {
+			for _, s := range srv.SubscriptionManager().All() {
 				s.RLock()
 				e := ua.SubscriptionDiagnosticsDataType{
 					SessionID:                  s.sessionId,
@@ -885,7 +885,7 @@ func (srv *Server) initializeNamespace() error {
 			if !ok {
 				return ua.CallMethodResult{StatusCode: ua.BadSubscriptionIDInvalid}
 			}
-			if session == nil || sub.session != session {
+			if session == nil || sub.sessionId != session.sessionId {
 				return ua.CallMethodResult{StatusCode: ua.BadUserAccessDenied}
 			}
 			svrHandles := []uint32{}
@@ -920,7 +920,7 @@ func (srv *Server) initializeNamespace() error {
 			if !ok {
 				return ua.CallMethodResult{StatusCode: ua.BadSubscriptionIDInvalid}
 			}
-			if session == nil || sub.session != session {
+			if session == nil || sub.sessionId != session.sessionId {
 				return ua.CallMethodResult{StatusCode: ua.BadUserAccessDenied}
 			}
 			svrHandles := []uint32{}
@@ -955,7 +955,7 @@ func (srv *Server) initializeNamespace() error {
 			if !ok {
 				return ua.CallMethodResult{StatusCode: ua.BadSubscriptionIDInvalid}
 			}
-			if session == nil || sub.session != session {
+			if session == nil || sub.sessionId != session.sessionId {
 				return ua.CallMethodResult{StatusCode: ua.BadUserAccessDenied}
 			}
 			sub.resendData()
diff --git a/server/server_service_set.go b/server/server_service_set.go
index 84fea98..d5df9e9 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -4989,7 +4989,7 @@ func (srv *Server) handleCreateSubscription(ch *serverSecureChannel, requestid u
 		}
 		return nil
 	}
-	s.startPublishing()
+	s.Start()
 	// log.Printf("Created subscription '%d'.\n", s.id)
 
 	err := ch.Write(
@@ -4999,9 +4999,9 @@ func (srv *Server) handleCreateSubscription(ch *serverSecureChannel, requestid u
 				RequestHandle: req.RequestHeader.RequestHandle,
 			},
 			SubscriptionID:            s.id,
-			RevisedPublishingInterval: s.publishingInterval,
-			RevisedLifetimeCount:      s.maxLifetimeCount,
-			RevisedMaxKeepAliveCount:  s.maxKeepAliveCount,
+			RevisedPublishingInterval: s.PublishingInterval(),
+			RevisedLifetimeCount:      s.MaxLifetimeCount(),
+			RevisedMaxKeepAliveCount:  s.MaxKeepAliveCount(),
 		},
 		requestid,
 	)
@@ -5113,9 +5113,9 @@ func (srv *Server) handleModifySubscription(ch *serverSecureChannel, requestid u
 				Timestamp:     time.Now(),
 				RequestHandle: req.RequestHeader.RequestHandle,
 			},
-			RevisedPublishingInterval: sub.publishingInterval,
-			RevisedLifetimeCount:      sub.maxLifetimeCount,
-			RevisedMaxKeepAliveCount:  sub.maxKeepAliveCount,
+			RevisedPublishingInterval: sub.PublishingInterval(),
+			RevisedLifetimeCount:      sub.MaxLifetimeCount(),
+			RevisedMaxKeepAliveCount:  sub.MaxKeepAliveCount(),
 		},
 		requestid,
 	)
@@ -5543,7 +5543,7 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 
 	subs := sm.GetBySession(session)
 	sort.Slice(subs, func(i, j int) bool {
-		return subs[i].priority > subs[j].priority
+		return subs[i].Priority() > subs[j].Priority()
 	})
 
 	for _, sub := range subs {
diff --git a/server/subscription.go b/server/subscription.go
index 31c1ca1..0f296a2 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -201,6 +201,34 @@ func (s *Subscription) Modify(publishingInterval float64, lifetimeCount uint32,
 	s.startPublishing()
 }
 
+// PublishingInterval returns the publishing interval in ms.
+func (s *Subscription) PublishingInterval() float64 {
+	s.RLock()
+	defer s.RUnlock()
+	return s.publishingInterval
+}
+
+// MaxLifetimeCount returns the lifetime count.
+func (s *Subscription) MaxLifetimeCount() uint32 {
+	s.RLock()
+	defer s.RUnlock()
+	return s.maxLifetimeCount
+}
+
+// MaxKeepAliveCount returns the keep-alive count.
+func (s *Subscription) MaxKeepAliveCount() uint32 {
+	s.RLock()
+	defer s.RUnlock()
+	return s.maxKeepAliveCount
+}
+
+// Priority returns the priority.
+func (s *Subscription) Priority() byte {
+	s.RLock()
+	defer s.RUnlock()
+	return s.priority
+}
+
 func (s *Subscription) setPublishingInterval(publishingInterval float64) {
 	if math.IsNaN(publishingInterval) {
 		publishingInterval = minPublishingInterval
@@ -328,6 +356,23 @@ func (s *Subscription) republish(seqNum uint32) (ua.NotificationMessage, bool) {
 	return ua.NotificationMessage{}, false
 }
 
+// Start starts publishing, unless the subscription was deleted meanwhile.
+func (s *Subscription) Start() {
+	s.Lock()
+	defer s.Unlock()
+	if s.items == nil {
+		return
+	}
+	s.startPublishing()
+}
+
+// Stop stops publishing.
+func (s *Subscription) Stop() {
+	s.Lock()
+	defer s.Unlock()
+	s.stopPublishing()
+}
+
 func (s *Subscription) startPublishing() {
 	// log.Printf("startPublishing %d \n", s.id)
 	s.cancelPublishing = make(chan struct{})
@@ -348,7 +393,10 @@ func (s *Subscription) startPublishing() {
 
 func (s *Subscription) stopPublishing() {
 	// log.Printf("stopPublishing %d \n", s.id)
-	close(s.cancelPublishing)
+	if s.cancelPublishing != nil {
+		close(s.cancelPublishing)
+		s.cancelPublishing = nil
+	}
 }
 
 func (s *Subscription) publish(tn time.Time) error {
diff --git a/server/subscription_manager.go b/server/subscription_manager.go
index d7fba37..993af7e 100644
--- a/server/subscription_manager.go
+++ b/server/subscription_manager.go
@@ -81,13 +81,24 @@ func (m *SubscriptionManager) Len() int {
 	return len(m.subscriptionsByID)
 }
 
+// All returns all the subscriptions.
+func (m *SubscriptionManager) All() []*Subscription {
+	m.RLock()
+	defer m.RUnlock()
+	subs := make([]*Subscription, 0, len(m.subscriptionsByID))
+	for _, sub := range m.subscriptionsByID {
+		subs = append(subs, sub)
+	}
+	return subs
+}
+
 // GetBySession returns subscriptions for the session.
 func (m *SubscriptionManager) GetBySession(session *Session) []*Subscription {
 	m.RLock()
 	defer m.RUnlock()
 	subs := make([]*Subscription, 0, 4)
 	for _, sub := range m.subscriptionsByID {
-		if sub.session == session {
+		if sub.sessionId == session.sessionId {
 			subs = append(subs, sub)
 		}
 	}
@@ -95,14 +106,8 @@ func (m *SubscriptionManager) GetBySession(session *Session) []*Subscription {
 }
 
 func (m *SubscriptionManager) checkForExpiredSubscriptions() {
-	m.RLock()
-	subs := make([]*Subscription, 0, len(m.subscriptionsByID))
-	for _, s := range m.subscriptionsByID {
-		subs = append(subs, s)
-	}
-	m.RUnlock()
 	// the subscriptions are examined without holding the lock, as a publishing subscription may be waiting for it.
-	for _, s := range subs {
+	for _, s := range m.All() {
 		if s.IsExpired() {
 			m.Delete(s)
 			// log.Printf("Deleted expired subscription '%d'.\n", s.id)
@@ -112,10 +117,8 @@ func (m *SubscriptionManager) checkForExpiredSubscriptions() {
 }
 
 func (m *SubscriptionManager) stopPublishingAllSubscriptions() {
-	m.RLock()
-	defer m.RUnlock()
-	for _, v := range m.subscriptionsByID {
-		v.stopPublishing()
+	for _, v := range m.All() {
+		v.Stop()
 	}
 }
 
-- 
2.43.0


From 180aea72ab6303f883b45aa7ad8723aac1a0cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:04 +0000
Subject: [PATCH 41/67] fix: the state of a session is read and written under
 its lock

---
 server/server_service_set.go   |  6 ++---
 server/session.go              |  7 +++++-
 server/session_manager.go      | 42 +++++++++++++++++++++-----------
 server/subscription_manager.go | 44 ++++++++++++++++++++++++++++++++++
 4 files changed, 81 insertions(+), 18 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index d5df9e9..f82c105 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -259,9 +259,9 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 				RequestHandle: req.RequestHeader.RequestHandle,
 			},
 			SessionID:                  session.sessionId,
-			AuthenticationToken:        session.authenticationToken,
+			AuthenticationToken:        session.AuthenticationToken(),
 			RevisedSessionTimeout:      session.timeout,
-			ServerNonce:                session.sessionNonce,
+			ServerNonce:                session.SessionNonce(),
 			ServerCertificate:          ua.ByteString(srv.LocalCertificate()),
 			ServerEndpoints:            srv.Endpoints(),
 			ServerSoftwareCertificates: nil,
@@ -847,7 +847,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 	session.SetSecureChannelId(ch.ChannelID())
 	session.SetSecurityMode(ch.securityMode)
 	session.SetSecurityPolicyURI(ch.securityPolicyURI)
-	session.localeIds = req.LocaleIDs
+	session.SetLocaleIds(req.LocaleIDs)
 
 	err = ch.Write(
 		&ua.ActivateSessionResponse{
diff --git a/server/session.go b/server/session.go
index 4c0b71c..e52787d 100644
--- a/server/session.go
+++ b/server/session.go
@@ -159,7 +159,6 @@ func (s *Session) delete() {
 	s.securityPolicyURI = ua.SecurityPolicyURINone
 	s.sessionNonce = ua.ByteString("")
 	s.clientCertificate = ua.ByteString("")
-	s.publishRequests = nil
 	for k := range s.browseCPs {
 		delete(s.browseCPs, k)
 	}
@@ -195,6 +194,12 @@ func (s *Session) Timeout() float64 {
 	return s.timeout
 }
 
+func (s *Session) SetLocaleIds(value []string) {
+	s.Lock()
+	defer s.Unlock()
+	s.localeIds = value
+}
+
 func (s *Session) UserIdentity() any {
 	s.RLock()
 	defer s.RUnlock()
diff --git a/server/session_manager.go b/server/session_manager.go
index 04a3bf5..b4254fe 100644
--- a/server/session_manager.go
+++ b/server/session_manager.go
@@ -53,7 +53,7 @@ func (m *SessionManager) Add(s *Session) error {
 	if m.maxSessionCount > 0 && len(m.sessionsByToken) >= m.maxSessionCount {
 		return ua.BadTooManySessions
 	}
-	m.sessionsByToken[s.authenticationToken] = s
+	m.sessionsByToken[s.AuthenticationToken()] = s
 	if m.server.serverDiagnostics {
 		m.addDiagnosticsNode(s)
 		m.server.Lock()
@@ -68,7 +68,7 @@ func (m *SessionManager) Add(s *Session) error {
 func (m *SessionManager) Delete(s *Session) {
 	m.Lock()
 	defer m.Unlock()
-	delete(m.sessionsByToken, s.authenticationToken)
+	delete(m.sessionsByToken, s.AuthenticationToken())
 	if m.server.serverDiagnostics {
 		m.removeDiagnosticsNode(s)
 		m.server.Lock()
@@ -148,8 +148,10 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		subs := srv.subscriptionManager.GetBySession(s)
 		subCount = len(subs)
 		for _, sub := range subs {
-			itemCount += len(sub.items)
+			itemCount += len(sub.Items())
 		}
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(ua.SessionDiagnosticsDataType{
 			SessionID:                          s.sessionId,
 			SessionName:                        s.sessionName,
@@ -338,6 +340,8 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.localeIds, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -434,6 +438,8 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.lastAccess, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -485,7 +491,7 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		itemCount := 0
 		subs := srv.subscriptionManager.GetBySession(s)
 		for _, sub := range subs {
-			itemCount += len(sub.items)
+			itemCount += len(sub.Items())
 		}
 		return ua.NewDataValue(uint32(itemCount), 0, time.Now(), 0, time.Now(), 0)
 	})
@@ -1261,7 +1267,7 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session == nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
-		roles, err := n.server.GetRoles(session.userIdentity, "", "")
+		roles, err := n.server.GetRoles(session.UserIdentity(), "", "")
 		if err != nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
@@ -1277,6 +1283,8 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session.SecurityMode() != ua.MessageSecurityModeSignAndEncrypt {
 			return ua.NewDataValue(nil, ua.BadSecurityModeInsufficient, time.Now(), 0, time.Now(), 0)
 		}
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(ua.SessionSecurityDiagnosticsDataType{
 			SessionID:               s.sessionId,
 			ClientUserIDOfSession:   s.clientUserIdOfSession,
@@ -1314,7 +1322,7 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session == nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
-		roles, err := n.server.GetRoles(session.userIdentity, "", "")
+		roles, err := n.server.GetRoles(session.UserIdentity(), "", "")
 		if err != nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
@@ -1357,7 +1365,7 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session == nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
-		roles, err := n.server.GetRoles(session.userIdentity, "", "")
+		roles, err := n.server.GetRoles(session.UserIdentity(), "", "")
 		if err != nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
@@ -1373,6 +1381,8 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session.SecurityMode() != ua.MessageSecurityModeSignAndEncrypt {
 			return ua.NewDataValue(nil, ua.BadSecurityModeInsufficient, time.Now(), 0, time.Now(), 0)
 		}
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.clientUserIdOfSession, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -1400,7 +1410,7 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session == nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
-		roles, err := n.server.GetRoles(session.userIdentity, "", "")
+		roles, err := n.server.GetRoles(session.UserIdentity(), "", "")
 		if err != nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
@@ -1416,6 +1426,8 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session.SecurityMode() != ua.MessageSecurityModeSignAndEncrypt {
 			return ua.NewDataValue(nil, ua.BadSecurityModeInsufficient, time.Now(), 0, time.Now(), 0)
 		}
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.clientUserIdHistory, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -1443,7 +1455,7 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session == nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
-		roles, err := n.server.GetRoles(session.userIdentity, "", "")
+		roles, err := n.server.GetRoles(session.UserIdentity(), "", "")
 		if err != nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
@@ -1459,6 +1471,8 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session.SecurityMode() != ua.MessageSecurityModeSignAndEncrypt {
 			return ua.NewDataValue(nil, ua.BadSecurityModeInsufficient, time.Now(), 0, time.Now(), 0)
 		}
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.authenticationMechanism, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -1486,7 +1500,7 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session == nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
-		roles, err := n.server.GetRoles(session.userIdentity, "", "")
+		roles, err := n.server.GetRoles(session.UserIdentity(), "", "")
 		if err != nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
@@ -1529,7 +1543,7 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session == nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
-		roles, err := n.server.GetRoles(session.userIdentity, "", "")
+		roles, err := n.server.GetRoles(session.UserIdentity(), "", "")
 		if err != nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
@@ -1572,7 +1586,7 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session == nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
-		roles, err := n.server.GetRoles(session.userIdentity, "", "")
+		roles, err := n.server.GetRoles(session.UserIdentity(), "", "")
 		if err != nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
@@ -1615,7 +1629,7 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session == nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
-		roles, err := n.server.GetRoles(session.userIdentity, "", "")
+		roles, err := n.server.GetRoles(session.UserIdentity(), "", "")
 		if err != nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
@@ -1658,7 +1672,7 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 		if session == nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
-		roles, err := n.server.GetRoles(session.userIdentity, "", "")
+		roles, err := n.server.GetRoles(session.UserIdentity(), "", "")
 		if err != nil {
 			return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Now(), 0, time.Now(), 0)
 		}
diff --git a/server/subscription_manager.go b/server/subscription_manager.go
index 993af7e..98343f8 100644
--- a/server/subscription_manager.go
+++ b/server/subscription_manager.go
@@ -262,6 +262,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.priority, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -286,6 +288,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.publishingInterval, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -310,6 +314,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.maxKeepAliveCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -334,6 +340,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.maxLifetimeCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -358,6 +366,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.maxNotificationsPerPublish, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -382,6 +392,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.publishingEnabled, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -406,6 +418,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.modifyCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -478,6 +492,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.republishRequestCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -502,6 +518,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.republishMessageRequestCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -526,6 +544,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.republishMessageCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -622,6 +642,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.publishRequestCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -646,6 +668,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.dataChangeNotificationsCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -670,6 +694,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.eventNotificationsCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -694,6 +720,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.notificationsCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -718,6 +746,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.latePublishRequestCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -742,6 +772,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.keepAliveCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -766,6 +798,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.lifetimeCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -790,6 +824,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.unacknowledgedMessageCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -838,6 +874,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.monitoredItemCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -862,6 +900,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.disabledMonitoredItemCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -886,6 +926,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.monitoringQueueOverflowCount, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
@@ -910,6 +952,8 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+		s.RLock()
+		defer s.RUnlock()
 		return ua.NewDataValue(s.nextSequenceNumber, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
-- 
2.43.0


From e3d5848b1e03893a6a5a6d695e1bde8950026ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:48 +0000
Subject: [PATCH 42/67] fix: the shutdown state of the server is kept under its
 lock, and closing it twice does not panic

---
 server/server.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/server/server.go b/server/server.go
index b9ab77d..3ff9f0d 100644
--- a/server/server.go
+++ b/server/server.go
@@ -68,6 +68,7 @@ type Server struct {
 	localCertificate                     []byte
 	localPrivateKey                      *rsa.PrivateKey
 	closing                              chan struct{}
+	closeOnce                            sync.Once
 	state                                ua.ServerState
 	secondsTillShutdown                  uint32
 	shutdownReason                       ua.LocalizedText
@@ -333,26 +334,32 @@ func (srv *Server) Close() error {
 	srv.Lock()
 	if srv.state == ua.ServerStateRunning {
 		srv.state = ua.ServerStateShutdown
+		srv.shutdownReason = ua.NewLocalizedText("Closing", "")
 		srv.Unlock()
 
 		// allow for existing clients to exit gracefully
-		srv.shutdownReason = ua.NewLocalizedText("Closing", "")
 		for i := 3; i > 0; i-- {
-			srv.secondsTillShutdown = uint32(i)
+			srv.setSecondsTillShutdown(uint32(i))
 			time.Sleep(time.Second)
 		}
-		srv.secondsTillShutdown = uint32(0)
-		
+		srv.setSecondsTillShutdown(0)
+
 	} else {
 		srv.state = ua.ServerStateShutdown
 		srv.Unlock()
 	}
 
 	// begin closing channels
-	close(srv.closing)
+	srv.closeOnce.Do(func() { close(srv.closing) })
 	return nil
 }
 
+func (srv *Server) setSecondsTillShutdown(value uint32) {
+	srv.Lock()
+	defer srv.Unlock()
+	srv.secondsTillShutdown = value
+}
+
 // GetRoles returns the roles for the given user identity and connection information.
 func (srv *Server) GetRoles(userIdentity any, applicationURI string, endpointURL string) ([]ua.NodeID, error) {
 	return srv.rolesProvider.GetRoles(userIdentity, applicationURI, endpointURL)
@@ -555,6 +562,8 @@ func (srv *Server) initializeNamespace() error {
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerStatus); ok {
 		n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+			srv.RLock()
+			defer srv.RUnlock()
 			return ua.NewDataValue(
 				ua.ServerStatusDataType{
 					StartTime:           srv.startTime,
@@ -578,11 +587,15 @@ func (srv *Server) initializeNamespace() error {
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerStatusSecondsTillShutdown); ok {
 		n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+			srv.RLock()
+			defer srv.RUnlock()
 			return ua.NewDataValue(srv.secondsTillShutdown, 0, time.Now(), 0, time.Now(), 0)
 		})
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerStatusShutdownReason); ok {
 		n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+			srv.RLock()
+			defer srv.RUnlock()
 			return ua.NewDataValue(srv.shutdownReason, 0, time.Now(), 0, time.Now(), 0)
 		})
 	}
-- 
2.43.0


From 8278ab246fc516d4593abafa08cc402e3c71c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:51 +0000
Subject: [PATCH 43/67] fix: the handlers of a node and the identity of a
 session are read under their locks

---
 server/method_node.go        |  6 ++++++
 server/server_service_set.go | 22 +++++++++++-----------
 server/variable_node.go      | 12 ++++++++++++
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/server/method_node.go b/server/method_node.go
index 6488fb2..57683f7 100644
--- a/server/method_node.go
+++ b/server/method_node.go
@@ -135,6 +135,12 @@ func (n *MethodNode) UserExecutable(userIdentity any) bool {
 	return false
 }
 
+func (n *MethodNode) getCallMethodHandler() func(*Session, ua.CallMethodRequest) ua.CallMethodResult {
+	n.RLock()
+	defer n.RUnlock()
+	return n.callMethodHandler
+}
+
 // SetCallMethodHandler sets the CallMethod of the Variable.
 func (n *MethodNode) SetCallMethodHandler(value func(*Session, ua.CallMethodRequest) ua.CallMethodResult) {
 	n.Lock()
diff --git a/server/server_service_set.go b/server/server_service_set.go
index f82c105..e0c2f46 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3741,8 +3741,8 @@ func (srv *Server) handleCall(ch *serverSecureChannel, requestid uint32, req *ua
 				if !n3.UserExecutable(session.UserIdentity()) {
 					results[i] = ua.CallMethodResult{StatusCode: ua.BadUserAccessDenied}
 				} else {
-					if n3.callMethodHandler != nil {
-						results[i] = n3.callMethodHandler(session, n)
+					if f := n3.getCallMethodHandler(); f != nil {
+						results[i] = f(session, n)
 					} else {
 						results[i] = ua.CallMethodResult{StatusCode: ua.BadNotImplemented}
 					}
@@ -5699,7 +5699,7 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 	if !ok {
 		return ua.BadNodeIDUnknown
 	}
-	rp := n.UserRolePermissions(session.userIdentity)
+	rp := n.UserRolePermissions(session.UserIdentity())
 	if !IsUserPermitted(rp, ua.PermissionTypeBrowse) {
 		return ua.BadNodeIDUnknown
 	}
@@ -5713,7 +5713,7 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 			if (n1.AccessLevel() & ua.AccessLevelsCurrentWrite) == 0 {
 				return ua.BadNotWritable
 			}
-			if (n1.UserAccessLevel(session.userIdentity) & ua.AccessLevelsCurrentWrite) == 0 {
+			if (n1.UserAccessLevel(session.UserIdentity()) & ua.AccessLevelsCurrentWrite) == 0 {
 				return ua.BadUserAccessDenied
 			}
 			// check data type
@@ -6147,7 +6147,7 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 
 			}
 
-			if f := n1.writeValueHandler; f != nil {
+			if f := n1.getWriteValueHandler(); f != nil {
 				result, status := f(session, writeValue)
 				if status == ua.Good {
 					n1.SetValue(result)
@@ -6199,7 +6199,7 @@ func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.Da
 	if !ok {
 		return ua.NewDataValue(nil, ua.BadNodeIDUnknown, time.Time{}, 0, time.Now(), 0)
 	}
-	rp := n.UserRolePermissions(session.userIdentity)
+	rp := n.UserRolePermissions(session.UserIdentity())
 	if !IsUserPermitted(rp, ua.PermissionTypeBrowse) {
 		return ua.NewDataValue(nil, ua.BadNodeIDUnknown, time.Time{}, 0, time.Now(), 0)
 	}
@@ -6211,10 +6211,10 @@ func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.Da
 			if (n1.AccessLevel() & ua.AccessLevelsCurrentRead) == 0 {
 				return ua.NewDataValue(nil, ua.BadNotReadable, time.Time{}, 0, time.Now(), 0)
 			}
-			if (n1.UserAccessLevel(session.userIdentity) & ua.AccessLevelsCurrentRead) == 0 {
+			if (n1.UserAccessLevel(session.UserIdentity()) & ua.AccessLevelsCurrentRead) == 0 {
 				return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Time{}, 0, time.Now(), 0)
 			}
-			if f := n1.readValueHandler; f != nil {
+			if f := n1.getReadValueHandler(); f != nil {
 				return f(session, readValueId)
 			}
 			return readRange(n1.Value(), readValueId.IndexRange)
@@ -6311,7 +6311,7 @@ func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.Da
 	case ua.AttributeIDUserAccessLevel:
 		switch n1 := n.(type) {
 		case *VariableNode:
-			return ua.NewDataValue(n1.UserAccessLevel(session.userIdentity), ua.Good, time.Time{}, 0, time.Now(), 0)
+			return ua.NewDataValue(n1.UserAccessLevel(session.UserIdentity()), ua.Good, time.Time{}, 0, time.Now(), 0)
 		default:
 			return ua.NewDataValue(nil, ua.BadAttributeIDInvalid, time.Time{}, 0, time.Now(), 0)
 		}
@@ -6339,7 +6339,7 @@ func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.Da
 	case ua.AttributeIDUserExecutable:
 		switch n1 := n.(type) {
 		case *MethodNode:
-			return ua.NewDataValue(n1.UserExecutable(session.userIdentity), ua.Good, time.Time{}, 0, time.Now(), 0)
+			return ua.NewDataValue(n1.UserExecutable(session.UserIdentity()), ua.Good, time.Time{}, 0, time.Now(), 0)
 		default:
 			return ua.NewDataValue(nil, ua.BadAttributeIDInvalid, time.Time{}, 0, time.Now(), 0)
 		}
@@ -6364,7 +6364,7 @@ func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.Da
 		}
 		return ua.NewDataValue(s2, ua.Good, time.Time{}, 0, time.Now(), 0)
 	case ua.AttributeIDUserRolePermissions:
-		s1 := n.UserRolePermissions(session.userIdentity)
+		s1 := n.UserRolePermissions(session.UserIdentity())
 		s2 := make([]ua.ExtensionObject, len(s1))
 		for i := range s1 {
 			s2[i] = s1[i]
diff --git a/server/variable_node.go b/server/variable_node.go
index 57a526f..3fa5ed8 100644
--- a/server/variable_node.go
+++ b/server/variable_node.go
@@ -221,6 +221,18 @@ func (n *VariableNode) SetReadValueHandler(value func(*Session, ua.ReadValueID)
 	n.readValueHandler = value
 }
 
+func (n *VariableNode) getReadValueHandler() func(*Session, ua.ReadValueID) ua.DataValue {
+	n.RLock()
+	defer n.RUnlock()
+	return n.readValueHandler
+}
+
+func (n *VariableNode) getWriteValueHandler() func(*Session, ua.WriteValue) (ua.DataValue, ua.StatusCode) {
+	n.RLock()
+	defer n.RUnlock()
+	return n.writeValueHandler
+}
+
 // SetWriteValueHandler sets the WriteValueHandler of this node.
 func (n *VariableNode) SetWriteValueHandler(value func(*Session, ua.WriteValue) (ua.DataValue, ua.StatusCode)) {
 	n.Lock()
-- 
2.43.0


From fae4c69ef49d5cb29b130e18ba60fa77287ae439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 44/67] fix: the security diagnostics of a session are those of
 that session, not of the reader

---
 server/session_manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/session_manager.go b/server/session_manager.go
index b4254fe..9d1aee8 100644
--- a/server/session_manager.go
+++ b/server/session_manager.go
@@ -1292,9 +1292,9 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 			AuthenticationMechanism: s.authenticationMechanism,
 			Encoding:                "UA Binary",
 			TransportProtocol:       ua.TransportProfileURIUaTcpTransport,
-			SecurityMode:            session.SecurityMode(),
-			SecurityPolicyURI:       session.SecurityPolicyURI(),
-			ClientCertificate:       session.ClientCertificate(),
+			SecurityMode:            s.securityMode,
+			SecurityPolicyURI:       s.securityPolicyURI,
+			ClientCertificate:       s.clientCertificate,
 		}, 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, sessionSecurityDiagnosticsVariable)
-- 
2.43.0


From d896012b6c064bf7c70fab7cb557b062a63e1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:28 +0000
Subject: [PATCH 45/67] fix: encrypted passwords are decrypted in blocks of the
 size of the key, not of its private exponent

---
 server/server_service_set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index e0c2f46..93079b2 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -586,7 +586,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
@@ -646,7 +646,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
@@ -706,7 +706,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
-- 
2.43.0


From 05a9484c5b123f58b317a0843825408caed35356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:25 +0000
Subject: [PATCH 46/67] fix: browse paths are translated only along nodes the
 user may browse

---
 server/server_service_set.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 93079b2..a4a6170 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1674,7 +1674,7 @@ func (srv *Server) handleTranslateBrowsePathsToNodeIds(ch *serverSecureChannel,
 					return
 				}
 			}
-			targets, err1 := srv.follow(d.StartingNode, d.RelativePath.Elements)
+			targets, err1 := srv.follow(session, d.StartingNode, d.RelativePath.Elements)
 			if err1 == ua.BadNodeIDUnknown {
 				results[i] = ua.BrowsePathResult{StatusCode: ua.BadNodeIDUnknown, Targets: []ua.BrowsePathTarget{}}
 				wg.Done()
@@ -1982,11 +1982,11 @@ func (srv *Server) handleUnregisterNodes(ch *serverSecureChannel, requestid uint
 	return nil
 }
 
-func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
+func (srv *Server) follow(session *Session, nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
 	if len(elements) == 0 {
 		return nil, ua.BadNothingToDo
 	} else if len(elements) == 1 {
-		ns, err2 := srv.target(nodeID, elements[0])
+		ns, err2 := srv.target(session, nodeID, elements[0])
 		if err2 != nil {
 			return nil, err2
 		}
@@ -1997,7 +1997,7 @@ func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) (
 		return targets, nil
 	} else {
 		e := elements[0]
-		ns2, err3 := srv.target(nodeID, e)
+		ns2, err3 := srv.target(session, nodeID, e)
 		if err3 != nil {
 			return nil, err3
 		}
@@ -2009,7 +2009,7 @@ func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) (
 		copy(nextElements, elements[1:])
 		nextNode, ok := srv.NamespaceManager().FindNode(ua.ToNodeID(nextID, srv.NamespaceUris()))
 		if ok {
-			return srv.follow(nextNode.NodeID(), nextElements)
+			return srv.follow(session, nextNode.NodeID(), nextElements)
 		}
 		if len(nextElements) == 0 {
 			return []ua.BrowsePathTarget{
@@ -2023,7 +2023,7 @@ func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) (
 }
 
 // target returns a slice of target nodeid's that match the given RelativePathElement
-func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]ua.ExpandedNodeID, error) {
+func (srv *Server) target(session *Session, nodeID ua.NodeID, element ua.RelativePathElement) ([]ua.ExpandedNodeID, error) {
 	referenceTypeID := element.ReferenceTypeID
 	includeSubtypes := element.IncludeSubtypes
 	isInverse := element.IsInverse
@@ -2033,6 +2033,9 @@ func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]u
 	if !ok {
 		return nil, ua.BadNodeIDUnknown
 	}
+	if !IsUserPermitted(node.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+		return nil, ua.BadNodeIDUnknown
+	}
 	refs := node.References()
 	targets := make([]ua.ExpandedNodeID, 0, 4)
 	for _, r := range refs {
@@ -2046,6 +2049,9 @@ func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]u
 		if !ok {
 			continue
 		}
+		if !IsUserPermitted(t.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+			continue
+		}
 		if !(targetName == t.BrowseName()) {
 			continue
 		}
-- 
2.43.0


From a71854d01205fdc59e3dbd82945dd0543ad85551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:28 +0000
Subject: [PATCH 47/67] fix: a role mapping rule that does not apply no longer
 hides the rules after it

---
 server/roles_provider.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/roles_provider.go b/server/roles_provider.go
index d85a039..714d510 100644
--- a/server/roles_provider.go
+++ b/server/roles_provider.go
@@ -151,7 +151,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 			}
 		}
 		if !ok {
-			break // continue with next rule
+			continue // continue with next rule
 		}
 		ok = rule.EndpointsExclude // true means the following endpoints should be excluded
 		for _, ep := range rule.Endpoints {
@@ -161,7 +161,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 			}
 		}
 		if !ok {
-			break // continue with next role
+			continue // continue with next role
 		}
 		for _, identity := range rule.Identities {
 
-- 
2.43.0


From c6ec086a3e82ee63e7576883cfa13fb417ae461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:16 +0000
Subject: [PATCH 48/67] fix: an issued identity token is matched with issued
 token policies only

---
 server/server_service_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a4a6170..058a60a 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -360,7 +360,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 	case ua.IssuedIdentityToken:
 		var tokenPolicy *ua.UserTokenPolicy
 		for _, t := range ch.LocalEndpoint().UserIdentityTokens {
-			if t.TokenType == ua.UserTokenTypeCertificate && t.PolicyID == userIdentityToken.PolicyID {
+			if t.TokenType == ua.UserTokenTypeIssuedToken && t.PolicyID == userIdentityToken.PolicyID {
 				tokenPolicy = &t
 				break
 			}
-- 
2.43.0


From 54c523d896727de60fbf7503f131284f6e407a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:19 +0000
Subject: [PATCH 49/67] fix: an encrypted password is accepted only with the
 current nonce of the session

---
 server/server_service_set.go | 58 ++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 058a60a..bae0dac 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3,6 +3,7 @@
 package server
 
 import (
+	"bytes"
 	"context"
 	"crypto"
 	"crypto/rand"
@@ -618,8 +619,27 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			}
 			passwordBytes := make([]byte, plainLength-32)
 			plainBuf.Read(passwordBytes)
+			nonceBytes := make([]byte, 32)
+			plainBuf.Read(nonceBytes)
 			cipherBuf.Reset()
 			plainBuf.Reset()
+			// the secret is valid only for the current nonce of the session.
+			if !bytes.Equal(nonceBytes, []byte(session.SessionNonce())) {
+				err := ch.Write(
+					&ua.ServiceFault{
+						ResponseHeader: ua.ResponseHeader{
+							Timestamp:     time.Now(),
+							RequestHandle: req.RequestHandle,
+							ServiceResult: ua.BadIdentityTokenRejected,
+						},
+					},
+					requestid,
+				)
+				if err != nil {
+					return err
+				}
+				return nil
+			}
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
 
 		case ua.SecurityPolicyURIBasic256, ua.SecurityPolicyURIBasic256Sha256, ua.SecurityPolicyURIAes128Sha256RsaOaep:
@@ -678,8 +698,27 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			}
 			passwordBytes := make([]byte, plainLength-32)
 			plainBuf.Read(passwordBytes)
+			nonceBytes := make([]byte, 32)
+			plainBuf.Read(nonceBytes)
 			cipherBuf.Reset()
 			plainBuf.Reset()
+			// the secret is valid only for the current nonce of the session.
+			if !bytes.Equal(nonceBytes, []byte(session.SessionNonce())) {
+				err := ch.Write(
+					&ua.ServiceFault{
+						ResponseHeader: ua.ResponseHeader{
+							Timestamp:     time.Now(),
+							RequestHandle: req.RequestHandle,
+							ServiceResult: ua.BadIdentityTokenRejected,
+						},
+					},
+					requestid,
+				)
+				if err != nil {
+					return err
+				}
+				return nil
+			}
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
 
 		case ua.SecurityPolicyURIAes256Sha256RsaPss:
@@ -742,8 +781,27 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			}
 			passwordBytes := make([]byte, plainLength-32)
 			plainBuf.Read(passwordBytes)
+			nonceBytes := make([]byte, 32)
+			plainBuf.Read(nonceBytes)
 			cipherBuf.Reset()
 			plainBuf.Reset()
+			// the secret is valid only for the current nonce of the session.
+			if !bytes.Equal(nonceBytes, []byte(session.SessionNonce())) {
+				err := ch.Write(
+					&ua.ServiceFault{
+						ResponseHeader: ua.ResponseHeader{
+							Timestamp:     time.Now(),
+							RequestHandle: req.RequestHandle,
+							ServiceResult: ua.BadIdentityTokenRejected,
+						},
+					},
+					requestid,
+				)
+				if err != nil {
+					return err
+				}
+				return nil
+			}
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
 
 		default:
-- 
2.43.0


From f66a89b1e09eafa85d4de97c2c6742707dd43518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:08 +0000
Subject: [PATCH 50/67] fix: consult every current revocation list of an
 issuer, not only the first

---
 ua/certificate_helpers.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ua/certificate_helpers.go b/ua/certificate_helpers.go
index 7011102..b33388c 100644
--- a/ua/certificate_helpers.go
+++ b/ua/certificate_helpers.go
@@ -350,7 +350,6 @@ func checkRevocation(chain []*x509.Certificate, index int, crls []*x509.Revocati
 						return BadCertificateIssuerRevoked
 					}
 				}
-				break
 			}
 		}
 	}
-- 
2.43.0


From 261a99894e913a0cec9b3206a72340984aeb17a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:28 +0000
Subject: [PATCH 51/67] fix: refuse a message that needs too many chunks before
 sending the first of them

---
 client/client_secure_channel.go | 8 +++++---
 server/server_secure_channel.go | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 716ac84..0c4ac71 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1240,9 +1240,6 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 
 	for bodyCount > 0 {
 		chunkCount++
-		if i := int(ch.maxRequestChunkCount); i > 0 && chunkCount > i {
-			return ua.BadRequestTooLarge
-		}
 
 		// plan
 		var plainHeaderSize int
@@ -1282,6 +1279,11 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 			chunkSize = plainHeaderSize + sequenceHeaderSize + bodySize + paddingSize + paddingHeaderSize + signatureSize
 		}
 
+		// refuse the whole message before any of its chunks is sent
+		if i := int(ch.maxRequestChunkCount); i > 0 && chunkCount+(bodyCount-1)/maxBodySize > i {
+			return ua.BadRequestTooLarge
+		}
+
 		var stream = ua.NewWriter(sendBuffer)
 		var encoder = ua.NewBinaryEncoder(stream, ch)
 
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index fbd6e05..1b3b8a4 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -926,9 +926,6 @@ func (ch *serverSecureChannel) sendServiceResponse(response ua.ServiceResponse,
 
 	for bodyCount > 0 {
 		chunkCount++
-		if i := int(ch.maxResponseChunkCount); i > 0 && chunkCount > i {
-			return ua.BadResponseTooLarge
-		}
 
 		var plainHeaderSize int
 		var paddingHeaderSize int
@@ -967,6 +964,11 @@ func (ch *serverSecureChannel) sendServiceResponse(response ua.ServiceResponse,
 			chunkSize = plainHeaderSize + sequenceHeaderSize + bodySize + paddingSize + paddingHeaderSize + signatureSize
 		}
 
+		// refuse the whole message before any of its chunks is sent
+		if i := int(ch.maxResponseChunkCount); i > 0 && chunkCount+(bodyCount-1)/maxBodySize > i {
+			return ua.BadResponseTooLarge
+		}
+
 		var stream = ua.NewWriter(ch.sendBuffer)
 		var encoder = ua.NewBinaryEncoder(stream, ch)
 
-- 
2.43.0


From d4c37fa3c75e3b6c80acb371036f50b83fedc2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:13 +0000
Subject: [PATCH 52/67] fix: do not expire a queued publish request whose
 client set no timeout

---
 server/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session.go b/server/session.go
index e52787d..654e4a3 100644
--- a/server/session.go
+++ b/server/session.go
@@ -346,7 +346,7 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 			rid := op.requestId
 			results := op.results
 			// check if expired
-			if time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
+			if hint := req.RequestHeader.TimeoutHint; hint > 0 && time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(hint)*time.Millisecond)) {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From 37660e2f53f738037618f7f18ce4cc5659fd0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 53/67] fix: set the overflow bit in the queued value rather
 than in a copy of it

---
 server/datachange_monitored_item.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 66210d1..0469785 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -202,6 +202,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 			// set overflow bit of statuscode
 			v := mi.queue.Front()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(0, v)
 		}
 	} else {
 		for mi.queue.Len() > int(mi.queueSize) {
@@ -212,6 +213,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 			// set overflow bit of statuscode
 			v := mi.queue.Back()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(mi.queue.Len()-1, v)
 		}
 	}
 }
@@ -341,6 +343,7 @@ func (mi *DataChangeMonitoredItem) enqueue(item ua.DataValue) {
 			// set overflow bit of statuscode
 			v := mi.queue.Front()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(0, v)
 			mi.sub.monitoringQueueOverflowCount++
 		}
 	} else {
@@ -353,6 +356,7 @@ func (mi *DataChangeMonitoredItem) enqueue(item ua.DataValue) {
 			// set overflow bit of statuscode
 			v := mi.queue.Back()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(mi.queue.Len()-1, v)
 			mi.sub.monitoringQueueOverflowCount++
 		}
 	}
-- 
2.43.0


From 1c48f188209bcb41e643a2808cf468772ecd24f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:19 +0000
Subject: [PATCH 54/67] fix: a requested session timeout or sampling interval
 that is not a number is revised

---
 server/datachange_monitored_item.go | 4 ++--
 server/server_service_set.go        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 0469785..aad7138 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -221,7 +221,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 func (mi *DataChangeMonitoredItem) setSamplingInterval(samplingInterval float64, publishingInterval float64) {
 	switch mi.itemToMonitor.AttributeID {
 	case ua.AttributeIDValue:
-		if samplingInterval < 0 {
+		if math.IsNaN(samplingInterval) || samplingInterval < 0 {
 			samplingInterval = publishingInterval
 		}
 		if samplingInterval < mi.minSamplingInterval {
@@ -236,7 +236,7 @@ func (mi *DataChangeMonitoredItem) setSamplingInterval(samplingInterval float64,
 			}
 		}
 	default:
-		if samplingInterval < 0 {
+		if math.IsNaN(samplingInterval) || samplingInterval < 0 {
 			samplingInterval = publishingInterval
 		}
 		if samplingInterval < mi.minSamplingInterval {
diff --git a/server/server_service_set.go b/server/server_service_set.go
index bae0dac..448f0ef 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -213,7 +213,7 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 		sessionName = req.ClientDescription.ApplicationURI
 	}
 	sessionTimeout := req.RequestedSessionTimeout
-	if sessionTimeout < minSessionTimeout {
+	if math.IsNaN(sessionTimeout) || sessionTimeout < minSessionTimeout {
 		sessionTimeout = minSessionTimeout
 	}
 	if sessionTimeout > maxSessionTimeout {
-- 
2.43.0


From 0c2a276669a90e4aaccd4f1978801e6463ab9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:15 +0000
Subject: [PATCH 55/67] fix: register a client request without blocking, and
 forget it whatever its outcome

---
 client/client_secure_channel.go | 43 +++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 0c4ac71..5dd7351 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -106,7 +106,7 @@ type clientSecureChannel struct {
 	statusCode                 ua.StatusCode
 	sendingSemaphore           sync.Mutex
 	receivingSemaphore         sync.Mutex
-	pendingResponseCh          chan *ua.ServiceOperation
+	pendingLock                sync.Mutex
 	pendingResponses           map[uint32]*ua.ServiceOperation
 	closing                    bool
 	requestHandle              uint32
@@ -247,7 +247,11 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 		header.TimeoutHint = defaultTimeoutHint
 	}
 	var operation = ua.NewServiceOperation(req, make(chan ua.ServiceResponse, 1))
-	ch.pendingResponseCh <- operation
+	// register before sending, and forget the operation whatever the outcome
+	if !ch.addPendingResponse(header.RequestHandle, operation) {
+		return nil, ua.BadSecureChannelClosed
+	}
+	defer ch.removePendingResponse(header.RequestHandle)
 	ctx, cancel := context.WithDeadline(ctx, header.Timestamp.Add(time.Duration(header.TimeoutHint)*time.Millisecond))
 	err := ch.sendRequest(ctx, operation)
 	if err != nil {
@@ -448,8 +452,9 @@ func (ch *clientSecureChannel) connect(ctx context.Context) error {
 		ch.remotePublicKeySize = ch.remotePublicKey.Size()
 	}
 
-	ch.pendingResponseCh = make(chan *ua.ServiceOperation, 32)
+	ch.pendingLock.Lock()
 	ch.pendingResponses = make(map[uint32]*ua.ServiceOperation)
+	ch.pendingLock.Unlock()
 	ch.closed = make(chan struct{})
 	ch.channelID = 0
 	ch.tokenID = 0
@@ -1800,10 +1805,12 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 // handleResponse directs the response to the correct handler.
 func (ch *clientSecureChannel) handleResponse(res ua.ServiceResponse) error {
-	ch.mapPendingResponses()
 	hnd := res.Header().RequestHandle
-	if op, ok := ch.pendingResponses[hnd]; ok {
-		delete(ch.pendingResponses, hnd)
+	ch.pendingLock.Lock()
+	op, ok := ch.pendingResponses[hnd]
+	delete(ch.pendingResponses, hnd)
+	ch.pendingLock.Unlock()
+	if ok {
 		select {
 		case op.ResponseCh() <- res:
 		default:
@@ -1814,16 +1821,22 @@ func (ch *clientSecureChannel) handleResponse(res ua.ServiceResponse) error {
 	return ua.BadUnknownResponse
 }
 
-// mapPendingResponses maps operations coming from pendingResponseCh.
-func (ch *clientSecureChannel) mapPendingResponses() {
-	for {
-		select {
-		case op := <-ch.pendingResponseCh:
-			ch.pendingResponses[op.Request().Header().RequestHandle] = op
-		default:
-			return
-		}
+// addPendingResponse registers an operation that waits for a response.
+func (ch *clientSecureChannel) addPendingResponse(hnd uint32, op *ua.ServiceOperation) bool {
+	ch.pendingLock.Lock()
+	defer ch.pendingLock.Unlock()
+	if ch.pendingResponses == nil {
+		return false
 	}
+	ch.pendingResponses[hnd] = op
+	return true
+}
+
+// removePendingResponse forgets an operation that no longer waits for a response.
+func (ch *clientSecureChannel) removePendingResponse(hnd uint32) {
+	ch.pendingLock.Lock()
+	defer ch.pendingLock.Unlock()
+	delete(ch.pendingResponses, hnd)
 }
 
 // renewToken sends request to renew security token.
-- 
2.43.0


From 325e6afa20ea1daf35cadf14eb37b84380361f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 56/67] fix: close the connection of a discovery request whose
 channel could not be opened

---
 client/client_service_set.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/client_service_set.go b/client/client_service_set.go
index 2ad6d03..e33c6aa 100644
--- a/client/client_service_set.go
+++ b/client/client_service_set.go
@@ -71,6 +71,7 @@ func FindServers(ctx context.Context, request *ua.FindServersRequest) (*ua.FindS
 
 	err := ch.Open(ctx)
 	if err != nil {
+		ch.Abort(ctx)
 		return nil, err
 	}
 	res, err := ch.FindServers(ctx, request)
@@ -121,6 +122,7 @@ func GetEndpoints(ctx context.Context, request *ua.GetEndpointsRequest) (*ua.Get
 
 	err := ch.Open(ctx)
 	if err != nil {
+		ch.Abort(ctx)
 		return nil, err
 	}
 	res, err := ch.GetEndpoints(ctx, request)
-- 
2.43.0


From 338643f5d99226640729fa029f076399319b5c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:33 +0000
Subject: [PATCH 57/67] fix: starting a subscription again stops the publishing
 it replaces

---
 server/subscription.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/subscription.go b/server/subscription.go
index 0f296a2..9f0f827 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -363,6 +363,7 @@ func (s *Subscription) Start() {
 	if s.items == nil {
 		return
 	}
+	s.stopPublishing()
 	s.startPublishing()
 }
 
-- 
2.43.0


From bddf6f2b2e5e5b04c7c66a64542326652237b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:36 +0000
Subject: [PATCH 58/67] fix: a subscription started while the server closes
 stops publishing

---
 server/subscription.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/subscription.go b/server/subscription.go
index 9f0f827..dad61b4 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -378,18 +378,21 @@ func (s *Subscription) startPublishing() {
 	// log.Printf("startPublishing %d \n", s.id)
 	s.cancelPublishing = make(chan struct{})
 
-	go func(done chan struct{}, interval time.Duration, f func(time.Time) error) {
+	go func(done chan struct{}, closing <-chan struct{}, interval time.Duration, f func(time.Time) error) {
 		ticker := time.NewTicker(interval)
 		for {
 			select {
 			case <-done:
 				ticker.Stop()
 				return
+			case <-closing:
+				ticker.Stop()
+				return
 			case t := <-ticker.C:
 				f(t.UTC())
 			}
 		}
-	}(s.cancelPublishing, time.Duration(int64(s.publishingInterval))*time.Millisecond, s.publish)
+	}(s.cancelPublishing, s.manager.server.closing, time.Duration(int64(s.publishingInterval))*time.Millisecond, s.publish)
 }
 
 func (s *Subscription) stopPublishing() {
-- 
2.43.0


From dfe22a6c23e71a57f9b22e1a53138955414653e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:37 +0000
Subject: [PATCH 59/67] fix: publish requests queued by a session that was
 closed are refused

---
 server/server_service_set.go |  5 +++++
 server/session.go            | 17 +++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 448f0ef..a5562f2 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1003,6 +1003,11 @@ func (srv *Server) handleCloseSession(ch *serverSecureChannel, requestid uint32,
 	// delete session
 	srv.sessionManager.Delete(session)
 
+	// answer the publish requests that are still queued
+	if _, _, _, _, _, err := session.removePublishRequest(); err != nil {
+		return err
+	}
+
 	// log.Printf("Deleted session '%s'.\n", session.SessionName())
 
 	err := ch.Write(
diff --git a/server/session.go b/server/session.go
index 654e4a3..c442495 100644
--- a/server/session.go
+++ b/server/session.go
@@ -345,6 +345,23 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 			req := op.req
 			rid := op.requestId
 			results := op.results
+			// check if session closed
+			if s.AuthenticationToken() == nil {
+				err := ch.Write(
+					&ua.ServiceFault{
+						ResponseHeader: ua.ResponseHeader{
+							Timestamp:     time.Now(),
+							RequestHandle: req.RequestHandle,
+							ServiceResult: ua.BadSessionClosed,
+						},
+					},
+					rid,
+				)
+				if err != nil {
+					return nil, 0, nil, nil, false, err
+				}
+				continue
+			}
 			// check if expired
 			if hint := req.RequestHeader.TimeoutHint; hint > 0 && time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(hint)*time.Millisecond)) {
 				err := ch.Write(
-- 
2.43.0


From b52cb46163970c3adbb05a56b034ff2733ba60ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:39 +0000
Subject: [PATCH 60/67] fix: deleting a monitored item while its mode changes
 detaches it from its sampling group

---
 server/datachange_monitored_item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index aad7138..2ce0e5b 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -154,9 +154,9 @@ func (mi *DataChangeMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.
 func (mi *DataChangeMonitoredItem) Delete() {
 	mi.Lock()
 	defer mi.Unlock()
+	mi.node = nil
 	mi.stopMonitoring()
 	mi.queue.Clear()
-	mi.node = nil
 	mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
 	mi.sub = nil
 	mi.prequeue.Clear()
-- 
2.43.0


From 1f3d0b73b9ef512f9f16565d038d7097e2c6fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:44 +0000
Subject: [PATCH 61/67] fix: evaluating an event filter ends and does not
 panic, whatever its operands

---
 server/event_monitored_item.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 96a5af4..75be1cc 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -3,6 +3,7 @@
 package server
 
 import (
+	"reflect"
 	"sync/atomic"
 	"time"
 
@@ -235,12 +236,19 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 
 	case ua.FilterOperatorEquals:
 		var a, b ua.Variant
+		if len(element.FilterOperands) < 2 {
+			return false
+		}
 		switch c := element.FilterOperands[0].(type) {
 		case ua.LiteralOperand:
 			a = c.Value
 		case ua.SimpleAttributeOperand:
 			a = evt.GetAttribute(c)
 		case ua.ElementOperand:
+			// an operand refers to a later element, so that evaluating it ends
+			if int(c.Index) <= idx {
+				return false
+			}
 			a = mi.whereClause(evt, int(c.Index))
 		default:
 			return false
@@ -251,13 +259,22 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 		case ua.SimpleAttributeOperand:
 			b = evt.GetAttribute(c)
 		case ua.ElementOperand:
+			if int(c.Index) <= idx {
+				return false
+			}
 			b = mi.whereClause(evt, int(c.Index))
 		default:
 			return false
 		}
+		if a != nil && b != nil && !(reflect.ValueOf(a).Comparable() && reflect.ValueOf(b).Comparable()) {
+			return reflect.DeepEqual(a, b)
+		}
 		return a == b
 
 	case ua.FilterOperatorOfType:
+		if len(element.FilterOperands) < 1 {
+			return false
+		}
 		if a, ok := element.FilterOperands[0].(ua.LiteralOperand); ok {
 			if b, ok := a.Value.(ua.NodeID); ok {
 				if c, ok := evt.GetAttribute(attributeOperandEventType).(ua.NodeID); ok {
-- 
2.43.0


From e984795b31fa82a71248b8aa9c0520014fcc31de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:46 +0000
Subject: [PATCH 62/67] fix: finding the built-in type of a data type ends
 although its supertypes form a cycle

---
 server/namespace_manager.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index fa25e26..a1d83f1 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -189,7 +189,12 @@ func (m *NamespaceManager) FindVariantType(dataType ua.NodeID) byte {
 	}
 	m.RUnlock()
 	t := dataType
-	for {
+	for i := 0; ; i++ {
+		if i > 100 {
+			log.Printf("FindVariantType() exceeded limits.\n")
+			vt = ua.VariantTypeNull
+			goto exit
+		}
 		switch t {
 		case ua.DataTypeIDBoolean:
 			vt = ua.VariantTypeBoolean
-- 
2.43.0


From f9381359b27a09e371198cfe90d2cb6dffa0ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:48 +0000
Subject: [PATCH 63/67] fix: raising an event ends although the notifiers form
 a cycle

---
 server/namespace_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index a1d83f1..ccf6c81 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -602,7 +602,12 @@ func (m *NamespaceManager) getChildren(node Node, uris []string, withRefTypes []
 
 // OnEvent raises the event, starting from the target node, follows HasNotifier references until the Server node.
 func (m *NamespaceManager) OnEvent(target *ObjectNode, evt ua.Event) error {
+	visited := map[*ObjectNode]struct{}{}
 	for target.nodeID != ua.ObjectIDServer {
+		if _, ok := visited[target]; ok {
+			return nil
+		}
+		visited[target] = struct{}{}
 		target.OnEvent(evt)
 		found := false
 		for _, r := range target.References() {
-- 
2.43.0


From a7199dd64a7e6471072ac72e94e2c8e5c43fda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:50 +0000
Subject: [PATCH 64/67] fix: deleting a node with its children keeps the nodes
 of the OPC UA namespace

---
 server/namespace_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index ccf6c81..418d0b7 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -414,6 +414,9 @@ func (m *NamespaceManager) DeleteNodes(nodes []Node, deleteChildren bool) error
 		if deleteChildren {
 			children := m.getChildren(node, m.namespaces, hasChildandSubtypes)
 			for _, child := range children {
+				if m.isProtectedNode(child.NodeID()) {
+					continue // Skip protected children
+				}
 				m.deleteNodeandInverseReferences(child, m.namespaces)
 			}
 		}
-- 
2.43.0


From 6318b7844c916059b38c13f8ae9661626d207c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:58 +0000
Subject: [PATCH 65/67] fix: a matrix is written only to a variable of its type
 and number of dimensions

---
 server/server_service_set.go | 51 +++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a5562f2..fe039eb 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -6205,9 +6205,12 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 					if destRank != ua.ValueRankScalar && destRank != ua.ValueRankScalarOrOneDimension && destRank != ua.ValueRankAny {
 						return ua.BadTypeMismatch
 					}
-				case reflect.Slice, reflect.Array:
-					//TODO: check destType
-					if destRank == ua.ValueRankScalar {
+				case reflect.Slice:
+					elemType, dims := arrayType(v3.Type())
+					if destType != elemType && destType != ua.VariantTypeVariant {
+						return ua.BadTypeMismatch
+					}
+					if destRank != dims && destRank != ua.ValueRankOneOrMoreDimensions && destRank != ua.ValueRankAny && (dims != 1 || destRank != ua.ValueRankScalarOrOneDimension) {
 						return ua.BadTypeMismatch
 					}
 				default:
@@ -6253,6 +6256,48 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 	}
 }
 
+// variantTypes maps the Go type of a value to the built-in type.
+var variantTypes = map[reflect.Type]byte{
+	reflect.TypeOf(false):                             ua.VariantTypeBoolean,
+	reflect.TypeOf(int8(0)):                           ua.VariantTypeSByte,
+	reflect.TypeOf(uint8(0)):                          ua.VariantTypeByte,
+	reflect.TypeOf(int16(0)):                          ua.VariantTypeInt16,
+	reflect.TypeOf(uint16(0)):                         ua.VariantTypeUInt16,
+	reflect.TypeOf(int32(0)):                          ua.VariantTypeInt32,
+	reflect.TypeOf(uint32(0)):                         ua.VariantTypeUInt32,
+	reflect.TypeOf(int64(0)):                          ua.VariantTypeInt64,
+	reflect.TypeOf(uint64(0)):                         ua.VariantTypeUInt64,
+	reflect.TypeOf(float32(0)):                        ua.VariantTypeFloat,
+	reflect.TypeOf(float64(0)):                        ua.VariantTypeDouble,
+	reflect.TypeOf(""):                                ua.VariantTypeString,
+	reflect.TypeOf(time.Time{}):                       ua.VariantTypeDateTime,
+	reflect.TypeOf(uuid.UUID{}):                       ua.VariantTypeGUID,
+	reflect.TypeOf(ua.ByteString("")):                 ua.VariantTypeByteString,
+	reflect.TypeOf(ua.XMLElement("")):                 ua.VariantTypeXMLElement,
+	reflect.TypeOf((*ua.NodeID)(nil)).Elem():          ua.VariantTypeNodeID,
+	reflect.TypeOf(ua.ExpandedNodeID{}):               ua.VariantTypeExpandedNodeID,
+	reflect.TypeOf(ua.StatusCode(0)):                  ua.VariantTypeStatusCode,
+	reflect.TypeOf(ua.QualifiedName{}):                ua.VariantTypeQualifiedName,
+	reflect.TypeOf(ua.LocalizedText{}):                ua.VariantTypeLocalizedText,
+	reflect.TypeOf((*ua.ExtensionObject)(nil)).Elem(): ua.VariantTypeExtensionObject,
+	reflect.TypeOf(ua.DataValue{}):                    ua.VariantTypeDataValue,
+	reflect.TypeOf((*ua.Variant)(nil)).Elem():         ua.VariantTypeVariant,
+	reflect.TypeOf(ua.DiagnosticInfo{}):               ua.VariantTypeDiagnosticInfo,
+}
+
+// arrayType returns the built-in type of the elements and the number of dimensions of an array.
+func arrayType(t reflect.Type) (byte, int32) {
+	dims := int32(0)
+	for t.Kind() == reflect.Slice {
+		t = t.Elem()
+		dims++
+	}
+	if vt, ok := variantTypes[t]; ok {
+		return vt, dims
+	}
+	return 0xff, dims // not a built-in type
+}
+
 // readValue returns the value of the attribute.
 func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.DataValue {
 	if session == nil {
-- 
2.43.0


From 762133e3ff236348e1756ec998aa8cd0230fdef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:01 +0000
Subject: [PATCH 66/67] fix: a data value or diagnostic info is not taken for a
 structure when it is written

---
 server/server_service_set.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index fe039eb..7c11a8c 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5955,6 +5955,20 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 				if destRank != ua.ValueRankScalar && destRank != ua.ValueRankScalarOrOneDimension && destRank != ua.ValueRankAny {
 					return ua.BadTypeMismatch
 				}
+			case ua.DataValue:
+				if destType != ua.VariantTypeDataValue && destType != ua.VariantTypeVariant {
+					return ua.BadTypeMismatch
+				}
+				if destRank != ua.ValueRankScalar && destRank != ua.ValueRankScalarOrOneDimension && destRank != ua.ValueRankAny {
+					return ua.BadTypeMismatch
+				}
+			case ua.DiagnosticInfo:
+				if destType != ua.VariantTypeDiagnosticInfo && destType != ua.VariantTypeVariant {
+					return ua.BadTypeMismatch
+				}
+				if destRank != ua.ValueRankScalar && destRank != ua.ValueRankScalarOrOneDimension && destRank != ua.ValueRankAny {
+					return ua.BadTypeMismatch
+				}
 			case []bool:
 				if len(v2) > int(srv.serverCapabilities.MaxArrayLength) {
 					return ua.BadOutOfRange
-- 
2.43.0


From b247cd2fc5db7c14188e11a542d1d30c51f2824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 67/67] fix: a monitored item enters and leaves its sampling
 group under its own lock

---
 server/datachange_monitored_item.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 2ce0e5b..1d1c09a 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -271,21 +271,18 @@ func (mi *DataChangeMonitoredItem) startMonitoring() {
 	if mi.node == nil {
 		return
 	}
+	if mi.monitoringMode == ua.MonitoringModeDisabled || interval != time.Duration(mi.samplingInterval)*time.Millisecond {
+		// changed while the value was read
+		return
+	}
 	mi.latestValue = v
 	mi.prequeue.PushBack(v)
-	mi.Unlock()
 	mi.srv.Scheduler().GetPollGroup(interval).Subscribe(mi)
-	mi.Lock()
-	if mi.node == nil {
-		mi.stopMonitoring()
-	}
 }
 
 func (mi *DataChangeMonitoredItem) stopMonitoring() {
 	interval := time.Duration(mi.samplingInterval) * time.Millisecond
-	mi.Unlock()
 	mi.srv.Scheduler().GetPollGroup(interval).Unsubscribe(mi)
-	mi.Lock()
 }
 
 // Poll reads the value of the itemToMonitor.
-- 
2.43.0

