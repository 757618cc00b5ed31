From c8bdd6e25fae9dc023490b23717b7cec6c5f551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 01/44] fix: assign decoded number payloads (generated code
 with a number payload did not compile)

---
 pkg/codegen/generators/v2/templates/message.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/message.tmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 9b0e128..87780a7 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -86,7 +86,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- end -}}
 
     {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
+    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
             msg.Payload = {{ .Payload.ReferenceTo.Name }}(payload)
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index e9dd4ed..ffddc03 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -95,7 +95,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- end -}}
 
     {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
+    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
             msg.Payload = {{ .Payload.Follow.Name }}(payload)
-- 
2.43.0


From eeef176df9574908fa9658d0700d10d03ecc3a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 02/44] fix: decode integer and number payloads as they are
 encoded, without crashing on short ones

---
 .../generators/v2/templates/message.tmpl      | 24 ++++++++++++++-----
 .../generators/v3/templates/message.tmpl      | 24 ++++++++++++++-----
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 87780a7..8642394 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -66,16 +66,28 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- else if eq $payload.Type "integer"}}
         // Convert to integer
         {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+            if len(bMsg.Payload) < 4 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload is too short: %d bytes", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int32(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) < 8 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload is too short: %d bytes", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int64(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else if eq $payload.Type "number"}}
         // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+        {{- if and $payload.Format (eq $payload.Format "float")}}
+            if len(bMsg.Payload) < 4 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload is too short: %d bytes", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float32frombits(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) < 8 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload is too short: %d bytes", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -173,7 +185,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         }
     {{- else if eq $payload.Type "integer"}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
+        {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
             binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index ffddc03..2d82c25 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -75,16 +75,28 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- else if eq $payload.Type "integer"}}
         // Convert to integer
         {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+            if len(bMsg.Payload) < 4 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload is too short: %d bytes", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int32(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) < 8 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload is too short: %d bytes", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int64(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else if eq $payload.Type "number"}}
         // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+        {{- if and $payload.Format (eq $payload.Format "float")}}
+            if len(bMsg.Payload) < 4 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload is too short: %d bytes", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float32frombits(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) < 8 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload is too short: %d bytes", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -190,7 +202,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         }
     {{- else if eq $payload.Type "integer"}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
+        {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
             binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
-- 
2.43.0


From a4ca4e5a897fa222dbf4d9642296b73193246195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 03/44] fix: generate compilable parameters for AsyncAPI v2
 channels

---
 pkg/asyncapi/v2/parameter.go                   | 2 +-
 pkg/codegen/generators/v2/templates/types.tmpl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index e226e12..06d387e 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -9,7 +9,7 @@ type Parameter struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
 	Description string  `json:"description"`
-	Schema      *Schema `json:"schema-name"`
+	Schema      *Schema `json:"schema"`
 	Location    string  `json:"location"`
 	Reference   string  `json:"$ref"`
 
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index eb1eb3b..c4ac5bd 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -59,8 +59,8 @@ func (e *Error) Error() string {
 {{range $key, $value := .Channels -}}
 
 {{- if $value.Parameters -}}
-// {{ namifyWithoutParam .Name }}Parameters represents {{ namify .Name }} channel parameters
-type {{ namifyWithoutParam .Name }}Parameters struct {
+// {{ namifyWithoutParam $key }}Parameters represents {{ namify .Name }} channel parameters
+type {{ namifyWithoutParam $key }}Parameters struct {
 {{- range $key, $value := .Parameters}}
     {{- template "parameter" $value}}
 {{- end}}
-- 
2.43.0


From 8d8a6b296183c3b3e063b16e5d2797430349964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 04/44] fix: make the cancellation of broker subscriptions
 idempotent, complete and safe against concurrent deliveries

Cancel could receive its own request back (never cancelling anything), panic
when called again, or block forever, and a message transmitted during the
cancellation could panic on the closed channel.
---
 pkg/extensions/broker.go | 64 +++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 10 deletions(-)

diff --git a/pkg/extensions/broker.go b/pkg/extensions/broker.go
index 123ec3d..8aff01e 100644
--- a/pkg/extensions/broker.go
+++ b/pkg/extensions/broker.go
@@ -3,6 +3,7 @@ package extensions
 import (
 	"context"
 	"fmt"
+	"sync"
 )
 
 // BrokerChannelSubscription is a struct that contains every returned structures
@@ -10,6 +11,19 @@ import (
 type BrokerChannelSubscription struct {
 	messages chan AcknowledgeableBrokerMessage
 	cancel   chan any
+
+	cancellation *subscriptionCancellation
+}
+
+// subscriptionCancellation is the state of the cancellation of a subscription,
+// shared between all the copies of this subscription.
+type subscriptionCancellation struct {
+	requestOnce sync.Once
+	requested   chan struct{} // closed when the user asks for cancellation
+	closing     chan struct{} // closed when no more message should be transmitted
+	done        chan struct{} // closed when the cancellation is complete
+
+	transmissions sync.RWMutex // read-locked by transmissions, locked to close messages
 }
 
 // NewBrokerChannelSubscription creates a new broker channel subscription based
@@ -21,13 +35,33 @@ func NewBrokerChannelSubscription(
 	return BrokerChannelSubscription{
 		messages: messages,
 		cancel:   cancel,
+		cancellation: &subscriptionCancellation{
+			requested: make(chan struct{}),
+			closing:   make(chan struct{}),
+			done:      make(chan struct{}),
+		},
 	}
 }
 
 // TransmitReceivedMessage should only be used by the broker to transmit the
-// new received messages to the user.
+// new received messages to the user. If the subscription has been cancelled,
+// then there is nobody to receive the message and it is dropped.
 func (bcs BrokerChannelSubscription) TransmitReceivedMessage(msg AcknowledgeableBrokerMessage) {
-	bcs.messages <- msg
+	// Avoid messages to be closed during the transmission
+	bcs.cancellation.transmissions.RLock()
+	defer bcs.cancellation.transmissions.RUnlock()
+
+	// Check first if the subscription is closed, as select has no priority
+	select {
+	case <-bcs.cancellation.closing:
+		return
+	default:
+	}
+
+	select {
+	case bcs.messages <- msg:
+	case <-bcs.cancellation.closing:
+	}
 }
 
 // MessagesChannel returns the channel that will get the received messages from
@@ -41,29 +75,39 @@ func (bcs BrokerChannelSubscription) MessagesChannel() <-chan AcknowledgeableBro
 func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 	go func() {
 		// Wait for cancel request
-		<-bcs.cancel
+		select {
+		case <-bcs.cancel:
+		case <-bcs.cancellation.requested:
+		}
 
 		// Execute cleanup function
 		cleanup()
 
-		// Close messages in order to avoid new messages
+		// Release the transmissions that nobody is reading, then close messages
+		// in order to avoid new messages
+		close(bcs.cancellation.closing)
+		bcs.cancellation.transmissions.Lock()
 		close(bcs.messages)
+		bcs.cancellation.transmissions.Unlock()
 
-		// Close cancel to let listeners know that the cancellation is complete
-		close(bcs.cancel)
+		// Let listeners know that the cancellation is complete
+		close(bcs.cancellation.done)
 	}()
 }
 
 // Cancel cancels the subscription from user perspective. It will ask for clean
 // up on broker, which will return when finished to avoid dangling resources, such
-// as non-existent queue listeners on (broker) server side.
+// as non-existent queue listeners on (broker) server side. It can be called
+// several times, and concurrently.
 func (bcs BrokerChannelSubscription) Cancel(ctx context.Context) {
-	// Send a cancellation request
-	bcs.cancel <- true
+	// Send a cancellation request, if there is none already
+	bcs.cancellation.requestOnce.Do(func() {
+		close(bcs.cancellation.requested)
+	})
 
 	// Wait for the cancellation to be effective
 	select {
-	case <-bcs.cancel:
+	case <-bcs.cancellation.done:
 	case <-ctx.Done():
 	}
 }
-- 
2.43.0


From 6939bdb2310adcba51cee7b6462e6a62eee80e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 05/44] fix: report a recovered panic as an error, as the
 operation has not been executed

---
 pkg/extensions/errors.go               | 4 ++++
 pkg/extensions/middlewares/recovery.go | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/errors.go b/pkg/extensions/errors.go
index af97810..cd7ee59 100644
--- a/pkg/extensions/errors.go
+++ b/pkg/extensions/errors.go
@@ -34,4 +34,8 @@ var (
 	// ErrChannelAddressEmpty is raised when a given channel address is empty,
 	// when dynamically set from message.
 	ErrChannelAddressEmpty = fmt.Errorf("%w: channel address empty", ErrAsyncAPI)
+
+	// ErrRecoveredFromPanic is raised when a panic has been recovered instead of
+	// executing an operation.
+	ErrRecoveredFromPanic = fmt.Errorf("%w: recovered from panic", ErrAsyncAPI)
 )
diff --git a/pkg/extensions/middlewares/recovery.go b/pkg/extensions/middlewares/recovery.go
index b5e7782..f18c46c 100644
--- a/pkg/extensions/middlewares/recovery.go
+++ b/pkg/extensions/middlewares/recovery.go
@@ -8,13 +8,15 @@ import (
 )
 
 // Recovery is a middleware that recovers from panic in middlewares coming after
-// it and user code from subscription.
+// it and user code from subscription. The panic is reported as an error, as the
+// operation has not been executed successfully.
 func Recovery(logger extensions.Logger) extensions.Middleware {
-	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
+	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) (err error) {
 		// Recover in case of panic
 		defer func() {
 			if r := recover(); r != nil {
 				logger.Error(ctx, fmt.Sprintf("Recovered from panic: %v", r))
+				err = fmt.Errorf("%w: %v", extensions.ErrRecoveredFromPanic, r)
 			}
 		}()
 
-- 
2.43.0


From 1d6a9724afee9b5b8f414a813e1cd897f9b3cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 06/44] fix: end a request when its context or its reply
 subscription ends

The loop of the generated Request.../WaitFor... methods logged the error of the
wait and started over, so a request whose context was done, or whose
subscription was ended by the broker, never returned and span.
---
 pkg/codegen/generators/v2/templates/controller.tmpl | 1 +
 pkg/codegen/generators/v3/templates/controller.tmpl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 57a862e..229f45f 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -365,6 +365,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
         msg, err := c.waitFor{{operationName $value}}NextMessage(ctx, path, sub, publishMsg)
         if err != nil {
             c.logger.Error(ctx, err.Error())
+            return {{(channelToMessage $value "subscribe").Name}}{}, err
         }
 
         // Continue if the message hasn't been received
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 902c2fc..6538b87 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -444,6 +444,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
         msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.GetMessage.HaveCorrelationID}}, msg{{end}})
         if err != nil {
             c.logger.Error(ctx, err.Error())
+            return {{channelToMessageTypeName .Reply.Channel}}{}, err
         }
 
         // Continue if the message hasn't been received
-- 
2.43.0


From ce06e6184e4640fb2240b686960e0f374b2d76cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 07/44] fix: acknowledge the reply of a request without
 correlation ID

Only the branch with a correlation ID acknowledged the received reply, so a
broker with manual acknowledgement redelivered it forever.
---
 pkg/codegen/generators/v3/templates/controller.tmpl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 6538b87..1e62e1b 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -500,6 +500,9 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         {{- else}}
         // There is correlation no ID, so it will automatically return at
         // the first received message.
+
+        // Acknowledge the message
+        acknowledgeableBrokerMessage.Ack()
         {{- end}}
 
         // Set context with received values as it is the expected message
-- 
2.43.0


From 27b058176464a8e751113546d5a6525c7352c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 08/44] fix: end subscriptions on channels with parameters when
 unsubscribing from all channels

Close and unsubscribe-all only ended the subscriptions of channels without
parameters, leaving the others on the broker.
---
 pkg/codegen/generators/v2/templates/controller.tmpl | 8 ++++++++
 pkg/codegen/generators/v3/templates/controller.tmpl | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 229f45f..2531ee5 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -127,6 +127,14 @@ func (c *{{ .Prefix }}Controller) UnsubscribeAll(ctx context.Context) {
     c.Unsubscribe{{operationName $value}}(ctx)
     {{- end}}
     {{- end}}
+
+    // Stop the other subscriptions, which are on channels with parameters
+    for path, sub := range c.subscriptions {
+        subCtx := add{{ .Prefix }}ContextValues(ctx, path)
+        sub.Cancel(subCtx)
+        delete(c.subscriptions, path)
+        c.logger.Info(subCtx, "Unsubscribed from channel")
+    }
 }
 {{- end}}
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 1e62e1b..b885f24 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -128,6 +128,14 @@ func (c *{{ .Prefix }}Controller) UnsubscribeFromAllChannels(ctx context.Context
     c.UnsubscribeFrom{{ namify $value.Follow.Name }}(ctx)
     {{- end}}
     {{- end}}
+
+    // Stop the other subscriptions, which are on channels with parameters
+    for addr, sub := range c.subscriptions {
+        subCtx := add{{ .Prefix }}ContextValues(ctx, addr)
+        sub.Cancel(subCtx)
+        delete(c.subscriptions, addr)
+        c.logger.Info(subCtx, "Unsubscribed from channel")
+    }
 }
 {{- end}}
 
-- 
2.43.0


From 23c1c532e69c509f9cb54f0211d44d43692f1017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 09/44] fix: publish messages without headers through the
 version wrapper, and leave the headers of the caller alone

Publishing a message with nil headers panicked, and the version was written in
the headers of the caller, so that publishing one message with two versions
could send it with the wrong one.
---
 pkg/extensions/versioning/wrapper.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/versioning/wrapper.go b/pkg/extensions/versioning/wrapper.go
index e8a0b21..eacfcd2 100644
--- a/pkg/extensions/versioning/wrapper.go
+++ b/pkg/extensions/versioning/wrapper.go
@@ -77,9 +77,14 @@ func WithVersionHeaderKey(headerKey string) WrapperOption {
 
 // Publish a message to the broker.
 func (w *Wrapper) Publish(ctx context.Context, channel string, mw extensions.BrokerMessage) error {
-	// Add version to message
+	// Add version to message, without modifying the headers of the caller
 	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsVersion, func(version string) {
-		mw.Headers[w.versionHeaderKey] = []byte(version)
+		headers := make(map[string][]byte, len(mw.Headers)+1)
+		for k, v := range mw.Headers {
+			headers[k] = v
+		}
+		headers[w.versionHeaderKey] = []byte(version)
+		mw.Headers = headers
 	})
 
 	// Send message
-- 
2.43.0


From f8b5004e66d71fd89b88aaed7edbbb2b1af63d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 10/44] fix: lock channels and versions in the same order when
 a version is subscribed and cancelled concurrently

Subscribe locks the channels then the versions, the end of a cancellation did
the opposite: both could wait for each other forever.
---
 pkg/extensions/versioning/broker_subscription.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 49a837c..8779d27 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -50,6 +50,12 @@ func (bs *brokerSubscription) createVersionListener(ctx context.Context, version
 }
 
 func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *versionSubcription) {
+	// Lock the channels to avoid conflict
+	//
+	// NOTE: always before the versions, as when subscribing
+	bs.parent.channelsMutex.Lock()
+	defer bs.parent.channelsMutex.Unlock()
+
 	// Lock the versions to avoid conflict
 	bs.versionsMutex.Lock()
 	defer bs.versionsMutex.Unlock()
@@ -57,10 +63,6 @@ func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *ver
 	// Remove the version from the channelsByBroker
 	delete(bs.versionsChannels, vs.version)
 
-	// Lock the channels to avoid conflict
-	bs.parent.channelsMutex.Lock()
-	defer bs.parent.channelsMutex.Unlock()
-
 	// If there is still version channels, do nothing
 	if len(bs.versionsChannels) > 0 {
 		return
-- 
2.43.0


From efefaa05e7f9868a67f63239d875b49e5d90c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 11/44] fix: keep handling messages after one of an unknown
 version

The version wrapper kept the versions locked after a message of an unknown
version, which blocked the channel, every other version and the cancellations.
The context of the logs also kept growing with each dropped message.
---
 .../versioning/broker_subscription.go           | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 8779d27..12b6829 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -94,8 +94,8 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 				if bs.parent.defaultVersion != nil {
 					version = *bs.parent.defaultVersion
 				} else {
-					ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
-					bs.parent.logger.Error(ctx, "no version in the message and no default version")
+					msgCtx := context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
+					bs.parent.logger.Error(msgCtx, "no version in the message and no default version")
 					continue
 				}
 			}
@@ -105,19 +105,20 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 
 			// Get the correct channel based on the version
 			vc, exists := bs.versionsChannels[version]
+
+			// Unlock the versions
+			bs.versionsMutex.Unlock()
+
 			if !exists {
 				// Set context
-				ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
-				ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, version)
+				msgCtx := context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
+				msgCtx = context.WithValue(msgCtx, extensions.ContextKeyIsVersion, version)
 
 				// Log the error
-				bs.parent.logger.Error(ctx, fmt.Sprintf("version %q is not registered", version))
+				bs.parent.logger.Error(msgCtx, fmt.Sprintf("version %q is not registered", version))
 				continue
 			}
 
-			// Unlock the versions
-			bs.versionsMutex.Unlock()
-
 			// Send the message to the correct channel
 			vc.subscription.TransmitReceivedMessage(msg)
 		}
-- 
2.43.0


From 673880f55b3a3c5b9698840567f8225b68885a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 12/44] fix: release the broker when the last version is
 cancelled after the context of its subscription is done

---
 pkg/extensions/versioning/version_subscription.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/versioning/version_subscription.go b/pkg/extensions/versioning/version_subscription.go
index 9ccc1b7..57cc05e 100644
--- a/pkg/extensions/versioning/version_subscription.go
+++ b/pkg/extensions/versioning/version_subscription.go
@@ -29,7 +29,9 @@ func (vs *versionSubcription) launchListener(ctx context.Context) {
 	// Wait for cancellation and remove version listener when it happens
 	vs.subscription.WaitForCancellationAsync(func() {
 		// Create cancel function in case there is a problem with broker removal
-		ctx, cancel := context.WithTimeout(ctx, 10*time.Second)
+		//
+		// NOTE: the context used to subscribe may be done for long
+		ctx, cancel := context.WithTimeout(context.WithoutCancel(ctx), 10*time.Second)
 		defer cancel()
 
 		// Remove the version listener
-- 
2.43.0


From 482dbf74c5e6e735ed221b54e9f0b24831e1915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 13/44] fix: options of a code generation do not stick to the
 next ones

---
 pkg/codegen/codegen.go                         |  7 +++++++
 pkg/codegen/generators/v2/templates/helpers.go | 10 +++++++++-
 pkg/codegen/generators/v3/templates/helpers.go | 10 +++++++++-
 pkg/utils/template/helpers.go                  | 10 +++++++++-
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index df377fb..8c4d085 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -90,12 +90,19 @@ func (cg CodeGen) Generate(opt options.Options) error {
 		return err
 	}
 
+	// These settings are shared by all the generations of the process: set them
+	// in both cases, so that a previous generation has no effect on this one.
 	if opt.IgnoreStringFormat {
 		template.DisableDateOrTimeGeneration()
+	} else {
+		template.EnableDateOrTimeGeneration()
 	}
 	if opt.ForcePointers {
 		templatesv2.ForcePointerOnFields()
 		templatesv3.ForcePointerOnFields()
+	} else {
+		templatesv2.DefaultPointerOnFields()
+		templatesv3.DefaultPointerOnFields()
 	}
 
 	// Process Specification
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 8e4d603..1fc87de 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -141,10 +141,18 @@ func OperationName(channel asyncapi.Channel) string {
 	return templateutil.Namify(name)
 }
 
-var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+var isFieldPointer = defaultIsFieldPointer
+
+func defaultIsFieldPointer(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
+// DefaultPointerOnFields is used to generate only the optional fields as pointers, except for arrays.
+// This is the default.
+func DefaultPointerOnFields() {
+	isFieldPointer = defaultIsFieldPointer
+}
+
 // ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
 func ForcePointerOnFields() {
 	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index b37b96a..96807c3 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -127,10 +127,18 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	return sprint[:len(sprint)-1] + ")"
 }
 
-var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+var isFieldPointer = defaultIsFieldPointer
+
+func defaultIsFieldPointer(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
+// DefaultPointerOnFields is used to generate only the optional fields as pointers, except for arrays.
+// This is the default.
+func DefaultPointerOnFields() {
+	isFieldPointer = defaultIsFieldPointer
+}
+
 // ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
 func ForcePointerOnFields() {
 	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index b9553c5..87a1da1 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -144,10 +144,18 @@ func CutSuffix(s, suffix string) string {
 	return s
 }
 
-var isDateOrDateTimeGenerated = func(format string) bool {
+var isDateOrDateTimeGenerated = defaultIsDateOrDateTimeGenerated
+
+func defaultIsDateOrDateTimeGenerated(format string) bool {
 	return format == "date" || format == "date-time"
 }
 
+// EnableDateOrTimeGeneration is used to enable the generation of date/date-time formats within types.
+// This is the default.
+func EnableDateOrTimeGeneration() {
+	isDateOrDateTimeGenerated = defaultIsDateOrDateTimeGenerated
+}
+
 // DisableDateOrTimeGeneration is used to disable the generation of date/date-time formats within types.
 func DisableDateOrTimeGeneration() {
 	isDateOrDateTimeGenerated = func(_ string) bool { return false }
-- 
2.43.0


From f2ffffabd505fe8799bdc6d1f08d04634887e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 14/44] fix: generate the types of the nested objects in a
 stable order

---
 pkg/utils/map.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/utils/map.go b/pkg/utils/map.go
index 3459302..16d1145 100644
--- a/pkg/utils/map.go
+++ b/pkg/utils/map.go
@@ -1,10 +1,26 @@
 package utils
 
-// MapToList will change a map to a list.
-func MapToList[T1 comparable, T2 any](m map[T1]T2) []T2 {
+import (
+	"cmp"
+	"slices"
+)
+
+// MapToList will change a map to a list, in the order of its keys.
+func MapToList[T1 cmp.Ordered, T2 any](m map[T1]T2) []T2 {
 	l := make([]T2, 0, len(m))
-	for _, v := range m {
-		l = append(l, v)
+	for _, k := range SortedKeys(m) {
+		l = append(l, m[k])
 	}
 	return l
 }
+
+// SortedKeys will return the keys of a map, in order. It should be used instead
+// of ranging over the map when the order has an effect on the result.
+func SortedKeys[T1 cmp.Ordered, T2 any](m map[T1]T2) []T1 {
+	keys := make([]T1, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	slices.Sort(keys)
+	return keys
+}
-- 
2.43.0


From b5d8409b340871ba76e48497836030e9dd5cc0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 15/44] fix: generate the custom imports in a stable order

---
 pkg/asyncapi/v2/extensions.go | 6 ++++--
 pkg/asyncapi/v3/extensions.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index 29861a5..b533698 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -3,6 +3,8 @@ package asyncapiv2
 import (
 	"fmt"
 	"strings"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 // Extensions holds additional properties defined for asyncapi-codegen
@@ -108,11 +110,11 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 
 func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string {
 	imports := make([]string, 0, len(importsSet))
-	for path, name := range importsSet {
+	for _, path := range utils.SortedKeys(importsSet) {
 		if path == "" {
 			continue
 		}
-		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
+		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, importsSet[path], path)))
 	}
 	return imports
 }
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index dbe16bf..6b37302 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -3,6 +3,8 @@ package asyncapiv3
 import (
 	"fmt"
 	"strings"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 // Extensions holds additional properties defined for asyncapi-codegen
@@ -102,11 +104,11 @@ func (s Specification) CustomImports() ([]string, error) {
 
 func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string {
 	imports := make([]string, 0, len(importsSet))
-	for path, name := range importsSet {
+	for _, path := range utils.SortedKeys(importsSet) {
 		if path == "" {
 			continue
 		}
-		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
+		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, importsSet[path], path)))
 	}
 	return imports
 }
-- 
2.43.0


From fc3eee17e2d5bad33f2a6b3cdc0e541aec6fd379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 16/44] fix: select always the same message of a channel

---
 pkg/asyncapi/v3/channel.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 7e27d0d..7c89312 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 const (
@@ -152,10 +153,12 @@ func (ch *Channel) Follow() *Channel {
 	return ch
 }
 
-// GetMessage will return the channel message.
+// GetMessage will return the channel message. If there are several messages,
+// then this is always the first one by name.
 func (ch Channel) GetMessage() (*Message, error) {
-	for _, m := range ch.Follow().Messages {
-		return m.Follow(), nil // TODO: change
+	messages := ch.Follow().Messages
+	for _, name := range utils.SortedKeys(messages) {
+		return messages[name].Follow(), nil // TODO: change
 	}
 	return nil, fmt.Errorf("%w: channel %q", ErrNoMessageInChannel, ch.Name)
 }
-- 
2.43.0


From ffa4ae26902ec0b2a7773c9249311d070558b27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 17/44] fix: keep always the same operation when they share
 their reply channel

---
 pkg/codegen/generators/v3/common.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 42878b2..ca4a10e 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -3,6 +3,7 @@ package generatorv3
 import (
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
 	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 // ActionOperations contains operations based on their action.
@@ -30,7 +31,9 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 	// Get channels based on send/receive
 	ao.Receive = make(map[string]*asyncapi.Operation)
 	ao.Send = make(map[string]*asyncapi.Operation)
-	for name, op := range spec.Operations {
+	for _, name := range utils.SortedKeys(spec.Operations) {
+		op := spec.Operations[name]
+
 		// Add channel to receive channels based on operation action and side
 		if isControllerReceiveOperation(side, op) {
 			ao.Receive[name] = op
-- 
2.43.0


From 7950687847fbbcb705ec64bb42dfbfeaa4ee9407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 18/44] fix: resolve the references and merge the schemas in a
 stable order

---
 pkg/asyncapi/v2/channel.go       |  7 +++++--
 pkg/asyncapi/v2/components.go    |  8 +++++---
 pkg/asyncapi/v2/schema.go        |  2 +-
 pkg/asyncapi/v2/specification.go |  5 +++--
 pkg/asyncapi/v3/channel.go       |  4 ++--
 pkg/asyncapi/v3/components.go    | 18 ++++++++++--------
 pkg/asyncapi/v3/schema.go        |  4 ++--
 pkg/asyncapi/v3/specification.go |  7 ++++---
 8 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/pkg/asyncapi/v2/channel.go b/pkg/asyncapi/v2/channel.go
index 1bdff91..c8eaeb0 100644
--- a/pkg/asyncapi/v2/channel.go
+++ b/pkg/asyncapi/v2/channel.go
@@ -1,6 +1,9 @@
 package asyncapiv2
 
-import "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
+import (
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
+)
 
 // Channel is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
@@ -71,7 +74,7 @@ func (c *Channel) setDependencies(spec Specification) error {
 	}
 
 	// Set parameters dependencies
-	for _, p := range c.Parameters {
+	for _, p := range utils.MapToList(c.Parameters) {
 		if err := p.setDependencies(spec); err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v2/components.go b/pkg/asyncapi/v2/components.go
index e207b73..84f8c58 100644
--- a/pkg/asyncapi/v2/components.go
+++ b/pkg/asyncapi/v2/components.go
@@ -1,5 +1,7 @@
 package asyncapiv2
 
+import "github.com/lerenn/asyncapi-codegen/pkg/utils"
+
 // Components is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v2.6.0#componentsObject
@@ -40,21 +42,21 @@ func (c *Components) generateMetadata() error {
 // setDependencies set dependencies for the components and its children from specification.
 func (c *Components) setDependencies(spec Specification) error {
 	// For all schemas, set schema dependencies
-	for _, schema := range c.Schemas {
+	for _, schema := range utils.MapToList(c.Schemas) {
 		if err := schema.setDependencies(spec); err != nil {
 			return err
 		}
 	}
 
 	// For all messages, set message dependencies
-	for _, msg := range c.Messages {
+	for _, msg := range utils.MapToList(c.Messages) {
 		if err := msg.setDependencies(spec); err != nil {
 			return err
 		}
 	}
 
 	// For all parameters, set param dependencies
-	for _, param := range c.Parameters {
+	for _, param := range utils.MapToList(c.Parameters) {
 		if err := param.setDependencies(spec); err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 104c530..f0852f0 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -173,7 +173,7 @@ func (s *Schema) generatePropertiesMetadata() error {
 }
 
 func (s *Schema) setPropertiesDependencies(spec Specification) error {
-	for _, p := range s.Properties {
+	for _, p := range utils.MapToList(s.Properties) {
 		if err := p.setDependencies(spec); err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 4cad206..56251e1 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 const (
@@ -92,13 +93,13 @@ func (s *Specification) generateMetadata() error {
 
 // setDependencies set dependencies between the different elements of the Specification.
 func (s *Specification) setDependencies() error {
-	for _, spec := range s.dependencies {
+	for _, spec := range utils.MapToList(s.dependencies) {
 		if err := spec.setDependencies(); err != nil {
 			return err
 		}
 	}
 
-	for _, ch := range s.Channels {
+	for _, ch := range utils.MapToList(s.Channels) {
 		if err := ch.setDependencies(*s); err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 7c89312..a82b68a 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -94,7 +94,7 @@ func (ch *Channel) setDependencies(spec Specification) error {
 	}
 
 	// Set messages dependencies
-	for _, msg := range ch.Messages {
+	for _, msg := range utils.MapToList(ch.Messages) {
 		if err := msg.setDependencies(spec); err != nil {
 			return err
 		}
@@ -108,7 +108,7 @@ func (ch *Channel) setDependencies(spec Specification) error {
 	}
 
 	// Set parameters dependencies
-	for _, param := range ch.Parameters {
+	for _, param := range utils.MapToList(ch.Parameters) {
 		if err := param.setDependencies(spec); err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v3/components.go b/pkg/asyncapi/v3/components.go
index 1c8ba41..48fedc4 100644
--- a/pkg/asyncapi/v3/components.go
+++ b/pkg/asyncapi/v3/components.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "github.com/lerenn/asyncapi-codegen/pkg/utils"
+
 // Components is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#componentsObject
@@ -71,7 +73,7 @@ func (c *Components) setDependencies(spec Specification) error {
 	}
 
 	// Set schemas dependencies
-	for _, schema := range c.Schemas {
+	for _, schema := range utils.MapToList(c.Schemas) {
 		if err := schema.setDependencies(spec); err != nil {
 			return err
 		}
@@ -83,7 +85,7 @@ func (c *Components) setDependencies(spec Specification) error {
 	}
 
 	// Set reply operations dependencies
-	for _, reply := range c.Replies {
+	for _, reply := range utils.MapToList(c.Replies) {
 		if err := reply.setDependencies(&Operation{}, spec); err != nil {
 			return err
 		}
@@ -202,21 +204,21 @@ func (c *Components) setDependenciesFromMaps(spec Specification) error {
 	}
 
 	// Set channels dependencies
-	for _, entity := range c.Channels {
+	for _, entity := range utils.MapToList(c.Channels) {
 		if err := entity.setDependencies(spec); err != nil {
 			return err
 		}
 	}
 
 	// Set operations dependencies
-	for _, entity := range c.Operations {
+	for _, entity := range utils.MapToList(c.Operations) {
 		if err := entity.setDependencies(spec); err != nil {
 			return err
 		}
 	}
 
 	// Set messages dependencies
-	for _, entity := range c.Messages {
+	for _, entity := range utils.MapToList(c.Messages) {
 		if err := entity.setDependencies(spec); err != nil {
 			return err
 		}
@@ -237,7 +239,7 @@ func (c *Components) setDependenciesFromMaps(spec Specification) error {
 	}
 
 	// Set parameters dependencies
-	for _, entity := range c.Parameters {
+	for _, entity := range utils.MapToList(c.Parameters) {
 		if err := entity.setDependencies(spec); err != nil {
 			return err
 		}
@@ -265,14 +267,14 @@ func (c *Components) setDependenciesFromMaps(spec Specification) error {
 	}
 
 	// Set operation traits dependencies
-	for _, entity := range c.OperationTraits {
+	for _, entity := range utils.MapToList(c.OperationTraits) {
 		if err := entity.setDependencies(spec); err != nil {
 			return err
 		}
 	}
 
 	// Set message traits dependencies
-	for _, entity := range c.MessageTraits {
+	for _, entity := range utils.MapToList(c.MessageTraits) {
 		if err := entity.setDependencies(spec); err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index e44558f..dde01f2 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -180,14 +180,14 @@ func (s *Schema) setDependencies(spec Specification) error {
 	}
 
 	// Set Properties dependencies
-	for _, p := range s.Properties {
+	for _, p := range utils.MapToList(s.Properties) {
 		if err := p.setDependencies(spec); err != nil {
 			return err
 		}
 	}
 
 	// Set Pattern Properties dependencies
-	for _, p := range s.PatternProperties {
+	for _, p := range utils.MapToList(s.PatternProperties) {
 		if err := p.setDependencies(spec); err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 0d5cc17..9f59c22 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 const (
@@ -136,7 +137,7 @@ func (s *Specification) setDependencies() error {
 	}
 
 	// Set dependencies for dependencies
-	for _, spec := range s.dependencies {
+	for _, spec := range utils.MapToList(s.dependencies) {
 		if err := spec.setDependencies(); err != nil {
 			return err
 		}
@@ -160,14 +161,14 @@ func (s *Specification) setDependencies() error {
 	}
 
 	// Set dependencies for channels
-	for _, ch := range s.Channels {
+	for _, ch := range utils.MapToList(s.Channels) {
 		if err := ch.setDependencies(*s); err != nil {
 			return err
 		}
 	}
 
 	// Set dependencies for operations
-	for _, op := range s.Operations {
+	for _, op := range utils.MapToList(s.Operations) {
 		if err := op.setDependencies(*s); err != nil {
 			return err
 		}
-- 
2.43.0


From 8edf984330dcc63976337008d897f7b74e93b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:47 +0000
Subject: [PATCH 19/44] fix: remove cancelled NATS subscriptions even while
 reconnecting

Draining a subscription while the connection is being re-established sends
nothing to the server, and the subscription is restored on it afterwards.
---
 pkg/extensions/brokers/nats/nats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/brokers/nats/nats.go b/pkg/extensions/brokers/nats/nats.go
index 1380540..c6c6d3c 100644
--- a/pkg/extensions/brokers/nats/nats.go
+++ b/pkg/extensions/brokers/nats/nats.go
@@ -114,9 +114,10 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		return extensions.BrokerChannelSubscription{}, err
 	}
 
-	// Wait for cancellation and drain the NATS subscription
+	// Wait for cancellation and remove the NATS subscription. It is not drained, as
+	// a subscription drained while reconnecting would be restored on the server.
 	sub.WaitForCancellationAsync(func() {
-		if err := natsSub.Drain(); err != nil {
+		if err := natsSub.Unsubscribe(); err != nil {
 			c.logger.Error(ctx, err.Error())
 		}
 	})
-- 
2.43.0


From 288c4701e84bd087b1cb86aac63221cfa4fd728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 20/44] fix: share the JetStream channels between subscriptions
 safely

Cancelling a second subscription to the same channel closed a nil channel,
the map of channels was read and written without synchronisation, and a
failed Subscribe left its channel registered.
---
 .../brokers/natsjetstream/natsjetstream.go    | 133 ++++++++++++++----
 1 file changed, 108 insertions(+), 25 deletions(-)

diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index 108423c..2aaf1ed 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -25,21 +26,31 @@ type Controller struct {
 	logger         extensions.Logger
 	streamName     string
 	consumerName   string
-	consumeContext jetstream.ConsumeContext
-	channels       map[string]chan jetstream.Msg
 	streamConfig   *jetstream.StreamConfig
 	consumerConfig *jetstream.ConsumerConfig
 
+	// mutex protects what subscriptions and consumption share
+	mutex          sync.Mutex
+	consumeContext jetstream.ConsumeContext
+	channels       map[string]*subscribedChannel
+
 	nakDelay time.Duration
 }
 
+// subscribedChannel is a channel with at least one subscription.
+type subscribedChannel struct {
+	messages      chan jetstream.Msg
+	unsubscribed  chan struct{} // closed when there is no more subscription
+	subscriptions int
+}
+
 // NewController creates a new NATS JetStream controller.
 func NewController(url string, options ...ControllerOption) (*Controller, error) {
 	// Creates default controller
 	controller := &Controller{
 		url:            url,
 		logger:         extensions.DummyLogger{},
-		channels:       make(map[string]chan jetstream.Msg),
+		channels:       make(map[string]*subscribedChannel),
 		consumeContext: nil,
 		nakDelay:       time.Second * 5,
 	}
@@ -230,33 +241,77 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		make(chan any, 1),
 	)
 
-	if c.channels[channel] == nil {
-		c.channels[channel] = make(chan jetstream.Msg)
-	}
-	if err := c.ConsumeIfNeeded(ctx); err != nil {
+	subscribed, err := c.subscribeChannel(ctx, channel)
+	if err != nil {
 		return extensions.BrokerChannelSubscription{}, err
 	}
 
+	cancelled := make(chan struct{})
 	go func() {
-		for message := range c.channels[channel] {
-			c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
-				Key:   "message",
-				Value: message,
-			})
-			c.HandleMessage(ctx, message, sub)
+		for {
+			select {
+			case message := <-subscribed.messages:
+				c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
+					Key:   "message",
+					Value: message,
+				})
+				c.HandleMessage(ctx, message, sub)
+			case <-cancelled:
+				return
+			}
 		}
 	}()
 
 	// Wait for cancellation and drain the NATS subscription
 	sub.WaitForCancellationAsync(func() {
-		close(c.channels[channel])
-		delete(c.channels, channel)
-		c.StopConsumeIfNeeded()
+		close(cancelled)
+
+		c.mutex.Lock()
+		defer c.mutex.Unlock()
+		c.unsubscribeChannel(channel)
 	})
 
 	return sub, nil
 }
 
+// subscribeChannel adds a subscription to the channel and starts consuming
+// messages if needed.
+func (c *Controller) subscribeChannel(ctx context.Context, channel string) (*subscribedChannel, error) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	subscribed := c.channels[channel]
+	if subscribed == nil {
+		subscribed = &subscribedChannel{
+			messages:     make(chan jetstream.Msg),
+			unsubscribed: make(chan struct{}),
+		}
+		c.channels[channel] = subscribed
+	}
+	subscribed.subscriptions++
+
+	if err := c.consumeIfNeeded(ctx); err != nil {
+		c.unsubscribeChannel(channel)
+		return nil, err
+	}
+
+	return subscribed, nil
+}
+
+// unsubscribeChannel removes a subscription from the channel and stops consuming
+// messages if it was the last one. The mutex should be held.
+func (c *Controller) unsubscribeChannel(channel string) {
+	subscribed := c.channels[channel]
+	subscribed.subscriptions--
+	if subscribed.subscriptions > 0 {
+		return
+	}
+
+	close(subscribed.unsubscribed)
+	delete(c.channels, channel)
+	c.stopConsumeIfNeeded()
+}
+
 // HandleMessage handles a message received from a stream.
 func (c *Controller) HandleMessage(ctx context.Context, msg jetstream.Msg, sub extensions.BrokerChannelSubscription) {
 	// Get headers
@@ -296,6 +351,13 @@ func (c *Controller) Close() {
 
 // ConsumeIfNeeded starts consuming messages if needed.
 func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	return c.consumeIfNeeded(ctx)
+}
+
+func (c *Controller) consumeIfNeeded(ctx context.Context) error {
 	if c.consumeContext == nil {
 		consumer, err := c.jetStream.Consumer(ctx, c.streamName, c.consumerName)
 		if err != nil {
@@ -313,6 +375,13 @@ func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
 
 // StopConsumeIfNeeded stops consuming messages if needed (there is no other subscription).
 func (c *Controller) StopConsumeIfNeeded() {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	c.stopConsumeIfNeeded()
+}
+
+func (c *Controller) stopConsumeIfNeeded() {
 	if len(c.channels) == 0 && c.consumeContext != nil {
 		c.consumeContext.Stop()
 		c.consumeContext = nil
@@ -324,14 +393,8 @@ func (c *Controller) StopConsumeIfNeeded() {
 func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandler {
 	return func(msg jetstream.Msg) {
 		msgSubj := msg.Subject() // pull this into a var for debuggability
-		var responsibleSubscription string
-		for subjectSubscriptionPattern := range c.channels {
-			if MatchSubjectSubscription(subjectSubscriptionPattern, msgSubj) {
-				responsibleSubscription = subjectSubscriptionPattern
-				break
-			}
-		}
-		if responsibleSubscription == "" {
+		responsibleChannel := c.responsibleChannel(msgSubj)
+		if responsibleChannel == nil {
 			c.logger.Warning(
 				ctx,
 				fmt.Sprintf(
@@ -346,10 +409,30 @@ func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandle
 
 			return
 		}
-		c.channels[responsibleSubscription] <- msg
+
+		select {
+		case responsibleChannel.messages <- msg:
+		case <-responsibleChannel.unsubscribed:
+			// It is not settled and will be redelivered
+		}
 	}
 }
 
+// responsibleChannel returns the subscribed channel that should receive the
+// messages of this subject, nil if there is none.
+func (c *Controller) responsibleChannel(subject string) *subscribedChannel {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	for subjectSubscriptionPattern, channel := range c.channels {
+		if MatchSubjectSubscription(subjectSubscriptionPattern, subject) {
+			return channel
+		}
+	}
+
+	return nil
+}
+
 // MatchSubjectSubscription checks whether a NATS subject matches a subscription string.
 func MatchSubjectSubscription(pattern string, subject string) bool {
 	if pattern == "" || subject == "" {
-- 
2.43.0


From 695dfe1651e565d1838ea3004b4c5a3a6a4ab7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 21/44] fix: wait for Kafka to have stored a message before
 returning from Publish

---
 pkg/extensions/brokers/kafka/kafka.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 99c83ac..65f8094 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -147,6 +147,8 @@ func (c *Controller) Publish(ctx context.Context, channel string, um extensions.
 		Addr:     kafka.TCP(c.hosts...),
 		Topic:    channel,
 		Balancer: &kafka.LeastBytes{},
+		// wait for the partition leader to have stored the message
+		RequiredAcks: kafka.RequireOne,
 		Transport: &kafka.Transport{
 			// reuse the optionally TLS and SASLMechanism from dialer provided by the user to pass it to the writer
 			// it can be nil
-- 
2.43.0


From 14156680ee2ac19a6271a8c66df081c34afec40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 22/44] fix: do not leave Kafka connections behind after each
 publication

---
 pkg/extensions/brokers/kafka/kafka.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 65f8094..706fd14 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -142,6 +142,14 @@ func WithConnectionTest(enabled bool) ControllerOption {
 
 // Publish a message to the broker.
 func (c *Controller) Publish(ctx context.Context, channel string, um extensions.BrokerMessage) error {
+	// reuse the optionally TLS and SASLMechanism from dialer provided by the user to pass it to the writer
+	// it can be nil
+	transport := &kafka.Transport{
+		TLS:  c.dialer.TLS.Clone(),
+		SASL: c.dialer.SASLMechanism,
+	}
+	defer transport.CloseIdleConnections()
+
 	// Create new writer
 	w := kafka.Writer{
 		Addr:     kafka.TCP(c.hosts...),
@@ -149,12 +157,7 @@ func (c *Controller) Publish(ctx context.Context, channel string, um extensions.
 		Balancer: &kafka.LeastBytes{},
 		// wait for the partition leader to have stored the message
 		RequiredAcks: kafka.RequireOne,
-		Transport: &kafka.Transport{
-			// reuse the optionally TLS and SASLMechanism from dialer provided by the user to pass it to the writer
-			// it can be nil
-			TLS:  c.dialer.TLS.Clone(),
-			SASL: c.dialer.SASLMechanism,
-		},
+		Transport:    transport,
 	}
 
 	defer w.Close()
@@ -187,6 +190,9 @@ func (c *Controller) Publish(ctx context.Context, channel string, um extensions.
 				return err
 			}
 
+			// Forget that the topic did not exist
+			transport.CloseIdleConnections()
+
 			continue
 		}
 
-- 
2.43.0


From b2258bb98f48e8b6eb126a86e5f4704958ad38aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 23/44] fix: wait for a Kafka topic being created without
 looping on the broker nor outliving the context

---
 pkg/extensions/brokers/kafka/kafka.go | 80 +++++++++++++++++++--------
 1 file changed, 56 insertions(+), 24 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 706fd14..3910e8e 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers"
@@ -13,6 +14,10 @@ import (
 	"github.com/segmentio/kafka-go/sasl"
 )
 
+// topicCreationRetryDelay is the delay between two attempts to use a topic that
+// is being created.
+const topicCreationRetryDelay = 50 * time.Millisecond
+
 // Check that it still fills the interface.
 var _ extensions.BrokerController = (*Controller)(nil)
 
@@ -184,7 +189,7 @@ func (c *Controller) Publish(ctx context.Context, channel string, um extensions.
 
 		// Create topic if not exists, then it means that the topic is being
 		// created, so let's retry
-		if errors.Is(err, kafka.UnknownTopicOrPartition) {
+		if isTopicBeingCreated(err) {
 			c.logger.Warning(ctx, fmt.Sprintf("Topic %s does not exists: request creation and retry", channel))
 			if err := c.checkTopicExistOrCreateIt(ctx, channel); err != nil {
 				return err
@@ -243,42 +248,69 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 
 func (c *Controller) checkTopicExistOrCreateIt(ctx context.Context, topic string) error {
 	// Get connection to first host
-	conn, err := c.dialer.Dial("tcp", c.hosts[0])
+	conn, err := c.dialer.DialContext(ctx, "tcp", c.hosts[0])
 	if err != nil {
 		return err
 	}
 	defer conn.Close()
 
+	// Do not wait for the broker once the context is done
+	stop := context.AfterFunc(ctx, func() { conn.Close() })
+	defer stop()
+
 	for i := 0; ; i++ {
-		// Create topic
-		topicConfigs := []kafka.TopicConfig{{
-			Topic:             topic,
-			NumPartitions:     1,
-			ReplicationFactor: 1,
-		}}
-		err = conn.CreateTopics(topicConfigs...)
-		if err != nil {
+		exists, err := createTopic(conn, topic)
+		switch {
+		case ctx.Err() != nil:
+			return ctx.Err()
+		case err != nil:
 			return err
+		case exists:
+			if i > 0 {
+				c.logger.Warning(ctx, fmt.Sprintf("Topic %s has been created.", topic))
+			}
+			return nil
 		}
 
-		// Read partitions
-		partitions, err := conn.ReadPartitions()
-		if err != nil {
-			return err
-		}
+		c.logger.Warning(ctx, fmt.Sprintf("Topic %s doesn't exists yet, retrying (#%d)", topic, i))
 
-		// Get topic from partitions
-		for _, p := range partitions {
-			if topic == p.Topic {
-				if i > 0 {
-					c.logger.Warning(ctx, fmt.Sprintf("Topic %s has been created.", topic))
-				}
-				return nil
-			}
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case <-time.After(topicCreationRetryDelay):
 		}
+	}
+}
 
-		c.logger.Warning(ctx, fmt.Sprintf("Topic %s doesn't exists yet, retrying (#%d)", topic, i))
+// createTopic requests the creation of the topic, if it does not exist, and
+// returns true if it can be used.
+func createTopic(conn *kafka.Conn, topic string) (bool, error) {
+	// Create topic
+	topicConfigs := []kafka.TopicConfig{{
+		Topic:             topic,
+		NumPartitions:     1,
+		ReplicationFactor: 1,
+	}}
+	if err := conn.CreateTopics(topicConfigs...); err != nil {
+		return false, err
+	}
+
+	// Read partitions
+	partitions, err := conn.ReadPartitions(topic)
+	if err != nil {
+		if isTopicBeingCreated(err) {
+			return false, nil
+		}
+		return false, err
 	}
+
+	return len(partitions) > 0, nil
+}
+
+// isTopicBeingCreated returns true if the error can be a topic that does not
+// exist or that is not usable yet.
+func isTopicBeingCreated(err error) bool {
+	return errors.Is(err, kafka.UnknownTopicOrPartition) || errors.Is(err, kafka.LeaderNotAvailable)
 }
 
 // autoCommitMessagesHandler provides a MessagesHandler with auto commit.
-- 
2.43.0


From e6b78b2eb36a557a96b31b18e5cac7270bcce8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 24/44] fix: neither hang nor leave a connection behind in the
 Kafka connection test

---
 pkg/extensions/brokers/kafka/kafka.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 3910e8e..e91109f 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -77,11 +77,19 @@ func NewController(hosts []string, options ...ControllerOption) (*Controller, er
 			return nil, fmt.Errorf("failed to create dialer for kafka: %w", err)
 		}
 
+		defer conn.Close()
+
+		// Do not wait forever for the answer
+		if controller.dialer.Timeout > 0 {
+			if err := conn.SetDeadline(time.Now().Add(controller.dialer.Timeout)); err != nil {
+				return nil, fmt.Errorf("failed to connect to kafka: %w", err)
+			}
+		}
+
 		_, err = conn.Brokers()
 		if err != nil {
 			return nil, fmt.Errorf("failed to connect to kafka: %w", err)
 		}
-		conn.Close()
 	}
 
 	return controller, nil
-- 
2.43.0


From 38b7446ca8517059c72c74b5d8c15c8e0502c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 25/44] fix: keep reading from Kafka after a transient error,
 and stop at the cancellation

---
 pkg/extensions/brokers/kafka/kafka.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index e91109f..a0146e8 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -5,7 +5,6 @@ import (
 	"crypto/tls"
 	"errors"
 	"fmt"
-	"io"
 	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -237,6 +236,9 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		make(chan any, 1),
 	)
 
+	// Stop reading and committing messages when the subscription is cancelled
+	ctx, stop := context.WithCancel(ctx)
+
 	// Handle events
 	if c.autoCommit {
 		go autoCommitMessagesHandler(&c.logger)(ctx, r, sub)
@@ -246,6 +248,7 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 
 	// Wait for cancellation and stop the kafka listener when it happens
 	sub.WaitForCancellationAsync(func() {
+		stop()
 		if err := r.Close(); err != nil {
 			c.logger.Error(ctx, err.Error())
 		}
@@ -334,12 +337,14 @@ func autoCommitMessagesHandler(
 		for {
 			msg, err := r.ReadMessage(ctx)
 			if err != nil {
-				// If the error is not io.EOF, then it is a real error
-				if !errors.Is(err, io.EOF) {
-					(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
+				// If the subscription is cancelled, then stop
+				if ctx.Err() != nil {
+					return
 				}
 
-				return
+				// The reader tries again by itself
+				(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
+				continue
 			}
 
 			// Get headers
@@ -368,12 +373,14 @@ func manualCommitMessagesHandler(
 		for {
 			msg, err := r.FetchMessage(ctx)
 			if err != nil {
-				// If the error is not io.EOF, then it is a real error
-				if !errors.Is(err, io.EOF) {
-					(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
+				// If the subscription is cancelled, then stop
+				if ctx.Err() != nil {
+					return
 				}
 
-				return
+				// The reader tries again by itself
+				(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
+				continue
 			}
 
 			// Get headers
-- 
2.43.0


From 6741789157a22b00f903ff29d5279530aa4e8f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 26/44] fix: do not drop a Kafka message whose automatic commit
 failed

---
 pkg/extensions/brokers/kafka/kafka.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index a0146e8..e7bbd2d 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -335,7 +335,7 @@ func autoCommitMessagesHandler(
 ) func(ctx context.Context, r *kafka.Reader, sub extensions.BrokerChannelSubscription) {
 	return func(ctx context.Context, r *kafka.Reader, sub extensions.BrokerChannelSubscription) {
 		for {
-			msg, err := r.ReadMessage(ctx)
+			msg, err := r.FetchMessage(ctx)
 			if err != nil {
 				// If the subscription is cancelled, then stop
 				if ctx.Err() != nil {
@@ -347,6 +347,14 @@ func autoCommitMessagesHandler(
 				continue
 			}
 
+			// Commit the message, which is transmitted in any case as it will
+			// not be read again
+			if r.Config().GroupID != "" {
+				if err := r.CommitMessages(ctx, msg); err != nil {
+					(*logger).Error(ctx, fmt.Sprintf("error on committing message: %q", err.Error()))
+				}
+			}
+
 			// Get headers
 			headers := make(map[string][]byte, len(msg.Headers))
 			for _, header := range msg.Headers {
-- 
2.43.0


From 3049646447c0df075143a8627c05b6c51dec1834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 27/44] fix: do not change the default dialer of the Kafka
 library through the options of a controller

---
 pkg/extensions/brokers/kafka/kafka.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index e7bbd2d..cdaa96e 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -50,12 +50,15 @@ type ControllerOption func(controller *Controller)
 
 // NewController creates a new KafkaController that fulfill the BrokerLinker interface.
 func NewController(hosts []string, options ...ControllerOption) (*Controller, error) {
+	// Copy the default dialer, as options modify it
+	dialer := *kafka.DefaultDialer
+
 	// Create default controller
 	controller := &Controller{
 		hosts:          hosts,
 		logger:         extensions.DummyLogger{},
 		groupID:        brokers.DefaultQueueGroupID,
-		dialer:         kafka.DefaultDialer,
+		dialer:         &dialer,
 		partition:      0,
 		maxBytes:       10e6, // 10MB
 		autoCommit:     true,
-- 
2.43.0


From 456ce57ddf2492ee0d7ef61826c09af289a3fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 28/44] fix: close the connection of a JetStream controller
 that could not be created

---
 pkg/extensions/brokers/natsjetstream/natsjetstream.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index 2aaf1ed..231d175 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -55,6 +55,14 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 		nakDelay:       time.Second * 5,
 	}
 
+	// Do not leave a connection behind if the controller cannot be created
+	created := false
+	defer func() {
+		if !created {
+			controller.Close()
+		}
+	}()
+
 	// Execute options
 	for _, option := range options {
 		if err := option(controller); err != nil {
@@ -94,6 +102,7 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 		}
 	}
 
+	created = true
 	return controller, nil
 }
 
-- 
2.43.0


From 4188f71ab29f1abdf04d987b46fe0ce0abacdb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 29/44] fix: close the NATS connection that another one
 replaces, or whose controller could not be created

---
 pkg/extensions/brokers/nats/nats.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/extensions/brokers/nats/nats.go b/pkg/extensions/brokers/nats/nats.go
index c6c6d3c..caa6d83 100644
--- a/pkg/extensions/brokers/nats/nats.go
+++ b/pkg/extensions/brokers/nats/nats.go
@@ -36,6 +36,9 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 	// Execute options
 	for _, option := range options {
 		if err := option(controller); err != nil {
+			if controller.connection != nil {
+				controller.connection.Close()
+			}
 			return nil, fmt.Errorf("could not apply option to controller: %w", err)
 		}
 	}
@@ -76,6 +79,9 @@ func WithConnectionOpts(opts ...nats.Option) ControllerOption {
 		if err != nil {
 			return fmt.Errorf("could not connect to nats: %w", err)
 		}
+		if controller.connection != nil {
+			controller.connection.Close()
+		}
 		controller.connection = nc
 		return nil
 	}
-- 
2.43.0


From 364ab2b6e5875bfb348a0266b3042c86cef329f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 30/44] fix: encode additional properties as JSON, whatever
 their keys, their types and the other properties

---
 .../marshaling/additional_properties.tmpl     | 18 +++++++++-
 .../marshaling/additional_properties.tmpl     | 34 +++++++++++--------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index 314980c..7d9add4 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -13,9 +13,25 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     // Remove the end of the json (i.e. '}')
     b = b[:len(b)-1]
 
+    // When there are no properties, we cant start with a separator
+    needSeparator := len(b) > 1
+
     // Add additional properties
     for k, v := range t.AdditionalProperties {
-        b = append(b,[]byte(fmt.Sprintf(",%q:%q", k, v))...)
+        if needSeparator {
+            b = append(b, ',')
+        }
+        needSeparator = true
+
+        kBytes, err := json.Marshal(k)
+        if err != nil {
+            return nil, err
+        }
+        vBytes, err := json.Marshal(v)
+        if err != nil {
+            return nil, err
+        }
+        b = append(append(append(b, kBytes...), ':'), vBytes...)
     }
 
     // Close JSON and return
diff --git a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
index d520a29..7d9add4 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
@@ -13,22 +13,26 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     // Remove the end of the json (i.e. '}')
     b = b[:len(b)-1]
 
-	// When there are no properties, we cant start with a separator
-	needSeparator := len(b) > 1
+    // When there are no properties, we cant start with a separator
+    needSeparator := len(b) > 1
 
-	// Add additional properties
-	for k, v := range t.AdditionalProperties {
-    	if needSeparator {
-    	    b = append(b, ',')
-    	}
-    	needSeparator = true
-	
-    	vBytes, err := json.Marshal(v)
-    	if err != nil {
-    	    return nil, err
-    	}
-    	b = append(b, fmt.Sprintf("%q:%s", k, vBytes)...)
-	}
+    // Add additional properties
+    for k, v := range t.AdditionalProperties {
+        if needSeparator {
+            b = append(b, ',')
+        }
+        needSeparator = true
+
+        kBytes, err := json.Marshal(k)
+        if err != nil {
+            return nil, err
+        }
+        vBytes, err := json.Marshal(v)
+        if err != nil {
+            return nil, err
+        }
+        b = append(append(append(b, kBytes...), ':'), vBytes...)
+    }
 
     // Close JSON and return
     return append(b, []byte("}")...) , nil
-- 
2.43.0


From 886412d2b2f3c14b40606b586109f7262c53f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 31/44] fix: decode additional properties along with properties
 of other types

---
 .../v2/templates/marshaling/additional_properties.tmpl    | 8 ++++++--
 .../v3/templates/marshaling/additional_properties.tmpl    | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index 7d9add4..3cfae09 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -43,7 +43,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     type alias {{ .Name }}
 
     // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
@@ -65,7 +65,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
                     continue
             {{ end -}}
         default:
-            t.AdditionalProperties[k] = v
+            var value {{template "schema-name" .AdditionalProperties}}
+            if err := json.Unmarshal(v, &value);  err != nil {
+                return err
+            }
+            t.AdditionalProperties[k] = value
         }
     }
 
diff --git a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
index 7d9add4..3cfae09 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
@@ -43,7 +43,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     type alias {{ .Name }}
 
     // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
@@ -65,7 +65,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
                     continue
             {{ end -}}
         default:
-            t.AdditionalProperties[k] = v
+            var value {{template "schema-name" .AdditionalProperties}}
+            if err := json.Unmarshal(v, &value);  err != nil {
+                return err
+            }
+            t.AdditionalProperties[k] = value
         }
     }
 
-- 
2.43.0


From 1e11fe085b0ab03fc9a5d1bbb34b97f8c8d5a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 32/44] fix: decode optional headers that are objects

---
 pkg/codegen/generators/v2/templates/message.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/message.tmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 8642394..2e22143 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -124,7 +124,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             case k == "{{$key}}": // Retrieving {{namify $key}} header
                 {{- if isFieldPointer $headers $key $value }}
                     {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
+                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
                         if err != nil {
                             return msg, err
                         }
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 2d82c25..c3c7c71 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -133,7 +133,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             case k == "{{$key}}": // Retrieving {{namify $key}} header
                 {{- if isFieldPointer $headers $key $value }}
                     {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
+                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
                         if err != nil {
                             return msg, err
                         }
-- 
2.43.0


From 8cec0228c484461297268e00b9dc7fd0cbd66761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 33/44] fix: keep the fractions of seconds of date-times sent
 as headers or payloads

---
 pkg/codegen/generators/v2/templates/message.tmpl | 6 +++---
 pkg/codegen/generators/v3/templates/message.tmpl | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 2e22143..ae6c874 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -203,7 +203,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- end}}
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
+        payload := []byte(msg.Payload.Format(time.RFC3339Nano))
     {{- else}}
         // Convert to []byte
         payload := []byte(msg.Payload)
@@ -239,7 +239,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                     }
                     headers["{{$key}}"] = h
                 {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
+                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339Nano))
                 {{- else }}
                     headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
                 {{- end }}
@@ -252,7 +252,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                         }
                         headers["{{$key}}"] = h
                     {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
+                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339Nano))
                     {{- else }}
                         headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
                     {{- end }}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index c3c7c71..842fdf4 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -220,7 +220,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- end}}
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
+        payload := []byte(msg.Payload.Format(time.RFC3339Nano))
     {{- else}}
         // Convert to []byte
         payload := []byte(msg.Payload)
@@ -257,7 +257,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                     }
                     headers["{{$key}}"] = h
                 {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
+                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339Nano))
                 {{- else }}
                     headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
                 {{- end }}
@@ -270,7 +270,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                         }
                         headers["{{$key}}"] = h
                     {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
+                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339Nano))
                     {{- else }}
                         headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
                     {{- end }}
-- 
2.43.0


From cf0d7db3446092f20e4ba49ba346f39d0d6262a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 34/44] fix: encode payloads that refer to a date-time schema
 (generated code did not compile)

---
 pkg/codegen/generators/v2/templates/message.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/message.tmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index ae6c874..970e959 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -203,7 +203,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- end}}
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339Nano))
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339Nano))
     {{- else}}
         // Convert to []byte
         payload := []byte(msg.Payload)
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 842fdf4..c5ff94b 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -220,7 +220,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- end}}
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339Nano))
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339Nano))
     {{- else}}
         // Convert to []byte
         payload := []byte(msg.Payload)
-- 
2.43.0


From 820cdaffa2caf1afdd4fe7859fd8abad72093067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 35/44] fix: do not write the information of a log in the slice
 of its caller

---
 pkg/extensions/loggers/ecs.go  | 5 +++--
 pkg/extensions/loggers/text.go | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/loggers/ecs.go b/pkg/extensions/loggers/ecs.go
index 8450f46..160cc95 100644
--- a/pkg/extensions/loggers/ecs.go
+++ b/pkg/extensions/loggers/ecs.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"slices"
 	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -74,8 +75,8 @@ func (ecs ECS) formatLog(ctx context.Context, msg string, info ...extensions.Log
 }
 
 func (ecs ECS) logWithLevel(ctx context.Context, level string, msg string, info ...extensions.LogInfo) {
-	// Add additional keys
-	info = append(info, extensions.LogInfo{Key: "log.level", Value: level})
+	// Add additional keys, but not to the slice of the caller
+	info = append(slices.Clip(info), extensions.LogInfo{Key: "log.level", Value: level})
 
 	// Print log
 	fmt.Println(ecs.formatLog(ctx, msg, info...))
diff --git a/pkg/extensions/loggers/text.go b/pkg/extensions/loggers/text.go
index cde8e9f..b11ecf2 100644
--- a/pkg/extensions/loggers/text.go
+++ b/pkg/extensions/loggers/text.go
@@ -3,6 +3,7 @@ package loggers
 import (
 	"context"
 	"fmt"
+	"slices"
 	"strings"
 	"time"
 
@@ -68,6 +69,9 @@ func (tl Text) humanizeStructuredLogs(sl map[string]any, msgFmt *color.Color, pr
 }
 
 func (tl Text) setInfoFromContext(ctx context.Context, msg string, info ...extensions.LogInfo) []extensions.LogInfo {
+	// Do not add keys to the slice of the caller
+	info = slices.Clip(info)
+
 	// Add additional keys from context
 	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsChannel, func(value any) {
 		info = append(info, extensions.LogInfo{Key: "Channel", Value: value})
-- 
2.43.0


From 53d8fafd108888ccd53373b4b882ced7c1b83b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:30 +0000
Subject: [PATCH 36/44] fix: keep percent signs of channel addresses that have
 parameters

---
 pkg/codegen/generators/v2/templates/helpers.go | 2 +-
 pkg/codegen/generators/v3/templates/helpers.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 1fc87de..f10061b 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -114,7 +114,7 @@ func GenerateChannelPath(ch asyncapi.Channel) string {
 	parameterRegexp := regexp.MustCompile("{[^{}]*}")
 
 	matches := parameterRegexp.FindAllString(ch.Path, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Path, "%v")
+	format := parameterRegexp.ReplaceAllString(strings.ReplaceAll(ch.Path, "%", "%%"), "%v")
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 96807c3..61b11b0 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -117,7 +117,7 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	parameterRegexp := regexp.MustCompile("{[^{}]*}")
 
 	matches := parameterRegexp.FindAllString(ch.Address, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Address, "%s")
+	format := parameterRegexp.ReplaceAllString(strings.ReplaceAll(ch.Address, "%", "%%"), "%s")
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
-- 
2.43.0


From fecfb2db94b231fe6d2698ce511d82d52039fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:30 +0000
Subject: [PATCH 37/44] fix: no nil dereference when a correlation ID or reply
 address is inside optional objects

---
 .../generators/v2/templates/helpers.go        | 41 +++++++++++++++++++
 .../generators/v2/templates/message.tmpl      | 32 +++++++++++++++
 .../generators/v3/templates/controller.tmpl   | 10 +++++
 .../generators/v3/templates/helpers.go        | 41 +++++++++++++++++++
 .../generators/v3/templates/message.tmpl      | 32 +++++++++++++++
 5 files changed, 156 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index f10061b..8eee724 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -66,6 +66,46 @@ func ReferenceToStructAttributePath(ref string) string {
 	return strings.Join(path, ".")
 }
 
+// OptionalParent is an optional object on the way to a location in a message.
+type OptionalParent struct {
+	// Path is the attribute path of the object in the message structure.
+	Path string
+	// Schema is the schema of the object.
+	Schema *asyncapi.Schema
+}
+
+// GetOptionalParents will return the objects, from the outermost to the innermost,
+// that are on the way to a location in a message and that are generated as pointers.
+func GetOptionalParents(msg asyncapi.Message, location string) []OptionalParent {
+	path := referenceToSlicePath(location)
+
+	parent := msg.Payload
+	if path[0] == asyncapi.MessageFieldIsHeader.String() {
+		parent = msg.Headers
+	}
+
+	parents := make([]OptionalParent, 0, len(path))
+	structPath := strings.Split(ReferenceToStructAttributePath(location), ".")
+	for i := 1; i < len(path)-1 && parent != nil; i++ {
+		parent = parent.Follow()
+		child, exists := parent.Properties[path[i]]
+		if !exists {
+			break
+		}
+
+		if isFieldPointer(*parent, path[i], *child) {
+			parents = append(parents, OptionalParent{
+				Path:   strings.Join(structPath[:i+1], "."),
+				Schema: child,
+			})
+		}
+
+		parent = child
+	}
+
+	return parents
+}
+
 // ReferenceToTypeName will convert a reference to a type name in the form of
 // golang conventional type names.
 func ReferenceToTypeName(ref string) string {
@@ -170,6 +210,7 @@ func HelpersFunctions() template.FuncMap {
 		"isFieldPointer":                 isFieldPointer,
 		"generateChannelPath":            GenerateChannelPath,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
+		"getOptionalParents":             GetOptionalParents,
 		"operationName":                  OperationName,
 		"referenceToTypeName":            ReferenceToTypeName,
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 970e959..032c960 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -35,6 +35,15 @@ func New{{namify .Name}}() {{namify .Name}} {
     {{if ne $.CorrelationIDLocation "" -}}
     // Set correlation ID
     u := uuid.New().String()
+    {{range getOptionalParents $ $.CorrelationIDLocation -}}
+    {
+        parent := {{template "schema-name" .Schema}}{}
+        if msg.{{.Path}} != nil {
+            parent = *msg.{{.Path}}
+        }
+        msg.{{.Path}} = &parent
+    }
+    {{end -}}
     msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
@@ -273,6 +282,11 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if ne $.CorrelationIDLocation "" -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
+    {{range getOptionalParents $ $.CorrelationIDLocation -}}
+    if msg.{{.Path}} == nil {
+        return ""
+    }
+    {{end -}}
     {{if $.CorrelationIDRequired -}}
         return msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
     {{- else -}}
@@ -286,6 +300,15 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
+    {{range getOptionalParents $ $.CorrelationIDLocation -}}
+    {
+        parent := {{template "schema-name" .Schema}}{}
+        if msg.{{.Path}} != nil {
+            parent = *msg.{{.Path}}
+        }
+        msg.{{.Path}} = &parent
+    }
+    {{end -}}
     msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
 }
 
@@ -294,6 +317,15 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
+    {{range getOptionalParents $ $.CorrelationIDLocation -}}
+    {
+        parent := {{template "schema-name" .Schema}}{}
+        if msg.{{.Path}} != nil {
+            parent = *msg.{{.Path}}
+        }
+        msg.{{.Path}} = &parent
+    }
+    {{end -}}
     msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
 }
 {{- end -}}
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index b885f24..e5e8a5f 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -272,6 +272,11 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
     // Publish reply
     {{- /* Use reply address if needed */}}
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
+        {{- range getOptionalParents $value.GetMessage.Follow .Reply.Address.Location }}
+            if recvMsg.{{.Path}} == nil {
+                return fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+            }
+        {{- end }}
         {{- if .Reply.Address.LocationRequired }}
             chanAddr := recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- else }}
@@ -400,6 +405,11 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
 ) ({{channelToMessageTypeName .Reply.Channel}}, error) {
     // Get receiving channel address
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
+        {{- range getOptionalParents $value.GetMessage.Follow .Reply.Address.Location }}
+            if msg.{{.Path}} == nil {
+                return {{channelToMessageTypeName $value.Reply.Channel}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+            }
+        {{- end }}
         {{- if .Reply.Address.LocationRequired }}
             addr := msg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- else }}
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 61b11b0..f7834eb 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -66,6 +66,46 @@ func ReferenceToStructAttributePath(ref string) string {
 	return strings.Join(path, ".")
 }
 
+// OptionalParent is an optional object on the way to a location in a message.
+type OptionalParent struct {
+	// Path is the attribute path of the object in the message structure.
+	Path string
+	// Schema is the schema of the object.
+	Schema *asyncapi.Schema
+}
+
+// GetOptionalParents will return the objects, from the outermost to the innermost,
+// that are on the way to a location in a message and that are generated as pointers.
+func GetOptionalParents(msg asyncapi.Message, location string) []OptionalParent {
+	path := referenceToSlicePath(location)
+
+	parent := msg.Payload
+	if path[0] == asyncapi.MessageFieldIsHeader.String() {
+		parent = msg.Headers
+	}
+
+	parents := make([]OptionalParent, 0, len(path))
+	structPath := strings.Split(ReferenceToStructAttributePath(location), ".")
+	for i := 1; i < len(path)-1 && parent != nil; i++ {
+		parent = parent.Follow()
+		child, exists := parent.Properties[path[i]]
+		if !exists {
+			break
+		}
+
+		if isFieldPointer(*parent, path[i], *child) {
+			parents = append(parents, OptionalParent{
+				Path:   strings.Join(structPath[:i+1], "."),
+				Schema: child,
+			})
+		}
+
+		parent = child
+	}
+
+	return parents
+}
+
 // ChannelToMessageTypeName will convert a channel to a message type name in the
 // form of golang conventional type names.
 func ChannelToMessageTypeName(ch asyncapi.Channel) string {
@@ -159,6 +199,7 @@ func HelpersFunctions() template.FuncMap {
 		"generateChannelAddr":            GenerateChannelAddr,
 		"generateChannelAddrFromOp":      GenerateChannelAddrFromOp,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
+		"getOptionalParents":             GetOptionalParents,
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
 		"generateJSONTags":               generators.GenerateJSONTags[asyncapi.Schema],
 	}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index c5ff94b..2f6cf89 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -44,6 +44,15 @@ func New{{namify .Name}}() {{namify .Name}} {
     {{if $.HaveCorrelationID -}}
     // Set correlation ID
     u := uuid.New().String()
+    {{range getOptionalParents $.Follow $.Follow.CorrelationID.Location -}}
+    {
+        parent := {{template "schema-name" .Schema}}{}
+        if msg.{{.Path}} != nil {
+            parent = *msg.{{.Path}}
+        }
+        msg.{{.Path}} = &parent
+    }
+    {{end -}}
     msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
@@ -291,6 +300,11 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if $.HaveCorrelationID -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
+    {{range getOptionalParents $.Follow $.Follow.CorrelationID.Location -}}
+    if msg.{{.Path}} == nil {
+        return ""
+    }
+    {{end -}}
     {{if $.CorrelationIDRequired -}}
         return msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
     {{- else -}}
@@ -304,6 +318,15 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
+    {{range getOptionalParents $.Follow $.Follow.CorrelationID.Location -}}
+    {
+        parent := {{template "schema-name" .Schema}}{}
+        if msg.{{.Path}} != nil {
+            parent = *msg.{{.Path}}
+        }
+        msg.{{.Path}} = &parent
+    }
+    {{end -}}
     msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
 }
 
@@ -312,6 +335,15 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
+    {{range getOptionalParents $.Follow $.Follow.CorrelationID.Location -}}
+    {
+        parent := {{template "schema-name" .Schema}}{}
+        if msg.{{.Path}} != nil {
+            parent = *msg.{{.Path}}
+        }
+        msg.{{.Path}} = &parent
+    }
+    {{end -}}
     msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
 }
 {{- end -}}
-- 
2.43.0


From aab0a8c96fb958cc26ba29f360ed6e8f586c13f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 38/44] fix: give the messages of a v2 channel with publish and
 subscribe to the right side

---
 .../generators/v2/templates/controller.tmpl   | 36 +++++++++++--------
 .../generators/v2/templates/subscriber.tmpl   |  7 +++-
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 2531ee5..4171eed 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -1,3 +1,11 @@
+{{- /* From the specification, "publish" is what users send to the application
+and "subscribe" is what the application sends to them. */ -}}
+{{- $received := "subscribe" -}}
+{{- $sent := "publish" -}}
+{{- if eq .Prefix "App" -}}
+{{- $received = "publish" -}}
+{{- $sent = "subscribe" -}}
+{{- end -}}
 // {{ .Prefix }}Controller is the structure that provides publishing capabilities to the
 // developer and and connect the broker with the {{ .Prefix }}
 type {{ .Prefix }}Controller struct {
@@ -147,7 +155,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
     {{- if .Parameters}}
     params {{namifyWithoutParam $key}}Parameters,
     {{- end }}
-    fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
+    fn func (ctx context.Context, msg {{(channelToMessage $value $received).Name}}) error,
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
@@ -197,7 +205,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
 func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
-    fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
+    fn func (ctx context.Context, msg {{(channelToMessage $value $received).Name}}) error,
 ) (stop bool, err error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
@@ -220,12 +228,12 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     // Execute middlewares before handling the message
     if err := c.executeMiddlewares(msgCtx, &acknowledgeableBrokerMessage.BrokerMessage, func(middlewareCtx context.Context) error {
         // Process message
-        msg, err := brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{(channelToMessage $value $received).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return err
         }
 
-        {{if ne (channelToMessage $value "subscribe").CorrelationIDLocation "" -}}
+        {{if ne (channelToMessage $value $received).CorrelationIDLocation "" -}}
             // Add correlation ID to context if it exists
             if id := msg.CorrelationID(); id != "" {
                 middlewareCtx = context.WithValue(middlewareCtx, extensions.ContextKeyIsCorrelationID, id)
@@ -286,12 +294,12 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     {{- if .Parameters }}
     params {{namifyWithoutParam $key}}Parameters,
     {{- end}}
-    msg {{(channelToMessage $value "publish").Name}},
+    msg {{(channelToMessage $value $sent).Name}},
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
-    {{if ne (channelToMessage $value "publish").CorrelationIDLocation "" -}}
+    {{if ne (channelToMessage $value $sent).CorrelationIDLocation "" -}}
     // Set correlation ID if it does not exist
     if id := msg.CorrelationID(); id == "" {
         msg.SetCorrelationID(uuid.New().String())
@@ -301,7 +309,7 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     // Set context
     ctx = add{{ $.Prefix }}ContextValues(ctx, path)
     ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "publication")
-    {{if ne (channelToMessage $value "publish").CorrelationIDLocation "" -}}
+    {{if ne (channelToMessage $value $sent).CorrelationIDLocation "" -}}
     ctx = context.WithValue(ctx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())
     {{- end}}
 
@@ -337,7 +345,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     {{- end}}
     publishMsg MessageWithCorrelationID,
     pub func(ctx context.Context) error,
-) ({{(channelToMessage $value "subscribe").Name}}, error) {
+) ({{(channelToMessage $value $received).Name}}, error) {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
@@ -349,7 +357,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     sub, err := c.broker.Subscribe(ctx, path)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{(channelToMessage $value "subscribe").Name}}{}, err
+        return {{(channelToMessage $value $received).Name}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -364,7 +372,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
 
     // Execute callback for publication
     if err = pub(ctx); err != nil {
-        return {{(channelToMessage $value "subscribe").Name}}{}, err
+        return {{(channelToMessage $value $received).Name}}{}, err
     }
 
     // Wait for corresponding response
@@ -373,7 +381,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
         msg, err := c.waitFor{{operationName $value}}NextMessage(ctx, path, sub, publishMsg)
         if err != nil {
             c.logger.Error(ctx, err.Error())
-            return {{(channelToMessage $value "subscribe").Name}}{}, err
+            return {{(channelToMessage $value $received).Name}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -390,7 +398,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
     publishMsg MessageWithCorrelationID,
-) (*{{(channelToMessage $value "subscribe").Name}}, error) {
+) (*{{(channelToMessage $value $received).Name}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, path)
@@ -409,7 +417,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Get new message
-        msg, err := brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{(channelToMessage $value $received).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             c.logger.Error(msgCtx, err.Error())
         }
@@ -431,7 +439,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Return the message to the caller from the broker that could have been modified by middlewares
-        msg, err = brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err = brokerMessageTo{{(channelToMessage $value $received).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
diff --git a/pkg/codegen/generators/v2/templates/subscriber.tmpl b/pkg/codegen/generators/v2/templates/subscriber.tmpl
index d429d44..741badc 100644
--- a/pkg/codegen/generators/v2/templates/subscriber.tmpl
+++ b/pkg/codegen/generators/v2/templates/subscriber.tmpl
@@ -1,9 +1,14 @@
+{{- /* From the specification, "publish" is what users send to the application. */ -}}
+{{- $received := "subscribe" -}}
+{{- if eq .Prefix "App" -}}
+{{- $received = "publish" -}}
+{{- end -}}
 {{if .MethodCount -}}
 // {{ .Prefix }}Subscriber represents all handlers that are expecting messages for {{ .Prefix }}
 type {{ .Prefix }}Subscriber interface {
 {{- range  $key, $value := .Channels}}
     // {{operationName $value}} subscribes to messages placed on the '{{ $key }}' channel
-    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error
+    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value $received).Name}}) error
 {{end}}
 }
 {{- end}}
-- 
2.43.0


From f3717569e9b01043e76399de7fabee3203ac1993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:03 +0000
Subject: [PATCH 39/44] fix: encode schemas of dates that are referred to
 (generated code did not compile)

---
 .../generators/v2/templates/marshaling/time.tmpl    | 13 +++++++++----
 .../generators/v3/templates/marshaling/time.tmpl    | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
index b83e7f9..ee39a52 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
@@ -1,12 +1,17 @@
 {{define "marshaling-time" -}}
-// MarshalJSON will override the marshal as this is not a normal 'time.Time' type
+{{- /* The type that knows how to (un)marshal: dates have no time. */ -}}
+{{- $type := "time.Time" -}}
+{{- if eq .Format "date" -}}
+{{- $type = "civil.Date" -}}
+{{- end -}}
+// MarshalJSON will override the marshal as this is not a normal '{{ $type }}' type
 func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+    return json.Marshal({{ $type }}(t))
 }
 
-// UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
+// UnmarshalJSON will override the unmarshal as this is not a normal '{{ $type }}' type
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+    var timeFormat {{ $type }}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
diff --git a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
index b83e7f9..ee39a52 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
@@ -1,12 +1,17 @@
 {{define "marshaling-time" -}}
-// MarshalJSON will override the marshal as this is not a normal 'time.Time' type
+{{- /* The type that knows how to (un)marshal: dates have no time. */ -}}
+{{- $type := "time.Time" -}}
+{{- if eq .Format "date" -}}
+{{- $type = "civil.Date" -}}
+{{- end -}}
+// MarshalJSON will override the marshal as this is not a normal '{{ $type }}' type
 func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+    return json.Marshal({{ $type }}(t))
 }
 
-// UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
+// UnmarshalJSON will override the unmarshal as this is not a normal '{{ $type }}' type
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+    var timeFormat {{ $type }}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
-- 
2.43.0


From 7911041339fce381996e447ba597b47d52225cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 40/44] fix: keep the properties of allOf, anyOf and oneOf that
 are nested through references

---
 pkg/asyncapi/v2/schema.go | 36 +++++++++++++++++++++++++++++++++---
 pkg/asyncapi/v3/schema.go | 35 ++++++++++++++++++++++++++++++-----
 2 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index f0852f0..c20399b 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -1,6 +1,8 @@
 package asyncapiv2
 
 import (
+	"strings"
+
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
@@ -43,6 +45,8 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	settingDependencies bool
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -116,6 +120,13 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 
 // setDependencies sets dependencies for the schema from the specification.
 func (s *Schema) setDependencies(spec Specification) error {
+	// Prevent modification if it is already being processed
+	if s.settingDependencies {
+		return nil
+	}
+	s.settingDependencies = true
+	defer func() { s.settingDependencies = false }()
+
 	// Reference to another schema if specified
 	if s.Reference != "" {
 		refTo, err := spec.ReferenceSchema(s.Reference)
@@ -159,6 +170,25 @@ func (s *Schema) setDependencies(spec Specification) error {
 	return nil
 }
 
+// setMergedDependencies sets dependencies of a schema that will be merged into
+// another one. If it refers to a schema, then the dependencies of this last one
+// are set before, as they can be merged into it as well.
+func (s *Schema) setMergedDependencies(spec Specification) error {
+	// NOTE: the schemas of other files have already been processed
+	if s != nil && strings.HasPrefix(s.Reference, "#") {
+		refTo, err := spec.ReferenceSchema(s.Reference)
+		if err != nil {
+			return err
+		}
+
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
+	}
+
+	return s.setDependencies(spec)
+}
+
 func (s *Schema) generatePropertiesMetadata() error {
 	for n, p := range s.Properties {
 		if err := p.generateMetadata(
@@ -215,7 +245,7 @@ func (s *Schema) generateaAnyOfMetadata() error {
 func (s *Schema) setAnyOfDependencies(spec Specification) error {
 	for _, v := range s.AnyOf {
 		// Set dependencies
-		if err := v.setDependencies(spec); err != nil {
+		if err := v.setMergedDependencies(spec); err != nil {
 			return err
 		}
 
@@ -241,7 +271,7 @@ func (s *Schema) generateOneOfMetadata() error {
 func (s *Schema) setOneOfDependencies(spec Specification) error {
 	for _, v := range s.OneOf {
 		// Set dependencies
-		if err := v.setDependencies(spec); err != nil {
+		if err := v.setMergedDependencies(spec); err != nil {
 			return err
 		}
 
@@ -267,7 +297,7 @@ func (s *Schema) generateAllOfMetadata() error {
 func (s *Schema) setAllOfDependencies(spec Specification) error {
 	for _, v := range s.AllOf {
 		// Set dependencies
-		if err := v.setDependencies(spec); err != nil {
+		if err := v.setMergedDependencies(spec); err != nil {
 			return err
 		}
 
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index dde01f2..9aff0b3 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -1,6 +1,8 @@
 package asyncapiv3
 
 import (
+	"strings"
+
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
@@ -60,6 +62,8 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	settingDependencies bool
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -169,10 +173,12 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 //
 //nolint:funlen,cyclop // Not necessary to reduce length and cyclop
 func (s *Schema) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if s == nil {
+	// Prevent modification if nil, or if it is already being processed
+	if s == nil || s.settingDependencies {
 		return nil
 	}
+	s.settingDependencies = true
+	defer func() { s.settingDependencies = false }()
 
 	// Set reference
 	if err := s.setReference(spec); err != nil {
@@ -242,9 +248,28 @@ func (s *Schema) setDependencies(spec Specification) error {
 	return nil
 }
 
+// setMergedDependencies sets dependencies of a schema that will be merged into
+// another one. If it refers to a schema, then the dependencies of this last one
+// are set before, as they can be merged into it as well.
+func (s *Schema) setMergedDependencies(spec Specification) error {
+	// NOTE: the schemas of other files have already been processed
+	if s != nil && strings.HasPrefix(s.Reference, "#") {
+		refTo, err := spec.ReferenceSchema(s.Reference)
+		if err != nil {
+			return err
+		}
+
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
+	}
+
+	return s.setDependencies(spec)
+}
+
 func (s *Schema) setAllOfDependenciesAndMerge(spec Specification) error {
 	for _, v := range s.AllOf {
-		if err := v.setDependencies(spec); err != nil {
+		if err := v.setMergedDependencies(spec); err != nil {
 			return err
 		}
 
@@ -259,7 +284,7 @@ func (s *Schema) setAllOfDependenciesAndMerge(spec Specification) error {
 
 func (s *Schema) setOneOfDependenciesAndMerge(spec Specification) error {
 	for _, v := range s.OneOf {
-		if err := v.setDependencies(spec); err != nil {
+		if err := v.setMergedDependencies(spec); err != nil {
 			return err
 		}
 
@@ -274,7 +299,7 @@ func (s *Schema) setOneOfDependenciesAndMerge(spec Specification) error {
 
 func (s *Schema) setAnyOfDependenciesAndMerge(spec Specification) error {
 	for _, v := range s.AnyOf {
-		if err := v.setDependencies(spec); err != nil {
+		if err := v.setMergedDependencies(spec); err != nil {
 			return err
 		}
 
-- 
2.43.0


From c935558e5279c769b81b56e4055cd268abca2591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:27 +0000
Subject: [PATCH 41/44] fix: keep the headers of a message trait that refers to
 a schema

---
 pkg/asyncapi/v3/message.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 5cea676..8fb11a4 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -276,6 +276,12 @@ func (msg *Message) setTraitsDependencies(spec Specification) error {
 		if err := t.setDependencies(spec); err != nil {
 			return err
 		}
+
+		// Set dependencies of the referred trait before, as it will be merged
+		if err := t.Follow().setDependencies(spec); err != nil {
+			return err
+		}
+
 		if err := msg.ApplyTrait(t.Follow(), spec); err != nil {
 			return err
 		}
-- 
2.43.0


From e9f24104d3acc28d1c2d34e40c7be5c1086ebb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:44 +0000
Subject: [PATCH 42/44] fix: see required correlation IDs through references
 (generated code did not compile)

---
 pkg/asyncapi/v2/message.go |  7 +++++--
 pkg/asyncapi/v3/message.go | 13 ++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index e83b756..33326f4 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -158,6 +158,9 @@ func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
 	}
 	msg.CorrelationIDLocation = loc
 
+	// Update requirement, now that references are set
+	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+
 	return nil
 }
 
@@ -277,8 +280,8 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 
 	path := strings.Split(msg.CorrelationID.Location, "/")
 	for i, v := range path[1:] {
-		// Keep the parent
-		correlationIDParent = child
+		// Keep the parent, which can be a reference
+		correlationIDParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = correlationIDParent.Properties[v]
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 8fb11a4..0931fa3 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -160,7 +160,14 @@ func (msg *Message) setDependencies(spec Specification) error {
 	}
 
 	// Set traits dependencies
-	return msg.setTraitsDependencies(spec)
+	if err := msg.setTraitsDependencies(spec); err != nil {
+		return err
+	}
+
+	// Update correlation ID requirement, now that references are set
+	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+
+	return nil
 }
 
 func (msg *Message) setReference(spec Specification) error {
@@ -362,8 +369,8 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 
 	path := strings.Split(location, "/")
 	for i, v := range path[1:] {
-		// Keep the parent
-		locationParent = child
+		// Keep the parent, which can be a reference
+		locationParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = locationParent.Properties[v]
-- 
2.43.0


From 59ca9d614dcb2488d8dd2fe70581806ab87c4534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:48 +0000
Subject: [PATCH 43/44] fix: do not name the correlation ID of another message
 in the context of a publication

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 3 +++
 pkg/codegen/generators/v3/templates/controller.tmpl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 4171eed..b4e6452 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -311,6 +311,9 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "publication")
     {{if ne (channelToMessage $value $sent).CorrelationIDLocation "" -}}
     ctx = context.WithValue(ctx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())
+    {{- else -}}
+    // This message has no correlation ID: forget the one of another message, if any
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsCorrelationID, nil)
     {{- end}}
 
     // Convert to BrokerMessage
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index e5e8a5f..3566967 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -367,6 +367,9 @@ func (c *{{ $.Prefix }}Controller) Send{{ if eq $.Prefix "User" }}To{{else}}As{{
     ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "publication")
     {{if $value.GetMessage.HaveCorrelationID -}}
     ctx = context.WithValue(ctx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())
+    {{- else -}}
+    // This message has no correlation ID: forget the one of another message, if any
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsCorrelationID, nil)
     {{- end}}
 
     // Convert to BrokerMessage
-- 
2.43.0


From 88e002ec8a3b7e4f4e158a34b3dfaf4792c5dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:09 +0000
Subject: [PATCH 44/44] fix: keep a Kafka subscription alive when the context
 used to subscribe is done

---
 pkg/extensions/brokers/kafka/kafka.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index cdaa96e..fa73629 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -240,7 +240,9 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 	)
 
 	// Stop reading and committing messages when the subscription is cancelled
-	ctx, stop := context.WithCancel(ctx)
+	//
+	// NOTE: not when the context used to subscribe is done
+	ctx, stop := context.WithCancel(context.WithoutCancel(ctx))
 
 	// Handle events
 	if c.autoCommit {
-- 
2.43.0

