From 30778e6fb967c64a2b576bc6a6ddd19b038a599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:07 +0000
Subject: [PATCH 001/106] fix: generate usable parameters structs for v2
 channels

---
 pkg/asyncapi/v2/parameter.go                   | 2 +-
 pkg/codegen/generators/v2/templates/types.tmpl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index e226e12..06d387e 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -9,7 +9,7 @@ type Parameter struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
 	Description string  `json:"description"`
-	Schema      *Schema `json:"schema-name"`
+	Schema      *Schema `json:"schema"`
 	Location    string  `json:"location"`
 	Reference   string  `json:"$ref"`
 
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index eb1eb3b..c4ac5bd 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -59,8 +59,8 @@ func (e *Error) Error() string {
 {{range $key, $value := .Channels -}}
 
 {{- if $value.Parameters -}}
-// {{ namifyWithoutParam .Name }}Parameters represents {{ namify .Name }} channel parameters
-type {{ namifyWithoutParam .Name }}Parameters struct {
+// {{ namifyWithoutParam $key }}Parameters represents {{ namify .Name }} channel parameters
+type {{ namifyWithoutParam $key }}Parameters struct {
 {{- range $key, $value := .Parameters}}
     {{- template "parameter" $value}}
 {{- end}}
-- 
2.43.0


From c8bdf1f01290a679cfee0b9e1ef03a4d5f3b41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 002/106] fix: stop waiting for a reply when the wait ends with
 an error

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 1 +
 pkg/codegen/generators/v3/templates/controller.tmpl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 57a862e..229f45f 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -365,6 +365,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
         msg, err := c.waitFor{{operationName $value}}NextMessage(ctx, path, sub, publishMsg)
         if err != nil {
             c.logger.Error(ctx, err.Error())
+            return {{(channelToMessage $value "subscribe").Name}}{}, err
         }
 
         // Continue if the message hasn't been received
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 902c2fc..6538b87 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -444,6 +444,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
         msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.GetMessage.HaveCorrelationID}}, msg{{end}})
         if err != nil {
             c.logger.Error(ctx, err.Error())
+            return {{channelToMessageTypeName .Reply.Channel}}{}, err
         }
 
         // Continue if the message hasn't been received
-- 
2.43.0


From a0427775c0b0aafd4b7424f98bb41d63b1cf1416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 003/106] fix: make subscription cancellation effective and
 safe during transmissions

A cancellation could take back its own request before the broker got it, and
closed the messages channel while messages could still be transmitted.
---
 pkg/extensions/broker.go | 53 ++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/pkg/extensions/broker.go b/pkg/extensions/broker.go
index 123ec3d..369fea6 100644
--- a/pkg/extensions/broker.go
+++ b/pkg/extensions/broker.go
@@ -3,6 +3,7 @@ package extensions
 import (
 	"context"
 	"fmt"
+	"sync"
 )
 
 // BrokerChannelSubscription is a struct that contains every returned structures
@@ -10,6 +11,20 @@ import (
 type BrokerChannelSubscription struct {
 	messages chan AcknowledgeableBrokerMessage
 	cancel   chan any
+	state    *subscriptionState
+}
+
+// subscriptionState is the cancellation state of a subscription, shared by all
+// the copies of its BrokerChannelSubscription.
+type subscriptionState struct {
+	// request ensures that the cancellation is requested only once.
+	request sync.Once
+	// stopped is closed when no more message can be transmitted.
+	stopped chan struct{}
+	// transmissions is read-locked by the messages being transmitted.
+	transmissions sync.RWMutex
+	// canceled is closed when the cancellation is complete.
+	canceled chan struct{}
 }
 
 // NewBrokerChannelSubscription creates a new broker channel subscription based
@@ -21,13 +36,32 @@ func NewBrokerChannelSubscription(
 	return BrokerChannelSubscription{
 		messages: messages,
 		cancel:   cancel,
+		state: &subscriptionState{
+			stopped:  make(chan struct{}),
+			canceled: make(chan struct{}),
+		},
 	}
 }
 
 // TransmitReceivedMessage should only be used by the broker to transmit the
-// new received messages to the user.
+// new received messages to the user. A message received once the subscription is
+// canceled is not transmitted.
 func (bcs BrokerChannelSubscription) TransmitReceivedMessage(msg AcknowledgeableBrokerMessage) {
-	bcs.messages <- msg
+	// Prevent the messages channel from being closed during the transmission
+	bcs.state.transmissions.RLock()
+	defer bcs.state.transmissions.RUnlock()
+
+	// Do not transmit the message if the subscription has been canceled
+	select {
+	case <-bcs.state.stopped:
+		return
+	default:
+	}
+
+	select {
+	case bcs.messages <- msg:
+	case <-bcs.state.stopped:
+	}
 }
 
 // MessagesChannel returns the channel that will get the received messages from
@@ -46,11 +80,14 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 		// Execute cleanup function
 		cleanup()
 
-		// Close messages in order to avoid new messages
+		// Stop transmissions, then close messages in order to avoid new messages
+		close(bcs.state.stopped)
+		bcs.state.transmissions.Lock()
 		close(bcs.messages)
+		bcs.state.transmissions.Unlock()
 
-		// Close cancel to let listeners know that the cancellation is complete
-		close(bcs.cancel)
+		// Let listeners know that the cancellation is complete
+		close(bcs.state.canceled)
 	}()
 }
 
@@ -58,12 +95,12 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 // up on broker, which will return when finished to avoid dangling resources, such
 // as non-existent queue listeners on (broker) server side.
 func (bcs BrokerChannelSubscription) Cancel(ctx context.Context) {
-	// Send a cancellation request
-	bcs.cancel <- true
+	// Send a cancellation request, if it has not already been done
+	bcs.state.request.Do(func() { bcs.cancel <- true })
 
 	// Wait for the cancellation to be effective
 	select {
-	case <-bcs.cancel:
+	case <-bcs.state.canceled:
 	case <-ctx.Done():
 	}
 }
-- 
2.43.0


From 43e247d6abcec1694e3fce829225e0ae46b7bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:01 +0000
Subject: [PATCH 004/106] fix: lock channels before versions when removing a
 version listener

---
 pkg/extensions/versioning/broker_subscription.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 49a837c..367bdd6 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -50,6 +50,11 @@ func (bs *brokerSubscription) createVersionListener(ctx context.Context, version
 }
 
 func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *versionSubcription) {
+	// Lock the channels to avoid conflict
+	// NOTE: always before the versions, as it is done when subscribing
+	bs.parent.channelsMutex.Lock()
+	defer bs.parent.channelsMutex.Unlock()
+
 	// Lock the versions to avoid conflict
 	bs.versionsMutex.Lock()
 	defer bs.versionsMutex.Unlock()
@@ -57,10 +62,6 @@ func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *ver
 	// Remove the version from the channelsByBroker
 	delete(bs.versionsChannels, vs.version)
 
-	// Lock the channels to avoid conflict
-	bs.parent.channelsMutex.Lock()
-	defer bs.parent.channelsMutex.Unlock()
-
 	// If there is still version channels, do nothing
 	if len(bs.versionsChannels) > 0 {
 		return
-- 
2.43.0


From b7a7cc9386a1f431699c053d69661e5a643156d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 005/106] fix: release versions after receiving a message with
 an unregistered version

---
 pkg/extensions/versioning/broker_subscription.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 367bdd6..03c3693 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -93,7 +93,7 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 				if bs.parent.defaultVersion != nil {
 					version = *bs.parent.defaultVersion
 				} else {
-					ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
+					ctx := context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
 					bs.parent.logger.Error(ctx, "no version in the message and no default version")
 					continue
 				}
@@ -104,9 +104,14 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 
 			// Get the correct channel based on the version
 			vc, exists := bs.versionsChannels[version]
+
+			// Unlock the versions
+			bs.versionsMutex.Unlock()
+
+			// If the version is not registered, then ignore the message
 			if !exists {
 				// Set context
-				ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
+				ctx := context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
 				ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, version)
 
 				// Log the error
@@ -114,9 +119,6 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 				continue
 			}
 
-			// Unlock the versions
-			bs.versionsMutex.Unlock()
-
 			// Send the message to the correct channel
 			vc.subscription.TransmitReceivedMessage(msg)
 		}
-- 
2.43.0


From bb1272103ac13999bf1d9530388127754a6a1a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:12 +0000
Subject: [PATCH 006/106] fix: allow publishing a message without headers
 through the versioning wrapper

---
 pkg/extensions/versioning/wrapper.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/versioning/wrapper.go b/pkg/extensions/versioning/wrapper.go
index e8a0b21..9469d42 100644
--- a/pkg/extensions/versioning/wrapper.go
+++ b/pkg/extensions/versioning/wrapper.go
@@ -79,7 +79,13 @@ func WithVersionHeaderKey(headerKey string) WrapperOption {
 func (w *Wrapper) Publish(ctx context.Context, channel string, mw extensions.BrokerMessage) error {
 	// Add version to message
 	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsVersion, func(version string) {
-		mw.Headers[w.versionHeaderKey] = []byte(version)
+		// Use a copy of the headers, as the given ones can be nil or shared
+		headers := make(map[string][]byte, len(mw.Headers)+1)
+		for k, v := range mw.Headers {
+			headers[k] = v
+		}
+		headers[w.versionHeaderKey] = []byte(version)
+		mw.Headers = headers
 	})
 
 	// Send message
-- 
2.43.0


From 5d32be3e342b2697d939e342c4c56149878759d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 007/106] fix: make JetStream subscriptions safe against
 concurrent subscriptions, cancellations and messages

---
 .../brokers/natsjetstream/natsjetstream.go    | 126 +++++++++++++-----
 1 file changed, 93 insertions(+), 33 deletions(-)

diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index 108423c..718c0d9 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -26,20 +27,29 @@ type Controller struct {
 	streamName     string
 	consumerName   string
 	consumeContext jetstream.ConsumeContext
-	channels       map[string]chan jetstream.Msg
+	channels       map[string]*subscribedChannel
+	channelsMutex  sync.Mutex // Protects channels and consumeContext
 	streamConfig   *jetstream.StreamConfig
 	consumerConfig *jetstream.ConsumerConfig
 
 	nakDelay time.Duration
 }
 
+// subscribedChannel transmits the consumed messages to the subscriptions of a channel.
+type subscribedChannel struct {
+	messages      chan jetstream.Msg
+	subscriptions int
+	// done is closed when there is no more subscription on the channel
+	done chan struct{}
+}
+
 // NewController creates a new NATS JetStream controller.
 func NewController(url string, options ...ControllerOption) (*Controller, error) {
 	// Creates default controller
 	controller := &Controller{
 		url:            url,
 		logger:         extensions.DummyLogger{},
-		channels:       make(map[string]chan jetstream.Msg),
+		channels:       make(map[string]*subscribedChannel),
 		consumeContext: nil,
 		nakDelay:       time.Second * 5,
 	}
@@ -230,33 +240,64 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		make(chan any, 1),
 	)
 
-	if c.channels[channel] == nil {
-		c.channels[channel] = make(chan jetstream.Msg)
-	}
+	sc := c.addChannelSubscription(channel)
 	if err := c.ConsumeIfNeeded(ctx); err != nil {
+		c.removeChannelSubscription(channel, sc)
 		return extensions.BrokerChannelSubscription{}, err
 	}
 
+	stop := make(chan struct{})
 	go func() {
-		for message := range c.channels[channel] {
-			c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
-				Key:   "message",
-				Value: message,
-			})
-			c.HandleMessage(ctx, message, sub)
+		for {
+			select {
+			case message := <-sc.messages:
+				c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
+					Key:   "message",
+					Value: message,
+				})
+				c.HandleMessage(ctx, message, sub)
+			case <-stop:
+				return
+			}
 		}
 	}()
 
 	// Wait for cancellation and drain the NATS subscription
 	sub.WaitForCancellationAsync(func() {
-		close(c.channels[channel])
-		delete(c.channels, channel)
+		close(stop)
+		c.removeChannelSubscription(channel, sc)
 		c.StopConsumeIfNeeded()
 	})
 
 	return sub, nil
 }
 
+func (c *Controller) addChannelSubscription(channel string) *subscribedChannel {
+	c.channelsMutex.Lock()
+	defer c.channelsMutex.Unlock()
+
+	sc, exists := c.channels[channel]
+	if !exists {
+		sc = &subscribedChannel{messages: make(chan jetstream.Msg), done: make(chan struct{})}
+		c.channels[channel] = sc
+	}
+	sc.subscriptions++
+
+	return sc
+}
+
+func (c *Controller) removeChannelSubscription(channel string, sc *subscribedChannel) {
+	c.channelsMutex.Lock()
+	defer c.channelsMutex.Unlock()
+
+	// Remove the channel when there is no more subscription on it
+	sc.subscriptions--
+	if sc.subscriptions == 0 {
+		close(sc.done)
+		delete(c.channels, channel)
+	}
+}
+
 // HandleMessage handles a message received from a stream.
 func (c *Controller) HandleMessage(ctx context.Context, msg jetstream.Msg, sub extensions.BrokerChannelSubscription) {
 	// Get headers
@@ -296,6 +337,9 @@ func (c *Controller) Close() {
 
 // ConsumeIfNeeded starts consuming messages if needed.
 func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
+	c.channelsMutex.Lock()
+	defer c.channelsMutex.Unlock()
+
 	if c.consumeContext == nil {
 		consumer, err := c.jetStream.Consumer(ctx, c.streamName, c.consumerName)
 		if err != nil {
@@ -313,6 +357,9 @@ func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
 
 // StopConsumeIfNeeded stops consuming messages if needed (there is no other subscription).
 func (c *Controller) StopConsumeIfNeeded() {
+	c.channelsMutex.Lock()
+	defer c.channelsMutex.Unlock()
+
 	if len(c.channels) == 0 && c.consumeContext != nil {
 		c.consumeContext.Stop()
 		c.consumeContext = nil
@@ -324,30 +371,43 @@ func (c *Controller) StopConsumeIfNeeded() {
 func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandler {
 	return func(msg jetstream.Msg) {
 		msgSubj := msg.Subject() // pull this into a var for debuggability
-		var responsibleSubscription string
-		for subjectSubscriptionPattern := range c.channels {
-			if MatchSubjectSubscription(subjectSubscriptionPattern, msgSubj) {
-				responsibleSubscription = subjectSubscriptionPattern
-				break
+		// Send the message to the responsible subscription, except if it has
+		// been canceled in the meantime
+		if responsibleSubscription := c.responsibleSubscription(msgSubj); responsibleSubscription != nil {
+			select {
+			case responsibleSubscription.messages <- msg:
+				return
+			case <-responsibleSubscription.done:
 			}
 		}
-		if responsibleSubscription == "" {
-			c.logger.Warning(
-				ctx,
-				fmt.Sprintf(
-					"Received message for not subscribed channel '%s'. Message will be ack'd.",
-					msgSubj,
-				),
-				extensions.LogInfo{Key: "msg.subject", Value: msgSubj},
-				extensions.LogInfo{Key: "msg.headers", Value: msg.Headers()},
-				extensions.LogInfo{Key: "msg.data", Value: msg.Data()},
-			)
-			_ = msg.Ack()
-
-			return
+
+		c.logger.Warning(
+			ctx,
+			fmt.Sprintf(
+				"Received message for not subscribed channel '%s'. Message will be ack'd.",
+				msgSubj,
+			),
+			extensions.LogInfo{Key: "msg.subject", Value: msgSubj},
+			extensions.LogInfo{Key: "msg.headers", Value: msg.Headers()},
+			extensions.LogInfo{Key: "msg.data", Value: msg.Data()},
+		)
+		_ = msg.Ack()
+	}
+}
+
+// responsibleSubscription returns the channel subscribed for the given subject,
+// or nil if there is none.
+func (c *Controller) responsibleSubscription(subject string) *subscribedChannel {
+	c.channelsMutex.Lock()
+	defer c.channelsMutex.Unlock()
+
+	for subjectSubscriptionPattern, sc := range c.channels {
+		if MatchSubjectSubscription(subjectSubscriptionPattern, subject) {
+			return sc
 		}
-		c.channels[responsibleSubscription] <- msg
 	}
+
+	return nil
 }
 
 // MatchSubjectSubscription checks whether a NATS subject matches a subscription string.
-- 
2.43.0


From d5c39b46c9e672bc37acd58cf9f1c12709b38ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:54 +0000
Subject: [PATCH 008/106] fix: do not share Kafka dialer options between
 controllers

---
 pkg/extensions/brokers/kafka/kafka.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 99c83ac..431722e 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -46,12 +46,15 @@ type ControllerOption func(controller *Controller)
 
 // NewController creates a new KafkaController that fulfill the BrokerLinker interface.
 func NewController(hosts []string, options ...ControllerOption) (*Controller, error) {
+	// Use a copy of the default dialer, as it can be modified by options
+	dialer := *kafka.DefaultDialer
+
 	// Create default controller
 	controller := &Controller{
 		hosts:          hosts,
 		logger:         extensions.DummyLogger{},
 		groupID:        brokers.DefaultQueueGroupID,
-		dialer:         kafka.DefaultDialer,
+		dialer:         &dialer,
 		partition:      0,
 		maxBytes:       10e6, // 10MB
 		autoCommit:     true,
-- 
2.43.0


From 1d5b7021c763e848fcdba8541ed19e78ff6998b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:42 +0000
Subject: [PATCH 009/106] fix: decode integer and number payloads as they are
 encoded

They were encoded in big endian and decoded in little endian, numbers were not
set in the message, and a short payload made the receiver panic.
---
 .../generators/v2/templates/message.tmpl      | 30 +++++++++++++------
 .../generators/v3/templates/message.tmpl      | 30 +++++++++++++------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 9b0e128..825d7d0 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -66,16 +66,28 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- else if eq $payload.Type "integer"}}
         // Convert to integer
         {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+            if len(bMsg.Payload) != 4 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 4 bytes long, but is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int32(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 8 bytes long, but is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int64(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else if eq $payload.Type "number"}}
         // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+        {{- if and $payload.Format (eq $payload.Format "float")}}
+            if len(bMsg.Payload) != 4 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 4 bytes long, but is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float32frombits(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 8 bytes long, but is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -86,7 +98,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- end -}}
 
     {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
+    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
             msg.Payload = {{ .Payload.ReferenceTo.Name }}(payload)
@@ -173,7 +185,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         }
     {{- else if eq $payload.Type "integer"}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
+        {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
             binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
@@ -184,10 +196,10 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         // Convert to []byte{}
         {{- if and $payload.Format (eq $payload.Format "float")}}
             payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, math.Float32bits(msg.Payload))
+            binary.BigEndian.PutUint32(payload, math.Float32bits(float32(msg.Payload)))
         {{- else}}
             payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, math.Float64bits(msg.Payload))
+            binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index e9dd4ed..56520c3 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -75,16 +75,28 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- else if eq $payload.Type "integer"}}
         // Convert to integer
         {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+            if len(bMsg.Payload) != 4 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 4 bytes long, but is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int32(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 8 bytes long, but is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int64(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else if eq $payload.Type "number"}}
         // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+        {{- if and $payload.Format (eq $payload.Format "float")}}
+            if len(bMsg.Payload) != 4 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 4 bytes long, but is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float32frombits(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 8 bytes long, but is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -95,7 +107,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- end -}}
 
     {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
+    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
             msg.Payload = {{ .Payload.Follow.Name }}(payload)
@@ -190,7 +202,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         }
     {{- else if eq $payload.Type "integer"}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
+        {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
             binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
@@ -201,10 +213,10 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         // Convert to []byte{}
         {{- if and $payload.Format (eq $payload.Format "float")}}
             payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, math.Float32bits(msg.Payload))
+            binary.BigEndian.PutUint32(payload, math.Float32bits(float32(msg.Payload)))
         {{- else}}
             payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, math.Float64bits(msg.Payload))
+            binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
-- 
2.43.0


From a9035ed0af1fb82553ebbf2cd580e6e7ed076271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 010/106] fix: generate the encoding of boolean payloads

---
 pkg/codegen/generators/v2/templates/message.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/message.tmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 825d7d0..88cf07c 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -177,7 +177,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{- end}}
 
     {{/* Handle payload based on type */}}
-    {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
+    {{- if or (eq $payload.Type "object") (eq $payload.Type "array") (eq $payload.Type "boolean")}}
         // Marshal payload to JSON
         payload, err := json.Marshal(msg.Payload)
         if err != nil {
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 56520c3..8fcc6f7 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -194,7 +194,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{- end}}
 
     {{/* Handle payload based on type */}}
-    {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
+    {{- if or (eq $payload.Type "object") (eq $payload.Type "array") (eq $payload.Type "boolean")}}
         // Marshal payload to JSON
         payload, err := json.Marshal(msg.Payload)
         if err != nil {
-- 
2.43.0


From cb105cb0bc966691f03196c7d2d45e5c3ead584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 011/106] fix: synchronize the access to the subscriptions of a
 controller

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 12 +++++++++---
 pkg/codegen/generators/v2/templates/imports.tmpl    |  1 +
 pkg/codegen/generators/v2/templates/types.tmpl      |  2 ++
 pkg/codegen/generators/v3/templates/controller.tmpl | 12 +++++++++---
 pkg/codegen/generators/v3/templates/imports.tmpl    |  1 +
 pkg/codegen/generators/v3/templates/types.tmpl      |  2 ++
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 229f45f..8bf9a51 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -15,6 +15,7 @@ func New{{ .Prefix }}Controller(bc extensions.BrokerController, options ...Contr
     controller := controller{
         broker:         bc,
         subscriptions:  make(map[string]extensions.BrokerChannelSubscription),
+        subscriptionsMutex: &sync.Mutex{},
         logger:         extensions.DummyLogger{},
         middlewares:    make([]extensions.Middleware, 0),
 		errorHandler:   extensions.DefaultErrorHandler(),
@@ -149,6 +150,8 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
     ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "reception")
 
     // Check if there is already a subscription
+    c.subscriptionsMutex.Lock()
+    defer c.subscriptionsMutex.Unlock()
     _, exists := c.subscriptions[path]
     if exists {
         err := fmt.Errorf("%w: %q channel is already subscribed", extensions.ErrAlreadySubscribedChannel, path)
@@ -253,20 +256,23 @@ func (c *{{ $.Prefix }}Controller) Unsubscribe{{operationName $value}}(ctx conte
     path := {{ generateChannelPath $value }}
 
     // Check if there subscribers for this channel
+    c.subscriptionsMutex.Lock()
     sub, exists := c.subscriptions[path]
     if !exists {
+        c.subscriptionsMutex.Unlock()
         return
     }
 
+    // Remove it from the subscribers
+    delete(c.subscriptions, path)
+    c.subscriptionsMutex.Unlock()
+
     // Set context
     ctx = add{{ $.Prefix }}ContextValues(ctx, path)
 
     // Stop the subscription
     sub.Cancel(ctx)
 
-    // Remove if from the subscribers
-    delete(c.subscriptions, path)
-
     c.logger.Info(ctx, "Unsubscribed from channel")
 }
 {{end}}
diff --git a/pkg/codegen/generators/v2/templates/imports.tmpl b/pkg/codegen/generators/v2/templates/imports.tmpl
index 26a99fd..903eed8 100644
--- a/pkg/codegen/generators/v2/templates/imports.tmpl
+++ b/pkg/codegen/generators/v2/templates/imports.tmpl
@@ -13,6 +13,7 @@ import (
     "context"
     "encoding/binary"
     "math"
+    "sync"
 
     {{/* ------------------- AsyncAPI Codegen imports ------------------- */ -}}
 
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index c4ac5bd..6c90a21 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -8,6 +8,8 @@ type controller struct {
     broker extensions.BrokerController
     // subscriptions is a map of all subscriptions
     subscriptions map[string]extensions.BrokerChannelSubscription
+    // subscriptionsMutex protects the subscriptions map
+    subscriptionsMutex *sync.Mutex
     // logger is the logger that will be used² to log operations on controller
     logger           extensions.Logger
     // middlewares are the middlewares that will be executed when sending or
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 6538b87..ea5e280 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -15,6 +15,7 @@ func New{{ .Prefix }}Controller(bc extensions.BrokerController, options ...Contr
     controller := controller{
         broker:         bc,
         subscriptions:  make(map[string]extensions.BrokerChannelSubscription),
+        subscriptionsMutex: &sync.Mutex{},
         logger:         extensions.DummyLogger{},
         middlewares:    make([]extensions.Middleware, 0),
         errorHandler:   extensions.DefaultErrorHandler(),
@@ -155,6 +156,8 @@ func (c *{{ $.Prefix }}Controller) SubscribeTo{{ namify $value.Follow.Name }}(
     ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "reception")
 
     // Check if the controller is already subscribed
+    c.subscriptionsMutex.Lock()
+    defer c.subscriptionsMutex.Unlock()
     _, exists := c.subscriptions[addr]
     if exists {
         err := fmt.Errorf("%w: controller is already subscribed on channel %q", extensions.ErrAlreadySubscribedChannel, addr)
@@ -293,20 +296,23 @@ func (c *{{ $.Prefix }}Controller) UnsubscribeFrom{{ namify $value.Follow.Name }
     addr := {{ generateChannelAddrFromOp $value }}
 
     // Check if there receivers for this channel
+    c.subscriptionsMutex.Lock()
     sub, exists := c.subscriptions[addr]
     if !exists {
+        c.subscriptionsMutex.Unlock()
         return
     }
 
+    // Remove it from the receivers
+    delete(c.subscriptions, addr)
+    c.subscriptionsMutex.Unlock()
+
     // Set context
     ctx = add{{ $.Prefix }}ContextValues(ctx, addr)
 
     // Stop the subscription
     sub.Cancel(ctx)
 
-    // Remove if from the receivers
-    delete(c.subscriptions, addr)
-
     c.logger.Info(ctx, "Unsubscribed from channel")
 }
 {{- end}}
diff --git a/pkg/codegen/generators/v3/templates/imports.tmpl b/pkg/codegen/generators/v3/templates/imports.tmpl
index 26a99fd..903eed8 100644
--- a/pkg/codegen/generators/v3/templates/imports.tmpl
+++ b/pkg/codegen/generators/v3/templates/imports.tmpl
@@ -13,6 +13,7 @@ import (
     "context"
     "encoding/binary"
     "math"
+    "sync"
 
     {{/* ------------------- AsyncAPI Codegen imports ------------------- */ -}}
 
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index d247648..ec1c881 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -8,6 +8,8 @@ type controller struct {
     broker extensions.BrokerController
     // subscriptions is a map of all subscriptions
     subscriptions map[string]extensions.BrokerChannelSubscription
+    // subscriptionsMutex protects the subscriptions map
+    subscriptionsMutex *sync.Mutex
     // logger is the logger that will be used² to log operations on controller
     logger           extensions.Logger
     // middlewares are the middlewares that will be executed when sending or
-- 
2.43.0


From cb2bcd2e40d8e277fcd0e5491642fe184628c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 012/106] fix: unsubscribe from channels with parameters when
 unsubscribing from all channels

---
 .../generators/v2/templates/controller.tmpl   | 59 +++++++++++--------
 .../generators/v3/templates/controller.tmpl   | 59 +++++++++++--------
 2 files changed, 70 insertions(+), 48 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 8bf9a51..561bd84 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -123,11 +123,40 @@ func (c *{{ .Prefix }}Controller) SubscribeAll(ctx context.Context, as {{ .Prefi
 
 // UnsubscribeAll will unsubscribe all remaining subscribed channels
 func (c *{{ .Prefix }}Controller) UnsubscribeAll(ctx context.Context) {
-    {{- range  $key, $value := .SubscribeChannels}}
-    {{- if not .Parameters}}
-    c.Unsubscribe{{operationName $value}}(ctx)
-    {{- end}}
-    {{- end}}
+    // Get the remaining subscriptions, including the ones on channels with parameters
+    c.subscriptionsMutex.Lock()
+    paths := make([]string, 0, len(c.subscriptions))
+    for path := range c.subscriptions {
+        paths = append(paths, path)
+    }
+    c.subscriptionsMutex.Unlock()
+
+    // Unsubscribe from all of them
+    for _, path := range paths {
+        c.unsubscribe(ctx, path)
+    }
+}
+
+func (c *{{ .Prefix }}Controller) unsubscribe(ctx context.Context, path string) {
+    // Check if there subscribers for this channel
+    c.subscriptionsMutex.Lock()
+    sub, exists := c.subscriptions[path]
+    if !exists {
+        c.subscriptionsMutex.Unlock()
+        return
+    }
+
+    // Remove it from the subscribers
+    delete(c.subscriptions, path)
+    c.subscriptionsMutex.Unlock()
+
+    // Set context
+    ctx = add{{ .Prefix }}ContextValues(ctx, path)
+
+    // Stop the subscription
+    sub.Cancel(ctx)
+
+    c.logger.Info(ctx, "Unsubscribed from channel")
 }
 {{- end}}
 
@@ -255,25 +284,7 @@ func (c *{{ $.Prefix }}Controller) Unsubscribe{{operationName $value}}(ctx conte
     // Get channel path
     path := {{ generateChannelPath $value }}
 
-    // Check if there subscribers for this channel
-    c.subscriptionsMutex.Lock()
-    sub, exists := c.subscriptions[path]
-    if !exists {
-        c.subscriptionsMutex.Unlock()
-        return
-    }
-
-    // Remove it from the subscribers
-    delete(c.subscriptions, path)
-    c.subscriptionsMutex.Unlock()
-
-    // Set context
-    ctx = add{{ $.Prefix }}ContextValues(ctx, path)
-
-    // Stop the subscription
-    sub.Cancel(ctx)
-
-    c.logger.Info(ctx, "Unsubscribed from channel")
+    c.unsubscribe(ctx, path)
 }
 {{end}}
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index ea5e280..bf69fd4 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -124,11 +124,40 @@ func (c *{{ .Prefix }}Controller) SubscribeToAllChannels(ctx context.Context, as
 
 // UnsubscribeFromAllChannels will stop the subscription of all remaining subscribed channels
 func (c *{{ .Prefix }}Controller) UnsubscribeFromAllChannels(ctx context.Context) {
-    {{- range  $key, $value := .Operations.Receive}}
-    {{- if not .Channel.Follow.Parameters}}
-    c.UnsubscribeFrom{{ namify $value.Follow.Name }}(ctx)
-    {{- end}}
-    {{- end}}
+    // Get the remaining subscriptions, including the ones on channels with parameters
+    c.subscriptionsMutex.Lock()
+    addrs := make([]string, 0, len(c.subscriptions))
+    for addr := range c.subscriptions {
+        addrs = append(addrs, addr)
+    }
+    c.subscriptionsMutex.Unlock()
+
+    // Unsubscribe from all of them
+    for _, addr := range addrs {
+        c.unsubscribe(ctx, addr)
+    }
+}
+
+func (c *{{ .Prefix }}Controller) unsubscribe(ctx context.Context, addr string) {
+    // Check if there receivers for this channel
+    c.subscriptionsMutex.Lock()
+    sub, exists := c.subscriptions[addr]
+    if !exists {
+        c.subscriptionsMutex.Unlock()
+        return
+    }
+
+    // Remove it from the receivers
+    delete(c.subscriptions, addr)
+    c.subscriptionsMutex.Unlock()
+
+    // Set context
+    ctx = add{{ .Prefix }}ContextValues(ctx, addr)
+
+    // Stop the subscription
+    sub.Cancel(ctx)
+
+    c.logger.Info(ctx, "Unsubscribed from channel")
 }
 {{- end}}
 
@@ -295,25 +324,7 @@ func (c *{{ $.Prefix }}Controller) UnsubscribeFrom{{ namify $value.Follow.Name }
     // Get channel address
     addr := {{ generateChannelAddrFromOp $value }}
 
-    // Check if there receivers for this channel
-    c.subscriptionsMutex.Lock()
-    sub, exists := c.subscriptions[addr]
-    if !exists {
-        c.subscriptionsMutex.Unlock()
-        return
-    }
-
-    // Remove it from the receivers
-    delete(c.subscriptions, addr)
-    c.subscriptionsMutex.Unlock()
-
-    // Set context
-    ctx = add{{ $.Prefix }}ContextValues(ctx, addr)
-
-    // Stop the subscription
-    sub.Cancel(ctx)
-
-    c.logger.Info(ctx, "Unsubscribed from channel")
+    c.unsubscribe(ctx, addr)
 }
 {{- end}}
 
-- 
2.43.0


From 878a8370b4cb0e23fc9ce2e10f3055fd317a6d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 013/106] fix: acknowledge replies without correlation ID

---
 pkg/codegen/generators/v3/templates/controller.tmpl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index bf69fd4..fc7621f 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -515,8 +515,11 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
             return nil, nil
         }
         {{- else}}
-        // There is correlation no ID, so it will automatically return at
+        // Acknowledge the message
+        //
+        // NOTE: There is correlation no ID, so it will automatically return at
         // the first received message.
+        acknowledgeableBrokerMessage.Ack()
         {{- end}}
 
         // Set context with received values as it is the expected message
-- 
2.43.0


From db661c3c512723c9b9f2dbc35e3cfc8752227be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:40 +0000
Subject: [PATCH 014/106] fix: return an error from the recovery middleware
 when a panic is recovered

---
 pkg/extensions/errors.go               | 3 +++
 pkg/extensions/middlewares/recovery.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/errors.go b/pkg/extensions/errors.go
index af97810..3aa8ee8 100644
--- a/pkg/extensions/errors.go
+++ b/pkg/extensions/errors.go
@@ -34,4 +34,7 @@ var (
 	// ErrChannelAddressEmpty is raised when a given channel address is empty,
 	// when dynamically set from message.
 	ErrChannelAddressEmpty = fmt.Errorf("%w: channel address empty", ErrAsyncAPI)
+
+	// ErrPanicRecovered is raised when a panic happened and has been recovered.
+	ErrPanicRecovered = fmt.Errorf("%w: recovered from panic", ErrAsyncAPI)
 )
diff --git a/pkg/extensions/middlewares/recovery.go b/pkg/extensions/middlewares/recovery.go
index b5e7782..1f1b70e 100644
--- a/pkg/extensions/middlewares/recovery.go
+++ b/pkg/extensions/middlewares/recovery.go
@@ -10,11 +10,12 @@ import (
 // Recovery is a middleware that recovers from panic in middlewares coming after
 // it and user code from subscription.
 func Recovery(logger extensions.Logger) extensions.Middleware {
-	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
+	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) (err error) {
 		// Recover in case of panic
 		defer func() {
 			if r := recover(); r != nil {
 				logger.Error(ctx, fmt.Sprintf("Recovered from panic: %v", r))
+				err = fmt.Errorf("%w: %v", extensions.ErrPanicRecovered, r)
 			}
 		}()
 
-- 
2.43.0


From aee8f7e9d2f0e65ea84af0f3373593de49ff56b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 015/106] fix: generate the encoding of headers of any type

---
 .../generators/v2/templates/message.tmpl      |  99 +++++++---------
 .../generators/v3/templates/message.tmpl      | 107 +++++++-----------
 2 files changed, 86 insertions(+), 120 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 88cf07c..0c94d7a 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -122,38 +122,30 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- $headers := .Headers -}}
             {{- range  $key, $value := $headerProperties}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if isFieldPointer $headers $key $value }}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = &t
-                    {{- else}}
-                        h := {{$value.Type}}(v)
-                        msg.Headers.{{ namify $key}} = &h
-                    {{- end}}
-                {{- else}}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
+                {{- $header := $value.Follow }}
+                {{- if ne $header.Type "string" }}
+                    {{- /* Anything else than a string is in JSON */}}
+                    if err := json.Unmarshal(v, &msg.Headers.{{ namify $key}}); err != nil {
+                        return msg, err
+                    }
+                {{- else }}
+                    {{- if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
+                        d, err := civil.ParseDate(string(v))
                         if err != nil {
                             return msg, err
                         }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
+                        h := {{template "schema-name" $value}}(d)
+                    {{- else if isDateOrDateTimeGenerated $header.Format }}
                         t, err := time.Parse(time.RFC3339, string(v))
                         if err != nil {
                             return msg, err
                         }
-                        msg.Headers.{{ namify $key}} = t
-                    {{- else}}
-                        msg.Headers.{{ namify $key}} = {{$value.Type}}(v)
-                    {{- end}}
-                {{- end}}
+                        h := {{template "schema-name" $value}}(t)
+                    {{- else }}
+                        h := {{template "schema-name" $value}}(v)
+                    {{- end }}
+                    msg.Headers.{{ namify $key}} = {{if isFieldPointer $headers $key $value }}&{{end}}h
+                {{- end }}
             {{- end}}
         default:
             // TODO: log unknown error
@@ -224,38 +216,33 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- range  $key, $value := $headerProperties }}
 
             // Adding {{ namify $key}} header
-            {{- if $value.IsRequired }}
-                {{- $dereferenceOp := "" -}}
-                {{- if isFieldPointer $headers $key $value -}}
-                    {{- $dereferenceOp = "*" }}
-                    if msg.Headers.{{ namify $key}} == nil {
-                        return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
-                    }
-                {{- end -}}
-                {{- if eq $value.Type "object" }}
-                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
-                    if err != nil {
-                        return extensions.BrokerMessage{}, err
-                    }
-                    headers["{{$key}}"] = h
-                {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                {{- else }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
-                {{- end }}
-            {{- else}}
+            {{- $header := $value.Follow }}
+            {{- $dereferenceOp := "" }}
+            {{- if isFieldPointer $headers $key $value }}
+                {{- $dereferenceOp = "*" }}
+            {{- end }}
+            {{- if not $value.IsRequired }}
                 if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $value.Type "object" }}
-                        h, err := json.Marshal(*msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return extensions.BrokerMessage{}, err
-                        }
-                        headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                    {{- else }}
-                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
-                    {{- end }}
+            {{- else if $dereferenceOp }}
+                if msg.Headers.{{ namify $key}} == nil {
+                    return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
+                }
+            {{- end }}
+            {{- if ne $header.Type "string" }}
+                {{- /* Anything else than a string is in JSON */}}
+                h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
+                if err != nil {
+                    return extensions.BrokerMessage{}, err
+                }
+                headers["{{$key}}"] = h
+            {{- else if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
+                headers["{{$key}}"] = []byte(civil.Date({{ $dereferenceOp }}msg.Headers.{{namify $key}}).String())
+            {{- else if isDateOrDateTimeGenerated $header.Format }}
+                headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
+            {{- else }}
+                headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
+            {{- end }}
+            {{- if not $value.IsRequired }}
                 }
             {{- end }}
         {{- end}}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 8fcc6f7..099af51 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -131,46 +131,30 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- $headers := .Headers -}}
             {{- range  $key, $value := $headerProperties}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if isFieldPointer $headers $key $value }}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = &t
-                    {{- else}}
-                        {{- if $value.Reference }}
-                        h := {{$value.ReferenceTo.Name}}(v)
-                        {{- else }}
-                        h := {{$value.Type}}(v)
-                        {{- end}}
-                        msg.Headers.{{ namify $key}} = &h
-                    {{- end}}
-                {{- else}}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
+                {{- $header := $value.Follow }}
+                {{- if ne $header.Type "string" }}
+                    {{- /* Anything else than a string is in JSON */}}
+                    if err := json.Unmarshal(v, &msg.Headers.{{ namify $key}}); err != nil {
+                        return msg, err
+                    }
+                {{- else }}
+                    {{- if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
+                        d, err := civil.ParseDate(string(v))
                         if err != nil {
                             return msg, err
                         }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
+                        h := {{template "schema-name" $value}}(d)
+                    {{- else if isDateOrDateTimeGenerated $header.Format }}
                         t, err := time.Parse(time.RFC3339, string(v))
                         if err != nil {
                             return msg, err
                         }
-                        msg.Headers.{{ namify $key}} = t
-                    {{- else}}
-                        {{- if $value.Reference }}
-                        msg.Headers.{{ namify $key}} = {{$value.ReferenceTo.Name}}(v)
-                        {{- else }}
-                        msg.Headers.{{ namify $key}} = {{$value.Type}}(v)
-                        {{- end}}
-                    {{- end}}
-                {{- end}}
+                        h := {{template "schema-name" $value}}(t)
+                    {{- else }}
+                        h := {{template "schema-name" $value}}(v)
+                    {{- end }}
+                    msg.Headers.{{ namify $key}} = {{if isFieldPointer $headers $key $value }}&{{end}}h
+                {{- end }}
             {{- end}}
         default:
             // TODO: log unknown error
@@ -242,38 +226,33 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- range  $key, $value := $headerProperties }}
 
             // Adding {{ namify $key}} header
-            {{- if $value.IsRequired }}
-                {{- $dereferenceOp := "" -}}
-                {{- if isFieldPointer $headers $key $value -}}
-                    {{- $dereferenceOp = "*" }}
-                     if msg.Headers.{{ namify $key}} == nil {
-                        return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
-                     }
-                {{- end -}}
-                {{- if eq $value.Type "object" }}
-                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
-                    if err != nil {
-                        return extensions.BrokerMessage{}, err
-                    }
-                    headers["{{$key}}"] = h
-                {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                {{- else }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
-                {{- end }}
-            {{- else}}
+            {{- $header := $value.Follow }}
+            {{- $dereferenceOp := "" }}
+            {{- if isFieldPointer $headers $key $value }}
+                {{- $dereferenceOp = "*" }}
+            {{- end }}
+            {{- if not $value.IsRequired }}
                 if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $value.Type "object" }}
-                        h, err := json.Marshal(*msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return extensions.BrokerMessage{}, err
-                        }
-                        headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                    {{- else }}
-                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
-                    {{- end }}
+            {{- else if $dereferenceOp }}
+                if msg.Headers.{{ namify $key}} == nil {
+                    return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
+                }
+            {{- end }}
+            {{- if ne $header.Type "string" }}
+                {{- /* Anything else than a string is in JSON */}}
+                h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
+                if err != nil {
+                    return extensions.BrokerMessage{}, err
+                }
+                headers["{{$key}}"] = h
+            {{- else if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
+                headers["{{$key}}"] = []byte(civil.Date({{ $dereferenceOp }}msg.Headers.{{namify $key}}).String())
+            {{- else if isDateOrDateTimeGenerated $header.Format }}
+                headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
+            {{- else }}
+                headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
+            {{- end }}
+            {{- if not $value.IsRequired }}
                 }
             {{- end }}
         {{- end}}
-- 
2.43.0


From f29fca2a90c11e811605c28ddb126b75db675386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 016/106] fix: generate the marshaling of referenced dates with
 the date type

---
 pkg/codegen/generators/v2/templates/marshaling/time.tmpl | 8 ++++----
 pkg/codegen/generators/v3/templates/marshaling/time.tmpl | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
index b83e7f9..b8e296d 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
@@ -1,12 +1,12 @@
 {{define "marshaling-time" -}}
-// MarshalJSON will override the marshal as this is not a normal 'time.Time' type
+// MarshalJSON will override the marshal as this is not a normal '{{template "schema-name" .}}' type
 func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+    return json.Marshal({{template "schema-name" .}}(t))
 }
 
-// UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
+// UnmarshalJSON will override the unmarshal as this is not a normal '{{template "schema-name" .}}' type
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+    var timeFormat {{template "schema-name" .}}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
diff --git a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
index b83e7f9..b8e296d 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
@@ -1,12 +1,12 @@
 {{define "marshaling-time" -}}
-// MarshalJSON will override the marshal as this is not a normal 'time.Time' type
+// MarshalJSON will override the marshal as this is not a normal '{{template "schema-name" .}}' type
 func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+    return json.Marshal({{template "schema-name" .}}(t))
 }
 
-// UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
+// UnmarshalJSON will override the unmarshal as this is not a normal '{{template "schema-name" .}}' type
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+    var timeFormat {{template "schema-name" .}}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
-- 
2.43.0


From 0915ccd352c3db68e036b527f1ceb6eff95ad36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 017/106] fix: generate the encoding of date payloads and keep
 the precision of date-time payloads

---
 pkg/codegen/generators/v2/templates/message.tmpl | 16 +++++++++++++---
 pkg/codegen/generators/v3/templates/message.tmpl | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 0c94d7a..dbb129a 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -54,7 +54,12 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
         // Convert to string
-        {{- if isDateOrDateTimeGenerated $payload.Format }}
+        {{- if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+            payload, err := civil.ParseDate(string(bMsg.Payload))
+            if err != nil {
+                return {{namify .Name}}{}, err
+            }
+        {{- else if isDateOrDateTimeGenerated $payload.Format }}
             t, err := time.Parse(time.RFC3339, string(bMsg.Payload))
             if err != nil {
                 return {{namify .Name}}{}, err
@@ -194,8 +199,13 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
-        // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
+        {{- if eq $payload.Format "date" }}
+            // Convert to RFC3339 full date and to []byte
+            payload := []byte(civil.Date(msg.Payload).String())
+        {{- else }}
+            // Convert to RFC3339, with the fraction of seconds, and to []byte
+            payload := []byte(time.Time(msg.Payload).Format(time.RFC3339Nano))
+        {{- end }}
     {{- else}}
         // Convert to []byte
         payload := []byte(msg.Payload)
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 099af51..8582e3a 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -63,7 +63,12 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
         // Convert to string
-        {{- if isDateOrDateTimeGenerated $payload.Format }}
+        {{- if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+            payload, err := civil.ParseDate(string(bMsg.Payload))
+            if err != nil {
+                return {{namify .Name}}{}, err
+            }
+        {{- else if isDateOrDateTimeGenerated $payload.Format }}
             t, err := time.Parse(time.RFC3339, string(bMsg.Payload))
             if err != nil {
                 return {{namify .Name}}{}, err
@@ -203,8 +208,13 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
-        // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
+        {{- if eq $payload.Format "date" }}
+            // Convert to RFC3339 full date and to []byte
+            payload := []byte(civil.Date(msg.Payload).String())
+        {{- else }}
+            // Convert to RFC3339, with the fraction of seconds, and to []byte
+            payload := []byte(time.Time(msg.Payload).Format(time.RFC3339Nano))
+        {{- end }}
     {{- else}}
         // Convert to []byte
         payload := []byte(msg.Payload)
-- 
2.43.0


From 9ecba7919b28d76065ef27a89e22370082880b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 018/106] fix: generate the objects that are in arrays of
 arrays

---
 pkg/codegen/generators/v2/templates/helpers.go | 9 +++++----
 pkg/codegen/generators/v3/templates/helpers.go | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 8e4d603..50f0378 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -28,12 +28,13 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 	// Only keep object schemas
 	filteredSchemas := make([]*asyncapi.Schema, 0, len(allSchemas))
 	for _, schema := range allSchemas {
+		// Get the items, whatever the depth of arrays
+		for schema.Type == asyncapi.SchemaTypeIsArray.String() && schema.Items != nil {
+			schema = schema.Items
+		}
+
 		if schema.Type == asyncapi.SchemaTypeIsObject.String() {
 			filteredSchemas = append(filteredSchemas, schema)
-		} else if schema.Type == asyncapi.SchemaTypeIsArray.String() &&
-			schema.Items != nil &&
-			schema.Items.Type == asyncapi.SchemaTypeIsObject.String() {
-			filteredSchemas = append(filteredSchemas, schema.Items)
 		}
 	}
 
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index b37b96a..a653001 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -28,12 +28,13 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 	// Only keep object schemas
 	filteredSchemas := make([]*asyncapi.Schema, 0, len(allSchemas))
 	for _, schema := range allSchemas {
+		// Get the items, whatever the depth of arrays
+		for schema.Type == asyncapi.SchemaTypeIsArray.String() && schema.Items != nil {
+			schema = schema.Items
+		}
+
 		if schema.Type == asyncapi.SchemaTypeIsObject.String() {
 			filteredSchemas = append(filteredSchemas, schema)
-		} else if schema.Type == asyncapi.SchemaTypeIsArray.String() &&
-			schema.Items != nil &&
-			schema.Items.Type == asyncapi.SchemaTypeIsObject.String() {
-			filteredSchemas = append(filteredSchemas, schema.Items)
 		}
 	}
 
-- 
2.43.0


From 4a6464d22d3ebc0be0c56c06e949716caab62d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 019/106] fix: do not redefine v2 schemas that reference a
 composition

---
 pkg/asyncapi/v2/schema.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 104c530..0aa3ac0 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -111,7 +111,11 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 	if refTo == nil {
 		return
 	}
-	s.Validations.Merge(refTo.Validations)
+
+	// Do not take the compositions: they are part of the referenced type
+	validations := refTo.Validations
+	validations.AllOf, validations.AnyOf, validations.OneOf = nil, nil, nil
+	s.Validations.Merge(validations)
 }
 
 // setDependencies sets dependencies for the schema from the specification.
-- 
2.43.0


From 0271cbe73a7b816b518a1747a71f6a3d8878c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 020/106] fix: merge compositions of references in the same way
 whatever the processing order

---
 pkg/asyncapi/v2/schema.go | 42 +++++++++++++++++++++++++++++++++++++++
 pkg/asyncapi/v3/schema.go | 42 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 0aa3ac0..b5681ad 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -1,6 +1,8 @@
 package asyncapiv2
 
 import (
+	"strings"
+
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
@@ -43,6 +45,9 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	// dependenciesSet is true when the dependencies have been set
+	dependenciesSet bool
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -120,6 +125,12 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 
 // setDependencies sets dependencies for the schema from the specification.
 func (s *Schema) setDependencies(spec Specification) error {
+	// Do it only once, as it is also done before merging this schema in another one
+	if s.dependenciesSet {
+		return nil
+	}
+	s.dependenciesSet = true
+
 	// Reference to another schema if specified
 	if s.Reference != "" {
 		refTo, err := spec.ReferenceSchema(s.Reference)
@@ -223,6 +234,11 @@ func (s *Schema) setAnyOfDependencies(spec Specification) error {
 			return err
 		}
 
+		// Set dependencies of the referenced schema, as they can change it
+		if err := v.setReferencedDependencies(spec); err != nil {
+			return err
+		}
+
 		// Merge with other fields as one struct (invalidate references)
 		if err := s.MergeWith(spec, *v); err != nil {
 			return err
@@ -249,6 +265,11 @@ func (s *Schema) setOneOfDependencies(spec Specification) error {
 			return err
 		}
 
+		// Set dependencies of the referenced schema, as they can change it
+		if err := v.setReferencedDependencies(spec); err != nil {
+			return err
+		}
+
 		// Merge with other fields as one struct (invalidate references)
 		if err := s.MergeWith(spec, *v); err != nil {
 			return err
@@ -275,6 +296,11 @@ func (s *Schema) setAllOfDependencies(spec Specification) error {
 			return err
 		}
 
+		// Set dependencies of the referenced schema, as they can change it
+		if err := v.setReferencedDependencies(spec); err != nil {
+			return err
+		}
+
 		// Merge with other fields as one struct (invalidate references)
 		if err := s.MergeWith(spec, *v); err != nil {
 			return err
@@ -304,6 +330,22 @@ func (s *Schema) setAdditionalPropertiesDependencies(spec Specification) error {
 	return nil
 }
 
+// setReferencedDependencies sets the dependencies of the referenced schema, if there
+// is one, in order to get it in its final form.
+func (s *Schema) setReferencedDependencies(spec Specification) error {
+	// NOTE: this is already done for the schemas from the other specifications
+	if s.ReferenceTo == nil || !strings.HasPrefix(s.Reference, "#") {
+		return nil
+	}
+
+	if err := s.ReferenceTo.setDependencies(spec); err != nil {
+		return err
+	}
+	s.setValidationsFromReferenced(s.ReferenceTo)
+
+	return nil
+}
+
 // IsFieldRequired checks if a field is required in the asyncapi struct.
 func (s Schema) IsFieldRequired(field string) bool {
 	return utils.IsInSlice(s.Required, field)
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index e44558f..c3b0c01 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -1,6 +1,8 @@
 package asyncapiv3
 
 import (
+	"strings"
+
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
@@ -60,6 +62,9 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	// dependenciesSet is true when the dependencies have been set
+	dependenciesSet bool
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -174,6 +179,12 @@ func (s *Schema) setDependencies(spec Specification) error {
 		return nil
 	}
 
+	// Do it only once, as it is also done before merging this schema in another one
+	if s.dependenciesSet {
+		return nil
+	}
+	s.dependenciesSet = true
+
 	// Set reference
 	if err := s.setReference(spec); err != nil {
 		return err
@@ -248,6 +259,11 @@ func (s *Schema) setAllOfDependenciesAndMerge(spec Specification) error {
 			return err
 		}
 
+		// Set dependencies of the referenced schema, as they can change it
+		if err := v.setReferencedDependencies(spec); err != nil {
+			return err
+		}
+
 		// Merge with other fields as one struct (invalidate references)
 		if err := s.MergeWith(spec, *v); err != nil {
 			return err
@@ -263,6 +279,11 @@ func (s *Schema) setOneOfDependenciesAndMerge(spec Specification) error {
 			return err
 		}
 
+		// Set dependencies of the referenced schema, as they can change it
+		if err := v.setReferencedDependencies(spec); err != nil {
+			return err
+		}
+
 		// Merge with other fields as one struct (invalidate references)
 		if err := s.MergeWith(spec, *v); err != nil {
 			return err
@@ -278,6 +299,11 @@ func (s *Schema) setAnyOfDependenciesAndMerge(spec Specification) error {
 			return err
 		}
 
+		// Set dependencies of the referenced schema, as they can change it
+		if err := v.setReferencedDependencies(spec); err != nil {
+			return err
+		}
+
 		// Merge with other fields as one struct (invalidate references)
 		if err := s.MergeWith(spec, *v); err != nil {
 			return err
@@ -303,6 +329,22 @@ func (s *Schema) setReference(spec Specification) error {
 	return nil
 }
 
+// setReferencedDependencies sets the dependencies of the referenced schema, if there
+// is one, in order to get it in its final form.
+func (s *Schema) setReferencedDependencies(spec Specification) error {
+	// NOTE: this is already done for the schemas from the other specifications
+	if s.ReferenceTo == nil || !strings.HasPrefix(s.Reference, "#") {
+		return nil
+	}
+
+	if err := s.ReferenceTo.setDependencies(spec); err != nil {
+		return err
+	}
+	s.Validations.Merge(s.ReferenceTo.Validations)
+
+	return nil
+}
+
 // IsFieldRequired checks if a field is required in the asyncapi struct.
 func (s Schema) IsFieldRequired(field string) bool {
 	return utils.IsInSlice(s.Required, field)
-- 
2.43.0


From d806d6b264b0ec9d7eeabae1cc2d6d97469879fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 021/106] fix: accept referenced headers

---
 pkg/asyncapi/v2/message.go |  5 +++++
 pkg/asyncapi/v3/message.go | 24 +++++++++++++++---------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index e83b756..1e12766 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -136,6 +136,11 @@ func (msg *Message) setHeadersDependencies(spec Specification) error {
 		return err
 	}
 
+	// Set dependencies of the referenced headers, as they can change it
+	if err := msg.Headers.setReferencedDependencies(spec); err != nil {
+		return err
+	}
+
 	// Check Headers is an object, after processing
 	if msg.Headers.Follow().Type != SchemaTypeIsObject.String() {
 		return fmt.Errorf(
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 5cea676..a9e4df0 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -214,10 +214,24 @@ func (msg *Message) generateHeadersMetadata() error {
 		return nil
 	}
 
-	if err := msg.Headers.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
+	return msg.Headers.generateMetadata(msg.Name, "Headers", nil, false)
+}
+
+func (msg *Message) setHeadersDependencies(spec Specification) error {
+	if msg.Headers == nil {
+		return nil
+	}
+
+	if err := msg.Headers.setDependencies(spec); err != nil {
 		return err
 	}
 
+	// Set dependencies of the referenced headers, as they can change it
+	if err := msg.Headers.setReferencedDependencies(spec); err != nil {
+		return err
+	}
+
+	// Check Headers is an object, after processing
 	if msg.Headers.Follow().Type != SchemaTypeIsObject.String() {
 		return fmt.Errorf(
 			"%w: %q headers must be an object, is %q",
@@ -227,14 +241,6 @@ func (msg *Message) generateHeadersMetadata() error {
 	return nil
 }
 
-func (msg *Message) setHeadersDependencies(spec Specification) error {
-	if msg.Headers == nil {
-		return nil
-	}
-
-	return msg.Headers.setDependencies(spec)
-}
-
 func (msg *Message) generateOneOfMetadata() error {
 	for i, v := range msg.OneOf {
 		if err := v.generateMetadata(msg.Name, "", &i); err != nil {
-- 
2.43.0


From b9faf3696451729bb796ddd51905fbb978b929ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 022/106] fix: generate the correlation ID field when it is in
 missing or referenced objects

---
 pkg/asyncapi/v2/message.go                    | 20 ++++++++------
 pkg/asyncapi/v3/message.go                    | 27 ++++++++++++-------
 .../generators/v2/templates/message.tmpl      |  4 +--
 .../generators/v3/templates/message.tmpl      |  4 +--
 4 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 1e12766..d74419b 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -163,6 +163,9 @@ func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
 	}
 	msg.CorrelationIDLocation = loc
 
+	// Process correlation ID again, as it can be in a reference
+	msg.generateCorrelationIDMetadata()
+
 	return nil
 }
 
@@ -250,11 +253,9 @@ func (msg *Message) createTreeUntilCorrelationID() (correlationIDParent *Schema)
 
 func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField) (correlationIDParent *Schema) {
 	// Get correct top level placeholder
-	var placeholder **Schema
+	placeholder, name := &msg.Payload, "_Payload"
 	if t == MessageFieldIsHeader {
-		placeholder = &msg.Headers
-	} else {
-		placeholder = &msg.Payload
+		placeholder, name = &msg.Headers, "_Headers"
 	}
 
 	var child *Schema
@@ -265,7 +266,7 @@ func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField)
 	case (*placeholder) == nil: // If there is no header and no reference
 		// Create a default one for the message
 		(*placeholder) = utils.ToPointer(NewSchema())
-		(*placeholder).Name = MessageFieldIsHeader.String()
+		(*placeholder).Name = template.Namify(msg.Name + name)
 		(*placeholder).Type = SchemaTypeIsObject.String()
 		fallthrough
 	default:
@@ -283,18 +284,21 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 	path := strings.Split(msg.CorrelationID.Location, "/")
 	for i, v := range path[1:] {
 		// Keep the parent
-		correlationIDParent = child
+		correlationIDParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = correlationIDParent.Properties[v]
 		if !exists { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
-			child.Name = v
+			child.Name = template.Namify(correlationIDParent.Name + template.Namify(v))
 			if i == len(path)-2 { // As there is -1 in the loop slice
 				child.Type = SchemaTypeIsString.String()
 			} else {
-				child.Type = MessageFieldIsHeader.String()
+				// NOTE: the object is required in order to always be there
+				child.Type = SchemaTypeIsObject.String()
+				child.IsRequired = true
+				correlationIDParent.Required = append(correlationIDParent.Required, v)
 			}
 
 			// Add it to parent
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index a9e4df0..4cc8a3e 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -160,7 +160,15 @@ func (msg *Message) setDependencies(spec Specification) error {
 	}
 
 	// Set traits dependencies
-	return msg.setTraitsDependencies(spec)
+	if err := msg.setTraitsDependencies(spec); err != nil {
+		return err
+	}
+
+	// Process correlation ID again, as it can be in a reference or in a trait
+	msg.createCorrelationIDFieldIfMissing()
+	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+
+	return nil
 }
 
 func (msg *Message) setReference(spec Specification) error {
@@ -330,11 +338,9 @@ func (msg *Message) createTreeUntilLocation(location string) (locationParent *Sc
 
 func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, location string) (locationParent *Schema) {
 	// Get correct top level placeholder
-	var placeholder **Schema
+	placeholder, name := &msg.Payload, "Payload"
 	if t == MessageFieldIsHeader {
-		placeholder = &msg.Headers
-	} else {
-		placeholder = &msg.Payload
+		placeholder, name = &msg.Headers, "Headers"
 	}
 
 	var child *Schema
@@ -345,7 +351,7 @@ func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, locat
 	case (*placeholder) == nil: // If there is no header and no reference
 		// Create a default one for the message
 		(*placeholder) = utils.ToPointer(NewSchema())
-		(*placeholder).Name = MessageFieldIsHeader.String()
+		(*placeholder).Name = generateFullName(msg.Name, name, "", nil)
 		(*placeholder).Type = SchemaTypeIsObject.String()
 		fallthrough
 	default:
@@ -363,18 +369,21 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 	path := strings.Split(location, "/")
 	for i, v := range path[1:] {
 		// Keep the parent
-		locationParent = child
+		locationParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = locationParent.Properties[v]
 		if !exists { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
-			child.Name = v
+			child.Name = generateFullName(locationParent.Name, v+"_Property", "", nil)
 			if i == len(path)-2 { // As there is -1 in the loop slice
 				child.Type = SchemaTypeIsString.String()
 			} else {
-				child.Type = MessageFieldIsHeader.String()
+				// NOTE: the object is required in order to always be there
+				child.Type = SchemaTypeIsObject.String()
+				child.IsRequired = true
+				locationParent.Required = append(locationParent.Required, v)
 			}
 
 			// Add it to parent
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index dbb129a..90a8754 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -124,7 +124,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- end}}
 
             {{- /* For each header */}}
-            {{- $headers := .Headers -}}
+            {{- $headers := .Headers.Follow -}}
             {{- range  $key, $value := $headerProperties}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
                 {{- $header := $value.Follow }}
@@ -221,7 +221,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 
         // Add each headers to broker message
         headers := make(map[string][]byte, {{ len $headerProperties }})
-        {{- $headers := .Headers -}}
+        {{- $headers := .Headers.Follow -}}
         {{/* For each header */ -}}
         {{- range  $key, $value := $headerProperties }}
 
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 8582e3a..63f2de6 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -133,7 +133,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- end}}
 
             {{- /* For each header */}}
-            {{- $headers := .Headers -}}
+            {{- $headers := .Headers.Follow -}}
             {{- range  $key, $value := $headerProperties}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
                 {{- $header := $value.Follow }}
@@ -231,7 +231,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 
         // Add each headers to broker message
         headers := make(map[string][]byte, {{ len $headerProperties }})
-        {{- $headers := .Headers -}}
+        {{- $headers := .Headers.Follow -}}
         {{/* For each header */ -}}
         {{- range  $key, $value := $headerProperties }}
 
-- 
2.43.0


From 4935e80a2018490dff4e9011a8ad846fbc5f7e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 023/106] fix: follow references to references

---
 pkg/asyncapi/v2/message.go                       |  7 +++++++
 pkg/asyncapi/v2/schema.go                        |  9 ++++++++-
 pkg/asyncapi/v3/message.go                       |  9 ++++++++-
 pkg/asyncapi/v3/schema.go                        |  9 ++++++++-
 pkg/codegen/generators/v2/templates/message.tmpl | 10 +++++-----
 pkg/codegen/generators/v3/templates/message.tmpl |  8 ++++----
 6 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index d74419b..98b37a4 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -96,6 +96,13 @@ func (msg *Message) setDependencies(spec Specification) error {
 		if err != nil {
 			return err
 		}
+
+		// Check that this is not a circular reference
+		for r := refTo; r != nil; r = r.ReferenceTo {
+			if r == msg {
+				return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, msg.Reference)
+			}
+		}
 		msg.ReferenceTo = refTo
 	}
 
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index b5681ad..1e1dc30 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -1,6 +1,7 @@
 package asyncapiv2
 
 import (
+	"fmt"
 	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
@@ -137,6 +138,12 @@ func (s *Schema) setDependencies(spec Specification) error {
 		if err != nil {
 			return err
 		}
+		// Check that this is not a circular reference
+		for r := refTo; r != nil; r = r.ReferenceTo {
+			if r == s {
+				return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, s.Reference)
+			}
+		}
 		s.ReferenceTo = refTo
 		s.setValidationsFromReferenced(refTo)
 	}
@@ -514,7 +521,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-		return s.ReferenceTo
+		return s.ReferenceTo.Follow()
 	}
 	return s
 }
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 4cc8a3e..ae52b84 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -180,6 +180,13 @@ func (msg *Message) setReference(spec Specification) error {
 	if err != nil {
 		return err
 	}
+
+	// Check that this is not a circular reference
+	for r := refMsg; r != nil; r = r.ReferenceTo {
+		if r == msg {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, msg.Reference)
+		}
+	}
 	msg.ReferenceTo = refMsg
 
 	return nil
@@ -504,7 +511,7 @@ func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) er
 // Follow returns referenced message if specified or the actual message.
 func (msg *Message) Follow() *Message {
 	if msg.ReferenceTo != nil {
-		return msg.ReferenceTo
+		return msg.ReferenceTo.Follow()
 	}
 	return msg
 }
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index c3b0c01..7d90da1 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -1,6 +1,7 @@
 package asyncapiv3
 
 import (
+	"fmt"
 	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
@@ -323,6 +324,12 @@ func (s *Schema) setReference(spec Specification) error {
 	if err != nil {
 		return err
 	}
+	// Check that this is not a circular reference
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == s {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, s.Reference)
+		}
+	}
 	s.ReferenceTo = refTo
 	s.Validations.Merge(refTo.Validations)
 
@@ -513,7 +520,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-		return s.ReferenceTo
+		return s.ReferenceTo.Follow()
 	}
 	return s
 }
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 90a8754..a1bad63 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -48,7 +48,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{/* Get payload by reference, or not*/}}
     {{- $payload := .Payload}}
     {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
+    {{- $payload = .Payload.Follow }}
     {{- end}}
 
     {{- /* Handle payload based on type */}}
@@ -106,7 +106,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.ReferenceTo.Name }}(payload)
+            msg.Payload = {{ .Payload.Follow.Name }}(payload)
         {{- else}}
             msg.Payload = payload // No need for type conversion to reference
         {{- end}}
@@ -120,7 +120,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- /* Get headers by reference, or not*/}}
             {{- $headerProperties := .Headers.Properties}}
             {{- if .Headers.Reference }}
-                {{- $headerProperties = .Headers.ReferenceTo.Properties}}
+                {{- $headerProperties = .Headers.Follow.Properties}}
             {{- end}}
 
             {{- /* For each header */}}
@@ -170,7 +170,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{/* Get payload by reference, or not*/}}
     {{- $payload := .Payload}}
     {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
+    {{- $payload = .Payload.Follow }}
     {{- end}}
 
     {{/* Handle payload based on type */}}
@@ -216,7 +216,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- /* Get headers by reference, or not*/}}
         {{- $headerProperties := .Headers.Properties}}
         {{if .Headers.Reference }}
-            {{- $headerProperties = .Headers.ReferenceTo.Properties}}
+            {{- $headerProperties = .Headers.Follow.Properties}}
         {{- end -}}
 
         // Add each headers to broker message
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 63f2de6..eb1f799 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -57,7 +57,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{/* Get payload by reference, or not*/}}
     {{- $payload := .Payload}}
     {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
+    {{- $payload = .Payload.Follow }}
     {{- end}}
 
     {{- /* Handle payload based on type */}}
@@ -129,7 +129,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- /* Get headers by reference, or not*/}}
             {{- $headerProperties := .Headers.Properties}}
             {{- if .Headers.Reference }}
-                {{- $headerProperties = .Headers.ReferenceTo.Properties}}
+                {{- $headerProperties = .Headers.Follow.Properties}}
             {{- end}}
 
             {{- /* For each header */}}
@@ -179,7 +179,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{/* Get payload by reference, or not*/}}
     {{- $payload := .Payload}}
     {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
+    {{- $payload = .Payload.Follow }}
     {{- end}}
 
     {{/* Handle payload based on type */}}
@@ -226,7 +226,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- /* Get headers by reference, or not*/}}
         {{- $headerProperties := .Headers.Properties}}
         {{if .Headers.Reference }}
-            {{- $headerProperties = .Headers.ReferenceTo.Properties}}
+            {{- $headerProperties = .Headers.Follow.Properties}}
         {{- end -}}
 
         // Add each headers to broker message
-- 
2.43.0


From 0349d3c921d1cd3dd38029ec843ef6bf6775e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 024/106] fix: marshal and unmarshal additional properties of
 any type

---
 .../marshaling/additional_properties.tmpl     | 32 +++++++++++++++----
 .../marshaling/additional_properties.tmpl     | 14 ++++++--
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index 314980c..7bdc3f4 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -13,10 +13,26 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     // Remove the end of the json (i.e. '}')
     b = b[:len(b)-1]
 
-    // Add additional properties
-    for k, v := range t.AdditionalProperties {
-        b = append(b,[]byte(fmt.Sprintf(",%q:%q", k, v))...)
-    }
+	// When there are no properties, we cant start with a separator
+	needSeparator := len(b) > 1
+
+	// Add additional properties
+	for k, v := range t.AdditionalProperties {
+    	if needSeparator {
+    	    b = append(b, ',')
+    	}
+    	needSeparator = true
+	
+    	vBytes, err := json.Marshal(v)
+    	if err != nil {
+    	    return nil, err
+    	}
+    	kBytes, err := json.Marshal(k)
+    	if err != nil {
+    	    return nil, err
+    	}
+    	b = append(b, fmt.Sprintf("%s:%s", kBytes, vBytes)...)
+	}
 
     // Close JSON and return
     return append(b, []byte("}")...) , nil
@@ -27,7 +43,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     type alias {{ .Name }}
 
     // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
@@ -49,7 +65,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
                     continue
             {{ end -}}
         default:
-            t.AdditionalProperties[k] = v
+            var value {{template "schema-name" .AdditionalProperties}}
+            if err := json.Unmarshal(v, &value);  err != nil {
+                return err
+            }
+            t.AdditionalProperties[k] = value
         }
     }
 
diff --git a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
index d520a29..7bdc3f4 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
@@ -27,7 +27,11 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     	if err != nil {
     	    return nil, err
     	}
-    	b = append(b, fmt.Sprintf("%q:%s", k, vBytes)...)
+    	kBytes, err := json.Marshal(k)
+    	if err != nil {
+    	    return nil, err
+    	}
+    	b = append(b, fmt.Sprintf("%s:%s", kBytes, vBytes)...)
 	}
 
     // Close JSON and return
@@ -39,7 +43,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     type alias {{ .Name }}
 
     // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
@@ -61,7 +65,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
                     continue
             {{ end -}}
         default:
-            t.AdditionalProperties[k] = v
+            var value {{template "schema-name" .AdditionalProperties}}
+            if err := json.Unmarshal(v, &value);  err != nil {
+                return err
+            }
+            t.AdditionalProperties[k] = value
         }
     }
 
-- 
2.43.0


From 88d4377545c1f7a58fdc5090aef8e2db296c4bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 025/106] fix: do not define again the objects in the arrays of
 merged references

---
 pkg/asyncapi/v2/schema.go | 31 +++++++++++++++++++++----------
 pkg/asyncapi/v3/schema.go | 31 +++++++++++++++++++++----------
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 1e1dc30..0556ae9 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -500,16 +500,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		}
 
 		// Add the property
-		if v.Type == "object" {
-			s.Properties[k] = &Schema{
-				Validations: asyncapi.Validations[Schema]{
-					IsRequired: v.IsRequired,
-				},
-				ReferenceTo: v,
-			}
-		} else {
-			s.Properties[k] = v
-		}
+		s.Properties[k] = v.referenceObjects()
 
 		// Add to required if it is required
 		if v.IsRequired {
@@ -518,6 +509,26 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 	}
 }
 
+// referenceObjects returns a schema that is the same as this one, except that it
+// references the objects that it contains, in order to not define them again.
+func (s *Schema) referenceObjects() *Schema {
+	switch {
+	case s.Type == SchemaTypeIsObject.String():
+		return &Schema{
+			Validations: asyncapi.Validations[Schema]{
+				IsRequired: s.IsRequired,
+			},
+			ReferenceTo: s,
+		}
+	case s.Type == SchemaTypeIsArray.String() && s.Items != nil:
+		array := *s
+		array.Items = s.Items.referenceObjects()
+		return &array
+	default:
+		return s
+	}
+}
+
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 7d90da1..44824e1 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -499,16 +499,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		}
 
 		// Add the property
-		if v.Type == "object" {
-			s.Properties[k] = &Schema{
-				Validations: asyncapi.Validations[Schema]{
-					IsRequired: v.IsRequired,
-				},
-				ReferenceTo: v,
-			}
-		} else {
-			s.Properties[k] = v
-		}
+		s.Properties[k] = v.referenceObjects()
 
 		// Add to required if it is required
 		if v.IsRequired {
@@ -517,6 +508,26 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 	}
 }
 
+// referenceObjects returns a schema that is the same as this one, except that it
+// references the objects that it contains, in order to not define them again.
+func (s *Schema) referenceObjects() *Schema {
+	switch {
+	case s.Type == SchemaTypeIsObject.String():
+		return &Schema{
+			Validations: asyncapi.Validations[Schema]{
+				IsRequired: s.IsRequired,
+			},
+			ReferenceTo: s,
+		}
+	case s.Type == SchemaTypeIsArray.String() && s.Items != nil:
+		array := *s
+		array.Items = s.Items.referenceObjects()
+		return &array
+	default:
+		return s
+	}
+}
+
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-- 
2.43.0


From c4b1f40854687d5eab511d24afacb384085360ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 026/106] fix: apply the payload of message traits on the
 payload

---
 pkg/asyncapi/v3/message.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index ae52b84..fe07aa2 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -297,6 +297,9 @@ func (msg *Message) setTraitsDependencies(spec Specification) error {
 		if err := t.setDependencies(spec); err != nil {
 			return err
 		}
+		if err := t.Follow().setDependencies(spec); err != nil {
+			return err
+		}
 		if err := msg.ApplyTrait(t.Follow(), spec); err != nil {
 			return err
 		}
@@ -614,7 +617,7 @@ func (msg *Message) mergePayload(spec Specification, payload *Schema) error {
 	}
 
 	// Merge payload
-	return msg.Headers.MergeWith(spec, *payload)
+	return msg.Payload.MergeWith(spec, *payload)
 }
 
 // HaveCorrelationID check that the message have a correlation ID.
-- 
2.43.0


From cb60506cbc58ba43890ad19751e840158b52d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 027/106] fix: settle messages whose error has been handled by
 a middleware

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 4 ++++
 pkg/codegen/generators/v3/templates/controller.tmpl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 561bd84..93745ae 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -271,6 +271,10 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
         acknowledgeableBrokerMessage.Nak()
     }
 
+    // Acknowledge the message if it has not been settled yet, as it happens when
+    // a middleware has handled the error of the subscription function
+    acknowledgeableBrokerMessage.Ack()
+
     return false, nil
 }
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index fc7621f..63f0420 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -277,6 +277,10 @@ func (c *{{ $.Prefix }}Controller) listenTo{{ namify $value.Follow.Name }}NextMe
         acknowledgeableBrokerMessage.Nak()
     }
 
+    // Acknowledge the message if it has not been settled yet, as it happens when
+    // a middleware has handled the error of the subscription function
+    acknowledgeableBrokerMessage.Ack()
+
     return false, nil
 }
 
-- 
2.43.0


From 7ee2b757dfe92454f7bbec52a6e4ea583c3af66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 028/106] fix: settle a message only once, even when settled
 concurrently

---
 pkg/extensions/broker.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/extensions/broker.go b/pkg/extensions/broker.go
index 369fea6..f2f5b1d 100644
--- a/pkg/extensions/broker.go
+++ b/pkg/extensions/broker.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"sync"
+	"sync/atomic"
 )
 
 // BrokerChannelSubscription is a struct that contains every returned structures
@@ -139,7 +140,7 @@ func (bm BrokerMessage) String() string {
 type AcknowledgeableBrokerMessage struct {
 	BrokerMessage
 
-	acked          bool
+	acked          *atomic.Bool
 	acknowledgment BrokerAcknowledgment
 }
 
@@ -149,24 +150,26 @@ func NewAcknowledgeableBrokerMessage(
 	bm BrokerMessage,
 	acknowledgment BrokerAcknowledgment,
 ) AcknowledgeableBrokerMessage {
-	return AcknowledgeableBrokerMessage{BrokerMessage: bm, acknowledgment: acknowledgment}
+	return AcknowledgeableBrokerMessage{
+		BrokerMessage:  bm,
+		acked:          &atomic.Bool{},
+		acknowledgment: acknowledgment,
+	}
 }
 
 // Ack will call the AckMessage of the underlying BrokerAcknowledgment
 // implementation if the message was not already acked.
 func (bm *AcknowledgeableBrokerMessage) Ack() {
-	if !bm.acked {
+	if bm.acked.CompareAndSwap(false, true) {
 		bm.acknowledgment.AckMessage()
-		bm.acked = true
 	}
 }
 
 // Nak will call the NakMessage of the underlying BrokerAcknowledgment
 // implementation if the message was not already acked.
 func (bm *AcknowledgeableBrokerMessage) Nak() {
-	if !bm.acked {
+	if bm.acked.CompareAndSwap(false, true) {
 		bm.acknowledgment.NakMessage()
-		bm.acked = true
 	}
 }
 
-- 
2.43.0


From 6f10d734c3ef5562551ad2733aa71a4e0e61a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 029/106] fix: do not write in the key-values given to the
 loggers

---
 pkg/extensions/loggers/ecs.go  | 5 +++--
 pkg/extensions/loggers/text.go | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/loggers/ecs.go b/pkg/extensions/loggers/ecs.go
index 8450f46..50af3b9 100644
--- a/pkg/extensions/loggers/ecs.go
+++ b/pkg/extensions/loggers/ecs.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"slices"
 	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -74,8 +75,8 @@ func (ecs ECS) formatLog(ctx context.Context, msg string, info ...extensions.Log
 }
 
 func (ecs ECS) logWithLevel(ctx context.Context, level string, msg string, info ...extensions.LogInfo) {
-	// Add additional keys
-	info = append(info, extensions.LogInfo{Key: "log.level", Value: level})
+	// Add additional keys, without writing in the slice of the caller
+	info = append(slices.Clip(info), extensions.LogInfo{Key: "log.level", Value: level})
 
 	// Print log
 	fmt.Println(ecs.formatLog(ctx, msg, info...))
diff --git a/pkg/extensions/loggers/text.go b/pkg/extensions/loggers/text.go
index cde8e9f..27cea67 100644
--- a/pkg/extensions/loggers/text.go
+++ b/pkg/extensions/loggers/text.go
@@ -3,6 +3,7 @@ package loggers
 import (
 	"context"
 	"fmt"
+	"slices"
 	"strings"
 	"time"
 
@@ -68,6 +69,9 @@ func (tl Text) humanizeStructuredLogs(sl map[string]any, msgFmt *color.Color, pr
 }
 
 func (tl Text) setInfoFromContext(ctx context.Context, msg string, info ...extensions.LogInfo) []extensions.LogInfo {
+	// Do not write in the slice of the caller
+	info = slices.Clip(info)
+
 	// Add additional keys from context
 	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsChannel, func(value any) {
 		info = append(info, extensions.LogInfo{Key: "Channel", Value: value})
-- 
2.43.0


From b74195d59c33c65829bebccec326e47ab76e0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 030/106] fix: follow references to a referenced channel or
 message trait

A channel that references components/channels could not be used by an
operation, as only one level of references was followed, and the types of
the referenced channel were not generated.
---
 pkg/asyncapi/v3/channel.go                     |  9 ++++++++-
 pkg/asyncapi/v3/message_trait.go               | 11 ++++++++++-
 pkg/codegen/generators/v3/templates/types.tmpl |  9 +++++----
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 7e27d0d..7bd6105 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -139,6 +139,13 @@ func (ch *Channel) setReference(spec Specification) error {
 	if err != nil {
 		return err
 	}
+
+	// Check that this is not a circular reference
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == ch {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, ch.Reference)
+		}
+	}
 	ch.ReferenceTo = refTo
 
 	return nil
@@ -147,7 +154,7 @@ func (ch *Channel) setReference(spec Specification) error {
 // Follow returns referenced channel if specified or the actual channel.
 func (ch *Channel) Follow() *Channel {
 	if ch.ReferenceTo != nil {
-		return ch.ReferenceTo
+		return ch.ReferenceTo.Follow()
 	}
 	return ch
 }
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index 821a2ef..a8ea1ac 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // MessageTrait is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#messageTraitObject
@@ -129,6 +131,13 @@ func (mt *MessageTrait) setReference(spec Specification) error {
 	if err != nil {
 		return err
 	}
+
+	// Check that this is not a circular reference
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == mt {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, mt.Reference)
+		}
+	}
 	mt.ReferenceTo = refTo
 
 	return nil
@@ -137,7 +146,7 @@ func (mt *MessageTrait) setReference(spec Specification) error {
 // Follow returns referenced MessageTrait if specified or the actual MessageTrait.
 func (mt *MessageTrait) Follow() *MessageTrait {
 	if mt.ReferenceTo != nil {
-		return mt.ReferenceTo
+		return mt.ReferenceTo.Follow()
 	}
 	return mt
 }
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index ec1c881..f7c7125 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -58,12 +58,13 @@ func (e *Error) Error() string {
     return fmt.Sprintf("channel %q: err %v", e.Channel, e.Err)
 }
 
-{{range $key, $value := .Channels -}}
+{{range $key, $channel := .Channels -}}
+{{- $value := $channel.Follow -}}
 
 {{- if $value.Parameters -}}
-// {{ namifyWithoutParam .Name }}Parameters represents {{ namify .Name }} channel parameters
-type {{ namifyWithoutParam .Name }}Parameters struct {
-{{- range $key, $value := .Parameters}}
+// {{ namifyWithoutParam $value.Name }}Parameters represents {{ namify $value.Name }} channel parameters
+type {{ namifyWithoutParam $value.Name }}Parameters struct {
+{{- range $key, $value := $value.Parameters}}
     // {{ namify $key }} is a channel parameter {{- if $value.Description}}: {{multiLineComment $value.Description}}{{else}}.{{- end}}
     {{ namify $key }} string
 {{- end}}
-- 
2.43.0


From 10c9ec7aa93140fd434f61b244e89c61cbdfa30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 031/106] fix: escape the values of the validate tags

Enumerations and constants with quotes, backslashes, commas or pipes gave
code that doesn't compile or tags that are misread, and big bounds were
given with an exponent, that the validator refuses on integers.
---
 pkg/codegen/generators/helpers.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/codegen/generators/helpers.go b/pkg/codegen/generators/helpers.go
index 7617e01..71b2127 100644
--- a/pkg/codegen/generators/helpers.go
+++ b/pkg/codegen/generators/helpers.go
@@ -2,6 +2,7 @@ package generators
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
@@ -10,7 +11,8 @@ import (
 
 func appendDirectiveIfDefined(directives []string, tagName string, value float64) []string {
 	if value != 0 {
-		return append(directives, fmt.Sprintf("%s=%g", tagName, value))
+		// No exponent, as it is not supported on integers by the validator
+		return append(directives, tagName+"="+strconv.FormatFloat(value, 'f', -1, 64))
 	}
 	return directives
 }
@@ -59,7 +61,7 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 	if schema.Const != nil {
 		if cStr, ok := schema.Const.(string); ok {
 			// Only generate enum if the elements is a string, otherwise this is unsupported
-			directives = append(directives, fmt.Sprintf("eq=%s", cStr))
+			directives = append(directives, fmt.Sprintf("eq=%s", escapeDirectiveValue(cStr)))
 		}
 	}
 
@@ -68,7 +70,7 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 			directives = append([]string{"omitempty"}, directives...)
 		}
 
-		return fmt.Sprintf(" validate:\"%s\"", strings.Join(directives, ","))
+		return " validate:" + quoteTagValue(strings.Join(directives, ","))
 	} else {
 		return ""
 	}
@@ -79,13 +81,23 @@ func singleQuote(s string) string {
 	return "'" + s + "'"
 }
 
+// escapeDirectiveValue escapes the separators of the validator directives.
+func escapeDirectiveValue(s string) string {
+	return strings.NewReplacer(",", "0x2C", "|", "0x7C").Replace(s)
+}
+
+// quoteTagValue quotes the value of a tag, that will be placed between backquotes.
+func quoteTagValue(s string) string {
+	return strings.ReplaceAll(strconv.Quote(s), "`", `\x60`)
+}
+
 func appendEnumDirectives[T any](schema asyncapi.Validations[T], directives []string) []string {
 	if len(schema.Enum) > 0 {
 		var enumsStr []string
 		for _, e := range schema.Enum {
 			if eStr, ok := e.(string); ok {
 				// single quotes are mandatory in order to handle values with spaces
-				enumsStr = append(enumsStr, singleQuote(eStr))
+				enumsStr = append(enumsStr, singleQuote(escapeDirectiveValue(eStr)))
 			}
 		}
 
-- 
2.43.0


From 0667b9801ed5caba3cfc8f38f51e9678f412e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 032/106] fix: several required headers that are not strings

The code of each of them declared the same variables in the same scope,
and a header required by the list of its parent only was compared to nil.
---
 pkg/codegen/generators/v2/templates/message.tmpl | 9 +++++----
 pkg/codegen/generators/v3/templates/message.tmpl | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index a1bad63..600779e 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -231,12 +231,15 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             {{- if isFieldPointer $headers $key $value }}
                 {{- $dereferenceOp = "*" }}
             {{- end }}
-            {{- if not $value.IsRequired }}
+            {{- if not (or $value.IsRequired (isRequired $headers $key)) }}
                 if msg.Headers.{{namify $key}} != nil {
-            {{- else if $dereferenceOp }}
+            {{- else }}
+                {{- if $dereferenceOp }}
                 if msg.Headers.{{ namify $key}} == nil {
                     return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
                 }
+                {{- end }}
+                {
             {{- end }}
             {{- if ne $header.Type "string" }}
                 {{- /* Anything else than a string is in JSON */}}
@@ -252,9 +255,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             {{- else }}
                 headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
             {{- end }}
-            {{- if not $value.IsRequired }}
                 }
-            {{- end }}
         {{- end}}
         {{ else -}}
         // There is no headers here
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index eb1f799..92194b7 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -241,12 +241,15 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             {{- if isFieldPointer $headers $key $value }}
                 {{- $dereferenceOp = "*" }}
             {{- end }}
-            {{- if not $value.IsRequired }}
+            {{- if not (or $value.IsRequired (isRequired $headers $key)) }}
                 if msg.Headers.{{namify $key}} != nil {
-            {{- else if $dereferenceOp }}
+            {{- else }}
+                {{- if $dereferenceOp }}
                 if msg.Headers.{{ namify $key}} == nil {
                     return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
                 }
+                {{- end }}
+                {
             {{- end }}
             {{- if ne $header.Type "string" }}
                 {{- /* Anything else than a string is in JSON */}}
@@ -262,9 +265,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             {{- else }}
                 headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
             {{- end }}
-            {{- if not $value.IsRequired }}
                 }
-            {{- end }}
         {{- end}}
         {{ else -}}
         // There is no headers here
-- 
2.43.0


From 972ca379de0c0a00d203ba76de68d56e547836cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 033/106] fix: parameters by reference or without schema

In AsyncAPI v2, the field of a referenced parameter got the name of the
component instead of the one used to build the path of the channel, and
parameters without schema didn't get any field.
---
 pkg/asyncapi/v2/parameter.go                  | 26 ++++++++++++++++++-
 .../generators/v2/templates/parameter.tmpl    | 14 +++-------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index 06d387e..4c3f793 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -1,6 +1,10 @@
 package asyncapiv2
 
-import "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
+import (
+	"fmt"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
+)
 
 // Parameter is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
@@ -33,8 +37,28 @@ func (p *Parameter) setDependencies(spec Specification) error {
 		if err != nil {
 			return err
 		}
+
+		// Check that this is not a circular reference
+		for r := refTo; r != nil; r = r.ReferenceTo {
+			if r == p {
+				return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, p.Reference)
+			}
+		}
 		p.ReferenceTo = refTo
 	}
 
+	// Set schema dependencies
+	if p.Schema != nil {
+		return p.Schema.setDependencies(spec)
+	}
+
 	return nil
 }
+
+// Follow returns referenced parameter if specified or the actual parameter.
+func (p *Parameter) Follow() *Parameter {
+	if p.ReferenceTo != nil {
+		return p.ReferenceTo.Follow()
+	}
+	return p
+}
diff --git a/pkg/codegen/generators/v2/templates/parameter.tmpl b/pkg/codegen/generators/v2/templates/parameter.tmpl
index f714ad4..eec771d 100644
--- a/pkg/codegen/generators/v2/templates/parameter.tmpl
+++ b/pkg/codegen/generators/v2/templates/parameter.tmpl
@@ -1,16 +1,10 @@
 {{define "parameter"}}
 
-{{- if $.Description}}
-// Description: {{multiLineComment $.Description}}
+{{- if $.Follow.Description}}
+// Description: {{multiLineComment $.Follow.Description}}
 {{- end}}
 
-{{- /* Set parameter if defined */}}
-{{- if .Schema}}
-{{namify $.Name }} {{template "schema-name" $.Schema}}
-
-{{- /* Set parameter from reference if defined */}}
-{{- else if .ReferenceTo }}
-{{- template "parameter" $.ReferenceTo}}
-{{end -}}
+{{- /* Set parameter type if defined, a string otherwise */}}
+{{namify $.Name }} {{if .Follow.Schema}}{{template "schema-name" $.Follow.Schema}}{{else}}string{{end}}
 
 {{- end}}
-- 
2.43.0


From e4a77697fe7f75cfb249c3072d9147681babea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:30 +0000
Subject: [PATCH 034/106] fix: messages of the components that reference
 another one

In AsyncAPI v2, the generation failed on them.
---
 pkg/codegen/generators/v2/templates/types.tmpl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index 6c90a21..c90993d 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -79,7 +79,10 @@ type {{ namifyWithoutParam $key }}Parameters struct {
 {{- end}}
 
 {{range $key, $value := .Components.Messages}}
+{{- /* The referenced messages are generated on their own */}}
+{{- if not $value.ReferenceTo}}
 {{template "message" $value}}
+{{- end}}
 {{end}}
 
 {{range $key, $value := .Components.Schemas}}
-- 
2.43.0


From b334a24804a18b62862bb6c71b2d9f41f9460933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 035/106] fix: missing correlation ID in a schema behind
 several references

---
 pkg/asyncapi/v2/message.go | 2 +-
 pkg/asyncapi/v3/message.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 98b37a4..380095e 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -269,7 +269,7 @@ func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField)
 	switch {
 	case (*placeholder) != nil && (*placeholder).ReferenceTo != nil: // If there is a reference
 		// Use it as child
-		child = (*placeholder).ReferenceTo
+		child = (*placeholder).Follow()
 	case (*placeholder) == nil: // If there is no header and no reference
 		// Create a default one for the message
 		(*placeholder) = utils.ToPointer(NewSchema())
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index fe07aa2..9a6fc4c 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -357,7 +357,7 @@ func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, locat
 	switch {
 	case (*placeholder) != nil && (*placeholder).ReferenceTo != nil: // If there is a reference
 		// Use it as child
-		child = (*placeholder).ReferenceTo
+		child = (*placeholder).Follow()
 	case (*placeholder) == nil: // If there is no header and no reference
 		// Create a default one for the message
 		(*placeholder) = utils.ToPointer(NewSchema())
-- 
2.43.0


From 2dc540e5edfebca8837dc28814af2ae2d7fb87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 036/106] fix: schemas of a trait defined several times

The objects inside the headers and payload of a message trait were shared
by the messages that use the trait, with the schemas components too, and
the same type was generated several times.
---
 pkg/asyncapi/v3/message.go | 30 +++++++++++++----------
 pkg/asyncapi/v3/schema.go  | 49 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 67 insertions(+), 12 deletions(-)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 9a6fc4c..61f1fc6 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -588,16 +588,19 @@ func (msg *Message) mergeHeaders(spec Specification, headers *Schema) error {
 
 	// Check if message headers are nil, then create them
 	if msg.Headers == nil {
-		newHeaders := utils.ToValue(headers.Follow())
-		msg.Headers = &newHeaders
-		if err := newHeaders.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
+		msg.Headers = headers.Follow().clone()
+		if err := msg.Headers.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
 			return err
 		}
-		return newHeaders.setDependencies(spec)
+		return msg.Headers.setDependencies(spec)
 	}
 
-	// Merge headers
-	return msg.Headers.MergeWith(spec, *headers)
+	// Merge headers, without defining the schemas of the trait several times
+	cloned := headers.clone()
+	if err := cloned.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
+		return err
+	}
+	return msg.Headers.MergeWith(spec, *cloned)
 }
 
 func (msg *Message) mergePayload(spec Specification, payload *Schema) error {
@@ -608,16 +611,19 @@ func (msg *Message) mergePayload(spec Specification, payload *Schema) error {
 
 	// Check if message payload is nil, then create them
 	if msg.Payload == nil {
-		newPayload := utils.ToValue(payload.Follow())
-		msg.Payload = &newPayload
-		if err := newPayload.generateMetadata(msg.Name, "Payload", nil, false); err != nil {
+		msg.Payload = payload.Follow().clone()
+		if err := msg.Payload.generateMetadata(msg.Name, "Payload", nil, false); err != nil {
 			return err
 		}
-		return newPayload.setDependencies(spec)
+		return msg.Payload.setDependencies(spec)
 	}
 
-	// Merge payload
-	return msg.Payload.MergeWith(spec, *payload)
+	// Merge payload, without defining the schemas of the trait several times
+	cloned := payload.clone()
+	if err := cloned.generateMetadata(msg.Name, "Payload", nil, false); err != nil {
+		return err
+	}
+	return msg.Payload.MergeWith(spec, *cloned)
 }
 
 // HaveCorrelationID check that the message have a correlation ID.
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 44824e1..12f6d9b 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -528,6 +528,55 @@ func (s *Schema) referenceObjects() *Schema {
 	}
 }
 
+// clone returns a copy of the schema and of the ones that it contains, in order to
+// define them again elsewhere. The referenced schemas are not copied.
+func (s *Schema) clone() *Schema {
+	if s == nil {
+		return nil
+	}
+
+	c := *s
+	c.Properties = cloneSchemasMap(s.Properties)
+	c.PatternProperties = cloneSchemasMap(s.PatternProperties)
+	c.AdditionalProperties = s.AdditionalProperties.clone()
+	c.AdditionalItems = cloneSchemas(s.AdditionalItems)
+	c.Items = s.Items.clone()
+	c.Contains = cloneSchemas(s.Contains)
+	c.AnyOf = cloneSchemas(s.AnyOf)
+	c.OneOf = cloneSchemas(s.OneOf)
+	c.AllOf = cloneSchemas(s.AllOf)
+	c.Not = s.Not.clone()
+	c.Required = append([]string(nil), s.Required...)
+
+	return &c
+}
+
+func cloneSchemas(schemas []*Schema) []*Schema {
+	if schemas == nil {
+		return nil
+	}
+
+	cloned := make([]*Schema, 0, len(schemas))
+	for _, s := range schemas {
+		cloned = append(cloned, s.clone())
+	}
+
+	return cloned
+}
+
+func cloneSchemasMap(schemas map[string]*Schema) map[string]*Schema {
+	if schemas == nil {
+		return nil
+	}
+
+	cloned := make(map[string]*Schema, len(schemas))
+	for name, s := range schemas {
+		cloned[name] = s.clone()
+	}
+
+	return cloned
+}
+
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-- 
2.43.0


From 1207e9a0effcd75c2a4e8882d419a4890591109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 037/106] fix: reference to a schema that is itself a reference

What was got from the final schema depended on the order in which the
schemas are processed.
---
 pkg/asyncapi/v2/schema.go | 46 ++++++++++++++++++++++++++++-----------
 pkg/asyncapi/v3/schema.go | 14 ++++++++++--
 2 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 0556ae9..87afc7a 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -133,19 +133,8 @@ func (s *Schema) setDependencies(spec Specification) error {
 	s.dependenciesSet = true
 
 	// Reference to another schema if specified
-	if s.Reference != "" {
-		refTo, err := spec.ReferenceSchema(s.Reference)
-		if err != nil {
-			return err
-		}
-		// Check that this is not a circular reference
-		for r := refTo; r != nil; r = r.ReferenceTo {
-			if r == s {
-				return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, s.Reference)
-			}
-		}
-		s.ReferenceTo = refTo
-		s.setValidationsFromReferenced(refTo)
+	if err := s.setReference(spec); err != nil {
+		return err
 	}
 
 	// Set properties dependencies
@@ -337,6 +326,37 @@ func (s *Schema) setAdditionalPropertiesDependencies(spec Specification) error {
 	return nil
 }
 
+func (s *Schema) setReference(spec Specification) error {
+	// Do it only once, as it is also done from the schemas that reference this one
+	if s.Reference == "" || s.ReferenceTo != nil {
+		return nil
+	}
+
+	refTo, err := spec.ReferenceSchema(s.Reference)
+	if err != nil {
+		return err
+	}
+	s.ReferenceTo = refTo
+
+	// Set the reference of the referenced schema, if there is one
+	// NOTE: this is already done for the schemas from the other specifications
+	if strings.HasPrefix(s.Reference, "#") {
+		if err := refTo.setReference(spec); err != nil {
+			return err
+		}
+	}
+
+	// Check that this is not a circular reference
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == s {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, s.Reference)
+		}
+	}
+	s.setValidationsFromReferenced(refTo)
+
+	return nil
+}
+
 // setReferencedDependencies sets the dependencies of the referenced schema, if there
 // is one, in order to get it in its final form.
 func (s *Schema) setReferencedDependencies(spec Specification) error {
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 12f6d9b..6af3cd5 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -315,7 +315,8 @@ func (s *Schema) setAnyOfDependenciesAndMerge(spec Specification) error {
 }
 
 func (s *Schema) setReference(spec Specification) error {
-	if s.Reference == "" {
+	// Do it only once, as it is also done from the schemas that reference this one
+	if s.Reference == "" || s.ReferenceTo != nil {
 		return nil
 	}
 
@@ -324,13 +325,22 @@ func (s *Schema) setReference(spec Specification) error {
 	if err != nil {
 		return err
 	}
+	s.ReferenceTo = refTo
+
+	// Set the reference of the referenced schema, if there is one
+	// NOTE: this is already done for the schemas from the other specifications
+	if strings.HasPrefix(s.Reference, "#") {
+		if err := refTo.setReference(spec); err != nil {
+			return err
+		}
+	}
+
 	// Check that this is not a circular reference
 	for r := refTo; r != nil; r = r.ReferenceTo {
 		if r == s {
 			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, s.Reference)
 		}
 	}
-	s.ReferenceTo = refTo
 	s.Validations.Merge(refTo.Validations)
 
 	return nil
-- 
2.43.0


From 7d6f51fe4801f6897f4fb0b4d0fa1007fc9f2975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 038/106] fix: percent signs in channel addresses with
 parameters

---
 pkg/codegen/generators/v2/templates/helpers.go | 2 +-
 pkg/codegen/generators/v3/templates/helpers.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 50f0378..b2d8a3e 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -115,7 +115,7 @@ func GenerateChannelPath(ch asyncapi.Channel) string {
 	parameterRegexp := regexp.MustCompile("{[^{}]*}")
 
 	matches := parameterRegexp.FindAllString(ch.Path, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Path, "%v")
+	format := parameterRegexp.ReplaceAllString(strings.ReplaceAll(ch.Path, "%", "%%"), "%v")
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index a653001..28899fc 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -118,7 +118,7 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	parameterRegexp := regexp.MustCompile("{[^{}]*}")
 
 	matches := parameterRegexp.FindAllString(ch.Address, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Address, "%s")
+	format := parameterRegexp.ReplaceAllString(strings.ReplaceAll(ch.Address, "%", "%%"), "%s")
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
-- 
2.43.0


From 025f736bdbde1b4dbf2eef8240f309b16cd03821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 039/106] fix: compositions and headers with references to
 references

---
 pkg/asyncapi/v2/schema.go | 9 +++++++--
 pkg/asyncapi/v3/schema.go | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 87afc7a..b361286 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -365,10 +365,10 @@ func (s *Schema) setReferencedDependencies(spec Specification) error {
 		return nil
 	}
 
-	if err := s.ReferenceTo.setDependencies(spec); err != nil {
+	if err := s.Follow().setDependencies(spec); err != nil {
 		return err
 	}
-	s.setValidationsFromReferenced(s.ReferenceTo)
+	s.setValidationsFromReferenced(s.Follow())
 
 	return nil
 }
@@ -395,6 +395,11 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 
 	s.Type = SchemaTypeIsObject.String()
 
+	// Get the final schema if this is a reference to another reference
+	if s2.ReferenceTo != nil {
+		s2.ReferenceTo = s2.ReferenceTo.Follow()
+	}
+
 	// Merge with other fields
 	s.mergeWithSchemaAllOf(s2)
 	s.mergeWithSchemaAnyOf(s2)
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 6af3cd5..8ee5cef 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -354,10 +354,10 @@ func (s *Schema) setReferencedDependencies(spec Specification) error {
 		return nil
 	}
 
-	if err := s.ReferenceTo.setDependencies(spec); err != nil {
+	if err := s.Follow().setDependencies(spec); err != nil {
 		return err
 	}
-	s.Validations.Merge(s.ReferenceTo.Validations)
+	s.Validations.Merge(s.Follow().Validations)
 
 	return nil
 }
@@ -384,6 +384,11 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 
 	s.Type = SchemaTypeIsObject.String()
 
+	// Get the final schema if this is a reference to another reference
+	if s2.ReferenceTo != nil {
+		s2.ReferenceTo = s2.ReferenceTo.Follow()
+	}
+
 	// Merge with other fields
 	s.mergeWithSchemaAllOf(s2)
 	s.mergeWithSchemaAnyOf(s2)
-- 
2.43.0


From 27d4099bb98906b6c63086f86650cbdb06b6a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 040/106] fix: properties required by a composition

When allOf requires a property that is defined by one of its parts, the
property was encoded as an optional one, and omitted when empty.
---
 pkg/asyncapi/v2/schema.go | 16 ++++++++++++++++
 pkg/asyncapi/v3/schema.go | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index b361286..67db2de 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -409,10 +409,26 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 	// Merge requirements
 	s.Required = append(s.Required, s2.Required...)
 	s.Required = utils.RemoveDuplicateFromSlice(s.Required)
+	s.requireProperties()
 
 	return nil
 }
 
+// requireProperties sets as required the properties that are required by this schema
+// but not by the one that defines them.
+func (s *Schema) requireProperties() {
+	for k, p := range s.Properties {
+		if p.IsRequired || !s.IsFieldRequired(k) {
+			continue
+		}
+
+		// Do not change the property of the schema that defines it
+		required := *p
+		required.IsRequired = true
+		s.Properties[k] = &required
+	}
+}
+
 func (s *Schema) mergeWithSchemaAllOf(s2 Schema) {
 	// Return if there are no AllOf to merge
 	if s2.AllOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.AllOf == nil) {
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 8ee5cef..78b8d0a 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -398,10 +398,26 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 	// Merge requirements
 	s.Required = append(s.Required, s2.Required...)
 	s.Required = utils.RemoveDuplicateFromSlice(s.Required)
+	s.requireProperties()
 
 	return nil
 }
 
+// requireProperties sets as required the properties that are required by this schema
+// but not by the one that defines them.
+func (s *Schema) requireProperties() {
+	for k, p := range s.Properties {
+		if p.IsRequired || !s.IsFieldRequired(k) {
+			continue
+		}
+
+		// Do not change the property of the schema that defines it
+		required := *p
+		required.IsRequired = true
+		s.Properties[k] = &required
+	}
+}
+
 func (s *Schema) mergeWithSchemaAllOf(s2 Schema) {
 	// Return if there are no AllOf to merge
 	if s2.AllOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.AllOf == nil) {
-- 
2.43.0


From fc3011834c65563239be57626fb3a8b0a88a7490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:44 +0000
Subject: [PATCH 041/106] fix: make required correlation IDs compile with
 forced pointers

---
 pkg/codegen/generators/v2/templates/helpers.go   | 8 ++++++++
 pkg/codegen/generators/v2/templates/message.tmpl | 8 ++++----
 pkg/codegen/generators/v3/templates/helpers.go   | 8 ++++++++
 pkg/codegen/generators/v3/templates/message.tmpl | 8 ++++----
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index b2d8a3e..32757c1 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -146,11 +146,18 @@ var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
+var isCorrelationIDPointer = func(required bool) bool {
+	return !required
+}
+
 // ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
 func ForcePointerOnFields() {
 	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
 		return schema.Type != "array"
 	}
+	isCorrelationIDPointer = func(required bool) bool {
+		return true
+	}
 }
 
 // HelpersFunctions returns the functions that can be used as helpers
@@ -161,6 +168,7 @@ func HelpersFunctions() template.FuncMap {
 		"channelToMessage":               ChannelToMessage,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
+		"isCorrelationIDPointer":         isCorrelationIDPointer,
 		"generateChannelPath":            GenerateChannelPath,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
 		"operationName":                  OperationName,
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 600779e..16299b4 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -35,7 +35,7 @@ func New{{namify .Name}}() {{namify .Name}} {
     {{if ne $.CorrelationIDLocation "" -}}
     // Set correlation ID
     u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired}}&{{end}}u
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isCorrelationIDPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
     return msg
@@ -271,7 +271,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if ne $.CorrelationIDLocation "" -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
-    {{if $.CorrelationIDRequired -}}
+    {{if not (isCorrelationIDPointer $.CorrelationIDRequired) -}}
         return msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
     {{- else -}}
     if msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} != nil{
@@ -284,7 +284,7 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
@@ -292,7 +292,7 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 {{- end -}}
 {{- end }}
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 28899fc..fae599f 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -132,11 +132,18 @@ var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
+var isCorrelationIDPointer = func(required bool) bool {
+	return !required
+}
+
 // ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
 func ForcePointerOnFields() {
 	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
 		return schema.Type != "array"
 	}
+	isCorrelationIDPointer = func(required bool) bool {
+		return true
+	}
 }
 
 // HelpersFunctions returns the functions that can be used as helpers
@@ -149,6 +156,7 @@ func HelpersFunctions() template.FuncMap {
 		"opToChannelTypeName":            OpToChannelTypeName,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
+		"isCorrelationIDPointer":         isCorrelationIDPointer,
 		"generateChannelAddr":            GenerateChannelAddr,
 		"generateChannelAddrFromOp":      GenerateChannelAddrFromOp,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 92194b7..7620640 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -44,7 +44,7 @@ func New{{namify .Name}}() {{namify .Name}} {
     {{if $.HaveCorrelationID -}}
     // Set correlation ID
     u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired}}&{{end}}u
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isCorrelationIDPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
     return msg
@@ -281,7 +281,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if $.HaveCorrelationID -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
-    {{if $.CorrelationIDRequired -}}
+    {{if not (isCorrelationIDPointer $.CorrelationIDRequired) -}}
         return msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
     {{- else -}}
     if msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} != nil{
@@ -294,7 +294,7 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
@@ -302,7 +302,7 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 {{- end -}}
 
-- 
2.43.0


From 76d12d965b432bdc1a648cd8c7f53587d9a325ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 042/106] fix: require the referenced arrays that are required

---
 pkg/codegen/generators/v2/templates/schema_definition.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/schema_definition.tmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index eab7057..d42e949 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index eab7057..d42e949 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
-- 
2.43.0


From 6bce9e60aecc5dc391f10d414757349cef61c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 043/106] fix: keep the bounds of schemas that are zero

---
 pkg/asyncapi/schema.go            | 20 ++++++++++----------
 pkg/codegen/generators/helpers.go | 14 +++++++++-----
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index b691b5c..1cc6ac1 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -5,11 +5,11 @@ package asyncapi
 type Validations[T any] struct {
 	Required         []string `json:"required"`
 	MultipleOf       []string `json:"multipleOf"`
-	Maximum          float64  `json:"maximum"`
-	ExclusiveMaximum float64  `json:"exclusiveMaximum"`
-	Minimum          float64  `json:"minimum"`
-	ExclusiveMinimum float64  `json:"exclusiveMinimum"`
-	MaxLength        uint     `json:"maxLength"`
+	Maximum          *float64 `json:"maximum"`
+	ExclusiveMaximum *float64 `json:"exclusiveMaximum"`
+	Minimum          *float64 `json:"minimum"`
+	ExclusiveMinimum *float64 `json:"exclusiveMinimum"`
+	MaxLength        *uint    `json:"maxLength"`
 	MinLength        uint     `json:"minLength"`
 	Pattern          string   `json:"pattern"`
 	MaxItems         uint     `json:"maxItems"`
@@ -39,19 +39,19 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 	if len(newV.MultipleOf) > 0 {
 		v.MultipleOf = newV.MultipleOf
 	}
-	if newV.Maximum != 0 {
+	if newV.Maximum != nil {
 		v.Maximum = newV.Maximum
 	}
-	if newV.ExclusiveMaximum != 0 {
+	if newV.ExclusiveMaximum != nil {
 		v.ExclusiveMaximum = newV.ExclusiveMaximum
 	}
-	if newV.Minimum != 0 {
+	if newV.Minimum != nil {
 		v.Minimum = newV.Minimum
 	}
-	if newV.ExclusiveMinimum != 0 {
+	if newV.ExclusiveMinimum != nil {
 		v.ExclusiveMinimum = newV.ExclusiveMinimum
 	}
-	if newV.MaxLength != 0 {
+	if newV.MaxLength != nil {
 		v.MaxLength = newV.MaxLength
 	}
 	if newV.MinLength != 0 {
diff --git a/pkg/codegen/generators/helpers.go b/pkg/codegen/generators/helpers.go
index 71b2127..0ed48f7 100644
--- a/pkg/codegen/generators/helpers.go
+++ b/pkg/codegen/generators/helpers.go
@@ -9,10 +9,10 @@ import (
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
-func appendDirectiveIfDefined(directives []string, tagName string, value float64) []string {
-	if value != 0 {
+func appendDirectiveIfDefined(directives []string, tagName string, value *float64) []string {
+	if value != nil {
 		// No exponent, as it is not supported on integers by the validator
-		return append(directives, tagName+"="+strconv.FormatFloat(value, 'f', -1, 64))
+		return append(directives, tagName+"="+strconv.FormatFloat(*value, 'f', -1, 64))
 	}
 	return directives
 }
@@ -46,8 +46,12 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 		directives = append(directives, "required")
 	}
 
-	directives = appendDirectiveIfDefined(directives, "min", float64(schema.MinLength))
-	directives = appendDirectiveIfDefined(directives, "max", float64(schema.MaxLength))
+	if schema.MinLength != 0 {
+		directives = append(directives, fmt.Sprintf("min=%d", schema.MinLength))
+	}
+	if schema.MaxLength != nil {
+		directives = append(directives, fmt.Sprintf("max=%d", *schema.MaxLength))
+	}
 	directives = appendDirectiveIfDefined(directives, "gte", schema.Minimum)
 	directives = appendDirectiveIfDefined(directives, "lte", schema.Maximum)
 	directives = appendDirectiveIfDefined(directives, "gt", schema.ExclusiveMinimum)
-- 
2.43.0


From 5be9a40e35c9cab1180f56103c7b8e7489858b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 044/106] fix: accept schemas with multipleOf

---
 pkg/asyncapi/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index 1cc6ac1..ef2558c 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -4,7 +4,7 @@ package asyncapi
 // These fields are in common for v2 and v3.
 type Validations[T any] struct {
 	Required         []string `json:"required"`
-	MultipleOf       []string `json:"multipleOf"`
+	MultipleOf       float64  `json:"multipleOf"`
 	Maximum          *float64 `json:"maximum"`
 	ExclusiveMaximum *float64 `json:"exclusiveMaximum"`
 	Minimum          *float64 `json:"minimum"`
@@ -36,7 +36,7 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 	if len(newV.Required) > 0 {
 		v.Required = newV.Required
 	}
-	if len(newV.MultipleOf) > 0 {
+	if newV.MultipleOf != 0 {
 		v.MultipleOf = newV.MultipleOf
 	}
 	if newV.Maximum != nil {
-- 
2.43.0


From c82dc2705abfe9cec215257cc4177fd5410b135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 045/106] fix: follow the references of correlation IDs

---
 pkg/asyncapi/v2/components.go     | 14 ++++++++++---
 pkg/asyncapi/v2/correlation_id.go | 35 +++++++++++++++++++++++++++++++
 pkg/asyncapi/v2/message.go        |  6 ++++++
 pkg/asyncapi/v2/specification.go  | 26 +++++++++++++++++++++++
 pkg/asyncapi/v3/correlation_id.go | 34 +++++++++++++++++++++++-------
 pkg/asyncapi/v3/message.go        |  5 +++++
 pkg/asyncapi/v3/message_trait.go  |  5 +++++
 pkg/asyncapi/v3/specification.go  | 24 +++++++++++++++++++++
 8 files changed, 138 insertions(+), 11 deletions(-)

diff --git a/pkg/asyncapi/v2/components.go b/pkg/asyncapi/v2/components.go
index e207b73..10ef79a 100644
--- a/pkg/asyncapi/v2/components.go
+++ b/pkg/asyncapi/v2/components.go
@@ -6,9 +6,10 @@ package asyncapiv2
 type Components struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
-	Messages   map[string]*Message   `json:"messages"`
-	Schemas    map[string]*Schema    `json:"schemas"`
-	Parameters map[string]*Parameter `json:"parameters"`
+	Messages       map[string]*Message       `json:"messages"`
+	Schemas        map[string]*Schema        `json:"schemas"`
+	Parameters     map[string]*Parameter     `json:"parameters"`
+	CorrelationIDs map[string]*CorrelationID `json:"correlationIds"`
 
 	// --- Non AsyncAPI fields -------------------------------------------------
 }
@@ -39,6 +40,13 @@ func (c *Components) generateMetadata() error {
 
 // setDependencies set dependencies for the components and its children from specification.
 func (c *Components) setDependencies(spec Specification) error {
+	// For all correlation IDs, set correlation ID dependencies
+	for _, correlationID := range c.CorrelationIDs {
+		if err := correlationID.setDependencies(spec); err != nil {
+			return err
+		}
+	}
+
 	// For all schemas, set schema dependencies
 	for _, schema := range c.Schemas {
 		if err := schema.setDependencies(spec); err != nil {
diff --git a/pkg/asyncapi/v2/correlation_id.go b/pkg/asyncapi/v2/correlation_id.go
index b2594f2..879af3b 100644
--- a/pkg/asyncapi/v2/correlation_id.go
+++ b/pkg/asyncapi/v2/correlation_id.go
@@ -1,5 +1,7 @@
 package asyncapiv2
 
+import "fmt"
+
 // CorrelationID is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v2.6.0#correlationIdObject
@@ -8,6 +10,39 @@ type CorrelationID struct {
 
 	Description string `json:"description"`
 	Location    string `json:"location"`
+	Reference   string `json:"$ref"`
 
 	// --- Non AsyncAPI fields -------------------------------------------------
+
+	ReferenceTo *CorrelationID `json:"-"`
+}
+
+// setDependencies sets dependencies for the CorrelationID from specification.
+func (c *CorrelationID) setDependencies(spec Specification) error {
+	// Nothing to do if there is no reference, or if it is already set
+	if c == nil || c.Reference == "" || c.ReferenceTo != nil {
+		return nil
+	}
+
+	// Add pointer to reference
+	refTo, err := spec.ReferenceCorrelationID(c.Reference)
+	if err != nil {
+		return err
+	}
+
+	// Check that this is not a circular reference
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == c {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, c.Reference)
+		}
+	}
+	c.ReferenceTo = refTo
+
+	// Use the location of the reference, that can be itself a reference
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
+	c.Location = refTo.Location
+
+	return nil
 }
diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 380095e..8abb912 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -205,6 +205,9 @@ func (msg *Message) setOneOfDependencies(spec Specification) error {
 func (msg Message) getCorrelationIDLocation(spec Specification) (string, error) {
 	// Let's check the message before the reference
 	if msg.CorrelationID != nil {
+		if err := msg.CorrelationID.setDependencies(spec); err != nil {
+			return "", err
+		}
 		return msg.CorrelationID.Location, nil
 	}
 
@@ -217,6 +220,9 @@ func (msg Message) getCorrelationIDLocation(spec Specification) (string, error)
 
 		correlationID := msg.CorrelationID
 		if correlationID != nil {
+			if err := correlationID.setDependencies(spec); err != nil {
+				return "", err
+			}
 			return correlationID.Location, nil
 		}
 	}
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 4cad206..a02b5d2 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -149,6 +149,30 @@ func (s Specification) ReferenceParameter(ref string) (*Parameter, error) {
 	return param, nil
 }
 
+// ReferenceCorrelationID returns the CorrelationID struct corresponding to the given reference.
+func (s Specification) ReferenceCorrelationID(ref string) (*CorrelationID, error) {
+	// Get object pointed by reference
+	obj, err := s.reference(ref)
+	if err != nil {
+		return nil, err
+	}
+
+	// Cast to correlation ID
+	correlationID, ok := obj.(*CorrelationID)
+	if !ok {
+		return nil, fmt.Errorf(
+			"%w: cannot cast %q into 'CorrelationID' (type is %q)",
+			ErrInvalidReference, ref, reflect.TypeOf(obj))
+	}
+
+	// Check that correlation ID is not nil
+	if correlationID == nil {
+		return nil, fmt.Errorf("%w: empty target for correlation ID reference %q", ErrInvalidReference, ref)
+	}
+
+	return correlationID, nil
+}
+
 // ReferenceMessage returns the Message struct corresponding to the given reference.
 func (s Specification) ReferenceMessage(ref string) (*Message, error) {
 	// Get object pointed by reference
@@ -246,6 +270,8 @@ func (s Specification) reference(ref string) (any, error) {
 			return schema.referenceFrom(refPath[3:]), nil
 		case "parameters":
 			return usedSpec.Components.Parameters[refPath[2]], nil
+		case "correlationIds":
+			return usedSpec.Components.CorrelationIDs[refPath[2]], nil
 		default:
 			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
 		}
diff --git a/pkg/asyncapi/v3/correlation_id.go b/pkg/asyncapi/v3/correlation_id.go
index 720d21e..acf5c40 100644
--- a/pkg/asyncapi/v3/correlation_id.go
+++ b/pkg/asyncapi/v3/correlation_id.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // CorrelationID is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#correlationIdObject
@@ -12,8 +14,8 @@ type CorrelationID struct {
 
 	// --- Non AsyncAPI fields -------------------------------------------------
 
-	Name        string   `json:"-"`
-	ReferenceTo *Channel `json:"-"`
+	Name        string         `json:"-"`
+	ReferenceTo *CorrelationID `json:"-"`
 }
 
 // generateMetadata generates metadata for the CorrelationID.
@@ -34,14 +36,30 @@ func (c *CorrelationID) setDependencies(spec Specification) error {
 		return nil
 	}
 
-	// Add pointer to reference if there is one
-	if c.Reference != "" {
-		refTo, err := spec.ReferenceChannel(c.Reference)
-		if err != nil {
-			return err
+	// Nothing to do if there is no reference, or if it is already set
+	if c.Reference == "" || c.ReferenceTo != nil {
+		return nil
+	}
+
+	// Add pointer to reference
+	refTo, err := spec.ReferenceCorrelationID(c.Reference)
+	if err != nil {
+		return err
+	}
+
+	// Check that this is not a circular reference
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == c {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, c.Reference)
 		}
-		c.ReferenceTo = refTo
 	}
+	c.ReferenceTo = refTo
+
+	// Use the location of the reference, that can be itself a reference
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
+	c.Location = refTo.Location
 
 	return nil
 }
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 61f1fc6..057038b 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -164,6 +164,11 @@ func (msg *Message) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Set correlation ID dependencies
+	if err := msg.CorrelationID.setDependencies(spec); err != nil {
+		return err
+	}
+
 	// Process correlation ID again, as it can be in a reference or in a trait
 	msg.createCorrelationIDFieldIfMissing()
 	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index a8ea1ac..7cd7d1d 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -93,6 +93,11 @@ func (mt *MessageTrait) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Set correlation ID dependencies
+	if err := mt.CorrelationID.setDependencies(spec); err != nil {
+		return err
+	}
+
 	// Set tags dependencies
 	for _, t := range mt.Tags {
 		if err := t.setDependencies(spec); err != nil {
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 0d5cc17..e8a81a6 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -218,6 +218,30 @@ func (s Specification) ReferenceChannel(ref string) (*Channel, error) {
 	return channel, nil
 }
 
+// ReferenceCorrelationID returns the CorrelationID struct corresponding to the given reference.
+func (s Specification) ReferenceCorrelationID(ref string) (*CorrelationID, error) {
+	// Get object pointed by reference
+	obj, err := s.reference(ref)
+	if err != nil {
+		return nil, err
+	}
+
+	// Cast to correlation ID
+	correlationID, ok := obj.(*CorrelationID)
+	if !ok {
+		return nil, fmt.Errorf(
+			"%w: cannot cast %q into 'CorrelationID' (type is %q)",
+			ErrInvalidReference, ref, reflect.TypeOf(obj))
+	}
+
+	// Check that correlation ID is not nil
+	if correlationID == nil {
+		return nil, fmt.Errorf("%w: empty target for correlation ID reference %q", ErrInvalidReference, ref)
+	}
+
+	return correlationID, nil
+}
+
 // ReferenceChannelBindings returns the ChannelBindings struct corresponding to the given reference.
 func (s Specification) ReferenceChannelBindings(ref string) (*ChannelBindings, error) {
 	// Get object pointed by reference
-- 
2.43.0


From fa8f329b812b0a3695caf0df20b00053f59d339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 046/106] fix: return an error for references to nothing,
 instead of panicking

---
 pkg/asyncapi/v2/message.go       |  5 +++++
 pkg/asyncapi/v2/schema.go        |  2 +-
 pkg/asyncapi/v2/specification.go |  3 +++
 pkg/asyncapi/v3/message.go       |  5 +++++
 pkg/asyncapi/v3/schema.go        |  2 +-
 pkg/asyncapi/v3/specification.go | 10 +++++++++-
 6 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 8abb912..44a0463 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -330,6 +330,11 @@ func (msg *Message) referenceFrom(ref []string) any {
 		return msg
 	}
 
+	// There is nothing to reference in a message that doesn't exist
+	if msg == nil {
+		return (*Schema)(nil)
+	}
+
 	var next *Schema
 	if ref[0] == "payload" {
 		next = msg.Payload
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 67db2de..3f78b3b 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -379,7 +379,7 @@ func (s Schema) IsFieldRequired(field string) bool {
 }
 
 func (s *Schema) referenceFrom(ref []string) *Schema {
-	if len(ref) == 0 {
+	if s == nil || len(ref) == 0 {
 		return s
 	}
 
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index a02b5d2..bebaf81 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -261,6 +261,9 @@ func (s Specification) reference(ref string) (any, error) {
 
 	switch refPath[0] {
 	case "components":
+		if len(refPath) < 3 {
+			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
+		}
 		switch refPath[1] {
 		case "messages":
 			msg := usedSpec.Components.Messages[refPath[2]]
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 057038b..9892f1e 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -417,6 +417,11 @@ func (msg *Message) referenceFrom(ref []string) any {
 		return msg
 	}
 
+	// There is nothing to reference in a message that doesn't exist
+	if msg == nil {
+		return (*Schema)(nil)
+	}
+
 	var next *Schema
 	if ref[0] == "payload" {
 		next = msg.Payload
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 78b8d0a..669f103 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -368,7 +368,7 @@ func (s Schema) IsFieldRequired(field string) bool {
 }
 
 func (s *Schema) referenceFrom(ref []string) *Schema {
-	if len(ref) == 0 {
+	if s == nil || len(ref) == 0 {
 		return s
 	}
 
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index e8a81a6..6ac4c2f 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -715,6 +715,9 @@ func (s Specification) reference(ref string) (any, error) {
 
 	switch refPath[0] {
 	case "components":
+		if len(refPath) < 3 {
+			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
+		}
 		switch refPath[1] {
 		case "schemas":
 			schema := usedSpec.Components.Schemas[refPath[2]]
@@ -760,8 +763,13 @@ func (s Specification) reference(ref string) (any, error) {
 			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
 		}
 	case "channels":
-		if len(refPath) < 3 {
+		switch {
+		case len(refPath) < 2:
+			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
+		case len(refPath) == 2:
 			return usedSpec.Channels[refPath[1]], nil
+		case len(refPath) == 3 || usedSpec.Channels[refPath[1]] == nil:
+			return nil, fmt.Errorf("%w: empty target for reference %q", ErrInvalidReference, ref)
 		}
 		switch refPath[2] {
 		case "messages":
-- 
2.43.0


From c55654908179eeff2bed2f8b0b4957424d1426e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 047/106] fix: follow references to the properties of schemas

---
 pkg/asyncapi/v2/schema.go | 5 +++++
 pkg/asyncapi/v3/schema.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 3f78b3b..f620283 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -383,6 +383,11 @@ func (s *Schema) referenceFrom(ref []string) *Schema {
 		return s
 	}
 
+	// Follow the properties, even if they are explicitly mentioned as in a JSON pointer
+	if _, exists := s.Properties[ref[0]]; !exists && ref[0] == "properties" && len(ref) > 1 {
+		ref = ref[1:]
+	}
+
 	return s.Properties[ref[0]].referenceFrom(ref[1:])
 }
 
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 669f103..fce5933 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -372,6 +372,11 @@ func (s *Schema) referenceFrom(ref []string) *Schema {
 		return s
 	}
 
+	// Follow the properties, even if they are explicitly mentioned as in a JSON pointer
+	if _, exists := s.Properties[ref[0]]; !exists && ref[0] == "properties" && len(ref) > 1 {
+		ref = ref[1:]
+	}
+
 	return s.Properties[ref[0]].referenceFrom(ref[1:])
 }
 
-- 
2.43.0


From a8def2c1d41706a4495f5e175c5d276eda2c71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 048/106] fix: do not take the requirement of a property from
 the one it references

---
 pkg/asyncapi/schema.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index ef2558c..dc9c813 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -90,9 +90,6 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 	if len(newV.OneOf) > 0 {
 		v.OneOf = newV.OneOf
 	}
-	if newV.IsRequired {
-		v.IsRequired = newV.IsRequired
-	}
 	if newV.ShouldOmitEmpty != nil {
 		v.ShouldOmitEmpty = newV.ShouldOmitEmpty
 	}
-- 
2.43.0


From 4e803311d876a8f172dc51007bc2158fc0393a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 049/106] fix: import the custom types of channels messages and
 additional properties

---
 pkg/asyncapi/v2/extensions.go | 42 +++++++++++++++++++++++++++++------
 pkg/asyncapi/v3/extensions.go | 40 +++++++++++++++++++++++++++------
 2 files changed, 68 insertions(+), 14 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index 29861a5..ebc8adb 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -52,6 +52,13 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 		}
 	}
 
+	// Process AdditionalProperties
+	if s.AdditionalProperties != nil {
+		if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+			return err
+		}
+	}
+
 	if s.ExtGoTypeImport != nil {
 		name, exists := imports[s.ExtGoTypeImport.Path]
 		if exists && name != s.ExtGoTypeImport.Name {
@@ -68,6 +75,23 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 	return nil
 }
 
+// goTypeImports collects custom imports in the schemas of this message.
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	if msg.Payload != nil {
+		if err := msg.Payload.goTypeImports(imports); err != nil {
+			return fmt.Errorf("payload custom import error: %w", err)
+		}
+	}
+
+	if msg.Headers != nil {
+		if err := msg.Headers.goTypeImports(imports); err != nil {
+			return fmt.Errorf("headers custom import error: %w", err)
+		}
+	}
+
+	return nil
+}
+
 // CustomImports collects all custom import paths set by x-go-type-imports
 // in all Schema Objects in the Specification.
 // Returns import strings like `alias "abc.xyz/repo/package"` for code generation.
@@ -82,15 +106,19 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 	}
 
 	for _, v := range s.Components.Messages {
-		if v.Payload != nil {
-			if err := v.Payload.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages payload custom import error: %w", err)
-			}
+		if err := v.goTypeImports(importsSet); err != nil {
+			return nil, fmt.Errorf("/components/messages %w", err)
 		}
+	}
+
+	for _, ch := range s.Channels {
+		for _, op := range []*Operation{ch.Subscribe, ch.Publish} {
+			if op == nil {
+				continue
+			}
 
-		if v.Headers != nil {
-			if err := v.Headers.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages headers custom import error: %w", err)
+			if err := op.Message.goTypeImports(importsSet); err != nil {
+				return nil, fmt.Errorf("/channels message %w", err)
 			}
 		}
 	}
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index dbe16bf..a1b27b0 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -52,6 +52,13 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 		}
 	}
 
+	// Process AdditionalProperties
+	if s.AdditionalProperties != nil {
+		if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+			return err
+		}
+	}
+
 	if s.ExtGoTypeImport != nil {
 		name, exists := imports[s.ExtGoTypeImport.Path]
 		if exists && name != s.ExtGoTypeImport.Name {
@@ -68,6 +75,23 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 	return nil
 }
 
+// goTypeImports collects custom imports in the schemas of this message.
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	if msg.Payload != nil {
+		if err := msg.Payload.goTypeImports(imports); err != nil {
+			return fmt.Errorf("payload custom import error: %w", err)
+		}
+	}
+
+	if msg.Headers != nil {
+		if err := msg.Headers.goTypeImports(imports); err != nil {
+			return fmt.Errorf("headers custom import error: %w", err)
+		}
+	}
+
+	return nil
+}
+
 // CustomImports collects all custom import paths set by x-go-type-imports
 // in all Schema Objects in the Specification.
 // Returns import strings like `alias "abc.xyz/repo/package"` for code generation.
@@ -82,15 +106,17 @@ func (s Specification) CustomImports() ([]string, error) {
 	}
 
 	for _, v := range s.Components.Messages {
-		if v.Payload != nil {
-			if err := v.Payload.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages payload custom import error: %w", err)
-			}
+		if err := v.goTypeImports(importsSet); err != nil {
+			return nil, fmt.Errorf("/components/messages %w", err)
 		}
+	}
 
-		if v.Headers != nil {
-			if err := v.Headers.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages headers custom import error: %w", err)
+	for _, channels := range []map[string]*Channel{s.Channels, s.Components.Channels} {
+		for _, ch := range channels {
+			for _, v := range ch.Messages {
+				if err := v.goTypeImports(importsSet); err != nil {
+					return nil, fmt.Errorf("/channels messages %w", err)
+				}
 			}
 		}
 	}
-- 
2.43.0


From 2c739c2bb47f1fa99bbf00b3b906c049cbbc80a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 050/106] fix: generate the custom imports in a deterministic
 order

---
 pkg/asyncapi/v2/extensions.go | 5 +++++
 pkg/asyncapi/v3/extensions.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index ebc8adb..e7f31d4 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -2,6 +2,7 @@ package asyncapiv2
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -142,5 +143,9 @@ func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string
 		}
 		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
 	}
+
+	// Do not depend on the order of the map
+	sort.Strings(imports)
+
 	return imports
 }
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index a1b27b0..c8d3b85 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -2,6 +2,7 @@ package asyncapiv3
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -134,5 +135,9 @@ func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string
 		}
 		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
 	}
+
+	// Do not depend on the order of the map
+	sort.Strings(imports)
+
 	return imports
 }
-- 
2.43.0


From e0e681cca08c67b1e7fd1f5ee598c56a6f87ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 051/106] fix: camel naming scheme of names with special
 characters

---
 pkg/utils/template/helpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index b9553c5..31b2727 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -21,7 +21,8 @@ var convertKeyFuncs = map[string]namingSchemeFn{
 }
 
 var namifyPerScheme = map[string]namingSchemeFn{
-	"camel": strcase.ToCamel,
+	// NOTE: the default namifier gives a valid identifier, whatever the characters are
+	"camel": func(s string) string { return DefaultNamifier(strcase.ToCamel(s)) },
 	"none":  DefaultNamifier,
 }
 
-- 
2.43.0


From 3a819fea4d9546fc2dffe878ecb5a1b0c73a6233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 052/106] fix: keep the names that are already in camel case

---
 pkg/utils/template/helpers.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index 31b2727..541ba1b 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -21,8 +21,7 @@ var convertKeyFuncs = map[string]namingSchemeFn{
 }
 
 var namifyPerScheme = map[string]namingSchemeFn{
-	// NOTE: the default namifier gives a valid identifier, whatever the characters are
-	"camel": func(s string) string { return DefaultNamifier(strcase.ToCamel(s)) },
+	"camel": CamelNamifier,
 	"none":  DefaultNamifier,
 }
 
@@ -72,6 +71,21 @@ func DefaultNamifier(sentence string) string {
 	return sentence
 }
 
+// CamelNamifier will convert a sentence to a golang type name in camel case.
+func CamelNamifier(sentence string) string {
+	// The names that are already converted should not change if converted again,
+	// as consecutive upper letters would
+	for i := 0; i < len(sentence); i++ {
+		name := DefaultNamifier(strcase.ToCamel(sentence))
+		if name == sentence {
+			break
+		}
+		sentence = name
+	}
+
+	return sentence
+}
+
 // ConvertKey is used in template to convert schema property key name
 // according to chosen strategy.
 func ConvertKey(sentence string) string {
-- 
2.43.0


From 0ac3013729ea906c9c13e27152561ef65b17e730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 053/106] fix: generate the children schemas in a deterministic
 order

---
 .../generators/v2/templates/helpers.go        |  2 +-
 .../generators/v3/templates/helpers.go        |  2 +-
 pkg/utils/map.go                              | 20 +++++++++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 32757c1..5d31cb3 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -15,7 +15,7 @@ import (
 // GetChildrenObjectSchemas will return all the children object schemas of a
 // schema, only from first level and without AnyOf, AllOf and OneOf.
 func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
-	allSchemas := utils.MapToList(s.Properties)
+	allSchemas := utils.MapToSortedList(s.Properties)
 
 	if s.Items != nil {
 		allSchemas = append(allSchemas, s.Items)
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index fae599f..83d672c 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -15,7 +15,7 @@ import (
 // GetChildrenObjectSchemas will return all the children object schemas of a
 // schema, only from first level and without AnyOf, AllOf and OneOf.
 func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
-	allSchemas := utils.MapToList(s.Properties)
+	allSchemas := utils.MapToSortedList(s.Properties)
 
 	if s.Items != nil {
 		allSchemas = append(allSchemas, s.Items)
diff --git a/pkg/utils/map.go b/pkg/utils/map.go
index 3459302..1abeb0b 100644
--- a/pkg/utils/map.go
+++ b/pkg/utils/map.go
@@ -1,5 +1,10 @@
 package utils
 
+import (
+	"cmp"
+	"slices"
+)
+
 // MapToList will change a map to a list.
 func MapToList[T1 comparable, T2 any](m map[T1]T2) []T2 {
 	l := make([]T2, 0, len(m))
@@ -8,3 +13,18 @@ func MapToList[T1 comparable, T2 any](m map[T1]T2) []T2 {
 	}
 	return l
 }
+
+// MapToSortedList will change a map to a list, that is sorted by key.
+func MapToSortedList[T1 cmp.Ordered, T2 any](m map[T1]T2) []T2 {
+	keys := make([]T1, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	slices.Sort(keys)
+
+	l := make([]T2, 0, len(m))
+	for _, k := range keys {
+		l = append(l, m[k])
+	}
+	return l
+}
-- 
2.43.0


From ceb7f1bf9d6f595c2556b17d256bd9232d65e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 054/106] fix: payloads of messages that are a scalar of a
 custom type don't compile

---
 pkg/codegen/generators/v2/templates/message.tmpl | 2 ++
 pkg/codegen/generators/v3/templates/message.tmpl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 16299b4..908e3b7 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -107,6 +107,8 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
             msg.Payload = {{ .Payload.Follow.Name }}(payload)
+        {{- else if .Payload.ExtGoType}}
+            msg.Payload = {{ .Payload.ExtGoType }}(payload)
         {{- else}}
             msg.Payload = payload // No need for type conversion to reference
         {{- end}}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 7620640..d81aaed 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -116,6 +116,8 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
             msg.Payload = {{ .Payload.Follow.Name }}(payload)
+        {{- else if .Payload.ExtGoType}}
+            msg.Payload = {{ .Payload.ExtGoType }}(payload)
         {{- else}}
             msg.Payload = payload // No need for type conversion to reference
         {{- end}}
-- 
2.43.0


From bd067ed3cfe60ab0db5c12169562f3ad05ec3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 055/106] fix: quotes and backslashes in versions and channel
 addresses give code that doesn't compile

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 2 +-
 pkg/codegen/generators/v2/templates/types.tmpl      | 4 ++--
 pkg/codegen/generators/v3/templates/controller.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/types.tmpl      | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 93745ae..9ada3e8 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -87,7 +87,7 @@ func (c {{ .Prefix }}Controller) executeMiddlewares(ctx context.Context, msg *ex
 }
 
 func add{{ .Prefix }}ContextValues(ctx context.Context, path string) context.Context {
-    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "{{ .Version }}")
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, {{ printf "%q" .Version }})
     ctx = context.WithValue(ctx, extensions.ContextKeyIsProvider, "{{ snakeCase .Prefix }}")
     return context.WithValue(ctx, extensions.ContextKeyIsChannel, path)
 }
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index c90993d..77297b7 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -1,5 +1,5 @@
 // AsyncAPIVersion is the version of the used AsyncAPI document
-const AsyncAPIVersion = "{{ .Info.Version }}"
+const AsyncAPIVersion = {{ printf "%q" .Info.Version }}
 
 // controller is the controller that will be used to communicate with the broker
 // It will be used internally by AppController and UserController
@@ -93,7 +93,7 @@ type {{ namifyWithoutParam $key }}Parameters struct {
 const(
 {{- range $key, $value := .Channels}}
     // {{ namifyWithoutParam .Name }}Path is the constant representing the '{{ .Name }}' channel path.
-    {{ namifyWithoutParam .Name }}Path = "{{$key}}"
+    {{ namifyWithoutParam .Name }}Path = {{ printf "%q" $key }}
 {{- end}}
 )
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 63f0420..3622e46 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -87,7 +87,7 @@ func (c {{ .Prefix }}Controller) executeMiddlewares(ctx context.Context, msg *ex
 }
 
 func add{{ .Prefix }}ContextValues(ctx context.Context, addr string) context.Context {
-    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "{{ .Version }}")
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, {{ printf "%q" .Version }})
     ctx = context.WithValue(ctx, extensions.ContextKeyIsProvider, "{{ snakeCase .Prefix }}")
     return context.WithValue(ctx, extensions.ContextKeyIsChannel, addr)
 }
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index f7c7125..588cedb 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -1,5 +1,5 @@
 // AsyncAPIVersion is the version of the used AsyncAPI document
-const AsyncAPIVersion = "{{ .Info.Version }}"
+const AsyncAPIVersion = {{ printf "%q" .Info.Version }}
 
 // controller is the controller that will be used to communicate with the broker
 // It will be used internally by AppController and UserController
@@ -91,7 +91,7 @@ type {{ namifyWithoutParam $value.Name }}Parameters struct {
 const(
 {{- range $key, $value := .Channels}}
     // {{ namifyWithoutParam .Follow.Name }}Path is the constant representing the '{{ .Follow.Name }}' channel path.
-    {{ namifyWithoutParam .Follow.Name }}Path = "{{ .Follow.Address }}"
+    {{ namifyWithoutParam .Follow.Name }}Path = {{ printf "%q" .Follow.Address }}
 {{- end}}
 )
 
-- 
2.43.0


From 867d21eb8351a9b3a718bc7bf211fc170eea5a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 056/106] fix: references to the servers of the document are
 not supported

---
 pkg/asyncapi/v3/specification.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 6ac4c2f..4ba79f3 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -762,6 +762,11 @@ func (s Specification) reference(ref string) (any, error) {
 		default:
 			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
 		}
+	case "servers":
+		if len(refPath) < 2 {
+			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
+		}
+		return usedSpec.Servers[refPath[1]], nil
 	case "channels":
 		switch {
 		case len(refPath) < 2:
-- 
2.43.0


From fd02c4e06cef80144cf348b23038dba75e12396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 057/106] fix: replies without correlation ID to requests that
 have one give code that doesn't compile

---
 pkg/codegen/generators/v3/templates/controller.tmpl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 3622e46..23ee372 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -290,7 +290,7 @@ func (c *{{ $.Prefix }}Controller) listenTo{{ namify $value.Follow.Name }}NextMe
 func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx context.Context, recvMsg {{opToMsgTypeName $value}}, fn func(replyMsg *{{opToMsgTypeName $value.ReplyIs}})) error {
     // Create reply message
     replyMsg := New{{opToMsgTypeName $value.ReplyIs }}()
-    {{if $value.GetMessage.HaveCorrelationID -}}
+    {{if and $value.GetMessage.HaveCorrelationID $value.ReplyIs.GetMessage.HaveCorrelationID -}}
 	replyMsg.SetAsResponseFrom(&recvMsg)
     {{- end}}
 
@@ -504,7 +504,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
             return nil, extensions.ErrSubscriptionCanceled
         }
 
-        {{if $value.GetMessage.HaveCorrelationID -}}
+        {{if and $value.GetMessage.HaveCorrelationID $value.ReplyIs.GetMessage.HaveCorrelationID -}}
         // Get new message
         rmsg, err := brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
@@ -538,7 +538,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         //
         // NOTE: it is transformed from the broker again, as it could have
         // been modified by middlewares
-        rmsg, err {{ if not $value.GetMessage.HaveCorrelationID}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err {{ if not (and $value.GetMessage.HaveCorrelationID $value.ReplyIs.GetMessage.HaveCorrelationID)}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
-- 
2.43.0


From 9d7e5c204a8ca854b54e73bf386ec3f0701e0337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 058/106] fix: replies and reply addresses by reference make
 the generation panic

---
 pkg/asyncapi/v3/operation_reply.go         | 36 ++++++++++++++++++----
 pkg/asyncapi/v3/operation_reply_address.go | 29 +++++++++++++++--
 2 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/pkg/asyncapi/v3/operation_reply.go b/pkg/asyncapi/v3/operation_reply.go
index 1bbb975..784213e 100644
--- a/pkg/asyncapi/v3/operation_reply.go
+++ b/pkg/asyncapi/v3/operation_reply.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // OperationReply is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#operationReplyObject
@@ -42,11 +44,7 @@ func (or *OperationReply) setDependencies(op *Operation, spec Specification) err
 
 	// Add pointer to reference if there is one
 	if or.Reference != "" {
-		refTo, err := spec.ReferenceOperationReply(or.Reference)
-		if err != nil {
-			return err
-		}
-		or.ReferenceTo = refTo
+		return or.setReference(op, spec)
 	}
 
 	// Set channel dependencies if there is one
@@ -69,10 +67,36 @@ func (or *OperationReply) setDependencies(op *Operation, spec Specification) err
 	return nil
 }
 
+// setReference sets the reference, and the content of the reply from it.
+func (or *OperationReply) setReference(op *Operation, spec Specification) error {
+	refTo, err := spec.ReferenceOperationReply(or.Reference)
+	if err != nil {
+		return err
+	}
+
+	// Check that the references are not circular
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == or {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, or.Reference)
+		}
+	}
+	or.ReferenceTo = refTo
+
+	// Use what is referenced, with an address of its own as it depends on the operation
+	target := or.Follow()
+	or.Channel, or.Messages = target.Channel, target.Messages
+	if target.Address == nil {
+		return nil
+	}
+	address := *target.Address
+	or.Address = &address
+	return or.Address.setLocation(op)
+}
+
 // Follow returns referenced operation if specified or the actual operation.
 func (or *OperationReply) Follow() *OperationReply {
 	if or.ReferenceTo != nil {
-		return or.ReferenceTo
+		return or.ReferenceTo.Follow()
 	}
 	return or
 }
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index 9152f4b..c7c1d81 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -1,6 +1,7 @@
 package asyncapiv3
 
 import (
+	"fmt"
 	"strings"
 )
 
@@ -45,9 +46,24 @@ func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specificat
 		if err != nil {
 			return err
 		}
+
+		// Check that the references are not circular
+		for r := refTo; r != nil; r = r.ReferenceTo {
+			if r == ora {
+				return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, ora.Reference)
+			}
+		}
 		ora.ReferenceTo = refTo
 	}
 
+	return ora.setLocation(op)
+}
+
+// setLocation sets the location, that can come from the reference, and whether
+// it is required in the message of the operation.
+func (ora *OperationReplyAddress) setLocation(op *Operation) error {
+	ora.Location = ora.Follow().Location
+
 	// Get location to schema
 	locRequired, err := ora.isLocationRequired(op)
 	if err != nil {
@@ -59,7 +75,8 @@ func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specificat
 }
 
 func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error) {
-	if ora.Location == "" {
+	// There is no message for the components, that are not linked to an operation
+	if ora.Location == "" || op.Follow().Channel == nil {
 		return false, nil
 	}
 
@@ -68,7 +85,15 @@ func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error)
 		return false, err
 	}
 
-	locationParent := msg.createTreeUntilLocation(ora.Location)
+	locationParent := msg.Follow().createTreeUntilLocation(ora.Location)
 	path := strings.Split(ora.Location, "/")
 	return locationParent.IsFieldRequired(path[len(path)-1]), nil
 }
+
+// Follow returns referenced address if specified or the actual address.
+func (ora *OperationReplyAddress) Follow() *OperationReplyAddress {
+	if ora.ReferenceTo != nil {
+		return ora.ReferenceTo.Follow()
+	}
+	return ora
+}
-- 
2.43.0


From 5fb2d17e67b969e9e966f7470dd4fa87f180efc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 059/106] fix: the message of channels with several ones
 changed at each use, which gives code that doesn't compile

---
 pkg/asyncapi/v3/channel.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 7bd6105..a1b6e18 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -2,6 +2,7 @@ package asyncapiv3
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 )
@@ -161,8 +162,14 @@ func (ch *Channel) Follow() *Channel {
 
 // GetMessage will return the channel message.
 func (ch Channel) GetMessage() (*Message, error) {
-	for _, m := range ch.Follow().Messages {
-		return m.Follow(), nil // TODO: change
+	// Always use the same message, when there are several ones
+	messages := ch.Follow().Messages
+	if len(messages) == 0 {
+		return nil, fmt.Errorf("%w: channel %q", ErrNoMessageInChannel, ch.Name)
 	}
-	return nil, fmt.Errorf("%w: channel %q", ErrNoMessageInChannel, ch.Name)
+	names := make([]string, 0, len(messages))
+	for name := range messages {
+		names = append(names, name)
+	}
+	return messages[slices.Min(names)].Follow(), nil // TODO: change
 }
-- 
2.43.0


From 57fb66ade21b09262744d8b1142cb42179589867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 060/106] fix: letters are lost in identifiers after ones that
 are not ASCII, which gives code that doesn't compile

---
 pkg/utils/template/helpers.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index 541ba1b..ea5c909 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -47,12 +47,14 @@ func DefaultNamifier(sentence string) string {
 
 	// Upper letters that are preceded with an underscore
 	previous := '_'
-	for i, r := range sentence {
-		if !unicode.IsLetter(previous) && !unicode.IsDigit(previous) {
-			sentence = sentence[:i] + strings.ToUpper(string(r)) + sentence[i+1:]
-		}
+	sentence = strings.Map(func(r rune) rune {
+		p := previous
 		previous = r
-	}
+		if !unicode.IsLetter(p) && !unicode.IsDigit(p) {
+			return unicode.ToUpper(r)
+		}
+		return r
+	}, sentence)
 
 	// Remove everything except alphanumerics
 	re := regexp.MustCompile("[^a-zA-Z0-9]")
-- 
2.43.0


From df2fb90ee5dcf14cb71aed43d49a1f303aedfb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 061/106] fix: headers without any property give code that
 doesn't compile

---
 pkg/codegen/generators/v2/templates/message.tmpl | 4 ++--
 pkg/codegen/generators/v3/templates/message.tmpl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 908e3b7..9e03fb6 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -114,7 +114,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         {{- end}}
     {{- end}}
 
-    {{ if .Headers -}}
+    {{ if and .Headers .Headers.Follow.Properties -}}
     // Get each headers from broker message
     for k, v := range bMsg.Headers {
         switch {
@@ -214,7 +214,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{- end}}
 
     {{/* Handle headers, if defined */}}
-    {{ if .Headers -}}
+    {{ if and .Headers .Headers.Follow.Properties -}}
         {{- /* Get headers by reference, or not*/}}
         {{- $headerProperties := .Headers.Properties}}
         {{if .Headers.Reference }}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index d81aaed..9ada38e 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -123,7 +123,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         {{- end}}
     {{- end}}
 
-    {{ if .Headers -}}
+    {{ if and .Headers .Headers.Follow.Properties -}}
     // Get each headers from broker message
     for k, v := range bMsg.Headers {
         switch {
@@ -223,7 +223,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{- end}}
 
     {{/* Handle headers, if defined */}}
-    {{ if .Headers -}}
+    {{ if and .Headers .Headers.Follow.Properties -}}
 
         {{- /* Get headers by reference, or not*/}}
         {{- $headerProperties := .Headers.Properties}}
-- 
2.43.0


From c4d47bc88b2414ae94fb8fce948a2e17f8be7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 062/106] fix: required reply addresses give code that doesn't
 compile with --force-pointers

---
 pkg/codegen/generators/v3/templates/controller.tmpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 23ee372..af1c4c4 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -300,7 +300,7 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
     // Publish reply
     {{- /* Use reply address if needed */}}
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if .Reply.Address.LocationRequired }}
+        {{- if not (isCorrelationIDPointer .Reply.Address.LocationRequired) }}
             chanAddr := recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- else }}
             if recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
@@ -413,7 +413,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
 ) ({{channelToMessageTypeName .Reply.Channel}}, error) {
     // Get receiving channel address
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if .Reply.Address.LocationRequired }}
+        {{- if not (isCorrelationIDPointer .Reply.Address.LocationRequired) }}
             addr := msg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- else }}
             if msg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
-- 
2.43.0


From bc4995772468a72142e11fd5898c4adb3014625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 063/106] fix: operations that are references were ignored

---
 pkg/asyncapi/v3/specification.go    | 4 ++--
 pkg/codegen/generators/v3/common.go | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 4ba79f3..c4b0acd 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -181,12 +181,12 @@ func (s *Specification) setDependencies() error {
 func (s Specification) GetOperationCountByAction() (sendCount, receiveCount uint) {
 	for _, op := range s.Operations {
 		// Check that the publish channel is present
-		if op.Action.IsSend() {
+		if op.Follow().Action.IsSend() {
 			sendCount++
 		}
 
 		// Check that the subscribe channel is present
-		if op.Action.IsReceive() {
+		if op.Follow().Action.IsReceive() {
 			receiveCount++
 		}
 	}
diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 42878b2..59fd731 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -31,6 +31,12 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 	ao.Receive = make(map[string]*asyncapi.Operation)
 	ao.Send = make(map[string]*asyncapi.Operation)
 	for name, op := range spec.Operations {
+		// Use the actual operation if it is a reference
+		if op.ReferenceTo != nil {
+			op = op.Follow()
+			name = op.Name
+		}
+
 		// Add channel to receive channels based on operation action and side
 		if isControllerReceiveOperation(side, op) {
 			ao.Receive[name] = op
-- 
2.43.0


From d85ae7a88f1dffc9b7a0af1b44e232cc6e942b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 064/106] fix: operations that reply on the same channel give
 code that doesn't compile

---
 pkg/codegen/generators/v3/common.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 59fd731..1b9b430 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -49,8 +49,7 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 
 		// Add a artificial operation for reply if the controller should respond to a reply
 		if shouldControllerRespondToReply(side, op) {
-			ch := op.Reply.Channel.Follow()
-			ao.Send[ch.Name] = op.ReplyIs
+			ao.Send[op.ReplyIs.Name] = op.ReplyIs
 		}
 	}
 
-- 
2.43.0


From 8ca332a9ebdaa3a34805cbda8de4609acb214d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 065/106] fix: operations that are references to references
 were ignored

---
 pkg/asyncapi/v3/operation.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 8f95f64..5027a73 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // OperationAction represents an OperationAction.
 type OperationAction string
 
@@ -150,6 +152,13 @@ func (op *Operation) setReference(spec Specification) error {
 	if err != nil {
 		return err
 	}
+
+	// Check that the references are not circular
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == op {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, op.Reference)
+		}
+	}
 	op.ReferenceTo = refTo
 
 	return nil
@@ -237,7 +246,7 @@ func (op *Operation) ApplyTrait(ot *OperationTrait, spec Specification) {
 // Follow returns referenced operation if specified or the actual operation.
 func (op *Operation) Follow() *Operation {
 	if op.ReferenceTo != nil {
-		return op.ReferenceTo
+		return op.ReferenceTo.Follow()
 	}
 	return op
 }
-- 
2.43.0


From f745ad3cb9627e746de4c8ac7ae8837bc6eaa847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 066/106] fix: operations of the components with a reply by
 reference made the generation panic

---
 pkg/asyncapi/v3/components.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/asyncapi/v3/components.go b/pkg/asyncapi/v3/components.go
index 1c8ba41..6b4335a 100644
--- a/pkg/asyncapi/v3/components.go
+++ b/pkg/asyncapi/v3/components.go
@@ -77,9 +77,11 @@ func (c *Components) setDependencies(spec Specification) error {
 		}
 	}
 
-	// Set mapped structured dependencies
-	if err := c.setDependenciesFromMaps(spec); err != nil {
-		return err
+	// Set reply addresses dependencies, before what uses them
+	for _, repAddr := range c.ReplyAddresses {
+		if err := repAddr.setDependencies(&Operation{}, spec); err != nil {
+			return err
+		}
 	}
 
 	// Set reply operations dependencies
@@ -89,11 +91,9 @@ func (c *Components) setDependencies(spec Specification) error {
 		}
 	}
 
-	// Set reply addresses dependencies
-	for _, repAddr := range c.ReplyAddresses {
-		if err := repAddr.setDependencies(&Operation{}, spec); err != nil {
-			return err
-		}
+	// Set mapped structured dependencies
+	if err := c.setDependenciesFromMaps(spec); err != nil {
+		return err
 	}
 
 	return nil
-- 
2.43.0


From d4020e9df65f02237d9c2b2287b92924a8e7f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 067/106] fix: operations of the components can use channels by
 reference

---
 pkg/asyncapi/v3/components.go    | 7 -------
 pkg/asyncapi/v3/specification.go | 7 +++++++
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/asyncapi/v3/components.go b/pkg/asyncapi/v3/components.go
index 6b4335a..4ac8a04 100644
--- a/pkg/asyncapi/v3/components.go
+++ b/pkg/asyncapi/v3/components.go
@@ -208,13 +208,6 @@ func (c *Components) setDependenciesFromMaps(spec Specification) error {
 		}
 	}
 
-	// Set operations dependencies
-	for _, entity := range c.Operations {
-		if err := entity.setDependencies(spec); err != nil {
-			return err
-		}
-	}
-
 	// Set messages dependencies
 	for _, entity := range c.Messages {
 		if err := entity.setDependencies(spec); err != nil {
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index c4b0acd..4e58374 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -166,6 +166,13 @@ func (s *Specification) setDependencies() error {
 		}
 	}
 
+	// Set dependencies for operations of the components, that use the channels
+	for _, op := range s.Components.Operations {
+		if err := op.setDependencies(*s); err != nil {
+			return err
+		}
+	}
+
 	// Set dependencies for operations
 	for _, op := range s.Operations {
 		if err := op.setDependencies(*s); err != nil {
-- 
2.43.0


From 88cfd5e2c4e148ff6aa04c21a64596fcc29964d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 068/106] fix: messages that are one of several by reference
 gave code that doesn't compile

---
 pkg/asyncapi/v2/message.go | 48 +++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 44a0463..96055b5 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -194,7 +194,7 @@ func (msg *Message) setOneOfDependencies(spec Specification) error {
 		}
 
 		// Merge the OneOf as one payload
-		if err := msg.MergeWith(spec, *v); err != nil {
+		if err := msg.MergeWith(spec, v.toMerge()); err != nil {
 			return err
 		}
 	}
@@ -202,6 +202,24 @@ func (msg *Message) setOneOfDependencies(spec Specification) error {
 	return nil
 }
 
+// toMerge returns the message, with references to the schemas that belong to another one.
+func (msg *Message) toMerge() Message {
+	if msg.ReferenceTo == nil {
+		return *msg
+	}
+
+	var merged Message
+	if refTo := msg.Follow(); refTo != nil {
+		if refTo.Payload != nil {
+			merged.Payload = &Schema{ReferenceTo: refTo.Payload}
+		}
+		if refTo.Headers != nil {
+			merged.Headers = &Schema{ReferenceTo: refTo.Headers}
+		}
+	}
+	return merged
+}
+
 func (msg Message) getCorrelationIDLocation(spec Specification) (string, error) {
 	// Let's check the message before the reference
 	if msg.CorrelationID != nil {
@@ -409,12 +427,16 @@ func (msg *Message) mergeWithMessageFromReference(msg2 Message, spec Specificati
 
 func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) error {
 	if msg2.Payload != nil {
-		if msg.Payload == nil {
+		switch {
+		case msg.Payload == nil && msg2.Payload.ReferenceTo != nil && msg2.Payload.Follow().Type == SchemaTypeIsObject.String():
+			// Do not use the type of another message
+			msg.Payload = utils.ToPointer(NewSchema())
+			msg.Payload.Name = template.Namify(msg.Name + "_Payload")
+			return msg.Payload.MergeWith(spec, *msg2.Payload)
+		case msg.Payload == nil:
 			msg.Payload = deepcopy.Copy(msg2.Payload).(*Schema)
-		} else {
-			if err := msg.Payload.MergeWith(spec, *msg2.Payload); err != nil {
-				return err
-			}
+		default:
+			return msg.Payload.MergeWith(spec, *msg2.Payload)
 		}
 	}
 
@@ -423,12 +445,16 @@ func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) er
 
 func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) error {
 	if msg2.Headers != nil {
-		if msg.Headers == nil {
+		switch {
+		case msg.Headers == nil && msg2.Headers.ReferenceTo != nil && msg2.Headers.Follow().Type == SchemaTypeIsObject.String():
+			// Do not use the type of another message
+			msg.Headers = utils.ToPointer(NewSchema())
+			msg.Headers.Name = template.Namify(msg.Name + "_Headers")
+			return msg.Headers.MergeWith(spec, *msg2.Headers)
+		case msg.Headers == nil:
 			msg.Headers = deepcopy.Copy(msg2.Headers).(*Schema)
-		} else {
-			if err := msg.Headers.MergeWith(spec, *msg2.Headers); err != nil {
-				return err
-			}
+		default:
+			return msg.Headers.MergeWith(spec, *msg2.Headers)
 		}
 	}
 	return nil
-- 
2.43.0


From c980a9053e3ce33cd9e874dcdedd77beeb8bd5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 069/106] fix: messages that are one of several used what they
 reference before it was in its final form

---
 pkg/asyncapi/v2/message.go | 41 +++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 96055b5..1036ffa 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -193,6 +193,11 @@ func (msg *Message) setOneOfDependencies(spec Specification) error {
 			return err
 		}
 
+		// Set dependencies of what is referenced, in order to merge its final form
+		if err := v.setReferencedDependencies(spec); err != nil {
+			return err
+		}
+
 		// Merge the OneOf as one payload
 		if err := msg.MergeWith(spec, v.toMerge()); err != nil {
 			return err
@@ -202,6 +207,29 @@ func (msg *Message) setOneOfDependencies(spec Specification) error {
 	return nil
 }
 
+// setReferencedDependencies sets the dependencies of the referenced message, if there
+// is one, and of the schemas referenced by its payload.
+func (msg *Message) setReferencedDependencies(spec Specification) error {
+	if msg.ReferenceTo != nil {
+		// NOTE: this is already done for the messages from the other specifications
+		if !strings.HasPrefix(msg.Reference, "#") {
+			return nil
+		}
+
+		if err := msg.ReferenceTo.setDependencies(spec); err != nil {
+			return err
+		}
+		return msg.ReferenceTo.setReferencedDependencies(spec)
+	}
+
+	for s := msg.Payload; s != nil && strings.HasPrefix(s.Reference, "#"); s = s.ReferenceTo {
+		if err := s.setReferencedDependencies(spec); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // toMerge returns the message, with references to the schemas that belong to another one.
 func (msg *Message) toMerge() Message {
 	if msg.ReferenceTo == nil {
@@ -209,13 +237,12 @@ func (msg *Message) toMerge() Message {
 	}
 
 	var merged Message
-	if refTo := msg.Follow(); refTo != nil {
-		if refTo.Payload != nil {
-			merged.Payload = &Schema{ReferenceTo: refTo.Payload}
-		}
-		if refTo.Headers != nil {
-			merged.Headers = &Schema{ReferenceTo: refTo.Headers}
-		}
+	refTo := msg.Follow()
+	if refTo.Payload != nil {
+		merged.Payload = &Schema{ReferenceTo: refTo.Payload}
+	}
+	if refTo.Headers != nil {
+		merged.Headers = &Schema{ReferenceTo: refTo.Headers}
 	}
 	return merged
 }
-- 
2.43.0


From d1e5a37fcafeed97519be1bb9b1a844645188d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 070/106] fix: the x-omitempty of references was lost in the
 traits of the messages

---
 pkg/asyncapi/v3/schema.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index fce5933..c642683 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -167,7 +167,10 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 	// Set IsRequired
 	s.IsRequired = isRequired
 
-	s.ShouldOmitEmpty = s.ExtOmitEmpty
+	// Do not lose the one from the reference, as the metadata of a copy are generated again
+	if s.ExtOmitEmpty != nil {
+		s.ShouldOmitEmpty = s.ExtOmitEmpty
+	}
 
 	return nil
 }
-- 
2.43.0


From 13f8a9a31c45d6b67cd33a4971f23aecdb3f29a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 071/106] fix: messages that are one of several made the
 generation crash on recursive schemas

---
 pkg/asyncapi/v2/message.go | 14 +++++++++++---
 pkg/asyncapi/v2/schema.go  | 13 +++++++++++++
 pkg/asyncapi/v3/message.go |  5 ++---
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 1036ffa..28d1f22 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -8,7 +8,6 @@ import (
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
-	"github.com/mohae/deepcopy"
 )
 
 const (
@@ -53,6 +52,9 @@ type Message struct {
 	// According to: https://www.asyncapi.com/docs/reference/specification/v2.6.0#correlationIDObject
 	CorrelationIDLocation string `json:"-"`
 	CorrelationIDRequired bool   `json:"-"`
+
+	// dependenciesSet is true when the dependencies have been set
+	dependenciesSet bool
 }
 
 // generateMetadata generates the metadata for the Message and its children.
@@ -83,6 +85,12 @@ func (msg *Message) generateMetadata(name string) error {
 
 // setDependencies sets the dependencies for the Message and its children from the specification.
 func (msg *Message) setDependencies(spec Specification) error {
+	// Do it only once, as it is also done before merging this message in another one
+	if msg.dependenciesSet {
+		return nil
+	}
+	msg.dependenciesSet = true
+
 	// Set Payload dependencies
 	if msg.Payload != nil {
 		if err := msg.Payload.setDependencies(spec); err != nil {
@@ -461,7 +469,7 @@ func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) er
 			msg.Payload.Name = template.Namify(msg.Name + "_Payload")
 			return msg.Payload.MergeWith(spec, *msg2.Payload)
 		case msg.Payload == nil:
-			msg.Payload = deepcopy.Copy(msg2.Payload).(*Schema)
+			msg.Payload = msg2.Payload.clone()
 		default:
 			return msg.Payload.MergeWith(spec, *msg2.Payload)
 		}
@@ -479,7 +487,7 @@ func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) er
 			msg.Headers.Name = template.Namify(msg.Name + "_Headers")
 			return msg.Headers.MergeWith(spec, *msg2.Headers)
 		case msg.Headers == nil:
-			msg.Headers = deepcopy.Copy(msg2.Headers).(*Schema)
+			msg.Headers = msg2.Headers.clone()
 		default:
 			return msg.Headers.MergeWith(spec, *msg2.Headers)
 		}
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index f620283..fd6bc1e 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -2,6 +2,8 @@ package asyncapiv2
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
@@ -419,6 +421,17 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 	return nil
 }
 
+// clone returns a copy that can be merged with other schemas without changing this one.
+func (s *Schema) clone() *Schema {
+	c := *s
+	c.Properties = maps.Clone(s.Properties)
+	c.AllOf = slices.Clone(s.AllOf)
+	c.AnyOf = slices.Clone(s.AnyOf)
+	c.OneOf = slices.Clone(s.OneOf)
+	c.Required = slices.Clone(s.Required)
+	return &c
+}
+
 // requireProperties sets as required the properties that are required by this schema
 // but not by the one that defines them.
 func (s *Schema) requireProperties() {
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 9892f1e..a962a64 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -6,7 +6,6 @@ import (
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
-	"github.com/mohae/deepcopy"
 )
 
 // MessageField is a structure that represents the type of a field.
@@ -497,7 +496,7 @@ func (msg *Message) mergeWithMessageFromReference(msg2 Message, spec Specificati
 func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) error {
 	if msg2.Payload != nil {
 		if msg.Payload == nil {
-			msg.Payload = deepcopy.Copy(msg2.Payload).(*Schema)
+			msg.Payload = msg2.Payload.clone()
 		} else {
 			if err := msg.Payload.MergeWith(spec, *msg2.Payload); err != nil {
 				return err
@@ -511,7 +510,7 @@ func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) er
 func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) error {
 	if msg2.Headers != nil {
 		if msg.Headers == nil {
-			msg.Headers = deepcopy.Copy(msg2.Headers).(*Schema)
+			msg.Headers = msg2.Headers.clone()
 		} else {
 			if err := msg.Headers.MergeWith(spec, *msg2.Headers); err != nil {
 				return err
-- 
2.43.0


From 3cdb88e8210342add708b93f98744f2c3f09e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 072/106] fix: null and badly referenced parts of documents in
 version 2 made the generation panic

---
 pkg/asyncapi/v2/channel.go    | 16 ++++++++++++++--
 pkg/asyncapi/v2/components.go |  4 +++-
 pkg/asyncapi/v2/message.go    |  5 +++++
 pkg/asyncapi/v2/operation.go  |  7 +++++--
 pkg/asyncapi/v2/parameter.go  | 10 +++++++++-
 pkg/asyncapi/v2/schema.go     |  6 ++++++
 6 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/pkg/asyncapi/v2/channel.go b/pkg/asyncapi/v2/channel.go
index 1bdff91..5c094ef 100644
--- a/pkg/asyncapi/v2/channel.go
+++ b/pkg/asyncapi/v2/channel.go
@@ -1,6 +1,11 @@
 package asyncapiv2
 
-import "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
+import (
+	"fmt"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
+)
 
 // Channel is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
@@ -21,6 +26,11 @@ type Channel struct {
 
 // generateMetadata generate metadata for the channel and its children.
 func (c *Channel) generateMetadata(path string) error {
+	// Check that there is something
+	if c == nil {
+		return fmt.Errorf("%w: channel %q is empty", extensions.ErrAsyncAPI, path)
+	}
+
 	// Set channel name and path
 	c.Name = template.Namify(path)
 	c.Path = path
@@ -48,7 +58,9 @@ func (c *Channel) generateMetadata(path string) error {
 
 	// Generate parameters metadata
 	for n, p := range c.Parameters {
-		p.generateMetadata(n)
+		if err := p.generateMetadata(n); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v2/components.go b/pkg/asyncapi/v2/components.go
index 10ef79a..c4d3238 100644
--- a/pkg/asyncapi/v2/components.go
+++ b/pkg/asyncapi/v2/components.go
@@ -32,7 +32,9 @@ func (c *Components) generateMetadata() error {
 
 	// For all parameters, generate param metadata
 	for name, param := range c.Parameters {
-		param.generateMetadata(name + "_Parameter")
+		if err := param.generateMetadata(name + "_Parameter"); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 28d1f22..6ef7c25 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -59,6 +59,11 @@ type Message struct {
 
 // generateMetadata generates the metadata for the Message and its children.
 func (msg *Message) generateMetadata(name string) error {
+	// Check that there is something
+	if msg == nil {
+		return fmt.Errorf("%w: message %q is empty", extensions.ErrAsyncAPI, name)
+	}
+
 	msg.Name = template.Namify(name)
 
 	// Generate Payload metadata
diff --git a/pkg/asyncapi/v2/operation.go b/pkg/asyncapi/v2/operation.go
index be5a925..818c9e0 100644
--- a/pkg/asyncapi/v2/operation.go
+++ b/pkg/asyncapi/v2/operation.go
@@ -6,6 +6,9 @@ import (
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
+// messageNameReferenceIndex is the index of the name of a message in a reference to it.
+const messageNameReferenceIndex = 3
+
 // Operation is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v2.6.0#operationObject
@@ -26,8 +29,8 @@ func (op *Operation) generateMetadata(name string) error {
 
 	// Get message name
 	var msgName string
-	if op.Message.Reference != "" {
-		msgName = strings.Split(op.Message.Reference, "/")[3]
+	if path := strings.Split(op.Message.Reference, "/"); len(path) > messageNameReferenceIndex {
+		msgName = path[messageNameReferenceIndex]
 	} else {
 		msgName = op.Name
 	}
diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index 4c3f793..fe5f2c9 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -3,6 +3,7 @@ package asyncapiv2
 import (
 	"fmt"
 
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
@@ -24,9 +25,16 @@ type Parameter struct {
 }
 
 // generateMetadata generate metadata for the parameter.
-func (p *Parameter) generateMetadata(name string) {
+func (p *Parameter) generateMetadata(name string) error {
+	// Check that there is something
+	if p == nil {
+		return fmt.Errorf("%w: parameter %q is empty", extensions.ErrAsyncAPI, name)
+	}
+
 	// Add parameter name
 	p.Name = template.Namify(name)
+
+	return nil
 }
 
 // setDependencies set dependencies for the parameter from specification.
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index fd6bc1e..ac59aef 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
@@ -70,6 +71,11 @@ func NewSchema() Schema {
 
 // generateMetadata generates metadata for the schema and its children.
 func (s *Schema) generateMetadata(name string, isRequired bool) error {
+	// Check that there is something
+	if s == nil {
+		return fmt.Errorf("%w: schema %q is empty", extensions.ErrAsyncAPI, name)
+	}
+
 	s.Name = template.Namify(name)
 
 	// Generate Properties metadata
-- 
2.43.0


From 88e6db567144014b02c2ecaba1140ee503a30cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 073/106] fix: an empty input made the tool panic

---
 cmd/asyncapi-codegen/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/asyncapi-codegen/main.go b/cmd/asyncapi-codegen/main.go
index cc35f61..d2e423d 100644
--- a/cmd/asyncapi-codegen/main.go
+++ b/cmd/asyncapi-codegen/main.go
@@ -5,6 +5,7 @@ import (
 	"os"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/codegen"
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/spf13/cobra"
 )
 
@@ -19,6 +20,10 @@ Just plug your application to your favorite message broker!
 More info on README: https://github.com/lerenn/asyncapi-codegen
 `,
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
+		if len(flags.InputPaths) == 0 {
+			return fmt.Errorf("%w: there is no input", extensions.ErrAsyncAPI)
+		}
+
 		cg, err := codegen.FromFile(flags.InputPaths[0], flags.InputPaths[1:]...)
 		if err != nil {
 			return err
-- 
2.43.0


From 2edd9dc88d4fcabdcb862951157d0f33540158df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 074/106] fix: unknown types gave, without formatting, a file
 that isn't Go

---
 pkg/codegen/generators/v2/templates/schema_name.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/schema_name.tmpl | 2 +-
 pkg/utils/template/helpers.go                        | 6 ++++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/schema_name.tmpl b/pkg/codegen/generators/v2/templates/schema_name.tmpl
index 79c6940..0433efe 100644
--- a/pkg/codegen/generators/v2/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_name.tmpl
@@ -46,7 +46,7 @@ float64
 
 {{- /* -------------------------- Type Unknown -------------------------- */ -}}
 {{- else -}}
-// WARNING: no generation occured here as it has unknown type '{{.Type}}'
+{{ unknownType .Type }}
 {{- end -}}
 
 {{- /* ------------------------- AnyOf or OneOf ------------------------- */ -}}
diff --git a/pkg/codegen/generators/v3/templates/schema_name.tmpl b/pkg/codegen/generators/v3/templates/schema_name.tmpl
index 03bc71a..3af4ff2 100644
--- a/pkg/codegen/generators/v3/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_name.tmpl
@@ -46,7 +46,7 @@ float64
 
 {{- /* -------------------------- Type Unknown -------------------------- */ -}}
 {{- else -}}
-// WARNING: no generation occured here as it has unknown type '{{.Type}}'
+{{ unknownType .Type }}
 {{- end -}}
 
 {{- /* ------------------------- AnyOf or OneOf ------------------------- */ -}}
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index ea5c909..fd5db1b 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -170,6 +170,11 @@ func DisableDateOrTimeGeneration() {
 	isDateOrDateTimeGenerated = func(_ string) bool { return false }
 }
 
+// UnknownType fails the execution of the template, as there is nothing to generate for this type.
+func UnknownType(name string) (string, error) {
+	return "", fmt.Errorf("unknown type %q", name)
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
@@ -182,6 +187,7 @@ func HelpersFunctions() template.FuncMap {
 		"hasField":                  HasField,
 		"describeStruct":            DescribeStruct,
 		"multiLineComment":          MultiLineComment,
+		"unknownType":               UnknownType,
 		"cutSuffix":                 CutSuffix,
 		"args":                      Args,
 	}
-- 
2.43.0


From be46c401c3856ed5d3535be81f5542081b7d473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 075/106] fix: null parts of documents in version 3 made the
 generation panic

---
 pkg/asyncapi/v3/channel.go         |  9 ++++++++
 pkg/asyncapi/v3/components.go      | 16 ++++++++++++++
 pkg/asyncapi/v3/message.go         |  9 ++++++++
 pkg/asyncapi/v3/operation.go       | 35 +++++++++++++++++++++++++-----
 pkg/asyncapi/v3/operation_reply.go |  5 +++++
 pkg/asyncapi/v3/schema.go          | 19 ++++++++++++++++
 pkg/asyncapi/v3/specification.go   |  9 ++++++++
 pkg/asyncapi/v3/utils.go           | 23 ++++++++++++++++++++
 8 files changed, 119 insertions(+), 6 deletions(-)

diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index a1b6e18..6ce9eea 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -1,6 +1,7 @@
 package asyncapiv3
 
 import (
+	"errors"
 	"fmt"
 	"slices"
 
@@ -49,6 +50,14 @@ func (ch *Channel) generateMetadata(parentName, name string) error {
 		return nil
 	}
 
+	// Check that there is nothing empty
+	if err := errors.Join(
+		refuseEmpty("message", ch.Messages),
+		refuseEmpty("parameter", ch.Parameters),
+	); err != nil {
+		return err
+	}
+
 	// Set name
 	ch.Name = generateFullName(parentName, name, ChannelSuffix, nil)
 
diff --git a/pkg/asyncapi/v3/components.go b/pkg/asyncapi/v3/components.go
index 4ac8a04..c78f354 100644
--- a/pkg/asyncapi/v3/components.go
+++ b/pkg/asyncapi/v3/components.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "errors"
+
 // Components is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#componentsObject
@@ -36,6 +38,20 @@ func (c *Components) generateMetadata() error {
 		return nil
 	}
 
+	// Check that there is nothing empty
+	if err := errors.Join(
+		refuseEmpty("schema", c.Schemas),
+		refuseEmpty("channel", c.Channels),
+		refuseEmpty("operation", c.Operations),
+		refuseEmpty("message", c.Messages),
+		refuseEmpty("reply", c.Replies),
+		refuseEmpty("parameter", c.Parameters),
+		refuseEmpty("operation trait", c.OperationTraits),
+		refuseEmpty("message trait", c.MessageTraits),
+	); err != nil {
+		return err
+	}
+
 	// Generate schemas metadata
 	for name, schema := range c.Schemas {
 		if err := schema.generateMetadata("", name+"_Schema", nil, false); err != nil {
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index a962a64..1a1d14f 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -1,6 +1,7 @@
 package asyncapiv3
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 
@@ -68,6 +69,14 @@ func (msg *Message) generateMetadata(parentName, name string, number *int) error
 		return nil
 	}
 
+	// Check that there is nothing empty
+	if err := errors.Join(
+		refuseEmptyItem("message", msg.OneOf),
+		refuseEmptyItem("trait", msg.Traits),
+	); err != nil {
+		return err
+	}
+
 	// Set name
 	msg.Name = generateFullName(parentName, name, "Message", number)
 
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 5027a73..5f5db02 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -1,6 +1,11 @@
 package asyncapiv3
 
-import "fmt"
+import (
+	"errors"
+	"fmt"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+)
 
 // OperationAction represents an OperationAction.
 type OperationAction string
@@ -56,6 +61,14 @@ func (op *Operation) generateMetadata(parentName, name string) error {
 		return nil
 	}
 
+	// Check that there is nothing empty
+	if err := errors.Join(
+		refuseEmptyItem("message", op.Messages),
+		refuseEmptyItem("trait", op.Traits),
+	); err != nil {
+		return err
+	}
+
 	// Set name
 	op.Name = generateFullName(parentName, name, "Operation", nil)
 
@@ -97,6 +110,11 @@ func (op *Operation) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Check that there is a channel
+	if op.Reference == "" && op.Channel == nil {
+		return fmt.Errorf("%w: operation %q has no channel", extensions.ErrAsyncAPI, op.Name)
+	}
+
 	// Set channel dependencies if there is one
 	if err := op.Channel.setDependencies(spec); err != nil {
 		return err
@@ -137,9 +155,7 @@ func (op *Operation) setDependencies(spec Specification) error {
 	}
 
 	// Generate reply
-	op.generateReply()
-
-	return nil
+	return op.generateReply()
 }
 
 func (op *Operation) setReference(spec Specification) error {
@@ -176,10 +192,15 @@ func (op *Operation) setTraitsDependenciesAndApply(spec Specification) error {
 	return nil
 }
 
-func (op *Operation) generateReply() {
+func (op *Operation) generateReply() error {
 	// Return if there is no reply
 	if op == nil || op.Reply == nil {
-		return
+		return nil
+	}
+
+	// Check that there is a channel for the reply
+	if op.Reply.Channel == nil {
+		return fmt.Errorf("%w: reply of operation %q has no channel", extensions.ErrAsyncAPI, op.Name)
 	}
 
 	// Generate reply
@@ -189,6 +210,8 @@ func (op *Operation) generateReply() {
 		Channel: ch,
 		ReplyOf: op,
 	}
+
+	return nil
 }
 
 // GetMessage will return the operation message.
diff --git a/pkg/asyncapi/v3/operation_reply.go b/pkg/asyncapi/v3/operation_reply.go
index 784213e..7924182 100644
--- a/pkg/asyncapi/v3/operation_reply.go
+++ b/pkg/asyncapi/v3/operation_reply.go
@@ -26,6 +26,11 @@ func (or *OperationReply) generateMetadata(parentName, name string) error {
 		return nil
 	}
 
+	// Check that there is nothing empty
+	if err := refuseEmptyItem("message", or.Messages); err != nil {
+		return err
+	}
+
 	// Set name
 	or.Name = generateFullName(parentName, name, "Reply", nil)
 
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index c642683..b56cc28 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -1,6 +1,7 @@
 package asyncapiv3
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 
@@ -93,6 +94,11 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 		return nil
 	}
 
+	// Check that there is nothing empty
+	if err := s.refuseEmpty(); err != nil {
+		return err
+	}
+
 	// Set name
 	// NOTE: do not specify the type "schema" in the name
 	s.Name = generateFullName(parentName, name, "", number)
@@ -175,6 +181,19 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 	return nil
 }
 
+// refuseEmpty returns an error if a part of the schema is empty.
+func (s *Schema) refuseEmpty() error {
+	return errors.Join(
+		refuseEmpty("property", s.Properties),
+		refuseEmpty("pattern property", s.PatternProperties),
+		refuseEmptyItem("additional item", s.AdditionalItems),
+		refuseEmptyItem("content", s.Contains),
+		refuseEmptyItem("part of allOf", s.AllOf),
+		refuseEmptyItem("part of anyOf", s.AnyOf),
+		refuseEmptyItem("part of oneOf", s.OneOf),
+	)
+}
+
 //
 //nolint:funlen,cyclop // Not necessary to reduce length and cyclop
 func (s *Schema) setDependencies(spec Specification) error {
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 4e58374..91bab11 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -1,6 +1,7 @@
 package asyncapiv3
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 	"strings"
@@ -87,6 +88,14 @@ func (s *Specification) generateMetadata() error {
 		return nil
 	}
 
+	// Check that there is nothing empty
+	if err := errors.Join(
+		refuseEmpty("channel", s.Channels),
+		refuseEmpty("operation", s.Operations),
+	); err != nil {
+		return err
+	}
+
 	// Generate metadata for dependencies
 	for _, spec := range s.dependencies {
 		if err := spec.generateMetadata(); err != nil {
diff --git a/pkg/asyncapi/v3/utils.go b/pkg/asyncapi/v3/utils.go
index 6cf19c4..6b8e0c7 100644
--- a/pkg/asyncapi/v3/utils.go
+++ b/pkg/asyncapi/v3/utils.go
@@ -3,9 +3,32 @@ package asyncapiv3
 import (
 	"fmt"
 
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
+// refuseEmpty returns an error if one of the elements is empty.
+func refuseEmpty[T any](kind string, elements map[string]*T) error {
+	for name, e := range elements {
+		if e == nil {
+			return fmt.Errorf("%w: %s %q is empty", extensions.ErrAsyncAPI, kind, name)
+		}
+	}
+
+	return nil
+}
+
+// refuseEmptyItem returns an error if one of the elements of the list is empty.
+func refuseEmptyItem[T any](kind string, elements []*T) error {
+	for i, e := range elements {
+		if e == nil {
+			return fmt.Errorf("%w: %s %d is empty", extensions.ErrAsyncAPI, kind, i)
+		}
+	}
+
+	return nil
+}
+
 // generateFullName generates a full name for a struct.
 // If number is nil, it will not be added to the name.
 func generateFullName(parentName, name, typeName string, number *int) string {
-- 
2.43.0


From 08a919feb1dff6d7e3f4c9e97a1c39327843ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 076/106] fix: references to nothing inside of a component gave
 the component

---
 pkg/asyncapi/v2/specification.go | 3 +++
 pkg/asyncapi/v3/specification.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index bebaf81..54eb3c2 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -264,6 +264,9 @@ func (s Specification) reference(ref string) (any, error) {
 		if len(refPath) < 3 {
 			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
 		}
+		if len(refPath) > 3 && refPath[1] != "schemas" && refPath[1] != "messages" {
+			return nil, fmt.Errorf("%w: empty target for reference %q", ErrInvalidReference, ref)
+		}
 		switch refPath[1] {
 		case "messages":
 			msg := usedSpec.Components.Messages[refPath[2]]
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 91bab11..17d6ae7 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -734,6 +734,9 @@ func (s Specification) reference(ref string) (any, error) {
 		if len(refPath) < 3 {
 			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
 		}
+		if len(refPath) > 3 && refPath[1] != "schemas" && refPath[1] != "messages" {
+			return nil, fmt.Errorf("%w: empty target for reference %q", ErrInvalidReference, ref)
+		}
 		switch refPath[1] {
 		case "schemas":
 			schema := usedSpec.Components.Schemas[refPath[2]]
@@ -782,6 +785,9 @@ func (s Specification) reference(ref string) (any, error) {
 		if len(refPath) < 2 {
 			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
 		}
+		if len(refPath) > 2 {
+			return nil, fmt.Errorf("%w: empty target for reference %q", ErrInvalidReference, ref)
+		}
 		return usedSpec.Servers[refPath[1]], nil
 	case "channels":
 		switch {
-- 
2.43.0


From 470d4b859ef99db1fbb9350abebac4e679d334fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 077/106] fix: code that isn't Go was written when the
 formatting was disabled

---
 pkg/codegen/codegen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index df377fb..5293bcd 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -2,6 +2,8 @@ package codegen
 
 import (
 	"fmt"
+	goparser "go/parser"
+	"go/token"
 	"os"
 	"runtime/debug"
 
@@ -122,6 +124,10 @@ func (cg CodeGen) Generate(opt options.Options) error {
 			return err
 		}
 	} else {
+		// Check that this is actual code, as the formatting would do
+		if _, err := goparser.ParseFile(token.NewFileSet(), "", content, goparser.SkipObjectResolution); err != nil {
+			return err
+		}
 		fileContent = []byte(content)
 	}
 
-- 
2.43.0


From aead9db10f007e646efd70c25d639ac839ebba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:00 +0000
Subject: [PATCH 078/106] fix: messages published right after a NATS
 subscription could be lost

---
 pkg/extensions/brokers/nats/nats.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/extensions/brokers/nats/nats.go b/pkg/extensions/brokers/nats/nats.go
index 1380540..9fbf0bc 100644
--- a/pkg/extensions/brokers/nats/nats.go
+++ b/pkg/extensions/brokers/nats/nats.go
@@ -114,6 +114,12 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		return extensions.BrokerChannelSubscription{}, err
 	}
 
+	// Flush the subscription, in order to not miss the messages that are published from now on
+	if err := c.connection.Flush(); err != nil {
+		_ = natsSub.Unsubscribe()
+		return extensions.BrokerChannelSubscription{}, err
+	}
+
 	// Wait for cancellation and drain the NATS subscription
 	sub.WaitForCancellationAsync(func() {
 		if err := natsSub.Drain(); err != nil {
-- 
2.43.0


From 4d49f269c1f72c5817980d20b267b06456c6e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 079/106] fix: publications on NATS subjects with spaces went
 to another subject

---
 pkg/extensions/brokers/nats/nats.go                   | 6 ++++++
 pkg/extensions/brokers/natsjetstream/natsjetstream.go | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/pkg/extensions/brokers/nats/nats.go b/pkg/extensions/brokers/nats/nats.go
index 9fbf0bc..f471588 100644
--- a/pkg/extensions/brokers/nats/nats.go
+++ b/pkg/extensions/brokers/nats/nats.go
@@ -3,6 +3,7 @@ package nats
 import (
 	"context"
 	"fmt"
+	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers"
@@ -83,6 +84,11 @@ func WithConnectionOpts(opts ...nats.Option) ControllerOption {
 
 // Publish a message to the broker.
 func (c *Controller) Publish(_ context.Context, channel string, bm extensions.BrokerMessage) error {
+	// Check that the subject doesn't continue as something else in the protocol
+	if strings.ContainsAny(channel, " \t\r\n") {
+		return fmt.Errorf("%w: %q", nats.ErrBadSubject, channel)
+	}
+
 	msg := nats.NewMsg(channel)
 
 	// Set message headers and content
diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index 718c0d9..d04b160 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -216,6 +216,11 @@ func (c *Controller) registerStream() error {
 
 // Publish a message to the broker.
 func (c *Controller) Publish(ctx context.Context, channel string, bm extensions.BrokerMessage) error {
+	// Check that the subject doesn't continue as something else in the protocol
+	if strings.ContainsAny(channel, " \t\r\n") {
+		return fmt.Errorf("%w: %q", nats.ErrBadSubject, channel)
+	}
+
 	msg := nats.NewMsg(channel)
 
 	// Set message headers and content
-- 
2.43.0


From 593d21db68e4641ca876070d6ca7d7bfe7987600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 080/106] fix: NATS and JetStream controllers that could not be
 created left their connection open

---
 pkg/extensions/brokers/nats/nats.go                   | 9 +++++++++
 pkg/extensions/brokers/natsjetstream/natsjetstream.go | 9 ++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/nats/nats.go b/pkg/extensions/brokers/nats/nats.go
index f471588..69dafdb 100644
--- a/pkg/extensions/brokers/nats/nats.go
+++ b/pkg/extensions/brokers/nats/nats.go
@@ -37,6 +37,7 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 	// Execute options
 	for _, option := range options {
 		if err := option(controller); err != nil {
+			controller.closeConnection()
 			return nil, fmt.Errorf("could not apply option to controller: %w", err)
 		}
 	}
@@ -77,11 +78,19 @@ func WithConnectionOpts(opts ...nats.Option) ControllerOption {
 		if err != nil {
 			return fmt.Errorf("could not connect to nats: %w", err)
 		}
+		controller.closeConnection()
 		controller.connection = nc
 		return nil
 	}
 }
 
+// closeConnection closes the current connection, if there is one.
+func (c *Controller) closeConnection() {
+	if c.connection != nil {
+		c.connection.Close()
+	}
+}
+
 // Publish a message to the broker.
 func (c *Controller) Publish(_ context.Context, channel string, bm extensions.BrokerMessage) error {
 	// Check that the subject doesn't continue as something else in the protocol
diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index d04b160..31d7b9d 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -44,7 +44,7 @@ type subscribedChannel struct {
 }
 
 // NewController creates a new NATS JetStream controller.
-func NewController(url string, options ...ControllerOption) (*Controller, error) {
+func NewController(url string, options ...ControllerOption) (_ *Controller, err error) {
 	// Creates default controller
 	controller := &Controller{
 		url:            url,
@@ -54,6 +54,13 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 		nakDelay:       time.Second * 5,
 	}
 
+	// Don't leave the connection open if the controller can't be created
+	defer func() {
+		if err != nil {
+			controller.Close()
+		}
+	}()
+
 	// Execute options
 	for _, option := range options {
 		if err := option(controller); err != nil {
-- 
2.43.0


From 449afb1857330dfa11473d518403f0c1320e1f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 081/106] fix: JetStream messages received while the last
 subscription was being cancelled were acknowledged, and lost

---
 .../brokers/natsjetstream/natsjetstream.go    | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index 31d7b9d..77033d5 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -383,14 +383,21 @@ func (c *Controller) StopConsumeIfNeeded() {
 func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandler {
 	return func(msg jetstream.Msg) {
 		msgSubj := msg.Subject() // pull this into a var for debuggability
-		// Send the message to the responsible subscription, except if it has
-		// been canceled in the meantime
-		if responsibleSubscription := c.responsibleSubscription(msgSubj); responsibleSubscription != nil {
+		// Send the message to the responsible subscription. If it has been canceled
+		// in the meantime, the message is left unsettled, to be redelivered
+		responsibleSubscription, subscribed := c.responsibleSubscription(msgSubj)
+		if responsibleSubscription != nil {
 			select {
 			case responsibleSubscription.messages <- msg:
-				return
 			case <-responsibleSubscription.done:
 			}
+
+			return
+		}
+
+		// Same if there is no more subscription, as the consumption is being stopped
+		if !subscribed {
+			return
 		}
 
 		c.logger.Warning(
@@ -408,18 +415,18 @@ func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandle
 }
 
 // responsibleSubscription returns the channel subscribed for the given subject,
-// or nil if there is none.
-func (c *Controller) responsibleSubscription(subject string) *subscribedChannel {
+// or nil if there is none, and whether there is any subscribed channel.
+func (c *Controller) responsibleSubscription(subject string) (*subscribedChannel, bool) {
 	c.channelsMutex.Lock()
 	defer c.channelsMutex.Unlock()
 
 	for subjectSubscriptionPattern, sc := range c.channels {
 		if MatchSubjectSubscription(subjectSubscriptionPattern, subject) {
-			return sc
+			return sc, true
 		}
 	}
 
-	return nil
+	return nil, len(c.channels) > 0
 }
 
 // MatchSubjectSubscription checks whether a NATS subject matches a subscription string.
-- 
2.43.0


From 8f0295cc65ddc60ca4f83765030c58ddf4d309e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 082/106] fix: Kafka publications succeeded even when the
 broker refused or lost the message, as no acknowledgment was required

---
 pkg/extensions/brokers/kafka/kafka.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 431722e..64c0378 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -150,6 +150,9 @@ func (c *Controller) Publish(ctx context.Context, channel string, um extensions.
 		Addr:     kafka.TCP(c.hosts...),
 		Topic:    channel,
 		Balancer: &kafka.LeastBytes{},
+		// Wait for the brokers to store the message, as nothing (even errors) would
+		// be received from them otherwise
+		RequiredAcks: kafka.RequireAll,
 		Transport: &kafka.Transport{
 			// reuse the optionally TLS and SASLMechanism from dialer provided by the user to pass it to the writer
 			// it can be nil
-- 
2.43.0


From ad092a8261aabadc53fd1e4211e5e463bec71ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 083/106] fix: Kafka publications left their connections (and
 goroutines) open

---
 pkg/extensions/brokers/kafka/kafka.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 64c0378..add42b3 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -145,6 +145,15 @@ func WithConnectionTest(enabled bool) ControllerOption {
 
 // Publish a message to the broker.
 func (c *Controller) Publish(ctx context.Context, channel string, um extensions.BrokerMessage) error {
+	// Create new transport, whose connections should be closed at the end
+	transport := &kafka.Transport{
+		// reuse the optionally TLS and SASLMechanism from dialer provided by the user to pass it to the writer
+		// it can be nil
+		TLS:  c.dialer.TLS.Clone(),
+		SASL: c.dialer.SASLMechanism,
+	}
+	defer transport.CloseIdleConnections()
+
 	// Create new writer
 	w := kafka.Writer{
 		Addr:     kafka.TCP(c.hosts...),
@@ -153,12 +162,7 @@ func (c *Controller) Publish(ctx context.Context, channel string, um extensions.
 		// Wait for the brokers to store the message, as nothing (even errors) would
 		// be received from them otherwise
 		RequiredAcks: kafka.RequireAll,
-		Transport: &kafka.Transport{
-			// reuse the optionally TLS and SASLMechanism from dialer provided by the user to pass it to the writer
-			// it can be nil
-			TLS:  c.dialer.TLS.Clone(),
-			SASL: c.dialer.SASLMechanism,
-		},
+		Transport:    transport,
 	}
 
 	defer w.Close()
-- 
2.43.0


From 5dea1cd6a26dcb63a119e9b88fb63ac0f72c1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:15 +0000
Subject: [PATCH 084/106] fix: Kafka subscriptions failed because of the state
 of another topic, or when their new topic had no leader yet

---
 pkg/extensions/brokers/kafka/kafka.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index add42b3..86d02c9 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -263,26 +263,29 @@ func (c *Controller) checkTopicExistOrCreateIt(ctx context.Context, topic string
 			return err
 		}
 
-		// Read partitions
-		partitions, err := conn.ReadPartitions()
-		if err != nil {
+		// Read partitions of this topic only, as the state of the others does not matter
+		partitions, err := conn.ReadPartitions(topic)
+		if err != nil && !isTopicBeingCreated(err) {
 			return err
 		}
 
-		// Get topic from partitions
-		for _, p := range partitions {
-			if topic == p.Topic {
-				if i > 0 {
-					c.logger.Warning(ctx, fmt.Sprintf("Topic %s has been created.", topic))
-				}
-				return nil
+		// Check that the topic is available
+		if err == nil && len(partitions) > 0 {
+			if i > 0 {
+				c.logger.Warning(ctx, fmt.Sprintf("Topic %s has been created.", topic))
 			}
+			return nil
 		}
 
 		c.logger.Warning(ctx, fmt.Sprintf("Topic %s doesn't exists yet, retrying (#%d)", topic, i))
 	}
 }
 
+// isTopicBeingCreated tells if the error means that the topic is not entirely created.
+func isTopicBeingCreated(err error) bool {
+	return errors.Is(err, kafka.UnknownTopicOrPartition) || errors.Is(err, kafka.LeaderNotAvailable)
+}
+
 // autoCommitMessagesHandler provides a MessagesHandler with auto commit.
 //
 // Using auto commit could result in an offset being committed before the
-- 
2.43.0


From 442e774ae87342f5090024e7408692a7d61f1026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:22 +0000
Subject: [PATCH 085/106] fix: Kafka topics could not be created when the first
 host was not the controller of the cluster

---
 pkg/extensions/brokers/kafka/kafka.go | 39 ++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 86d02c9..5e4631a 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -6,6 +6,8 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"net"
+	"strconv"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers"
@@ -253,13 +255,7 @@ func (c *Controller) checkTopicExistOrCreateIt(ctx context.Context, topic string
 
 	for i := 0; ; i++ {
 		// Create topic
-		topicConfigs := []kafka.TopicConfig{{
-			Topic:             topic,
-			NumPartitions:     1,
-			ReplicationFactor: 1,
-		}}
-		err = conn.CreateTopics(topicConfigs...)
-		if err != nil {
+		if err := c.createTopic(ctx, conn, topic); err != nil {
 			return err
 		}
 
@@ -281,6 +277,35 @@ func (c *Controller) checkTopicExistOrCreateIt(ctx context.Context, topic string
 	}
 }
 
+// createTopic creates the topic if it doesn't exist.
+func (c *Controller) createTopic(ctx context.Context, conn *kafka.Conn, topic string) error {
+	topicConfig := kafka.TopicConfig{
+		Topic:             topic,
+		NumPartitions:     1,
+		ReplicationFactor: 1,
+	}
+
+	// Create topic, if the broker is the controller of the cluster
+	err := conn.CreateTopics(topicConfig)
+	if !errors.Is(err, kafka.NotController) {
+		return err
+	}
+
+	// Ask it to the controller otherwise, as it is the only one that can do it
+	broker, err := conn.Controller()
+	if err != nil {
+		return err
+	}
+	addr := net.JoinHostPort(broker.Host, strconv.Itoa(broker.Port))
+	controllerConn, err := c.dialer.DialContext(ctx, "tcp", addr)
+	if err != nil {
+		return err
+	}
+	defer controllerConn.Close()
+
+	return controllerConn.CreateTopics(topicConfig)
+}
+
 // isTopicBeingCreated tells if the error means that the topic is not entirely created.
 func isTopicBeingCreated(err error) bool {
 	return errors.Is(err, kafka.UnknownTopicOrPartition) || errors.Is(err, kafka.LeaderNotAvailable)
-- 
2.43.0


From 4531b68dfba94af4521d028aad32dabc4512c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 086/106] fix: Kafka subscriptions and publications ignored the
 end of their context while their topic was being created, without any pause

---
 pkg/extensions/brokers/kafka/kafka.go | 32 ++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 5e4631a..ee2bd0a 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"net"
 	"strconv"
+	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers"
@@ -15,6 +16,9 @@ import (
 	"github.com/segmentio/kafka-go/sasl"
 )
 
+// topicCreationRetryDelay is the time to wait between two checks of the existence of a topic.
+const topicCreationRetryDelay = 100 * time.Millisecond
+
 // Check that it still fills the interface.
 var _ extensions.BrokerController = (*Controller)(nil)
 
@@ -197,6 +201,9 @@ func (c *Controller) Publish(ctx context.Context, channel string, um extensions.
 				return err
 			}
 
+			// Drop the connections, as they cache the absence of the topic
+			transport.CloseIdleConnections()
+
 			continue
 		}
 
@@ -247,22 +254,25 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 
 func (c *Controller) checkTopicExistOrCreateIt(ctx context.Context, topic string) error {
 	// Get connection to first host
-	conn, err := c.dialer.Dial("tcp", c.hosts[0])
+	conn, err := c.dialer.DialContext(ctx, "tcp", c.hosts[0])
 	if err != nil {
 		return err
 	}
 	defer conn.Close()
 
+	// Interrupt what is done on the connection when the context is done
+	defer context.AfterFunc(ctx, func() { conn.Close() })()
+
 	for i := 0; ; i++ {
 		// Create topic
 		if err := c.createTopic(ctx, conn, topic); err != nil {
-			return err
+			return contextErrorOr(ctx, err)
 		}
 
 		// Read partitions of this topic only, as the state of the others does not matter
 		partitions, err := conn.ReadPartitions(topic)
 		if err != nil && !isTopicBeingCreated(err) {
-			return err
+			return contextErrorOr(ctx, err)
 		}
 
 		// Check that the topic is available
@@ -274,7 +284,22 @@ func (c *Controller) checkTopicExistOrCreateIt(ctx context.Context, topic string
 		}
 
 		c.logger.Warning(ctx, fmt.Sprintf("Topic %s doesn't exists yet, retrying (#%d)", topic, i))
+
+		// Wait before retrying
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case <-time.After(topicCreationRetryDelay):
+		}
+	}
+}
+
+// contextErrorOr returns the error of the context if it is done, or the given error.
+func contextErrorOr(ctx context.Context, err error) error {
+	if ctxErr := ctx.Err(); ctxErr != nil {
+		return ctxErr
 	}
+	return err
 }
 
 // createTopic creates the topic if it doesn't exist.
@@ -302,6 +327,7 @@ func (c *Controller) createTopic(ctx context.Context, conn *kafka.Conn, topic st
 		return err
 	}
 	defer controllerConn.Close()
+	defer context.AfterFunc(ctx, func() { controllerConn.Close() })()
 
 	return controllerConn.CreateTopics(topicConfig)
 }
-- 
2.43.0


From 7c52489cfcbacb1f494747e1cff951a1c10b92b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:07 +0000
Subject: [PATCH 087/106] fix: Kafka subscriptions ended silently, or lost a
 message, at the first error of a broker

---
 pkg/extensions/brokers/kafka/kafka.go | 60 +++++++++++++++++++--------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index ee2bd0a..ebb1b04 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -5,7 +5,6 @@ import (
 	"crypto/tls"
 	"errors"
 	"fmt"
-	"io"
 	"net"
 	"strconv"
 	"time"
@@ -236,14 +235,16 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 	)
 
 	// Handle events
+	closing := make(chan struct{})
 	if c.autoCommit {
-		go autoCommitMessagesHandler(&c.logger)(ctx, r, sub)
+		go autoCommitMessagesHandler(&c.logger, closing)(ctx, r, sub)
 	} else {
-		go manualCommitMessagesHandler(&c.logger)(ctx, r, sub)
+		go manualCommitMessagesHandler(&c.logger, closing)(ctx, r, sub)
 	}
 
 	// Wait for cancellation and stop the kafka listener when it happens
 	sub.WaitForCancellationAsync(func() {
+		close(closing)
 		if err := r.Close(); err != nil {
 			c.logger.Error(ctx, err.Error())
 		}
@@ -337,6 +338,32 @@ func isTopicBeingCreated(err error) bool {
 	return errors.Is(err, kafka.UnknownTopicOrPartition) || errors.Is(err, kafka.LeaderNotAvailable)
 }
 
+// fetchMessage gets the next message, whatever the errors that happen in the
+// meantime as the reader overcomes them. It returns false when there will be no
+// more message: the reader is being closed, or the context is done.
+func fetchMessage(
+	ctx context.Context,
+	r *kafka.Reader,
+	closing <-chan struct{},
+	logger extensions.Logger,
+) (kafka.Message, bool) {
+	for {
+		msg, err := r.FetchMessage(ctx)
+		if err == nil {
+			return msg, true
+		}
+
+		select {
+		case <-closing:
+			return kafka.Message{}, false
+		case <-ctx.Done():
+			return kafka.Message{}, false
+		default:
+			logger.Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
+		}
+	}
+}
+
 // autoCommitMessagesHandler provides a MessagesHandler with auto commit.
 //
 // Using auto commit could result in an offset being committed before the
@@ -345,19 +372,22 @@ func isTopicBeingCreated(err error) bool {
 // Maybe consider to use the manualCommitMessagesHandler.
 func autoCommitMessagesHandler(
 	logger *extensions.Logger,
+	closing <-chan struct{},
 ) func(ctx context.Context, r *kafka.Reader, sub extensions.BrokerChannelSubscription) {
 	return func(ctx context.Context, r *kafka.Reader, sub extensions.BrokerChannelSubscription) {
 		for {
-			msg, err := r.ReadMessage(ctx)
-			if err != nil {
-				// If the error is not io.EOF, then it is a real error
-				if !errors.Is(err, io.EOF) {
-					(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
-				}
-
+			msg, ok := fetchMessage(ctx, r, closing, *logger)
+			if !ok {
 				return
 			}
 
+			// Commit the message, which should be transmitted even if it fails
+			if r.Config().GroupID != "" {
+				if err := r.CommitMessages(ctx, msg); err != nil {
+					(*logger).Warning(ctx, fmt.Sprintf("Error when committing message: %q", err.Error()))
+				}
+			}
+
 			// Get headers
 			headers := make(map[string][]byte, len(msg.Headers))
 			for _, header := range msg.Headers {
@@ -379,16 +409,12 @@ func autoCommitMessagesHandler(
 // the message is committed by user via the AcknowledgementHandler.
 func manualCommitMessagesHandler(
 	logger *extensions.Logger,
+	closing <-chan struct{},
 ) func(ctx context.Context, r *kafka.Reader, sub extensions.BrokerChannelSubscription) {
 	return func(ctx context.Context, r *kafka.Reader, sub extensions.BrokerChannelSubscription) {
 		for {
-			msg, err := r.FetchMessage(ctx)
-			if err != nil {
-				// If the error is not io.EOF, then it is a real error
-				if !errors.Is(err, io.EOF) {
-					(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
-				}
-
+			msg, ok := fetchMessage(ctx, r, closing, *logger)
+			if !ok {
 				return
 			}
 
-- 
2.43.0


From fb7d002cb73fa52ed9dfb22eae601050a12c16a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:33 +0000
Subject: [PATCH 088/106] fix: Kafka controllers that could not be created left
 their connection open, and waited forever for a silent broker

---
 pkg/extensions/brokers/kafka/kafka.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index ebb1b04..eb55de1 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -80,11 +80,19 @@ func NewController(hosts []string, options ...ControllerOption) (*Controller, er
 			return nil, fmt.Errorf("failed to create dialer for kafka: %w", err)
 		}
 
+		defer conn.Close()
+
+		// Don't wait indefinitely for an answer
+		if controller.dialer.Timeout > 0 {
+			if err := conn.SetDeadline(time.Now().Add(controller.dialer.Timeout)); err != nil {
+				return nil, fmt.Errorf("failed to connect to kafka: %w", err)
+			}
+		}
+
 		_, err = conn.Brokers()
 		if err != nil {
 			return nil, fmt.Errorf("failed to connect to kafka: %w", err)
 		}
-		conn.Close()
 	}
 
 	return controller, nil
-- 
2.43.0


From 233c63f0a128b7421d4c660f9a83dafba5bffd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 089/106] fix: Kafka controllers panicked when they had no
 host, or inconsistent options

---
 pkg/extensions/brokers/kafka/kafka.go | 29 +++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index eb55de1..9d5302c 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -18,6 +18,8 @@ import (
 // topicCreationRetryDelay is the time to wait between two checks of the existence of a topic.
 const topicCreationRetryDelay = 100 * time.Millisecond
 
+var errNoHost = errors.New("no kafka host has been given")
+
 // Check that it still fills the interface.
 var _ extensions.BrokerController = (*Controller)(nil)
 
@@ -71,6 +73,11 @@ func NewController(hosts []string, options ...ControllerOption) (*Controller, er
 		option(controller)
 	}
 
+	// Check that there is a host to connect to
+	if len(hosts) == 0 {
+		return nil, errNoHost
+	}
+
 	// kafka has no ping or something like this to test if dialer can create a successful connection to kafka
 	// so if connectionTest is enabled create a connection and try to list brokers from kafka and validate
 	// we can make a connection to kafka
@@ -221,20 +228,26 @@ func (c *Controller) Publish(ctx context.Context, channel string, um extensions.
 
 // Subscribe to messages from the broker.
 func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.BrokerChannelSubscription, error) {
-	// Check that topic exists before
-	if err := c.checkTopicExistOrCreateIt(ctx, channel); err != nil {
-		return extensions.BrokerChannelSubscription{}, err
-	}
-
-	// Create reader
-	r := kafka.NewReader(kafka.ReaderConfig{
+	// Check the reader configuration, as it panics otherwise
+	config := kafka.ReaderConfig{
 		Brokers:   c.hosts,
 		Topic:     channel,
 		Partition: c.partition,
 		MaxBytes:  c.maxBytes,
 		GroupID:   c.groupID,
 		Dialer:    c.dialer,
-	})
+	}
+	if err := config.Validate(); err != nil {
+		return extensions.BrokerChannelSubscription{}, err
+	}
+
+	// Check that topic exists before
+	if err := c.checkTopicExistOrCreateIt(ctx, channel); err != nil {
+		return extensions.BrokerChannelSubscription{}, err
+	}
+
+	// Create reader
+	r := kafka.NewReader(config)
 
 	// Create subscription
 	sub := extensions.NewBrokerChannelSubscription(
-- 
2.43.0


From abcab2b6ca949a57eda4824d10decfb80f5f84d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 090/106] fix: acknowledging a Kafka message could block
 forever once the subscription was cancelled

---
 pkg/extensions/brokers/kafka/kafka.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 9d5302c..76eeee0 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -257,10 +257,11 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 
 	// Handle events
 	closing := make(chan struct{})
+	handlerCtx, cancelHandler := context.WithCancel(ctx)
 	if c.autoCommit {
-		go autoCommitMessagesHandler(&c.logger, closing)(ctx, r, sub)
+		go autoCommitMessagesHandler(&c.logger, closing)(handlerCtx, r, sub)
 	} else {
-		go manualCommitMessagesHandler(&c.logger, closing)(ctx, r, sub)
+		go manualCommitMessagesHandler(&c.logger, closing)(handlerCtx, r, sub)
 	}
 
 	// Wait for cancellation and stop the kafka listener when it happens
@@ -269,6 +270,9 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		if err := r.Close(); err != nil {
 			c.logger.Error(ctx, err.Error())
 		}
+
+		// Release the commits that will not be answered now that the reader is closed
+		cancelHandler()
 	})
 
 	return sub, nil
-- 
2.43.0


From 5fe0245c3d46b8b321defba749b933030cdd545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 091/106] fix: Kafka publications whose context was done still
 waited for the answer of a silent broker

---
 pkg/extensions/brokers/kafka/kafka.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 76eeee0..75bb193 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -172,7 +172,6 @@ func (c *Controller) Publish(ctx context.Context, channel string, um extensions.
 		TLS:  c.dialer.TLS.Clone(),
 		SASL: c.dialer.SASLMechanism,
 	}
-	defer transport.CloseIdleConnections()
 
 	// Create new writer
 	w := kafka.Writer{
@@ -185,7 +184,19 @@ func (c *Controller) Publish(ctx context.Context, channel string, um extensions.
 		Transport:    transport,
 	}
 
-	defer w.Close()
+	// Close the writer and its connections at the end, without waiting for the
+	// attempts in progress if the context is done
+	defer func() {
+		closeWriter := func() {
+			w.Close()
+			transport.CloseIdleConnections()
+		}
+		if ctx.Err() != nil {
+			go closeWriter()
+		} else {
+			closeWriter()
+		}
+	}()
 
 	// Create the message
 	msg := kafka.Message{
-- 
2.43.0


From 5c22d3c96d2cf0876beebb3ce64ed794c5007391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 092/106] fix: do not keep the options of a previous generation
 in the same process

---
 pkg/codegen/codegen.go                         |  5 +++++
 pkg/codegen/generators/v2/templates/helpers.go | 12 ++++++++++++
 pkg/codegen/generators/v3/templates/helpers.go | 12 ++++++++++++
 pkg/utils/template/helpers.go                  |  8 ++++++++
 4 files changed, 37 insertions(+)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 5293bcd..588a727 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -92,6 +92,11 @@ func (cg CodeGen) Generate(opt options.Options) error {
 		return err
 	}
 
+	// Do not keep the options of a previous generation
+	template.ResetDateOrTimeGeneration()
+	templatesv2.ResetPointerOnFields()
+	templatesv3.ResetPointerOnFields()
+
 	if opt.IgnoreStringFormat {
 		template.DisableDateOrTimeGeneration()
 	}
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 5d31cb3..2b5873e 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -150,6 +150,18 @@ var isCorrelationIDPointer = func(required bool) bool {
 	return !required
 }
 
+var (
+	defaultIsFieldPointer         = isFieldPointer
+	defaultIsCorrelationIDPointer = isCorrelationIDPointer
+)
+
+// ResetPointerOnFields is used to go back to the default generation of pointers,
+// after having forced it.
+func ResetPointerOnFields() {
+	isFieldPointer = defaultIsFieldPointer
+	isCorrelationIDPointer = defaultIsCorrelationIDPointer
+}
+
 // ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
 func ForcePointerOnFields() {
 	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 83d672c..eedbc01 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -136,6 +136,18 @@ var isCorrelationIDPointer = func(required bool) bool {
 	return !required
 }
 
+var (
+	defaultIsFieldPointer         = isFieldPointer
+	defaultIsCorrelationIDPointer = isCorrelationIDPointer
+)
+
+// ResetPointerOnFields is used to go back to the default generation of pointers,
+// after having forced it.
+func ResetPointerOnFields() {
+	isFieldPointer = defaultIsFieldPointer
+	isCorrelationIDPointer = defaultIsCorrelationIDPointer
+}
+
 // ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
 func ForcePointerOnFields() {
 	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index fd5db1b..6841dfe 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -165,6 +165,14 @@ var isDateOrDateTimeGenerated = func(format string) bool {
 	return format == "date" || format == "date-time"
 }
 
+var defaultIsDateOrDateTimeGenerated = isDateOrDateTimeGenerated
+
+// ResetDateOrTimeGeneration is used to go back to the default generation of date/date-time formats,
+// after having disabled it.
+func ResetDateOrTimeGeneration() {
+	isDateOrDateTimeGenerated = defaultIsDateOrDateTimeGenerated
+}
+
 // DisableDateOrTimeGeneration is used to disable the generation of date/date-time formats within types.
 func DisableDateOrTimeGeneration() {
 	isDateOrDateTimeGenerated = func(_ string) bool { return false }
-- 
2.43.0


From 7b5acbcbcd8f6f08086e691768ad7a185f626486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 093/106] fix: use the messages of the reply, when its channel
 has several ones

---
 pkg/asyncapi/v3/operation.go                     |  7 ++++---
 .../generators/v3/templates/controller.tmpl      | 16 ++++++++--------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 5f5db02..4c76bf5 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -206,9 +206,10 @@ func (op *Operation) generateReply() error {
 	// Generate reply
 	ch := op.Reply.Channel.Follow()
 	op.ReplyIs = &Operation{
-		Name:    "ReplyTo" + op.Name,
-		Channel: ch,
-		ReplyOf: op,
+		Name:     "ReplyTo" + op.Name,
+		Channel:  ch,
+		Messages: op.Reply.Messages,
+		ReplyOf:  op,
 	}
 
 	return nil
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index af1c4c4..63187b5 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -410,14 +410,14 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     params {{namifyWithoutParam $value.Channel.Follow.Name}}Parameters,
     {{- end}}
     msg {{opToMsgTypeName $value}},
-) ({{channelToMessageTypeName .Reply.Channel}}, error) {
+) ({{opToMsgTypeName .ReplyIs}}, error) {
     // Get receiving channel address
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
         {{- if not (isCorrelationIDPointer .Reply.Address.LocationRequired) }}
             addr := msg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- else }}
             if msg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
-                return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+                return {{opToMsgTypeName .ReplyIs}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
             addr := *msg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- end }}
@@ -433,7 +433,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     sub, err := c.broker.Subscribe(ctx, addr)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{channelToMessageTypeName .Reply.Channel}}{}, err
+        return {{opToMsgTypeName .ReplyIs}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -456,7 +456,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     // Send the message 
     if err := c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }}(ctx, {{- if .Channel.Follow.Parameters}}params,{{- end}} msg); err != nil {
         c.logger.Error(ctx, "error happened when sending message", extensions.LogInfo{Key: "error", Value: err.Error()})
-        return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("error happened when sending message: %w", err)
+        return {{opToMsgTypeName .ReplyIs}}{}, fmt.Errorf("error happened when sending message: %w", err)
     }
 
     // Wait for corresponding response
@@ -465,7 +465,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
         msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.GetMessage.HaveCorrelationID}}, msg{{end}})
         if err != nil {
             c.logger.Error(ctx, err.Error())
-            return {{channelToMessageTypeName .Reply.Channel}}{}, err
+            return {{opToMsgTypeName .ReplyIs}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -484,7 +484,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
     {{- if $value.GetMessage.HaveCorrelationID}}
     msg {{opToMsgTypeName $value}},
     {{- end}}
-) (*{{channelToMessageTypeName .Reply.Channel}}, error) {
+) (*{{opToMsgTypeName .ReplyIs}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, addr)
@@ -506,7 +506,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
 
         {{if and $value.GetMessage.HaveCorrelationID $value.ReplyIs.GetMessage.HaveCorrelationID -}}
         // Get new message
-        rmsg, err := brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err := brokerMessageTo{{opToMsgTypeName .ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             c.logger.Error(msgCtx, err.Error())
         }
@@ -538,7 +538,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         //
         // NOTE: it is transformed from the broker again, as it could have
         // been modified by middlewares
-        rmsg, err {{ if not (and $value.GetMessage.HaveCorrelationID $value.ReplyIs.GetMessage.HaveCorrelationID)}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err {{ if not (and $value.GetMessage.HaveCorrelationID $value.ReplyIs.GetMessage.HaveCorrelationID)}}:{{end}}= brokerMessageTo{{opToMsgTypeName .ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
-- 
2.43.0


From 0eaba61e918af29559632cd79b33b3e1940b74d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:48 +0000
Subject: [PATCH 094/106] fix: use the types of the properties, items and
 payloads that are referenced

Only objects and the schemas of the components have a type of their own: references
to other ones used types that don't exist.
---
 pkg/codegen/generators/v2/templates/helpers.go    | 15 +++++++++++++++
 pkg/codegen/generators/v2/templates/message.tmpl  |  2 +-
 .../generators/v2/templates/schema_name.tmpl      |  4 ++++
 pkg/codegen/generators/v3/templates/helpers.go    | 15 +++++++++++++++
 pkg/codegen/generators/v3/templates/message.tmpl  |  2 +-
 .../generators/v3/templates/schema_name.tmpl      |  4 ++++
 6 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 2b5873e..60bd82e 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -41,6 +41,20 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 	return filteredSchemas
 }
 
+// HasTypeDefinition will check if the schema that is referenced has a type of its
+// own in the generated code, as objects and schemas from components have.
+func HasTypeDefinition(schema asyncapi.Schema) bool {
+	var ref string
+	followed := &schema
+	for ; followed.ReferenceTo != nil; followed = followed.ReferenceTo {
+		ref = followed.Reference
+	}
+
+	_, path, _ := strings.Cut(ref, "#/")
+	path, found := strings.CutPrefix(path, "components/schemas/")
+	return (found && !strings.Contains(path, "/")) || followed.Type == asyncapi.SchemaTypeIsObject.String()
+}
+
 // referenceToSlicePath will convert a reference to a slice where each element is a
 // step of the path.
 func referenceToSlicePath(ref string) []string {
@@ -178,6 +192,7 @@ func HelpersFunctions() template.FuncMap {
 	return template.FuncMap{
 		"getChildrenObjectSchemas":       GetChildrenObjectSchemas,
 		"channelToMessage":               ChannelToMessage,
+		"hasTypeDefinition":              HasTypeDefinition,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
 		"isCorrelationIDPointer":         isCorrelationIDPointer,
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 9e03fb6..7914eac 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -106,7 +106,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.Follow.Name }}(payload)
+            msg.Payload = {{template "schema-name" .Payload}}(payload)
         {{- else if .Payload.ExtGoType}}
             msg.Payload = {{ .Payload.ExtGoType }}(payload)
         {{- else}}
diff --git a/pkg/codegen/generators/v2/templates/schema_name.tmpl b/pkg/codegen/generators/v2/templates/schema_name.tmpl
index 0433efe..9031ccb 100644
--- a/pkg/codegen/generators/v2/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_name.tmpl
@@ -69,7 +69,11 @@ struct {
 
 {{- /* ---------------------------- Reference --------------------------- */ -}}
 {{- else if .ReferenceTo -}}
+{{- if hasTypeDefinition . -}}
 {{ namify .Follow.Name }}
+{{- else -}}
+{{ template "schema-name" .Follow }}
+{{- end -}}
 
 {{- /* ----------------------- Unsupported use case ---------------------- */ -}}
 {{- else -}}
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index eedbc01..2e15d12 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -41,6 +41,20 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 	return filteredSchemas
 }
 
+// HasTypeDefinition will check if the schema that is referenced has a type of its
+// own in the generated code, as objects and schemas from components have.
+func HasTypeDefinition(schema asyncapi.Schema) bool {
+	var ref string
+	followed := &schema
+	for ; followed.ReferenceTo != nil; followed = followed.ReferenceTo {
+		ref = followed.Reference
+	}
+
+	_, path, _ := strings.Cut(ref, "#/")
+	path, found := strings.CutPrefix(path, "components/schemas/")
+	return (found && !strings.Contains(path, "/")) || followed.Type == asyncapi.SchemaTypeIsObject.String()
+}
+
 // referenceToSlicePath will convert a reference to a slice where each element is a
 // step of the path.
 func referenceToSlicePath(ref string) []string {
@@ -166,6 +180,7 @@ func HelpersFunctions() template.FuncMap {
 		"channelToMessageTypeName":       ChannelToMessageTypeName,
 		"opToMsgTypeName":                OpToMsgTypeName,
 		"opToChannelTypeName":            OpToChannelTypeName,
+		"hasTypeDefinition":              HasTypeDefinition,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
 		"isCorrelationIDPointer":         isCorrelationIDPointer,
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 9ada38e..ba560c2 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -115,7 +115,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.Follow.Name }}(payload)
+            msg.Payload = {{template "schema-name" .Payload}}(payload)
         {{- else if .Payload.ExtGoType}}
             msg.Payload = {{ .Payload.ExtGoType }}(payload)
         {{- else}}
diff --git a/pkg/codegen/generators/v3/templates/schema_name.tmpl b/pkg/codegen/generators/v3/templates/schema_name.tmpl
index 3af4ff2..9a1f52b 100644
--- a/pkg/codegen/generators/v3/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_name.tmpl
@@ -69,7 +69,11 @@ struct {
 
 {{- /* ---------------------------- Reference --------------------------- */ -}}
 {{- else if .ReferenceTo -}}
+{{- if hasTypeDefinition . -}}
 {{ namify .Follow.Name }}
+{{- else -}}
+{{ template "schema-name" .Follow }}
+{{- end -}}
 
 {{- /* ----------------------- Unsupported usecase ---------------------- */ -}}
 {{- else -}}
-- 
2.43.0


From b23a10d39b18e0b5f8421343a524f41b10ef756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 095/106] fix: follow the references to the messages of
 components/channels, and unescape references and locations

The slashes and tildes of the names in references are escaped (~1, ~0), the dots
of names aren't steps, and 'header' is only special as the first step.
---
 pkg/asyncapi/v2/message.go                    |  4 ++--
 pkg/asyncapi/v2/specification.go              |  3 ++-
 pkg/asyncapi/v3/channel.go                    | 18 +++++++++++++++
 pkg/asyncapi/v3/message.go                    |  4 ++--
 pkg/asyncapi/v3/operation_reply_address.go    |  5 +++--
 pkg/asyncapi/v3/specification.go              | 22 +++++--------------
 .../generators/v2/templates/helpers.go        |  7 +++---
 .../generators/v3/templates/helpers.go        |  7 +++---
 pkg/utils/string.go                           | 16 +++++++++++++-
 9 files changed, 54 insertions(+), 32 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 6ef7c25..74f198f 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -294,7 +294,7 @@ func (msg Message) isCorrelationIDRequired() bool {
 	}
 
 	correlationIDParent := msg.createTreeUntilCorrelationID()
-	path := strings.Split(msg.CorrelationID.Location, "/")
+	path := utils.SplitJSONPointer(msg.CorrelationID.Location)
 	return correlationIDParent.IsFieldRequired(path[len(path)-1])
 }
 
@@ -352,7 +352,7 @@ func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField)
 func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Schema) {
 	var exists bool
 
-	path := strings.Split(msg.CorrelationID.Location, "/")
+	path := utils.SplitJSONPointer(msg.CorrelationID.Location)
 	for i, v := range path[1:] {
 		// Keep the parent
 		correlationIDParent = child.Follow()
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 54eb3c2..59e22c8 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 const (
@@ -257,7 +258,7 @@ func (s Specification) reference(ref string) (any, error) {
 
 	// Separate each part of the reference
 	ref = strings.TrimPrefix(ref, "/")
-	refPath := strings.Split(ref, "/")
+	refPath := utils.SplitJSONPointer(ref)
 
 	switch refPath[0] {
 	case "components":
diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 6ce9eea..fb8fdf9 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -161,6 +161,24 @@ func (ch *Channel) setReference(spec Specification) error {
 	return nil
 }
 
+func (ch *Channel) referenceFrom(path []string, ref string) (any, error) {
+	if len(path) == 0 {
+		return ch, nil
+	}
+
+	// There is nothing to reference in a channel that doesn't exist
+	if ch == nil || len(path) == 1 {
+		return nil, fmt.Errorf("%w: empty target for reference %q", ErrInvalidReference, ref)
+	}
+
+	switch path[0] {
+	case "messages":
+		return ch.Messages[path[1]].referenceFrom(path[2:]), nil
+	default:
+		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, path[0], ref)
+	}
+}
+
 // Follow returns referenced channel if specified or the actual channel.
 func (ch *Channel) Follow() *Channel {
 	if ch.ReferenceTo != nil {
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 1a1d14f..c56e8b0 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -327,7 +327,7 @@ func (msg Message) isCorrelationIDRequired() bool {
 	}
 
 	correlationIDParent := msg.createTreeUntilLocation(msg.CorrelationID.Location)
-	path := strings.Split(msg.CorrelationID.Location, "/")
+	path := utils.SplitJSONPointer(msg.CorrelationID.Location)
 	return correlationIDParent.IsFieldRequired(path[len(path)-1])
 }
 
@@ -389,7 +389,7 @@ func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, locat
 func (msg Message) downToLocation(child *Schema, location string) (locationParent *Schema) {
 	var exists bool
 
-	path := strings.Split(location, "/")
+	path := utils.SplitJSONPointer(location)
 	for i, v := range path[1:] {
 		// Keep the parent
 		locationParent = child.Follow()
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index c7c1d81..81374b2 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -2,7 +2,8 @@ package asyncapiv3
 
 import (
 	"fmt"
-	"strings"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 // OperationReplyAddress is a representation of the corresponding asyncapi object
@@ -86,7 +87,7 @@ func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error)
 	}
 
 	locationParent := msg.Follow().createTreeUntilLocation(ora.Location)
-	path := strings.Split(ora.Location, "/")
+	path := utils.SplitJSONPointer(ora.Location)
 	return locationParent.IsFieldRequired(path[len(path)-1]), nil
 }
 
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 17d6ae7..c3c6e23 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 const (
@@ -727,14 +728,14 @@ func (s Specification) reference(ref string) (any, error) {
 
 	// Separate each part of the reference
 	ref = strings.TrimPrefix(ref, "/")
-	refPath := strings.Split(ref, "/")
+	refPath := utils.SplitJSONPointer(ref)
 
 	switch refPath[0] {
 	case "components":
 		if len(refPath) < 3 {
 			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
 		}
-		if len(refPath) > 3 && refPath[1] != "schemas" && refPath[1] != "messages" {
+		if len(refPath) > 3 && refPath[1] != "schemas" && refPath[1] != "messages" && refPath[1] != "channels" {
 			return nil, fmt.Errorf("%w: empty target for reference %q", ErrInvalidReference, ref)
 		}
 		switch refPath[1] {
@@ -744,7 +745,7 @@ func (s Specification) reference(ref string) (any, error) {
 		case "servers":
 			return usedSpec.Components.Servers[refPath[2]], nil
 		case "channels":
-			return usedSpec.Components.Channels[refPath[2]], nil
+			return usedSpec.Components.Channels[refPath[2]].referenceFrom(refPath[3:], ref)
 		case "operations":
 			return usedSpec.Components.Operations[refPath[2]], nil
 		case "messages":
@@ -790,21 +791,10 @@ func (s Specification) reference(ref string) (any, error) {
 		}
 		return usedSpec.Servers[refPath[1]], nil
 	case "channels":
-		switch {
-		case len(refPath) < 2:
+		if len(refPath) < 2 {
 			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
-		case len(refPath) == 2:
-			return usedSpec.Channels[refPath[1]], nil
-		case len(refPath) == 3 || usedSpec.Channels[refPath[1]] == nil:
-			return nil, fmt.Errorf("%w: empty target for reference %q", ErrInvalidReference, ref)
-		}
-		switch refPath[2] {
-		case "messages":
-			msg := usedSpec.Channels[refPath[1]].Messages[refPath[3]]
-			return msg.referenceFrom(refPath[4:]), nil
-		default:
-			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[2], ref)
 		}
+		return usedSpec.Channels[refPath[1]].referenceFrom(refPath[2:], ref)
 	default:
 		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[0], ref)
 	}
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 60bd82e..293c0fe 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -58,9 +58,8 @@ func HasTypeDefinition(schema asyncapi.Schema) bool {
 // referenceToSlicePath will convert a reference to a slice where each element is a
 // step of the path.
 func referenceToSlicePath(ref string) []string {
-	ref = strings.ReplaceAll(ref, ".", "/")
-	ref = strings.ReplaceAll(ref, "#", "")
-	return strings.Split(ref, "/")[1:]
+	root, path, _ := strings.Cut(strings.TrimPrefix(ref, "$message."), "#/")
+	return append([]string{root}, utils.SplitJSONPointer(path)...)
 }
 
 // ReferenceToStructAttributePath will convert a reference to a struct attribute
@@ -71,7 +70,7 @@ func ReferenceToStructAttributePath(ref string) string {
 
 	for k, v := range path {
 		// If this is concerning the header, then it will be named "headers"
-		if v == asyncapi.MessageFieldIsHeader.String() {
+		if k == 0 && v == asyncapi.MessageFieldIsHeader.String() {
 			v = "headers"
 		}
 
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 2e15d12..0c3c3e6 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -58,9 +58,8 @@ func HasTypeDefinition(schema asyncapi.Schema) bool {
 // referenceToSlicePath will convert a reference to a slice where each element is a
 // step of the path.
 func referenceToSlicePath(ref string) []string {
-	ref = strings.ReplaceAll(ref, ".", "/")
-	ref = strings.ReplaceAll(ref, "#", "")
-	return strings.Split(ref, "/")[1:]
+	root, path, _ := strings.Cut(strings.TrimPrefix(ref, "$message."), "#/")
+	return append([]string{root}, utils.SplitJSONPointer(path)...)
 }
 
 // ReferenceToStructAttributePath will convert a reference to a struct attribute
@@ -71,7 +70,7 @@ func ReferenceToStructAttributePath(ref string) string {
 
 	for k, v := range path {
 		// If this is concerning the header, then it will be named "headers"
-		if v == asyncapi.MessageFieldIsHeader.String() {
+		if k == 0 && v == asyncapi.MessageFieldIsHeader.String() {
 			v = "headers"
 		}
 
diff --git a/pkg/utils/string.go b/pkg/utils/string.go
index ef6f5d7..9440c5b 100644
--- a/pkg/utils/string.go
+++ b/pkg/utils/string.go
@@ -1,6 +1,9 @@
 package utils
 
-import "unicode"
+import (
+	"strings"
+	"unicode"
+)
 
 // UpperFirstLetter returns the given string with the first letter in uppercase.
 func UpperFirstLetter(str string) string {
@@ -8,3 +11,14 @@ func UpperFirstLetter(str string) string {
 	r[0] = unicode.ToUpper(r[0])
 	return string(r)
 }
+
+var jsonPointerUnescaper = strings.NewReplacer("~1", "/", "~0", "~")
+
+// SplitJSONPointer returns the steps of the given JSON pointer, unescaped.
+func SplitJSONPointer(pointer string) []string {
+	path := strings.Split(pointer, "/")
+	for i, step := range path {
+		path[i] = jsonPointerUnescaper.Replace(step)
+	}
+	return path
+}
-- 
2.43.0


From e4afb19eb1af1baa6e9ce1ddeca56b8ebdf5129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 096/106] fix: correlation IDs and reply addresses inside
 optional objects

Messages without these objects made the code panic, on creation, reception and reply.
---
 .../generators/v2/templates/helpers.go        | 36 +++++++++++++++++++
 .../generators/v2/templates/message.tmpl      | 24 +++++++++++++
 .../generators/v3/templates/controller.tmpl   | 13 +++++++
 .../generators/v3/templates/helpers.go        | 36 +++++++++++++++++++
 .../generators/v3/templates/message.tmpl      | 24 +++++++++++++
 5 files changed, 133 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 293c0fe..e7d3f38 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -41,6 +41,41 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 	return filteredSchemas
 }
 
+// LocationPointer is a pointer to go through to reach a location in a message.
+type LocationPointer struct {
+	// Path is the path of the pointer in the message structure.
+	Path string
+	// Schema is the schema of what is pointed.
+	Schema *asyncapi.Schema
+}
+
+// LocationPointers will return the pointers, that can be nil, to go through in
+// order to reach the location in the message.
+func LocationPointers(msg asyncapi.Message, location string) []LocationPointer {
+	steps := referenceToSlicePath(location)
+	parent, path := msg.Payload, "Payload"
+	if steps[0] == asyncapi.MessageFieldIsHeader.String() {
+		parent, path = msg.Headers, "Headers"
+	}
+
+	var pointers []LocationPointer
+	for _, step := range steps[1 : len(steps)-1] {
+		parent = parent.Follow()
+		child, exists := parent.Properties[step]
+		if !exists {
+			break
+		}
+
+		path += "." + templateutil.Namify(step)
+		if isFieldPointer(*parent, step, *child) {
+			pointers = append(pointers, LocationPointer{Path: path, Schema: child})
+		}
+		parent = child
+	}
+
+	return pointers
+}
+
 // HasTypeDefinition will check if the schema that is referenced has a type of its
 // own in the generated code, as objects and schemas from components have.
 func HasTypeDefinition(schema asyncapi.Schema) bool {
@@ -192,6 +227,7 @@ func HelpersFunctions() template.FuncMap {
 		"getChildrenObjectSchemas":       GetChildrenObjectSchemas,
 		"channelToMessage":               ChannelToMessage,
 		"hasTypeDefinition":              HasTypeDefinition,
+		"locationPointers":               LocationPointers,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
 		"isCorrelationIDPointer":         isCorrelationIDPointer,
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 7914eac..91bfdca 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -34,6 +34,9 @@ func New{{namify .Name}}() {{namify .Name}} {
 
     {{if ne $.CorrelationIDLocation "" -}}
     // Set correlation ID
+    {{- range locationPointers $ $.CorrelationIDLocation}}
+    msg.{{.Path}} = new({{template "schema-name" .Schema}})
+    {{- end}}
     u := uuid.New().String()
     msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isCorrelationIDPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
@@ -273,6 +276,11 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if ne $.CorrelationIDLocation "" -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
+    {{- range locationPointers $ $.CorrelationIDLocation}}
+    if msg.{{.Path}} == nil {
+        return ""
+    }
+    {{- end}}
     {{if not (isCorrelationIDPointer $.CorrelationIDRequired) -}}
         return msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
     {{- else -}}
@@ -286,6 +294,7 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
+    {{- template "copy-location-pointers" (locationPointers $ $.CorrelationIDLocation)}}
     msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 
@@ -294,7 +303,22 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
+    {{- template "copy-location-pointers" (locationPointers $ $.CorrelationIDLocation)}}
     msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 {{- end -}}
 {{- end }}
+
+
+{{define "copy-location-pointers"}}
+    {{- range . }}
+    {
+        // Do not change what may be shared with other messages
+        parent := new({{template "schema-name" .Schema}})
+        if msg.{{.Path}} != nil {
+            *parent = *msg.{{.Path}}
+        }
+        msg.{{.Path}} = parent
+    }
+    {{- end}}
+{{- end -}}
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 63187b5..46f9155 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -300,6 +300,12 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
     // Publish reply
     {{- /* Use reply address if needed */}}
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
+        {{- $location := .Reply.Address.Location }}
+        {{- range locationPointers $value.GetMessage.Follow $location }}
+            if recvMsg.{{.Path}} == nil {
+                return fmt.Errorf("%w: {{$location}} is empty", extensions.ErrChannelAddressEmpty)
+            }
+        {{- end }}
         {{- if not (isCorrelationIDPointer .Reply.Address.LocationRequired) }}
             chanAddr := recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- else }}
@@ -413,6 +419,13 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
 ) ({{opToMsgTypeName .ReplyIs}}, error) {
     // Get receiving channel address
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
+        {{- $location := .Reply.Address.Location }}
+        {{- $replyType := opToMsgTypeName .ReplyIs }}
+        {{- range locationPointers $value.GetMessage.Follow $location }}
+            if msg.{{.Path}} == nil {
+                return {{$replyType}}{}, fmt.Errorf("%w: {{$location}} is empty", extensions.ErrChannelAddressEmpty)
+            }
+        {{- end }}
         {{- if not (isCorrelationIDPointer .Reply.Address.LocationRequired) }}
             addr := msg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- else }}
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 0c3c3e6..5d45089 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -41,6 +41,41 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 	return filteredSchemas
 }
 
+// LocationPointer is a pointer to go through to reach a location in a message.
+type LocationPointer struct {
+	// Path is the path of the pointer in the message structure.
+	Path string
+	// Schema is the schema of what is pointed.
+	Schema *asyncapi.Schema
+}
+
+// LocationPointers will return the pointers, that can be nil, to go through in
+// order to reach the location in the message.
+func LocationPointers(msg asyncapi.Message, location string) []LocationPointer {
+	steps := referenceToSlicePath(location)
+	parent, path := msg.Payload, "Payload"
+	if steps[0] == asyncapi.MessageFieldIsHeader.String() {
+		parent, path = msg.Headers, "Headers"
+	}
+
+	var pointers []LocationPointer
+	for _, step := range steps[1 : len(steps)-1] {
+		parent = parent.Follow()
+		child, exists := parent.Properties[step]
+		if !exists {
+			break
+		}
+
+		path += "." + templateutil.Namify(step)
+		if isFieldPointer(*parent, step, *child) {
+			pointers = append(pointers, LocationPointer{Path: path, Schema: child})
+		}
+		parent = child
+	}
+
+	return pointers
+}
+
 // HasTypeDefinition will check if the schema that is referenced has a type of its
 // own in the generated code, as objects and schemas from components have.
 func HasTypeDefinition(schema asyncapi.Schema) bool {
@@ -180,6 +215,7 @@ func HelpersFunctions() template.FuncMap {
 		"opToMsgTypeName":                OpToMsgTypeName,
 		"opToChannelTypeName":            OpToChannelTypeName,
 		"hasTypeDefinition":              HasTypeDefinition,
+		"locationPointers":               LocationPointers,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
 		"isCorrelationIDPointer":         isCorrelationIDPointer,
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index ba560c2..cecb48b 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -43,6 +43,9 @@ func New{{namify .Name}}() {{namify .Name}} {
 
     {{if $.HaveCorrelationID -}}
     // Set correlation ID
+    {{- range locationPointers $.Follow $.Follow.CorrelationID.Location}}
+    msg.{{.Path}} = new({{template "schema-name" .Schema}})
+    {{- end}}
     u := uuid.New().String()
     msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isCorrelationIDPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
@@ -283,6 +286,11 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if $.HaveCorrelationID -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
+    {{- range locationPointers $.Follow $.Follow.CorrelationID.Location}}
+    if msg.{{.Path}} == nil {
+        return ""
+    }
+    {{- end}}
     {{if not (isCorrelationIDPointer $.CorrelationIDRequired) -}}
         return msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
     {{- else -}}
@@ -296,6 +304,7 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
+    {{- template "copy-location-pointers" (locationPointers $.Follow $.Follow.CorrelationID.Location)}}
     msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 
@@ -304,6 +313,7 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
+    {{- template "copy-location-pointers" (locationPointers $.Follow $.Follow.CorrelationID.Location)}}
     msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 {{- end -}}
@@ -311,3 +321,17 @@ func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
 {{- end -}}
 
 {{- end }}
+
+
+{{define "copy-location-pointers"}}
+    {{- range . }}
+    {
+        // Do not change what may be shared with other messages
+        parent := new({{template "schema-name" .Schema}})
+        if msg.{{.Path}} != nil {
+            *parent = *msg.{{.Path}}
+        }
+        msg.{{.Path}} = parent
+    }
+    {{- end}}
+{{- end -}}
-- 
2.43.0


From 0b89c376ca9d44598b04d2445454e6e2056fdc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 097/106] fix: correlation IDs and reply addresses that are
 defined by reference

---
 .../generators/v2/templates/helpers.go        | 28 +++++++++++++------
 .../generators/v2/templates/message.tmpl      | 20 +++++++++----
 .../generators/v3/templates/controller.tmpl   |  8 +++---
 .../generators/v3/templates/helpers.go        | 28 +++++++++++++------
 .../generators/v3/templates/message.tmpl      | 20 +++++++++----
 5 files changed, 74 insertions(+), 30 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index e7d3f38..aa5e4ab 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -52,28 +52,39 @@ type LocationPointer struct {
 // LocationPointers will return the pointers, that can be nil, to go through in
 // order to reach the location in the message.
 func LocationPointers(msg asyncapi.Message, location string) []LocationPointer {
+	pointers, _ := followLocation(msg, location)
+	return pointers
+}
+
+// LocationSchema will return the schema at the location in the message.
+func LocationSchema(msg asyncapi.Message, location string) *asyncapi.Schema {
+	_, schema := followLocation(msg, location)
+	return schema
+}
+
+func followLocation(msg asyncapi.Message, location string) ([]LocationPointer, *asyncapi.Schema) {
 	steps := referenceToSlicePath(location)
-	parent, path := msg.Payload, "Payload"
+	schema, path := msg.Payload, "Payload"
 	if steps[0] == asyncapi.MessageFieldIsHeader.String() {
-		parent, path = msg.Headers, "Headers"
+		schema, path = msg.Headers, "Headers"
 	}
 
 	var pointers []LocationPointer
-	for _, step := range steps[1 : len(steps)-1] {
-		parent = parent.Follow()
+	for i, step := range steps[1:] {
+		parent := schema.Follow()
 		child, exists := parent.Properties[step]
 		if !exists {
-			break
+			return pointers, utils.ToPointer(asyncapi.NewSchema())
 		}
 
 		path += "." + templateutil.Namify(step)
-		if isFieldPointer(*parent, step, *child) {
+		if i < len(steps)-2 && isFieldPointer(*parent, step, *child) {
 			pointers = append(pointers, LocationPointer{Path: path, Schema: child})
 		}
-		parent = child
+		schema = child
 	}
 
-	return pointers
+	return pointers, schema
 }
 
 // HasTypeDefinition will check if the schema that is referenced has a type of its
@@ -228,6 +239,7 @@ func HelpersFunctions() template.FuncMap {
 		"channelToMessage":               ChannelToMessage,
 		"hasTypeDefinition":              HasTypeDefinition,
 		"locationPointers":               LocationPointers,
+		"locationSchema":                 LocationSchema,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
 		"isCorrelationIDPointer":         isCorrelationIDPointer,
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 91bfdca..ddb17ec 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -37,7 +37,8 @@ func New{{namify .Name}}() {{namify .Name}} {
     {{- range locationPointers $ $.CorrelationIDLocation}}
     msg.{{.Path}} = new({{template "schema-name" .Schema}})
     {{- end}}
-    u := uuid.New().String()
+    {{- $schema := locationSchema $ $.CorrelationIDLocation}}
+    u := {{if $schema.Reference}}{{template "schema-name" $schema}}(uuid.New().String()){{else}}uuid.New().String(){{end}}
     msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isCorrelationIDPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
@@ -276,16 +277,17 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if ne $.CorrelationIDLocation "" -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
+    {{- $schema := locationSchema $ $.CorrelationIDLocation}}
     {{- range locationPointers $ $.CorrelationIDLocation}}
     if msg.{{.Path}} == nil {
         return ""
     }
     {{- end}}
     {{if not (isCorrelationIDPointer $.CorrelationIDRequired) -}}
-        return msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
+        return {{if $schema.Reference}}string({{end}}msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}{{if $schema.Reference}}){{end}}
     {{- else -}}
     if msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} != nil{
-        return *msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
+        return {{if $schema.Reference}}string({{end}}*msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}{{if $schema.Reference}}){{end}}
     }
 
     return ""
@@ -295,7 +297,11 @@ func (msg {{namify .Name}}) CorrelationID() string {
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
     {{- template "copy-location-pointers" (locationPointers $ $.CorrelationIDLocation)}}
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}id
+    {{- $schema := locationSchema $ $.CorrelationIDLocation}}
+    {{- if $schema.Reference}}
+    value := {{template "schema-name" $schema}}(id)
+    {{- end}}
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}{{if $schema.Reference}}value{{else}}id{{end}}
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
@@ -304,7 +310,11 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
     {{- template "copy-location-pointers" (locationPointers $ $.CorrelationIDLocation)}}
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}id
+    {{- $schema := locationSchema $ $.CorrelationIDLocation}}
+    {{- if $schema.Reference}}
+    value := {{template "schema-name" $schema}}(id)
+    {{- end}}
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}{{if $schema.Reference}}value{{else}}id{{end}}
 }
 {{- end -}}
 {{- end }}
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 46f9155..c39d782 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -307,12 +307,12 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
             }
         {{- end }}
         {{- if not (isCorrelationIDPointer .Reply.Address.LocationRequired) }}
-            chanAddr := recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            chanAddr := string(recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}})
         {{- else }}
             if recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
                 return fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
-            chanAddr := *recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            chanAddr := string(*recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}})
         {{- end }}
 
         return c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}ReplyTo{{ namify $value.Follow.Name }}(ctx, chanAddr, replyMsg)
@@ -427,12 +427,12 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
             }
         {{- end }}
         {{- if not (isCorrelationIDPointer .Reply.Address.LocationRequired) }}
-            addr := msg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            addr := string(msg.{{referenceToStructAttributePath .Reply.Address.Location}})
         {{- else }}
             if msg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
                 return {{opToMsgTypeName .ReplyIs}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
-            addr := *msg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            addr := string(*msg.{{referenceToStructAttributePath .Reply.Address.Location}})
         {{- end }}
     {{- else }}
         addr := {{ generateChannelAddr .Reply.Channel }}
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 5d45089..fb02fea 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -52,28 +52,39 @@ type LocationPointer struct {
 // LocationPointers will return the pointers, that can be nil, to go through in
 // order to reach the location in the message.
 func LocationPointers(msg asyncapi.Message, location string) []LocationPointer {
+	pointers, _ := followLocation(msg, location)
+	return pointers
+}
+
+// LocationSchema will return the schema at the location in the message.
+func LocationSchema(msg asyncapi.Message, location string) *asyncapi.Schema {
+	_, schema := followLocation(msg, location)
+	return schema
+}
+
+func followLocation(msg asyncapi.Message, location string) ([]LocationPointer, *asyncapi.Schema) {
 	steps := referenceToSlicePath(location)
-	parent, path := msg.Payload, "Payload"
+	schema, path := msg.Payload, "Payload"
 	if steps[0] == asyncapi.MessageFieldIsHeader.String() {
-		parent, path = msg.Headers, "Headers"
+		schema, path = msg.Headers, "Headers"
 	}
 
 	var pointers []LocationPointer
-	for _, step := range steps[1 : len(steps)-1] {
-		parent = parent.Follow()
+	for i, step := range steps[1:] {
+		parent := schema.Follow()
 		child, exists := parent.Properties[step]
 		if !exists {
-			break
+			return pointers, utils.ToPointer(asyncapi.NewSchema())
 		}
 
 		path += "." + templateutil.Namify(step)
-		if isFieldPointer(*parent, step, *child) {
+		if i < len(steps)-2 && isFieldPointer(*parent, step, *child) {
 			pointers = append(pointers, LocationPointer{Path: path, Schema: child})
 		}
-		parent = child
+		schema = child
 	}
 
-	return pointers
+	return pointers, schema
 }
 
 // HasTypeDefinition will check if the schema that is referenced has a type of its
@@ -216,6 +227,7 @@ func HelpersFunctions() template.FuncMap {
 		"opToChannelTypeName":            OpToChannelTypeName,
 		"hasTypeDefinition":              HasTypeDefinition,
 		"locationPointers":               LocationPointers,
+		"locationSchema":                 LocationSchema,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
 		"isCorrelationIDPointer":         isCorrelationIDPointer,
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index cecb48b..6c9d7d7 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -46,7 +46,8 @@ func New{{namify .Name}}() {{namify .Name}} {
     {{- range locationPointers $.Follow $.Follow.CorrelationID.Location}}
     msg.{{.Path}} = new({{template "schema-name" .Schema}})
     {{- end}}
-    u := uuid.New().String()
+    {{- $schema := locationSchema $.Follow $.Follow.CorrelationID.Location}}
+    u := {{if $schema.Reference}}{{template "schema-name" $schema}}(uuid.New().String()){{else}}uuid.New().String(){{end}}
     msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isCorrelationIDPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
@@ -286,16 +287,17 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if $.HaveCorrelationID -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
+    {{- $schema := locationSchema $.Follow $.Follow.CorrelationID.Location}}
     {{- range locationPointers $.Follow $.Follow.CorrelationID.Location}}
     if msg.{{.Path}} == nil {
         return ""
     }
     {{- end}}
     {{if not (isCorrelationIDPointer $.CorrelationIDRequired) -}}
-        return msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
+        return {{if $schema.Reference}}string({{end}}msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}{{if $schema.Reference}}){{end}}
     {{- else -}}
     if msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} != nil{
-        return *msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
+        return {{if $schema.Reference}}string({{end}}*msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}{{if $schema.Reference}}){{end}}
     }
 
     return ""
@@ -305,7 +307,11 @@ func (msg {{namify .Name}}) CorrelationID() string {
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
     {{- template "copy-location-pointers" (locationPointers $.Follow $.Follow.CorrelationID.Location)}}
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}id
+    {{- $schema := locationSchema $.Follow $.Follow.CorrelationID.Location}}
+    {{- if $schema.Reference}}
+    value := {{template "schema-name" $schema}}(id)
+    {{- end}}
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}{{if $schema.Reference}}value{{else}}id{{end}}
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
@@ -314,7 +320,11 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
     {{- template "copy-location-pointers" (locationPointers $.Follow $.Follow.CorrelationID.Location)}}
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}id
+    {{- $schema := locationSchema $.Follow $.Follow.CorrelationID.Location}}
+    {{- if $schema.Reference}}
+    value := {{template "schema-name" $schema}}(id)
+    {{- end}}
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isCorrelationIDPointer $.CorrelationIDRequired -}}&{{end}}{{if $schema.Reference}}value{{else}}id{{end}}
 }
 {{- end -}}
 
-- 
2.43.0


From fb65527ad351a47f82b2ab685c58c4cb101114d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 098/106] fix: correlation IDs inside objects that are
 referenced or come from traits

---
 pkg/asyncapi/v2/message.go | 38 ++++++++++++++++++++++++++++++--------
 pkg/asyncapi/v3/message.go | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 74f198f..115f20a 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -79,13 +79,7 @@ func (msg *Message) generateMetadata(name string) error {
 	}
 
 	// Generate OneOf metadata
-	if err := msg.generateOneOfMetadata(); err != nil {
-		return err
-	}
-
-	// Generate CorrelationID metadata
-	msg.generateCorrelationIDMetadata()
-	return nil
+	return msg.generateOneOfMetadata()
 }
 
 // setDependencies sets the dependencies for the Message and its children from the specification.
@@ -183,7 +177,12 @@ func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
 	}
 	msg.CorrelationIDLocation = loc
 
-	// Process correlation ID again, as it can be in a reference
+	// Process correlation ID, once what leads to it is known
+	if msg.CorrelationID != nil {
+		if err := msg.setLocationDependencies(spec, msg.CorrelationID.Location); err != nil {
+			return err
+		}
+	}
 	msg.generateCorrelationIDMetadata()
 
 	return nil
@@ -288,6 +287,29 @@ func (msg Message) getCorrelationIDLocation(spec Specification) (string, error)
 	return "", nil
 }
 
+// setLocationDependencies sets the dependencies of the schemas that lead to the location.
+func (msg *Message) setLocationDependencies(spec Specification, location string) error {
+	schema := msg.Payload
+	if strings.HasPrefix(location, "$message.header#") {
+		schema = msg.Headers
+	}
+
+	for _, step := range utils.SplitJSONPointer(location)[1:] {
+		if schema == nil {
+			return nil
+		}
+
+		for s := schema; s != nil; s = s.ReferenceTo {
+			if err := s.setDependencies(spec); err != nil {
+				return err
+			}
+		}
+		schema = schema.Follow().Properties[step]
+	}
+
+	return nil
+}
+
 func (msg Message) isCorrelationIDRequired() bool {
 	if msg.CorrelationID == nil || msg.CorrelationID.Location == "" {
 		return false
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index c56e8b0..2930b4e 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -113,10 +113,6 @@ func (msg *Message) generateMetadata(parentName, name string, number *int) error
 		return err
 	}
 
-	// Process correlation ID
-	msg.createCorrelationIDFieldIfMissing()
-	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
-
 	return nil
 }
 
@@ -177,7 +173,12 @@ func (msg *Message) setDependencies(spec Specification) error {
 		return err
 	}
 
-	// Process correlation ID again, as it can be in a reference or in a trait
+	// Process correlation ID, once what leads to it is known (references, traits)
+	if msg.CorrelationID != nil {
+		if err := msg.setLocationDependencies(spec, msg.CorrelationID.Location); err != nil {
+			return err
+		}
+	}
 	msg.createCorrelationIDFieldIfMissing()
 	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
 
@@ -321,6 +322,29 @@ func (msg *Message) setTraitsDependencies(spec Specification) error {
 	return nil
 }
 
+// setLocationDependencies sets the dependencies of the schemas that lead to the location.
+func (msg *Message) setLocationDependencies(spec Specification, location string) error {
+	schema := msg.Payload
+	if strings.HasPrefix(location, "$message.header#") {
+		schema = msg.Headers
+	}
+
+	for _, step := range utils.SplitJSONPointer(location)[1:] {
+		if schema == nil {
+			return nil
+		}
+
+		for s := schema; s != nil; s = s.ReferenceTo {
+			if err := s.setDependencies(spec); err != nil {
+				return err
+			}
+		}
+		schema = schema.Follow().Properties[step]
+	}
+
+	return nil
+}
+
 func (msg Message) isCorrelationIDRequired() bool {
 	if msg.CorrelationID == nil || msg.CorrelationID.Location == "" {
 		return false
-- 
2.43.0


From 8c7d1ddcd9c83e98ad6383ad218d2cd8ceb05702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 099/106] fix: documents (v3) with several securities for a
 server, or examples of messages that are not objects, were refused

---
 pkg/asyncapi/v3/message_example.go |  2 +-
 pkg/asyncapi/v3/security_scheme.go |  2 +-
 pkg/asyncapi/v3/server.go          | 16 ++++++++++------
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pkg/asyncapi/v3/message_example.go b/pkg/asyncapi/v3/message_example.go
index b6b6458..df56d3f 100644
--- a/pkg/asyncapi/v3/message_example.go
+++ b/pkg/asyncapi/v3/message_example.go
@@ -7,7 +7,7 @@ type MessageExample struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
 	Headers   map[string]any `json:"headers"`
-	Payload   map[string]any `json:"payload"`
+	Payload   any            `json:"payload"`
 	Name      string         `json:"name"`
 	Summary   string         `json:"summary"`
 	Reference string         `json:"$ref"`
diff --git a/pkg/asyncapi/v3/security_scheme.go b/pkg/asyncapi/v3/security_scheme.go
index 3638c60..c8240ca 100644
--- a/pkg/asyncapi/v3/security_scheme.go
+++ b/pkg/asyncapi/v3/security_scheme.go
@@ -22,7 +22,7 @@ type OAuthFlows struct {
 
 	Implicit          OAuthFlow `json:"implicit"`
 	Password          OAuthFlow `json:"password"`
-	ClientCredentials OAuthFlow `json:"clientCredential"`
+	ClientCredentials OAuthFlow `json:"clientCredentials"`
 	AuthorizationCode OAuthFlow `json:"authorizationCode"`
 
 	// --- Non AsyncAPI fields -------------------------------------------------
diff --git a/pkg/asyncapi/v3/server.go b/pkg/asyncapi/v3/server.go
index c2f53b0..9d0b372 100644
--- a/pkg/asyncapi/v3/server.go
+++ b/pkg/asyncapi/v3/server.go
@@ -14,7 +14,7 @@ type Server struct {
 	Title           string                     `json:"title"`
 	Summary         string                     `json:"summary"`
 	Variables       map[string]*ServerVariable `json:"variables"`
-	Security        *SecurityScheme            `json:"security"`
+	Security        []*SecurityScheme          `json:"security"`
 	Tags            []*Tag                     `json:"tags"`
 	ExternalDocs    *ExternalDocumentation     `json:"externalDocs"`
 	Bindings        *ServerBindings            `json:"bindings"`
@@ -41,8 +41,10 @@ func (srv *Server) generateMetadata(parentName, name string) {
 		s.generateMetadata(srv.Name, n)
 	}
 
-	// Generate security metadata
-	srv.Security.generateMetadata(srv.Name, "", nil)
+	// Generate securities metadata
+	for i, s := range srv.Security {
+		s.generateMetadata(srv.Name, "", &i)
+	}
 
 	// Generate tags metadata
 	for i, t := range srv.Tags {
@@ -75,9 +77,11 @@ func (srv *Server) setDependencies(spec Specification) error {
 		}
 	}
 
-	// Set security dependencies
-	if err := srv.Security.setDependencies(spec); err != nil {
-		return err
+	// Set securities dependencies
+	for _, s := range srv.Security {
+		if err := s.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	// Set tags dependencies
-- 
2.43.0


From 14d332d0a93d397d182eddf350b0cd833454fdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:30 +0000
Subject: [PATCH 100/106] fix: schemas whose additional properties are a
 boolean, or with contains or propertyNames (v3), were refused

---
 pkg/asyncapi/v2/schema.go | 34 ++++++++++++++++
 pkg/asyncapi/v3/schema.go | 83 ++++++++++++++++++++++++++++-----------
 2 files changed, 94 insertions(+), 23 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index ac59aef..406d8cb 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -1,6 +1,7 @@
 package asyncapiv2
 
 import (
+	"encoding/json"
 	"fmt"
 	"maps"
 	"slices"
@@ -69,6 +70,39 @@ func NewSchema() Schema {
 	}
 }
 
+// UnmarshalJSON unmarshals a schema, in which some sub-schemas can be booleans.
+func (s *Schema) UnmarshalJSON(data []byte) error {
+	type fields Schema // Without this method
+
+	aux := struct {
+		*fields
+		AdditionalProperties schemaOrBool `json:"additionalProperties"`
+	}{fields: (*fields)(s)}
+	if err := json.Unmarshal(data, &aux); err != nil {
+		return err
+	}
+
+	s.AdditionalProperties = aux.AdditionalProperties.schema
+
+	return nil
+}
+
+// schemaOrBool is a schema that can also be a boolean, which allows or forbids
+// without saying anything on the type: there is no schema then.
+type schemaOrBool struct {
+	schema *Schema
+}
+
+// UnmarshalJSON unmarshals the schema, or the boolean.
+func (sb *schemaOrBool) UnmarshalJSON(data []byte) error {
+	var b bool
+	if err := json.Unmarshal(data, &b); err == nil {
+		return nil
+	}
+
+	return json.Unmarshal(data, &sb.schema)
+}
+
 // generateMetadata generates metadata for the schema and its children.
 func (s *Schema) generateMetadata(name string, isRequired bool) error {
 	// Check that there is something
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index b56cc28..aec3968 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -1,6 +1,7 @@
 package asyncapiv3
 
 import (
+	"encoding/json"
 	"errors"
 	"fmt"
 	"strings"
@@ -42,10 +43,10 @@ type Schema struct {
 	Properties           map[string]*Schema `json:"properties"`
 	PatternProperties    map[string]*Schema `json:"patternProperties"`
 	AdditionalProperties *Schema            `json:"additionalProperties"`
-	AdditionalItems      []*Schema          `json:"additionalItems"`
+	AdditionalItems      *Schema            `json:"additionalItems"`
 	Items                *Schema            `json:"items"`
-	PropertyNames        []string           `json:"propertyNames"`
-	Contains             []*Schema          `json:"contains"`
+	PropertyNames        *Schema            `json:"propertyNames"`
+	Contains             *Schema            `json:"contains"`
 	AllOf                []*Schema          `json:"allOf"`
 	AnyOf                []*Schema          `json:"anyOf"`
 	OneOf                []*Schema          `json:"oneOf"`
@@ -85,6 +86,41 @@ func NewSchema() Schema {
 	}
 }
 
+// UnmarshalJSON unmarshals a schema, in which some sub-schemas can be booleans.
+func (s *Schema) UnmarshalJSON(data []byte) error {
+	type fields Schema // Without this method
+
+	aux := struct {
+		*fields
+		AdditionalProperties schemaOrBool `json:"additionalProperties"`
+		AdditionalItems      schemaOrBool `json:"additionalItems"`
+	}{fields: (*fields)(s)}
+	if err := json.Unmarshal(data, &aux); err != nil {
+		return err
+	}
+
+	s.AdditionalProperties = aux.AdditionalProperties.schema
+	s.AdditionalItems = aux.AdditionalItems.schema
+
+	return nil
+}
+
+// schemaOrBool is a schema that can also be a boolean, which allows or forbids
+// without saying anything on the type: there is no schema then.
+type schemaOrBool struct {
+	schema *Schema
+}
+
+// UnmarshalJSON unmarshals the schema, or the boolean.
+func (sb *schemaOrBool) UnmarshalJSON(data []byte) error {
+	var b bool
+	if err := json.Unmarshal(data, &b); err == nil {
+		return nil
+	}
+
+	return json.Unmarshal(data, &sb.schema)
+}
+
 // generateMetadata generates metadata for the Schema and its children.
 //
 //nolint:funlen,cyclop // Not necessary to reduce length and cyclop
@@ -125,10 +161,13 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 	}
 
 	// Generate Additional Items metadata
-	for i, item := range s.AdditionalItems {
-		if err := item.generateMetadata(s.Name, "Additional_Item", &i, false); err != nil {
-			return err
-		}
+	if err := s.AdditionalItems.generateMetadata(s.Name, "Additional_Item", nil, false); err != nil {
+		return err
+	}
+
+	// Generate Property Names metadata
+	if err := s.PropertyNames.generateMetadata(s.Name, "Property_Names", nil, false); err != nil {
+		return err
 	}
 
 	// Generate Items metadata
@@ -138,10 +177,8 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 	}
 
 	// Generate Contains metadata
-	for i, item := range s.Contains {
-		if err := item.generateMetadata("", s.Name+"_Content", &i, false); err != nil {
-			return err
-		}
+	if err := s.Contains.generateMetadata("", s.Name+"_Content", nil, false); err != nil {
+		return err
 	}
 
 	// Generate AnyOf metadata
@@ -186,8 +223,6 @@ func (s *Schema) refuseEmpty() error {
 	return errors.Join(
 		refuseEmpty("property", s.Properties),
 		refuseEmpty("pattern property", s.PatternProperties),
-		refuseEmptyItem("additional item", s.AdditionalItems),
-		refuseEmptyItem("content", s.Contains),
 		refuseEmptyItem("part of allOf", s.AllOf),
 		refuseEmptyItem("part of anyOf", s.AnyOf),
 		refuseEmptyItem("part of oneOf", s.OneOf),
@@ -235,10 +270,13 @@ func (s *Schema) setDependencies(spec Specification) error {
 	}
 
 	// Set Additional Items dependencies
-	for _, item := range s.AdditionalItems {
-		if err := item.setDependencies(spec); err != nil {
-			return err
-		}
+	if err := s.AdditionalItems.setDependencies(spec); err != nil {
+		return err
+	}
+
+	// Set Property Names dependencies
+	if err := s.PropertyNames.setDependencies(spec); err != nil {
+		return err
 	}
 
 	// Set Items dependencies
@@ -247,10 +285,8 @@ func (s *Schema) setDependencies(spec Specification) error {
 	}
 
 	// Set Contains dependencies
-	for _, item := range s.Contains {
-		if err := item.setDependencies(spec); err != nil {
-			return err
-		}
+	if err := s.Contains.setDependencies(spec); err != nil {
+		return err
 	}
 
 	// Set AnyOf dependencies
@@ -597,9 +633,10 @@ func (s *Schema) clone() *Schema {
 	c.Properties = cloneSchemasMap(s.Properties)
 	c.PatternProperties = cloneSchemasMap(s.PatternProperties)
 	c.AdditionalProperties = s.AdditionalProperties.clone()
-	c.AdditionalItems = cloneSchemas(s.AdditionalItems)
+	c.AdditionalItems = s.AdditionalItems.clone()
+	c.PropertyNames = s.PropertyNames.clone()
 	c.Items = s.Items.clone()
-	c.Contains = cloneSchemas(s.Contains)
+	c.Contains = s.Contains.clone()
 	c.AnyOf = cloneSchemas(s.AnyOf)
 	c.OneOf = cloneSchemas(s.OneOf)
 	c.AllOf = cloneSchemas(s.AllOf)
-- 
2.43.0


From 3d6dbede4f318d40f4695fc19a8332cb41e6c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:38 +0000
Subject: [PATCH 101/106] fix: traits by reference, applied on headers by
 reference, or with tags, bindings or description

---
 pkg/asyncapi/v3/message.go         | 19 ++++++++++--
 pkg/asyncapi/v3/message_trait.go   | 12 +++++++-
 pkg/asyncapi/v3/operation.go       |  9 +++++-
 pkg/asyncapi/v3/operation_trait.go | 49 ++++++++++++++++++++++++------
 pkg/asyncapi/v3/schema.go          | 16 ++++++++++
 pkg/asyncapi/v3/tag.go             | 16 +++++++---
 6 files changed, 102 insertions(+), 19 deletions(-)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 2930b4e..969e72d 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -311,9 +311,6 @@ func (msg *Message) setTraitsDependencies(spec Specification) error {
 		if err := t.setDependencies(spec); err != nil {
 			return err
 		}
-		if err := t.Follow().setDependencies(spec); err != nil {
-			return err
-		}
 		if err := msg.ApplyTrait(t.Follow(), spec); err != nil {
 			return err
 		}
@@ -616,6 +613,12 @@ func (msg *Message) ApplyTrait(mt *MessageTrait, spec Specification) error {
 		msg.ExternalDocs = &extDoc
 	}
 
+	// Override bindings if not set
+	if msg.Bindings == nil && mt.Bindings != nil {
+		bindings := *mt.Bindings
+		msg.Bindings = &bindings
+	}
+
 	// Merge examples
 	msg.Examples = append(msg.Examples, mt.Examples...)
 
@@ -637,6 +640,11 @@ func (msg *Message) mergeHeaders(spec Specification, headers *Schema) error {
 		return msg.Headers.setDependencies(spec)
 	}
 
+	// Do not change the referenced headers
+	if err := msg.Headers.replaceReference(spec, msg.Name, "Headers"); err != nil {
+		return err
+	}
+
 	// Merge headers, without defining the schemas of the trait several times
 	cloned := headers.clone()
 	if err := cloned.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
@@ -660,6 +668,11 @@ func (msg *Message) mergePayload(spec Specification, payload *Schema) error {
 		return msg.Payload.setDependencies(spec)
 	}
 
+	// Do not change the referenced payload
+	if err := msg.Payload.replaceReference(spec, msg.Name, "Payload"); err != nil {
+		return err
+	}
+
 	// Merge payload, without defining the schemas of the trait several times
 	cloned := payload.clone()
 	if err := cloned.generateMetadata(msg.Name, "Payload", nil, false); err != nil {
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index 7cd7d1d..862c0c1 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -30,6 +30,9 @@ type MessageTrait struct {
 	// According to: https://www.asyncapi.com/docs/reference/specification/v3.0.0#correlationIdObject
 	CorrelationIDLocation string `json:"-"`
 	CorrelationIDRequired bool   `json:"-"`
+
+	// dependenciesSet is true when the dependencies have been set
+	dependenciesSet bool
 }
 
 // generateMetadata generates metadata for the MessageTrait.
@@ -80,6 +83,12 @@ func (mt *MessageTrait) setDependencies(spec Specification) error {
 		return nil
 	}
 
+	// Do it only once, as it is also done before applying this trait
+	if mt.dependenciesSet {
+		return nil
+	}
+	mt.dependenciesSet = true
+
 	// Set reference
 	if err := mt.setReference(spec); err != nil {
 		return err
@@ -145,7 +154,8 @@ func (mt *MessageTrait) setReference(spec Specification) error {
 	}
 	mt.ReferenceTo = refTo
 
-	return nil
+	// Set dependencies of the referenced trait, as it may not be processed yet
+	return mt.ReferenceTo.setDependencies(spec)
 }
 
 // Follow returns referenced MessageTrait if specified or the actual MessageTrait.
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 4c76bf5..47aabf6 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -37,7 +37,7 @@ type Operation struct {
 	Channel      *Channel               `json:"channel"` // Reference only
 	Title        string                 `json:"title"`
 	Summary      string                 `json:"summary"`
-	Description  string                 `json:"string"`
+	Description  string                 `json:"description"`
 	Security     []*SecurityScheme      `json:"security"`
 	Tags         []*Tag                 `json:"tags"`
 	ExternalDocs *ExternalDocumentation `json:"externalDocs"`
@@ -132,6 +132,13 @@ func (op *Operation) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Set tags dependencies
+	for _, t := range op.Tags {
+		if err := t.setDependencies(spec); err != nil {
+			return err
+		}
+	}
+
 	// Set bindings dependencies if there is one
 	if err := op.Bindings.setDependencies(spec); err != nil {
 		return err
diff --git a/pkg/asyncapi/v3/operation_trait.go b/pkg/asyncapi/v3/operation_trait.go
index dd409ca..597b90c 100644
--- a/pkg/asyncapi/v3/operation_trait.go
+++ b/pkg/asyncapi/v3/operation_trait.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // OperationTrait is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#msgerationTraitObject
@@ -19,6 +21,9 @@ type OperationTrait struct {
 
 	Name        string          `json:"-"`
 	ReferenceTo *OperationTrait `json:"-"`
+
+	// dependenciesSet is true when the dependencies have been set
+	dependenciesSet bool
 }
 
 // generateMetadata generates metadata for the OperationTrait.
@@ -55,13 +60,15 @@ func (ot *OperationTrait) setDependencies(spec Specification) error {
 		return nil
 	}
 
-	// Add pointer to reference if there is one
-	if ot.Reference != "" {
-		refTo, err := spec.ReferenceOperationTrait(ot.Reference)
-		if err != nil {
-			return err
-		}
-		ot.ReferenceTo = refTo
+	// Do it only once, as it is also done before applying this trait
+	if ot.dependenciesSet {
+		return nil
+	}
+	ot.dependenciesSet = true
+
+	// Set reference
+	if err := ot.setReference(spec); err != nil {
+		return err
 	}
 
 	// Set securities dependencies
@@ -87,10 +94,34 @@ func (ot *OperationTrait) setDependencies(spec Specification) error {
 	return ot.Bindings.setDependencies(spec)
 }
 
-// Follow returns referenced MessageTrait if specified or the actual MessageTrait.
+func (ot *OperationTrait) setReference(spec Specification) error {
+	// check reference exists
+	if ot.Reference == "" {
+		return nil
+	}
+
+	// Add pointer to reference if there is one
+	refTo, err := spec.ReferenceOperationTrait(ot.Reference)
+	if err != nil {
+		return err
+	}
+
+	// Check that this is not a circular reference
+	for r := refTo; r != nil; r = r.ReferenceTo {
+		if r == ot {
+			return fmt.Errorf("%w: circular reference %q", ErrInvalidReference, ot.Reference)
+		}
+	}
+	ot.ReferenceTo = refTo
+
+	// Set dependencies of the referenced trait, as it may not be processed yet
+	return ot.ReferenceTo.setDependencies(spec)
+}
+
+// Follow returns referenced OperationTrait if specified or the actual OperationTrait.
 func (ot *OperationTrait) Follow() *OperationTrait {
 	if ot.ReferenceTo != nil {
-		return ot.ReferenceTo
+		return ot.ReferenceTo.Follow()
 	}
 	return ot
 }
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index aec3968..042606e 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -622,6 +622,22 @@ func (s *Schema) referenceObjects() *Schema {
 	}
 }
 
+// replaceReference replaces a schema that is a reference by a copy of the referenced
+// schema, that can be changed.
+func (s *Schema) replaceReference(spec Specification, parentName, name string) error {
+	if s.ReferenceTo == nil {
+		return nil
+	}
+
+	// Set dependencies of the referenced schema, as they can change it
+	if err := s.setReferencedDependencies(spec); err != nil {
+		return err
+	}
+
+	*s = *s.Follow().clone()
+	return s.generateMetadata(parentName, name, nil, false)
+}
+
 // clone returns a copy of the schema and of the ones that it contains, in order to
 // define them again elsewhere. The referenced schemas are not copied.
 func (s *Schema) clone() *Schema {
diff --git a/pkg/asyncapi/v3/tag.go b/pkg/asyncapi/v3/tag.go
index 199e144..5beb292 100644
--- a/pkg/asyncapi/v3/tag.go
+++ b/pkg/asyncapi/v3/tag.go
@@ -23,11 +23,9 @@ func (t *Tag) generateMetadata(parentName, name string, number *int) {
 		return
 	}
 
-	// Set name
-	t.Name = generateFullName(parentName, name, "Tag", number)
-
 	// Generate ExternalDocs metadata
-	t.ExternalDocs.generateMetadata(name, ExternalDocsNameSuffix)
+	// NOTE: the name of the tag is the one of the document
+	t.ExternalDocs.generateMetadata(generateFullName(parentName, name, "Tag", number), ExternalDocsNameSuffix)
 }
 
 // setDependencies sets dependencies between the different elements of the Tag.
@@ -54,13 +52,21 @@ func (t *Tag) setDependencies(spec Specification) error {
 	return nil
 }
 
+// Follow returns referenced Tag if specified or the actual Tag.
+func (t *Tag) Follow() *Tag {
+	if t.ReferenceTo != nil {
+		return t.ReferenceTo.Follow()
+	}
+	return t
+}
+
 // RemoveDuplicateTags removes the tags that have the same name, keeping the first occurrence.
 func RemoveDuplicateTags(tags []*Tag) []*Tag {
 	newList := make([]*Tag, 0)
 	for _, t := range tags {
 		present := false
 		for _, pt := range newList {
-			if pt.Name == t.Name {
+			if pt.Follow().Name == t.Follow().Name {
 				present = true
 				break
 			}
-- 
2.43.0


From 190d9d6af680cc38cfdc0e3eefa4df90da70791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 102/106] fix: do not copy twice the properties of composed
 schemas of traits

---
 pkg/asyncapi/v3/schema.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 042606e..1690439 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -653,10 +653,17 @@ func (s *Schema) clone() *Schema {
 	c.PropertyNames = s.PropertyNames.clone()
 	c.Items = s.Items.clone()
 	c.Contains = s.Contains.clone()
-	c.AnyOf = cloneSchemas(s.AnyOf)
-	c.OneOf = cloneSchemas(s.OneOf)
-	c.AllOf = cloneSchemas(s.AllOf)
 	c.Not = s.Not.clone()
+
+	// Do not copy the parts that are already merged with the properties, as their
+	// properties would be copied twice for each level of composition
+	c.AnyOf, c.OneOf, c.AllOf = nil, nil, nil
+	if !s.dependenciesSet {
+		c.AnyOf = cloneSchemas(s.AnyOf)
+		c.OneOf = cloneSchemas(s.OneOf)
+		c.AllOf = cloneSchemas(s.AllOf)
+	}
+
 	c.Required = append([]string(nil), s.Required...)
 
 	return &c
-- 
2.43.0


From 24052deb690547dc05015f6f6458690d2a08f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:08 +0000
Subject: [PATCH 103/106] fix: WaitFor functions (v2) are missing when the
 message is a reference to a reference

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 9ada3e8..d31bac9 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -336,7 +336,7 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
 
 {{if eq .Prefix "User" -}}
 {{- range  $key, $value := .SubscribeChannels -}}
-{{- if ne $value.Subscribe.Message.CorrelationIDLocation ""}}
+{{- if ne (channelToMessage $value "subscribe").CorrelationIDLocation ""}}
 // WaitFor{{operationName $value}} will wait for a specific message by its correlation ID.
 //
 // The pub function is the publication function that should be used to send the message.
-- 
2.43.0


From b31a6841e59cbff8e472a8b29fdf62900cc393f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:56 +0000
Subject: [PATCH 104/106] fix: custom imports that are already in the generated
 code are imported twice

---
 pkg/codegen/generators/v2/imports.go | 28 ++++++++++++++++++++++++++++
 pkg/codegen/generators/v3/imports.go | 28 ++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/pkg/codegen/generators/v2/imports.go b/pkg/codegen/generators/v2/imports.go
index 615bc7a..666ef79 100644
--- a/pkg/codegen/generators/v2/imports.go
+++ b/pkg/codegen/generators/v2/imports.go
@@ -2,6 +2,8 @@ package generatorv2
 
 import (
 	"bytes"
+	"path"
+	"strings"
 )
 
 // ImportsGenerator is a code generator for imports that will add needed imports
@@ -21,10 +23,36 @@ func (ig ImportsGenerator) Generate() (string, error) {
 		return "", err
 	}
 
+	// Do not import again the packages that are always imported
+	customImports := ig.CustomImports
+	ig.CustomImports = nil
 	buf := new(bytes.Buffer)
 	if err := tmplt.Execute(buf, ig); err != nil {
 		return "", err
 	}
+	for _, imp := range customImports {
+		if !isImported(buf.String(), imp) {
+			ig.CustomImports = append(ig.CustomImports, imp)
+		}
+	}
+
+	buf.Reset()
+	if err := tmplt.Execute(buf, ig); err != nil {
+		return "", err
+	}
 
 	return buf.String(), nil
 }
+
+// isImported returns true if the package of the custom import is already
+// imported in the code under the same name.
+func isImported(code, customImport string) bool {
+	name, quotedPath, named := strings.Cut(customImport, " ")
+	if !named {
+		quotedPath = customImport
+	} else if name != path.Base(strings.Trim(quotedPath, `"`)) {
+		return false
+	}
+
+	return strings.Contains(code, " "+quotedPath+"\n")
+}
diff --git a/pkg/codegen/generators/v3/imports.go b/pkg/codegen/generators/v3/imports.go
index 3a4cf46..71c8676 100644
--- a/pkg/codegen/generators/v3/imports.go
+++ b/pkg/codegen/generators/v3/imports.go
@@ -2,6 +2,8 @@ package generatorv3
 
 import (
 	"bytes"
+	"path"
+	"strings"
 )
 
 // ImportsGenerator is a code generator for imports that will add needed imports
@@ -21,10 +23,36 @@ func (ig ImportsGenerator) Generate() (string, error) {
 		return "", err
 	}
 
+	// Do not import again the packages that are always imported
+	customImports := ig.CustomImports
+	ig.CustomImports = nil
 	buf := new(bytes.Buffer)
 	if err := tmplt.Execute(buf, ig); err != nil {
 		return "", err
 	}
+	for _, imp := range customImports {
+		if !isImported(buf.String(), imp) {
+			ig.CustomImports = append(ig.CustomImports, imp)
+		}
+	}
+
+	buf.Reset()
+	if err := tmplt.Execute(buf, ig); err != nil {
+		return "", err
+	}
 
 	return buf.String(), nil
 }
+
+// isImported returns true if the package of the custom import is already
+// imported in the code under the same name.
+func isImported(code, customImport string) bool {
+	name, quotedPath, named := strings.Cut(customImport, " ")
+	if !named {
+		quotedPath = customImport
+	} else if name != path.Base(strings.Trim(quotedPath, `"`)) {
+		return false
+	}
+
+	return strings.Contains(code, " "+quotedPath+"\n")
+}
-- 
2.43.0


From c1551f86bbc2a69efbecc64c91fcc75a19f8c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:02 +0000
Subject: [PATCH 105/106] fix: x-go-type is ignored on the objects of the
 components

---
 pkg/codegen/generators/v2/templates/schema_definition.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/schema_definition.tmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index d42e949..6927093 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -6,7 +6,7 @@
 {{end -}}
 
 {{- /* ----------------------------- Object ----------------------------- */ -}}
-{{- if eq .Type "object" -}}
+{{- if and (eq .Type "object") (not .ExtGoType) -}}
 
 type {{ namify .Name }} struct {
     {{- range $key, $value := .Properties -}}
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index d42e949..6927093 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -6,7 +6,7 @@
 {{end -}}
 
 {{- /* ----------------------------- Object ----------------------------- */ -}}
-{{- if eq .Type "object" -}}
+{{- if and (eq .Type "object") (not .ExtGoType) -}}
 
 type {{ namify .Name }} struct {
     {{- range $key, $value := .Properties -}}
-- 
2.43.0


From 7f63d771c43e43fc63399af7b22b4c0a4ad68ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:09 +0000
Subject: [PATCH 106/106] fix: custom imports of inline parameters (v2) are
 missing

---
 pkg/asyncapi/v2/extensions.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index e7f31d4..762012c 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -93,6 +93,19 @@ func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName)
 	return nil
 }
 
+// parametersGoTypeImports collects custom imports in the schemas of the parameters.
+func parametersGoTypeImports(params map[string]*Parameter, imports map[GoTypeImportPath]GoTypeImportName) error {
+	for _, p := range params {
+		if p.Schema != nil {
+			if err := p.Schema.goTypeImports(imports); err != nil {
+				return err
+			}
+		}
+	}
+
+	return nil
+}
+
 // CustomImports collects all custom import paths set by x-go-type-imports
 // in all Schema Objects in the Specification.
 // Returns import strings like `alias "abc.xyz/repo/package"` for code generation.
@@ -113,6 +126,10 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 	}
 
 	for _, ch := range s.Channels {
+		if err := parametersGoTypeImports(ch.Parameters, importsSet); err != nil {
+			return nil, fmt.Errorf("/channels parameters custom import error: %w", err)
+		}
+
 		for _, op := range []*Operation{ch.Subscribe, ch.Publish} {
 			if op == nil {
 				continue
@@ -124,12 +141,8 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 		}
 	}
 
-	for _, v := range s.Components.Parameters {
-		if v.Schema != nil {
-			if err := v.Schema.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/parameters custom import error: %w", err)
-			}
-		}
+	if err := parametersGoTypeImports(s.Components.Parameters, importsSet); err != nil {
+		return nil, fmt.Errorf("/components/parameters custom import error: %w", err)
 	}
 
 	return importsMapToList(importsSet), nil
-- 
2.43.0

