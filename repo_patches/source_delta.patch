From b7a49e3175b8db538b8c190d03cce039ed3782cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 01/43] fix: make subscription cancellation wait for the
 clean-up and be idempotent

Cancel could receive its own request from a buffered cancel channel, in which
case it returned before (and without) the broker clean-up and the closing of
the messages channel. A second Cancel panicked on the closed cancel channel.
---
 pkg/extensions/broker.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/extensions/broker.go b/pkg/extensions/broker.go
index 123ec3d..1b0f915 100644
--- a/pkg/extensions/broker.go
+++ b/pkg/extensions/broker.go
@@ -3,6 +3,7 @@ package extensions
 import (
 	"context"
 	"fmt"
+	"sync"
 )
 
 // BrokerChannelSubscription is a struct that contains every returned structures
@@ -10,6 +11,13 @@ import (
 type BrokerChannelSubscription struct {
 	messages chan AcknowledgeableBrokerMessage
 	cancel   chan any
+	state    *subscriptionState
+}
+
+// subscriptionState is the state shared by every copy of a subscription.
+type subscriptionState struct {
+	request sync.Once     // guards the cancellation request, sent only once
+	done    chan struct{} // closed when the cancellation is complete
 }
 
 // NewBrokerChannelSubscription creates a new broker channel subscription based
@@ -21,6 +29,9 @@ func NewBrokerChannelSubscription(
 	return BrokerChannelSubscription{
 		messages: messages,
 		cancel:   cancel,
+		state: &subscriptionState{
+			done: make(chan struct{}),
+		},
 	}
 }
 
@@ -49,8 +60,9 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 		// Close messages in order to avoid new messages
 		close(bcs.messages)
 
-		// Close cancel to let listeners know that the cancellation is complete
+		// Let listeners know that the cancellation is complete
 		close(bcs.cancel)
+		close(bcs.state.done)
 	}()
 }
 
@@ -58,12 +70,12 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 // up on broker, which will return when finished to avoid dangling resources, such
 // as non-existent queue listeners on (broker) server side.
 func (bcs BrokerChannelSubscription) Cancel(ctx context.Context) {
-	// Send a cancellation request
-	bcs.cancel <- true
+	// Send a cancellation request, if it was not already done
+	bcs.state.request.Do(func() { bcs.cancel <- true })
 
 	// Wait for the cancellation to be effective
 	select {
-	case <-bcs.cancel:
+	case <-bcs.state.done:
 	case <-ctx.Done():
 	}
 }
-- 
2.43.0


From ecb131b394789e81fe4c09657bee9d1e914544c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 02/43] fix: do not panic when a message is transmitted during
 a cancellation

The messages channel was closed while a broker could still be transmitting on
it, which crashed the application with 'send on closed channel'.
---
 pkg/extensions/broker.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pkg/extensions/broker.go b/pkg/extensions/broker.go
index 1b0f915..bcad7fc 100644
--- a/pkg/extensions/broker.go
+++ b/pkg/extensions/broker.go
@@ -17,7 +17,9 @@ type BrokerChannelSubscription struct {
 // subscriptionState is the state shared by every copy of a subscription.
 type subscriptionState struct {
 	request sync.Once     // guards the cancellation request, sent only once
+	stop    chan struct{} // closed when no more message should be transmitted
 	done    chan struct{} // closed when the cancellation is complete
+	mutex   sync.RWMutex  // held (read) while transmitting, (write) while closing
 }
 
 // NewBrokerChannelSubscription creates a new broker channel subscription based
@@ -30,15 +32,31 @@ func NewBrokerChannelSubscription(
 		messages: messages,
 		cancel:   cancel,
 		state: &subscriptionState{
+			stop: make(chan struct{}),
 			done: make(chan struct{}),
 		},
 	}
 }
 
 // TransmitReceivedMessage should only be used by the broker to transmit the
-// new received messages to the user.
+// new received messages to the user. A message transmitted once the subscription
+// has been canceled is dropped.
 func (bcs BrokerChannelSubscription) TransmitReceivedMessage(msg AcknowledgeableBrokerMessage) {
-	bcs.messages <- msg
+	// Avoid closing the messages channel while transmitting
+	bcs.state.mutex.RLock()
+	defer bcs.state.mutex.RUnlock()
+
+	// Do not transmit if messages channel is already closed (or about to be)
+	select {
+	case <-bcs.state.stop:
+		return
+	default:
+	}
+
+	select {
+	case bcs.messages <- msg:
+	case <-bcs.state.stop:
+	}
 }
 
 // MessagesChannel returns the channel that will get the received messages from
@@ -57,8 +75,12 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 		// Execute cleanup function
 		cleanup()
 
-		// Close messages in order to avoid new messages
+		// Close messages in order to avoid new messages, when there is no more
+		// transmission in progress
+		close(bcs.state.stop)
+		bcs.state.mutex.Lock()
 		close(bcs.messages)
+		bcs.state.mutex.Unlock()
 
 		// Let listeners know that the cancellation is complete
 		close(bcs.cancel)
-- 
2.43.0


From 0748355589febb91629181d55dc37cbc1f437427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 03/43] fix: do not panic when publishing a message without
 headers through the version wrapper

---
 pkg/extensions/versioning/wrapper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extensions/versioning/wrapper.go b/pkg/extensions/versioning/wrapper.go
index e8a0b21..c2749b4 100644
--- a/pkg/extensions/versioning/wrapper.go
+++ b/pkg/extensions/versioning/wrapper.go
@@ -79,6 +79,9 @@ func WithVersionHeaderKey(headerKey string) WrapperOption {
 func (w *Wrapper) Publish(ctx context.Context, channel string, mw extensions.BrokerMessage) error {
 	// Add version to message
 	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsVersion, func(version string) {
+		if mw.Headers == nil {
+			mw.Headers = make(map[string][]byte)
+		}
 		mw.Headers[w.versionHeaderKey] = []byte(version)
 	})
 
-- 
2.43.0


From f9809a63464215d043b307d0af520a063b1b10d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 04/43] fix: release the versions lock when a message of an
 unregistered version is received

The first such message blocked every later message and (un)subscription.
---
 pkg/extensions/versioning/broker_subscription.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 49a837c..4630ff6 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -104,6 +104,9 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 			// Get the correct channel based on the version
 			vc, exists := bs.versionsChannels[version]
 			if !exists {
+				// Unlock the versions
+				bs.versionsMutex.Unlock()
+
 				// Set context
 				ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
 				ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, version)
-- 
2.43.0


From ad421931d96dad218952aab8c247f7bf83e97eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 05/43] fix: take the version wrapper locks in the same order
 everywhere

Subscribing a version while another one was removed could deadlock.
---
 pkg/extensions/versioning/broker_subscription.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 4630ff6..12665ac 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -50,6 +50,10 @@ func (bs *brokerSubscription) createVersionListener(ctx context.Context, version
 }
 
 func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *versionSubcription) {
+	// Lock the channels to avoid conflict (always before the versions, as when subscribing)
+	bs.parent.channelsMutex.Lock()
+	defer bs.parent.channelsMutex.Unlock()
+
 	// Lock the versions to avoid conflict
 	bs.versionsMutex.Lock()
 	defer bs.versionsMutex.Unlock()
@@ -57,10 +61,6 @@ func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *ver
 	// Remove the version from the channelsByBroker
 	delete(bs.versionsChannels, vs.version)
 
-	// Lock the channels to avoid conflict
-	bs.parent.channelsMutex.Lock()
-	defer bs.parent.channelsMutex.Unlock()
-
 	// If there is still version channels, do nothing
 	if len(bs.versionsChannels) > 0 {
 		return
-- 
2.43.0


From d974cc13dc17147029f586ed7f813a9c820f3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 06/43] fix: make JetStream subscriptions independent and safe
 to cancel

Cancelling a subscription closed a channel that was still used by the
consumption callback (panic: send on closed channel), by another subscription
on the same channel (panic: close of nil channel), and the channels map was
used without synchronization. A refused subscription also left a channel that
nobody reads, which blocked the consumption.
---
 .../brokers/natsjetstream/natsjetstream.go    | 84 +++++++++++++++----
 1 file changed, 67 insertions(+), 17 deletions(-)

diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index 108423c..b798c97 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -26,20 +27,28 @@ type Controller struct {
 	streamName     string
 	consumerName   string
 	consumeContext jetstream.ConsumeContext
-	channels       map[string]chan jetstream.Msg
+	channels       map[string]*channelListeners
+	channelsMutex  sync.Mutex // guards channels and consumeContext
 	streamConfig   *jetstream.StreamConfig
 	consumerConfig *jetstream.ConsumerConfig
 
 	nakDelay time.Duration
 }
 
+// channelListeners is the set of subscriptions on the same channel.
+type channelListeners struct {
+	messages chan jetstream.Msg
+	count    int
+	stop     chan struct{} // closed when there is no subscription anymore
+}
+
 // NewController creates a new NATS JetStream controller.
 func NewController(url string, options ...ControllerOption) (*Controller, error) {
 	// Creates default controller
 	controller := &Controller{
 		url:            url,
 		logger:         extensions.DummyLogger{},
-		channels:       make(map[string]chan jetstream.Msg),
+		channels:       make(map[string]*channelListeners),
 		consumeContext: nil,
 		nakDelay:       time.Second * 5,
 	}
@@ -230,33 +239,60 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		make(chan any, 1),
 	)
 
-	if c.channels[channel] == nil {
-		c.channels[channel] = make(chan jetstream.Msg)
+	// Register the subscription on the channel
+	c.channelsMutex.Lock()
+	listeners, exists := c.channels[channel]
+	if !exists {
+		listeners = &channelListeners{messages: make(chan jetstream.Msg), stop: make(chan struct{})}
+		c.channels[channel] = listeners
 	}
+	listeners.count++
+	c.channelsMutex.Unlock()
+
 	if err := c.ConsumeIfNeeded(ctx); err != nil {
+		c.removeListener(channel, listeners)
 		return extensions.BrokerChannelSubscription{}, err
 	}
 
+	stop := make(chan struct{})
 	go func() {
-		for message := range c.channels[channel] {
-			c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
-				Key:   "message",
-				Value: message,
-			})
-			c.HandleMessage(ctx, message, sub)
+		for {
+			select {
+			case message := <-listeners.messages:
+				c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
+					Key:   "message",
+					Value: message,
+				})
+				c.HandleMessage(ctx, message, sub)
+			case <-stop:
+				return
+			}
 		}
 	}()
 
 	// Wait for cancellation and drain the NATS subscription
 	sub.WaitForCancellationAsync(func() {
-		close(c.channels[channel])
-		delete(c.channels, channel)
+		close(stop)
+		c.removeListener(channel, listeners)
 		c.StopConsumeIfNeeded()
 	})
 
 	return sub, nil
 }
 
+// removeListener removes a subscription from a channel, and the channel itself
+// when there is no subscription left on it.
+func (c *Controller) removeListener(channel string, listeners *channelListeners) {
+	c.channelsMutex.Lock()
+	defer c.channelsMutex.Unlock()
+
+	listeners.count--
+	if listeners.count == 0 {
+		close(listeners.stop)
+		delete(c.channels, channel)
+	}
+}
+
 // HandleMessage handles a message received from a stream.
 func (c *Controller) HandleMessage(ctx context.Context, msg jetstream.Msg, sub extensions.BrokerChannelSubscription) {
 	// Get headers
@@ -296,6 +332,9 @@ func (c *Controller) Close() {
 
 // ConsumeIfNeeded starts consuming messages if needed.
 func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
+	c.channelsMutex.Lock()
+	defer c.channelsMutex.Unlock()
+
 	if c.consumeContext == nil {
 		consumer, err := c.jetStream.Consumer(ctx, c.streamName, c.consumerName)
 		if err != nil {
@@ -313,6 +352,9 @@ func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
 
 // StopConsumeIfNeeded stops consuming messages if needed (there is no other subscription).
 func (c *Controller) StopConsumeIfNeeded() {
+	c.channelsMutex.Lock()
+	defer c.channelsMutex.Unlock()
+
 	if len(c.channels) == 0 && c.consumeContext != nil {
 		c.consumeContext.Stop()
 		c.consumeContext = nil
@@ -324,14 +366,16 @@ func (c *Controller) StopConsumeIfNeeded() {
 func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandler {
 	return func(msg jetstream.Msg) {
 		msgSubj := msg.Subject() // pull this into a var for debuggability
-		var responsibleSubscription string
-		for subjectSubscriptionPattern := range c.channels {
+		var responsibleSubscription *channelListeners
+		c.channelsMutex.Lock()
+		for subjectSubscriptionPattern, listeners := range c.channels {
 			if MatchSubjectSubscription(subjectSubscriptionPattern, msgSubj) {
-				responsibleSubscription = subjectSubscriptionPattern
+				responsibleSubscription = listeners
 				break
 			}
 		}
-		if responsibleSubscription == "" {
+		c.channelsMutex.Unlock()
+		if responsibleSubscription == nil {
 			c.logger.Warning(
 				ctx,
 				fmt.Sprintf(
@@ -346,7 +390,13 @@ func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandle
 
 			return
 		}
-		c.channels[responsibleSubscription] <- msg
+
+		// Transmit the message, except if the subscription is canceled in the
+		// meantime: in this case, let the broker deliver it again.
+		select {
+		case responsibleSubscription.messages <- msg:
+		case <-responsibleSubscription.stop:
+		}
 	}
 }
 
-- 
2.43.0


From e0b433f2969fc8dac9883ae6a36529c6e0ac4313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 07/43] fix: do not share TLS and SASL settings between Kafka
 controllers

The options modified the global default dialer, so the credentials and the TLS
configuration of a controller applied to every other controller.
---
 pkg/extensions/brokers/kafka/kafka.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 99c83ac..03bb732 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -46,12 +46,15 @@ type ControllerOption func(controller *Controller)
 
 // NewController creates a new KafkaController that fulfill the BrokerLinker interface.
 func NewController(hosts []string, options ...ControllerOption) (*Controller, error) {
+	// Copy the default dialer, as it can be modified by the options
+	dialer := *kafka.DefaultDialer
+
 	// Create default controller
 	controller := &Controller{
 		hosts:          hosts,
 		logger:         extensions.DummyLogger{},
 		groupID:        brokers.DefaultQueueGroupID,
-		dialer:         kafka.DefaultDialer,
+		dialer:         &dialer,
 		partition:      0,
 		maxBytes:       10e6, // 10MB
 		autoCommit:     true,
-- 
2.43.0


From d751beb854ed2ffc4258b0f20e35ce050c520d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 08/43] fix: generate usable parameters for AsyncAPI v2
 channels

---
 pkg/asyncapi/v2/parameter.go                   | 2 +-
 pkg/codegen/generators/v2/templates/types.tmpl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index e226e12..06d387e 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -9,7 +9,7 @@ type Parameter struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
 	Description string  `json:"description"`
-	Schema      *Schema `json:"schema-name"`
+	Schema      *Schema `json:"schema"`
 	Location    string  `json:"location"`
 	Reference   string  `json:"$ref"`
 
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index eb1eb3b..c4ac5bd 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -59,8 +59,8 @@ func (e *Error) Error() string {
 {{range $key, $value := .Channels -}}
 
 {{- if $value.Parameters -}}
-// {{ namifyWithoutParam .Name }}Parameters represents {{ namify .Name }} channel parameters
-type {{ namifyWithoutParam .Name }}Parameters struct {
+// {{ namifyWithoutParam $key }}Parameters represents {{ namify .Name }} channel parameters
+type {{ namifyWithoutParam $key }}Parameters struct {
 {{- range $key, $value := .Parameters}}
     {{- template "parameter" $value}}
 {{- end}}
-- 
2.43.0


From 9d3d490f7f69e8bd33eaf615212251cbc83cd692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 09/43] fix: escape percents in parameterised channel addresses

---
 pkg/codegen/generators/v2/templates/helpers.go | 4 +++-
 pkg/codegen/generators/v3/templates/helpers.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 8e4d603..e22bc0b 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -114,7 +114,9 @@ func GenerateChannelPath(ch asyncapi.Channel) string {
 	parameterRegexp := regexp.MustCompile("{[^{}]*}")
 
 	matches := parameterRegexp.FindAllString(ch.Path, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Path, "%v")
+	// Escape literal percents, as they are not formatting verbs
+	format := strings.ReplaceAll(ch.Path, "%", "%%")
+	format = parameterRegexp.ReplaceAllString(format, "%v")
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index b37b96a..a43b529 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -117,7 +117,9 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	parameterRegexp := regexp.MustCompile("{[^{}]*}")
 
 	matches := parameterRegexp.FindAllString(ch.Address, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Address, "%s")
+	// Escape literal percents, as they are not formatting verbs
+	format := strings.ReplaceAll(ch.Address, "%", "%%")
+	format = parameterRegexp.ReplaceAllString(format, "%s")
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
-- 
2.43.0


From 8e04fe3df8f61bfdfd7ee0c07fbca615350e0e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 10/43] fix: do not drop what is between two parameters of a
 channel name

---
 pkg/utils/template/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index b9553c5..0220606 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -32,7 +32,7 @@ var namify = namifyPerScheme["none"]
 // and will remove all parameters that can appear between '{' and '}'.
 func NamifyWithoutParams(sentence string) string {
 	// Remove parameters
-	re := regexp.MustCompile("{[^()]*}")
+	re := regexp.MustCompile("{[^{}]*}")
 	sentence = string(re.ReplaceAll([]byte(sentence), []byte("_")))
 
 	return namify(sentence)
-- 
2.43.0


From 8d017652d50fd03a33bff1260c4f65af12de6663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 11/43] fix: generate AsyncAPI v2 channel parameters given by
 reference

---
 pkg/asyncapi/v2/parameter.go                   |  7 +++++++
 .../generators/v2/templates/parameter.tmpl     | 18 +++++++++---------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index 06d387e..f375c91 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -27,6 +27,13 @@ func (p *Parameter) generateMetadata(name string) {
 
 // setDependencies set dependencies for the parameter from specification.
 func (p *Parameter) setDependencies(spec Specification) error {
+	// Set schema dependencies
+	if p.Schema != nil {
+		if err := p.Schema.setDependencies(spec); err != nil {
+			return err
+		}
+	}
+
 	// Add pointer to reference if there is one
 	if p.Reference != "" {
 		refTo, err := spec.ReferenceParameter(p.Reference)
diff --git a/pkg/codegen/generators/v2/templates/parameter.tmpl b/pkg/codegen/generators/v2/templates/parameter.tmpl
index f714ad4..c96dae3 100644
--- a/pkg/codegen/generators/v2/templates/parameter.tmpl
+++ b/pkg/codegen/generators/v2/templates/parameter.tmpl
@@ -1,16 +1,16 @@
 {{define "parameter"}}
 
-{{- if $.Description}}
-// Description: {{multiLineComment $.Description}}
+{{- /* Get the parameter from reference if defined */}}
+{{- $parameter := . }}
+{{- if .ReferenceTo }}
+{{- $parameter = .ReferenceTo }}
 {{- end}}
 
-{{- /* Set parameter if defined */}}
-{{- if .Schema}}
-{{namify $.Name }} {{template "schema-name" $.Schema}}
+{{- if $parameter.Description}}
+// Description: {{multiLineComment $parameter.Description}}
+{{- end}}
 
-{{- /* Set parameter from reference if defined */}}
-{{- else if .ReferenceTo }}
-{{- template "parameter" $.ReferenceTo}}
-{{end -}}
+{{- /* Set parameter, a string being the default */}}
+{{namify $.Name }} {{ if $parameter.Schema }}{{template "schema-name" $parameter.Schema}}{{else}}string{{end}}
 
 {{- end}}
-- 
2.43.0


From 5318bcf245ac1b42bb1b6d4e7f71eccfc56c9b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 12/43] fix: stop waiting for a reply when the context or the
 subscription ends

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 1 +
 pkg/codegen/generators/v3/templates/controller.tmpl | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 57a862e..229f45f 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -365,6 +365,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
         msg, err := c.waitFor{{operationName $value}}NextMessage(ctx, path, sub, publishMsg)
         if err != nil {
             c.logger.Error(ctx, err.Error())
+            return {{(channelToMessage $value "subscribe").Name}}{}, err
         }
 
         // Continue if the message hasn't been received
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 902c2fc..252cc99 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -444,6 +444,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
         msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.GetMessage.HaveCorrelationID}}, msg{{end}})
         if err != nil {
             c.logger.Error(ctx, err.Error())
+            return {{channelToMessageTypeName .Reply.Channel}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -497,6 +498,9 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
             return nil, nil
         }
         {{- else}}
+        // Acknowledge the message
+        acknowledgeableBrokerMessage.Ack()
+
         // There is correlation no ID, so it will automatically return at
         // the first received message.
         {{- end}}
-- 
2.43.0


From 7ce685c0fd0ce421be1a3bfdcb3cb211f657c6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 13/43] fix: cancel subscriptions of parameterised channels
 when closing the controller

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 6 ++++++
 pkg/codegen/generators/v3/templates/controller.tmpl | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 229f45f..ebffff9 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -127,6 +127,12 @@ func (c *{{ .Prefix }}Controller) UnsubscribeAll(ctx context.Context) {
     c.Unsubscribe{{operationName $value}}(ctx)
     {{- end}}
     {{- end}}
+
+    // Unsubscribe from remaining channels, i.e. the ones with parameters
+    for path, sub := range c.subscriptions {
+        sub.Cancel(add{{ $.Prefix }}ContextValues(ctx, path))
+        delete(c.subscriptions, path)
+    }
 }
 {{- end}}
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 252cc99..56273bb 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -128,6 +128,12 @@ func (c *{{ .Prefix }}Controller) UnsubscribeFromAllChannels(ctx context.Context
     c.UnsubscribeFrom{{ namify $value.Follow.Name }}(ctx)
     {{- end}}
     {{- end}}
+
+    // Unsubscribe from remaining channels, i.e. the ones with parameters
+    for addr, sub := range c.subscriptions {
+        sub.Cancel(add{{ $.Prefix }}ContextValues(ctx, addr))
+        delete(c.subscriptions, addr)
+    }
 }
 {{- end}}
 
-- 
2.43.0


From 00a163b656cac12d4981f91fe529ce52468b4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 14/43] fix: make generated messages decode what they encode

---
 .../generators/v2/templates/message.tmpl      | 175 ++++++++---------
 .../generators/v3/templates/message.tmpl      | 183 ++++++++----------
 2 files changed, 170 insertions(+), 188 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 9b0e128..e085779 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -45,37 +45,50 @@ func New{{namify .Name}}() {{namify .Name}} {
 func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .Name}}, error) {
     var msg {{namify .Name}}
 
-    {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{/* Get payload by following its references */}}
+    {{- $payload := .Payload.Follow}}
 
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
         // Convert to string
-        {{- if isDateOrDateTimeGenerated $payload.Format }}
-            t, err := time.Parse(time.RFC3339, string(bMsg.Payload))
+        {{- if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+            payload, err := civil.ParseDate(string(bMsg.Payload))
+            if err != nil {
+                return {{namify .Name}}{}, err
+            }
+        {{- else if isDateOrDateTimeGenerated $payload.Format }}
+            payload, err := time.Parse(time.RFC3339, string(bMsg.Payload))
             if err != nil {
                 return {{namify .Name}}{}, err
             }
-            payload := t
         {{- else}}
             payload := string(bMsg.Payload)
         {{- end}}
     {{- else if eq $payload.Type "integer"}}
         // Convert to integer
         {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+            if len(bMsg.Payload) != 4 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 4 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int32(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 8 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int64(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else if eq $payload.Type "number"}}
         // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+        {{- if and $payload.Format (eq $payload.Format "float") }}
+            if len(bMsg.Payload) != 4 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 4 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float32frombits(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 8 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -85,14 +98,9 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         }
     {{- end -}}
 
-    {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
-        {{- /* If that's a reference, then there will be a conversion to struct to add */}}
-        {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.ReferenceTo.Name }}(payload)
-        {{- else}}
-            msg.Payload = payload // No need for type conversion to reference
-        {{- end}}
+    {{- /* If that's a string, an integer or a number, set the payload with the expected type */}}
+    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
+        msg.Payload = {{template "schema-name" .Payload}}(payload)
     {{- end}}
 
     {{ if .Headers -}}
@@ -109,38 +117,30 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- /* For each header */}}
             {{- $headers := .Headers -}}
             {{- range  $key, $value := $headerProperties}}
+            {{- $header := $value.Follow}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if isFieldPointer $headers $key $value }}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = &t
-                    {{- else}}
-                        h := {{$value.Type}}(v)
-                        msg.Headers.{{ namify $key}} = &h
-                    {{- end}}
+                {{- if ne $header.Type "string" }}
+                    err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
+                    if err != nil {
+                        return msg, err
+                    }
                 {{- else}}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
+                    {{- if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
+                        t, err := civil.ParseDate(string(v))
                         if err != nil {
                             return msg, err
                         }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
+                        h := {{template "schema-name" $value}}(t)
+                    {{- else if isDateOrDateTimeGenerated $header.Format }}
                         t, err := time.Parse(time.RFC3339, string(v))
                         if err != nil {
                             return msg, err
                         }
-                        msg.Headers.{{ namify $key}} = t
+                        h := {{template "schema-name" $value}}(t)
                     {{- else}}
-                        msg.Headers.{{ namify $key}} = {{$value.Type}}(v)
+                        h := {{template "schema-name" $value}}(v)
                     {{- end}}
+                    msg.Headers.{{ namify $key}} = {{if isFieldPointer $headers $key $value }}&{{end}}h
                 {{- end}}
             {{- end}}
         default:
@@ -158,22 +158,13 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
 func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error) {
     // TODO: implement checks on message
 
-    {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{/* Get payload by following its references */}}
+    {{- $payload := .Payload.Follow}}
 
     {{/* Handle payload based on type */}}
-    {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
-        // Marshal payload to JSON
-        payload, err := json.Marshal(msg.Payload)
-        if err != nil {
-            return extensions.BrokerMessage{}, err
-        }
-    {{- else if eq $payload.Type "integer"}}
+    {{- if eq $payload.Type "integer"}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
+        {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
             binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
@@ -184,17 +175,26 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         // Convert to []byte{}
         {{- if and $payload.Format (eq $payload.Format "float")}}
             payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, math.Float32bits(msg.Payload))
+            binary.BigEndian.PutUint32(payload, math.Float32bits(float32(msg.Payload)))
         {{- else}}
             payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, math.Float64bits(msg.Payload))
+            binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
+    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+        // Convert to RFC3339 date and to []byte
+        payload := []byte(civil.Date(msg.Payload).String())
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
-    {{- else}}
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339))
+    {{- else if eq $payload.Type "string"}}
         // Convert to []byte
         payload := []byte(msg.Payload)
+    {{- else}}
+        // Marshal payload to JSON
+        payload, err := json.Marshal(msg.Payload)
+        if err != nil {
+            return extensions.BrokerMessage{}, err
+        }
     {{- end}}
 
     {{/* Handle headers, if defined */}}
@@ -210,42 +210,37 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- $headers := .Headers -}}
         {{/* For each header */ -}}
         {{- range  $key, $value := $headerProperties }}
+            {{- $header := $value.Follow}}
+            {{- $isRequired := or $value.IsRequired (isRequired $headers $key)}}
+            {{- $dereferenceOp := "" -}}
+            {{- if isFieldPointer $headers $key $value -}}
+                {{- $dereferenceOp = "*" }}
+            {{- end}}
 
             // Adding {{ namify $key}} header
-            {{- if $value.IsRequired }}
-                {{- $dereferenceOp := "" -}}
-                {{- if isFieldPointer $headers $key $value -}}
-                    {{- $dereferenceOp = "*" }}
-                    if msg.Headers.{{ namify $key}} == nil {
-                        return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
-                    }
-                {{- end -}}
-                {{- if eq $value.Type "object" }}
-                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
-                    if err != nil {
-                        return extensions.BrokerMessage{}, err
-                    }
-                    headers["{{$key}}"] = h
-                {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                {{- else }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
-                {{- end }}
-            {{- else}}
+            {{- if not $isRequired }}
                 if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $value.Type "object" }}
-                        h, err := json.Marshal(*msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return extensions.BrokerMessage{}, err
-                        }
-                        headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                    {{- else }}
-                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
-                    {{- end }}
+            {{- else if $dereferenceOp }}
+                if msg.Headers.{{ namify $key}} == nil {
+                    return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
+                } else {
+            {{- else }}
+                {
+            {{- end }}
+            {{- if ne $header.Type "string" }}
+                h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
+                if err != nil {
+                    return extensions.BrokerMessage{}, err
                 }
+                headers["{{$key}}"] = h
+            {{- else if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
+                headers["{{$key}}"] = []byte(civil.Date({{ $dereferenceOp }}msg.Headers.{{namify $key}}).String())
+            {{- else if isDateOrDateTimeGenerated $header.Format }}
+                headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339))
+            {{- else }}
+                headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
             {{- end }}
+                }
         {{- end}}
         {{ else -}}
         // There is no headers here
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index e9dd4ed..cbe2a8d 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -54,37 +54,50 @@ func New{{namify .Name}}() {{namify .Name}} {
 func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .Name}}, error) {
     var msg {{namify .Name}}
 
-    {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{/* Get payload by following its references */}}
+    {{- $payload := .Payload.Follow}}
 
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
         // Convert to string
-        {{- if isDateOrDateTimeGenerated $payload.Format }}
-            t, err := time.Parse(time.RFC3339, string(bMsg.Payload))
+        {{- if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+            payload, err := civil.ParseDate(string(bMsg.Payload))
+            if err != nil {
+                return {{namify .Name}}{}, err
+            }
+        {{- else if isDateOrDateTimeGenerated $payload.Format }}
+            payload, err := time.Parse(time.RFC3339, string(bMsg.Payload))
             if err != nil {
                 return {{namify .Name}}{}, err
             }
-            payload := t
         {{- else}}
             payload := string(bMsg.Payload)
         {{- end}}
     {{- else if eq $payload.Type "integer"}}
         // Convert to integer
         {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+            if len(bMsg.Payload) != 4 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 4 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int32(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 8 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := int64(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else if eq $payload.Type "number"}}
         // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+        {{- if and $payload.Format (eq $payload.Format "float") }}
+            if len(bMsg.Payload) != 4 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 4 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float32frombits(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return {{namify .Name}}{}, fmt.Errorf("%w: payload should be 8 bytes long, is %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+            }
+            payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -94,14 +107,9 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         }
     {{- end -}}
 
-    {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
-        {{- /* If that's a reference, then there will be a conversion to struct to add */}}
-        {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.Follow.Name }}(payload)
-        {{- else}}
-            msg.Payload = payload // No need for type conversion to reference
-        {{- end}}
+    {{- /* If that's a string, an integer or a number, set the payload with the expected type */}}
+    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
+        msg.Payload = {{template "schema-name" .Payload}}(payload)
     {{- end}}
 
     {{ if .Headers -}}
@@ -118,46 +126,30 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- /* For each header */}}
             {{- $headers := .Headers -}}
             {{- range  $key, $value := $headerProperties}}
+            {{- $header := $value.Follow}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if isFieldPointer $headers $key $value }}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = &t
-                    {{- else}}
-                        {{- if $value.Reference }}
-                        h := {{$value.ReferenceTo.Name}}(v)
-                        {{- else }}
-                        h := {{$value.Type}}(v)
-                        {{- end}}
-                        msg.Headers.{{ namify $key}} = &h
-                    {{- end}}
+                {{- if ne $header.Type "string" }}
+                    err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
+                    if err != nil {
+                        return msg, err
+                    }
                 {{- else}}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
+                    {{- if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
+                        t, err := civil.ParseDate(string(v))
                         if err != nil {
                             return msg, err
                         }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
+                        h := {{template "schema-name" $value}}(t)
+                    {{- else if isDateOrDateTimeGenerated $header.Format }}
                         t, err := time.Parse(time.RFC3339, string(v))
                         if err != nil {
                             return msg, err
                         }
-                        msg.Headers.{{ namify $key}} = t
+                        h := {{template "schema-name" $value}}(t)
                     {{- else}}
-                        {{- if $value.Reference }}
-                        msg.Headers.{{ namify $key}} = {{$value.ReferenceTo.Name}}(v)
-                        {{- else }}
-                        msg.Headers.{{ namify $key}} = {{$value.Type}}(v)
-                        {{- end}}
+                        h := {{template "schema-name" $value}}(v)
                     {{- end}}
+                    msg.Headers.{{ namify $key}} = {{if isFieldPointer $headers $key $value }}&{{end}}h
                 {{- end}}
             {{- end}}
         default:
@@ -175,22 +167,13 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
 func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error) {
     // TODO: implement checks on message
 
-    {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{/* Get payload by following its references */}}
+    {{- $payload := .Payload.Follow}}
 
     {{/* Handle payload based on type */}}
-    {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
-        // Marshal payload to JSON
-        payload, err := json.Marshal(msg.Payload)
-        if err != nil {
-            return extensions.BrokerMessage{}, err
-        }
-    {{- else if eq $payload.Type "integer"}}
+    {{- if eq $payload.Type "integer"}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
+        {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
             binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
@@ -201,17 +184,26 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         // Convert to []byte{}
         {{- if and $payload.Format (eq $payload.Format "float")}}
             payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, math.Float32bits(msg.Payload))
+            binary.BigEndian.PutUint32(payload, math.Float32bits(float32(msg.Payload)))
         {{- else}}
             payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, math.Float64bits(msg.Payload))
+            binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
+    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+        // Convert to RFC3339 date and to []byte
+        payload := []byte(civil.Date(msg.Payload).String())
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
-    {{- else}}
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339))
+    {{- else if eq $payload.Type "string"}}
         // Convert to []byte
         payload := []byte(msg.Payload)
+    {{- else}}
+        // Marshal payload to JSON
+        payload, err := json.Marshal(msg.Payload)
+        if err != nil {
+            return extensions.BrokerMessage{}, err
+        }
     {{- end}}
 
     {{/* Handle headers, if defined */}}
@@ -228,42 +220,37 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- $headers := .Headers -}}
         {{/* For each header */ -}}
         {{- range  $key, $value := $headerProperties }}
+            {{- $header := $value.Follow}}
+            {{- $isRequired := or $value.IsRequired (isRequired $headers $key)}}
+            {{- $dereferenceOp := "" -}}
+            {{- if isFieldPointer $headers $key $value -}}
+                {{- $dereferenceOp = "*" }}
+            {{- end}}
 
             // Adding {{ namify $key}} header
-            {{- if $value.IsRequired }}
-                {{- $dereferenceOp := "" -}}
-                {{- if isFieldPointer $headers $key $value -}}
-                    {{- $dereferenceOp = "*" }}
-                     if msg.Headers.{{ namify $key}} == nil {
-                        return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
-                     }
-                {{- end -}}
-                {{- if eq $value.Type "object" }}
-                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
-                    if err != nil {
-                        return extensions.BrokerMessage{}, err
-                    }
-                    headers["{{$key}}"] = h
-                {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                {{- else }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
-                {{- end }}
-            {{- else}}
+            {{- if not $isRequired }}
                 if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $value.Type "object" }}
-                        h, err := json.Marshal(*msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return extensions.BrokerMessage{}, err
-                        }
-                        headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                    {{- else }}
-                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
-                    {{- end }}
+            {{- else if $dereferenceOp }}
+                if msg.Headers.{{ namify $key}} == nil {
+                    return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
+                } else {
+            {{- else }}
+                {
+            {{- end }}
+            {{- if ne $header.Type "string" }}
+                h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
+                if err != nil {
+                    return extensions.BrokerMessage{}, err
                 }
+                headers["{{$key}}"] = h
+            {{- else if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
+                headers["{{$key}}"] = []byte(civil.Date({{ $dereferenceOp }}msg.Headers.{{namify $key}}).String())
+            {{- else if isDateOrDateTimeGenerated $header.Format }}
+                headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339))
+            {{- else }}
+                headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
             {{- end }}
+                }
         {{- end}}
         {{ else -}}
         // There is no headers here
-- 
2.43.0


From cc61b4f1c8f5f87f99d150dccd0a286b4312b11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 15/43] fix: accept AsyncAPI v3 message headers given by
 reference

---
 pkg/asyncapi/v3/message.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 5cea676..4a92b78 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -214,10 +214,19 @@ func (msg *Message) generateHeadersMetadata() error {
 		return nil
 	}
 
-	if err := msg.Headers.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
+	return msg.Headers.generateMetadata(msg.Name, "Headers", nil, false)
+}
+
+func (msg *Message) setHeadersDependencies(spec Specification) error {
+	if msg.Headers == nil {
+		return nil
+	}
+
+	if err := msg.Headers.setDependencies(spec); err != nil {
 		return err
 	}
 
+	// Check Headers is an object, after processing
 	if msg.Headers.Follow().Type != SchemaTypeIsObject.String() {
 		return fmt.Errorf(
 			"%w: %q headers must be an object, is %q",
@@ -227,14 +236,6 @@ func (msg *Message) generateHeadersMetadata() error {
 	return nil
 }
 
-func (msg *Message) setHeadersDependencies(spec Specification) error {
-	if msg.Headers == nil {
-		return nil
-	}
-
-	return msg.Headers.setDependencies(spec)
-}
-
 func (msg *Message) generateOneOfMetadata() error {
 	for i, v := range msg.OneOf {
 		if err := v.generateMetadata(msg.Name, "", &i); err != nil {
-- 
2.43.0


From d13c3bf3c370dc8f4a920b7dba1ee82abba0c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 16/43] fix: follow references of references

---
 pkg/asyncapi/v2/message.go                    |  3 ++
 pkg/asyncapi/v2/schema.go                     | 38 +++++++++++++++----
 pkg/asyncapi/v3/channel.go                    |  5 ++-
 pkg/asyncapi/v3/message.go                    |  5 ++-
 pkg/asyncapi/v3/message_trait.go              |  7 +++-
 pkg/asyncapi/v3/operation.go                  |  7 +++-
 pkg/asyncapi/v3/operation_reply.go            |  7 +++-
 pkg/asyncapi/v3/operation_trait.go            |  7 +++-
 pkg/asyncapi/v3/schema.go                     | 14 ++++++-
 .../generators/v2/templates/message.tmpl      |  4 +-
 .../generators/v3/templates/message.tmpl      |  4 +-
 11 files changed, 82 insertions(+), 19 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index e83b756..b64592c 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -96,6 +96,9 @@ func (msg *Message) setDependencies(spec Specification) error {
 		if err != nil {
 			return err
 		}
+		if refTo.Follow() == msg {
+			return fmt.Errorf("%w: %q is circular", ErrInvalidReference, msg.Reference)
+		}
 		msg.ReferenceTo = refTo
 	}
 
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 104c530..984de0d 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -1,6 +1,8 @@
 package asyncapiv2
 
 import (
+	"fmt"
+
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
@@ -117,13 +119,8 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 // setDependencies sets dependencies for the schema from the specification.
 func (s *Schema) setDependencies(spec Specification) error {
 	// Reference to another schema if specified
-	if s.Reference != "" {
-		refTo, err := spec.ReferenceSchema(s.Reference)
-		if err != nil {
-			return err
-		}
-		s.ReferenceTo = refTo
-		s.setValidationsFromReferenced(refTo)
+	if err := s.setReference(spec); err != nil {
+		return err
 	}
 
 	// Set properties dependencies
@@ -159,6 +156,31 @@ func (s *Schema) setDependencies(spec Specification) error {
 	return nil
 }
 
+func (s *Schema) setReference(spec Specification) error {
+	if s.Reference == "" {
+		return nil
+	}
+
+	refTo, err := spec.ReferenceSchema(s.Reference)
+	if err != nil {
+		return err
+	}
+	if refTo.Follow() == s {
+		return fmt.Errorf("%w: %q is circular", ErrInvalidReference, s.Reference)
+	}
+	s.ReferenceTo = refTo
+
+	// If this is a reference to a reference, set it first
+	if refTo.ReferenceTo == nil {
+		if err := refTo.setReference(spec); err != nil {
+			return err
+		}
+	}
+	s.setValidationsFromReferenced(refTo)
+
+	return nil
+}
+
 func (s *Schema) generatePropertiesMetadata() error {
 	for n, p := range s.Properties {
 		if err := p.generateMetadata(
@@ -468,7 +490,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-		return s.ReferenceTo
+		return s.ReferenceTo.Follow()
 	}
 	return s
 }
diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 7e27d0d..e11e6f0 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -139,6 +139,9 @@ func (ch *Channel) setReference(spec Specification) error {
 	if err != nil {
 		return err
 	}
+	if refTo.Follow() == ch {
+		return fmt.Errorf("%w: %q is circular", ErrInvalidReference, ch.Reference)
+	}
 	ch.ReferenceTo = refTo
 
 	return nil
@@ -147,7 +150,7 @@ func (ch *Channel) setReference(spec Specification) error {
 // Follow returns referenced channel if specified or the actual channel.
 func (ch *Channel) Follow() *Channel {
 	if ch.ReferenceTo != nil {
-		return ch.ReferenceTo
+		return ch.ReferenceTo.Follow()
 	}
 	return ch
 }
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 4a92b78..d9d9b4e 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -172,6 +172,9 @@ func (msg *Message) setReference(spec Specification) error {
 	if err != nil {
 		return err
 	}
+	if refMsg.Follow() == msg {
+		return fmt.Errorf("%w: %q is circular", ErrInvalidReference, msg.Reference)
+	}
 	msg.ReferenceTo = refMsg
 
 	return nil
@@ -490,7 +493,7 @@ func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) er
 // Follow returns referenced message if specified or the actual message.
 func (msg *Message) Follow() *Message {
 	if msg.ReferenceTo != nil {
-		return msg.ReferenceTo
+		return msg.ReferenceTo.Follow()
 	}
 	return msg
 }
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index 821a2ef..ad55b23 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // MessageTrait is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#messageTraitObject
@@ -129,6 +131,9 @@ func (mt *MessageTrait) setReference(spec Specification) error {
 	if err != nil {
 		return err
 	}
+	if refTo.Follow() == mt {
+		return fmt.Errorf("%w: %q is circular", ErrInvalidReference, mt.Reference)
+	}
 	mt.ReferenceTo = refTo
 
 	return nil
@@ -137,7 +142,7 @@ func (mt *MessageTrait) setReference(spec Specification) error {
 // Follow returns referenced MessageTrait if specified or the actual MessageTrait.
 func (mt *MessageTrait) Follow() *MessageTrait {
 	if mt.ReferenceTo != nil {
-		return mt.ReferenceTo
+		return mt.ReferenceTo.Follow()
 	}
 	return mt
 }
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 8f95f64..6fdfc55 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // OperationAction represents an OperationAction.
 type OperationAction string
 
@@ -150,6 +152,9 @@ func (op *Operation) setReference(spec Specification) error {
 	if err != nil {
 		return err
 	}
+	if refTo.Follow() == op {
+		return fmt.Errorf("%w: %q is circular", ErrInvalidReference, op.Reference)
+	}
 	op.ReferenceTo = refTo
 
 	return nil
@@ -237,7 +242,7 @@ func (op *Operation) ApplyTrait(ot *OperationTrait, spec Specification) {
 // Follow returns referenced operation if specified or the actual operation.
 func (op *Operation) Follow() *Operation {
 	if op.ReferenceTo != nil {
-		return op.ReferenceTo
+		return op.ReferenceTo.Follow()
 	}
 	return op
 }
diff --git a/pkg/asyncapi/v3/operation_reply.go b/pkg/asyncapi/v3/operation_reply.go
index 1bbb975..f714038 100644
--- a/pkg/asyncapi/v3/operation_reply.go
+++ b/pkg/asyncapi/v3/operation_reply.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // OperationReply is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#operationReplyObject
@@ -46,6 +48,9 @@ func (or *OperationReply) setDependencies(op *Operation, spec Specification) err
 		if err != nil {
 			return err
 		}
+		if refTo.Follow() == or {
+			return fmt.Errorf("%w: %q is circular", ErrInvalidReference, or.Reference)
+		}
 		or.ReferenceTo = refTo
 	}
 
@@ -72,7 +77,7 @@ func (or *OperationReply) setDependencies(op *Operation, spec Specification) err
 // Follow returns referenced operation if specified or the actual operation.
 func (or *OperationReply) Follow() *OperationReply {
 	if or.ReferenceTo != nil {
-		return or.ReferenceTo
+		return or.ReferenceTo.Follow()
 	}
 	return or
 }
diff --git a/pkg/asyncapi/v3/operation_trait.go b/pkg/asyncapi/v3/operation_trait.go
index dd409ca..3685c37 100644
--- a/pkg/asyncapi/v3/operation_trait.go
+++ b/pkg/asyncapi/v3/operation_trait.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // OperationTrait is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#msgerationTraitObject
@@ -61,6 +63,9 @@ func (ot *OperationTrait) setDependencies(spec Specification) error {
 		if err != nil {
 			return err
 		}
+		if refTo.Follow() == ot {
+			return fmt.Errorf("%w: %q is circular", ErrInvalidReference, ot.Reference)
+		}
 		ot.ReferenceTo = refTo
 	}
 
@@ -90,7 +95,7 @@ func (ot *OperationTrait) setDependencies(spec Specification) error {
 // Follow returns referenced MessageTrait if specified or the actual MessageTrait.
 func (ot *OperationTrait) Follow() *OperationTrait {
 	if ot.ReferenceTo != nil {
-		return ot.ReferenceTo
+		return ot.ReferenceTo.Follow()
 	}
 	return ot
 }
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index e44558f..8a2c260 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -1,6 +1,8 @@
 package asyncapiv3
 
 import (
+	"fmt"
+
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
@@ -297,7 +299,17 @@ func (s *Schema) setReference(spec Specification) error {
 	if err != nil {
 		return err
 	}
+	if refTo.Follow() == s {
+		return fmt.Errorf("%w: %q is circular", ErrInvalidReference, s.Reference)
+	}
 	s.ReferenceTo = refTo
+
+	// If this is a reference to a reference, set it first
+	if refTo.ReferenceTo == nil {
+		if err := refTo.setReference(spec); err != nil {
+			return err
+		}
+	}
 	s.Validations.Merge(refTo.Validations)
 
 	return nil
@@ -471,7 +483,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-		return s.ReferenceTo
+		return s.ReferenceTo.Follow()
 	}
 	return s
 }
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index e085779..4e81a6b 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -111,7 +111,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- /* Get headers by reference, or not*/}}
             {{- $headerProperties := .Headers.Properties}}
             {{- if .Headers.Reference }}
-                {{- $headerProperties = .Headers.ReferenceTo.Properties}}
+                {{- $headerProperties = .Headers.Follow.Properties}}
             {{- end}}
 
             {{- /* For each header */}}
@@ -202,7 +202,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- /* Get headers by reference, or not*/}}
         {{- $headerProperties := .Headers.Properties}}
         {{if .Headers.Reference }}
-            {{- $headerProperties = .Headers.ReferenceTo.Properties}}
+            {{- $headerProperties = .Headers.Follow.Properties}}
         {{- end -}}
 
         // Add each headers to broker message
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index cbe2a8d..a8ce84b 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -120,7 +120,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- /* Get headers by reference, or not*/}}
             {{- $headerProperties := .Headers.Properties}}
             {{- if .Headers.Reference }}
-                {{- $headerProperties = .Headers.ReferenceTo.Properties}}
+                {{- $headerProperties = .Headers.Follow.Properties}}
             {{- end}}
 
             {{- /* For each header */}}
@@ -212,7 +212,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- /* Get headers by reference, or not*/}}
         {{- $headerProperties := .Headers.Properties}}
         {{if .Headers.Reference }}
-            {{- $headerProperties = .Headers.ReferenceTo.Properties}}
+            {{- $headerProperties = .Headers.Follow.Properties}}
         {{- end -}}
 
         // Add each headers to broker message
-- 
2.43.0


From cb2c2b4fa222a8829ff7bfd9fb6a2bb0beaec342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 17/43] fix: camel naming scheme makes valid Go names

---
 pkg/utils/template/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index 0220606..6568304 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -21,7 +21,7 @@ var convertKeyFuncs = map[string]namingSchemeFn{
 }
 
 var namifyPerScheme = map[string]namingSchemeFn{
-	"camel": strcase.ToCamel,
+	"camel": func(s string) string { return DefaultNamifier(strcase.ToCamel(s)) },
 	"none":  DefaultNamifier,
 }
 
-- 
2.43.0


From 058baa17c81ddb72ae2b60597db6d504195ced4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 18/43] fix: keep the letters of names around non-ASCII
 characters

---
 pkg/utils/template/helpers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index 6568304..3feee6d 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -47,12 +47,16 @@ func DefaultNamifier(sentence string) string {
 
 	// Upper letters that are preceded with an underscore
 	previous := '_'
-	for i, r := range sentence {
+	var upper strings.Builder
+	for _, r := range sentence {
 		if !unicode.IsLetter(previous) && !unicode.IsDigit(previous) {
-			sentence = sentence[:i] + strings.ToUpper(string(r)) + sentence[i+1:]
+			upper.WriteString(strings.ToUpper(string(r)))
+		} else {
+			upper.WriteRune(r)
 		}
 		previous = r
 	}
+	sentence = upper.String()
 
 	// Remove everything except alphanumerics
 	re := regexp.MustCompile("[^a-zA-Z0-9]")
-- 
2.43.0


From 01f1b1e625b79483755432246c6992e918fe7d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 19/43] fix: component schemas of the date format did not
 compile

---
 pkg/codegen/generators/v2/templates/marshaling/time.tmpl | 8 +++++---
 pkg/codegen/generators/v3/templates/marshaling/time.tmpl | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
index b83e7f9..76542aa 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
@@ -1,12 +1,14 @@
 {{define "marshaling-time" -}}
-// MarshalJSON will override the marshal as this is not a normal 'time.Time' type
+{{- $type := "time.Time"}}
+{{- if eq .Format "date"}}{{$type = "civil.Date"}}{{end -}}
+// MarshalJSON will override the marshal as this is not a normal '{{$type}}' type
 func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+    return json.Marshal({{$type}}(t))
 }
 
 // UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+    var timeFormat {{$type}}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
diff --git a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
index b83e7f9..76542aa 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
@@ -1,12 +1,14 @@
 {{define "marshaling-time" -}}
-// MarshalJSON will override the marshal as this is not a normal 'time.Time' type
+{{- $type := "time.Time"}}
+{{- if eq .Format "date"}}{{$type = "civil.Date"}}{{end -}}
+// MarshalJSON will override the marshal as this is not a normal '{{$type}}' type
 func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+    return json.Marshal({{$type}}(t))
 }
 
 // UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+    var timeFormat {{$type}}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
-- 
2.43.0


From 206619870197f2c881e04d31944cef8a3b643969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 20/43] fix: correlation IDs in referenced, nested, created or
 forced-pointer fields did not work

---
 pkg/asyncapi/v2/message.go                    | 69 ++++++++++-----
 pkg/asyncapi/v3/correlation_id.go             | 25 +++++-
 pkg/asyncapi/v3/message.go                    | 83 +++++++++++++++----
 pkg/asyncapi/v3/operation_reply_address.go    | 12 +--
 pkg/asyncapi/v3/specification.go              | 24 ++++++
 .../generators/v2/templates/helpers.go        | 48 ++++++++++-
 .../generators/v2/templates/message.tmpl      | 33 +++++---
 pkg/codegen/generators/v3/common.go           |  3 +-
 .../generators/v3/templates/controller.tmpl   | 32 ++++---
 .../generators/v3/templates/helpers.go        | 48 ++++++++++-
 .../generators/v3/templates/message.tmpl      | 33 +++++---
 11 files changed, 316 insertions(+), 94 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index b64592c..4ef08d3 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -76,8 +76,6 @@ func (msg *Message) generateMetadata(name string) error {
 		return err
 	}
 
-	// Generate CorrelationID metadata
-	msg.generateCorrelationIDMetadata()
 	return nil
 }
 
@@ -149,11 +147,6 @@ func (msg *Message) setHeadersDependencies(spec Specification) error {
 	return nil
 }
 
-func (msg *Message) generateCorrelationIDMetadata() {
-	msg.createCorrelationIDFieldIfMissing()
-	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
-}
-
 func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
 	loc, err := msg.getCorrelationIDLocation(spec)
 	if err != nil {
@@ -161,6 +154,16 @@ func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
 	}
 	msg.CorrelationIDLocation = loc
 
+	if loc == "" {
+		return nil
+	}
+	if err := checkLocation(loc); err != nil {
+		return err
+	}
+
+	msg.createCorrelationIDFieldIfMissing()
+	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+
 	return nil
 }
 
@@ -218,7 +221,7 @@ func (msg Message) isCorrelationIDRequired() bool {
 	}
 
 	correlationIDParent := msg.createTreeUntilCorrelationID()
-	path := strings.Split(msg.CorrelationID.Location, "/")
+	path := LocationPath(msg.CorrelationID.Location)
 	return correlationIDParent.IsFieldRequired(path[len(path)-1])
 }
 
@@ -248,22 +251,20 @@ func (msg *Message) createTreeUntilCorrelationID() (correlationIDParent *Schema)
 
 func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField) (correlationIDParent *Schema) {
 	// Get correct top level placeholder
-	var placeholder **Schema
-	if t == MessageFieldIsHeader {
-		placeholder = &msg.Headers
-	} else {
-		placeholder = &msg.Payload
+	placeholder, suffix := &msg.Headers, "Headers"
+	if t == MessageFieldIsPayload {
+		placeholder, suffix = &msg.Payload, "Payload"
 	}
 
 	var child *Schema
 	switch {
 	case (*placeholder) != nil && (*placeholder).ReferenceTo != nil: // If there is a reference
 		// Use it as child
-		child = (*placeholder).ReferenceTo
+		child = (*placeholder).Follow()
 	case (*placeholder) == nil: // If there is no header and no reference
 		// Create a default one for the message
 		(*placeholder) = utils.ToPointer(NewSchema())
-		(*placeholder).Name = MessageFieldIsHeader.String()
+		(*placeholder).Name = template.Namify(msg.Name + "_" + suffix)
 		(*placeholder).Type = SchemaTypeIsObject.String()
 		fallthrough
 	default:
@@ -278,21 +279,21 @@ func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField)
 func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Schema) {
 	var exists bool
 
-	path := strings.Split(msg.CorrelationID.Location, "/")
-	for i, v := range path[1:] {
+	path := LocationPath(msg.CorrelationID.Location)
+	for i, v := range path {
 		// Keep the parent
-		correlationIDParent = child
+		correlationIDParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = correlationIDParent.Properties[v]
 		if !exists { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
-			child.Name = v
-			if i == len(path)-2 { // As there is -1 in the loop slice
+			child.Name = correlationIDParent.Name + template.Namify(v)
+			if i == len(path)-1 {
 				child.Type = SchemaTypeIsString.String()
 			} else {
-				child.Type = MessageFieldIsHeader.String()
+				child.Type = SchemaTypeIsObject.String()
 			}
 
 			// Add it to parent
@@ -306,6 +307,32 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 	return correlationIDParent
 }
 
+// LocationPath returns the path of the field a location points to, from the top
+// of the message part it is in.
+// According to: https://datatracker.ietf.org/doc/html/rfc6901
+func LocationPath(location string) []string {
+	_, pointer, found := strings.Cut(location, "#")
+	if !found {
+		pointer = location
+	}
+
+	path := strings.Split(pointer, "/")[1:]
+	for i, v := range path {
+		path[i] = strings.ReplaceAll(strings.ReplaceAll(v, "~1", "/"), "~0", "~")
+	}
+
+	return path
+}
+
+// checkLocation checks that a location points to a field of a message.
+func checkLocation(location string) error {
+	if !strings.HasPrefix(location, "$message.header#/") && !strings.HasPrefix(location, "$message.payload#/") {
+		return fmt.Errorf("%w: location %q is not supported", extensions.ErrAsyncAPI, location)
+	}
+
+	return nil
+}
+
 func (msg *Message) referenceFrom(ref []string) any {
 	if len(ref) == 0 {
 		return msg
diff --git a/pkg/asyncapi/v3/correlation_id.go b/pkg/asyncapi/v3/correlation_id.go
index 720d21e..adf3080 100644
--- a/pkg/asyncapi/v3/correlation_id.go
+++ b/pkg/asyncapi/v3/correlation_id.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // CorrelationID is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#correlationIdObject
@@ -12,8 +14,8 @@ type CorrelationID struct {
 
 	// --- Non AsyncAPI fields -------------------------------------------------
 
-	Name        string   `json:"-"`
-	ReferenceTo *Channel `json:"-"`
+	Name        string         `json:"-"`
+	ReferenceTo *CorrelationID `json:"-"`
 }
 
 // generateMetadata generates metadata for the CorrelationID.
@@ -36,16 +38,33 @@ func (c *CorrelationID) setDependencies(spec Specification) error {
 
 	// Add pointer to reference if there is one
 	if c.Reference != "" {
-		refTo, err := spec.ReferenceChannel(c.Reference)
+		refTo, err := spec.ReferenceCorrelationID(c.Reference)
 		if err != nil {
 			return err
 		}
+		if refTo.Follow() == c {
+			return fmt.Errorf("%w: %q is circular", ErrInvalidReference, c.Reference)
+		}
 		c.ReferenceTo = refTo
+
+		// Set the referenced one first, as it can be a reference too
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
+		c.Location = refTo.Location
 	}
 
 	return nil
 }
 
+// Follow returns referenced correlation ID if specified or the actual correlation ID.
+func (c *CorrelationID) Follow() *CorrelationID {
+	if c.ReferenceTo != nil {
+		return c.ReferenceTo.Follow()
+	}
+	return c
+}
+
 // Exists checks that the correlation exists (and that the location is set).
 func (c *CorrelationID) Exists() bool {
 	return c != nil && c.Location != ""
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index d9d9b4e..3504fa0 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -105,9 +105,8 @@ func (msg *Message) generateMetadata(parentName, name string, number *int) error
 		return err
 	}
 
-	// Process correlation ID
-	msg.createCorrelationIDFieldIfMissing()
-	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+	// Generate correlation ID metadata
+	msg.CorrelationID.generateMetadata(msg.Name, "")
 
 	return nil
 }
@@ -160,7 +159,31 @@ func (msg *Message) setDependencies(spec Specification) error {
 	}
 
 	// Set traits dependencies
-	return msg.setTraitsDependencies(spec)
+	if err := msg.setTraitsDependencies(spec); err != nil {
+		return err
+	}
+
+	// Set correlation ID dependencies, now that its location is known
+	return msg.setCorrelationIDDependencies(spec)
+}
+
+func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
+	if err := msg.CorrelationID.setDependencies(spec); err != nil {
+		return err
+	}
+
+	if !msg.CorrelationID.Exists() {
+		return nil
+	}
+	if err := checkLocation(msg.CorrelationID.Location); err != nil {
+		return err
+	}
+
+	// Process correlation ID
+	msg.createCorrelationIDFieldIfMissing()
+	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+
+	return nil
 }
 
 func (msg *Message) setReference(spec Specification) error {
@@ -294,7 +317,7 @@ func (msg Message) isCorrelationIDRequired() bool {
 	}
 
 	correlationIDParent := msg.createTreeUntilLocation(msg.CorrelationID.Location)
-	path := strings.Split(msg.CorrelationID.Location, "/")
+	path := LocationPath(msg.CorrelationID.Location)
 	return correlationIDParent.IsFieldRequired(path[len(path)-1])
 }
 
@@ -328,22 +351,20 @@ func (msg *Message) createTreeUntilLocation(location string) (locationParent *Sc
 
 func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, location string) (locationParent *Schema) {
 	// Get correct top level placeholder
-	var placeholder **Schema
-	if t == MessageFieldIsHeader {
-		placeholder = &msg.Headers
-	} else {
-		placeholder = &msg.Payload
+	placeholder, suffix := &msg.Headers, MessageHeadersSuffix
+	if t == MessageFieldIsPayload {
+		placeholder, suffix = &msg.Payload, MessagePayloadSuffix
 	}
 
 	var child *Schema
 	switch {
 	case (*placeholder) != nil && (*placeholder).ReferenceTo != nil: // If there is a reference
 		// Use it as child
-		child = (*placeholder).ReferenceTo
+		child = (*placeholder).Follow()
 	case (*placeholder) == nil: // If there is no header and no reference
 		// Create a default one for the message
 		(*placeholder) = utils.ToPointer(NewSchema())
-		(*placeholder).Name = MessageFieldIsHeader.String()
+		(*placeholder).Name = generateFullName(msg.Name, suffix, "", nil)
 		(*placeholder).Type = SchemaTypeIsObject.String()
 		fallthrough
 	default:
@@ -358,21 +379,21 @@ func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, locat
 func (msg Message) downToLocation(child *Schema, location string) (locationParent *Schema) {
 	var exists bool
 
-	path := strings.Split(location, "/")
-	for i, v := range path[1:] {
+	path := LocationPath(location)
+	for i, v := range path {
 		// Keep the parent
-		locationParent = child
+		locationParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = locationParent.Properties[v]
 		if !exists { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
-			child.Name = v
-			if i == len(path)-2 { // As there is -1 in the loop slice
+			child.Name = generateFullName(locationParent.Name, v+"_Property", "", nil)
+			if i == len(path)-1 {
 				child.Type = SchemaTypeIsString.String()
 			} else {
-				child.Type = MessageFieldIsHeader.String()
+				child.Type = SchemaTypeIsObject.String()
 			}
 
 			// Add it to parent
@@ -386,6 +407,32 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 	return locationParent
 }
 
+// LocationPath returns the path of the field a location points to, from the top
+// of the message part it is in.
+// According to: https://datatracker.ietf.org/doc/html/rfc6901
+func LocationPath(location string) []string {
+	_, pointer, found := strings.Cut(location, "#")
+	if !found {
+		pointer = location
+	}
+
+	path := strings.Split(pointer, "/")[1:]
+	for i, v := range path {
+		path[i] = strings.ReplaceAll(strings.ReplaceAll(v, "~1", "/"), "~0", "~")
+	}
+
+	return path
+}
+
+// checkLocation checks that a location points to a field of a message.
+func checkLocation(location string) error {
+	if !strings.HasPrefix(location, "$message.header#/") && !strings.HasPrefix(location, "$message.payload#/") {
+		return fmt.Errorf("%w: location %q is not supported", extensions.ErrAsyncAPI, location)
+	}
+
+	return nil
+}
+
 func (msg *Message) referenceFrom(ref []string) any {
 	if len(ref) == 0 {
 		return msg
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index 9152f4b..3409d1f 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -1,9 +1,5 @@
 package asyncapiv3
 
-import (
-	"strings"
-)
-
 // OperationReplyAddress is a representation of the corresponding asyncapi object
 // filled from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#operationReplyAddressObject
@@ -68,7 +64,11 @@ func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error)
 		return false, err
 	}
 
-	locationParent := msg.createTreeUntilLocation(ora.Location)
-	path := strings.Split(ora.Location, "/")
+	if err := checkLocation(ora.Location); err != nil {
+		return false, err
+	}
+
+	locationParent := msg.Follow().createTreeUntilLocation(ora.Location)
+	path := LocationPath(ora.Location)
 	return locationParent.IsFieldRequired(path[len(path)-1]), nil
 }
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 0d5cc17..9163d30 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -242,6 +242,30 @@ func (s Specification) ReferenceChannelBindings(ref string) (*ChannelBindings, e
 	return bindings, nil
 }
 
+// ReferenceCorrelationID returns the CorrelationID struct corresponding to the given reference.
+func (s Specification) ReferenceCorrelationID(ref string) (*CorrelationID, error) {
+	// Get object pointed by reference
+	obj, err := s.reference(ref)
+	if err != nil {
+		return nil, err
+	}
+
+	// Cast to correlation ID
+	correlationID, ok := obj.(*CorrelationID)
+	if !ok {
+		return nil, fmt.Errorf(
+			"%w: cannot cast %q into 'CorrelationID' (type is %q)",
+			ErrInvalidReference, ref, reflect.TypeOf(obj))
+	}
+
+	// Check that correlation ID is not nil
+	if correlationID == nil {
+		return nil, fmt.Errorf("%w: empty target for correlation ID reference %q", ErrInvalidReference, ref)
+	}
+
+	return correlationID, nil
+}
+
 // ReferenceExternalDocumentation returns the ExternalDocumentation struct corresponding to the given reference.
 func (s Specification) ReferenceExternalDocumentation(ref string) (*ExternalDocumentation, error) {
 	// Get object pointed by reference
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index e22bc0b..7374814 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -43,9 +43,11 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 // referenceToSlicePath will convert a reference to a slice where each element is a
 // step of the path.
 func referenceToSlicePath(ref string) []string {
-	ref = strings.ReplaceAll(ref, ".", "/")
-	ref = strings.ReplaceAll(ref, "#", "")
-	return strings.Split(ref, "/")[1:]
+	source, pointer, _ := strings.Cut(ref, "#")
+	if i := strings.LastIndex(source, "."); i >= 0 {
+		source = source[i+1:]
+	}
+	return append([]string{source}, asyncapi.LocationPath(pointer)...)
 }
 
 // ReferenceToStructAttributePath will convert a reference to a struct attribute
@@ -56,7 +58,7 @@ func ReferenceToStructAttributePath(ref string) string {
 
 	for k, v := range path {
 		// If this is concerning the header, then it will be named "headers"
-		if v == asyncapi.MessageFieldIsHeader.String() {
+		if k == 0 && v == asyncapi.MessageFieldIsHeader.String() {
 			v = "headers"
 		}
 
@@ -154,6 +156,43 @@ func ForcePointerOnFields() {
 	}
 }
 
+// MessageField is a field of a message, with its place in the generated code.
+type MessageField struct {
+	// Path is the path of the struct attributes to the field.
+	Path string
+	// Schema is the schema of the field.
+	Schema *asyncapi.Schema
+	// IsPointer is true if the struct attribute is a pointer.
+	IsPointer bool
+	// OptionalParents are the fields on the path that may be nil.
+	OptionalParents []MessageField
+}
+
+// MessageFieldFromLocation returns the field of a message that is at the given location.
+func MessageFieldFromLocation(msg *asyncapi.Message, location string) MessageField {
+	path := referenceToSlicePath(location)
+
+	var field MessageField
+	if path[0] == asyncapi.MessageFieldIsHeader.String() {
+		field = MessageField{Path: "Headers", Schema: msg.Headers}
+	} else {
+		field = MessageField{Path: "Payload", Schema: msg.Payload}
+	}
+
+	for _, v := range path[1:] {
+		parent := field
+		if parent.IsPointer {
+			field.OptionalParents = append(field.OptionalParents, parent)
+		}
+
+		field.Path = parent.Path + "." + templateutil.Namify(v)
+		field.Schema = parent.Schema.Follow().Properties[v]
+		field.IsPointer = isFieldPointer(*parent.Schema.Follow(), v, *field.Schema)
+	}
+
+	return field
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
@@ -164,6 +203,7 @@ func HelpersFunctions() template.FuncMap {
 		"isFieldPointer":                 isFieldPointer,
 		"generateChannelPath":            GenerateChannelPath,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
+		"messageFieldFromLocation":       MessageFieldFromLocation,
 		"operationName":                  OperationName,
 		"referenceToTypeName":            ReferenceToTypeName,
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 4e81a6b..9c6ee0c 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -34,8 +34,7 @@ func New{{namify .Name}}() {{namify .Name}} {
 
     {{if ne $.CorrelationIDLocation "" -}}
     // Set correlation ID
-    u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired}}&{{end}}u
+    msg.SetCorrelationID(uuid.New().String())
     {{- end}}
 
     return msg
@@ -254,30 +253,40 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 }
 
 {{if ne $.CorrelationIDLocation "" -}}
+{{- $field := messageFieldFromLocation $ $.CorrelationIDLocation}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
-    {{if $.CorrelationIDRequired -}}
-        return msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
-    {{- else -}}
-    if msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} != nil{
-        return *msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
+    {{- range $field.OptionalParents}}
+    if msg.{{.Path}} == nil {
+        return ""
+    }
+    {{- end}}
+    {{- if $field.IsPointer}}
+    if msg.{{$field.Path}} == nil {
+        return ""
     }
-
-    return ""
     {{- end}}
+
+    return string({{if $field.IsPointer}}*{{end}}msg.{{$field.Path}})
 }
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    {{- range $field.OptionalParents}}
+    if msg.{{.Path}} == nil {
+        msg.{{.Path}} = new({{template "schema-name" .Schema}})
+    }
+    {{- end}}
+
+    correlationID := {{template "schema-name" $field.Schema}}(id)
+    msg.{{$field.Path}} = {{if $field.IsPointer}}&{{end}}correlationID
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
 // It will assign the 'req' message correlation ID to the message correlation ID,
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
-    id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.SetCorrelationID(req.CorrelationID())
 }
 {{- end -}}
 {{- end }}
diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 42878b2..2e1fa5e 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -43,8 +43,7 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 
 		// Add a artificial operation for reply if the controller should respond to a reply
 		if shouldControllerRespondToReply(side, op) {
-			ch := op.Reply.Channel.Follow()
-			ao.Send[ch.Name] = op.ReplyIs
+			ao.Send[op.ReplyIs.Name] = op.ReplyIs
 		}
 	}
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 56273bb..87b6a51 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -270,14 +270,18 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
     // Publish reply
     {{- /* Use reply address if needed */}}
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if .Reply.Address.LocationRequired }}
-            chanAddr := recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
-        {{- else }}
-            if recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
+        {{- $field := messageFieldFromLocation $value.GetMessage.Follow .Reply.Address.Location}}
+        {{- range $field.OptionalParents}}
+            if recvMsg.{{.Path}} == nil {
+                return fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+            }
+        {{- end}}
+        {{- if $field.IsPointer}}
+            if recvMsg.{{$field.Path}} == nil {
                 return fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
-            chanAddr := *recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
-        {{- end }}
+        {{- end}}
+            chanAddr := string({{if $field.IsPointer}}*{{end}}recvMsg.{{$field.Path}})
 
         return c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}ReplyTo{{ namify $value.Follow.Name }}(ctx, chanAddr, replyMsg)
     {{- else }}
@@ -398,14 +402,18 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
 ) ({{channelToMessageTypeName .Reply.Channel}}, error) {
     // Get receiving channel address
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if .Reply.Address.LocationRequired }}
-            addr := msg.{{referenceToStructAttributePath .Reply.Address.Location}}
-        {{- else }}
-            if msg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
+        {{- $field := messageFieldFromLocation $value.GetMessage.Follow .Reply.Address.Location}}
+        {{- range $field.OptionalParents}}
+            if msg.{{.Path}} == nil {
+                return {{channelToMessageTypeName $value.Reply.Channel}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+            }
+        {{- end}}
+        {{- if $field.IsPointer}}
+            if msg.{{$field.Path}} == nil {
                 return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
-            addr := *msg.{{referenceToStructAttributePath .Reply.Address.Location}}
-        {{- end }}
+        {{- end}}
+            addr := string({{if $field.IsPointer}}*{{end}}msg.{{$field.Path}})
     {{- else }}
         addr := {{ generateChannelAddr .Reply.Channel }}
     {{- end }}
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index a43b529..c060c27 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -43,9 +43,11 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 // referenceToSlicePath will convert a reference to a slice where each element is a
 // step of the path.
 func referenceToSlicePath(ref string) []string {
-	ref = strings.ReplaceAll(ref, ".", "/")
-	ref = strings.ReplaceAll(ref, "#", "")
-	return strings.Split(ref, "/")[1:]
+	source, pointer, _ := strings.Cut(ref, "#")
+	if i := strings.LastIndex(source, "."); i >= 0 {
+		source = source[i+1:]
+	}
+	return append([]string{source}, asyncapi.LocationPath(pointer)...)
 }
 
 // ReferenceToStructAttributePath will convert a reference to a struct attribute
@@ -56,7 +58,7 @@ func ReferenceToStructAttributePath(ref string) string {
 
 	for k, v := range path {
 		// If this is concerning the header, then it will be named "headers"
-		if v == asyncapi.MessageFieldIsHeader.String() {
+		if k == 0 && v == asyncapi.MessageFieldIsHeader.String() {
 			v = "headers"
 		}
 
@@ -140,6 +142,43 @@ func ForcePointerOnFields() {
 	}
 }
 
+// MessageField is a field of a message, with its place in the generated code.
+type MessageField struct {
+	// Path is the path of the struct attributes to the field.
+	Path string
+	// Schema is the schema of the field.
+	Schema *asyncapi.Schema
+	// IsPointer is true if the struct attribute is a pointer.
+	IsPointer bool
+	// OptionalParents are the fields on the path that may be nil.
+	OptionalParents []MessageField
+}
+
+// MessageFieldFromLocation returns the field of a message that is at the given location.
+func MessageFieldFromLocation(msg *asyncapi.Message, location string) MessageField {
+	path := referenceToSlicePath(location)
+
+	var field MessageField
+	if path[0] == asyncapi.MessageFieldIsHeader.String() {
+		field = MessageField{Path: "Headers", Schema: msg.Headers}
+	} else {
+		field = MessageField{Path: "Payload", Schema: msg.Payload}
+	}
+
+	for _, v := range path[1:] {
+		parent := field
+		if parent.IsPointer {
+			field.OptionalParents = append(field.OptionalParents, parent)
+		}
+
+		field.Path = parent.Path + "." + templateutil.Namify(v)
+		field.Schema = parent.Schema.Follow().Properties[v]
+		field.IsPointer = isFieldPointer(*parent.Schema.Follow(), v, *field.Schema)
+	}
+
+	return field
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
@@ -153,6 +192,7 @@ func HelpersFunctions() template.FuncMap {
 		"generateChannelAddr":            GenerateChannelAddr,
 		"generateChannelAddrFromOp":      GenerateChannelAddrFromOp,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
+		"messageFieldFromLocation":       MessageFieldFromLocation,
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
 		"generateJSONTags":               generators.GenerateJSONTags[asyncapi.Schema],
 	}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index a8ce84b..edd6b63 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -43,8 +43,7 @@ func New{{namify .Name}}() {{namify .Name}} {
 
     {{if $.HaveCorrelationID -}}
     // Set correlation ID
-    u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired}}&{{end}}u
+    msg.SetCorrelationID(uuid.New().String())
     {{- end}}
 
     return msg
@@ -264,30 +263,40 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 }
 
 {{if $.HaveCorrelationID -}}
+{{- $field := messageFieldFromLocation $ $.Follow.CorrelationID.Location}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
-    {{if $.CorrelationIDRequired -}}
-        return msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
-    {{- else -}}
-    if msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} != nil{
-        return *msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
+    {{- range $field.OptionalParents}}
+    if msg.{{.Path}} == nil {
+        return ""
+    }
+    {{- end}}
+    {{- if $field.IsPointer}}
+    if msg.{{$field.Path}} == nil {
+        return ""
     }
-
-    return ""
     {{- end}}
+
+    return string({{if $field.IsPointer}}*{{end}}msg.{{$field.Path}})
 }
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    {{- range $field.OptionalParents}}
+    if msg.{{.Path}} == nil {
+        msg.{{.Path}} = new({{template "schema-name" .Schema}})
+    }
+    {{- end}}
+
+    correlationID := {{template "schema-name" $field.Schema}}(id)
+    msg.{{$field.Path}} = {{if $field.IsPointer}}&{{end}}correlationID
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
 // It will assign the 'req' message correlation ID to the message correlation ID,
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
-    id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.SetCorrelationID(req.CorrelationID())
 }
 {{- end -}}
 
-- 
2.43.0


From ff6fa7189d2b11bc462943e0d1029c8f9259d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 21/43] fix: references to parts of schemas and merged, aliased
 or nested array schemas generated invalid code

---
 pkg/asyncapi/v2/message.go                    |  16 +--
 pkg/asyncapi/v2/operation.go                  |   2 +-
 pkg/asyncapi/v2/schema.go                     | 107 ++++++++++++++----
 pkg/asyncapi/v2/specification.go              |  43 ++++---
 pkg/asyncapi/v3/channel.go                    |  18 +++
 pkg/asyncapi/v3/components.go                 |  50 ++++++++
 pkg/asyncapi/v3/message.go                    |  16 +--
 pkg/asyncapi/v3/schema.go                     | 101 +++++++++++++----
 pkg/asyncapi/v3/specification.go              |  87 ++++++--------
 .../generators/v2/templates/helpers.go        |   9 +-
 .../generators/v3/templates/helpers.go        |   9 +-
 11 files changed, 320 insertions(+), 138 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 4ef08d3..b990cf1 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -334,18 +334,18 @@ func checkLocation(location string) error {
 }
 
 func (msg *Message) referenceFrom(ref []string) any {
-	if len(ref) == 0 {
+	if msg == nil || len(ref) == 0 {
 		return msg
 	}
 
-	var next *Schema
-	if ref[0] == "payload" {
-		next = msg.Payload
-	} else if ref[0] == MessageFieldIsHeader.String() {
-		next = msg.Headers
+	switch ref[0] {
+	case MessageFieldIsPayload.String():
+		return msg.Payload.referenceFrom(ref[1:])
+	case MessageFieldIsHeader.String(), "headers":
+		return msg.Headers.referenceFrom(ref[1:])
+	default:
+		return (*Schema)(nil)
 	}
-
-	return next.referenceFrom(ref[1:])
 }
 
 // MergeWith merges the Message with another one.
diff --git a/pkg/asyncapi/v2/operation.go b/pkg/asyncapi/v2/operation.go
index be5a925..551e934 100644
--- a/pkg/asyncapi/v2/operation.go
+++ b/pkg/asyncapi/v2/operation.go
@@ -27,7 +27,7 @@ func (op *Operation) generateMetadata(name string) error {
 	// Get message name
 	var msgName string
 	if op.Message.Reference != "" {
-		msgName = strings.Split(op.Message.Reference, "/")[3]
+		msgName = op.Message.Reference[strings.LastIndex(op.Message.Reference, "/")+1:]
 	} else {
 		msgName = op.Name
 	}
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 984de0d..d17906d 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -2,6 +2,7 @@ package asyncapiv2
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
@@ -45,6 +46,9 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	// dependenciesSet is true once the dependencies are set, or are being set.
+	dependenciesSet bool
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -113,11 +117,21 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 	if refTo == nil {
 		return
 	}
-	s.Validations.Merge(refTo.Validations)
+
+	// The parts of the referenced schema are already merged in it
+	validations := refTo.Validations
+	validations.AllOf, validations.AnyOf, validations.OneOf = nil, nil, nil
+	s.Validations.Merge(validations)
 }
 
 // setDependencies sets dependencies for the schema from the specification.
 func (s *Schema) setDependencies(spec Specification) error {
+	// Do it only once, as a schema can be referenced several times
+	if s.dependenciesSet {
+		return nil
+	}
+	s.dependenciesSet = true
+
 	// Reference to another schema if specified
 	if err := s.setReference(spec); err != nil {
 		return err
@@ -170,11 +184,10 @@ func (s *Schema) setReference(spec Specification) error {
 	}
 	s.ReferenceTo = refTo
 
-	// If this is a reference to a reference, set it first
-	if refTo.ReferenceTo == nil {
-		if err := refTo.setReference(spec); err != nil {
-			return err
-		}
+	// Set the dependencies of the referenced schema first, as it can itself be a
+	// reference or a merge of other schemas
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
 	}
 	s.setValidationsFromReferenced(refTo)
 
@@ -328,13 +341,56 @@ func (s Schema) IsFieldRequired(field string) bool {
 }
 
 func (s *Schema) referenceFrom(ref []string) *Schema {
-	if len(ref) == 0 {
+	if s == nil || len(ref) == 0 {
 		return s
 	}
 
+	// Get children that are alone
+	switch ref[0] {
+	case "items":
+		if s.Items != nil {
+			return s.Items.referenceFrom(ref[1:])
+		}
+	case "additionalProperties":
+		if s.AdditionalProperties != nil {
+			return s.AdditionalProperties.referenceFrom(ref[1:])
+		}
+	}
+
+	// Get children that are named or numbered
+	if len(ref) > 1 {
+		if child := s.childFrom(ref[0], ref[1]); child != nil {
+			return child.referenceFrom(ref[2:])
+		}
+	}
+
+	// Get the property, in case it is given directly by its name
 	return s.Properties[ref[0]].referenceFrom(ref[1:])
 }
 
+// childFrom returns the child with the given name or index, in the given field
+// of the schema, or nil if there is none.
+func (s *Schema) childFrom(field, key string) *Schema {
+	var schemas []*Schema
+	switch field {
+	case "properties":
+		return s.Properties[key]
+	case "allOf":
+		schemas = s.AllOf
+	case "anyOf":
+		schemas = s.AnyOf
+	case "oneOf":
+		schemas = s.OneOf
+	}
+
+	i, err := strconv.Atoi(key)
+	if err != nil || i < 0 || i >= len(schemas) {
+		return nil
+	}
+
+	return schemas[i]
+}
+
 // MergeWith merges the given Schema structure with another one
 // (basically for AllOf, AnyOf, OneOf, etc).
 func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
@@ -431,7 +487,7 @@ func (s *Schema) mergeWithSchemaOneOf(s2 Schema) {
 
 func (s *Schema) mergeWithSchemaProperties(s2 Schema) {
 	// Return if there are no properties to merge
-	if s2.Properties == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.Properties == nil) {
+	if s2.Properties == nil && (s2.ReferenceTo == nil || s2.Follow().Properties == nil) {
 		return
 	}
 
@@ -456,12 +512,12 @@ func (s *Schema) mergeWithSchemaProperties(s2 Schema) {
 
 func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 	// Return if there are no properties to merge
-	if s2.ReferenceTo == nil || s2.ReferenceTo.Properties == nil {
+	if s2.ReferenceTo == nil || s2.Follow().Properties == nil {
 		return
 	}
 
 	// Add properties from s2 reference to s
-	for k, v := range s2.ReferenceTo.Properties {
+	for k, v := range s2.Follow().Properties {
 		// Skip if the property already exists
 		_, exists := s.Properties[k]
 		if exists {
@@ -469,16 +525,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		}
 
 		// Add the property
-		if v.Type == "object" {
-			s.Properties[k] = &Schema{
-				Validations: asyncapi.Validations[Schema]{
-					IsRequired: v.IsRequired,
-				},
-				ReferenceTo: v,
-			}
-		} else {
-			s.Properties[k] = v
-		}
+		s.Properties[k] = v.withoutDefinition()
 
 		// Add to required if it is required
 		if v.IsRequired {
@@ -487,6 +534,26 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 	}
 }
 
+// withoutDefinition returns a schema equivalent to the given one, with references
+// to its objects so they won't be defined again.
+func (s *Schema) withoutDefinition() *Schema {
+	switch {
+	case s.Type == SchemaTypeIsObject.String():
+		return &Schema{
+			Validations: asyncapi.Validations[Schema]{
+				IsRequired: s.IsRequired,
+			},
+			ReferenceTo: s,
+		}
+	case s.Type == SchemaTypeIsArray.String() && s.Items != nil:
+		array := *s
+		array.Items = s.Items.withoutDefinition()
+		return &array
+	default:
+		return s
+	}
+}
+
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 4cad206..c385356 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -232,26 +232,35 @@ func (s Specification) reference(ref string) (any, error) {
 	}
 
 	// Separate each part of the reference
-	ref = strings.TrimPrefix(ref, "/")
-	refPath := strings.Split(ref, "/")
-
-	switch refPath[0] {
-	case "components":
-		switch refPath[1] {
-		case "messages":
-			msg := usedSpec.Components.Messages[refPath[2]]
-			return msg.referenceFrom(refPath[3:]), nil
-		case "schemas":
-			schema := usedSpec.Components.Schemas[refPath[2]]
-			return schema.referenceFrom(refPath[3:]), nil
-		case "parameters":
-			return usedSpec.Components.Parameters[refPath[2]], nil
-		default:
-			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
+	refPath := referencePath(ref)
+	if len(refPath) < 3 || refPath[0] != "components" {
+		return nil, fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
+	}
+
+	switch refPath[1] {
+	case "messages":
+		return usedSpec.Components.Messages[refPath[2]].referenceFrom(refPath[3:]), nil
+	case "schemas":
+		return usedSpec.Components.Schemas[refPath[2]].referenceFrom(refPath[3:]), nil
+	case "parameters":
+		if len(refPath) > 3 {
+			return nil, fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
 		}
+		return usedSpec.Components.Parameters[refPath[2]], nil
 	default:
-		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[0], ref)
+		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
+	}
+}
+
+// referencePath returns the path to the target of a reference in its document.
+// According to: https://datatracker.ietf.org/doc/html/rfc6901
+func referencePath(pointer string) []string {
+	path := strings.Split(strings.TrimPrefix(pointer, "/"), "/")
+	for i, v := range path {
+		path[i] = strings.ReplaceAll(strings.ReplaceAll(v, "~1", "/"), "~0", "~")
 	}
+
+	return path
 }
 
 // MajorVersion returns the asyncapi major version of this document.
diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index e11e6f0..7d2e47b 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -162,3 +162,21 @@ func (ch Channel) GetMessage() (*Message, error) {
 	}
 	return nil, fmt.Errorf("%w: channel %q", ErrNoMessageInChannel, ch.Name)
 }
+
+func (ch *Channel) referenceFrom(path []string, ref string) (any, error) {
+	if ch == nil || len(path) == 0 {
+		return ch, nil
+	}
+	if len(path) < 2 {
+		return nil, fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
+	}
+
+	switch path[0] {
+	case "messages":
+		return ch.Follow().Messages[path[1]].referenceFrom(path[2:]), nil
+	case "parameters":
+		return onlyTarget(ch.Follow().Parameters[path[1]], path[2:], ref)
+	default:
+		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, path[0], ref)
+	}
+}
diff --git a/pkg/asyncapi/v3/components.go b/pkg/asyncapi/v3/components.go
index 1c8ba41..089b59b 100644
--- a/pkg/asyncapi/v3/components.go
+++ b/pkg/asyncapi/v3/components.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // Components is a representation of the corresponding asyncapi object filled
 // from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#componentsObject
@@ -308,3 +310,51 @@ func (c *Components) setDependenciesFromMaps(spec Specification) error {
 
 	return nil
 }
+
+// reference returns the target of a reference in the components.
+//
+//nolint:cyclop // Not necessary to reduce cyclop
+func (c Components) reference(path []string, ref string) (any, error) {
+	switch name, rest := path[1], path[2:]; path[0] {
+	case "schemas":
+		return c.Schemas[name].referenceFrom(rest), nil
+	case "messages":
+		return c.Messages[name].referenceFrom(rest), nil
+	case "channels":
+		return c.Channels[name].referenceFrom(rest, ref)
+	case "servers":
+		return onlyTarget(c.Servers[name], rest, ref)
+	case "operations":
+		return onlyTarget(c.Operations[name], rest, ref)
+	case "securitySchemes":
+		return onlyTarget(c.SecuritySchemes[name], rest, ref)
+	case "serverVariables":
+		return onlyTarget(c.ServerVariables[name], rest, ref)
+	case "parameters":
+		return onlyTarget(c.Parameters[name], rest, ref)
+	case "correlationIds":
+		return onlyTarget(c.CorrelationIDs[name], rest, ref)
+	case "replies":
+		return onlyTarget(c.Replies[name], rest, ref)
+	case "replyAddresses":
+		return onlyTarget(c.ReplyAddresses[name], rest, ref)
+	case "externalDocs":
+		return onlyTarget(c.ExternalDocs[name], rest, ref)
+	case "tags":
+		return onlyTarget(c.Tags[name], rest, ref)
+	case "operationTraits":
+		return onlyTarget(c.OperationTraits[name], rest, ref)
+	case "messageTraits":
+		return onlyTarget(c.MessageTraits[name], rest, ref)
+	case "serverBindings":
+		return onlyTarget(c.ServerBindings[name], rest, ref)
+	case "channelBindings":
+		return onlyTarget(c.ChannelBindings[name], rest, ref)
+	case "operationBindings":
+		return onlyTarget(c.OperationBindings[name], rest, ref)
+	case "messageBindings":
+		return onlyTarget(c.MessageBindings[name], rest, ref)
+	default:
+		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, path[0], ref)
+	}
+}
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 3504fa0..5978f59 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -434,18 +434,18 @@ func checkLocation(location string) error {
 }
 
 func (msg *Message) referenceFrom(ref []string) any {
-	if len(ref) == 0 {
+	if msg == nil || len(ref) == 0 {
 		return msg
 	}
 
-	var next *Schema
-	if ref[0] == "payload" {
-		next = msg.Payload
-	} else if ref[0] == MessageFieldIsHeader.String() {
-		next = msg.Headers
+	switch ref[0] {
+	case MessageFieldIsPayload.String():
+		return msg.Payload.referenceFrom(ref[1:])
+	case MessageFieldIsHeader.String(), "headers":
+		return msg.Headers.referenceFrom(ref[1:])
+	default:
+		return (*Schema)(nil)
 	}
-
-	return next.referenceFrom(ref[1:])
 }
 
 // MergeWith merges the Message with another one.
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 8a2c260..ddc9b43 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -2,6 +2,7 @@ package asyncapiv3
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
@@ -62,6 +63,9 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	// dependenciesSet is true once the dependencies are set, or are being set.
+	dependenciesSet bool
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -171,10 +175,12 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 //
 //nolint:funlen,cyclop // Not necessary to reduce length and cyclop
 func (s *Schema) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if s == nil {
+	// Prevent modification if nil, and do it only once as a schema can be
+	// referenced several times
+	if s == nil || s.dependenciesSet {
 		return nil
 	}
+	s.dependenciesSet = true
 
 	// Set reference
 	if err := s.setReference(spec); err != nil {
@@ -304,11 +310,10 @@ func (s *Schema) setReference(spec Specification) error {
 	}
 	s.ReferenceTo = refTo
 
-	// If this is a reference to a reference, set it first
-	if refTo.ReferenceTo == nil {
-		if err := refTo.setReference(spec); err != nil {
-			return err
-		}
+	// Set the dependencies of the referenced schema first, as it can itself be a
+	// reference or a merge of other schemas
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
 	}
 	s.Validations.Merge(refTo.Validations)
 
@@ -321,13 +326,56 @@ func (s Schema) IsFieldRequired(field string) bool {
 }
 
 func (s *Schema) referenceFrom(ref []string) *Schema {
-	if len(ref) == 0 {
+	if s == nil || len(ref) == 0 {
 		return s
 	}
 
+	// Get children that are alone
+	switch ref[0] {
+	case "items":
+		if s.Items != nil {
+			return s.Items.referenceFrom(ref[1:])
+		}
+	case "additionalProperties":
+		if s.AdditionalProperties != nil {
+			return s.AdditionalProperties.referenceFrom(ref[1:])
+		}
+	}
+
+	// Get children that are named or numbered
+	if len(ref) > 1 {
+		if child := s.childFrom(ref[0], ref[1]); child != nil {
+			return child.referenceFrom(ref[2:])
+		}
+	}
+
+	// Get the property, in case it is given directly by its name
 	return s.Properties[ref[0]].referenceFrom(ref[1:])
 }
 
+// childFrom returns the child with the given name or index, in the given field
+// of the schema, or nil if there is none.
+func (s *Schema) childFrom(field, key string) *Schema {
+	var schemas []*Schema
+	switch field {
+	case "properties":
+		return s.Properties[key]
+	case "allOf":
+		schemas = s.AllOf
+	case "anyOf":
+		schemas = s.AnyOf
+	case "oneOf":
+		schemas = s.OneOf
+	}
+
+	i, err := strconv.Atoi(key)
+	if err != nil || i < 0 || i >= len(schemas) {
+		return nil
+	}
+
+	return schemas[i]
+}
+
 // MergeWith merges the given Schema structure with another one
 // (basically for AllOf, AnyOf, OneOf, etc).
 func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
@@ -424,7 +472,7 @@ func (s *Schema) mergeWithSchemaOneOf(s2 Schema) {
 
 func (s *Schema) mergeWithSchemaProperties(s2 Schema) {
 	// Return if there are no properties to merge
-	if s2.Properties == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.Properties == nil) {
+	if s2.Properties == nil && (s2.ReferenceTo == nil || s2.Follow().Properties == nil) {
 		return
 	}
 
@@ -449,12 +497,12 @@ func (s *Schema) mergeWithSchemaProperties(s2 Schema) {
 
 func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 	// Return if there are no properties to merge
-	if s2.ReferenceTo == nil || s2.ReferenceTo.Properties == nil {
+	if s2.ReferenceTo == nil || s2.Follow().Properties == nil {
 		return
 	}
 
 	// Add properties from s2 reference to s
-	for k, v := range s2.ReferenceTo.Properties {
+	for k, v := range s2.Follow().Properties {
 		// Skip if the property already exists
 		_, exists := s.Properties[k]
 		if exists {
@@ -462,16 +510,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		}
 
 		// Add the property
-		if v.Type == "object" {
-			s.Properties[k] = &Schema{
-				Validations: asyncapi.Validations[Schema]{
-					IsRequired: v.IsRequired,
-				},
-				ReferenceTo: v,
-			}
-		} else {
-			s.Properties[k] = v
-		}
+		s.Properties[k] = v.withoutDefinition()
 
 		// Add to required if it is required
 		if v.IsRequired {
@@ -480,6 +519,26 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 	}
 }
 
+// withoutDefinition returns a schema equivalent to the given one, with references
+// to its objects so they won't be defined again.
+func (s *Schema) withoutDefinition() *Schema {
+	switch {
+	case s.Type == SchemaTypeIsObject.String():
+		return &Schema{
+			Validations: asyncapi.Validations[Schema]{
+				IsRequired: s.IsRequired,
+			},
+			ReferenceTo: s,
+		}
+	case s.Type == SchemaTypeIsArray.String() && s.Items != nil:
+		array := *s
+		array.Items = s.Items.withoutDefinition()
+		return &array
+	default:
+		return s
+	}
+}
+
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 9163d30..26aaa2c 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -710,71 +710,48 @@ func (s Specification) reference(ref string) (any, error) {
 	}
 
 	// Separate each part of the reference
-	ref = strings.TrimPrefix(ref, "/")
-	refPath := strings.Split(ref, "/")
+	refPath := referencePath(ref)
+	if len(refPath) < 2 {
+		return nil, fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
+	}
 
 	switch refPath[0] {
 	case "components":
-		switch refPath[1] {
-		case "schemas":
-			schema := usedSpec.Components.Schemas[refPath[2]]
-			return schema.referenceFrom(refPath[3:]), nil
-		case "servers":
-			return usedSpec.Components.Servers[refPath[2]], nil
-		case "channels":
-			return usedSpec.Components.Channels[refPath[2]], nil
-		case "operations":
-			return usedSpec.Components.Operations[refPath[2]], nil
-		case "messages":
-			msg := usedSpec.Components.Messages[refPath[2]]
-			return msg.referenceFrom(refPath[3:]), nil
-		case "securitySchemes":
-			return usedSpec.Components.SecuritySchemes[refPath[2]], nil
-		case "serverVariables":
-			return usedSpec.Components.ServerVariables[refPath[2]], nil
-		case "parameters":
-			return usedSpec.Components.Parameters[refPath[2]], nil
-		case "correlationIds":
-			return usedSpec.Components.CorrelationIDs[refPath[2]], nil
-		case "replies":
-			return usedSpec.Components.Replies[refPath[2]], nil
-		case "replyAddresses":
-			return usedSpec.Components.ReplyAddresses[refPath[2]], nil
-		case "externalDocs":
-			return usedSpec.Components.ExternalDocs[refPath[2]], nil
-		case "tags":
-			return usedSpec.Components.Tags[refPath[2]], nil
-		case "operationTraits":
-			return usedSpec.Components.OperationTraits[refPath[2]], nil
-		case "messageTraits":
-			return usedSpec.Components.MessageTraits[refPath[2]], nil
-		case "serverBindings":
-			return usedSpec.Components.ServerBindings[refPath[2]], nil
-		case "channelBindings":
-			return usedSpec.Components.ChannelBindings[refPath[2]], nil
-		case "operationBindings":
-			return usedSpec.Components.OperationBindings[refPath[2]], nil
-		case "messageBindings":
-			return usedSpec.Components.MessageBindings[refPath[2]], nil
-		default:
-			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
-		}
-	case "channels":
 		if len(refPath) < 3 {
-			return usedSpec.Channels[refPath[1]], nil
-		}
-		switch refPath[2] {
-		case "messages":
-			msg := usedSpec.Channels[refPath[1]].Messages[refPath[3]]
-			return msg.referenceFrom(refPath[4:]), nil
-		default:
-			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[2], ref)
+			return nil, fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
 		}
+		return usedSpec.Components.reference(refPath[1:], ref)
+	case "channels":
+		return usedSpec.Channels[refPath[1]].referenceFrom(refPath[2:], ref)
+	case "operations":
+		return onlyTarget(usedSpec.Operations[refPath[1]], refPath[2:], ref)
+	case "servers":
+		return onlyTarget(usedSpec.Servers[refPath[1]], refPath[2:], ref)
 	default:
 		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[0], ref)
 	}
 }
 
+// onlyTarget returns the object, as long as the reference does not go further.
+func onlyTarget(obj any, rest []string, ref string) (any, error) {
+	if len(rest) > 0 {
+		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, rest[0], ref)
+	}
+
+	return obj, nil
+}
+
+// referencePath returns the path to the target of a reference in its document.
+// According to: https://datatracker.ietf.org/doc/html/rfc6901
+func referencePath(pointer string) []string {
+	path := strings.Split(strings.TrimPrefix(pointer, "/"), "/")
+	for i, v := range path {
+		path[i] = strings.ReplaceAll(strings.ReplaceAll(v, "~1", "/"), "~0", "~")
+	}
+
+	return path
+}
+
 // MajorVersion returns the asyncapi major version of this document.
 // This function is used mainly by the interface.
 func (s Specification) MajorVersion() int {
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 7374814..3c5b840 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -28,12 +28,13 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 	// Only keep object schemas
 	filteredSchemas := make([]*asyncapi.Schema, 0, len(allSchemas))
 	for _, schema := range allSchemas {
+		// Get the items of arrays, and of arrays of arrays
+		for schema.Type == asyncapi.SchemaTypeIsArray.String() && schema.Items != nil {
+			schema = schema.Items
+		}
+
 		if schema.Type == asyncapi.SchemaTypeIsObject.String() {
 			filteredSchemas = append(filteredSchemas, schema)
-		} else if schema.Type == asyncapi.SchemaTypeIsArray.String() &&
-			schema.Items != nil &&
-			schema.Items.Type == asyncapi.SchemaTypeIsObject.String() {
-			filteredSchemas = append(filteredSchemas, schema.Items)
 		}
 	}
 
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index c060c27..64f9602 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -28,12 +28,13 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 	// Only keep object schemas
 	filteredSchemas := make([]*asyncapi.Schema, 0, len(allSchemas))
 	for _, schema := range allSchemas {
+		// Get the items of arrays, and of arrays of arrays
+		for schema.Type == asyncapi.SchemaTypeIsArray.String() && schema.Items != nil {
+			schema = schema.Items
+		}
+
 		if schema.Type == asyncapi.SchemaTypeIsObject.String() {
 			filteredSchemas = append(filteredSchemas, schema)
-		} else if schema.Type == asyncapi.SchemaTypeIsArray.String() &&
-			schema.Items != nil &&
-			schema.Items.Type == asyncapi.SchemaTypeIsObject.String() {
-			filteredSchemas = append(filteredSchemas, schema.Items)
 		}
 	}
 
-- 
2.43.0


From 596ef8c4fabcfb585ec97f14ce355e024d152f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 22/43] fix: quotes and backslashes of specifications broke the
 generated code

---
 pkg/codegen/generators/helpers.go                  | 14 ++++++++++++--
 .../generators/v2/templates/controller.tmpl        |  2 +-
 pkg/codegen/generators/v2/templates/helpers.go     |  1 +
 .../marshaling/additional_properties.tmpl          |  2 +-
 pkg/codegen/generators/v2/templates/message.tmpl   | 10 +++++-----
 .../generators/v2/templates/schema_definition.tmpl |  2 +-
 pkg/codegen/generators/v2/templates/types.tmpl     |  4 ++--
 .../generators/v3/templates/controller.tmpl        |  2 +-
 pkg/codegen/generators/v3/templates/helpers.go     |  1 +
 .../marshaling/additional_properties.tmpl          |  2 +-
 pkg/codegen/generators/v3/templates/message.tmpl   | 10 +++++-----
 .../generators/v3/templates/schema_definition.tmpl |  2 +-
 pkg/codegen/generators/v3/templates/types.tmpl     |  4 ++--
 13 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/pkg/codegen/generators/helpers.go b/pkg/codegen/generators/helpers.go
index 7617e01..e5d9fb4 100644
--- a/pkg/codegen/generators/helpers.go
+++ b/pkg/codegen/generators/helpers.go
@@ -2,6 +2,7 @@ package generators
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
@@ -25,7 +26,7 @@ func GenerateJSONTags[T any](schema asyncapi.Validations[T], field string) strin
 		directives = append(directives, "omitempty")
 	}
 
-	return fmt.Sprintf("json:\"%s\"", strings.Join(directives, ","))
+	return fmt.Sprintf("json:%q", strings.Join(directives, ","))
 }
 
 func shouldAddOmitEmpty[T any](schema asyncapi.Validations[T]) bool {
@@ -36,6 +37,15 @@ func shouldAddOmitEmpty[T any](schema asyncapi.Validations[T]) bool {
 	return schema.ShouldOmitEmpty == nil || *schema.ShouldOmitEmpty
 }
 
+// StructTag returns the Go literal of the tag of a struct field made of the given parts.
+func StructTag(parts ...string) string {
+	tag := strings.Join(parts, "")
+	if strings.ContainsRune(tag, '`') {
+		return strconv.Quote(tag)
+	}
+	return "`" + tag + "`"
+}
+
 // GenerateValidateTags returns the "validate" tag for a given field in a struct, based on the asyncapi contract.
 // This tag can then be used by go-playground/validator/v10 to validate the struct's content.
 func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool, schemaType string) string {
@@ -68,7 +78,7 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 			directives = append([]string{"omitempty"}, directives...)
 		}
 
-		return fmt.Sprintf(" validate:\"%s\"", strings.Join(directives, ","))
+		return fmt.Sprintf(" validate:%q", strings.Join(directives, ","))
 	} else {
 		return ""
 	}
diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index ebffff9..52d7f6c 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -86,7 +86,7 @@ func (c {{ .Prefix }}Controller) executeMiddlewares(ctx context.Context, msg *ex
 }
 
 func add{{ .Prefix }}ContextValues(ctx context.Context, path string) context.Context {
-    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "{{ .Version }}")
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, {{ printf "%q" .Version }})
     ctx = context.WithValue(ctx, extensions.ContextKeyIsProvider, "{{ snakeCase .Prefix }}")
     return context.WithValue(ctx, extensions.ContextKeyIsChannel, path)
 }
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 3c5b840..71ea252 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -209,5 +209,6 @@ func HelpersFunctions() template.FuncMap {
 		"referenceToTypeName":            ReferenceToTypeName,
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
 		"generateJSONTags":               generators.GenerateJSONTags[asyncapi.Schema],
+		"structTag":                      generators.StructTag,
 	}
 }
diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index 314980c..7df9916 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -45,7 +45,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     for k, v := range m {
         switch k {
             {{ range $key, $value := .Properties -}}
-                case "{{convertKey $key}}":
+                case {{ printf "%q" (convertKey $key) }}:
                     continue
             {{ end -}}
         default:
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 9c6ee0c..5cb0f6e 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -117,7 +117,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- $headers := .Headers -}}
             {{- range  $key, $value := $headerProperties}}
             {{- $header := $value.Follow}}
-            case k == "{{$key}}": // Retrieving {{namify $key}} header
+            case k == {{ printf "%q" $key }}: // Retrieving {{namify $key}} header
                 {{- if ne $header.Type "string" }}
                     err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
                     if err != nil {
@@ -231,13 +231,13 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                 if err != nil {
                     return extensions.BrokerMessage{}, err
                 }
-                headers["{{$key}}"] = h
+                headers[{{ printf "%q" $key }}] = h
             {{- else if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
-                headers["{{$key}}"] = []byte(civil.Date({{ $dereferenceOp }}msg.Headers.{{namify $key}}).String())
+                headers[{{ printf "%q" $key }}] = []byte(civil.Date({{ $dereferenceOp }}msg.Headers.{{namify $key}}).String())
             {{- else if isDateOrDateTimeGenerated $header.Format }}
-                headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                headers[{{ printf "%q" $key }}] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339))
             {{- else }}
-                headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
+                headers[{{ printf "%q" $key }}] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
             {{- end }}
                 }
         {{- end}}
diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index eab7057..40f59dc 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} {{structTag (generateJSONTags $value.Validations $key) (generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type)}}
     {{end -}}
 
     {{- if .AdditionalProperties}}
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index c4ac5bd..ec6a00b 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -1,5 +1,5 @@
 // AsyncAPIVersion is the version of the used AsyncAPI document
-const AsyncAPIVersion = "{{ .Info.Version }}"
+const AsyncAPIVersion = {{ printf "%q" .Info.Version }}
 
 // controller is the controller that will be used to communicate with the broker
 // It will be used internally by AppController and UserController
@@ -88,7 +88,7 @@ type {{ namifyWithoutParam $key }}Parameters struct {
 const(
 {{- range $key, $value := .Channels}}
     // {{ namifyWithoutParam .Name }}Path is the constant representing the '{{ .Name }}' channel path.
-    {{ namifyWithoutParam .Name }}Path = "{{$key}}"
+    {{ namifyWithoutParam .Name }}Path = {{ printf "%q" $key }}
 {{- end}}
 )
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 87b6a51..b263ea2 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -86,7 +86,7 @@ func (c {{ .Prefix }}Controller) executeMiddlewares(ctx context.Context, msg *ex
 }
 
 func add{{ .Prefix }}ContextValues(ctx context.Context, addr string) context.Context {
-    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "{{ .Version }}")
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, {{ printf "%q" .Version }})
     ctx = context.WithValue(ctx, extensions.ContextKeyIsProvider, "{{ snakeCase .Prefix }}")
     return context.WithValue(ctx, extensions.ContextKeyIsChannel, addr)
 }
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 64f9602..b8f5c4d 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -196,5 +196,6 @@ func HelpersFunctions() template.FuncMap {
 		"messageFieldFromLocation":       MessageFieldFromLocation,
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
 		"generateJSONTags":               generators.GenerateJSONTags[asyncapi.Schema],
+		"structTag":                      generators.StructTag,
 	}
 }
diff --git a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
index d520a29..79c50b7 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
@@ -57,7 +57,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     for k, v := range m {
         switch k {
             {{ range $key, $value := .Properties -}}
-                case "{{convertKey $key}}":
+                case {{ printf "%q" (convertKey $key) }}:
                     continue
             {{ end -}}
         default:
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index edd6b63..39bb476 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -126,7 +126,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- $headers := .Headers -}}
             {{- range  $key, $value := $headerProperties}}
             {{- $header := $value.Follow}}
-            case k == "{{$key}}": // Retrieving {{namify $key}} header
+            case k == {{ printf "%q" $key }}: // Retrieving {{namify $key}} header
                 {{- if ne $header.Type "string" }}
                     err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
                     if err != nil {
@@ -241,13 +241,13 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                 if err != nil {
                     return extensions.BrokerMessage{}, err
                 }
-                headers["{{$key}}"] = h
+                headers[{{ printf "%q" $key }}] = h
             {{- else if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
-                headers["{{$key}}"] = []byte(civil.Date({{ $dereferenceOp }}msg.Headers.{{namify $key}}).String())
+                headers[{{ printf "%q" $key }}] = []byte(civil.Date({{ $dereferenceOp }}msg.Headers.{{namify $key}}).String())
             {{- else if isDateOrDateTimeGenerated $header.Format }}
-                headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                headers[{{ printf "%q" $key }}] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339))
             {{- else }}
-                headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
+                headers[{{ printf "%q" $key }}] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
             {{- end }}
                 }
         {{- end}}
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index eab7057..40f59dc 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} {{structTag (generateJSONTags $value.Validations $key) (generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type)}}
     {{end -}}
 
     {{- if .AdditionalProperties}}
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index d247648..a4fb57a 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -1,5 +1,5 @@
 // AsyncAPIVersion is the version of the used AsyncAPI document
-const AsyncAPIVersion = "{{ .Info.Version }}"
+const AsyncAPIVersion = {{ printf "%q" .Info.Version }}
 
 // controller is the controller that will be used to communicate with the broker
 // It will be used internally by AppController and UserController
@@ -88,7 +88,7 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 const(
 {{- range $key, $value := .Channels}}
     // {{ namifyWithoutParam .Follow.Name }}Path is the constant representing the '{{ .Follow.Name }}' channel path.
-    {{ namifyWithoutParam .Follow.Name }}Path = "{{ .Follow.Address }}"
+    {{ namifyWithoutParam .Follow.Name }}Path = {{ printf "%q" .Follow.Address }}
 {{- end}}
 )
 
-- 
2.43.0


From 90985b8a8bc4c0b560e436f130a2abcab4eacc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 23/43] fix: generation options leaked into the following
 generations

---
 pkg/codegen/codegen.go                         | 10 +++-------
 pkg/codegen/generators/v2/templates/helpers.go | 17 +++++++++++++----
 pkg/codegen/generators/v3/templates/helpers.go | 17 +++++++++++++----
 pkg/utils/template/helpers.go                  |  9 ++++++++-
 4 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index df377fb..a2a03fd 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -90,13 +90,9 @@ func (cg CodeGen) Generate(opt options.Options) error {
 		return err
 	}
 
-	if opt.IgnoreStringFormat {
-		template.DisableDateOrTimeGeneration()
-	}
-	if opt.ForcePointers {
-		templatesv2.ForcePointerOnFields()
-		templatesv3.ForcePointerOnFields()
-	}
+	template.SetDateOrTimeGeneration(!opt.IgnoreStringFormat)
+	templatesv2.SetForcePointerOnFields(opt.ForcePointers)
+	templatesv3.SetForcePointerOnFields(opt.ForcePointers)
 
 	// Process Specification
 	if err := cg.Specification.Process(); err != nil {
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 71ea252..93b30a0 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -146,15 +146,24 @@ func OperationName(channel asyncapi.Channel) string {
 	return templateutil.Namify(name)
 }
 
-var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+// forcePointerOnFields states if all fields are generated as pointers, except for arrays.
+var forcePointerOnFields = false
+
+func isFieldPointer(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+	if forcePointerOnFields {
+		return schema.Type != "array"
+	}
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
 // ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
 func ForcePointerOnFields() {
-	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
-		return schema.Type != "array"
-	}
+	SetForcePointerOnFields(true)
+}
+
+// SetForcePointerOnFields states if all fields should be generated as pointers, except for arrays.
+func SetForcePointerOnFields(forced bool) {
+	forcePointerOnFields = forced
 }
 
 // MessageField is a field of a message, with its place in the generated code.
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index b8f5c4d..778a349 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -132,15 +132,24 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	return sprint[:len(sprint)-1] + ")"
 }
 
-var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+// forcePointerOnFields states if all fields are generated as pointers, except for arrays.
+var forcePointerOnFields = false
+
+func isFieldPointer(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+	if forcePointerOnFields {
+		return schema.Type != "array"
+	}
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
 // ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
 func ForcePointerOnFields() {
-	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
-		return schema.Type != "array"
-	}
+	SetForcePointerOnFields(true)
+}
+
+// SetForcePointerOnFields states if all fields should be generated as pointers, except for arrays.
+func SetForcePointerOnFields(forced bool) {
+	forcePointerOnFields = forced
 }
 
 // MessageField is a field of a message, with its place in the generated code.
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index 3feee6d..61159e2 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -154,7 +154,14 @@ var isDateOrDateTimeGenerated = func(format string) bool {
 
 // DisableDateOrTimeGeneration is used to disable the generation of date/date-time formats within types.
 func DisableDateOrTimeGeneration() {
-	isDateOrDateTimeGenerated = func(_ string) bool { return false }
+	SetDateOrTimeGeneration(false)
+}
+
+// SetDateOrTimeGeneration states if date/date-time formats should be generated within types.
+func SetDateOrTimeGeneration(enabled bool) {
+	isDateOrDateTimeGenerated = func(format string) bool {
+		return enabled && (format == "date" || format == "date-time")
+	}
 }
 
 // HelpersFunctions returns the functions that can be used as helpers
-- 
2.43.0


From 21420915016e5edb2875b5d286265dce590372e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 24/43] fix: the message of a channel with several messages was
 taken at random

---
 pkg/asyncapi/v3/channel.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 7d2e47b..243edb7 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -2,6 +2,7 @@ package asyncapiv3
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 )
@@ -157,8 +158,16 @@ func (ch *Channel) Follow() *Channel {
 
 // GetMessage will return the channel message.
 func (ch Channel) GetMessage() (*Message, error) {
-	for _, m := range ch.Follow().Messages {
-		return m.Follow(), nil // TODO: change
+	// Take the first message by name, as the order of the map is random
+	msgs := ch.Follow().Messages
+	names := make([]string, 0, len(msgs))
+	for name := range msgs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	if len(names) > 0 {
+		return msgs[names[0]].Follow(), nil // TODO: change
 	}
 	return nil, fmt.Errorf("%w: channel %q", ErrNoMessageInChannel, ch.Name)
 }
-- 
2.43.0


From 966aea300d53b90863807931c02eab5f7f70e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 25/43] fix: the application used the wrong message of channels
 with both operations

---
 .../generators/v2/templates/controller.tmpl   | 35 +++++++++++--------
 .../generators/v2/templates/subscriber.tmpl   |  7 +++-
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 52d7f6c..f9dfa3c 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -1,3 +1,10 @@
+{{- $receive := "subscribe" -}}
+{{- $send := "publish" -}}
+{{- if eq .Prefix "App" -}}
+    {{- /* What is published on a channel is received by the application, and conversely */ -}}
+    {{- $receive = "publish" -}}
+    {{- $send = "subscribe" -}}
+{{- end -}}
 // {{ .Prefix }}Controller is the structure that provides publishing capabilities to the
 // developer and and connect the broker with the {{ .Prefix }}
 type {{ .Prefix }}Controller struct {
@@ -145,7 +152,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
     {{- if .Parameters}}
     params {{namifyWithoutParam $key}}Parameters,
     {{- end }}
-    fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
+    fn func (ctx context.Context, msg {{(channelToMessage $value $receive).Name}}) error,
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
@@ -195,7 +202,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
 func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
-    fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
+    fn func (ctx context.Context, msg {{(channelToMessage $value $receive).Name}}) error,
 ) (stop bool, err error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
@@ -218,12 +225,12 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     // Execute middlewares before handling the message
     if err := c.executeMiddlewares(msgCtx, &acknowledgeableBrokerMessage.BrokerMessage, func(middlewareCtx context.Context) error {
         // Process message
-        msg, err := brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{(channelToMessage $value $receive).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return err
         }
 
-        {{if ne (channelToMessage $value "subscribe").CorrelationIDLocation "" -}}
+        {{if ne (channelToMessage $value $receive).CorrelationIDLocation "" -}}
             // Add correlation ID to context if it exists
             if id := msg.CorrelationID(); id != "" {
                 middlewareCtx = context.WithValue(middlewareCtx, extensions.ContextKeyIsCorrelationID, id)
@@ -284,12 +291,12 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     {{- if .Parameters }}
     params {{namifyWithoutParam $key}}Parameters,
     {{- end}}
-    msg {{(channelToMessage $value "publish").Name}},
+    msg {{(channelToMessage $value $send).Name}},
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
-    {{if ne (channelToMessage $value "publish").CorrelationIDLocation "" -}}
+    {{if ne (channelToMessage $value $send).CorrelationIDLocation "" -}}
     // Set correlation ID if it does not exist
     if id := msg.CorrelationID(); id == "" {
         msg.SetCorrelationID(uuid.New().String())
@@ -299,7 +306,7 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     // Set context
     ctx = add{{ $.Prefix }}ContextValues(ctx, path)
     ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "publication")
-    {{if ne (channelToMessage $value "publish").CorrelationIDLocation "" -}}
+    {{if ne (channelToMessage $value $send).CorrelationIDLocation "" -}}
     ctx = context.WithValue(ctx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())
     {{- end}}
 
@@ -335,7 +342,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     {{- end}}
     publishMsg MessageWithCorrelationID,
     pub func(ctx context.Context) error,
-) ({{(channelToMessage $value "subscribe").Name}}, error) {
+) ({{(channelToMessage $value $receive).Name}}, error) {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
@@ -347,7 +354,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     sub, err := c.broker.Subscribe(ctx, path)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{(channelToMessage $value "subscribe").Name}}{}, err
+        return {{(channelToMessage $value $receive).Name}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -362,7 +369,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
 
     // Execute callback for publication
     if err = pub(ctx); err != nil {
-        return {{(channelToMessage $value "subscribe").Name}}{}, err
+        return {{(channelToMessage $value $receive).Name}}{}, err
     }
 
     // Wait for corresponding response
@@ -371,7 +378,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
         msg, err := c.waitFor{{operationName $value}}NextMessage(ctx, path, sub, publishMsg)
         if err != nil {
             c.logger.Error(ctx, err.Error())
-            return {{(channelToMessage $value "subscribe").Name}}{}, err
+            return {{(channelToMessage $value $receive).Name}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -388,7 +395,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
     publishMsg MessageWithCorrelationID,
-) (*{{(channelToMessage $value "subscribe").Name}}, error) {
+) (*{{(channelToMessage $value $receive).Name}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, path)
@@ -407,7 +414,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Get new message
-        msg, err := brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{(channelToMessage $value $receive).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             c.logger.Error(msgCtx, err.Error())
         }
@@ -429,7 +436,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Return the message to the caller from the broker that could have been modified by middlewares
-        msg, err = brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err = brokerMessageTo{{(channelToMessage $value $receive).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
diff --git a/pkg/codegen/generators/v2/templates/subscriber.tmpl b/pkg/codegen/generators/v2/templates/subscriber.tmpl
index d429d44..536d028 100644
--- a/pkg/codegen/generators/v2/templates/subscriber.tmpl
+++ b/pkg/codegen/generators/v2/templates/subscriber.tmpl
@@ -1,9 +1,14 @@
+{{- $receive := "subscribe" -}}
+{{- if eq .Prefix "App" -}}
+    {{- /* What is published on a channel is received by the application */ -}}
+    {{- $receive = "publish" -}}
+{{- end -}}
 {{if .MethodCount -}}
 // {{ .Prefix }}Subscriber represents all handlers that are expecting messages for {{ .Prefix }}
 type {{ .Prefix }}Subscriber interface {
 {{- range  $key, $value := .Channels}}
     // {{operationName $value}} subscribes to messages placed on the '{{ $key }}' channel
-    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error
+    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value $receive).Name}}) error
 {{end}}
 }
 {{- end}}
-- 
2.43.0


From 551769e6a9c211a587ed503073356020b083e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 26/43] fix: referenced operations, replies and reply addresses
 were ignored or crashed

---
 pkg/asyncapi/v3/components.go                 | 11 +---
 pkg/asyncapi/v3/operation.go                  | 54 +++++++++++++++----
 pkg/asyncapi/v3/operation_reply.go            |  8 +--
 pkg/asyncapi/v3/operation_reply_address.go    | 40 ++++++++++----
 pkg/asyncapi/v3/specification.go              | 10 ++++
 pkg/codegen/generators/v3/common.go           |  3 ++
 pkg/codegen/generators/v3/controller.go       |  2 +-
 .../generators/v3/templates/controller.tmpl   | 32 +++++------
 8 files changed, 112 insertions(+), 48 deletions(-)

diff --git a/pkg/asyncapi/v3/components.go b/pkg/asyncapi/v3/components.go
index 089b59b..e95fbd6 100644
--- a/pkg/asyncapi/v3/components.go
+++ b/pkg/asyncapi/v3/components.go
@@ -86,14 +86,14 @@ func (c *Components) setDependencies(spec Specification) error {
 
 	// Set reply operations dependencies
 	for _, reply := range c.Replies {
-		if err := reply.setDependencies(&Operation{}, spec); err != nil {
+		if err := reply.setDependencies(nil, spec); err != nil {
 			return err
 		}
 	}
 
 	// Set reply addresses dependencies
 	for _, repAddr := range c.ReplyAddresses {
-		if err := repAddr.setDependencies(&Operation{}, spec); err != nil {
+		if err := repAddr.setDependencies(spec); err != nil {
 			return err
 		}
 	}
@@ -210,13 +210,6 @@ func (c *Components) setDependenciesFromMaps(spec Specification) error {
 		}
 	}
 
-	// Set operations dependencies
-	for _, entity := range c.Operations {
-		if err := entity.setDependencies(spec); err != nil {
-			return err
-		}
-	}
-
 	// Set messages dependencies
 	for _, entity := range c.Messages {
 		if err := entity.setDependencies(spec); err != nil {
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 6fdfc55..7241b55 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -1,6 +1,13 @@
 package asyncapiv3
 
-import "fmt"
+import (
+	"fmt"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+)
+
+// ErrNoChannelInOperation is the error returned when there is no channel in an operation.
+var ErrNoChannelInOperation = fmt.Errorf("%w: no channel in operation", extensions.ErrAsyncAPI)
 
 // OperationAction represents an OperationAction.
 type OperationAction string
@@ -97,6 +104,11 @@ func (op *Operation) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Check that there is a channel
+	if op.Reference == "" && op.Channel == nil {
+		return fmt.Errorf("%w: %q", ErrNoChannelInOperation, op.Name)
+	}
+
 	// Set channel dependencies if there is one
 	if err := op.Channel.setDependencies(spec); err != nil {
 		return err
@@ -137,9 +149,7 @@ func (op *Operation) setDependencies(spec Specification) error {
 	}
 
 	// Generate reply
-	op.generateReply()
-
-	return nil
+	return op.generateReply()
 }
 
 func (op *Operation) setReference(spec Specification) error {
@@ -172,25 +182,51 @@ func (op *Operation) setTraitsDependenciesAndApply(spec Specification) error {
 	return nil
 }
 
-func (op *Operation) generateReply() {
+func (op *Operation) generateReply() error {
 	// Return if there is no reply
 	if op == nil || op.Reply == nil {
-		return
+		return nil
+	}
+
+	// Check that the channel of the reply is known
+	ch := op.Reply.Follow().Channel
+	if ch == nil {
+		return fmt.Errorf("%w: reply of operation %q", ErrNoChannelInOperation, op.Name)
 	}
 
 	// Generate reply
-	ch := op.Reply.Channel.Follow()
 	op.ReplyIs = &Operation{
 		Name:    "ReplyTo" + op.Name,
-		Channel: ch,
+		Channel: ch.Follow(),
 		ReplyOf: op,
 	}
+
+	return nil
+}
+
+// Resolve returns the operation itself or, if it is a reference, the referenced
+// operation under the name of this one.
+func (op *Operation) Resolve() *Operation {
+	if op.ReferenceTo == nil {
+		return op
+	}
+
+	resolved := *op.Follow()
+	resolved.Name = op.Name
+	if resolved.ReplyIs != nil {
+		replyIs := *resolved.ReplyIs
+		replyIs.Name = "ReplyTo" + resolved.Name
+		replyIs.ReplyOf = &resolved
+		resolved.ReplyIs = &replyIs
+	}
+
+	return &resolved
 }
 
 // GetMessage will return the operation message.
 func (op Operation) GetMessage() (*Message, error) {
 	if len(op.Messages) > 0 {
-		return op.Messages[0], nil // TODO: change
+		return op.Messages[0].Follow(), nil // TODO: change
 	}
 
 	return op.Channel.GetMessage()
diff --git a/pkg/asyncapi/v3/operation_reply.go b/pkg/asyncapi/v3/operation_reply.go
index f714038..83ed964 100644
--- a/pkg/asyncapi/v3/operation_reply.go
+++ b/pkg/asyncapi/v3/operation_reply.go
@@ -35,7 +35,8 @@ func (or *OperationReply) generateMetadata(parentName, name string) error {
 	return nil
 }
 
-// setDependencies sets dependencies between the different elements of the OperationReply.
+// setDependencies sets dependencies between the different elements of the
+// OperationReply. The operation is nil if the reply does not belong to one.
 func (or *OperationReply) setDependencies(op *Operation, spec Specification) error {
 	// Prevent modification if nil
 	if or == nil {
@@ -67,11 +68,12 @@ func (or *OperationReply) setDependencies(op *Operation, spec Specification) err
 	}
 
 	// Set address dependencies
-	if err := or.Address.setDependencies(op, spec); err != nil {
+	if err := or.Address.setDependencies(spec); err != nil {
 		return err
 	}
 
-	return nil
+	// Set address location in the message of the operation
+	return or.Follow().Address.setLocation(op)
 }
 
 // Follow returns referenced operation if specified or the actual operation.
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index 3409d1f..c6e2085 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -1,5 +1,7 @@
 package asyncapiv3
 
+import "fmt"
+
 // OperationReplyAddress is a representation of the corresponding asyncapi object
 // filled from an asyncapi specification that will be used to generate code.
 // Source: https://www.asyncapi.com/docs/reference/specification/v3.0.0#operationReplyAddressObject
@@ -29,23 +31,33 @@ func (ora *OperationReplyAddress) generateMetadata(parentName, name string) {
 }
 
 // setDependencies sets dependencies between the different elements of the OperationReplyAddress.
-func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specification) error {
+func (ora *OperationReplyAddress) setDependencies(spec Specification) error {
 	// Prevent modification if nil
-	if ora == nil {
+	if ora == nil || ora.Reference == "" {
 		return nil
 	}
 
 	// Add pointer to reference if there is one
-	if ora.Reference != "" {
-		refTo, err := spec.ReferenceOperationReplyAddress(ora.Reference)
-		if err != nil {
-			return err
-		}
-		ora.ReferenceTo = refTo
+	refTo, err := spec.ReferenceOperationReplyAddress(ora.Reference)
+	if err != nil {
+		return err
+	}
+	if refTo.Follow() == ora {
+		return fmt.Errorf("%w: %q is circular", ErrInvalidReference, ora.Reference)
+	}
+	ora.ReferenceTo = refTo
+
+	return nil
+}
+
+// setLocation sets the location of the address in the message of the operation.
+func (ora *OperationReplyAddress) setLocation(op *Operation) error {
+	// Prevent modification if nil, or if the address does not belong to an operation
+	if ora == nil || op == nil {
+		return nil
 	}
 
-	// Get location to schema
-	locRequired, err := ora.isLocationRequired(op)
+	locRequired, err := ora.Follow().isLocationRequired(op)
 	if err != nil {
 		return err
 	}
@@ -54,6 +66,14 @@ func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specificat
 	return nil
 }
 
+// Follow returns referenced address if specified or the actual address.
+func (ora *OperationReplyAddress) Follow() *OperationReplyAddress {
+	if ora.ReferenceTo != nil {
+		return ora.ReferenceTo.Follow()
+	}
+	return ora
+}
+
 func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error) {
 	if ora.Location == "" {
 		return false, nil
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 26aaa2c..b6628f2 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -166,6 +166,14 @@ func (s *Specification) setDependencies() error {
 		}
 	}
 
+	// Set dependencies for operations of components, once the channels and the
+	// messages they use are set
+	for _, op := range s.Components.Operations {
+		if err := op.setDependencies(*s); err != nil {
+			return err
+		}
+	}
+
 	// Set dependencies for operations
 	for _, op := range s.Operations {
 		if err := op.setDependencies(*s); err != nil {
@@ -180,6 +188,8 @@ func (s *Specification) setDependencies() error {
 // of 'reception' operations inside the Specification.
 func (s Specification) GetOperationCountByAction() (sendCount, receiveCount uint) {
 	for _, op := range s.Operations {
+		op = op.Follow()
+
 		// Check that the publish channel is present
 		if op.Action.IsSend() {
 			sendCount++
diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 2e1fa5e..0f7b49a 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -31,6 +31,9 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 	ao.Receive = make(map[string]*asyncapi.Operation)
 	ao.Send = make(map[string]*asyncapi.Operation)
 	for name, op := range spec.Operations {
+		// Get the actual operation if this is a reference
+		op = op.Resolve()
+
 		// Add channel to receive channels based on operation action and side
 		if isControllerReceiveOperation(side, op) {
 			ao.Receive[name] = op
diff --git a/pkg/codegen/generators/v3/controller.go b/pkg/codegen/generators/v3/controller.go
index f355ecd..7edf849 100644
--- a/pkg/codegen/generators/v3/controller.go
+++ b/pkg/codegen/generators/v3/controller.go
@@ -36,7 +36,7 @@ func NewControllerGenerator(side generators.Side, spec asyncapi.Specification) C
 }
 
 func shouldControllerRespondToReply(side generators.Side, op *asyncapi.Operation) bool {
-	if op.Reply == nil || op.Reply.Channel == nil {
+	if op.ReplyIs == nil {
 		return false
 	}
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index b263ea2..a5ed6c4 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -269,16 +269,16 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
 
     // Publish reply
     {{- /* Use reply address if needed */}}
-    {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- $field := messageFieldFromLocation $value.GetMessage.Follow .Reply.Address.Location}}
+    {{- if and .Reply.Follow.Address (eq .Reply.Follow.Channel.Follow.Address "") }}
+        {{- $field := messageFieldFromLocation $value.GetMessage.Follow .Reply.Follow.Address.Follow.Location}}
         {{- range $field.OptionalParents}}
             if recvMsg.{{.Path}} == nil {
-                return fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+                return fmt.Errorf("%w: {{$value.Reply.Follow.Address.Follow.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
         {{- end}}
         {{- if $field.IsPointer}}
             if recvMsg.{{$field.Path}} == nil {
-                return fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+                return fmt.Errorf("%w: {{.Reply.Follow.Address.Follow.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
         {{- end}}
             chanAddr := string({{if $field.IsPointer}}*{{end}}recvMsg.{{$field.Path}})
@@ -399,23 +399,23 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     params {{namifyWithoutParam $value.Channel.Follow.Name}}Parameters,
     {{- end}}
     msg {{opToMsgTypeName $value}},
-) ({{channelToMessageTypeName .Reply.Channel}}, error) {
+) ({{channelToMessageTypeName .Reply.Follow.Channel}}, error) {
     // Get receiving channel address
-    {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- $field := messageFieldFromLocation $value.GetMessage.Follow .Reply.Address.Location}}
+    {{- if and .Reply.Follow.Address (eq .Reply.Follow.Channel.Follow.Address "") }}
+        {{- $field := messageFieldFromLocation $value.GetMessage.Follow .Reply.Follow.Address.Follow.Location}}
         {{- range $field.OptionalParents}}
             if msg.{{.Path}} == nil {
-                return {{channelToMessageTypeName $value.Reply.Channel}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+                return {{channelToMessageTypeName $value.Reply.Follow.Channel}}{}, fmt.Errorf("%w: {{$value.Reply.Follow.Address.Follow.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
         {{- end}}
         {{- if $field.IsPointer}}
             if msg.{{$field.Path}} == nil {
-                return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+                return {{channelToMessageTypeName .Reply.Follow.Channel}}{}, fmt.Errorf("%w: {{.Reply.Follow.Address.Follow.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
         {{- end}}
             addr := string({{if $field.IsPointer}}*{{end}}msg.{{$field.Path}})
     {{- else }}
-        addr := {{ generateChannelAddr .Reply.Channel }}
+        addr := {{ generateChannelAddr .Reply.Follow.Channel }}
     {{- end }}
 
     // Set context
@@ -426,7 +426,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     sub, err := c.broker.Subscribe(ctx, addr)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{channelToMessageTypeName .Reply.Channel}}{}, err
+        return {{channelToMessageTypeName .Reply.Follow.Channel}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -449,7 +449,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     // Send the message 
     if err := c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }}(ctx, {{- if .Channel.Follow.Parameters}}params,{{- end}} msg); err != nil {
         c.logger.Error(ctx, "error happened when sending message", extensions.LogInfo{Key: "error", Value: err.Error()})
-        return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("error happened when sending message: %w", err)
+        return {{channelToMessageTypeName .Reply.Follow.Channel}}{}, fmt.Errorf("error happened when sending message: %w", err)
     }
 
     // Wait for corresponding response
@@ -458,7 +458,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
         msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.GetMessage.HaveCorrelationID}}, msg{{end}})
         if err != nil {
             c.logger.Error(ctx, err.Error())
-            return {{channelToMessageTypeName .Reply.Channel}}{}, err
+            return {{channelToMessageTypeName .Reply.Follow.Channel}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -477,7 +477,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
     {{- if $value.GetMessage.HaveCorrelationID}}
     msg {{opToMsgTypeName $value}},
     {{- end}}
-) (*{{channelToMessageTypeName .Reply.Channel}}, error) {
+) (*{{channelToMessageTypeName .Reply.Follow.Channel}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, addr)
@@ -499,7 +499,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
 
         {{if $value.GetMessage.HaveCorrelationID -}}
         // Get new message
-        rmsg, err := brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err := brokerMessageTo{{channelToMessageTypeName .Reply.Follow.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             c.logger.Error(msgCtx, err.Error())
         }
@@ -531,7 +531,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         //
         // NOTE: it is transformed from the broker again, as it could have
         // been modified by middlewares
-        rmsg, err {{ if not $value.GetMessage.HaveCorrelationID}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err {{ if not $value.GetMessage.HaveCorrelationID}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Follow.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
-- 
2.43.0


From 95abeec4b5310cb51dd3ec7dfb5356ac23762345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 27/43] fix: canceled JetStream subscriptions could take the
 messages of the other ones

---
 .../brokers/natsjetstream/natsjetstream.go          | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index b798c97..e57ca66 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -259,6 +259,19 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		for {
 			select {
 			case message := <-listeners.messages:
+				// If canceled in the meantime, leave the message to the other
+				// subscriptions of the channel. If there is none, let the broker
+				// deliver it again.
+				select {
+				case <-stop:
+					select {
+					case listeners.messages <- message:
+					case <-listeners.stop:
+					}
+					return
+				default:
+				}
+
 				c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
 					Key:   "message",
 					Value: message,
-- 
2.43.0


From aca20093c5e0aa693e6cc90fea89de10b3315697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:24 +0000
Subject: [PATCH 28/43] fix: null objects in documents crashed the generation

---
 pkg/asyncapi/nulls.go            | 68 ++++++++++++++++++++++++++++++++
 pkg/asyncapi/v2/specification.go |  3 ++
 pkg/asyncapi/v3/specification.go |  3 ++
 3 files changed, 74 insertions(+)
 create mode 100644 pkg/asyncapi/nulls.go

diff --git a/pkg/asyncapi/nulls.go b/pkg/asyncapi/nulls.go
new file mode 100644
index 0000000..5cf8ddd
--- /dev/null
+++ b/pkg/asyncapi/nulls.go
@@ -0,0 +1,68 @@
+package asyncapi
+
+import "reflect"
+
+// RemoveNulls removes the null objects from the maps and the lists of the given
+// structure (and of its children), so they are considered as absent.
+func RemoveNulls(structure any) {
+	removeNulls(reflect.ValueOf(structure), make(map[uintptr]struct{}))
+}
+
+func removeNulls(v reflect.Value, visited map[uintptr]struct{}) {
+	switch v.Kind() {
+	case reflect.Ptr:
+		removeNullsFromPointer(v, visited)
+	case reflect.Struct:
+		for i := 0; i < v.NumField(); i++ {
+			// Do not follow the fields that are not part of the document
+			if f := v.Type().Field(i); f.IsExported() && f.Tag.Get("json") != "-" {
+				removeNulls(v.Field(i), visited)
+			}
+		}
+	case reflect.Map:
+		removeNullsFromMap(v, visited)
+	case reflect.Slice:
+		removeNullsFromSlice(v, visited)
+	}
+}
+
+func removeNullsFromPointer(v reflect.Value, visited map[uintptr]struct{}) {
+	if _, done := visited[v.Pointer()]; v.IsNil() || done {
+		return
+	}
+	visited[v.Pointer()] = struct{}{}
+
+	removeNulls(v.Elem(), visited)
+}
+
+func removeNullsFromMap(v reflect.Value, visited map[uintptr]struct{}) {
+	if v.Type().Elem().Kind() != reflect.Ptr {
+		return
+	}
+
+	for _, key := range v.MapKeys() {
+		if value := v.MapIndex(key); value.IsNil() {
+			v.SetMapIndex(key, reflect.Value{})
+		} else {
+			removeNulls(value, visited)
+		}
+	}
+}
+
+func removeNullsFromSlice(v reflect.Value, visited map[uintptr]struct{}) {
+	if v.Type().Elem().Kind() != reflect.Ptr {
+		return
+	}
+
+	kept := reflect.MakeSlice(v.Type(), 0, v.Len())
+	for i := 0; i < v.Len(); i++ {
+		if value := v.Index(i); !value.IsNil() {
+			removeNulls(value, visited)
+			kept = reflect.Append(kept, value)
+		}
+	}
+
+	if kept.Len() != v.Len() {
+		v.Set(kept)
+	}
+}
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index c385356..6232ea0 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -75,6 +75,9 @@ func (s *Specification) Process() error {
 
 // generateMetadata generate metadata for the Specification and its children.
 func (s *Specification) generateMetadata() error {
+	// Consider null objects as absent
+	asyncapi.RemoveNulls(s)
+
 	for _, spec := range s.dependencies {
 		if err := spec.generateMetadata(); err != nil {
 			return err
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index b6628f2..15dfa07 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -87,6 +87,9 @@ func (s *Specification) generateMetadata() error {
 		return nil
 	}
 
+	// Consider null objects as absent
+	asyncapi.RemoveNulls(s)
+
 	// Generate metadata for dependencies
 	for _, spec := range s.dependencies {
 		if err := spec.generateMetadata(); err != nil {
-- 
2.43.0


From c10846edcd8e5ac5f5881049c311dfaa03ad17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 29/43] fix: validation tags ignored zero limits, and crashed
 on big or decimal limits and some texts

---
 pkg/asyncapi/schema.go                        |  28 ++---
 pkg/codegen/generators/helpers.go             | 100 ++++++++++++++----
 .../v2/templates/schema_definition.tmpl       |   2 +-
 .../v3/templates/schema_definition.tmpl       |   2 +-
 4 files changed, 93 insertions(+), 39 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index b691b5c..a23b689 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -4,13 +4,13 @@ package asyncapi
 // These fields are in common for v2 and v3.
 type Validations[T any] struct {
 	Required         []string `json:"required"`
-	MultipleOf       []string `json:"multipleOf"`
-	Maximum          float64  `json:"maximum"`
-	ExclusiveMaximum float64  `json:"exclusiveMaximum"`
-	Minimum          float64  `json:"minimum"`
-	ExclusiveMinimum float64  `json:"exclusiveMinimum"`
-	MaxLength        uint     `json:"maxLength"`
-	MinLength        uint     `json:"minLength"`
+	MultipleOf       float64  `json:"multipleOf"`
+	Maximum          *float64 `json:"maximum"`
+	ExclusiveMaximum *float64 `json:"exclusiveMaximum"`
+	Minimum          *float64 `json:"minimum"`
+	ExclusiveMinimum *float64 `json:"exclusiveMinimum"`
+	MaxLength        *uint    `json:"maxLength"`
+	MinLength        *uint    `json:"minLength"`
 	Pattern          string   `json:"pattern"`
 	MaxItems         uint     `json:"maxItems"`
 	MinItems         uint     `json:"minItems"`
@@ -36,25 +36,25 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 	if len(newV.Required) > 0 {
 		v.Required = newV.Required
 	}
-	if len(newV.MultipleOf) > 0 {
+	if newV.MultipleOf != 0 {
 		v.MultipleOf = newV.MultipleOf
 	}
-	if newV.Maximum != 0 {
+	if newV.Maximum != nil {
 		v.Maximum = newV.Maximum
 	}
-	if newV.ExclusiveMaximum != 0 {
+	if newV.ExclusiveMaximum != nil {
 		v.ExclusiveMaximum = newV.ExclusiveMaximum
 	}
-	if newV.Minimum != 0 {
+	if newV.Minimum != nil {
 		v.Minimum = newV.Minimum
 	}
-	if newV.ExclusiveMinimum != 0 {
+	if newV.ExclusiveMinimum != nil {
 		v.ExclusiveMinimum = newV.ExclusiveMinimum
 	}
-	if newV.MaxLength != 0 {
+	if newV.MaxLength != nil {
 		v.MaxLength = newV.MaxLength
 	}
-	if newV.MinLength != 0 {
+	if newV.MinLength != nil {
 		v.MinLength = newV.MinLength
 	}
 	if newV.Pattern != "" {
diff --git a/pkg/codegen/generators/helpers.go b/pkg/codegen/generators/helpers.go
index e5d9fb4..f8357b3 100644
--- a/pkg/codegen/generators/helpers.go
+++ b/pkg/codegen/generators/helpers.go
@@ -2,6 +2,7 @@ package generators
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -9,11 +10,42 @@ import (
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
-func appendDirectiveIfDefined(directives []string, tagName string, value float64) []string {
-	if value != 0 {
-		return append(directives, fmt.Sprintf("%s=%g", tagName, value))
+// appendLengthDirective appends a directive on a length, if there is a limit.
+func appendLengthDirective(directives []string, tagName string, limit *uint) []string {
+	if limit == nil {
+		return directives
+	}
+	return append(directives, fmt.Sprintf("%s=%d", tagName, *limit))
+}
+
+// appendLimitDirective appends a directive on a number, if there is a limit.
+// The limits of integers are rounded with the given function, as the validator
+// only supports integers for them.
+func appendLimitDirective(
+	directives []string, tagName string, limit *float64, isInteger bool, round func(float64) float64,
+) []string {
+	if limit == nil {
+		return directives
+	}
+
+	value := strconv.FormatFloat(*limit, 'f', -1, 64)
+	if isInteger {
+		value = formatInteger(round(*limit))
+	}
+
+	return append(directives, tagName+"="+value)
+}
+
+// formatInteger returns the integer as a string, limited to the supported range.
+func formatInteger(value float64) string {
+	switch {
+	case value >= math.MaxInt64:
+		return strconv.FormatInt(math.MaxInt64, 10)
+	case value <= math.MinInt64:
+		return strconv.FormatInt(math.MinInt64, 10)
+	default:
+		return strconv.FormatInt(int64(value), 10)
 	}
-	return directives
 }
 
 // GenerateJSONTags returns the "json" tag for a given field in a struct, based on the asyncapi contract.
@@ -54,12 +86,14 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 		directives = append(directives, "required")
 	}
 
-	directives = appendDirectiveIfDefined(directives, "min", float64(schema.MinLength))
-	directives = appendDirectiveIfDefined(directives, "max", float64(schema.MaxLength))
-	directives = appendDirectiveIfDefined(directives, "gte", schema.Minimum)
-	directives = appendDirectiveIfDefined(directives, "lte", schema.Maximum)
-	directives = appendDirectiveIfDefined(directives, "gt", schema.ExclusiveMinimum)
-	directives = appendDirectiveIfDefined(directives, "lt", schema.ExclusiveMaximum)
+	directives = appendLengthDirective(directives, "min", schema.MinLength)
+	directives = appendLengthDirective(directives, "max", schema.MaxLength)
+
+	isInteger := schemaType == "integer"
+	directives = appendLimitDirective(directives, "gte", schema.Minimum, isInteger, math.Ceil)
+	directives = appendLimitDirective(directives, "lte", schema.Maximum, isInteger, math.Floor)
+	directives = appendLimitDirective(directives, "gt", schema.ExclusiveMinimum, isInteger, math.Floor)
+	directives = appendLimitDirective(directives, "lt", schema.ExclusiveMaximum, isInteger, math.Ceil)
 
 	if schema.UniqueItems {
 		directives = append(directives, "unique")
@@ -69,7 +103,7 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 	if schema.Const != nil {
 		if cStr, ok := schema.Const.(string); ok {
 			// Only generate enum if the elements is a string, otherwise this is unsupported
-			directives = append(directives, fmt.Sprintf("eq=%s", cStr))
+			directives = append(directives, equalDirective(cStr))
 		}
 	}
 
@@ -89,20 +123,40 @@ func singleQuote(s string) string {
 	return "'" + s + "'"
 }
 
+// escapeParam escapes the separators of the validator in the parameter of a directive.
+func escapeParam(s string) string {
+	return strings.NewReplacer(",", "0x2C", "|", "0x7C").Replace(s)
+}
+
+// equalDirective returns the directive that requires the given value.
+func equalDirective(s string) string {
+	return "eq=" + escapeParam(s)
+}
+
 func appendEnumDirectives[T any](schema asyncapi.Validations[T], directives []string) []string {
-	if len(schema.Enum) > 0 {
-		var enumsStr []string
-		for _, e := range schema.Enum {
-			if eStr, ok := e.(string); ok {
-				// single quotes are mandatory in order to handle values with spaces
-				enumsStr = append(enumsStr, singleQuote(eStr))
-			}
-		}
+	if len(schema.Enum) == 0 {
+		return directives
+	}
 
-		// Only generate enum if all elements are string, otherwise this is unsupported
-		if len(schema.Enum) == len(enumsStr) {
-			directives = append(directives, fmt.Sprintf("oneof=%s", strings.Join(enumsStr, " ")))
+	var values, equals []string
+	hasQuote := false
+	for _, e := range schema.Enum {
+		eStr, ok := e.(string)
+		if !ok {
+			// Only generate enum if all elements are string, otherwise this is unsupported
+			return directives
 		}
+
+		// single quotes are mandatory in order to handle values with spaces
+		values = append(values, singleQuote(escapeParam(eStr)))
+		equals = append(equals, equalDirective(eStr))
+		hasQuote = hasQuote || strings.Contains(eStr, "'")
 	}
-	return directives
+
+	// Values with single quotes are not supported by 'oneof'
+	if hasQuote {
+		return append(directives, strings.Join(equals, "|"))
+	}
+
+	return append(directives, "oneof="+strings.Join(values, " "))
 }
diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index 40f59dc..7369b1c 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} {{structTag (generateJSONTags $value.Validations $key) (generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type)}}
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} {{structTag (generateJSONTags $value.Validations $key) (generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type)}}
     {{end -}}
 
     {{- if .AdditionalProperties}}
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index 40f59dc..7369b1c 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} {{structTag (generateJSONTags $value.Validations $key) (generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type)}}
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} {{structTag (generateJSONTags $value.Validations $key) (generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type)}}
     {{end -}}
 
     {{- if .AdditionalProperties}}
-- 
2.43.0


From 970281e58c9683ee0b6be320a023247dd4ec6eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 30/43] fix: references to parts of schemas used undefined
 types and required fields

---
 pkg/asyncapi/schema.go                               | 12 ++++++++++++
 pkg/asyncapi/v2/components.go                        |  1 +
 pkg/asyncapi/v2/schema.go                            | 11 ++++++++++-
 pkg/asyncapi/v3/components.go                        |  1 +
 pkg/asyncapi/v3/schema.go                            | 11 ++++++++++-
 pkg/codegen/generators/v2/templates/schema_name.tmpl |  4 ++++
 pkg/codegen/generators/v3/templates/schema_name.tmpl |  4 ++++
 7 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index a23b689..0e75b3c 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -97,3 +97,15 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 		v.ShouldOmitEmpty = newV.ShouldOmitEmpty
 	}
 }
+
+// MergeReferenced merges the Validations of a referenced schema into the current
+// ones. Whether the referenced schema is required where it is defined does not
+// matter, and the current omission of empty values prevails.
+func (v *Validations[T]) MergeReferenced(referenced Validations[T]) {
+	referenced.IsRequired = false
+	if v.ShouldOmitEmpty != nil {
+		referenced.ShouldOmitEmpty = nil
+	}
+
+	v.Merge(referenced)
+}
diff --git a/pkg/asyncapi/v2/components.go b/pkg/asyncapi/v2/components.go
index e207b73..9935e31 100644
--- a/pkg/asyncapi/v2/components.go
+++ b/pkg/asyncapi/v2/components.go
@@ -17,6 +17,7 @@ type Components struct {
 func (c *Components) generateMetadata() error {
 	// For all schemas, generate schema metadata
 	for name, schema := range c.Schemas {
+		schema.IsComponent = true
 		if err := schema.generateMetadata(name+"_Schema", false); err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index d17906d..35f5ebe 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -46,6 +46,9 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	// IsComponent is true if the schema is one of the schemas of the components
+	IsComponent bool `json:"-"`
+
 	// dependenciesSet is true once the dependencies are set, or are being set.
 	dependenciesSet bool
 
@@ -121,7 +124,7 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 	// The parts of the referenced schema are already merged in it
 	validations := refTo.Validations
 	validations.AllOf, validations.AnyOf, validations.OneOf = nil, nil, nil
-	s.Validations.Merge(validations)
+	s.Validations.MergeReferenced(validations)
 }
 
 // setDependencies sets dependencies for the schema from the specification.
@@ -561,3 +564,9 @@ func (s *Schema) Follow() *Schema {
 	}
 	return s
 }
+
+// HasDefinition returns true if there is a type defined for the schema, which is
+// the case of the objects and of the schemas of the components.
+func (s *Schema) HasDefinition() bool {
+	return s.IsComponent || s.Type == SchemaTypeIsObject.String()
+}
diff --git a/pkg/asyncapi/v3/components.go b/pkg/asyncapi/v3/components.go
index e95fbd6..54ee830 100644
--- a/pkg/asyncapi/v3/components.go
+++ b/pkg/asyncapi/v3/components.go
@@ -40,6 +40,7 @@ func (c *Components) generateMetadata() error {
 
 	// Generate schemas metadata
 	for name, schema := range c.Schemas {
+		schema.IsComponent = true
 		if err := schema.generateMetadata("", name+"_Schema", nil, false); err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index ddc9b43..62764d7 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -63,6 +63,9 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	// IsComponent is true if the schema is one of the schemas of the components
+	IsComponent bool `json:"-"`
+
 	// dependenciesSet is true once the dependencies are set, or are being set.
 	dependenciesSet bool
 
@@ -315,7 +318,7 @@ func (s *Schema) setReference(spec Specification) error {
 	if err := refTo.setDependencies(spec); err != nil {
 		return err
 	}
-	s.Validations.Merge(refTo.Validations)
+	s.Validations.MergeReferenced(refTo.Validations)
 
 	return nil
 }
@@ -546,3 +549,9 @@ func (s *Schema) Follow() *Schema {
 	}
 	return s
 }
+
+// HasDefinition returns true if there is a type defined for the schema, which is
+// the case of the objects and of the schemas of the components.
+func (s *Schema) HasDefinition() bool {
+	return s.IsComponent || s.Type == SchemaTypeIsObject.String()
+}
diff --git a/pkg/codegen/generators/v2/templates/schema_name.tmpl b/pkg/codegen/generators/v2/templates/schema_name.tmpl
index 79c6940..db919a6 100644
--- a/pkg/codegen/generators/v2/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_name.tmpl
@@ -69,7 +69,11 @@ struct {
 
 {{- /* ---------------------------- Reference --------------------------- */ -}}
 {{- else if .ReferenceTo -}}
+{{- if .Follow.HasDefinition -}}
 {{ namify .Follow.Name }}
+{{- else -}}
+{{template "schema-name" .Follow}}
+{{- end -}}
 
 {{- /* ----------------------- Unsupported use case ---------------------- */ -}}
 {{- else -}}
diff --git a/pkg/codegen/generators/v3/templates/schema_name.tmpl b/pkg/codegen/generators/v3/templates/schema_name.tmpl
index 03bc71a..e642d39 100644
--- a/pkg/codegen/generators/v3/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_name.tmpl
@@ -69,7 +69,11 @@ struct {
 
 {{- /* ---------------------------- Reference --------------------------- */ -}}
 {{- else if .ReferenceTo -}}
+{{- if .Follow.HasDefinition -}}
 {{ namify .Follow.Name }}
+{{- else -}}
+{{template "schema-name" .Follow}}
+{{- end -}}
 
 {{- /* ----------------------- Unsupported usecase ---------------------- */ -}}
 {{- else -}}
-- 
2.43.0


From 12fe142f47c87dd00b00d2f1bfaf360bbfa6f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 31/43] fix: compositions of schemas required what only some
 alternatives require, and lost values that are no objects

---
 pkg/asyncapi/v2/schema.go                     | 208 +++++++++-----
 pkg/asyncapi/v3/schema.go                     | 254 +++++++++++++-----
 .../generators/v2/templates/schema_name.tmpl  |  22 +-
 .../generators/v3/templates/schema_name.tmpl  |  22 +-
 4 files changed, 326 insertions(+), 180 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 35f5ebe..9e43eef 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -256,14 +256,9 @@ func (s *Schema) setAnyOfDependencies(spec Specification) error {
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
-
-		// Merge with other fields as one struct (invalidate references)
-		if err := s.MergeWith(spec, *v); err != nil {
-			return err
-		}
 	}
 
-	return nil
+	return s.mergeAlternatives(spec, s.AnyOf)
 }
 
 func (s *Schema) generateOneOfMetadata() error {
@@ -282,14 +277,9 @@ func (s *Schema) setOneOfDependencies(spec Specification) error {
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
-
-		// Merge with other fields as one struct (invalidate references)
-		if err := s.MergeWith(spec, *v); err != nil {
-			return err
-		}
 	}
 
-	return nil
+	return s.mergeAlternatives(spec, s.OneOf)
 }
 
 func (s *Schema) generateAllOfMetadata() error {
@@ -308,14 +298,9 @@ func (s *Schema) setAllOfDependencies(spec Specification) error {
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
-
-		// Merge with other fields as one struct (invalidate references)
-		if err := s.MergeWith(spec, *v); err != nil {
-			return err
-		}
 	}
 
-	return nil
+	return s.mergeParts(spec, s.AllOf)
 }
 
 func (s *Schema) generateAdditionalPropertiesMetadata() error {
@@ -404,88 +389,175 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 	s.Type = SchemaTypeIsObject.String()
 
 	// Merge with other fields
-	s.mergeWithSchemaAllOf(s2)
-	s.mergeWithSchemaAnyOf(s2)
-	s.mergeWithSchemaOneOf(s2)
+	// NOTE: the parts and the alternatives of the other schema are already merged
+	// in it, when its dependencies are set
 	s.mergeWithSchemaProperties(s2)
 
 	// Merge requirements
 	s.Required = append(s.Required, s2.Required...)
 	s.Required = utils.RemoveDuplicateFromSlice(s.Required)
+	s.setRequiredProperties()
 
 	return nil
 }
 
-func (s *Schema) mergeWithSchemaAllOf(s2 Schema) {
-	// Return if there are no AllOf to merge
-	if s2.AllOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.AllOf == nil) {
-		return
+// setRequiredProperties sets which properties are required, once they are known.
+func (s *Schema) setRequiredProperties() {
+	for k, p := range s.Properties {
+		if required := s.IsFieldRequired(k); p.IsRequired != required {
+			// NOTE: the property can also be the one of a merged schema
+			property := *p
+			property.IsRequired = required
+			s.Properties[k] = &property
+		}
+	}
+}
+
+// mergeParts merges the schemas that apply all together to the schema.
+func (s *Schema) mergeParts(spec Specification, parts []*Schema) error {
+	if t, _ := s.typeWith(parts); t != SchemaTypeIsObject.String() {
+		for _, v := range parts {
+			s.mergeWithValue(v)
+		}
+		return nil
 	}
 
-	// Initialize AllOf if they are nil
-	if s.AllOf == nil {
-		s.AllOf = make([]*Schema, 0)
+	// Merge with other fields as one struct (invalidate references)
+	for _, v := range parts {
+		if err := s.MergeWith(spec, *v); err != nil {
+			return err
+		}
 	}
 
-	// Add AllOf from s2 to s
-	if s2.AllOf != nil {
-		s.AllOf = append(s.AllOf, s2.AllOf...)
+	return nil
+}
+
+// mergeAlternatives merges the schemas one of which, at least, applies to the
+// schema: only what all of them require is required.
+func (s *Schema) mergeAlternatives(spec Specification, alternatives []*Schema) error {
+	alternatives = withoutNulls(alternatives)
+	t, same := s.typeWith(alternatives)
+	switch {
+	case len(alternatives) <= 1:
+		return s.mergeParts(spec, alternatives)
+	case !same && s.ownType() == "":
+		return nil
+	case t != SchemaTypeIsObject.String():
+		s.mergeWithAlternativeValues(t, alternatives)
+		return nil
 	}
 
-	// Add AllOf from s2 reference to s
-	if s2.ReferenceTo != nil && s2.ReferenceTo.AllOf != nil {
-		for _, v := range s2.ReferenceTo.AllOf {
-			s.AllOf = append(s.AllOf, &Schema{ReferenceTo: v})
+	// Merge with other fields as one struct (invalidate references)
+	required := append(make([]string, 0), s.Required...)
+	for _, field := range alternatives[0].Required {
+		if isRequiredByAll(alternatives, field) {
+			required = append(required, field)
+		}
+	}
+	for _, v := range alternatives {
+		if err := s.MergeWith(spec, *v); err != nil {
+			return err
 		}
 	}
+	s.Required = utils.RemoveDuplicateFromSlice(required)
+	s.setRequiredProperties()
+
+	return nil
 }
 
-func (s *Schema) mergeWithSchemaAnyOf(s2 Schema) {
-	// Return if there are no AnyOf to merge
-	if s2.AnyOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.AnyOf == nil) {
-		return
+// withoutNulls returns the schemas that have other values than null.
+func withoutNulls(schemas []*Schema) []*Schema {
+	others := make([]*Schema, 0, len(schemas))
+	for _, v := range schemas {
+		if v.Follow().Type != "null" {
+			others = append(others, v)
+		}
 	}
 
-	// Initialize AnyOf if they are nil
-	if s.AnyOf == nil {
-		s.AnyOf = make([]*Schema, 0)
-	}
+	return others
+}
 
-	// Add AnyOf from s2 to s
-	if s2.AnyOf != nil {
-		s.AnyOf = append(s.AnyOf, s2.AnyOf...)
+func isRequiredByAll(schemas []*Schema, field string) bool {
+	for _, v := range schemas {
+		if !v.IsFieldRequired(field) {
+			return false
+		}
 	}
 
-	// Add AnyOf from s2 reference to s
-	if s2.ReferenceTo != nil && s2.ReferenceTo.AnyOf != nil {
-		for _, v := range s2.ReferenceTo.AnyOf {
-			s.AnyOf = append(s.AnyOf, &Schema{ReferenceTo: v})
+	return true
+}
+
+// typeWith returns the type of the schema with its parts or its alternatives,
+// and if they all have the same.
+func (s *Schema) typeWith(schemas []*Schema) (t string, same bool) {
+	t, same = s.ownType(), true
+	for _, v := range schemas {
+		switch other := v.Follow().ownType(); {
+		case other == "":
+		case t == "":
+			t = other
+		case t != other:
+			same = false
 		}
 	}
+
+	if t == "" {
+		t = SchemaTypeIsObject.String()
+	}
+	return t, same
 }
 
-func (s *Schema) mergeWithSchemaOneOf(s2 Schema) {
-	// Return if there are no OneOf to merge
-	if s2.OneOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.OneOf == nil) {
-		return
+func (s *Schema) ownType() string {
+	if s.Type == "" && len(s.Properties) > 0 {
+		return SchemaTypeIsObject.String()
 	}
+	return s.Type
+}
 
-	// Initialize OneOf if they are nil
-	if s.OneOf == nil {
-		s.OneOf = make([]*Schema, 0)
+// mergeWithValue merges the schema with another one that is no object.
+func (s *Schema) mergeWithValue(s2 *Schema) {
+	value := s2.Follow()
+	if s.Type == "" {
+		s.Type = value.Type
+	}
+	if s.Format == "" {
+		s.Format = value.Format
+	}
+	if s.Items == nil && value.Items != nil {
+		s.Items = value.Items
+		if s2 != value {
+			s.Items = value.Items.withoutDefinition()
+		}
+	}
+	if s.ExtGoType == "" {
+		s.ExtGoType, s.ExtGoTypeImport = value.ExtGoType, value.ExtGoTypeImport
 	}
 
-	// Add OneOf from s2 to s
-	if s2.OneOf != nil {
-		s.OneOf = append(s.OneOf, s2.OneOf...)
+	// Merge validations, but the ones of the schema prevail
+	validations := s2.Validations
+	validations.IsRequired = false
+	validations.Merge(s.Validations)
+	s.Validations = validations
+}
+
+// mergeWithAlternativeValues merges the schema with alternatives of a type that
+// is not the one of objects.
+func (s *Schema) mergeWithAlternativeValues(t string, alternatives []*Schema) {
+	s.Type = t
+	if s.Type == SchemaTypeIsArray.String() && s.Items == nil {
+		s.Items = utils.ToPointer(NewSchema())
+		return
 	}
 
-	// Add OneOf from s2 reference to s
-	if s2.ReferenceTo != nil && s2.ReferenceTo.OneOf != nil {
-		for _, v := range s2.ReferenceTo.OneOf {
-			s.OneOf = append(s.OneOf, &Schema{ReferenceTo: v})
+	// Keep the format if this is the same for all
+	for i, v := range alternatives {
+		if i > 0 && v.Follow().Format != alternatives[0].Follow().Format {
+			return
 		}
 	}
+	if s.Format == "" {
+		s.Format = alternatives[0].Follow().Format
+	}
 }
 
 func (s *Schema) mergeWithSchemaProperties(s2 Schema) {
@@ -530,10 +602,6 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		// Add the property
 		s.Properties[k] = v.withoutDefinition()
 
-		// Add to required if it is required
-		if v.IsRequired {
-			s.Required = append(s.Required, k)
-		}
 	}
 }
 
@@ -544,9 +612,11 @@ func (s *Schema) withoutDefinition() *Schema {
 	case s.Type == SchemaTypeIsObject.String():
 		return &Schema{
 			Validations: asyncapi.Validations[Schema]{
-				IsRequired: s.IsRequired,
+				IsRequired:      s.IsRequired,
+				ShouldOmitEmpty: s.ShouldOmitEmpty,
 			},
 			ReferenceTo: s,
+			Extensions:  s.Extensions,
 		}
 	case s.Type == SchemaTypeIsArray.String() && s.Items != nil:
 		array := *s
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 62764d7..8183feb 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -258,14 +258,9 @@ func (s *Schema) setAllOfDependenciesAndMerge(spec Specification) error {
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
-
-		// Merge with other fields as one struct (invalidate references)
-		if err := s.MergeWith(spec, *v); err != nil {
-			return err
-		}
 	}
 
-	return nil
+	return s.mergeParts(spec, s.AllOf)
 }
 
 func (s *Schema) setOneOfDependenciesAndMerge(spec Specification) error {
@@ -273,14 +268,9 @@ func (s *Schema) setOneOfDependenciesAndMerge(spec Specification) error {
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
-
-		// Merge with other fields as one struct (invalidate references)
-		if err := s.MergeWith(spec, *v); err != nil {
-			return err
-		}
 	}
 
-	return nil
+	return s.mergeAlternatives(spec, s.OneOf)
 }
 
 func (s *Schema) setAnyOfDependenciesAndMerge(spec Specification) error {
@@ -288,14 +278,9 @@ func (s *Schema) setAnyOfDependenciesAndMerge(spec Specification) error {
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
-
-		// Merge with other fields as one struct (invalidate references)
-		if err := s.MergeWith(spec, *v); err != nil {
-			return err
-		}
 	}
 
-	return nil
+	return s.mergeAlternatives(spec, s.AnyOf)
 }
 
 func (s *Schema) setReference(spec Specification) error {
@@ -389,88 +374,179 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 	s.Type = SchemaTypeIsObject.String()
 
 	// Merge with other fields
-	s.mergeWithSchemaAllOf(s2)
-	s.mergeWithSchemaAnyOf(s2)
-	s.mergeWithSchemaOneOf(s2)
+	// NOTE: the parts and the alternatives of the other schema are already merged
+	// in it, when its dependencies are set
 	s.mergeWithSchemaProperties(s2)
 
 	// Merge requirements
 	s.Required = append(s.Required, s2.Required...)
 	s.Required = utils.RemoveDuplicateFromSlice(s.Required)
+	s.setRequiredProperties()
 
 	return nil
 }
 
-func (s *Schema) mergeWithSchemaAllOf(s2 Schema) {
-	// Return if there are no AllOf to merge
-	if s2.AllOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.AllOf == nil) {
-		return
+// setRequiredProperties sets which properties are required, once they are known.
+func (s *Schema) setRequiredProperties() {
+	for k, p := range s.Properties {
+		if required := s.IsFieldRequired(k); p.IsRequired != required {
+			// NOTE: the property can also be the one of a merged schema
+			property := *p
+			property.IsRequired = required
+			s.Properties[k] = &property
+		}
 	}
+}
 
-	// Initialize AllOf if they are nil
-	if s.AllOf == nil {
-		s.AllOf = make([]*Schema, 0)
+// mergeParts merges the schemas that apply all together to the schema.
+func (s *Schema) mergeParts(spec Specification, parts []*Schema) error {
+	if t, _ := s.typeWith(parts); t != SchemaTypeIsObject.String() {
+		for _, v := range parts {
+			s.mergeWithValue(v)
+		}
+		return nil
 	}
 
-	// Add AllOf from s2 to s
-	if s2.AllOf != nil {
-		s.AllOf = append(s.AllOf, s2.AllOf...)
+	// Merge with other fields as one struct (invalidate references)
+	for _, v := range parts {
+		if err := s.MergeWith(spec, *v); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+// mergeAlternatives merges the schemas one of which, at least, applies to the
+// schema: only what all of them require is required.
+func (s *Schema) mergeAlternatives(spec Specification, alternatives []*Schema) error {
+	alternatives = withoutNulls(alternatives)
+	t, same := s.typeWith(alternatives)
+	switch {
+	case len(alternatives) <= 1:
+		return s.mergeParts(spec, alternatives)
+	case !same && s.ownType() == "":
+		return nil
+	case t != SchemaTypeIsObject.String():
+		s.mergeWithAlternativeValues(t, alternatives)
+		return nil
 	}
 
-	// Add AllOf from s2 reference to s
-	if s2.ReferenceTo != nil && s2.ReferenceTo.AllOf != nil {
-		for _, v := range s2.ReferenceTo.AllOf {
-			s.AllOf = append(s.AllOf, &Schema{ReferenceTo: v})
+	// Merge with other fields as one struct (invalidate references)
+	required := append(make([]string, 0), s.Required...)
+	for _, field := range alternatives[0].Required {
+		if isRequiredByAll(alternatives, field) {
+			required = append(required, field)
 		}
 	}
+	for _, v := range alternatives {
+		if err := s.MergeWith(spec, *v); err != nil {
+			return err
+		}
+	}
+	s.Required = utils.RemoveDuplicateFromSlice(required)
+	s.setRequiredProperties()
+
+	return nil
 }
 
-func (s *Schema) mergeWithSchemaAnyOf(s2 Schema) {
-	// Return if there are no AnyOf to merge
-	if s2.AnyOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.AnyOf == nil) {
-		return
+// withoutNulls returns the schemas that have other values than null.
+func withoutNulls(schemas []*Schema) []*Schema {
+	others := make([]*Schema, 0, len(schemas))
+	for _, v := range schemas {
+		if v.Follow().Type != "null" {
+			others = append(others, v)
+		}
 	}
 
-	// Initialize AnyOf if they are nil
-	if s.AnyOf == nil {
-		s.AnyOf = make([]*Schema, 0)
-	}
+	return others
+}
 
-	// Add AnyOf from s2 to s
-	if s2.AnyOf != nil {
-		s.AnyOf = append(s.AnyOf, s2.AnyOf...)
+func isRequiredByAll(schemas []*Schema, field string) bool {
+	for _, v := range schemas {
+		if !v.IsFieldRequired(field) {
+			return false
+		}
 	}
 
-	// Add AnyOf from s2 reference to s
-	if s2.ReferenceTo != nil && s2.ReferenceTo.AnyOf != nil {
-		for _, v := range s2.ReferenceTo.AnyOf {
-			s.AnyOf = append(s.AnyOf, &Schema{ReferenceTo: v})
+	return true
+}
+
+// typeWith returns the type of the schema with its parts or its alternatives,
+// and if they all have the same.
+func (s *Schema) typeWith(schemas []*Schema) (t string, same bool) {
+	t, same = s.ownType(), true
+	for _, v := range schemas {
+		switch other := v.Follow().ownType(); {
+		case other == "":
+		case t == "":
+			t = other
+		case t != other:
+			same = false
 		}
 	}
+
+	if t == "" {
+		t = SchemaTypeIsObject.String()
+	}
+	return t, same
 }
 
-func (s *Schema) mergeWithSchemaOneOf(s2 Schema) {
-	// Return if there are no OneOf to merge
-	if s2.OneOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.OneOf == nil) {
-		return
+func (s *Schema) isObject() bool {
+	return s.ownType() == SchemaTypeIsObject.String()
+}
+
+func (s *Schema) ownType() string {
+	if s.Type == "" && len(s.Properties) > 0 {
+		return SchemaTypeIsObject.String()
 	}
+	return s.Type
+}
 
-	// Initialize OneOf if they are nil
-	if s.OneOf == nil {
-		s.OneOf = make([]*Schema, 0)
+// mergeWithValue merges the schema with another one that is no object.
+func (s *Schema) mergeWithValue(s2 *Schema) {
+	value := s2.Follow()
+	if s.Type == "" {
+		s.Type = value.Type
+	}
+	if s.Format == "" {
+		s.Format = value.Format
 	}
+	if s.Items == nil && value.Items != nil {
+		s.Items = value.Items
+		if s2 != value {
+			s.Items = value.Items.withoutDefinition()
+		}
+	}
+	if s.ExtGoType == "" {
+		s.ExtGoType, s.ExtGoTypeImport = value.ExtGoType, value.ExtGoTypeImport
+	}
+
+	// Merge validations, but the ones of the schema prevail
+	validations := s2.Validations
+	validations.IsRequired = false
+	validations.Merge(s.Validations)
+	s.Validations = validations
+}
 
-	// Add OneOf from s2 to s
-	if s2.OneOf != nil {
-		s.OneOf = append(s.OneOf, s2.OneOf...)
+// mergeWithAlternativeValues merges the schema with alternatives of a type that
+// is not the one of objects.
+func (s *Schema) mergeWithAlternativeValues(t string, alternatives []*Schema) {
+	s.Type = t
+	if s.Type == SchemaTypeIsArray.String() && s.Items == nil {
+		s.Items = utils.ToPointer(NewSchema())
+		return
 	}
 
-	// Add OneOf from s2 reference to s
-	if s2.ReferenceTo != nil && s2.ReferenceTo.OneOf != nil {
-		for _, v := range s2.ReferenceTo.OneOf {
-			s.OneOf = append(s.OneOf, &Schema{ReferenceTo: v})
+	// Keep the format if this is the same for all
+	for i, v := range alternatives {
+		if i > 0 && v.Follow().Format != alternatives[0].Follow().Format {
+			return
 		}
 	}
+	if s.Format == "" {
+		s.Format = alternatives[0].Follow().Format
+	}
 }
 
 func (s *Schema) mergeWithSchemaProperties(s2 Schema) {
@@ -515,13 +591,51 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		// Add the property
 		s.Properties[k] = v.withoutDefinition()
 
-		// Add to required if it is required
-		if v.IsRequired {
-			s.Required = append(s.Required, k)
-		}
 	}
 }
 
+// clone returns a copy of the schema and of its children, but with the same
+// references. Its metadata should be generated, then its dependencies set.
+func (s *Schema) clone() *Schema {
+	if s == nil {
+		return nil
+	}
+
+	clone := *s
+	clone.dependenciesSet = false
+	clone.Required = append(make([]string, 0), s.Required...)
+	clone.Properties = cloneMap(s.Properties)
+	clone.PatternProperties = cloneMap(s.PatternProperties)
+	clone.AdditionalProperties = s.AdditionalProperties.clone()
+	clone.AdditionalItems = cloneSlice(s.AdditionalItems)
+	clone.Items = s.Items.clone()
+	clone.Contains = cloneSlice(s.Contains)
+	clone.AllOf = cloneSlice(s.AllOf)
+	clone.AnyOf = cloneSlice(s.AnyOf)
+	clone.OneOf = cloneSlice(s.OneOf)
+	clone.Not = s.Not.clone()
+
+	return &clone
+}
+
+func cloneMap(schemas map[string]*Schema) map[string]*Schema {
+	clones := make(map[string]*Schema, len(schemas))
+	for k, v := range schemas {
+		clones[k] = v.clone()
+	}
+
+	return clones
+}
+
+func cloneSlice(schemas []*Schema) []*Schema {
+	clones := make([]*Schema, 0, len(schemas))
+	for _, v := range schemas {
+		clones = append(clones, v.clone())
+	}
+
+	return clones
+}
+
 // withoutDefinition returns a schema equivalent to the given one, with references
 // to its objects so they won't be defined again.
 func (s *Schema) withoutDefinition() *Schema {
@@ -529,9 +643,11 @@ func (s *Schema) withoutDefinition() *Schema {
 	case s.Type == SchemaTypeIsObject.String():
 		return &Schema{
 			Validations: asyncapi.Validations[Schema]{
-				IsRequired: s.IsRequired,
+				IsRequired:      s.IsRequired,
+				ShouldOmitEmpty: s.ShouldOmitEmpty,
 			},
 			ReferenceTo: s,
+			Extensions:  s.Extensions,
 		}
 	case s.Type == SchemaTypeIsArray.String() && s.Items != nil:
 		array := *s
diff --git a/pkg/codegen/generators/v2/templates/schema_name.tmpl b/pkg/codegen/generators/v2/templates/schema_name.tmpl
index db919a6..f74fac9 100644
--- a/pkg/codegen/generators/v2/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_name.tmpl
@@ -49,24 +49,6 @@ float64
 // WARNING: no generation occured here as it has unknown type '{{.Type}}'
 {{- end -}}
 
-{{- /* ------------------------- AnyOf or OneOf ------------------------- */ -}}
-{{- else if or .AnyOf .OneOf -}}
-{{$xxxOf := $.AnyOf}}{{- if .OneOf }}{{$xxxOf = $.OneOf}}{{end -}}
-
-struct {
-    {{- if .OneOf }}
-    // WARNING: only one of the following field can be used
-    {{ end }}
-
-{{- range  $key, $value := $xxxOf}}
-    // {{ if $value.Reference}}{{ .ReferenceTo.Name }}{{else}}AnyOf{{$key}}{{end}}
-{{- if $value.Description}}
-    // Description: {{multiLineComment $value.Description}}
-{{- end}}
-    {{ if $value.Reference}}{{ .ReferenceTo.Name }}{{else}}AnyOf{{$key}}{{end}} *{{template "schema" $value}}
-{{end -}}
-}
-
 {{- /* ---------------------------- Reference --------------------------- */ -}}
 {{- else if .ReferenceTo -}}
 {{- if .Follow.HasDefinition -}}
@@ -75,11 +57,9 @@ struct {
 {{template "schema-name" .Follow}}
 {{- end -}}
 
-{{- /* ----------------------- Unsupported use case ---------------------- */ -}}
+{{- /* ---------------------------- Any type ---------------------------- */ -}}
 {{- else -}}
 interface{}
-// WARNING: potential error in AsyncAPI generation
-// Infos on type: {{ describeStruct . }}
 {{- end -}}
 
 {{- end -}}
diff --git a/pkg/codegen/generators/v3/templates/schema_name.tmpl b/pkg/codegen/generators/v3/templates/schema_name.tmpl
index e642d39..f74fac9 100644
--- a/pkg/codegen/generators/v3/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_name.tmpl
@@ -49,24 +49,6 @@ float64
 // WARNING: no generation occured here as it has unknown type '{{.Type}}'
 {{- end -}}
 
-{{- /* ------------------------- AnyOf or OneOf ------------------------- */ -}}
-{{- else if or .AnyOf .OneOf -}}
-{{$xxxOf := $.AnyOf}}{{- if .OneOf }}{{$xxxOf = $.OneOf}}{{end -}}
-
-struct {
-    {{- if .OneOf }}
-    // WARNING: only one of the following field can be used
-    {{ end }}
-
-{{- range  $key, $value := $xxxOf}}
-    // {{ if $value.Reference}}{{ .ReferenceTo.Name }}{{else}}AnyOf{{$key}}{{end}}
-{{- if $value.Description}}
-    // Description: {{multiLineComment $value.Description}}
-{{- end}}
-    {{ if $value.Reference}}{{ .ReferenceTo.Name }}{{else}}AnyOf{{$key}}{{end}} *{{template "schema" $value}}
-{{end -}}
-}
-
 {{- /* ---------------------------- Reference --------------------------- */ -}}
 {{- else if .ReferenceTo -}}
 {{- if .Follow.HasDefinition -}}
@@ -75,11 +57,9 @@ struct {
 {{template "schema-name" .Follow}}
 {{- end -}}
 
-{{- /* ----------------------- Unsupported usecase ---------------------- */ -}}
+{{- /* ---------------------------- Any type ---------------------------- */ -}}
 {{- else -}}
 interface{}
-// WARNING: potential error in AsyncAPI generation
-// Infos on type: {{ describeStruct . }}
 {{- end -}}
 
 {{- end -}}
-- 
2.43.0


From ff57f2bae881f1f2bbd3664d5d55fa54a5911779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 32/43] fix: messages with traits, one-of messages and messages
 without payload lost fields or were refused

---
 pkg/asyncapi/v2/message.go                    |  81 +++++++++-
 pkg/asyncapi/v3/message.go                    | 148 +++++++++++++-----
 pkg/asyncapi/v3/message_trait.go              |   3 +-
 pkg/asyncapi/v3/operation_trait.go            |   5 +
 .../generators/v2/templates/message.tmpl      |   8 +
 .../generators/v2/templates/types.tmpl        |   2 +
 .../generators/v3/templates/message.tmpl      |   8 +
 7 files changed, 212 insertions(+), 43 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index b990cf1..9e9add0 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -53,6 +53,9 @@ type Message struct {
 	// According to: https://www.asyncapi.com/docs/reference/specification/v2.6.0#correlationIDObject
 	CorrelationIDLocation string `json:"-"`
 	CorrelationIDRequired bool   `json:"-"`
+
+	// dependenciesSet is true once the dependencies are set, or are being set.
+	dependenciesSet bool
 }
 
 // generateMetadata generates the metadata for the Message and its children.
@@ -81,6 +84,12 @@ func (msg *Message) generateMetadata(name string) error {
 
 // setDependencies sets the dependencies for the Message and its children from the specification.
 func (msg *Message) setDependencies(spec Specification) error {
+	// Do it only once, as a message can be referenced several times
+	if msg.dependenciesSet {
+		return nil
+	}
+	msg.dependenciesSet = true
+
 	// Set Payload dependencies
 	if msg.Payload != nil {
 		if err := msg.Payload.setDependencies(spec); err != nil {
@@ -98,6 +107,11 @@ func (msg *Message) setDependencies(spec Specification) error {
 			return fmt.Errorf("%w: %q is circular", ErrInvalidReference, msg.Reference)
 		}
 		msg.ReferenceTo = refTo
+
+		// Set the dependencies of the referenced message first
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	// Set Headers dependencies
@@ -111,7 +125,17 @@ func (msg *Message) setDependencies(spec Specification) error {
 	}
 
 	// Set CorrelationID dependencies
-	return msg.setCorrelationIDDependencies(spec)
+	if err := msg.setCorrelationIDDependencies(spec); err != nil {
+		return err
+	}
+
+	// Have any payload if there is none specified
+	if msg.Payload == nil && msg.Reference == "" {
+		msg.Payload = utils.ToPointer(NewSchema())
+		return msg.Payload.generateMetadata(msg.Name+"_Payload", false)
+	}
+
+	return nil
 }
 
 func (msg *Message) generateHeadersMetadata() error {
@@ -183,14 +207,61 @@ func (msg *Message) setOneOfDependencies(spec Specification) error {
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
+	}
 
-		// Merge the OneOf as one payload
-		if err := msg.MergeWith(spec, *v); err != nil {
-			return err
+	return msg.mergeOneOf(spec)
+}
+
+// mergeOneOf merges the messages one of which this message is.
+func (msg *Message) mergeOneOf(spec Specification) (err error) {
+	// Merge the OneOf as one payload
+	payload := func(m *Message) *Schema { return m.Payload }
+	if msg.Payload, err = msg.mergeOneOfSchemas(spec, msg.Payload, "Payload", payload); err != nil {
+		return err
+	}
+
+	// Merge the OneOf as one set of headers
+	headers := func(m *Message) *Schema { return m.Headers }
+	msg.Headers, err = msg.mergeOneOfSchemas(spec, msg.Headers, "Headers", headers)
+
+	return err
+}
+
+// mergeOneOfSchemas returns a schema of the message once merged with the same one
+// of the messages one of which this message is.
+func (msg *Message) mergeOneOfSchemas(
+	spec Specification, own *Schema, name string, schemaOf func(m *Message) *Schema,
+) (*Schema, error) {
+	exists := false
+	alternatives := make([]*Schema, 0, len(msg.OneOf))
+	for _, v := range msg.OneOf {
+		s := schemaOf(v.Follow())
+		switch {
+		case s == nil:
+			s = utils.ToPointer(NewSchema())
+		case v.Follow() != v: // It is defined with the referenced message
+			exists = true
+			reference := NewSchema()
+			reference.ReferenceTo = s
+			reference.Required = s.Required
+			s = &reference
+		default:
+			exists = true
 		}
+		alternatives = append(alternatives, s)
+	}
+	if !exists {
+		return own, nil
 	}
 
-	return nil
+	if own == nil {
+		own = utils.ToPointer(NewSchema())
+		if err := own.generateMetadata(msg.Name+"_"+name, false); err != nil {
+			return nil, err
+		}
+	}
+
+	return own, own.mergeAlternatives(spec, alternatives)
 }
 
 func (msg Message) getCorrelationIDLocation(spec Specification) (string, error) {
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 5978f59..7c58596 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -60,6 +60,9 @@ type Message struct {
 	// CorrelationIDLocation will indicate where the correlation id is
 	// According to: https://www.asyncapi.com/docs/reference/specification/v3.0.0#correlationIdObject
 	CorrelationIDRequired bool `json:"-"`
+
+	// dependenciesSet is true once the dependencies are set, or are being set.
+	dependenciesSet bool
 }
 
 // generateMetadata generates metadata for the Message.
@@ -113,10 +116,12 @@ func (msg *Message) generateMetadata(parentName, name string, number *int) error
 
 // setDependencies sets dependencies between the different elements of the Message.
 func (msg *Message) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if msg == nil {
+	// Prevent modification if nil, and do it only once as a message can be
+	// referenced several times
+	if msg == nil || msg.dependenciesSet {
 		return nil
 	}
+	msg.dependenciesSet = true
 
 	// Add pointer to reference if there is one
 	if err := msg.setReference(spec); err != nil {
@@ -164,7 +169,17 @@ func (msg *Message) setDependencies(spec Specification) error {
 	}
 
 	// Set correlation ID dependencies, now that its location is known
-	return msg.setCorrelationIDDependencies(spec)
+	if err := msg.setCorrelationIDDependencies(spec); err != nil {
+		return err
+	}
+
+	// Have any payload if there is none specified
+	if msg.Payload == nil && msg.Reference == "" {
+		msg.Payload = utils.ToPointer(NewSchema())
+		return msg.Payload.generateMetadata(msg.Name, MessagePayloadSuffix, nil, false)
+	}
+
+	return nil
 }
 
 func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
@@ -200,7 +215,8 @@ func (msg *Message) setReference(spec Specification) error {
 	}
 	msg.ReferenceTo = refMsg
 
-	return nil
+	// Set the dependencies of the referenced message first
+	return refMsg.setDependencies(spec)
 }
 
 func (msg *Message) generateTagsMetadata() {
@@ -278,14 +294,61 @@ func (msg *Message) setOneOfDependencies(spec Specification) error {
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
+	}
 
-		// Merge the OneOf as one payload
-		if err := msg.MergeWith(spec, *v); err != nil {
-			return err
+	return msg.mergeOneOf(spec)
+}
+
+// mergeOneOf merges the messages one of which this message is.
+func (msg *Message) mergeOneOf(spec Specification) (err error) {
+	// Merge the OneOf as one payload
+	payload := func(m *Message) *Schema { return m.Payload }
+	if msg.Payload, err = msg.mergeOneOfSchemas(spec, msg.Payload, "Payload", payload); err != nil {
+		return err
+	}
+
+	// Merge the OneOf as one set of headers
+	headers := func(m *Message) *Schema { return m.Headers }
+	msg.Headers, err = msg.mergeOneOfSchemas(spec, msg.Headers, "Headers", headers)
+
+	return err
+}
+
+// mergeOneOfSchemas returns a schema of the message once merged with the same one
+// of the messages one of which this message is.
+func (msg *Message) mergeOneOfSchemas(
+	spec Specification, own *Schema, name string, schemaOf func(m *Message) *Schema,
+) (*Schema, error) {
+	exists := false
+	alternatives := make([]*Schema, 0, len(msg.OneOf))
+	for _, v := range msg.OneOf {
+		s := schemaOf(v.Follow())
+		switch {
+		case s == nil:
+			s = utils.ToPointer(NewSchema())
+		case v.Follow() != v: // It is defined with the referenced message
+			exists = true
+			reference := NewSchema()
+			reference.ReferenceTo = s
+			reference.Required = s.Required
+			s = &reference
+		default:
+			exists = true
 		}
+		alternatives = append(alternatives, s)
+	}
+	if !exists {
+		return own, nil
 	}
 
-	return nil
+	if own == nil {
+		own = utils.ToPointer(NewSchema())
+		if err := own.generateMetadata(msg.Name, name, nil, false); err != nil {
+			return nil, err
+		}
+	}
+
+	return own, own.mergeAlternatives(spec, alternatives)
 }
 
 func (msg *Message) generateTraitsMetadata() error {
@@ -606,44 +669,55 @@ func (msg *Message) ApplyTrait(mt *MessageTrait, spec Specification) error {
 	return nil
 }
 
-func (msg *Message) mergeHeaders(spec Specification, headers *Schema) error {
-	// Check if headers are nil
-	if headers == nil {
-		return nil
+func (msg *Message) mergeHeaders(spec Specification, headers *Schema) (err error) {
+	msg.Headers, err = msg.mergeTraitSchema(spec, msg.Headers, headers, "Headers")
+	return err
+}
+
+func (msg *Message) mergePayload(spec Specification, payload *Schema) (err error) {
+	msg.Payload, err = msg.mergeTraitSchema(spec, msg.Payload, payload, "Payload")
+	return err
+}
+
+// mergeTraitSchema returns a schema of the message once merged with the one of a
+// trait. The one of the trait is left as is, as other messages can have this trait.
+func (msg *Message) mergeTraitSchema(spec Specification, own, trait *Schema, name string) (*Schema, error) {
+	// Check that there is something to merge: what the message says prevails
+	if trait == nil || own != nil && (!own.Follow().isObject() || !trait.Follow().isObject()) {
+		return own, nil
 	}
 
-	// Check if message headers are nil, then create them
-	if msg.Headers == nil {
-		newHeaders := utils.ToValue(headers.Follow())
-		msg.Headers = &newHeaders
-		if err := newHeaders.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
-			return err
+	// Get a version of the trait schema for this message
+	trait = trait.clone()
+	if trait.ReferenceTo == nil {
+		if err := trait.generateMetadata(msg.Name, name, nil, false); err != nil {
+			return nil, err
+		}
+		if err := trait.setDependencies(spec); err != nil {
+			return nil, err
 		}
-		return newHeaders.setDependencies(spec)
 	}
-
-	// Merge headers
-	return msg.Headers.MergeWith(spec, *headers)
-}
-
-func (msg *Message) mergePayload(spec Specification, payload *Schema) error {
-	// Check if payload is nil
-	if payload == nil {
-		return nil
+	if own == nil {
+		return trait, nil
 	}
 
-	// Check if message payload is nil, then create them
-	if msg.Payload == nil {
-		newPayload := utils.ToValue(payload.Follow())
-		msg.Payload = &newPayload
-		if err := newPayload.generateMetadata(msg.Name, "Payload", nil, false); err != nil {
-			return err
+	// Get a version of the message schema without reference
+	if own.ReferenceTo != nil {
+		merged := utils.ToPointer(NewSchema())
+		if err := merged.generateMetadata(msg.Name, name, nil, false); err != nil {
+			return nil, err
+		}
+		if err := merged.MergeWith(spec, *own); err != nil {
+			return nil, err
 		}
-		return newPayload.setDependencies(spec)
+		merged.Description = own.Follow().Description
+		if additional := own.Follow().AdditionalProperties; additional != nil {
+			merged.AdditionalProperties = additional.withoutDefinition()
+		}
+		own = merged
 	}
 
-	// Merge payload
-	return msg.Headers.MergeWith(spec, *payload)
+	return own, own.MergeWith(spec, *trait)
 }
 
 // HaveCorrelationID check that the message have a correlation ID.
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index ad55b23..4a8fcfe 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -136,7 +136,8 @@ func (mt *MessageTrait) setReference(spec Specification) error {
 	}
 	mt.ReferenceTo = refTo
 
-	return nil
+	// Set the referenced one first, as it can be a reference too
+	return refTo.setDependencies(spec)
 }
 
 // Follow returns referenced MessageTrait if specified or the actual MessageTrait.
diff --git a/pkg/asyncapi/v3/operation_trait.go b/pkg/asyncapi/v3/operation_trait.go
index 3685c37..9b2d873 100644
--- a/pkg/asyncapi/v3/operation_trait.go
+++ b/pkg/asyncapi/v3/operation_trait.go
@@ -67,6 +67,11 @@ func (ot *OperationTrait) setDependencies(spec Specification) error {
 			return fmt.Errorf("%w: %q is circular", ErrInvalidReference, ot.Reference)
 		}
 		ot.ReferenceTo = refTo
+
+		// Set the referenced one first, as it can be a reference too
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	// Set securities dependencies
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 5cb0f6e..2b14e2e 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -89,6 +89,14 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             }
             payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
+    {{- else if not (or $payload.Type $payload.ExtGoType)}}
+        // Unmarshal payload, if there is one
+        if len(bMsg.Payload) > 0 {
+            err := json.Unmarshal(bMsg.Payload, &msg.Payload)
+            if err != nil {
+                return msg, err
+            }
+        }
     {{- else}}
         // Unmarshal payload to expected message payload format
         err := json.Unmarshal(bMsg.Payload, &msg.Payload)
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index ec6a00b..179dc66 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -77,7 +77,9 @@ type {{ namifyWithoutParam $key }}Parameters struct {
 {{- end}}
 
 {{range $key, $value := .Components.Messages}}
+{{- if not $value.Reference}}
 {{template "message" $value}}
+{{- end}}
 {{end}}
 
 {{range $key, $value := .Components.Schemas}}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 39bb476..b38d842 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -98,6 +98,14 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             }
             payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
+    {{- else if not (or $payload.Type $payload.ExtGoType)}}
+        // Unmarshal payload, if there is one
+        if len(bMsg.Payload) > 0 {
+            err := json.Unmarshal(bMsg.Payload, &msg.Payload)
+            if err != nil {
+                return msg, err
+            }
+        }
     {{- else}}
         // Unmarshal payload to expected message payload format
         err := json.Unmarshal(bMsg.Payload, &msg.Payload)
-- 
2.43.0


From 026704f13396a0531307a5622a69a3ae2e2557de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:11 +0000
Subject: [PATCH 33/43] fix: the definitions of nested objects were generated
 in a random order

---
 pkg/codegen/generators/v2/templates/helpers.go | 14 ++++++++++++--
 pkg/codegen/generators/v3/templates/helpers.go | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 93b30a0..d18ff5b 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -3,19 +3,29 @@ package templates
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strings"
 	"text/template"
 
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
 	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
-	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	templateutil "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
 // GetChildrenObjectSchemas will return all the children object schemas of a
 // schema, only from first level and without AnyOf, AllOf and OneOf.
 func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
-	allSchemas := utils.MapToList(s.Properties)
+	// Walk through the properties in order to always generate the same code
+	names := make([]string, 0, len(s.Properties))
+	for name := range s.Properties {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	allSchemas := make([]*asyncapi.Schema, 0, len(names))
+	for _, name := range names {
+		allSchemas = append(allSchemas, s.Properties[name])
+	}
 
 	if s.Items != nil {
 		allSchemas = append(allSchemas, s.Items)
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 778a349..22fabd3 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -3,19 +3,29 @@ package templates
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strings"
 	"text/template"
 
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
 	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
-	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	templateutil "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
 // GetChildrenObjectSchemas will return all the children object schemas of a
 // schema, only from first level and without AnyOf, AllOf and OneOf.
 func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
-	allSchemas := utils.MapToList(s.Properties)
+	// Walk through the properties in order to always generate the same code
+	names := make([]string, 0, len(s.Properties))
+	for name := range s.Properties {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	allSchemas := make([]*asyncapi.Schema, 0, len(names))
+	for _, name := range names {
+		allSchemas = append(allSchemas, s.Properties[name])
+	}
 
 	if s.Items != nil {
 		allSchemas = append(allSchemas, s.Items)
-- 
2.43.0


From da1950410f9ab9e97f7aa83d11407f44a6e73208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 34/43] fix: the messages and parameters of referenced channels
 were not generated, and channels referenced twice were generated twice

---
 pkg/asyncapi/v3/specification.go              | 23 +++++++++++++++++++
 .../generators/v3/templates/types.tmpl        | 16 ++++++-------
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 15dfa07..103085e 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -3,6 +3,7 @@ package asyncapiv3
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
@@ -59,6 +60,28 @@ func (s *Specification) Process() error {
 	return s.setDependencies()
 }
 
+// DefinedChannels returns the channels of the specification, where the references
+// are replaced by the channels that they reference, without duplicates.
+func (s Specification) DefinedChannels() []*Channel {
+	names := make([]string, 0, len(s.Channels))
+	for name := range s.Channels {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	channels := make([]*Channel, 0, len(names))
+	defined := make(map[*Channel]bool)
+	for _, name := range names {
+		ch := s.Channels[name].Follow()
+		if !defined[ch] {
+			defined[ch] = true
+			channels = append(channels, ch)
+		}
+	}
+
+	return channels
+}
+
 // AddDependency adds a specification dependency to the Specification.
 func (s *Specification) AddDependency(path string, spec asyncapi.Specification) error {
 	// Cast to Specification v3
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index a4fb57a..3532bd1 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -56,9 +56,9 @@ func (e *Error) Error() string {
     return fmt.Sprintf("channel %q: err %v", e.Channel, e.Err)
 }
 
-{{range $key, $value := .Channels -}}
+{{range .DefinedChannels -}}
 
-{{- if $value.Parameters -}}
+{{- if .Parameters -}}
 // {{ namifyWithoutParam .Name }}Parameters represents {{ namify .Name }} channel parameters
 type {{ namifyWithoutParam .Name }}Parameters struct {
 {{- range $key, $value := .Parameters}}
@@ -68,7 +68,7 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 }
 {{end}}
 
-{{- range $key, $value := $value.Messages}}
+{{- range $key, $value := .Messages}}
 {{template "message" $value}}
 {{end -}}
 
@@ -86,16 +86,16 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 
 {{- if .Channels}}
 const(
-{{- range $key, $value := .Channels}}
-    // {{ namifyWithoutParam .Follow.Name }}Path is the constant representing the '{{ .Follow.Name }}' channel path.
-    {{ namifyWithoutParam .Follow.Name }}Path = {{ printf "%q" .Follow.Address }}
+{{- range .DefinedChannels}}
+    // {{ namifyWithoutParam .Name }}Path is the constant representing the '{{ .Name }}' channel path.
+    {{ namifyWithoutParam .Name }}Path = {{ printf "%q" .Address }}
 {{- end}}
 )
 
 // ChannelsPaths is an array of all channels paths
 var ChannelsPaths = []string{
-{{- range $key, $value := .Channels}}
-    {{ namifyWithoutParam .Follow.Name }}Path,
+{{- range .DefinedChannels}}
+    {{ namifyWithoutParam .Name }}Path,
 {{- end}}
 }
 {{- end}}
\ No newline at end of file
-- 
2.43.0


From 209dd0892a2470b9e207ec7c4b66c724c25fc76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 35/43] fix: the imports of custom types were lost in messages
 of channels and in additional properties

---
 pkg/asyncapi/v2/extensions.go | 87 +++++++++++++++++++++++++++++++----
 pkg/asyncapi/v3/extensions.go | 58 ++++++++++++++++++++---
 2 files changed, 128 insertions(+), 17 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index 29861a5..880f485 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -34,6 +34,20 @@ type GoTypeImportPath string
 // GoTypeImportName is the import name type for x-go-type-import.
 type GoTypeImportName string
 
+// generatedImports are the packages that generated code always imports.
+var generatedImports = map[GoTypeImportPath]GoTypeImportName{
+	"context":         "context",
+	"encoding/binary": "binary",
+	"encoding/json":   "json",
+	"errors":          "errors",
+	"fmt":             "fmt",
+	"math":            "math",
+	"time":            "time",
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions": "extensions",
+	"github.com/google/uuid":                            "uuid",
+	"cloud.google.com/go/civil":                         "civil",
+}
+
 // goTypeImports collects custom imports in this Schema Object set by x-go-type-import key
 // into the imports map.
 // Reports error when the same import path is assigned multiple import names.
@@ -52,6 +66,13 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 		}
 	}
 
+	// Process AdditionalProperties
+	if s.AdditionalProperties != nil {
+		if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+			return err
+		}
+	}
+
 	if s.ExtGoTypeImport != nil {
 		name, exists := imports[s.ExtGoTypeImport.Path]
 		if exists && name != s.ExtGoTypeImport.Name {
@@ -68,6 +89,48 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 	return nil
 }
 
+// goTypeImports collects custom imports in the payload and headers of this message.
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	if msg == nil {
+		return nil
+	}
+
+	if msg.Payload != nil {
+		if err := msg.Payload.goTypeImports(imports); err != nil {
+			return fmt.Errorf("payload custom import error: %w", err)
+		}
+	}
+
+	if msg.Headers != nil {
+		if err := msg.Headers.goTypeImports(imports); err != nil {
+			return fmt.Errorf("headers custom import error: %w", err)
+		}
+	}
+
+	return nil
+}
+
+// goTypeImports collects custom imports in the parameters and messages of this channel.
+func (c *Channel) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	for _, v := range c.Parameters {
+		if v.Schema != nil {
+			if err := v.Schema.goTypeImports(imports); err != nil {
+				return fmt.Errorf("parameters custom import error: %w", err)
+			}
+		}
+	}
+
+	for _, op := range []*Operation{c.Subscribe, c.Publish} {
+		if op != nil {
+			if err := op.Message.goTypeImports(imports); err != nil {
+				return err
+			}
+		}
+	}
+
+	return nil
+}
+
 // CustomImports collects all custom import paths set by x-go-type-imports
 // in all Schema Objects in the Specification.
 // Returns import strings like `alias "abc.xyz/repo/package"` for code generation.
@@ -82,16 +145,8 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 	}
 
 	for _, v := range s.Components.Messages {
-		if v.Payload != nil {
-			if err := v.Payload.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages payload custom import error: %w", err)
-			}
-		}
-
-		if v.Headers != nil {
-			if err := v.Headers.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages headers custom import error: %w", err)
-			}
+		if err := v.goTypeImports(importsSet); err != nil {
+			return nil, fmt.Errorf("/components/messages %w", err)
 		}
 	}
 
@@ -103,6 +158,12 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 		}
 	}
 
+	for _, v := range s.Channels {
+		if err := v.goTypeImports(importsSet); err != nil {
+			return nil, fmt.Errorf("/channels %w", err)
+		}
+	}
+
 	return importsMapToList(importsSet), nil
 }
 
@@ -112,6 +173,12 @@ func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string
 		if path == "" {
 			continue
 		}
+
+		// Avoid to redeclare a package that is already imported
+		if used, exists := generatedImports[path]; exists && (name == "" || name == used) {
+			continue
+		}
+
 		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
 	}
 	return imports
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index dbe16bf..a12877e 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -34,6 +34,20 @@ type GoTypeImportPath string
 // GoTypeImportName is the import name type for x-go-type-import.
 type GoTypeImportName string
 
+// generatedImports are the packages that generated code always imports.
+var generatedImports = map[GoTypeImportPath]GoTypeImportName{
+	"context":         "context",
+	"encoding/binary": "binary",
+	"encoding/json":   "json",
+	"errors":          "errors",
+	"fmt":             "fmt",
+	"math":            "math",
+	"time":            "time",
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions": "extensions",
+	"github.com/google/uuid":                            "uuid",
+	"cloud.google.com/go/civil":                         "civil",
+}
+
 // goTypeImports collects custom imports in this Schema Object set by x-go-type-import key
 // into the imports map.
 // Reports error when the same import path is assigned multiple import names.
@@ -52,6 +66,13 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 		}
 	}
 
+	// Process AdditionalProperties
+	if s.AdditionalProperties != nil {
+		if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+			return err
+		}
+	}
+
 	if s.ExtGoTypeImport != nil {
 		name, exists := imports[s.ExtGoTypeImport.Path]
 		if exists && name != s.ExtGoTypeImport.Name {
@@ -68,6 +89,23 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 	return nil
 }
 
+// goTypeImports collects custom imports in the payload and headers of this message.
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	if msg.Payload != nil {
+		if err := msg.Payload.goTypeImports(imports); err != nil {
+			return fmt.Errorf("payload custom import error: %w", err)
+		}
+	}
+
+	if msg.Headers != nil {
+		if err := msg.Headers.goTypeImports(imports); err != nil {
+			return fmt.Errorf("headers custom import error: %w", err)
+		}
+	}
+
+	return nil
+}
+
 // CustomImports collects all custom import paths set by x-go-type-imports
 // in all Schema Objects in the Specification.
 // Returns import strings like `alias "abc.xyz/repo/package"` for code generation.
@@ -82,15 +120,15 @@ func (s Specification) CustomImports() ([]string, error) {
 	}
 
 	for _, v := range s.Components.Messages {
-		if v.Payload != nil {
-			if err := v.Payload.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages payload custom import error: %w", err)
-			}
+		if err := v.goTypeImports(importsSet); err != nil {
+			return nil, fmt.Errorf("/components/messages %w", err)
 		}
+	}
 
-		if v.Headers != nil {
-			if err := v.Headers.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages headers custom import error: %w", err)
+	for _, ch := range s.DefinedChannels() {
+		for _, v := range ch.Messages {
+			if err := v.goTypeImports(importsSet); err != nil {
+				return nil, fmt.Errorf("/channels %w", err)
 			}
 		}
 	}
@@ -106,6 +144,12 @@ func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string
 		if path == "" {
 			continue
 		}
+
+		// Avoid to redeclare a package that is already imported
+		if used, exists := generatedImports[path]; exists && (name == "" || name == used) {
+			continue
+		}
+
 		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
 	}
 	return imports
-- 
2.43.0


From 5d5fed08029fa4d205efb84e2cababbe653adc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:43 +0000
Subject: [PATCH 36/43] fix: a null specification was read as none without
 error, and the error for unknown formats did not name the file

---
 pkg/asyncapi/parser/parse.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/asyncapi/parser/parse.go b/pkg/asyncapi/parser/parse.go
index 2bda5e9..94a20e1 100644
--- a/pkg/asyncapi/parser/parse.go
+++ b/pkg/asyncapi/parser/parse.go
@@ -58,7 +58,7 @@ func FromFile(params FromFileParams) (asyncapi.Specification, error) {
 			MajorVersion: params.MajorVersion,
 		})
 	default:
-		return nil, fmt.Errorf("%w: %q", ErrInvalidFileFormat, params.MajorVersion)
+		return nil, fmt.Errorf("%w: %q", ErrInvalidFileFormat, params.Path)
 	}
 }
 
@@ -136,6 +136,11 @@ func FromJSON(params FromJSONParams) (asyncapi.Specification, error) {
 		return nil, err
 	}
 
+	// Refuse a null specification
+	if spec == nil {
+		return nil, fmt.Errorf("%w: the specification is empty", ErrInvalidFileFormat)
+	}
+
 	return spec, nil
 }
 
-- 
2.43.0


From a33883521ea3c98d91d0540f2ef1546b48bd5915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:29 +0000
Subject: [PATCH 37/43] fix: the code of requests with a correlation ID did not
 compile when their reply has none

---
 pkg/codegen/generators/v3/templates/controller.tmpl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index a5ed6c4..15ec7e0 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -260,7 +260,7 @@ func (c *{{ $.Prefix }}Controller) listenTo{{ namify $value.Follow.Name }}NextMe
 func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx context.Context, recvMsg {{opToMsgTypeName $value}}, fn func(replyMsg *{{opToMsgTypeName $value.ReplyIs}})) error {
     // Create reply message
     replyMsg := New{{opToMsgTypeName $value.ReplyIs }}()
-    {{if $value.GetMessage.HaveCorrelationID -}}
+    {{if and $value.GetMessage.HaveCorrelationID $value.ReplyIs.GetMessage.HaveCorrelationID -}}
 	replyMsg.SetAsResponseFrom(&recvMsg)
     {{- end}}
 
@@ -497,7 +497,8 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
             return nil, extensions.ErrSubscriptionCanceled
         }
 
-        {{if $value.GetMessage.HaveCorrelationID -}}
+        {{- $isCorrelated := and $value.GetMessage.HaveCorrelationID .Reply.Follow.Channel.GetMessage.HaveCorrelationID}}
+        {{if $isCorrelated -}}
         // Get new message
         rmsg, err := brokerMessageTo{{channelToMessageTypeName .Reply.Follow.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
@@ -531,7 +532,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         //
         // NOTE: it is transformed from the broker again, as it could have
         // been modified by middlewares
-        rmsg, err {{ if not $value.GetMessage.HaveCorrelationID}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Follow.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err {{ if not $isCorrelated}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Follow.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
-- 
2.43.0


From ee01bb768b1c3d63776543852b713c2f8a464b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:49 +0000
Subject: [PATCH 38/43] fix: close the connection of a NATS controller whose
 creation fails

---
 pkg/extensions/brokers/nats/nats.go                   | 6 +++++-
 pkg/extensions/brokers/natsjetstream/natsjetstream.go | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/nats/nats.go b/pkg/extensions/brokers/nats/nats.go
index 1380540..3cf9b08 100644
--- a/pkg/extensions/brokers/nats/nats.go
+++ b/pkg/extensions/brokers/nats/nats.go
@@ -36,6 +36,7 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 	// Execute options
 	for _, option := range options {
 		if err := option(controller); err != nil {
+			controller.Close()
 			return nil, fmt.Errorf("could not apply option to controller: %w", err)
 		}
 	}
@@ -76,6 +77,7 @@ func WithConnectionOpts(opts ...nats.Option) ControllerOption {
 		if err != nil {
 			return fmt.Errorf("could not connect to nats: %w", err)
 		}
+		controller.Close() // Close the connection of a previous option, if any
 		controller.connection = nc
 		return nil
 	}
@@ -147,7 +149,9 @@ func (c *Controller) messagesHandler(_ context.Context, sub extensions.BrokerCha
 
 // Close closes everything related to the broker.
 func (c *Controller) Close() {
-	c.connection.Close()
+	if c.connection != nil {
+		c.connection.Close()
+	}
 }
 
 var _ extensions.BrokerAcknowledgment = (*NoopAcknowledgementHandler)(nil)
diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index e57ca66..4211e81 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -56,6 +56,7 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 	// Execute options
 	for _, option := range options {
 		if err := option(controller); err != nil {
+			controller.Close()
 			return nil, fmt.Errorf("could not apply option to controller: %w", err)
 		}
 	}
@@ -73,6 +74,7 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 	// Create a JetStream management interface
 	js, err := jetstream.New(controller.natsConn)
 	if err != nil {
+		controller.Close()
 		return nil, fmt.Errorf("could not connect to jetstream: %w", err)
 	}
 
@@ -81,6 +83,7 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 	// if a StreamConfig was configured by the user via WithSteamConfig register the stream
 	if controller.streamConfig != nil {
 		if err := controller.registerStream(); err != nil {
+			controller.Close()
 			return nil, err
 		}
 	}
@@ -88,6 +91,7 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 	// if a ConsumerConfig was configured by the user via WithConsumerConfig register the consumer
 	if controller.consumerConfig != nil {
 		if err := controller.registerConsumer(); err != nil {
+			controller.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0


From b1e86a3d01f82238be2dd0b73cac9fcf073acef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:49 +0000
Subject: [PATCH 39/43] fix: close the connection of a failed Kafka connection
 test

---
 pkg/extensions/brokers/kafka/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 03bb732..41f0912 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -75,11 +75,12 @@ func NewController(hosts []string, options ...ControllerOption) (*Controller, er
 			return nil, fmt.Errorf("failed to create dialer for kafka: %w", err)
 		}
 
+		defer conn.Close()
+
 		_, err = conn.Brokers()
 		if err != nil {
 			return nil, fmt.Errorf("failed to connect to kafka: %w", err)
 		}
-		conn.Close()
 	}
 
 	return controller, nil
-- 
2.43.0


From eae7ce18b4b3c03d74d84319872c530cfe6b5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:49 +0000
Subject: [PATCH 40/43] fix: stop waiting for a Kafka topic when the context is
 over

---
 pkg/extensions/brokers/kafka/kafka.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 41f0912..7b47244 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -246,6 +246,11 @@ func (c *Controller) checkTopicExistOrCreateIt(ctx context.Context, topic string
 	defer conn.Close()
 
 	for i := 0; ; i++ {
+		// Give up when the caller does
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+
 		// Create topic
 		topicConfigs := []kafka.TopicConfig{{
 			Topic:             topic,
-- 
2.43.0


From 41360592aac08ae3a4b2f46427c52ba44bc5b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:31 +0000
Subject: [PATCH 41/43] fix: do not keep the refused messages in the context of
 the version wrapper

---
 pkg/extensions/versioning/broker_subscription.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 12665ac..3d356c1 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -92,7 +92,7 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 				if bs.parent.defaultVersion != nil {
 					version = *bs.parent.defaultVersion
 				} else {
-					ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
+					ctx := context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
 					bs.parent.logger.Error(ctx, "no version in the message and no default version")
 					continue
 				}
@@ -108,7 +108,7 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 				bs.versionsMutex.Unlock()
 
 				// Set context
-				ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
+				ctx := context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
 				ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, version)
 
 				// Log the error
-- 
2.43.0


From 3729a2cc6949ad491bb3f9784fb91c8aba5b417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:03 +0000
Subject: [PATCH 42/43] fix: generate the schemas and messages that are defined
 in dependencies

Schemas and messages of dependencies were referenced by the generated code, but
not defined when the specification had none with the same name.
---
 pkg/asyncapi/v2/extensions.go                 |  4 +-
 pkg/asyncapi/v2/specification.go              | 56 +++++++++++++++++++
 pkg/asyncapi/v3/extensions.go                 |  4 +-
 pkg/asyncapi/v3/specification.go              | 55 ++++++++++++++++++
 .../generators/v2/templates/types.tmpl        | 10 ++--
 .../generators/v3/templates/types.tmpl        |  8 +--
 6 files changed, 124 insertions(+), 13 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index 880f485..f0a5ba6 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -138,13 +138,13 @@ func (c *Channel) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) e
 func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 	importsSet := make(map[GoTypeImportPath]GoTypeImportName)
 
-	for _, v := range s.Components.Schemas {
+	for _, v := range s.DefinedSchemas() {
 		if err := v.goTypeImports(importsSet); err != nil {
 			return nil, fmt.Errorf("/components/schemas custom import error: %w", err)
 		}
 	}
 
-	for _, v := range s.Components.Messages {
+	for _, v := range s.DefinedMessages() {
 		if err := v.goTypeImports(importsSet); err != nil {
 			return nil, fmt.Errorf("/components/messages %w", err)
 		}
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 6232ea0..7b0b173 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -3,10 +3,12 @@ package asyncapiv2
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
 const (
@@ -45,6 +47,60 @@ func NewSpecification() *Specification {
 	}
 }
 
+// DefinedSchemas returns the schemas of the components, then the ones of the
+// dependencies that are not already defined.
+func (s Specification) DefinedSchemas() []*Schema {
+	return defined(s,
+		func(s Specification) map[string]*Schema { return s.Components.Schemas },
+		func(sc *Schema) string { return sc.Name })
+}
+
+// DefinedMessages returns the messages of the components, then the ones of the
+// dependencies that are not already defined.
+func (s Specification) DefinedMessages() []*Message {
+	return defined(s,
+		func(s Specification) map[string]*Message { return s.Components.Messages },
+		func(msg *Message) string { return msg.Name })
+}
+
+// defined returns the definitions of the specification, then the ones of its
+// dependencies, in the order of their keys and without duplicated Go names.
+func defined[T any](
+	s Specification, get func(s Specification) map[string]*T, name func(*T) string,
+) []*T {
+	definitions := make([]*T, 0)
+	used := make(map[string]bool)
+
+	// Add all the definitions of the specification
+	for _, key := range sortedKeys(get(s)) {
+		definition := get(s)[key]
+		used[template.Namify(name(definition))] = true
+		definitions = append(definitions, definition)
+	}
+
+	// Add the definitions of the dependencies that are missing
+	for _, path := range sortedKeys(s.dependencies) {
+		for _, definition := range defined(*s.dependencies[path], get, name) {
+			if goName := template.Namify(name(definition)); !used[goName] {
+				used[goName] = true
+				definitions = append(definitions, definition)
+			}
+		}
+	}
+
+	return definitions
+}
+
+func sortedKeys[T any](m map[string]T) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+
+	return keys
+}
+
 // AddDependency adds a specification dependency to the Specification.
 func (s *Specification) AddDependency(path string, spec asyncapi.Specification) error {
 	// Cast to Specification v2
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index a12877e..35ffe1a 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -113,13 +113,13 @@ func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName)
 func (s Specification) CustomImports() ([]string, error) {
 	importsSet := make(map[GoTypeImportPath]GoTypeImportName)
 
-	for _, v := range s.Components.Schemas {
+	for _, v := range s.DefinedSchemas() {
 		if err := v.goTypeImports(importsSet); err != nil {
 			return nil, fmt.Errorf("/components/schemas custom import error: %w", err)
 		}
 	}
 
-	for _, v := range s.Components.Messages {
+	for _, v := range s.DefinedMessages() {
 		if err := v.goTypeImports(importsSet); err != nil {
 			return nil, fmt.Errorf("/components/messages %w", err)
 		}
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 103085e..7dc37c8 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
 const (
@@ -82,6 +83,60 @@ func (s Specification) DefinedChannels() []*Channel {
 	return channels
 }
 
+// DefinedSchemas returns the schemas of the components, then the ones of the
+// dependencies that are not already defined.
+func (s Specification) DefinedSchemas() []*Schema {
+	return defined(s,
+		func(s Specification) map[string]*Schema { return s.Components.Schemas },
+		func(sc *Schema) string { return sc.Name })
+}
+
+// DefinedMessages returns the messages of the components, then the ones of the
+// dependencies that are not already defined.
+func (s Specification) DefinedMessages() []*Message {
+	return defined(s,
+		func(s Specification) map[string]*Message { return s.Components.Messages },
+		func(msg *Message) string { return msg.Name })
+}
+
+// defined returns the definitions of the specification, then the ones of its
+// dependencies, in the order of their keys and without duplicated Go names.
+func defined[T any](
+	s Specification, get func(s Specification) map[string]*T, name func(*T) string,
+) []*T {
+	definitions := make([]*T, 0)
+	used := make(map[string]bool)
+
+	// Add all the definitions of the specification
+	for _, key := range sortedKeys(get(s)) {
+		definition := get(s)[key]
+		used[template.Namify(name(definition))] = true
+		definitions = append(definitions, definition)
+	}
+
+	// Add the definitions of the dependencies that are missing
+	for _, path := range sortedKeys(s.dependencies) {
+		for _, definition := range defined(*s.dependencies[path], get, name) {
+			if goName := template.Namify(name(definition)); !used[goName] {
+				used[goName] = true
+				definitions = append(definitions, definition)
+			}
+		}
+	}
+
+	return definitions
+}
+
+func sortedKeys[T any](m map[string]T) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+
+	return keys
+}
+
 // AddDependency adds a specification dependency to the Specification.
 func (s *Specification) AddDependency(path string, spec asyncapi.Specification) error {
 	// Cast to Specification v3
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index 179dc66..175189d 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -76,14 +76,14 @@ type {{ namifyWithoutParam $key }}Parameters struct {
 {{end -}}
 {{- end}}
 
-{{range $key, $value := .Components.Messages}}
-{{- if not $value.Reference}}
-{{template "message" $value}}
+{{range .DefinedMessages}}
+{{- if not .Reference}}
+{{template "message" .}}
 {{- end}}
 {{end}}
 
-{{range $key, $value := .Components.Schemas}}
-{{template "schema-definition" $value}}
+{{range .DefinedSchemas}}
+{{template "schema-definition" .}}
 {{- end}}
 
 {{- if .Channels}}
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index 3532bd1..732a4a0 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -76,12 +76,12 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 
 {{/* NOTE: No need to generate messages from operation as they are only references */}}
 
-{{- range $key, $value := .Components.Messages}}
-{{template "message" $value}}
+{{- range .DefinedMessages}}
+{{template "message" .}}
 {{end -}}
 
-{{range $key, $value := .Components.Schemas}}
-{{template "schema-definition" $value}}
+{{range .DefinedSchemas}}
+{{template "schema-definition" .}}
 {{- end}}
 
 {{- if .Channels}}
-- 
2.43.0


From 56c3c679e004cc065b5a3f82f1b55981a5f0ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:25 +0000
Subject: [PATCH 43/43] fix: write and read the additional properties of any
 object

The additional properties of AsyncAPI v2 objects were written as Go strings whatever
their type, and after a comma even when they were the only ones; keys were quoted
as Go strings; and objects whose other properties have another type were refused.
---
 .../marshaling/additional_properties.tmpl     | 32 +++++++++-----
 .../marshaling/additional_properties.tmpl     | 44 +++++++++----------
 2 files changed, 44 insertions(+), 32 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index 7df9916..5de44be 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -10,24 +10,32 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
         return nil, err
     }
 
-    // Remove the end of the json (i.e. '}')
-    b = b[:len(b)-1]
+    // There is nothing to add if there are no additional properties
+    if len(t.AdditionalProperties) == 0 {
+        return b, nil
+    }
 
-    // Add additional properties
-    for k, v := range t.AdditionalProperties {
-        b = append(b,[]byte(fmt.Sprintf(",%q:%q", k, v))...)
+    // Marshal additional properties
+    additional, err := json.Marshal(t.AdditionalProperties)
+    if err != nil {
+        return nil, err
+    }
+
+    // Put them in the JSON, after the other properties if there are any
+    b = b[:len(b)-1]
+    if len(b) > 1 {
+        b = append(b, ',')
     }
 
-    // Close JSON and return
-    return append(b, []byte("}")...) , nil
+    return append(b, additional[1:]...), nil
 }
 
 // UnmarshalJSON unmarshals schema from JSON with support for additional properties.
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     type alias {{ .Name }}
 
-    // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    // Unmarshal to map to get all fields, whatever their types
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
@@ -49,7 +57,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
                     continue
             {{ end -}}
         default:
-            t.AdditionalProperties[k] = v
+            var value {{template "schema-name" .AdditionalProperties}}
+            if err := json.Unmarshal(v, &value); err != nil {
+                return err
+            }
+            t.AdditionalProperties[k] = value
         }
     }
 
diff --git a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
index 79c50b7..5de44be 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
@@ -10,36 +10,32 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
         return nil, err
     }
 
-    // Remove the end of the json (i.e. '}')
-    b = b[:len(b)-1]
+    // There is nothing to add if there are no additional properties
+    if len(t.AdditionalProperties) == 0 {
+        return b, nil
+    }
 
-	// When there are no properties, we cant start with a separator
-	needSeparator := len(b) > 1
+    // Marshal additional properties
+    additional, err := json.Marshal(t.AdditionalProperties)
+    if err != nil {
+        return nil, err
+    }
 
-	// Add additional properties
-	for k, v := range t.AdditionalProperties {
-    	if needSeparator {
-    	    b = append(b, ',')
-    	}
-    	needSeparator = true
-	
-    	vBytes, err := json.Marshal(v)
-    	if err != nil {
-    	    return nil, err
-    	}
-    	b = append(b, fmt.Sprintf("%q:%s", k, vBytes)...)
-	}
+    // Put them in the JSON, after the other properties if there are any
+    b = b[:len(b)-1]
+    if len(b) > 1 {
+        b = append(b, ',')
+    }
 
-    // Close JSON and return
-    return append(b, []byte("}")...) , nil
+    return append(b, additional[1:]...), nil
 }
 
 // UnmarshalJSON unmarshals schema from JSON with support for additional properties.
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     type alias {{ .Name }}
 
-    // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    // Unmarshal to map to get all fields, whatever their types
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
@@ -61,7 +57,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
                     continue
             {{ end -}}
         default:
-            t.AdditionalProperties[k] = v
+            var value {{template "schema-name" .AdditionalProperties}}
+            if err := json.Unmarshal(v, &value); err != nil {
+                return err
+            }
+            t.AdditionalProperties[k] = value
         }
     }
 
-- 
2.43.0

