From d155d531d277903683b9f45654eac0c55fe96451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 01/19] fix: set the current state before a machine is seen to
 be started

An event fired between the two was failed with a NullPointerException.
---
 .../statemachine/GenericStateMachine.java     | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 51b54bb..037544e 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -41,7 +41,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   private State<T, S> initState;
   private State<T, S> markedState;
   private StateEvent<S> markedEvent;
-  private State<T, S> currentState;
+  private volatile State<T, S> currentState;
 
   private GenericStateMachine(T context, Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states,
       StateMachineListener<T, S> stateMachineListener,
@@ -229,8 +229,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         }
       }
     }
-    if (isStarted.compareAndSet(false, true)) {
-      currentState = initState;
+    if (markStarted(initState)) {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
@@ -258,14 +257,26 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
-    if (isStarted.compareAndSet(false, true)) {
-      this.currentState = state;
+    if (markStarted(state)) {
       isEnded.set(false);
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
   }
 
+  /**
+   * The current state is set before the state machine can be seen to be started, so that an event
+   * that is fired once it is started always finds it.
+   */
+  private synchronized boolean markStarted(State<T, S> state) {
+    if (isStarted.get()) {
+      return false;
+    }
+    currentState = state;
+    isStarted.set(true);
+    return true;
+  }
+
   @Override
   public boolean isStarted() {
     return isStarted.get();
-- 
2.43.0


From c8e277720004a34c64a5034df08dca8698160070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 02/19] fix: do not undo an end that is reached while start()
 is running

---
 .../java/com/webotech/statemachine/GenericStateMachine.java | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 037544e..a2be534 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -233,7 +233,6 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
-      isEnded.set(false);
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
@@ -257,9 +256,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
-    if (markStarted(state)) {
-      isEnded.set(false);
-    } else {
+    if (!markStarted(state)) {
       throw new IllegalStateException("The state machine has already been started");
     }
   }
@@ -272,6 +269,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (isStarted.get()) {
       return false;
     }
+    isEnded.set(false);
     currentState = state;
     isStarted.set(true);
     return true;
-- 
2.43.0


From 2e0f16271bb720490ecabc46ab3da2f958fa3a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 03/19] fix: a transition racing stop() must not take the
 machine out of the end state

---
 .../java/com/webotech/statemachine/GenericStateMachine.java  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index a2be534..e612e20 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -324,9 +324,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     this.stateMachineListener = stateMachineListener;
   }
 
-  public void updateCurrentState(State<T, S> state) {
-    if (isEnded.compareAndSet(false, state.equals(endState))) {
+  public synchronized void updateCurrentState(State<T, S> state) {
+    if (!isEnded()) {
       currentState = state;
+      isEnded.set(state.equals(endState));
     }
   }
 
-- 
2.43.0


From ea7c40ed5697818e75040d7c374e1a9851b7d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 04/19] fix: end on start when the initial state is configured
 to end immediately

---
 .../java/com/webotech/statemachine/GenericStateMachine.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index e612e20..919ceac 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -233,6 +233,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
+      if (endState.equals(states.get(initState).get(immediateEvent))) {
+        stop();
+      }
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0


From 0676bad5cfec9e55e1670444807da3acd38fb77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 05/19] fix: removing the listener while it is being notified
 must not fail the event

---
 .../com/webotech/statemachine/GenericStateMachine.java     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 919ceac..43892fd 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -186,7 +186,8 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
 
   public void notifyStateMachineListener(boolean isComplete, State<T, S> fromState,
       StateEvent<S> stateEvent, State<T, S> toState) {
-    if (this.stateMachineListener != null) {
+    StateMachineListener<T, S> listener = this.stateMachineListener;
+    if (listener != null) {
       if (fromState == null) {
         fromState = this.noState;
       }
@@ -197,9 +198,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         stateEvent = this.immediateEvent;
       }
       if (isComplete) {
-        this.stateMachineListener.onStateChangeEnd(fromState, stateEvent, toState);
+        listener.onStateChangeEnd(fromState, stateEvent, toState);
       } else {
-        this.stateMachineListener.onStateChangeBegin(fromState, stateEvent, toState);
+        listener.onStateChangeBegin(fromState, stateEvent, toState);
       }
     }
   }
-- 
2.43.0


From cfa0cce81fa4c2e326a015a900875ccfed41b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 06/19] fix: machines built by one builder must not share the
 default strategy

---
 .../com/webotech/statemachine/GenericStateMachine.java    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 43892fd..f703414 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -378,11 +378,11 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     }
 
     public GenericStateMachine<T, S> build() {
-      if (eventProcessingStrategy == null) {
-        eventProcessingStrategy = EventProcessingStrategyFactory.createDefaultStrategy();
+      EventProcessingStrategy<T, S> strategy = eventProcessingStrategy;
+      if (strategy == null) {
+        strategy = EventProcessingStrategyFactory.createDefaultStrategy();
       }
-      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener,
-          eventProcessingStrategy);
+      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener, strategy);
     }
   }
 }
-- 
2.43.0


From cc9dfdc20216baa23a1394aa1d3accd4b5752879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 07/19] fix: strategies must not share the default event queue

Their machines handled, dropped and bounded the events of each other.
---
 .../strategy/EventProcessingStrategyFactory.java            | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
index 458d3b7..5f6b330 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
@@ -137,10 +137,8 @@ public class EventProcessingStrategyFactory {
     }
 
     Queue<EventMachinePair<T, S>> getEventQueue() {
-      if (eventQueue == null) {
-        eventQueue = new ConcurrentLinkedQueue<>();
-      }
-      return eventQueue;
+      // Each strategy has its own queue unless one has been configured explicitly
+      return eventQueue == null ? new ConcurrentLinkedQueue<>() : eventQueue;
     }
   }
 }
-- 
2.43.0


From 583a92dcd5faa88f84948674b91dc2b11495babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 08/19] fix: receives() must not remove an existing mapping

---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index f703414..39e1ff4 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -91,7 +91,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     assertInitStateDefined(true);
     assertMarkedStateDefined(true);
     this.markedEvent = stateEvent;
-    this.states.get(this.markedState).put(this.markedEvent, null);
+    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);
     return this;
   }
 
-- 
2.43.0


From aa97c876db686998553fc6c2c9b3a9e4b81cf794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 09/19] fix: reject a transition for which no event has been
 configured

---
 .../java/com/webotech/statemachine/GenericStateMachine.java   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 39e1ff4..d4fb705 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -149,6 +149,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   }
 
   private void assertEventNotMapped() {
+    if (this.markedEvent == null) {
+      throw new IllegalStateException(
+          "A StateEvent for State [" + this.markedState.getName() + "] has to be defined first.");
+    }
     State<T, S> toState = this.states.get(this.markedState).get(this.markedEvent);
     if (toState != null) {
       throw new IllegalStateException(
-- 
2.43.0


From 186894c1b1832f759f0bc1c006d977122461098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 10/19] fix: startInState() must reject an incomplete
 configuration like start()

---
 .../com/webotech/statemachine/GenericStateMachine.java   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index d4fb705..13f28e7 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -217,8 +217,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     return this.endState;
   }
 
-  @Override
-  public void start() {
+  private void assertConfigurationComplete() {
     assertInitStateDefined(true);
     if (this.states.isEmpty()) {
       throw new IllegalStateException(
@@ -234,6 +233,11 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         }
       }
     }
+  }
+
+  @Override
+  public void start() {
+    assertConfigurationComplete();
     if (markStarted(initState)) {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
@@ -261,6 +265,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
 
   @Override
   public void startInState(State<T, S> state) {
+    assertConfigurationComplete();
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
-- 
2.43.0


From 2640cc2f96b0ee35c6828f177392e9de6ee9c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 11/19] fix: a task must not fail when another one takes the
 last event

---
 .../webotech/statemachine/strategy/DefaultEventStrategy.java  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 3e870db..f17f2c7 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -85,8 +85,8 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     }
     eventQueue.offer(inboundPair);
     executor.execute(() -> {
-      while (!eventQueue.isEmpty()) {
-        EventMachinePair<T, S> consumedPair = eventQueue.poll();
+      EventMachinePair<T, S> consumedPair;
+      while ((consumedPair = eventQueue.poll()) != null) {
         StateEvent<S> event = consumedPair.getStateEvent();
         GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
         try {
-- 
2.43.0


From 4c2e0ff1d7475f7b45f0e860f3ae7e9a5e20e575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 12/19] fix: copy an event without payload too, and never
 replace a client's own event type

---
 .../webotech/statemachine/strategy/DefaultEventStrategy.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index f17f2c7..d80fe7b 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -76,7 +76,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
       return;
     }
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
-    if (stateEvent.getPayload() != null) {
+    if (stateEvent instanceof NamedStateEvent) {
       /* Use a safe copy of the StateEvent in case the client is
         setting different payloads on the same event instance */
       inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
-- 
2.43.0


From bc9592e215f56140adbb750ff1db7ae18dc9d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 13/19] fix: report events that the queue refuses and never
 exceed the maximum queue size

---
 .../strategy/DefaultEventStrategy.java        | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index d80fe7b..66109ed 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -68,13 +68,6 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
-    int queueSize = getEventQueueSize();
-    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
-      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
-          Thread.currentThread(), new IllegalStateException(
-              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
-      return;
-    }
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
     if (stateEvent instanceof NamedStateEvent) {
       /* Use a safe copy of the StateEvent in case the client is
@@ -83,7 +76,14 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     } else {
       inboundPair.setEventMachinePair(stateEvent, stateMachine);
     }
-    eventQueue.offer(inboundPair);
+    if (!enqueue(inboundPair)) {
+      eventMachinePairPool.give(inboundPair);
+      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
+          Thread.currentThread(), new IllegalStateException(
+              String.format("Queue size is maxed out at %s - dropping event",
+                  getEventQueueSize())));
+      return;
+    }
     executor.execute(() -> {
       EventMachinePair<T, S> consumedPair;
       while ((consumedPair = eventQueue.poll()) != null) {
@@ -103,6 +103,16 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     });
   }
 
+  private boolean enqueue(EventMachinePair<T, S> pair) {
+    if (maxQueueSize <= 0) {
+      return eventQueue.offer(pair);
+    }
+    // Checking the size and adding have to be atomic or several threads could exceed the size
+    synchronized (eventQueue) {
+      return eventQueue.size() < maxQueueSize && eventQueue.offer(pair);
+    }
+  }
+
   @Override
   public void setStates(Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states) {
     this.transitionTask.setStates(states);
-- 
2.43.0


From e93c47530bef2e916582db78af947c442604fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 14/19] fix: concurrent fires must not queue duplicates in the
 drop-duplicate strategy

---
 .../statemachine/strategy/DropDuplicateEventStrategy.java       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
index 2abcb94..3d5dc89 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
@@ -40,7 +40,7 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
   }
 
   @Override
-  public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+  public synchronized void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
     if (eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent))) {
       logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
-- 
2.43.0


From 0e6dc0ba9987e02f4bec9b212f3307fac2d3c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 15/19] fix: a consumer that throws must not keep the other
 consumers from being notified

---
 .../MultiConsumerStateMachineListener.java    | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
index aeaf46d..df294c4 100644
--- a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
+++ b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
@@ -10,6 +10,7 @@ import com.webotech.statemachine.api.StateMachineListener;
 import java.util.Map;
 import java.util.Objects;
 import java.util.concurrent.ConcurrentHashMap;
+import java.util.function.Consumer;
 import java.util.stream.Stream;
 
 /**
@@ -45,15 +46,32 @@ public class MultiConsumerStateMachineListener<T, S> implements StateMachineList
 
   @Override
   public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
-    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
-      stateMachineListener.onStateChangeBegin(fromState, event, toState);
-    }
+    notifyAll(consumer -> consumer.onStateChangeBegin(fromState, event, toState));
   }
 
   @Override
   public void onStateChangeEnd(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
-    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
-      stateMachineListener.onStateChangeEnd(fromState, event, toState);
+    notifyAll(consumer -> consumer.onStateChangeEnd(fromState, event, toState));
+  }
+
+  /**
+   * Notifies every consumer, also when one of them throws, the first exception is then rethrown.
+   */
+  private void notifyAll(Consumer<StateMachineListener<T, S>> notification) {
+    RuntimeException first = null;
+    for (StateMachineListener<T, S> consumer : consumers.values()) {
+      try {
+        notification.accept(consumer);
+      } catch (RuntimeException e) {
+        if (first == null) {
+          first = e;
+        } else if (first != e) {
+          first.addSuppressed(e);
+        }
+      }
+    }
+    if (first != null) {
+      throw first;
     }
   }
 }
-- 
2.43.0


From 50539e71c14d81d1a2245a75ccdaa6956b369020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 16/19] fix: start() must not throw when the app ends while it
 returns

---
 .../com/webotech/statemachine/service/AbstractAppService.java    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index ec4893f..a306e44 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -128,7 +128,6 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       } catch (InterruptedException e) {
         logger.error("Main latch was interrupted", e);
         Thread.currentThread().interrupt();
-      } finally {
         if (!appStateMachine.isEnded()) {
           stop();
         }
-- 
2.43.0


From 039c635e24dd013465ee9bd92deab2325f72da9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 17/19] fix: release the blocked start() when a restartable app
 ends

---
 .../webotech/statemachine/service/AbstractAppService.java   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index a306e44..2a03608 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -101,6 +101,12 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
         appLatch.countDown();
       }
     });
+    stopped.appendExitActions((ev, sm) -> {
+      if (LifecycleStateMachineUtil.evtStop.equals(ev)) {
+        // the app ends
+        appLatch.countDown();
+      }
+    });
 
     LifecycleStateMachineUtil.configureAppStateMachine(appStateMachine, uninitialised, starting,
         started, stopping, stopped);
-- 
2.43.0


From 672e1ea22ae4f29eab200c836dc165652f0d926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 18/19] fix: the ended flag and the current state must change
 at once

---
 .../com/webotech/statemachine/GenericStateMachine.java     | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 13f28e7..5da33ad 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -27,7 +27,6 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   static final List<String> reservedStateNames = List.of(RESERVED_STATE_NAME_UNINITIALISED,
       RESERVED_STATE_NAME_END, RESERVED_STATE_NAME_NOOP);
   private final AtomicBoolean isStarted;
-  private final AtomicBoolean isEnded;
   private final Map<StateEvent<S>, State<T, S>> noTransitionMap;
   private final StateEvent<S> immediateEvent;
   private final State<T, S> noState;
@@ -58,7 +57,6 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     this.unexpectedFlowListener = eventProcessingStrategy.getUnexpectedFlowListener();
     this.eventProcessingStrategy.setStates(this.states);
     isStarted = new AtomicBoolean(false);
-    isEnded = new AtomicBoolean(false);
   }
 
   @SuppressWarnings("hiding")
@@ -282,7 +280,6 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (isStarted.get()) {
       return false;
     }
-    isEnded.set(false);
     currentState = state;
     isStarted.set(true);
     return true;
@@ -295,7 +292,8 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
 
   @Override
   public boolean isEnded() {
-    return isEnded.get();
+    // The current state alone decides, so that both change at once
+    return endState.equals(currentState);
   }
 
   @Override
@@ -340,7 +338,6 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   public synchronized void updateCurrentState(State<T, S> state) {
     if (!isEnded()) {
       currentState = state;
-      isEnded.set(state.equals(endState));
     }
   }
 
-- 
2.43.0


From 8419f0918b662de0be786645dc8a872cc9ff894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:57 +0000
Subject: [PATCH 19/19] fix: do not call the executor and the listeners while
 holding the lock of the duplicate check

---
 .../strategy/DefaultEventStrategy.java        | 28 +++++++++++++++----
 .../strategy/DropDuplicateEventStrategy.java  | 21 ++++++++++----
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 66109ed..2676c9d 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -68,6 +68,17 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+    if (accept(stateEvent, stateMachine)) {
+      processQueue(stateMachine);
+    } else {
+      reject(stateEvent, stateMachine);
+    }
+  }
+
+  /**
+   * Adds the event to the queue, returns false if the queue is full
+   */
+  boolean accept(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
     if (stateEvent instanceof NamedStateEvent) {
       /* Use a safe copy of the StateEvent in case the client is
@@ -78,12 +89,19 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     }
     if (!enqueue(inboundPair)) {
       eventMachinePairPool.give(inboundPair);
-      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
-          Thread.currentThread(), new IllegalStateException(
-              String.format("Queue size is maxed out at %s - dropping event",
-                  getEventQueueSize())));
-      return;
+      return false;
     }
+    return true;
+  }
+
+  void reject(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+    unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
+        Thread.currentThread(), new IllegalStateException(
+            String.format("Queue size is maxed out at %s - dropping event",
+                getEventQueueSize())));
+  }
+
+  void processQueue(GenericStateMachine<T, S> stateMachine) {
     executor.execute(() -> {
       EventMachinePair<T, S> consumedPair;
       while ((consumedPair = eventQueue.poll()) != null) {
diff --git a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
index 3d5dc89..865ae33 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
@@ -40,13 +40,22 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
   }
 
   @Override
-  public synchronized void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
-    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
-    if (eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent))) {
-      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
-      return;
+  public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+    boolean accepted;
+    // Only checking and adding have to be atomic, the executor and the listeners are client code
+    synchronized (this) {
+      Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
+      if (eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent))) {
+        logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
+        return;
+      }
+      accepted = defaultStrategy.accept(stateEvent, stateMachine);
+    }
+    if (accepted) {
+      defaultStrategy.processQueue(stateMachine);
+    } else {
+      defaultStrategy.reject(stateEvent, stateMachine);
     }
-    defaultStrategy.processEvent(stateEvent, stateMachine);
   }
 
   @Override
-- 
2.43.0

