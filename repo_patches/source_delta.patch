From d4b389ad835ab7b088d02892a63ef926c111340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 01/18] fix: a stop during the initial entry is not undone by
 start()

start() cleared the ended flag after the entry actions of the initial state had
run, so a machine that was stopped meanwhile (by an action or another thread, or
by an event fired from an entry action) came back to life.
---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 51b54bb..925b720 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -231,10 +231,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     }
     if (isStarted.compareAndSet(false, true)) {
       currentState = initState;
+      isEnded.set(false);
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
-      isEnded.set(false);
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0


From cab7be9bf219bd685f674d2677016cdea69b3994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 02/18] fix: strategies created from one config do not share
 the default event queue

The default queue was stored in the config, so every machine using the basic
config queued its events in one queue and they were processed with the
transitions of whichever machine got to them first.
---
 .../strategy/EventProcessingStrategyFactory.java            | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
index 458d3b7..7a4e4b7 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
@@ -137,10 +137,8 @@ public class EventProcessingStrategyFactory {
     }
 
     Queue<EventMachinePair<T, S>> getEventQueue() {
-      if (eventQueue == null) {
-        eventQueue = new ConcurrentLinkedQueue<>();
-      }
-      return eventQueue;
+      // not kept: strategies created from the same config must not share a default queue
+      return eventQueue == null ? new ConcurrentLinkedQueue<>() : eventQueue;
     }
   }
 }
-- 
2.43.0


From 53d52d5509e3bb9c55039b125fd9c4edb21d4416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 03/18] fix: machines built by one builder do not share the
 default strategy

build() stored the default strategy in the builder, so a second machine replaced
the transitions of the first.
---
 .../com/webotech/statemachine/GenericStateMachine.java    | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 925b720..f5dcade 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -364,11 +364,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     }
 
     public GenericStateMachine<T, S> build() {
-      if (eventProcessingStrategy == null) {
-        eventProcessingStrategy = EventProcessingStrategyFactory.createDefaultStrategy();
-      }
-      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener,
-          eventProcessingStrategy);
+      EventProcessingStrategy<T, S> strategy = eventProcessingStrategy == null
+          ? EventProcessingStrategyFactory.createDefaultStrategy() : eventProcessingStrategy;
+      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener, strategy);
     }
   }
 }
-- 
2.43.0


From 89a7f3c3a10286e3184532a4c95521ca4d497b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 04/18] fix: receives() does not erase an existing mapping

Configuring an event twice for a state dropped the first transition instead of
being refused.
---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index f5dcade..7beabd7 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -91,7 +91,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     assertInitStateDefined(true);
     assertMarkedStateDefined(true);
     this.markedEvent = stateEvent;
-    this.states.get(this.markedState).put(this.markedEvent, null);
+    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);
     return this;
   }
 
-- 
2.43.0


From 2c93235d3841f1cdc91dc4dd93f1f7bce09a488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 05/18] fix: refuse a transition that is configured without an
 event

itTransitionsTo() and itDoesNotTransition() without receives() stored a mapping
for a null event.
---
 .../com/webotech/statemachine/GenericStateMachine.java    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 7beabd7..977990e 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -116,6 +116,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     assertNotReservedState(state);
     assertInitStateDefined(true);
     assertMarkedStateDefined(true);
+    assertMarkedEventDefined();
     assertEventNotMapped();
     this.states.get(this.markedState).put(this.markedEvent, state);
     this.markedState = null;
@@ -127,6 +128,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   public StateMachine<T, S> itDoesNotTransition() {
     assertInitStateDefined(true);
     assertMarkedStateDefined(true);
+    assertMarkedEventDefined();
     assertEventNotMapped();
     this.states.get(this.markedState).put(this.markedEvent, this.noopState);
     this.markedState = null;
@@ -175,6 +177,12 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     }
   }
 
+  private void assertMarkedEventDefined() {
+    if (this.markedEvent == null) {
+      throw new IllegalStateException("A StateEvent has to be defined using receives().");
+    }
+  }
+
   private void assertInitStateDefined(boolean exists) {
     if (exists && this.initState == null) {
       throw new IllegalStateException("An initial State has to be defined first.");
-- 
2.43.0


From 4376fc2f43788be9c0de47c8d185e678a07ef90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 06/18] fix: the end state is not overwritten by a concurrent
 transition

A transition that had passed the ended check could set the current state after
stop() had set the end state.
---
 .../java/com/webotech/statemachine/GenericStateMachine.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 977990e..7cad783 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -324,8 +324,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   }
 
   public void updateCurrentState(State<T, S> state) {
-    if (isEnded.compareAndSet(false, state.equals(endState))) {
-      currentState = state;
+    synchronized (isEnded) {
+      if (isEnded.compareAndSet(false, state.equals(endState))) {
+        currentState = state;
+      }
     }
   }
 
-- 
2.43.0


From 213aaf7185278619610637f2100c7688888d66c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 07/18] fix: a machine whose initial state ends immediately
 does end

itEnds() on the initial state had no effect.
---
 .../java/com/webotech/statemachine/GenericStateMachine.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 7cad783..ffb5d5a 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -243,6 +243,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
+      if (endState.equals(states.get(initState).get(immediateEvent))) {
+        stop();
+      }
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0


From 689d06c9afc7c6111168734c1a81e6ea0f968bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 08/18] fix: a machine has its current state when it is seen as
 started

An event fired between setting the started flag and the current state was
processed without a current state and lost to a NullPointerException.
---
 .../statemachine/GenericStateMachine.java     | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index ffb5d5a..a338436 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -237,9 +237,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         }
       }
     }
-    if (isStarted.compareAndSet(false, true)) {
-      currentState = initState;
-      isEnded.set(false);
+    if (markStarted(initState)) {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
@@ -269,14 +267,24 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
-    if (isStarted.compareAndSet(false, true)) {
-      this.currentState = state;
-      isEnded.set(false);
-    } else {
+    if (!markStarted(state)) {
       throw new IllegalStateException("The state machine has already been started");
     }
   }
 
+  /* Other threads may fire events as soon as isStarted is true so it is set last */
+  private boolean markStarted(State<T, S> state) {
+    synchronized (isEnded) {
+      if (isStarted.get()) {
+        return false;
+      }
+      currentState = state;
+      isEnded.set(false);
+      isStarted.set(true);
+      return true;
+    }
+  }
+
   @Override
   public boolean isStarted() {
     return isStarted.get();
-- 
2.43.0


From 1d2d66227c47dc1f47de7560c527330aae254606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 09/18] fix: concurrent fires do not exceed the maximum queue
 size

The size check and the insertion were separate steps.
---
 .../strategy/DefaultEventStrategy.java        | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 3e870db..681efcf 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -68,13 +68,28 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
-    int queueSize = getEventQueueSize();
-    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
-      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
-          Thread.currentThread(), new IllegalStateException(
-              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
-      return;
+    if (maxQueueSize > 0) {
+      int queueSize;
+      // Check and add atomically so that concurrent publishers do not exceed the maximum
+      synchronized (eventQueue) {
+        queueSize = getEventQueueSize();
+        if (queueSize < maxQueueSize) {
+          enqueue(stateEvent, stateMachine);
+        }
+      }
+      if (queueSize >= maxQueueSize) {
+        unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
+            Thread.currentThread(), new IllegalStateException(
+                String.format("Queue size is maxed out at %s - dropping event", queueSize)));
+        return;
+      }
+    } else {
+      enqueue(stateEvent, stateMachine);
     }
+    processQueue(stateMachine);
+  }
+
+  private void enqueue(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
     if (stateEvent.getPayload() != null) {
       /* Use a safe copy of the StateEvent in case the client is
@@ -84,6 +99,9 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
       inboundPair.setEventMachinePair(stateEvent, stateMachine);
     }
     eventQueue.offer(inboundPair);
+  }
+
+  private void processQueue(GenericStateMachine<T, S> stateMachine) {
     executor.execute(() -> {
       while (!eventQueue.isEmpty()) {
         EventMachinePair<T, S> consumedPair = eventQueue.poll();
-- 
2.43.0


From 56fead8ec9c96ff78cececd167186d642fdc07c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 10/18] fix: concurrent fires of the same event do not both get
 queued

The duplicate check and the insertion were separate steps.
---
 .../strategy/DropDuplicateEventStrategy.java          | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
index 2abcb94..82cab14 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
@@ -42,11 +42,14 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
-    if (eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent))) {
-      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
-      return;
+    // Look up and add atomically so that concurrent publishers do not queue the same event twice
+    synchronized (eventQueue) {
+      if (eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent))) {
+        logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
+        return;
+      }
+      defaultStrategy.processEvent(stateEvent, stateMachine);
     }
-    defaultStrategy.processEvent(stateEvent, stateMachine);
   }
 
   @Override
-- 
2.43.0


From 775617b40a2c45aaf208734f263e50d1852083a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 11/18] fix: snapshot events that are fired without a payload

The client may set a payload on the instance it fired while it is still queued.
---
 .../webotech/statemachine/strategy/DefaultEventStrategy.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 681efcf..084ea20 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -91,7 +91,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   private void enqueue(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
-    if (stateEvent.getPayload() != null) {
+    if (stateEvent.getPayload() != null || stateEvent instanceof NamedStateEvent) {
       /* Use a safe copy of the StateEvent in case the client is
         setting different payloads on the same event instance */
       inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
-- 
2.43.0


From 9024fde82f228070c4a4f8375d5c5b8e55dc338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 12/18] fix: start() returns when a restartable app ends

Nothing released the thread blocked in start() when isExitOnStop is false and the
stopped app received a stop event, so the process did not exit.
---
 .../webotech/statemachine/service/AbstractAppService.java | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index ec4893f..0a47086 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -102,6 +102,14 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       }
     });
 
+    if (!isExitOnStop) {
+      stopped.appendExitActions((evt, stateMachine) -> {
+        if (LifecycleStateMachineUtil.evtStop.equals(evt)) {
+          appLatch.countDown();
+        }
+      });
+    }
+
     LifecycleStateMachineUtil.configureAppStateMachine(appStateMachine, uninitialised, starting,
         started, stopping, stopped);
   }
-- 
2.43.0


From 97cad8baa6a45f71a9b34282b813cc3567aaf8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 13/18] fix: start() does not race with the end of the app

After the app was stopped start() attempted to stop it again, which threw an
IllegalStateException if the app happened to end between the two checks.
---
 .../com/webotech/statemachine/service/AbstractAppService.java    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index 0a47086..0f67530 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -136,7 +136,6 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       } catch (InterruptedException e) {
         logger.error("Main latch was interrupted", e);
         Thread.currentThread().interrupt();
-      } finally {
         if (!appStateMachine.isEnded()) {
           stop();
         }
-- 
2.43.0


From e63fd6dd024886b98c5e2b0e161af09e6fa0e2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:46 +0000
Subject: [PATCH 14/18] fix: both notifications of a non-transition name the
 same source state

The current state was read once for each of them, so when the machine was stopped by
another thread or by the listener in between the end notification named the end state.
---
 .../com/webotech/statemachine/strategy/TransitionTask.java   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java b/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
index 1d65b60..31f7efb 100644
--- a/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
+++ b/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
@@ -31,8 +31,9 @@ public class TransitionTask<T, S> {
     }
     if (machine.getNoopState().equals(toState)) {
       // No transition but notify the listener so it can tell a StateEvent was received
-      machine.notifyStateMachineListener(false, machine.getCurrentState(), event, toState);
-      machine.notifyStateMachineListener(true, machine.getCurrentState(), event, toState);
+      State<T, S> sameState = machine.getCurrentState();
+      machine.notifyStateMachineListener(false, sameState, event, toState);
+      machine.notifyStateMachineListener(true, sameState, event, toState);
       return;
     }
     State<T, S> fromState = machine.getCurrentState();
-- 
2.43.0


From 6efb5cec0147586684b9795cc4185b64e088b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:46 +0000
Subject: [PATCH 15/18] fix: the drop-duplicate strategy no longer calls back
 while holding the queue's lock

Reporting an overflow, or running the executor, with the queue locked blocked every other
publisher for as long as the listener took and let two machines whose listeners fire at each
other deadlock.
---
 .../strategy/DefaultEventStrategy.java        | 39 ++++++++++++-------
 .../strategy/DropDuplicateEventStrategy.java  | 19 ++++++---
 2 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 084ea20..45dae78 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -68,25 +68,36 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+    if (offer(stateEvent, stateMachine)) {
+      processQueue(stateMachine);
+    } else {
+      reportMaxedOut(stateEvent, stateMachine);
+    }
+  }
+
+  /**
+   * Adds the event to the queue, returns false if the queue is full. This neither calls back nor
+   * executes anything so it is safe to use while holding a lock.
+   */
+  boolean offer(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     if (maxQueueSize > 0) {
-      int queueSize;
       // Check and add atomically so that concurrent publishers do not exceed the maximum
       synchronized (eventQueue) {
-        queueSize = getEventQueueSize();
-        if (queueSize < maxQueueSize) {
-          enqueue(stateEvent, stateMachine);
+        if (getEventQueueSize() >= maxQueueSize) {
+          return false;
         }
+        enqueue(stateEvent, stateMachine);
+        return true;
       }
-      if (queueSize >= maxQueueSize) {
-        unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
-            Thread.currentThread(), new IllegalStateException(
-                String.format("Queue size is maxed out at %s - dropping event", queueSize)));
-        return;
-      }
-    } else {
-      enqueue(stateEvent, stateMachine);
     }
-    processQueue(stateMachine);
+    enqueue(stateEvent, stateMachine);
+    return true;
+  }
+
+  void reportMaxedOut(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+    unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
+        Thread.currentThread(), new IllegalStateException(
+            String.format("Queue size is maxed out at %s - dropping event", maxQueueSize)));
   }
 
   private void enqueue(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
@@ -101,7 +112,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     eventQueue.offer(inboundPair);
   }
 
-  private void processQueue(GenericStateMachine<T, S> stateMachine) {
+  void processQueue(GenericStateMachine<T, S> stateMachine) {
     executor.execute(() -> {
       while (!eventQueue.isEmpty()) {
         EventMachinePair<T, S> consumedPair = eventQueue.poll();
diff --git a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
index 82cab14..7ac3eab 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
@@ -42,13 +42,22 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
-    // Look up and add atomically so that concurrent publishers do not queue the same event twice
+    boolean isDuplicate;
+    boolean isQueued = false;
+    // Look up and add atomically so that concurrent publishers do not queue the same event twice,
+    // everything that calls back is done without the lock
     synchronized (eventQueue) {
-      if (eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent))) {
-        logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
-        return;
+      isDuplicate = eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent));
+      if (!isDuplicate) {
+        isQueued = defaultStrategy.offer(stateEvent, stateMachine);
       }
-      defaultStrategy.processEvent(stateEvent, stateMachine);
+    }
+    if (isDuplicate) {
+      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
+    } else if (isQueued) {
+      defaultStrategy.processQueue(stateMachine);
+    } else {
+      defaultStrategy.reportMaxedOut(stateEvent, stateMachine);
     }
   }
 
-- 
2.43.0


From 6a89af0b76bddfb2c3eff886773ff023d37df5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:07 +0000
Subject: [PATCH 16/18] fix: the current state is visible to every thread

---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index a338436..13c45fc 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -41,7 +41,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   private State<T, S> initState;
   private State<T, S> markedState;
   private StateEvent<S> markedEvent;
-  private State<T, S> currentState;
+  private volatile State<T, S> currentState;
 
   private GenericStateMachine(T context, Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states,
       StateMachineListener<T, S> stateMachineListener,
-- 
2.43.0


From 1c64d5d19bb59358c1c090a2b9b10b6d5af70794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:07 +0000
Subject: [PATCH 17/18] fix: the listener can be replaced or removed by any
 thread at any time

---
 .../com/webotech/statemachine/GenericStateMachine.java | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 13c45fc..4786478 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -37,7 +37,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   private final T context;
   private final EventProcessingStrategy<T, S> eventProcessingStrategy;
   private final UnexpectedFlowListener<T, S> unexpectedFlowListener;
-  private StateMachineListener<T, S> stateMachineListener;
+  private volatile StateMachineListener<T, S> stateMachineListener;
   private State<T, S> initState;
   private State<T, S> markedState;
   private StateEvent<S> markedEvent;
@@ -194,7 +194,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
 
   public void notifyStateMachineListener(boolean isComplete, State<T, S> fromState,
       StateEvent<S> stateEvent, State<T, S> toState) {
-    if (this.stateMachineListener != null) {
+    // Read once, it can be replaced by another thread at any time
+    StateMachineListener<T, S> listener = this.stateMachineListener;
+    if (listener != null) {
       if (fromState == null) {
         fromState = this.noState;
       }
@@ -205,9 +207,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         stateEvent = this.immediateEvent;
       }
       if (isComplete) {
-        this.stateMachineListener.onStateChangeEnd(fromState, stateEvent, toState);
+        listener.onStateChangeEnd(fromState, stateEvent, toState);
       } else {
-        this.stateMachineListener.onStateChangeBegin(fromState, stateEvent, toState);
+        listener.onStateChangeBegin(fromState, stateEvent, toState);
       }
     }
   }
-- 
2.43.0


From 43f9ee8bd15a4e62734658e5c34b232d552b5da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:07 +0000
Subject: [PATCH 18/18] fix: a machine is in the end state before it is
 reported ended

---
 .../java/com/webotech/statemachine/GenericStateMachine.java   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 4786478..5ecd465 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -338,8 +338,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
 
   public void updateCurrentState(State<T, S> state) {
     synchronized (isEnded) {
-      if (isEnded.compareAndSet(false, state.equals(endState))) {
+      if (!isEnded.get()) {
+        // The state is set first so that a machine that is ended is always in the end state
         currentState = state;
+        isEnded.set(state.equals(endState));
       }
     }
   }
-- 
2.43.0

