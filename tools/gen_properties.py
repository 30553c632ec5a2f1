#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
B = "src/main/java/com/webotech/statemachine/"
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=[B + f for f in files],
            state=[dict(name=n, meaning=m, where=B + w) for n, m, w in state],
            mechanism=[dict(name=n, where=B + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Events move the machine exactly as configured",
 "Processing an event in a state moves the machine to exactly the target configured for that state and event (self-transitions included), leaves it where it is when the pair is configured not to transition, and ends it when the pair is configured to end or when the entered state is configured to end or has no configured behaviour. An event with no mapping in the current state changes nothing and is handed, exactly once, to the unmapped-event handler together with the machine. States and events are matched by name, whatever the names are.",
 ["configurations", "inputs", "histories"],
 "every transition table (arbitrary names, kinds and targets), every current state and every sequence of events",
 "Tests run about a dozen hand-written tables with fixed names and short fixed event sequences; the rule is about every table, name collision and history.",
 ["strategy/TransitionTask.java", "GenericStateMachine.java", "strategy/DefaultEventStrategy.java"],
 [("execute", "strategy/TransitionTask.java"), ("updateCurrentState", "GenericStateMachine.java")],
 [("states", "configured transition table", "GenericStateMachine.java"), ("currentState", "current state", "GenericStateMachine.java")],
 ["getCurrentState", "isEnded", "unmapped-event handler"])

prop("C02", "Exit then entry actions: once each, in append order, right context",
 "A transition runs every exit action of the state being left and then every entry action of the state being entered, each exactly once and in the order appended (ignoring null actions), passing the triggering event and the machine. During exit actions the machine still reports the old state; during entry actions it reports the new one. No action runs for an event that is unmapped or configured not to transition.",
 ["configurations", "inputs", "histories"],
 "any number and position (null ones included) of actions on any state, every transition kind, every event sequence",
 "Tests append at most three actions to a state and observe one or two transitions; the ordering and exactly-once guarantee is over every action list and every kind of transition.",
 ["NamedState.java", "strategy/TransitionTask.java", "GenericStateMachine.java"],
 [("onEntry/onExit", "NamedState.java"), ("execute", "strategy/TransitionTask.java"), ("start", "GenericStateMachine.java")],
 [("entryActions/exitActions", "ordered actions of a state", "NamedState.java")], ["StateAction.execute"])

prop("C03", "Listener brackets every transition exactly once, truthfully",
 "For each transition, and for the initial entry at start, the machine's listener gets exactly one begin notification before any action runs and exactly one end notification after all actions complete, both naming the same source state, event and target. A configured non-transition is reported once as begin and end with the no-operation target; unmapped, dropped and rejected events, starting in a given state and an explicit stop produce no notification. Having no listener, or replacing or removing it, at any moment and from any thread, never disturbs processing.",
 ["configurations", "inputs", "histories"],
 "every transition kind, event sequence and listener (absent, present, replaced)",
 "Tests compare the notifications of a few fixed runs; the bracketing must hold for every history and table.",
 ["GenericStateMachine.java", "strategy/TransitionTask.java"],
 [("notifyStateMachineListener", "GenericStateMachine.java"), ("execute", "strategy/TransitionTask.java")],
 [("stateMachineListener", "the listener", "GenericStateMachine.java")], ["StateMachineListener"])

prop("C04", "Every accepted event is processed exactly once, in order",
 "With the default executor every event accepted by a running machine is processed exactly once, with its own payload and for its own machine: none is lost, duplicated or left waiting while the machine is idle. Events fired by one thread (including from inside an action) are processed in the order fired, and when one fire returns before another begins the first is processed first.",
 ["schedules", "histories"],
 "every interleaving of concurrent firing threads with the processing thread, every sequence of fires",
 "A test run observes one interleaving; losing a wake-up, swapping two events or aliasing a recycled queue entry needs a particular interleaving of the firing and processing threads.",
 ["strategy/DefaultEventStrategy.java", "strategy/EventMachinePairPool.java", "strategy/EventMachinePair.java", "GenericStateMachine.java"],
 [("processEvent", "strategy/DefaultEventStrategy.java"), ("take/give", "strategy/EventMachinePairPool.java")],
 [("eventQueue", "accepted events waiting", "strategy/DefaultEventStrategy.java")], ["actions", "listener"])

prop("C05", "Transitions are atomic and run to completion",
 "The work of one event (listener notifications, exit actions, state change, entry actions) never overlaps the work of another event of the same machine, nor the initial entry performed by start. An event fired from inside an action, or by another thread while a transition is in progress, is only processed after that transition has completed, in the state it led to.",
 ["schedules", "histories"],
 "every interleaving of the starting thread, firing threads and the processing thread",
 "Overlap shows only in particular interleavings (one of them makes the repository's own integration tests flaky); a test samples a handful.",
 ["GenericStateMachine.java", "strategy/DefaultEventStrategy.java", "strategy/TransitionTask.java"],
 [("start", "GenericStateMachine.java"), ("processEvent", "strategy/DefaultEventStrategy.java")],
 [], ["actions", "listener", "getCurrentState"])

prop("C06", "Every fired event has exactly one outcome",
 "Firing an event reports it to the unexpected-flow listener exactly once as before-start if the machine has not been started, and exactly once as after-end if it has ended; neither report happens otherwise, and an event so reported is never processed. In every other case the event is handed on for processing; an accepted event goes unprocessed only if the machine ends first. Firing before start never prevents a later start from working.",
 ["schedules", "histories", "inputs"],
 "every point of the machine's life at which fire is called, including concurrently with start, stop and the ending transition",
 "Tests fire before start or after end once, sequentially; the classification must hold whatever the event and while start or the end race with fire.",
 ["GenericStateMachine.java", "strategy/DefaultEventStrategy.java", "UnexpectedFlowListener.java"],
 [("fire", "GenericStateMachine.java")],
 [("isStarted/isEnded", "life-cycle flags", "GenericStateMachine.java")], ["UnexpectedFlowListener"])

prop("C07", "Ended is final",
 "Once a started machine has ended, by a configured end or by an explicit stop from any thread at any moment, it reports itself started and ended and its current state is the end state, for ever, to every thread that asks. From then on no action or state change happens for an event not yet being worked on and events still queued are discarded; stopping is idempotent and takes effect immediately.",
 ["schedules", "histories", "crash_points"],
 "every point at which the machine ends or is stopped, racing with start, fire and a transition in progress",
 "A stop or end racing with a transition or with start corrupts the final state only in a few-instruction window that tests do not control.",
 ["GenericStateMachine.java", "strategy/DefaultEventStrategy.java", "strategy/TransitionTask.java"],
 [("updateCurrentState/stop/start", "GenericStateMachine.java")],
 [("isEnded", "ended flag", "GenericStateMachine.java"), ("currentState", "current state", "GenericStateMachine.java")],
 ["isEnded", "isStarted", "getCurrentState", "actions"])

prop("C08", "A machine starts exactly once",
 "Of any number of start and start-in-state calls, sequential or concurrent, exactly one takes effect and every other is refused with an exception and has no effect. Starting enters the initial state and runs its entry actions exactly once; starting in a given state puts the machine in that state without running actions or notifying the listener, and is refused, leaving the machine startable, for a state that was not configured. As soon as the machine reports that it is started it has a current state.",
 ["schedules", "histories", "configurations"],
 "every sequence and interleaving of start and start-in-state calls, every configuration",
 "Tests call start twice on one thread; concurrent starts, and observers between two steps of a start, are never exercised.",
 ["GenericStateMachine.java"],
 [("start/startInState", "GenericStateMachine.java")],
 [("isStarted", "started flag", "GenericStateMachine.java")], ["start", "startInState", "getCurrentState", "isStarted"])

prop("C09", "Configuration mistakes are refused, valid ones are kept",
 "Every configuration call made out of order, with a reserved state or event name, or that would redefine what an already mapped state and event do, is refused with an exception, and a refused call never alters any transition configured before. Every legal sequence of configuration calls is accepted and yields exactly the transitions it spells out. A machine with no initial state, or with a declared event that lacks an outcome, refuses to start.",
 ["programs", "inputs"],
 "every sequence of configuration calls with arbitrary state and event names",
 "Tests try about ten illegal sequences; the rule is over every call sequence and every name, including repeated ones.",
 ["GenericStateMachine.java"],
 [("initialSate/when/receives/itEnds/itTransitionsTo/itDoesNotTransition", "GenericStateMachine.java")],
 [("markedState/markedEvent", "position in the fluent configuration", "GenericStateMachine.java"), ("states", "transition table", "GenericStateMachine.java")],
 ["exceptions", "behaviour after start"])

prop("C10", "A bounded queue never exceeds its bound, overflow is reported",
 "With a positive maximum queue size the number of waiting events never exceeds it, under any concurrency; an event is refused exactly when the queue is full at that moment, is then never processed, and is reported exactly once to the unexpected-flow listener with that event, machine and calling thread and an illegal-state exception. With a zero or negative maximum no event is ever refused. The reported queue size is the number of accepted events that have not completed processing.",
 ["schedules", "inputs", "histories"],
 "every maximum (the whole int range), queue length and interleaving of firing threads with the processing thread",
 "Tests use a maximum of one and a single firing thread.",
 ["strategy/DefaultEventStrategy.java", "strategy/EventProcessingStrategyFactory.java"],
 [("processEvent/getEventQueueSize", "strategy/DefaultEventStrategy.java")],
 [("maxQueueSize", "bound", "strategy/DefaultEventStrategy.java")], ["getEventQueueSize", "UnexpectedFlowListener"])

prop("C11", "The drop-duplicate strategy drops exactly the duplicates",
 "With the drop-duplicate strategy an event is dropped if and only if an equal event (same name, whatever the payload) is waiting in the queue when it is fired, so two equal events never wait at the same time, under any concurrency. A dropped event has no effect other than a log record; every other event is processed as by the default strategy, in order, exactly once.",
 ["schedules", "inputs", "histories"],
 "every queue content, event name and interleaving of firing threads with the processing thread",
 "The single test drops one event on a one-element queue with a mocked machine.",
 ["strategy/DropDuplicateEventStrategy.java", "strategy/DefaultEventStrategy.java"],
 [("processEvent", "strategy/DropDuplicateEventStrategy.java")],
 [("eventQueue", "events waiting", "strategy/DefaultEventStrategy.java")], ["actions", "queue"])

prop("C12", "An event is processed with the payload it was fired with",
 "Actions, listeners and handlers see the event name and the payload that the event instance carried when it was fired, even if the caller changes the payload of that instance afterwards or fires it again with another payload, before processing takes place. Events without a payload are seen without one.",
 ["schedules", "inputs", "histories"],
 "every sequence of setting payloads (null included) on an event instance and firing it, with processing delayed arbitrarily",
 "Tests set a non-null payload before each fire and rely on timing for the delay.",
 ["strategy/DefaultEventStrategy.java", "NamedStateEvent.java", "strategy/EventMachinePair.java"],
 [("processEvent", "strategy/DefaultEventStrategy.java"), ("copy constructor", "NamedStateEvent.java")],
 [], ["StateAction.execute", "StateMachineListener"])

prop("C13", "Exceptions are contained and reported once",
 "An exception escaping an action, listener or unmapped-event handler while an event is processed is reported exactly once to the unexpected-flow listener, with that event, machine, exception and the processing thread; nothing is reported for an event processed without one. The remaining steps of that transition are skipped, the machine is left either in the state it was in or in the configured target, and every later event is still processed normally, exactly once and in order.",
 ["fault_sequences", "histories"],
 "every subset of callbacks failing, with runtime exceptions (or errors, which need not be reported but likewise do not lose later events), on every event of a sequence",
 "Tests throw one exception from one place; the guarantee is over every position and combination of failures and what follows them.",
 ["strategy/DefaultEventStrategy.java", "strategy/TransitionTask.java"],
 [("processEvent", "strategy/DefaultEventStrategy.java")], [], ["UnexpectedFlowListener", "actions"])

prop("C14", "The exception-handling action wraps faithfully",
 "An action wrapped with an exception handler runs exactly once with the given event and machine; any exception it throws, checked or not, goes exactly once to the handler with the same event, machine and exception and does not propagate. Without an exception the handler is not called; errors and anything thrown by the handler propagate unchanged.",
 ["fault_sequences", "inputs"],
 "every throwable kind thrown by the action and by the handler, every event and machine (null included)",
 "Tests cover one exception type and the success path.",
 ["HandleExceptionAction.java"], [("execute", "HandleExceptionAction.java")], [], ["ExceptionHandler.onException"])

prop("C15", "Machines built independently do not influence each other",
 "Machines built separately, with default settings, with strategies from the same factory configuration or from one builder used repeatedly, have separate queues, tables and life cycles: firing at, ending or stopping one never loses, delivers, drops or misroutes an event of another, whatever the interleaving. Each machine's queue size counts only its own events.",
 ["schedules", "histories", "configurations"],
 "every pair of machines, tables and interleaved histories of events on them",
 "Tests build two strategies and compare only that they are different objects; no test runs two machines at once.",
 ["strategy/EventProcessingStrategyFactory.java", "GenericStateMachine.java", "strategy/DefaultEventStrategy.java"],
 [("createDefaultStrategy/Config", "strategy/EventProcessingStrategyFactory.java"), ("Builder.build", "GenericStateMachine.java")],
 [("basicConfig", "shared default configuration", "strategy/EventProcessingStrategyFactory.java")], ["actions", "getCurrentState", "getEventQueueSize"])

prop("C16", "States and events are equal exactly when their names are equal",
 "Two named states, or two named events, are equal if and only if their names are equal strings (null names included), regardless of actions or payload; equality is an equivalence relation, false for null and for other types, and equal objects have equal hash codes that never change. Copying an event preserves name and payload.",
 ["inputs"],
 "all names (any characters, hash collisions and null included) and payloads",
 "Tests compare three fixed names.",
 ["NamedState.java", "NamedStateEvent.java"],
 [("equals/hashCode", "NamedState.java"), ("equals/hashCode", "NamedStateEvent.java")], [], ["equals", "hashCode", "getName", "getPayload"])

prop("C17", "The fan-out listener notifies each registered listener exactly once",
 "A fan-out listener forwards each begin and each end notification, unchanged, exactly once to every listener registered throughout the notification and to none that is not registered. Adding returns true exactly when the listener was absent and removing exactly when it was present, also under concurrent adds and removes; null listeners given at construction are ignored.",
 ["schedules", "histories", "inputs"],
 "every sequence and interleaving of add, remove and notifications over any listeners",
 "Tests use one or two listeners on one thread.",
 ["MultiConsumerStateMachineListener.java"],
 [("add/remove/onStateChange*", "MultiConsumerStateMachineListener.java")],
 [("consumers", "registered listeners", "MultiConsumerStateMachineListener.java")], ["StateMachineListener"])

prop("C18", "An app drives its subsystems through the documented life cycle",
 "An app's life cycle follows the documented table for every sequence of start, complete, stop and error events, other events being ignored. Starting starts the subsystems one after the other in list order and stopping stops all of them in reverse order, each exactly once with the app's context, and only then is the app started or stopped; a subsystem that fails to start prevents the later ones from starting and takes the app to stopped, and one that fails to stop also takes it to stopped, as does an error reported while the app is starting, started or stopping.",
 ["histories", "fault_sequences", "configurations"],
 "every number of subsystems, failing subsystem and sequence of life-cycle events, in both exit modes",
 "Tests run the happy path with two mocked subsystems.",
 ["service/AbstractAppService.java", "service/LifecycleStateMachineUtil.java", "service/AbstractAppContext.java"],
 [("configureAppStateMachine", "service/LifecycleStateMachineUtil.java"), ("configureAppStateMachine", "service/AbstractAppService.java")],
 [], ["Subsystem.start/stop", "getLifecycleState"])

prop("C19", "App start and stop honour the exit mode and refuse illegal calls",
 "The first start of an app blocks until the app has ended and then returns normally: in exit-on-stop mode after any stop or error has taken the app to stopped, otherwise after a stop received while stopped; a start while stopped in the other mode restarts the app and returns at once. Start and stop are refused with an illegal-state exception, without effect, when the app's state at the time of the call does not permit them (start: not yet started, or stopped in the restartable mode; stop: started, or stopped), and never otherwise, whatever the interleaving with the app's own thread. A thread interrupted while it is blocked in the first start of a started or stopped app returns from it normally, keeping its interrupt status, and the app is told to stop.",
 ["schedules", "histories"],
 "every sequence of API calls in every app state, every interleaving of the blocked starter, the caller and the app's thread, both exit modes",
 "Tests never check that the blocked start returns, and meet one interleaving each.",
 ["service/AbstractAppService.java"],
 [("start/stop", "service/AbstractAppService.java")],
 [("appLatch", "releases the blocked start", "service/AbstractAppService.java")], ["start", "stop", "getLifecycleState"])

prop("C20", "Strategies honour their configuration; worker threads are named daemons",
 "A strategy built from a configuration uses exactly the configured executor, queue, bound, unmapped-event handler and unexpected-flow listener, and working defaults (unbounded, log-and-ignore) for those not given; a machine exposes exactly the context it was built with. Threads made by the library's thread factory are daemon threads named with the requested prefix, a dash and a number no other such thread has, run the given task and carry the given uncaught-exception handler.",
 ["configurations", "inputs", "schedules"],
 "every subset of options with arbitrary values, every sequence and interleaving of thread creations",
 "Tests set each option once through package-private getters and never observe the configured objects being used.",
 ["strategy/EventProcessingStrategyFactory.java", "util/Threads.java", "GenericStateMachine.java"],
 [("Config", "strategy/EventProcessingStrategyFactory.java"), ("newThread", "util/Threads.java"), ("Builder", "GenericStateMachine.java")],
 [("threadNumber", "thread numbering", "util/Threads.java")], ["ExecutorService", "Thread"])

prop("C21", "Tracking logs say what happened",
 "The logging listener writes exactly one record per notification: a begin record naming source, event and target and an end record naming the target, prefixed by its own name if and only if it has a non-empty one. The default unexpected-flow listener and unmapped handler write exactly one record per call, naming the event, and for exceptions the state, thread and exception at error level.",
 ["inputs"],
 "all names and all listener names (null and empty included)",
 "Tests compare two fixed log texts.",
 ["LoggingStateMachineListener.java", "strategy/DefaultUnexpectedFlowListener.java", "strategy/EventProcessingStrategyFactory.java"],
 [("logChange", "LoggingStateMachineListener.java"), ("on*", "strategy/DefaultUnexpectedFlowListener.java")], [], ["log records"])

prop("C22", "Firing never waits for processing",
 "A call of fire never waits for the processing of an event on the worker thread: whatever an action, listener or handler does there, for as long as it takes, even waiting for another thread's fire to return or itself firing at this or another machine, every fire returns, and every accepted event is processed in the end; machines that fire at each other from their callbacks never deadlock, and a machine with its own worker processes its events while a callback of another machine takes its time. The same holds while an unexpected-flow listener is being told of an overflow, of an event after the end or before the start: it may take its time, fire at this or another machine, or wait for another thread's fire, without blocking that fire.",
 ["schedules", "configurations"],
 "every callback that waits or fires, every interleaving of clients and worker threads of one or two machines, both strategies, bounded and unbounded queues",
 "A lock held across a callback only shows as a deadlock in an interleaving of two machines or with a callback that waits, which no test has.",
 ["GenericStateMachine.java", "strategy/DefaultEventStrategy.java", "strategy/DropDuplicateEventStrategy.java", "strategy/TransitionTask.java"],
 [("fire", "GenericStateMachine.java"), ("processEvent", "strategy/DefaultEventStrategy.java"), ("processEvent", "strategy/DropDuplicateEventStrategy.java")],
 [("eventQueue", "events waiting", "strategy/DefaultEventStrategy.java")], ["fire", "getCurrentState"])

prop("C23", "An app exposes its context and works on its own thread",
 "An app context hands out exactly the name, arguments, thread name and subsystems it was given last, and otherwise no arguments, the thread name app and no subsystems; the app service exposes exactly its context. Except for the initial entry made by start, subsystems are started and stopped, and life-cycle listeners notified, on one daemon thread of the app named by the context's thread name, a dash and a number, never on a caller's thread and never concurrently; apps built separately use different threads. A life-cycle listener set on the app gets every change from then on, and replaces the one set before.",
 ["configurations", "histories", "schedules"],
 "every subset and order of context options, every history of start, stop, error and restart, one or two apps, every interleaving of the caller and the apps' threads",
 "Tests read each context option back once and never look at the thread a subsystem runs on.",
 ["service/AbstractAppContext.java", "service/AbstractAppService.java", "util/Threads.java"],
 [("AbstractAppService", "service/AbstractAppService.java"), ("getters", "service/AbstractAppContext.java")],
 [("appThreadNameRef", "thread name", "service/AbstractAppContext.java"), ("subsystemsRef", "subsystems", "service/AbstractAppContext.java")], ["Subsystem.start/stop", "Thread"])

prop("C24", "What one thread does with a machine is visible to every other thread",
 "Threads that use a machine, an app, an app context or a fan-out listener at the same time need no synchronisation of their own: whatever combination of start, start in a state, fire, stop, queries of the current state, life cycle, queue size and context, and replacing the listener they use, together with the library's own worker threads, no two threads ever access the same field of the library at the same time, one of them changing it, unless the field is volatile or atomic. So a thread that keeps asking a machine always comes to see the state it has moved to, a started machine is seen started by all, a listener set by one thread is told by the worker, and no thread ever sees a half-made change.",
 ["schedules", "histories"],
 "every pair of accesses to fields of the library that two threads (clients, workers, app threads) can make at the same time, in every interleaving of the listed combinations of calls",
 "A missing volatile only shows when the compiler keeps a stale value, for instance in a loop that polls; no test has one, and tests wait with sleeps or latches that hide it.",
 ["GenericStateMachine.java", "strategy/TransitionTask.java", "strategy/DefaultEventStrategy.java", "strategy/EventMachinePair.java", "service/AbstractAppService.java", "MultiConsumerStateMachineListener.java"],
 [("updateCurrentState", "GenericStateMachine.java"), ("getCurrentState", "GenericStateMachine.java"), ("setStateMachineListener", "GenericStateMachine.java"), ("enqueue", "strategy/DefaultEventStrategy.java")],
 [("currentState", "state read by any thread", "GenericStateMachine.java"), ("stateMachineListener", "listener set by any thread", "GenericStateMachine.java"), ("isStarted/isEnded", "life cycle", "GenericStateMachine.java")], ["getCurrentState", "isStarted", "isEnded", "listener notifications"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
