#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
B = "src/main/java/com/webotech/statemachine/"
GSM, TT, DES, DDS = B+"GenericStateMachine.java", B+"strategy/TransitionTask.java", B+"strategy/DefaultEventStrategy.java", B+"strategy/DropDuplicateEventStrategy.java"
FAC, POOL, PAIR = B+"strategy/EventProcessingStrategyFactory.java", B+"strategy/EventMachinePairPool.java", B+"strategy/EventMachinePair.java"
NS, NSE, HEA, MUL, LOG = B+"NamedState.java", B+"NamedStateEvent.java", B+"HandleExceptionAction.java", B+"MultiConsumerStateMachineListener.java", B+"LoggingStateMachineListener.java"
APP, CTX, LIFE, THR = B+"service/AbstractAppService.java", B+"service/AbstractAppContext.java", B+"service/LifecycleStateMachineUtil.java", B+"util/Threads.java"
DUF = B+"strategy/DefaultUnexpectedFlowListener.java"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                   mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Every run is explained by the configured transition table",
  "For every configuration and every history of calls, what a started machine does is what handling its accepted events one at a time does: an event mapped in the current state moves the machine to the configured target, an event mapped as not transitioning leaves the state unchanged, and an unmapped event leaves the state unchanged and reaches the unmapped-event handler exactly once. The current state and every callback are those of the table applied to the events handled so far, whatever instances or threads the events came from.",
  ["configurations","histories","schedules"], "all configurations (states, events, targets incl. self, no-op, end, unconfigured targets), all sequences of fired events, all schedules of the firing threads and the handling thread",
  "tests run a few fixed two-state configurations with single-digit event sequences; the many-thread tests only check alternation of two states",
  [GSM, TT], [("table lookup on the current state", TT+": execute"), ("configuration methods fill the table", GSM+": initialSate/when/receives/itTransitionsTo/itEnds/itDoesNotTransition")],
  [("states","from-state -> event -> to-state", GSM+": states"), ("currentState","the state the machine is in", GSM+": currentState")],
  ["StateMachineListener callbacks","StateAction executions","unmapped-event handler","getCurrentState"])
p("C02", "Each transition makes its callbacks exactly once, in the documented order",
  "A transition notifies the listener of its begin, runs all exit actions of the source state in the order they were appended, then all entry actions of the target state in the order they were appended, then notifies the listener of its end: each exactly once, all on the same thread and all with the same event and from/to states. Exit actions see the machine in the source state and entry actions see it in the target state. An event mapped as not transitioning makes exactly a begin and an end notification, both naming the no-op state as target, and runs no action.",
  ["configurations","histories"], "all configurations, numbers of actions, events and transition kinds (incl. self transitions and ends), with or without a listener",
  "tests check one configuration with two actions on one state and one listener transcript; nothing relates notifications and actions of the same transition over arbitrary configurations",
  [TT, NS, GSM], [("order of calls in the transition", TT+": execute"), ("append order of actions", NS+": onEntry/onExit"), ("notification fan-in", GSM+": notifyStateMachineListener")],
  [], ["listener callbacks","actions","getCurrentState inside callbacks"])
p("C03", "Handling of one event never overlaps the handling of another",
  "Whatever threads events are fired from, including from inside actions, listeners and handlers, all callbacks for one event are finished before the first callback for the next event starts, as long as the executor runs its tasks one at a time (as the default one does). An event fired from inside a callback is handled only after the handling in progress is complete. The initial entry done by start is just as atomic: no event is handled in the middle of it.",
  ["schedules","histories"], "all schedules of any number of firing threads, with events fired from every kind of callback",
  "tests only sample schedules the JVM happens to produce and look at the order of begin notifications, never at overlap",
  [DES, TT, GSM, FAC], [("hand-off to a single thread executor", DES+": processEvent"), ("default single thread executor", FAC+": Config.getExecutor")],
  [("eventQueue","accepted events not yet taken up", DES+": eventQueue")], ["begin and end of every callback"])
p("C04", "Events are handled in the order in which they were received",
  "If one fire call returned before another fire call was made, on whatever threads, and both events were accepted and handled, then the first event was handled before the second one. In particular events fired by one thread, or by one action, are handled in the order in which they were fired. This holds for the default and the drop-duplicate strategies with an executor that runs its tasks one at a time, for any backlog.",
  ["schedules","histories"], "all schedules of any number of firing threads, any backlog length, with or without payloads",
  "no test checks order beyond one thread firing four payloads at an idle machine",
  [DES, DDS, POOL], [("FIFO queue drained by one consumer", DES+": processEvent"), ("pooling of queue entries must not alias them", POOL+": take/give")],
  [("eventQueue","FIFO of accepted events", DES+": eventQueue")], ["fire call/return","first callback of each event"])
p("C05", "Every accepted event is handled exactly once, with no further call needed",
  "An event fired at a machine that has started and not ended, and not rejected by a queue bound or a duplicate check, is handled exactly once (a transition, a no-op, the unmapped-event handler or a reported exception) without any further call being needed, unless the machine ends first. Nothing is handled that was not fired, and nothing is handled twice. This holds for any number of firing threads, any backlog, and also for executors that run several tasks at once.",
  ["schedules","histories","fault_sequences"], "all schedules, thread counts, backlogs and executors; with exceptions and errors thrown by earlier events",
  "the 500-event test counts notifications for one schedule per run; lost wake-ups, lost or doubled events in other schedules are not reachable by it",
  [DES, POOL, PAIR, TT, GSM], [("one drain task submitted per accepted event", DES+": processEvent"), ("drain until the queue is empty", DES+": processEvent"), ("pool entry returned only after handling", POOL+": give")],
  [("eventQueue","accepted events", DES+": eventQueue"), ("pool","free queue entries", POOL+": pool")], ["fire call/return","callbacks","state at quiescence"])
p("C06", "Once a started machine has ended it stays ended",
  "Once a started machine has been observed to be ended, it is observed as ended and in the end state for ever after, by every thread. No event fired afterwards is handled: each one is reported exactly once, as received after the end, to the unexpected-flow listener. Of the events accepted before the end none is handled afterwards either, except that one event already being handled when stop() was called from another thread may still make some of its callbacks.",
  ["schedules","histories"], "all schedules of stop, fire, observers and the handling thread; every way of ending",
  "tests check isEnded after a fixed delay; a stop racing a transition or a start is never exercised deterministically",
  [GSM, DES, TT], [("end flag and current state updated together", GSM+": updateCurrentState"), ("fire refuses when ended", GSM+": fire"), ("drain skips events once ended", DES+": processEvent")],
  [("isEnded","the machine has ended", GSM+": isEnded"), ("currentState","end state once ended", GSM+": currentState")], ["isEnded","getCurrentState","onEventAfterMachineEnd"])
p("C07", "A machine starts at most once and handles only events fired after it started",
  "Of any number of attempts to start a machine (start or startInState, repeated or concurrent) exactly one succeeds and all others throw IllegalStateException and change nothing. start() notifies the listener of the move from the uninitialised state to the initial state around running the initial state's entry actions exactly once; startInState() puts the machine in the given state without any notification or action. An event fired before the machine started is reported exactly once as received before start and is never handled; an event fired once the machine is observed to be started is handled according to the state it was started in, never failed for lack of one.",
  ["schedules","histories"], "all schedules of start, startInState, fire and observers",
  "tests start machines from a single thread and never fire concurrently with start",
  [GSM], [("compare-and-set of the started flag", GSM+": start/startInState"), ("fire refuses before start", GSM+": fire")],
  [("isStarted","the machine has been started", GSM+": isStarted"), ("initState","the configured initial state", GSM+": initState")], ["start/startInState result","onEventBeforeMachineStart","listener"])
p("C08", "A machine ends exactly when it is configured to, or when it is stopped",
  "A started machine becomes ended when it handles an event configured to end it, when it completes the entry (by start() or by a transition) of a state configured to end immediately or of a target state that has no configuration of its own, or when stop() is called; it does not end in any other case. An end that was reached is never lost, whichever thread reaches it, including while start() is still running. An event that ends the machine is notified as a transition to the end state and runs the exit actions of the source state; reaching an immediately ending state makes no further notification and runs no exit action.",
  ["configurations","schedules","histories"], "all configurations mixing the kinds of end, all schedules of start, fire and stop",
  "each kind of end is tested once with one schedule; BUILD.json itself notes an end lost by start() that makes two tests flaky",
  [GSM, TT], [("end state reached in the transition", TT+": execute"), ("immediate end after entry", TT+": execute"), ("start clears the end flag", GSM+": start")],
  [("isEnded","the machine has ended", GSM+": isEnded")], ["isEnded and getCurrentState at quiescence","listener"])
p("C09", "A failure while handling one event is reported and stays confined to it",
  "An exception thrown by an action, a listener or the unmapped-event handler while an event is being handled is reported exactly once to the unexpected-flow listener with that event, that machine, that exception and the handling thread, and ends the handling of that event only. The machine is then in the source state if the failure came before or in the exit actions, and in the target state if it came in the entry actions or the end notification. All other accepted events are still handled normally, even after an Error or after the unexpected-flow listener itself failed.",
  ["fault_sequences","histories","schedules"], "every callback position as failing point, exceptions and errors, repeated failures, any backlog",
  "one test makes a mocked machine throw once and checks one report; no test checks the state or the other events",
  [DES, TT, GSM], [("catch and report around each handling", DES+": processEvent"), ("state updated between exit and entry actions", TT+": execute"), ("entry returned to the pool in finally", DES+": processEvent")],
  [], ["onExceptionDuringEventProcessing","getCurrentState","callbacks of later events"])
p("C10", "A bounded queue never exceeds its maximum and rejects only when full",
  "With a positive maximum queue size the number of accepted events waiting to be taken up never exceeds it, however many threads fire at once; with a zero or negative maximum no event is ever rejected for size. An event that finds the queue full (by that maximum, or because the queue supplied by the user refuses it) is reported exactly once to the unexpected-flow listener on the firing thread with an IllegalStateException and is never handled. An event fired while fewer events than the maximum are waiting is accepted and handled.",
  ["schedules","configurations","histories"], "all maxima, all schedules of concurrent firing threads and the handling thread, user supplied queues",
  "one test with a maximum of one and two events from one thread",
  [DES, FAC], [("size check before the queue insertion", DES+": processEvent")],
  [("maxQueueSize","bound on waiting events", DES+": maxQueueSize")], ["onExceptionDuringEventProcessing on the firing thread","getEventQueueSize","callbacks"])
p("C11", "The drop-duplicate strategy keeps at most one of equal waiting events",
  "With the drop-duplicate strategy an event is dropped, silently and without being handled, exactly when an equal event (same name, whatever the payload) is waiting to be taken up; so no two equal events are ever waiting, however many threads fire at once. An event equal only to the one being handled, or to ones already handled, is accepted and handled. The events that are kept are handled once each, in the order received, with the payload they were fired with.",
  ["schedules","histories"], "all schedules of concurrent firing threads and the handling thread, all mixes of equal and different events",
  "one test with a mocked strategy and a hand-filled queue, from one thread",
  [DDS, DES, NSE], [("scan of the queue before insertion", DDS+": processEvent"), ("name based equality", NSE+": equals")],
  [("eventQueue","waiting events", DES+": eventQueue")], ["handled events","getEventQueueSize"])
p("C12", "An event is handled with the payload it had when it was fired",
  "Every callback made for a fired event sees exactly the payload (null included) that the event object carried when fire was called, whatever the client does to that event object afterwards: setting other payloads on it, clearing it, or firing it again. All callbacks of one handling see the same payload. Payloads of different fires are never mixed up, whatever the backlog and the number of threads.",
  ["schedules","histories"], "all interleavings of setPayload and fire on shared or separate event objects with the handling thread, payloads null and non-null",
  "one test re-uses an event object with non-null payloads from one thread, with one schedule",
  [DES, NSE, POOL, PAIR], [("defensive copy at fire time", DES+": processEvent"), ("queue entries are pooled and reset on take", POOL+": take/give")],
  [("payload","mutable payload of an event", NSE+": payload")], ["payload seen in listener, actions, handlers"])
p("C13", "Independently built machines do not affect each other",
  "Machines built separately, whether with default strategies, from one builder, or with strategies created from one configuration object (without a shared explicit queue), behave as if each were alone: every event fired at a machine is handled by that machine, by its own configuration, and by no other. One machine starting, ending, stopping, failing or having a backlog changes neither the state, the reported queue size, the drop or bound decisions nor the handled events of another.",
  ["configurations","schedules","histories"], "any number of machines with equal or different states and events, any interleaving of their events",
  "tests assert that two factory calls return different strategy objects, and never run two machines with a backlog at the same time",
  [FAC, DES, GSM], [("default configuration object shared by all default strategies", FAC+": basicConfig/getEventQueue"), ("builder keeps the strategy it created", GSM+": Builder.build"), ("queue entries carry their machine", PAIR)],
  [("basicConfig","process-wide default configuration", FAC+": basicConfig")], ["callbacks per machine","getEventQueueSize per machine"])
p("C14", "Contradictory or incomplete configurations are rejected and change nothing",
  "Every configuration call that is out of place, uses a reserved state or event name, adds a second initial state, maps an already mapped event of a state again, maps a target without an event, or makes a state with transitions end immediately, throws IllegalStateException and leaves the configuration as it was. Starting (start or startInState) a machine that has no initial state or has an event without an outcome, or starting in a state that was not configured, throws IllegalStateException and leaves the machine not started. Every other call is accepted, and the machine then behaves by exactly the accepted mappings.",
  ["programs","configurations"], "all sequences of configuration calls over a small alphabet of states and events, up to a bounded length",
  "one test walks a single sequence of about ten calls; combinations of calls and what the machine then does are not explored",
  [GSM], [("assert* guards of the configuration methods", GSM), ("check of all mappings in start", GSM+": start")],
  [("markedState/markedEvent","cursor of the fluent configuration", GSM), ("states","the mappings", GSM+": states")], ["IllegalStateException","behaviour after start"])
p("C15", "The multi-consumer listener delivers every notification to every consumer once",
  "Each notification given to the multi-consumer listener is delivered exactly once, with the same arguments and kind, to every consumer that is registered throughout the notification, and to no consumer that is not registered at any time during it; a consumer that throws does not keep the others from being called, and its exception still reaches the caller. add returns true exactly when the consumer was not registered and remove exactly when it was, also when called concurrently or from inside a notification.",
  ["schedules","histories","fault_sequences"], "all interleavings of add, remove and notifications from any threads; any consumers failing",
  "tests add, remove and notify from one thread with consumers that never throw",
  [MUL], [("concurrent map of consumers", MUL+": consumers")], [("consumers","registered listeners", MUL+": consumers")], ["consumer callbacks","add/remove results"])
p("C16", "An app follows its lifecycle and refuses start and stop out of place",
  "An app moves only along its documented lifecycle: uninitialised to starting on start, starting to started, started to stopping on stop, stopping to stopped, and starting, started or stopping to stopped on error; a restartable app goes from stopped to starting on start and ends on stop, an exit-on-stop app ends by itself once stopped. start is accepted only on a fresh app or, for a restartable one, in the stopped state; stop only in the started state or, in the stopped state, to end a restartable app or as a no-op on an exit-on-stop one. Any other start or stop throws IllegalStateException and has no effect, and error in any other state has no effect.",
  ["histories","schedules"], "all sequences and interleavings of start, stop and error calls on both kinds of app",
  "tests drive three fixed sequences, each through mocks with sleeps",
  [APP, LIFE], [("lifecycle configuration", LIFE+": configureAppStateMachine"), ("state checks of start and stop", APP+": start/stop")],
  [("appStateMachine","the lifecycle machine", APP)], ["getLifecycleState","listener transitions","exceptions of start/stop"])
p("C17", "Subsystems start in order, stop in reverse order, once per cycle",
  "Each time an app is starting it starts all its subsystems exactly once each, one after the other, in the configured order, all with the app's context, and reports started only when all have started; each time it is stopping it stops all of them exactly once each in reverse order and reports stopped only when all have stopped. When a subsystem fails to start (or stop) no further subsystem is started (or stopped) and the app goes to stopped without being reported started. Subsystems are started or stopped at no other time.",
  ["histories","fault_sequences","configurations"], "any number of subsystems, any number of restart cycles, any subsystem failing in any cycle",
  "tests use two mocked subsystems that never fail and verify with in-order mocks that only look at a prefix",
  [APP, CTX], [("loop over subsystems on entry of starting", APP+": configureAppStateMachine"), ("reverse iteration on entry of stopping", APP+": configureAppStateMachine")],
  [("subsystems","configured subsystems", CTX+": subsystemsRef")], ["Subsystem.start/stop calls","lifecycle transitions"])
p("C18", "The blocking start returns exactly when the app is over, and normally",
  "The first start() of an app keeps its caller blocked as long as the app can still run, and returns, normally, once the app is over: for an exit-on-stop app when it has been stopped or has failed, for a restartable app when it receives stop in the stopped state. After that the app's lifecycle ends without further calls. Later start() calls of a restartable app never block. A caller that is interrupted while it waits stops waiting, has the app stopped or is refused as by stop(), and is left interrupted.",
  ["schedules","histories"], "all interleavings of the starting thread, the app thread and any threads calling stop and error; both kinds of app; any number of restart cycles",
  "tests run start() on a thread whose outcome they never look at",
  [APP], [("latch awaited by the first start", APP+": start"), ("latch released by the lifecycle", APP+": configureAppStateMachine")],
  [("appLatch","released when the app is over", APP+": appLatch")], ["return or exception of start()","lifecycle end"])
p("C19", "An app error stops the app, from any thread and in any running state",
  "When error() is called, or a subsystem throws an exception while being started or stopped, in the starting, started or stopping state, the app goes to stopped by an error event, exactly once for that error; an exit-on-stop app then ends, a restartable one can be started again or ended. The exception of a failing subsystem never escapes to or kills the handling of later lifecycle events. Errors before the first start or after the end have no effect.",
  ["schedules","fault_sequences","histories"], "error() from any thread at any point of the lifecycle, failing subsystems in any position and cycle",
  "one test calls error() once in the started state",
  [APP, HEA, LIFE], [("exception handler fires the error event", APP+": configureAppStateMachine"), ("wrapping of lifecycle actions", HEA+": execute")],
  [], ["lifecycle transitions","Subsystem calls"])
p("C20", "Firing only hands over: handling runs on the machine's own daemon thread",
  "With the default executor, fire returns without waiting for the event to be handled and no action, listener or unmapped-event handler ever runs on a thread that is firing (except the machine's own thread); all handling of one machine runs on one thread at a time, a daemon thread whose name starts with the configured thread name (or the documented default). A client blocked or a callback blocked for ever never blocks fire, stop or the observers. With a user supplied executor all handling runs on that executor and nowhere else.",
  ["schedules","configurations","histories"], "all callbacks, blocked or not, all firing threads, configured and default thread names and executors",
  "tests check the thread factory alone and that configuration getters return what was set",
  [DES, FAC, THR, APP], [("executor hand-off", DES+": processEvent"), ("named daemon thread factory", THR+": NamedDaemonThreadFactory"), ("default executor creation", FAC+": Config.getExecutor")],
  [], ["thread of every callback","progress of fire while a callback is blocked"])
p("C21", "What a machine reports about itself is what has happened",
  "isStarted is true from the successful start on and never before; isEnded is false until the machine ends; getCurrentState is null before the start and then the state the handled events lead to. The reported queue size is never negative and never counts an event that was rejected, dropped or completely handled; while no call is in progress it counts every accepted event that is not yet being handled, and it is zero once all accepted events are handled or discarded by the end. getContext always returns the context given at build time, also inside every callback.",
  ["histories","schedules"], "all histories and observation points, from inside and outside callbacks, with any backlog",
  "tests poll for queue size zero and then sleep 100 ms because size and progress are not related by any check",
  [GSM, DES, DDS], [("queue size delegation", GSM+": getEventQueueSize"), ("flags", GSM+": isStarted/isEnded")],
  [("eventQueue","accepted events not yet taken up", DES+": eventQueue")], ["isStarted, isEnded, getCurrentState, getEventQueueSize, getContext"])
p("C22", "States and events are identified by name alone",
  "Two named states are equal exactly when their names are equal, with equal hash codes, and so are two named events, whatever actions or payloads they carry. Configuring or firing with another instance of the same name therefore has the same effect as with the first instance, and different names are never confused, whatever the names are (empty, very long, with equal hash codes, differing only in case or blanks).",
  ["inputs","configurations"], "all names of states and events, all instances, all payloads and actions",
  "tests compare three fixed instances with plain names",
  [NS, NSE, TT], [("equals/hashCode on name", NS+": equals/hashCode; "+NSE+": equals/hashCode"), ("table keyed by state and event", TT+": execute")],
  [], ["which mapping an event selects"])
p("C23", "The exception-handling action routes every exception once and nothing else",
  "An action wrapped with an exception handler runs exactly once per execution with the event and machine it was given; if it throws an exception, the handler is called exactly once with that event, that machine and that exception, the exception goes no further and the remaining actions and notifications of the transition take place as if it had not been thrown. If it does not throw, the handler is not called; an exception of the handler itself, or an Error of the action, goes to the caller.",
  ["fault_sequences","inputs"], "all mixes of wrapped and plain actions, all kinds of throwables, failing handlers, nested wrapping",
  "tests cover one action that throws and one that does not, outside of any transition",
  [HEA, NS], [("try/catch around the wrapped action", HEA+": execute")], [], ["handler calls","callbacks after the failing action"])
p("C24", "The logging listener writes a faithful transcript of all transitions",
  "The logging listener writes exactly one line for every begin notification, naming the from state, the event and the to state in that order, and exactly one line for every end notification, naming the to state, in the order of the notifications and with the configured machine name when one was given. The transcript of a run is therefore the sequence of its transitions; an empty or absent name gives the documented unnamed lines.",
  ["histories","inputs"], "all sequences of notifications, names of machines, states and events (incl. names that look like log placeholders)",
  "tests compare two fixed transcripts",
  [LOG, GSM], [("logChange chooses the pattern", LOG+": logChange")], [], ["log output"])
p("C25", "Notifications go to the listener of the moment",
  "Every begin and end notification of a transition, of an event that does not transition and of the initial entry is delivered exactly once, to the listener that is set at that moment: the one most recently given to setStateMachineListener, before that the one given to the builder; to nobody if that is null. Begin and end of one transition may therefore go to different listeners. A listener that has been replaced gets no notification but one that was already under way, and the new one every notification that begins after the call has returned. Replacing the listener, at any time, from any thread and from inside any callback, has no other effect on how events are handled.",
  ["histories","schedules"], "all sequences and interleavings of setStateMachineListener with fires and the start, from clients and callbacks, any listeners including null",
  "tests set a listener once, before the start",
  [GSM, TT], [("the listener is looked up for each notification", GSM+": notifyStateMachineListener"), ("replacement", GSM+": setStateMachineListener")],
  [("stateMachineListener","the current listener", GSM+": stateMachineListener")], ["listener callbacks and their receiver"])
p("C26", "By default everything unexpected leaves exactly one line in the log",
  "Where no unexpected flow listener and no unmapped event handler are configured (in a machine built without strategy, with a default or a drop-duplicates strategy, with a Config that leaves them out), each unexpected occurrence is logged exactly once and nothing else is: an event received before the start or after the end (a warning that names the event), an event that is not mapped for the current state (naming event and state), an exception that ends the handling of an event or a fire that a full queue refuses (an error that names event, state and thread and carries the exception), an event dropped as a duplicate (naming it), and an Error that ends the handling thread of the default executor (an error that names the thread and carries it). It does not matter how often the same thing has happened before, on which thread, or what else goes on.",
  ["histories","fault_sequences","schedules"], "all histories with unexpected events, failures and drops, on machines with default handlers, any threads and schedules",
  "tests install recording handlers, or mock the default ones; the default handlers' output is looked at for one occurrence each",
  [FAC, DUF, DDS, THR], [("default unmapped handler", FAC+": Config.getUnmappedEventHandler"), ("default reports", DUF), ("dropped duplicates", DDS+": processEvent"), ("uncaught errors", FAC+": Config.getExecutor; "+THR)],
  [], ["log lines: level, names in the text, throwable"])
p("C27", "The lifecycle utility sets up the documented lifecycle",
  "A machine that LifecycleStateMachineUtil.configureAppStateMachine has configured starts uninitialised and follows the documented table and nothing else: start leads from uninitialised and from stopped to starting, complete from starting to started and from stopping to stopped, stop from started to stopping and ends a stopped machine, error leads from starting, started and stopping to stopped; any other event in any state is unmapped and changes nothing. On each entry to a state made by the utility the actions it was made with run, in the order in which they were given, once each. This holds through any number of cycles, for any number of machines that are set up this way and share the utility's event constants, whether started with start() or in a given state.",
  ["configurations","histories","schedules"], "all sequences and interleavings of lifecycle and other events, all start states, numbers of actions, several machines",
  "one test walks once through the lifecycle, with a recorded sequence",
  [LIFE, GSM, TT, NS], [("the table", LIFE+": configureAppStateMachine"), ("states with actions", LIFE+": newState")],
  [], ["listener callbacks","actions","getCurrentState"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
