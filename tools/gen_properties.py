"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, pathlib

S = "src/frequenz/channels/"
ANY, BC, RC, SEL, MG, EV, FW, TM, SN, EX = (
    S + "_anycast.py", S + "_broadcast.py", S + "_receiver.py", S + "_select.py", S + "_merge.py",
    S + "event.py", S + "file_watcher.py", S + "timer.py", S + "_sender.py", S + "_exceptions.py",
)
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "Anycast: every sent message reaches exactly one receiver, in order",
     "Every message whose send() on an anycast channel completed is received by exactly one of the channel's "
     "receivers: never lost, duplicated, altered or invented, whatever its value (None and other falsy or "
     "equal-comparing objects included). A message whose send completed before another send started is never "
     "received after it by receivers that keep receiving (first in, first out). Messages never cross over to another channel.",
     ["schedules", "inputs"],
     "All task interleavings of 1-3 senders and 1-3 receivers (receive(), async iteration and ready()+consume(), "
     "also several tasks using the same receiver) on channels of any limit >= 1.",
     "The tests check sums of integers on one default FIFO schedule with 5 senders and 5 receivers, and one blocked "
     "sender; the guarantee is over every interleaving of sends, receives and wakeups.",
     [ANY], [("shared bounded deque, claim on ready(), hand out on consume()", ANY)],
     [("channel buffer", "messages accepted but not claimed by a receiver", ANY),
      ("receiver's claimed message", "message claimed by ready() and not consumed yet", ANY)],
     ["return of send()", "return of receive()/consume()"])

prop("C02", "Anycast: bounded buffer with exact back-pressure",
     "An anycast channel never holds more than `limit` accepted messages that no receiver has taken. A send() waits "
     "if and only if the buffer is full: with free space it completes without needing any receiver to act, and with a full "
     "buffer it does not complete before a receiver takes a message. `limit` reports the configured size.",
     ["schedules", "configurations"],
     "All interleavings of senders and receivers, for every limit.",
     "One test fills a limit-10 channel with a single sender; concurrent blocked senders, barging senders and "
     "space freed while several senders wait are never explored.",
     [ANY], [("full check and wait on the send condition", ANY)],
     [("channel buffer", "bounded by limit", ANY)], ["completion of send()", "limit property"])

prop("C03", "Anycast: no lost wakeups, even when waiting tasks are cancelled",
     "Whenever the event loop has nothing left to run, no task waits to receive from an anycast channel that holds "
     "a message (or whose receiver already holds one), and no task waits to send on a channel that has free space. "
     "This holds for any order of sends, receives, close and cancellations of waiting sends, receives and ready() calls.",
     ["schedules", "histories", "fault_sequences"],
     "All interleavings with cancellation (task.cancel or timeout) of any waiting operation at any point, including "
     "between its wakeup and its resumption.",
     "Tests cancel at most one waiter at a time via a long wait_for timeout; the dangerous window, a waiter that was "
     "notified and is cancelled before it runs, needs a specific schedule.",
     [ANY], [("notify one sender per taken message, one receiver per sent message", ANY)],
     [("waiters", "tasks waiting in the two conditions", ANY)], ["blocked tasks at quiescence"])

prop("C04", "Anycast: send and receive are all-or-nothing under cancellation",
     "A send() on an anycast channel that fails or is cancelled delivers nothing, ever, and a cancelled operation ends with the cancellation. Cancelling a pending receive(), "
     "iteration or ready() never loses, duplicates or reorders messages: a message it had already taken is returned by "
     "the next receive from the same receiver and all others stay available.",
     ["schedules", "fault_sequences"],
     "Every cancellation point of every pending operation, in every interleaving of small sender/receiver programs.",
     "Tests only time out operations that nothing is racing with.",
     [ANY], [("message parked in the receiver between ready() and consume()", ANY)],
     [("receiver's claimed message", "survives the cancellation of the task that claimed it", ANY)],
     ["outcome of cancelled tasks", "later receives"])

prop("C05", "Anycast: close stops senders at once and receivers after draining",
     "Once an anycast channel is closed, every send() - new, or still blocked on the full buffer - fails with SenderError "
     "(naming the sender, caused by ChannelClosedError naming the channel) and no message is accepted any more. "
     "Receivers first get every accepted message and only then, and from then on always, ReceiverStoppedError caused by "
     "ChannelClosedError (or end of iteration), and receivers and senders already waiting are woken up.",
     ["schedules", "histories"],
     "close() at every point of every interleaving of senders and receivers, full and empty buffers, several closes.",
     "Tests close only when nobody is blocked and no send is in flight.",
     [ANY, EX], [("closed flag checked by send() and ready(), notify_all in close()", ANY)],
     [("closed", "channel closed", ANY)], ["send() outcome", "receive() outcome", "is_closed"])

prop("C06", "Broadcast: every receiver gets every message once, all in one order",
     "Each receiver of a broadcast channel that has not overflowed gets every message sent after its creation exactly once, "
     "in the order of sending, the same order for all receivers, whatever the message values (None and falsy included). "
     "Messages sent before its creation are not delivered to it (unless resend_latest applies). Creating or "
     "dropping receivers, or consuming from one, never disturbs the others, and messages never cross channels.",
     ["schedules", "histories"],
     "All interleavings of 1-3 senders and 1-3 receivers created, consumed and dropped at any time.",
     "Tests sum integers under one schedule and drop one receiver once.",
     [BC], [("per-receiver queue filled synchronously by send()", BC)],
     [("receivers registry", "weak references to live receivers", BC)], ["receive() results"])

prop("C07", "Broadcast: overflow drops the oldest, only in the slow receiver",
     "A broadcast receiver with limit N that falls behind keeps exactly the N most recent messages and hands them out "
     "oldest first; nothing else is dropped and no other receiver is affected. send() never waits for receivers. "
     "len(receiver) is always the number of messages it will still hand out.",
     ["histories", "configurations"],
     "All operation sequences of sends and consumptions over receivers with different limits.",
     "One test overflows one small receiver in a fixed pattern.",
     [BC], [("bounded per-receiver deque, popleft on overflow", BC)],
     [("receiver queue", "most recent undelivered messages", BC)], ["receive() results", "len(receiver)"])

prop("C08", "Broadcast: resend_latest gives new receivers exactly the last message",
     "With resend_latest on, a new receiver of an open broadcast channel first gets the most recently sent message, if any "
     "was ever sent, whatever its value (None included), and then all later messages, each once. With it off (or before "
     "the first send, or after close) a new receiver starts empty. Toggling the attribute affects receivers created afterwards only.",
     ["histories", "inputs"],
     "All sequences of send, new receiver, toggle and close over a small message alphabet that includes None.",
     "Two tests check one integer history each.",
     [BC], [("latest message remembered by send(), enqueued by new_receiver()", BC)],
     [("latest", "most recently sent message", BC)], ["first message of a new receiver"])

prop("C09", "Broadcast: close drains then stops; no receiver waits in vain",
     "After close() of a broadcast channel every send() fails with SenderError caused by ChannelClosedError, and each "
     "receiver (also one created later, or already waiting) hands out its buffered messages and only then always stops with "
     "ReceiverStoppedError caused by ChannelClosedError. Whenever the event loop is idle, no task waits to receive from a "
     "broadcast receiver that has a message or whose channel is closed, and cancelling a waiting receive loses no message.",
     ["schedules", "fault_sequences"],
     "close() and cancellations at every point of every interleaving.",
     "Tests close an idle channel.",
     [BC, EX], [("closed flag, notify_all", BC)],
     [("closed", "channel closed", BC)], ["send()/receive() outcomes"])

prop("C10", "All receivers obey one ready/consume/receive/iterate protocol",
     "For every kind of receiver: ready() never takes a message by itself and never raises, and once it returned it keeps "
     "returning immediately until a consume(); consume() after it returns the next message or raises the stop error. "
     "receive(), async iteration and ready()+consume() are interchangeable and hand out the same sequence. When stopped, "
     "ready() returns False, receive() raises ReceiverStoppedError whose `receiver` is the object it was called on, iteration ends, and this never changes back by itself.",
     ["histories", "inputs"],
     "All short sequences of receiver operations mixed with source events, for anycast, broadcast, mapped, merged, event, timer and file watcher receivers.",
     "Tests use receive() or iteration on a fixed history; mixed use and the stopped state of each kind are mostly untested.",
     [RC, ANY, BC, MG, EV, TM, FW], [("Receiver.__anext__ / receive built on ready()+consume()", RC)],
     [], ["results of ready(), consume(), receive(), anext()"])

prop("C11", "map(): applied once per message, in order, transparent otherwise",
     "receiver.map(f) hands out f(m) for exactly the messages m the source receiver would have handed out, in the same order, "
     "calling f exactly once per handed-out message and only when it is handed out. If f raises, the error reaches the "
     "consumer of that message only and later messages still arrive. Stopping, waiting and cancellation behave as on the source, and maps compose.",
     ["histories", "inputs", "schedules"],
     "All short histories over anycast and broadcast sources with functions that return falsy values or raise.",
     "Two tests map two integers.",
     [RC], [("_Mapper.consume applies the function", RC)], [], ["results of receive() on the mapped receiver", "calls of f"])

prop("C12", "merge(): delivers every source message exactly once, per-source order",
     "A merged receiver hands out every message of every source exactly once, in order per source, as soon as any source has one, "
     "also when several sources are ready at once, when tasks share the merged receiver, and when pending receives are cancelled. "
     "It never waits while a source has a message, and a source that stopped or is idle does not hold back the others.",
     ["schedules", "fault_sequences"],
     "All interleavings of 2-3 sources, their senders, closing and one or two consumers, with cancellations, and every order in which simultaneously ready sources are processed.",
     "One test merges two channels on one schedule.",
     [MG], [("one pending anext task per source, results queue", MG)],
     [("pending tasks", "one per live source", MG), ("results", "messages taken from sources and not consumed yet", MG)],
     ["results of receive() on the merger"])

prop("C13", "merge(): stops when all sources stop or on stop(); errors are isolated",
     "A merged receiver stops exactly when all its sources stopped and their messages were handed out, or after stop(); it then "
     "stays stopped, pending receives end with ReceiverStoppedError (never with a cancellation), and no background task of it (other than those of mergers it merges) is left. "
     "If a source fails with another error, that error is raised to the consumer once, from consuming and not from ready(), "
     "without losing messages of any source. merge() of nothing raises ValueError.",
     ["schedules", "fault_sequences"],
     "stop(), source stops and source errors at every point of every interleaving.",
     "No test calls stop() while someone is receiving, nor has a failing source.",
     [MG], [("task per source dropped on StopAsyncIteration, stop() cancels", MG)],
     [("pending tasks", "one per live source", MG)], ["outcomes of receive()", "tasks left in the loop"])

prop("C14", "select(): yields every message once, from the right receiver, in order",
     "A select() loop yields every message of every selected receiver exactly once, in order per receiver, with selected_from() true "
     "for exactly the receiver it came from and `message` being that message, for as long as that Selected exists. Loops that run at the same time do not affect each other. It never waits while a selected receiver "
     "has a message, and messages that become ready simultaneously are all yielded, in any order.",
     ["schedules"],
     "All interleavings of 2-3 receivers of mixed kinds, their event sources, and a loop body that awaits or acts on the other receivers; all orders of simultaneously ready receivers.",
     "Tests drive three Event receivers on a timed sequence.",
     [SEL], [("one ready() task per receiver, consumed right before yielding", SEL)],
     [("pending", "ready() tasks", SEL)], ["yielded Selected objects"])

prop("C15", "select(): reports every stop exactly once and ends when all stopped",
     "Every selected receiver that stops is reported exactly once, after all its messages, by a Selected with was_stopped true and a "
     "ReceiverStoppedError as exception, whatever the kind of receiver; a stopped receiver is never selected again. The loop "
     "ends exactly when all receivers have been reported stopped, and leaves no tasks behind. Selecting nothing ends at once.",
     ["schedules", "histories"],
     "All interleavings of messages and stops over mixed receiver kinds, including a message and the stop arriving together and receivers already stopped at the start.",
     "Tests stop Event receivers one at a time with nothing pending.",
     [SEL, EV, FW, TM, MG], [("ready() result decides whether the receiver is waited on again", SEL)],
     [("pending", "ready() tasks", SEL)], ["yielded Selected objects", "end of iteration"])

prop("C16", "select(): leaving early loses no message and leaks no task",
     "When a select() loop is left early - break, return, an exception in the body, or cancellation of the task - every message not "
     "yet yielded stays available exactly once, in order, to later receives or a new select() over the same receivers, even one "
     "started immediately. No task of the abandoned loop survives and no receiver is stopped by it; a cancellation of the task is never swallowed.",
     ["schedules", "fault_sequences"],
     "Leaving at every iteration and point, with messages arriving before, during and after the cleanup, for all in-memory receiver kinds.",
     "Tests break out of loops over Event receivers only while nothing is in flight.",
     [SEL, ANY, BC, MG, EV, TM], [("finally clause cancels pending ready() tasks", SEL)],
     [("pending", "ready() tasks of the abandoned loop", SEL)], ["messages received afterwards", "tasks left"])

prop("C17", "select(): unhandled selections and receiver failures are always raised",
     "If a loop iteration finishes without selected_from() having been true for the selected receiver, the loop raises "
     "UnhandledSelectedError carrying that Selected; if it was, it never does. An error raised by a receiver when consuming is reported through "
     "that Selected (exception, and re-raised by message) and the loop goes on with all receivers; an error raised by ready() ends the loop with SelectError caused by it. Cleanup happens in all cases, and errors that receivers raise during it reach whoever ends the loop, in a BaseExceptionGroup.",
     ["histories", "inputs"],
     "All short patterns of which selections are handled, by which calls, and which receivers fail how.",
     "One test misses one receiver; SelectError is untested.",
     [SEL], [("handled flag set by selected_from", SEL)], [("handled flag", "per Selected", SEL)], ["exceptions raised by the loop"])

prop("C18", "select() and merge() are fair: no ready receiver starves",
     "However busy the other receivers are, a receiver that has a message waiting is yielded by select(), and its message "
     "handed out by merge(), after at most a bounded number (one round of the other receivers, plus those already taken) of messages "
     "from the others.",
     ["schedules", "configurations"],
     "All positions and processing orders of 2-4 receivers of which some are always ready.",
     "No test has a receiver that is always ready.",
     [SEL, MG], [("all done tasks of a round are handled before waiting again", SEL)], [], ["order of yielded messages"])

prop("C19", "Event: set() is never lost, coalesces, and is consumed once",
     "After set(), the event receiver is ready until consumed exactly once; several set() calls before that count as one, and a set() "
     "after the consumption makes it ready again. Tasks waiting when set() or stop() is called are woken. After stop() a pending set "
     "is still handed out once and then the receiver stops for good, including for tasks that wait on it; is_set and is_stopped always tell the current state.",
     ["schedules", "histories"],
     "All interleavings of set, stop, ready, consume, receive and cancellation by 2-3 tasks.",
     "One linear test.",
     [EV], [("asyncio.Event plus is_set / is_stopped flags", EV)],
     [("is_set", "pending event", EV), ("is_stopped", "stopped", EV)], ["receive() results", "is_set", "is_stopped"])

prop("C20", "Timer: ticks are never early and follow the missed-tick policy exactly",
     "A running timer's ticks fire never before their scheduled time, immediately once awaited at or after it, and report as drift exactly the "
     "microseconds between scheduled and actual time. After a tick scheduled at s that fired at t, the next one is scheduled at s+interval (TriggerAllMissed), "
     "at the first multiple of the interval from s after t (SkipMissedAndResync), at t+interval if t-s exceeds the delay tolerance else s+interval (SkipMissedAndDrift), or "
     "wherever a custom policy, given these three values, says.",
     ["histories", "inputs"],
     "Every history of delays, waits and consumptions up to a depth, for each policy and several intervals and tolerances, at microsecond granularity.",
     "Policy functions are tested in isolation and the closed loop on one history each.",
     [TM], [("ready() computes drift and asks the policy for the next tick", TM)],
     [("next tick time", "schedule", TM), ("current drift", "tick fired and not consumed", TM)], ["drift values", "loop time at each tick"])

prop("C21", "Timer: reset and stop take effect at once, in every state",
     "reset(start_delay) in any state (never started, running, stopped, tick pending, someone waiting) restarts the timer so that its next tick is scheduled "
     "start_delay+interval from that moment, earlier ticks not yet handed out are discarded, and tasks already waiting get that tick on time. stop() makes "
     "waiting and later receives end with ReceiverStoppedError (a tick that had already fired may be handed out first) until reset; a timer created with auto_start=False "
     "starts at reset or first use. is_running tells the state, and invalid intervals or delays raise ValueError.",
     ["histories", "schedules"],
     "Every sequence of reset, stop, receive, ready, consume and delays up to a depth, including reset and stop while another task waits.",
     "Tests reset once while waiting (later) and never stop a waiting timer.",
     [TM], [("reset()/stop() rewrite the schedule", TM)],
     [("stopped flag", "", TM), ("next tick time", "schedule", TM)], ["drift values", "is_running", "outcome of receive()"])

prop("C22", "FileWatcher: every matching change is reported once, then the stop",
     "A file watcher hands out exactly one Event for every file change reported by the operating system watch whose type is among its event types, with that type and path, "
     "none for other types, batch after batch, and all changes of a batch before any of the next. All configured paths are watched. When the watch ends, pending "
     "changes are handed out first, then the receiver stops: ready() returns False and receiving raises ReceiverStoppedError.",
     ["histories", "configurations"],
     "All sequences of change batches over a small set of paths and types, all subsets of event types, with the consumer running ahead or behind and the watch ending at any point.",
     "A mock yields three single changes; two integration tests use a real directory.",
     [FW], [("awatch generator with a filter, changes set drained by consume()", FW)],
     [("changes", "changes reported and not consumed", FW)], ["Events received"])

prop("C23", "Receives can be cancelled and retried on any receiver without loss",
     "For every kind of receiver, cancelling or timing out a pending receive(), iteration step or ready() at any point leaves the receiver usable: "
     "a retry hands out the same sequence of messages, each exactly once, as if the cancelled attempt had never been made, and the receiver is not stopped by it. The cancelled attempt itself ends with the cancellation.",
     ["schedules", "fault_sequences"],
     "Cancellation at every point of the wait, racing with the arrival of messages, for event, timer, broadcast, anycast, mapped, merged, nested and file watcher receivers.",
     "Only anycast is timed out in tests, when idle.",
     [RC, ANY, BC, MG, EV, TM, FW], [("state kept in the receiver, not in the waiting task", RC)],
     [], ["messages received after the cancellation"])

prop("C24", "Pipelines of map, merge and select deliver end to end",
     "Any composition of channels, map(), merge() and select() - merged maps, mapped mergers, mergers of mergers, a merger in a select, a channel forwarded into another - "
     "delivers every message exactly once, in order per path, and once all source channels are closed the whole pipeline drains and stops by itself.",
     ["schedules", "configurations", "programs"],
     "All interleavings of small pipelines, all orders of closing.",
     "Compositions are only exercised by the README example.",
     [MG, SEL, RC, ANY, BC], [("every combinator is itself a Receiver", RC)], [], ["end-to-end message sequences"])

prop("C25", "Failures always surface as documented errors with sender, receiver, cause",
     "Using a closed channel or stopped receiver only ever raises this library's documented exceptions, all of which are Errors: SenderError with the failing sender, "
     "ReceiverStoppedError (from receive(), naming the receiver it was called on), and ChannelClosedError with the channel among the causes when a closed channel is the reason, through receive(), consume(), map and select alike. "
     "Async iteration never raises them but ends, and the cause stays available from a later receive(). No operation in documented use fails with an internal assertion.",
     ["histories"],
     "All short operation histories ending in a failure, for all senders and receivers.",
     "Causes are checked in three tests, for anycast and broadcast receive().",
     [EX, RC, SN, ANY, BC, SEL], [("raise ... from ChannelClosedError", ANY)], [], ["exceptions and their attributes"])

prop("C26", "Looking at an object is safe, truthful and changes nothing",
     "str(), repr(), hash(), ==, len() and the public properties (name, limit, is_closed, resend_latest, is_set, is_stopped, is_running, interval, event_types, exception, was_stopped, message...) "
     "of every channel, sender, receiver, merger, event, timer, file watcher, Selected and error can be used at any moment, also while tasks wait, after a close, a stop or a cancellation: they do not "
     "raise (except Selected.message, which raises the receiver's error), what was given at creation is shown, is_closed is true exactly after close(), and nothing else happens differently because somebody looked: no message, "
     "wake-up, tick, error or selection is lost, taken, marked as handled or kept alive.",
     ["histories", "schedules"],
     "Looking before every step of every interleaving of the programs of the other properties; each execution compared with the same one without looking.",
     "Only the str() and repr() of objects that were just created are tested.",
     [RC, ANY, BC, MG, SEL, EV, TM, FW, EX], [("__str__, __repr__, __len__ and properties of each class", RC)], [], ["texts and values of properties", "histories"])

prop("C27", "Nothing accumulates in long runs, dropped objects are released",
     "However often a cycle of operations is repeated - sends, receives, receives that time out or are cancelled, select() loops left early, mergers that are stopped, receivers, senders and mapped receivers that are created, "
     "used and dropped, errors, waits, resets - the library's objects, tasks, futures, timers, messages and buffers do not become more and more (beyond the limits of the buffers), "
     "a dropped receiver is forgotten by its channel at the next send at the latest, and once the application has dropped everything no task, object or message of it is left.",
     ["histories"],
     "All cycles of up to 3 (4) operations on every kind of receiver and combinator, each repeated for 48 rounds, with a census of what is alive.",
     "No test repeats an operation or looks at what is alive.",
     [RC, ANY, BC, MG, SEL, EV, TM, FW], [("weak references to receivers, pruned by send()", BC), ("pending tasks cancelled in finally", SEL), ("__del__ and stop()", MG)],
     [], ["number of live objects and tasks"])

prop("C28", "Programs can be shut down at any moment",
     "Whatever receivers, senders, timers, events, file watchers, mergers and select() loops are doing, a program that uses them can be shut down the way asyncio programs are: when all its tasks are cancelled (asyncio.run() ending, Ctrl-C) "
     "every task ends at once, without waiting for messages or time and without another cancellation; operations in progress end with CancelledError; neither tasks nor async generators of the library report other errors than those of the application's own "
     "receivers; and if the loop is closed as things are, dropping the library's objects raises nothing in their finalizers.",
     ["schedules", "crash_points"],
     "Programs of all other properties shut down before every step, in three ways.",
     "Tests end their programs in tidy states only.",
     [RC, ANY, BC, MG, SEL, EV, TM, FW], [("__del__", MG), ("__del__", FW), ("waits that clean up when cancelled", ANY), ("_stop_pending_tasks()", SEL), ("_sleep()", TM)],
     [], ["tasks that are left", "errors reported to the event loop", "errors in finalizers"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
