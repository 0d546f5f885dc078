#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from spec_base import *  # noqa

CLAIMED = [
prop("C01", "Every active subscriber of a feed receives every value once, in one order",
     "A value sent on a feed is delivered exactly once to every channel that stays subscribed during the whole send, to no channel more than "
     "once, and to none whose subscription was made after the send returned or was cancelled before it began; the send reports exactly the "
     "number of channels that received it. All subscribers see values in one common order that agrees with the real-time order of the sends. "
     "Feeds, typed or not, are safe for concurrent use from their zero value on, without data races.",
     [S, P, H], "every interleaving of concurrent senders, receivers (buffered and not, slow, stalled), subscribe and unsubscribe calls, for "
     "dynamically and statically typed feeds, and several feeds sharing channels",
     "The event package's Feed tests are not among the reliable baseline (they fail on the base commit) and sample a handful of schedules; the "
     "claim is over every interleaving of the select-based send loop with membership changes.",
     ["event/feed.go", "event/feedof.go"],
     [("send lock and inbox: new subscriptions join between sends", "event/feed.go Send/Subscribe"),
      ("non-blocking pass, then select over the remaining channels", "event/feed.go Send"),
      ("removal while a send is in progress", "event/feed.go remove, caseList.delete/deactivate")],
     "A global happens-before log of every send, receive, subscribe and cancel is checked against the delivery rules, the reported counts and "
     "for a common order (acyclicity of the union of the observed orders and real time).",
     state=[("sendCases/inbox", "current and pending subscriptions", "event/feed.go Feed")],
     observe=["Subscribe/Send/Unsubscribe calls and the subscribed channels"]),
prop("C02", "Feed membership changes and misuse never wedge or corrupt a feed",
     "Subscribing and cancelling a feed subscription finish even while sends are in progress or blocked on that very subscriber, and a send "
     "finishes once each remaining subscriber reads or is cancelled. After a cancel has returned the error channel is closed, nothing more "
     "is delivered, and repeated or concurrent cancels are harmless. A call with a wrong channel or value type is refused by a panic and "
     "leaves the feed usable for everybody else.",
     [S, P, H, I], "every interleaving of senders, subscribers that stop reading and cancel, repeated and concurrent cancels, nil values of "
     "interface type and calls with wrong types",
     "Existing tests run a few fixed sequences; a lock left held or a lost removal shows only in particular interleavings of cancel and send.",
     ["event/feed.go", "event/feedof.go"],
     [("removal handed to the sender that holds the send lock", "event/feed.go remove/Send removeSub"),
      ("once-only cancellation", "event/feed.go feedSub.errOnce"), ("type check under the send lock", "event/feed.go Send/typecheck")],
     "Runs end in quiescence of the simulated scheduler: a sender, subscriber or cancel that is blocked with nothing left to run is a violation "
     "with its stack."),
prop("C03", "Events reach exactly the subscriptions of their type, once and in order",
     "A posted event is delivered exactly once to every subscription that covers its type and exists during the whole post, never to one that "
     "does not cover the type, was made after the post returned, or had ended before it began. Every delivered event carries a time taken "
     "during its post, no subscription receives an event stamped before the subscription was requested, and events posted one after another "
     "arrive in that order. A request naming a type twice is refused by a panic and changes nothing, and the multiplexer is safe for concurrent use without data races.",
     [S, P, H], "every interleaving of posters, readers, new subscriptions and cancellations over several types and overlapping type sets",
     "Tests post a few events from one goroutine; routing tables are replaced copy-on-write while posts run, which only schedules exercise.",
     ["event/event.go"],
     [("copy-on-write lists per type", "event/event.go Subscribe/del/posdelete"), ("delivery under a read lock per subscription", "event/event.go deliver"),
      ("staleness filter on creation time", "event/event.go deliver")],
     "History check of all posts, deliveries, subscriptions and cancels against a routing model, on simulated time."),
prop("C04", "Stopping a multiplexer or a subscription ends it cleanly and completely",
     "Once a multiplexer has been stopped, posting reports that it is stopped, every subscription is closed and its channel ends, and "
     "subscriptions requested afterwards are closed from the start. Cancelling or stopping never leaves a poster blocked on an ended "
     "subscription, never delivers on an ended one, and repeated or concurrent calls neither crash nor block.",
     [S, H], "every interleaving of stop, cancel, subscribe and post, including stop during a blocked delivery",
     "A stop racing a blocked delivery or a subscribe is one interleaving in many; the tests check two fixed sequences.",
     ["event/event.go"],
     [("closing handshake between closer and deliverer", "event/event.go closewait"), ("stopped flag", "event/event.go Stop/Subscribe/Post")],
     "As C03 with stop and cancel at any point; blocked posters at quiescence and use of closed channels are violations."),
prop("C05", "A producer subscription reports its error and waits for its producer",
     "A subscription made from a producer function runs it exactly once; the cancel call that stops it tells the producer to stop and returns "
     "only after it has finished, and nothing else ever tells the producer to stop. The error channel produces the producer's error at most "
     "once, always when the producer failed before anybody cancelled, and is closed after the producer ended or was cancelled.",
     [S, P, H], "every interleaving of producer progress, error, and one or several cancels at any time, before, while and after it returns",
     "Existing tests fix the timing with sleeps; the claim covers the window between the producer's return and the cancel.",
     ["event/subscription.go"],
     [("mutex-guarded hand-over of the result", "event/subscription.go NewSubscription"), ("cancel waits on the error channel", "event/subscription.go funSub.Unsubscribe")],
     "Reference check over the recorded history of the producer, the error channel and all cancels."),
prop("C06", "Resubscription keeps exactly one subscription alive until told to stop",
     "A resubscribing subscription always establishes a new underlying subscription after the previous one failed, however often it fails, "
     "never starts an attempt while another attempt or subscription is active, and never after it has ended. It passes every attempt the error of "
     "the last failed subscription and a context that is live until cancelled. It ends by itself only when the underlying subscription ends without an error.",
     [S, F, H], "every sequence of failing attempts, failing subscriptions, regular ends, slow attempts and stalls",
     "The tests cover two failure scripts; the guarantee is over all failure sequences and timings.",
     ["event/subscription.go"],
     [("resubscribe loop", "event/subscription.go loop"), ("attempt with cancellable context", "event/subscription.go subscribe"), ("error watching", "event/subscription.go waitForError")],
     "History check of attempts, subscriptions and ends over simulated time."),
prop("C07", "Cancelling a resubscription is prompt, final and leaks nothing",
     "Cancelling a resubscribing subscription returns - at once when it is waiting between attempts, and otherwise as soon as a "
     "running attempt returns - and after it nothing is attempted and every underlying subscription that was ever established has been cancelled or had ended. "
     "The context of a running attempt is cancelled, the error channel is closed, and repeated or concurrent cancels, also after it ended by itself, return too.",
     [S, F, H], "every point at which the cancel can fall: during an attempt, in the back-off wait, while active, while an error arrives, after the end",
     "The leak and the deadlock fixed here lived in windows a test hits only by luck.",
     ["event/subscription.go"],
     [("cancel channel and error channel", "event/subscription.go Unsubscribe/loop"), ("cancel during an attempt", "event/subscription.go subscribe")],
     "As C06 with cancels at any point; leaked subscriptions, late attempts and blocked cancels are violations."),
prop("C08", "Resubscription backs off: bounded, growing, reset after success",
     "After a failed attempt the next one starts after a positive delay that never exceeds the configured maximum, does not shrink and keeps growing towards "
     "the maximum while attempts fail quickly. It starts small again after a subscription that lasted.",
     [S, F, CF], "every configured maximum and every sequence of quick and slow failures, on exact simulated time",
     "The delays are wall-clock effects; the tests check one script with tolerance.",
     ["event/subscription.go"],
     [("doubling with a cap, reset after a long attempt", "event/subscription.go backoffWait")],
     "Delays between attempts measured on the simulated clock against the stated bounds; a fixed schedule of delays is not required."),
prop("C09", "A subscription scope cancels everything it tracks, exactly once, and counts it",
     "Closing a scope cancels every subscription tracked by it and ends their error channels; from then on the scope tracks nothing and refuses new "
     "subscriptions without touching them. Cancelling one tracked subscription cancels exactly that one, the reported count is always a number of "
     "subscriptions tracked at some moment of the call, and all of it is safe for concurrent use, repeated calls included, without data races.",
     [S, P, H], "every interleaving of track, cancel, close and count calls, including cancels of a subscription while its scope closes",
     "The scope tests are sequential.",
     ["event/subscription.go"],
     [("map guarded by a mutex, closed flag", "event/subscription.go SubscriptionScope"), ("wrapper removing itself", "event/subscription.go scopeSub.Unsubscribe")],
     "History check with interval bounds for counts and cancel accounting for each subscription."),
prop("C10", "The simulated clock fires each timer exactly once, on time and in order",
     "Advancing the simulated clock runs each pending callback and fires each pending timer whose deadline falls in the interval, exactly once, "
     "in deadline order and none early, the channel of a timer carrying its deadline; afterwards the clock shows exactly the sum of the advances. "
     "Stopping a timer succeeds exactly if it had not fired, and then it never fires until reset. Waiting for a number of timers and the count of active timers agree with the timers that exist, and all of it is safe for concurrent use.",
     [S, P, H], "every program of timers, resets, stops, sleeps, nested callbacks and advances, sequential and concurrent",
     "The clock's tests check a few scripts; heap index maintenance and nested scheduling depend on the whole history.",
     ["common/mclock/simclock.go"],
     [("indexed timer heap", "common/mclock/simclock.go simTimerHeap"), ("advance loop", "common/mclock/simclock.go Run"), ("condition variable for waiters", "common/mclock/simclock.go WaitForTimers")],
     "Model-based: sequential programs against an exact reference clock (deadlines, order, values, counts), concurrent ones against interval bounds.",
     state=[("scheduled", "pending timers by deadline", "common/mclock/simclock.go Simulated")]),
prop("C11", "System clock timers never fire early and the monotonic clock ignores wall jumps",
     "Timers, callbacks, sleeps and channels of the system clock never fire before their delay has passed, fire exactly once per setting unless stopped, and deliver a monotonic time at or after the deadline and not in the future. "
     "A stop that succeeds means the timer does not fire, one that fails means it has expired. The monotonic clock never goes back and never jumps, whatever happens to the wall clock.",
     [S, F, H], "every interleaving of setting, stopping, resetting and receiving, slow goroutines, and wall-clock jumps in both directions",
     "Real clocks give a test neither jumps nor exact deadlines.",
     ["common/mclock/mclock.go", "common/mclock/mclock.s"],
     [("monotonic source", "common/mclock/mclock.go Now"), ("runtime timers", "common/mclock/mclock.go System"), ("timer channel carrying monotonic time", "common/mclock/mclock.go systemTimer")],
     "Runs on the simulator's clock with injected wall-clock jumps; deadlines compared exactly."),
prop("C12", "An alarm notifies by its latest setting, never early and never lost",
     "An alarm set to a time delivers a notification once that time has come and none before the earliest time asked for since the last notification; setting it again, earlier or later, "
     "or in the past, while it is pending or after it fired, never loses the notification for the last setting. After stopping an idle alarm nothing is delivered and no timer is left, and it can be set again.",
     [S, H], "every sequence of settings, stops, advances and receives, on the simulated clock exactly and on the system clock with concurrent firing",
     "The one alarm test runs a fixed script; re-setting around the moment of firing is a race.",
     ["common/mclock/alarm.go"],
     [("deadline and timer reuse", "common/mclock/alarm.go schedule"), ("one-slot notification channel", "common/mclock/alarm.go send")],
     "Sequential programs against a reference with exact times; concurrent ones on the simulated system clock."),
prop("C13", "Stream and synchronised log handlers write each record once, whole and unmixed",
     "Every record logged to a stream handler is written to its stream by exactly one write, completely and as its format prescribes, never mixed with or overlapping another, and records of calls that do not overlap appear in the order of the calls. "
     "The logging call returns exactly what the write returned, a failing or panicking sink or value affects only its own record and never leaves the handler locked, and concurrent use is free of data races.",
     [S, F, I], "every interleaving of concurrent loggers with sinks that fail, write short, panic or stall, for every format, and values whose formatting panics, fails or logs itself",
     "Nothing tests the handlers concurrently; sinks in tests never fail.",
     ["log/handler.go", "log/format.go"],
     [("mutex around the wrapped handler", "log/handler.go SyncHandler"), ("one write per record", "log/handler.go StreamHandler"), ("deferred values evaluated outside the lock", "log/handler.go LazyHandler")],
     "Every write the sink sees is parsed back and matched with the logging calls (count, content, result, real-time order); the race lane runs the same schedules under the race detector."),
prop("C14", "Asynchronous log handlers deliver every record in order and wait when full",
     "A buffered handler passes every record on exactly once, unchanged, one at a time, in an order that agrees with the order of the logging calls, whatever the wrapped handler returns. "
     "While the wrapped handler is blocked, logging calls return as long as the buffer has room, then wait without dropping anything, and all is delivered when it resumes.",
     [S, F, CF], "every buffer size, number of producers, and pattern of stalls and failures of the wrapped handler",
     "Blocking and draining depend on the schedule and a stalled sink.",
     ["log/handler.go"],
     [("buffered channel and forwarding goroutine", "log/handler.go BufferedHandler/ChannelHandler")],
     "Sink gating by the simulator, exact count of calls that must return, full delivery and order after release."),
prop("C15", "Failover uses the first working handler; fan-out reaches all of them",
     "Failover passes each record to its handlers in order until one accepts it, tells the accepting handler which earlier ones failed and why, tries none after it, and returns the error of the last only if all failed; every later record starts at the first again. "
     "Fan-out passes each record once to every handler in order whatever the others return, and nested combinations behave as their parts.",
     [S, F, CF], "every combination and nesting of handlers, every sequence of failures, outages and recoveries, with concurrent loggers",
     "The log tests never make a sink fail.",
     ["log/handler.go"],
     [("failover loop with error context", "log/handler.go FailoverHandler"), ("fan-out loop", "log/handler.go MultiHandler")],
     "Interpretation of the handler tree by a reference over the sinks' recorded answers, per record."),
prop("C16", "Log filters pass exactly what the configuration in force prescribes",
     "Level, field and function filters and the verbosity handler pass a record exactly if the configuration in force at some moment of the logging call says so: global verbosity, else the first matching per-file rule, with back-traces added only at the configured location. "
     "Changing verbosity, per-file rules, back-trace location, wrapped handler or a logger's handler takes effect for every call that starts after the change returned and never loses, duplicates or misroutes a record. "
     "An invalid configuration is refused with an error and leaves the one in force unchanged; everything is safe for concurrent use without data races.",
     [S, CF, H], "every interleaving of loggers at different call sites with reconfiguration of every kind, valid and invalid",
     "Per-call-site decisions are cached; stale caches show only after particular sequences of logging and reconfiguring.",
     ["log/handler_glog.go", "log/handler.go", "log/handler_go14.go", "log/logger.go"],
     [("call-site cache reset on reconfiguration", "log/handler_glog.go Vmodule/Log"), ("atomic verbosity and override flags", "log/handler_glog.go"), ("atomic handler swap", "log/handler_go14.go")],
     "For every record the set of configurations that were in force during its call is computed from the history; the observed outcome must be that of one of them.",
     state=[("siteCache", "decision per call site", "log/handler_glog.go GlogHandler")]),
prop("C17", "A record carries its context, origin and time, and formats render it faithfully",
     "A record carries its logger's context followed by the call's own, with later changes to a caller's data, other loggers or sibling contexts never showing, and its level, message, origin and time of the call. "
     "Deferred values are evaluated once per written record, may log themselves, and a failing one is reported in place of its value. Every text format renders every key and value so that the record can be read back (a JSON object keeps the last of equal keys), a missing value or a key that is no string is reported and never crashes, and the caller's arguments are left unchanged.",
     [S, I, P], "every tree of loggers created and used concurrently, contexts of odd and even length, of every value kind, nil pointers, values whose methods panic, on wall clocks that jump",
     "The format tests cover numbers only; sharing of context arrays between loggers needs concurrent use.",
     ["log/logger.go", "log/format.go", "log/handler.go", "log/root.go"],
     [("context copied per child", "log/logger.go newContext"), ("normalisation of odd arguments", "log/logger.go normalize"), ("formats", "log/format.go"), ("deferred evaluation", "log/handler.go LazyHandler")],
     "Independent parsers for logfmt, terminal and JSON output read each written record back and compare it with what was logged."),
prop("C18", "Logging works before and while the program configures logging",
     "Logging by any logger at any time after start-up, before or while a handler is set, never crashes, blocks or fails; a record logged after a handler was set reaches exactly that handler, one logged while it is being set reaches it or goes where unconfigured logs go.",
     [S, H], "every interleaving of first log calls and configuration in a fresh process",
     "It is a property of the first moments of a process; each test binary has one of those and configures first or not at all.",
     ["log/root.go", "log/handler_go14.go"],
     [("initial root handler", "log/root.go init"), ("atomic handler swap", "log/handler_go14.go")],
     "One fresh process per run; first use and configuration race under the simulator."),
prop("C19", "A log file keeps every acknowledged record through faults and crashes",
     "Every record whose logging returned without error, and every critical record that ended the program, is completely in the log file, once, and stays there when the process crashes at any later point, restarts and logs on; the file's earlier content is never cut or overwritten. "
     "A full or failing disk is reported by the logging call, damages no other record, and once it works again so does logging; a critical record through a logger is written before the process exits with status 1. Opening either works or fails with an error and leaks no descriptor.",
     [S, C, F], "every crash point, several incarnations, short and interrupted writes, I/O errors, full disk, open failures, and two handlers on one file",
     "No test opens a log file, and none can crash between two writes.",
     ["log/handler.go", "log/root.go", "log/logger.go"],
     [("append-only open", "log/handler.go FileHandler"), ("one write per record under a lock", "log/handler.go StreamHandler"), ("write, then exit", "log/root.go Crit, log/logger.go Crit")],
     "Real os.File over a simulated disk (system-call seam in the patched std library) with injected faults and crashes; the surviving file is parsed after every incarnation."),
prop("C20", "Network and syslog handlers send every record once, whole, or report the failure",
     "A record logged to a network or syslog handler is sent once, completely and unmixed, with the severity of its level, and the logging call fails exactly if it was not sent; records are sent in the order of the calls. "
     "A connection that cannot be made is reported with no handler returned, a connection to syslog that breaks is re-established, and faults never crash the program or leave the handler locked.",
     [S, F], "every interleaving of loggers, refused connections, resets, partial and failing writes, for stream and datagram sockets and every level",
     "No test uses a network.",
     ["log/handler.go", "log/syslog.go"],
     [("lock and single write", "log/handler.go NetHandler"), ("severity mapping", "log/syslog.go sharedSyslog")],
     "Real net/log/syslog client code over simulated connections; what reached the peer is compared with what was logged."),
prop("C21", "Keys are made of exactly the entropy drawn for them, or not at all",
     "Key generation from an unreliable entropy source either fails with that source's error and no key, or yields a private key consisting of entropy bytes drawn for it alone - never padded, shared or reused, and drawn afresh where the block cannot serve - and the public key that is its multiple of the base point. "
     "Two parties' keys agree on a shared secret, points are added and doubled as their multiples say, encoding a public key and decoding it gives it back, bytes with another length or form of encoding give no key, and no use of a curve changes the curve; concurrent callers do not influence each other.",
     [S, F, I], "every pattern of short, failing, interleaved and stalled reads, entropy blocks that are degenerate, all curves, and concurrent callers sharing curve and source",
     "Tests compute fixed vectors from fixed scalars; nothing makes the entropy source fail or return short.",
     ["crypto/curve.go"],
     [("full read or error", "crypto/curve.go GenerateKey"), ("double-and-add", "crypto/curve.go ScalarMult"), ("encoding", "crypto/curve.go Marshal/Unmarshal")],
     "A device simulates the source; an independent affine implementation of the curves is the reference."),
prop("C22", "The curves are right from their very first use, by whoever comes first",
     "Whichever goroutines first ask for whichever curves, in whatever interleaving, each gets one shared instance with exactly the standard's parameters, completely set up, without data races.",
     [S], "every interleaving of first uses, one fresh process per run",
     "Once-only initialisation happens once per test binary.",
     ["crypto/curve.go"],
     [("once-only initialisation", "crypto/curve.go initAll and the accessors")],
     "Fresh process per run; parameters compared with the SEC 2 constants."),
prop("C23", "A digest depends only on the bytes written, however they arrive",
     "The digest of a byte sequence is Keccak's, however the sequence is cut into writes or delivered by slow, short-reading or interrupted sources, however often intermediate digests are taken, and after any reset; taking a digest changes neither the state nor anything in the caller's memory but the digest's own bytes, and writing never changes the data. "
     "Digests used by different goroutines do not influence each other.",
     [S, F, I], "every length, alignment and fragmentation of the input around block boundaries, all output sizes, interleaved with other digests, and faulty readers",
     "The package has no tests; block-boundary and alignment paths depend on the fragmentation.",
     ["crypto/sha3/sha3.go", "crypto/sha3/keccakf.go", "crypto/randentropy/rand_entropy.go"],
     [("buffered absorption, aligned and not", "crypto/sha3/sha3.go Write/unalignedAbsorb"), ("padding on a copy", "crypto/sha3/sha3.go Sum/finalize/squeeze"), ("permutation", "crypto/sha3/keccakf.go keccakF1600")],
     "An independent Keccak written from the specification is the reference."),
prop("C24", "Random bytes are the system's, complete, or the program refuses",
     "A request for random bytes returns exactly as many as asked, all drawn from the system's source for this request alone, or refuses loudly when the source fails; it never returns bytes that were not drawn, and never writes beyond the caller's buffer.",
     [S, F, I], "every pattern of short, failing and stalled reads of the system's source, every length, concurrent callers",
     "The system's source never fails or returns short in a test.",
     ["crypto/randentropy/rand_entropy.go"],
     [("full read or panic", "crypto/randentropy/rand_entropy.go GetEntropyCSPRNG/Read")],
     "The system source is replaced by a simulated device with injected faults; each returned byte is traced to it."),
]

from spec_more import MORE, NA  # noqa

CLAIMED += MORE


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p, _ in CLAIMED:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
        for p, _ in NA:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 tool/setup.py",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                     "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                     "technique": TECH, "level": "exploration", "level_note": note + " " + TRUST} for p, note in CLAIMED],
         "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
         "notes": "No hooks in /repo: the seams are in a patched copy of the Go runtime and standard library that the checks build "
                  "with 'go build -overlay' (see DESIGN.md). Every run rebuilds /repo's working tree; replay a finding with "
                  "'python3 check.py <id> --replay <file>'."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
