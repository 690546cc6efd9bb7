#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run by hand after edits)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, technique, note, claimed=True, reason=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, claimed=claimed, reason=reason, state=state))

ENUM = "explicit-state model checking of the real code: exhaustive enumeration of %s, run on the engine itself against a reference model"
DPOR = "stateless model checking of the real code over a modelled database: deviation-bounded exhaustive enumeration of %s"

prop("C01", "A command is all-or-nothing, whatever fails and wherever",
 "With transactions on (the default), every effect a command has on storage is committed together, exactly once, if and only if the command's logic, hooks, storage operations, event dispatch and the commit itself all succeed; in every other outcome (an error, a requested break or a panic at any point, including after an explicit mid-command save) nothing the command wrote remains and the transaction is ended exactly once. The returned result reports success if and only if the transaction was committed, reports the cause otherwise, and a panic of user code still reaches the caller after the rollback.",
 ["fault_sequences", "inputs", "programs"],
 "all command forms (function, main command, build/act command), every sequence of bounded length of repository operations and mid-command saves, and every backend call or user callback failing (error, also a well-known one bare or wrapped, break or panic) or seeing the caller's context cancelled, in turn and in pairs",
 "tests use one executor and a few hand-picked failures; the claim is about every failure point of every command shape",
 ["engine.go", "command.go", "executor/mysql/executor.go"], ["transaction wrapper around the command body", "executor Begin/Commit/RollBack", "mid-command commit flushing the snapshot"],
 ENUM % "command programs x failing call", "every backend call and callback of every bounded command is failed in turn; backends are in-memory implementations of the public interfaces, the MySQL executor over the modelled database")

prop("C02", "Command locks: all held during the body, each released exactly once",
 "Before any of a command's logic or transaction starts, a lock has been acquired for every lock key the command asked for, and all of them stay held until its transaction has ended. If any of the locks cannot be acquired, or the same key is requested twice, the command's logic does not run and an error is returned (recognisable as the locked error when the key is held elsewhere); keys are the same only if they are equal, and nothing else about them keeps a command from running. Whatever the outcome (success, error, break, panic, failed acquisition, the caller's context cancelled midway), every lock that was acquired is released exactly once before the call returns.",
 ["fault_sequences", "inputs"],
 "0..4 lock keys in every order and with repetitions, a failure of every acquisition, release, transaction step or callback in turn, success/error/break/panic outcomes, the caller's context cancelled at any call, with and without transactions",
 "tests lock one key on the success path",
 ["engine.go"], ["key sorting and duplicate check", "acquisition loop with deferred release"],
 ENUM % "lock key lists x outcome x failing call", "lock backend is a recording implementation of the public lock interface")

prop("C03", "Commands sharing a lock key never interleave; no deadlock",
 "Two commands that share at least one lock key never have their bodies or transactions in progress at the same time, so read-modify-write commands on the same aggregate lose no update. Commands needing several keys, listed in any order, never deadlock against each other: every one of them finishes, and with locks that fail instead of waiting at least one of them succeeds.",
 ["schedules", "inputs"],
 "all interleavings (up to the stated preemption bound) of 2-3 concurrent commands with overlapping key lists in every order, over blocking and try-style lock backends, over the database lock with the MySQL executor and over the redis lock, with options given per run",
 "the test suite runs commands one at a time",
 ["engine.go", "lock/db/sql.go", "executor/mysql/executor.go"], ["sorted acquisition order", "lock released only after commit"],
 DPOR % "thread interleavings of concurrent commands", "scheduling points are lock calls, executor calls and user callbacks, or SQL statements for the database lock")

prop("C04", "After a command, storage equals the aggregates it left in memory",
 "For any sequence of operations on aggregates within one command (create, load, custom load, remove, modify-and-mark, add/remove/replace children at any depth, move a child between parents, mid-command save, in any order and combined freely), a successful command leaves in storage exactly the aggregates' in-memory content: new entities inserted once with a unique non-empty ID and their parent's reference, marked entities updated, removed ones deleted, everything else untouched. Misuse (adding the same root twice, putting one new entity under two parents, removing a root that is not there) is reported as an error instead of being silently stored or dropped.",
 ["programs", "inputs", "histories"],
 "every operation sequence up to the stated length over small aggregate trees (three levels, pointer, slice and map children), in all command forms",
 "tests check a handful of fixed scenarios; interactions between loads, additions and removals in one command are not covered",
 ["engine.go", "snapshot.go", "domain.go"], ["snapshot of loaded entities and tree diff", "child move detection", "action grouping", "ID assignment"],
 ENUM % "all operation sequences up to a depth", "oracle is a ten-line reference semantics over the entity trees, storage is an in-memory executor; the same programs also run through the MySQL executor over the modelled database")

prop("C05", "Loading an aggregate returns exactly what was stored",
 "Getting a root by ID fills it, and every requested child or list of children, with exactly the stored content belonging to that ID, in any combination of child arguments (the child itself, a pointer to a nil or given child, an empty list) and for any number of stored children. A missing root is reported as not found; a missing child is no error: a child pointer is set to nil, a child given itself is left unchanged, a list stays empty, and the other children are filled all the same. Invalid arguments (nil included, a root without an ID, one the command already has) are rejected with an error and change nothing.",
 ["inputs", "programs"],
 "all bounded storage contents x all combinations of child arguments, through repository get and builder, inside and outside of saves in the same command",
 "tests load one or two fixed trees",
 ["engine.go", "executor/mysql/executor.go"], ["BuildEntity and its pointer/list child handling", "query by non-zero example fields"],
 ENUM % "stored trees x load shapes", "storage is an in-memory executor and the MySQL executor over the modelled database")

prop("C06", "Recursive delete removes exactly the persisted subtree",
 "With recursive delete on, removing an entity (a root or a child at any depth) deletes it and every stored entity below it that the command loaded or passed in, once each, and nothing outside that subtree, also when parts of the subtree were modified, moved away to a surviving parent or newly attached in the same command. With recursive delete off, only the entities actually removed are deleted.",
 ["programs", "inputs"],
 "all bounded trees x all sets of removed nodes x moves/attachments in the same command, option on and off",
 "one test deletes one two-level tree",
 ["snapshot.go", "engine.go"], ["recursive expansion of deleted entities", "tree diff"],
 ENUM % "trees x removal sets", "in-memory executor")

prop("C07", "A dry run leaves no trace outside the process",
 "A command run in dry-run mode performs no insert, update or delete on storage, dispatches no event (plain or transactional) to the bus and persists none, on every outcome, including explicit mid-command saves; its logic, validation, locks and hooks otherwise behave as in a normal run and the result reports success or the same error.",
 ["programs", "fault_sequences"],
 "every command program of the C01/C04 space run with the dry-run option, given per engine and per run",
 "one test checks one dry-run insert",
 ["engine.go"], ["dry-run guard in execution and dispatch"],
 ENUM % "command programs in dry-run mode", "recording executor and bus")

prop("C08", "Domain events: complete, once each, in order, only after persistence",
 "Every event raised during a successful command by an entity that is part of it (created, loaded, modified, moved, removed, a child removed from its parent, at any depth, before or after a mid-command save) is handed to the event bus, and to the configured event store, exactly once, in the order the events were raised, after all of the command's storage operations and before the transaction commits. A command that fails before dispatch hands over none, and if handing over or storing an event fails, the command fails and nothing is stored.",
 ["programs", "fault_sequences"],
 "all bounded command programs raising up to 4 events on any entity at any time, with plain/transactional/no bus, with and without event store, each backend call failing in turn",
 "tests count one or two events on a happy path",
 ["engine.go", "event.go", "domain.go"], ["event collection over live and removed entities", "ordering by creation time and ID", "dispatch inside the transaction"],
 ENUM % "event-raising programs x failing call", "recording bus; ID counter wrap-around excluded")

prop("C09", "Transactional events are confirmed exactly when the command commits",
 "With a bus that supports transactions, a command's transactional events are announced to it before the storage commit; after the storage transaction committed they are confirmed exactly once, after it was rolled back for an error or break they are cancelled exactly once, and when the commit itself fails they are neither confirmed nor cancelled (the bus's status check decides). Plain events of the same command take the plain path exactly once, and without bus support or without transactions all events take the plain path.",
 ["fault_sequences", "programs"],
 "all mixes of plain and transactional events x every failing call x outcome x bus kind x transaction option",
 "tests cover one success and one rollback",
 ["engine.go"], ["split of events by send type", "confirm/cancel after the transaction ended"],
 ENUM % "event mixes x failing call", "recording transactional bus")

prop("C10", "Entity hooks run exactly once, around the write, and can veto it",
 "For every entity a command creates, updates or deletes, its before-hook of that kind runs exactly once before any write of that save, and its after-hook exactly once after all of them; no hook runs for entities that are not written or for another kind of change. A hook's error makes the command fail with that error and nothing is stored; state a before-hook changes is what gets stored.",
 ["programs", "fault_sequences"],
 "all bounded programs of entity changes with hooks on every entity, each hook failing in turn",
 "tests check the success path of one entity",
 ["engine.go"], ["hook execution around persist"],
 ENUM % "programs x failing hook", "in-memory executor")

prop("C11", "Runs are isolated from each other",
 "Options, callbacks, results and entities of one command run never affect another run of the same engine, whether the runs are sequential, nested or concurrent. Every post-save callback of a command (given per engine, per run or by the command itself) is called exactly once, with that command's result, after its transaction committed and its locks were released, and never when it failed; it is never called for another run. A run does not modify its caller's arguments, such as a list of lock keys shared by several commands. A command of another engine with an executor of its own, run inside a command, reads and writes in its own transaction only, or in none.",
 ["schedules", "programs", "configurations"],
 "all interleavings within the bound of 2-3 concurrent or nested runs with different options and 0..4 engine-level callbacks",
 "needs concurrent or nested runs and particular numbers of engine-level callbacks",
 ["engine.go", "command.go"], ["per-run copy of the engine options", "post-save hooks list"],
 DPOR % "interleavings of concurrent and nested runs", "scheduling points are backend calls and callbacks")

prop("C12", "Events reach exactly the handlers registered for their type",
 "An incoming event is given to every handler registered for its type, in registration order, exactly once each, with the payload decoded into the handler's own type (or the raw event) and the bus's context, until one fails, whose error is returned to the bus; events of other types and events with no handler have no effect; a timer's callback goes the same way with its key, rule and data. A transaction status check is answered by the checker registered for that event type, and with rollback when there is none or the payload cannot be decoded.",
 ["inputs", "programs"],
 "all bounded registration sequences (handler kinds: typed, raw, command constructor, function constructor; checkers returning any convertible type) x event sequences x failing handler, through a real bus callback",
 "tests register one or two handlers of one type",
 ["event.go", "engine.go", "timer.go"], ["handler router", "checker router", "constructor adapters"],
 ENUM % "registration sequences x event sequences", "router is process-global, so each execution uses fresh type names")

prop("C13", "An update writes exactly the columns that changed",
 "Updating a marked entity through the MySQL executor makes the stored row equal to the entity's current content for every field that differs from what was loaded, including changes to zero values, pointers to and from nil, times, embedded and serialized structs, and leaves untouched every column whose value did not change, so that concurrent changes of other columns survive. (A nil embedded pointer may be stored as null or zero; columns the mapping updates by itself, such as update timestamps, are excepted.) An update that changes nothing writes nothing, and batches update, insert or delete exactly the given rows, also for composite keys; inserting a key that is taken fails and leaves the existing row as it was. An update given without the previous content writes all of it.",
 ["inputs"],
 "all pairs of values over a bounded domain for every supported field kind, alone and in pairs, and all small batches for every operation",
 "tests compare a few hand-picked pairs",
 ["executor/mysql/diff.go", "executor/mysql/executor.go"], ["model diff", "selective update", "delete by primary key, composite keys"],
 ENUM % "all (before, after) model pairs over a bounded value domain", "real gorm + MySQL dialect over the modelled database")

prop("C14", "Database lock: at most one holder per key within the lease",
 "At any time at most one client holds the lock of a key: after a successful lock, every other attempt fails with the locked error until the holder unlocks, or until the full lease since its last successful lock or renewal has passed. Different keys never block each other, a free or expired lock can be acquired, and a storage failure is reported as an error, never as success. Without the retry option a refused attempt returns at once; with it (the default) it is repeated for a while before the locked error is returned.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of statements of 2-3 clients locking, renewing and unlocking the same or different keys, within the preemption bound, with statement failures, lost acknowledgements and delays at the expiry boundary",
 "tests run sequentially against one client",
 ["lock/db/sql.go", "lock/db/po.go"], ["insert as acquisition", "conditional take-over of expired rows", "delete by owner"],
 DPOR % "SQL statement interleavings, failures and delays", "clocks of all clients are equal; the modelled database implements the unique key and row atomicity")

prop("C15", "A lock is only renewed or released by its owner; lease loss stops the job",
 "Unlocking or renewing only ever affects the lock the caller itself acquired: once it was lost or taken over, both fail with an error and the new holder's lock stays intact, and nobody can revive a released lock. A job run under the lock keeps its lease renewed while it runs; if renewal fails its context is cancelled within one renewal interval (and not as long as the lock is held, renewed and the caller does not cancel it), and however it ends (return, panic, cancelled context) the lock is released, and no background renewal remains. A lease shorter than the renewal interval is refused when the lock is made.",
 ["schedules", "fault_sequences", "histories"],
 "all statement interleavings, failures and stalls of 2-3 clients where leases expire at any point of lock/renew/unlock/run",
 "tests never let a lease expire during a run",
 ["lock/db/sql.go"], ["owner id condition on update and delete", "renewal goroutine and context cancellation"],
 DPOR % "SQL statement interleavings, failures, stalls", "virtual time; as C14")

prop("C16", "MySQL bus: a dispatch is all-or-nothing and delivered at least once",
 "If dispatching a set of events succeeds, every event of the set is eventually handled successfully by every registered service, despite any single process crash, restart, statement failure or lost acknowledgement (as long as handlers succeed); if it fails or the process dies midway, either all of the events reach all services or none reaches any, and none when the failure was reported before the commit. Every handled event carries the content that was dispatched.",
 ["crash_points", "fault_sequences", "schedules"],
 "all crash points, failing statements and failing commits (before and after taking effect), alone and in pairs, and all statement interleavings of producer and consumers within the bound, 1-3 services, sets of 1-3 events, backlogs larger than one scan",
 "tests run one process without failures",
 ["eventbus/mysql/eventbus.go", "eventbus/mysql/po.go"], ["dispatch transaction writing event and per-service rows", "polling scan of due rows", "handling inside the row's transaction"],
 DPOR % "crash points, failing statements/commits and interleavings", "two processes, one modelled database, virtual time")

prop("C17", "MySQL bus: no duplicate or overlapping handling without failures",
 "However many instances of a service poll concurrently, and however many consumers each uses, an event is never being handled by two of them at the same time, and once a handling succeeded and its transaction committed, the event is never handed to that service again. Without crashes and failures every service handles every event exactly once.",
 ["schedules", "configurations"],
 "all statement interleavings within the preemption bound of 2-3 instances and post-save triggers, consumer concurrency 1-2, handlers slow or failing first",
 "the schedules needed (two scans before either locks) do not occur in the tests",
 ["eventbus/mysql/eventbus.go"], ["row lock without waiting", "status re-check after locking"],
 DPOR % "statement interleavings of competing instances", "as C16")

prop("C18", "MySQL bus: ordered events of one sender are handled in order",
 "For events of one sender dispatched one after another with an ordered send type, no service starts handling an event before its predecessor is finished: for strict order, successfully handled or expired; for lax order, successfully handled or finally failed. A blocked event stays pending without consuming retries and is handled within a few polls once its predecessor is done; events of other senders, unordered events and other services are not delayed by it. A predecessor that the service never got, or that is older than the 24 hours the bus looks back, does not hold up the ones after it; an ordered event that names no sender is refused.",
 ["schedules", "fault_sequences"],
 "all interleavings of 1-2 instances with consumer concurrency 1-3, handler failures at any event and attempt, 2-3 ordered events per sender with equal or different timestamps, plus unrelated events",
 "tests run one instance with ordered success",
 ["eventbus/mysql/eventbus.go"], ["predecessor check under the row lock"],
 DPOR % "interleavings and handler outcomes", "all events of an ordered sender use the same ordered type; backlog within one scan")

prop("C19", "MySQL bus: retry policy is followed and failures stay contained",
 "A handler error or panic makes the event be retried exactly as the configured policy says (number of attempts and minimal spacing, for fixed-interval and custom intervals), then marks it failed and never calls it again; a success ends the attempts. A failing or panicking handler, whatever its error text, never stops or delays other events, other services or the polling itself, and never leaves its own event in a state where it is lost or retried without limit.",
 ["fault_sequences", "inputs", "schedules"],
 "all outcome sequences (ok, error, panic, over-long and multi-byte messages) of up to 5 attempts for 1-2 events, all policies in a bounded set, 1-2 instances",
 "tests use one policy with one outcome sequence",
 ["eventbus/mysql/eventbus.go"], ["retry strategies", "deferred save of the attempt's outcome"],
 DPOR % "handler outcome sequences x policies x interleavings", "attempt counts as established by the repository's own tests (limit N gives N+2 calls for the interval policy, N+1 for custom lists of length N)")

prop("C20", "Transactional events are delivered if and only if the command committed",
 "Through the whole stack (engine, MySQL executor, MySQL bus), a command's transactional events are handled by every service if its transaction committed, and by none if it did not, whatever crashes or fails in between, provided the registered status check reports the truth; while the check answers unknown it is asked again and nothing is delivered or dropped. Once decided, the pending record is gone, the check is not asked any more, and no event is delivered twice because of a re-check.",
 ["crash_points", "fault_sequences", "schedules"],
 "every crash point, failing statement and failing commit of the producing command and of the confirmation, all status answers, one or two checking instances, within the deviation bound",
 "tests cover commit, rollback and one time-out check without failures",
 ["engine.go", "eventbus/mysql/eventbus.go"], ["pending transaction record with due time", "commit/rollback after the storage transaction", "status check job"],
 DPOR % "crash points, failures, check answers and interleavings", "commands finish well within the check time-out")

prop("C21", "Cleaning removes only what every service has finished with",
 "Cleaning never removes an event or a service's pending, retrying or failed work item, nor anything younger than the retention time, whichever services clean, concurrently with dispatching and handling; so no event is lost to cleaning. Everything handled successfully by a service and older than the retention time is removed by that service's cleaning, and the event itself by the last service finished with it.",
 ["histories", "schedules", "inputs"],
 "all mixes of per-service states and ages for up to 3 events x 2 services (and uniform batches up to 25), all orders of cleaning, and statement interleavings with handling and dispatching within the bound",
 "the existing test cleans one small fixed set",
 ["eventbus/mysql/eventbus.go"], ["selection by status and age", "reference count before deleting events"],
 DPOR % "state mixes and interleavings of cleaning", "cleaning is triggered through its public schedule")

prop("C22", "Timers fire once per due time across instances, never early or after cancel",
 "The time of a one-shot timer and every scheduled time (in the program's local time) of a cron timer that does not pass while its own callback runs (or while no instance is alive, in which case the missed times count as one) triggers the callback with the registered key, schedule and payload, never before it is due (one-shot times are kept to the second), within a polling interval or two while a free instance of its service is alive, and exactly once across all instances as long as nothing crashes or fails; a failure or a crash before, during or after the callback does not lose it and repeats it at most once. Registering an existing key again, also from several instances at the same time, succeeds and changes nothing; after cancelling a timer (outside of its callback) it does not fire and can be registered anew; an invalid schedule or a past time is rejected; a callback's error or slowness does not stop other or later timers.",
 ["schedules", "crash_points", "fault_sequences", "inputs"],
 "all statement interleavings, stalls, crash points and failures within the bound of 1-3 instances of 1-2 services and clients registering, repeating and cancelling timers of either kind, slow and failing callbacks, valid and invalid schedules and times",
 "tests run instances with real time on one schedule, without cancellation, failures or crashes",
 ["d_timer/sql/timer.go", "d_timer/sql/model.go", "timer.go"], ["row lock per due job", "next time computed after the callback", "first-or-create registration"],
 DPOR % "statement interleavings, stalls, crash points and failures", "virtual time, equal clocks; keys belong to one service; MySQL model as for the bus")

prop("C23", "In-memory bus: every event once, in order; stops when told to",
 "Every event dispatched to an in-memory bus, before or after it is started, is passed to the handler exactly once, one at a time, unchanged and with the context the bus was started with, in the order of dispatch (within a call, and between calls that follow one another), whatever the handler returns and also when the handler itself dispatches; dispatching succeeds and blocks only while the buffer is full. Starting the bus again has no effect, and after its context is cancelled it finishes the event in progress, ends its goroutine and handles nothing more (events already buffered while a handler was in progress may still be handled before it ends).",
 ["schedules"],
 "all sequences of dispatch, handler completion, start and cancellation by 1-3 dispatchers for capacities 0-2, with up to 6 calls of one or two events",
 "the test sends one event",
 ["eventbus/mem/eventbus.go"], ["channel with one consuming goroutine"],
 "stateless model checking of the real code: exhaustive enumeration of the order of dispatches, handler completions, start and cancellation in a deterministic scheduler", "goroutines run to quiescence between two actions; Go's own select choice after a cancellation is not controlled, either outcome is accepted")

prop("C24", "Redis lock: mutual exclusion and ownership within the lease",
 "At most one client holds the redis lock of a key at any moment of its lease time. An attempt on a key held by somebody is repeated about every 100 ms and succeeds when the key becomes free; when it stays held, the attempt fails with ErrEntityLocked after about 3 s (or after the lease time, if that is shorter), and when the caller's context ends first it returns promptly. A release removes only the caller's own lock (releasing one that was lost or already released returns an error and leaves the other holder's lock alone), different keys do not affect each other, and a failure of the server or the connection is reported as an error, never as success.",
 ["schedules", "fault_sequences", "crash_points"],
 "all orders of the redis commands of 2-3 clients with programs of locking, holding, releasing twice and late on the same and different keys, with stalled clients, lost commands, lost replies, clients crashing, an unavailable server and leases ending at any point, within a deviation bound",
 "there is no redis test; who wins a key and when a lease ends relative to a release depend on the schedule",
 ["lock/redis/redis.go"], ["obtain with bounded retry", "compare-and-delete release"],
 DPOR % "redis command orders, stalls, lost commands and replies, crashes and lease expiry", "the real go-redis client talks to a model redis server (SET NX/EX/PX, GET, DEL, the client's scripts); after a lost reply the key may stay locked until its lease ends")

prop("C25", "The result of a command reports exactly what it did",
 "The result of a successful command lists every insert, update and delete its storage was given, with its models and in that order, over all of its saves and its stored events and nothing else (nothing for a dry run), and carries the output the command set last, wherever it set it. A command that was rolled back lists no actions, a break and an error are told apart and never both reported, and post-save callbacks are given the very result the caller gets, already complete.",
 ["inputs", "programs", "fault_sequences"],
 "all command forms with every set of points at which an output is set, every call failing in turn and in pairs, every program of bounded length of repository operations, events and mid-command saves, first or second command of an engine, with and without transactions, event store, recursive delete and dry run",
 "tests look at one result of one update",
 ["engine.go", "command.go"], ["result accumulated by the stage over its saves", "output set through the stage agent"],
 ENUM % "command programs x output points x failing call", "compared with what the executor was handed; a result whose commit failed may list the actions, as their fate is unknown")

def main(todo=()):
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=m, where=p["files"][0]) for m in p["mechanism"]]))
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    done = set(open(os.path.join(V, "tools", "claimed.txt")).read().split())
    m = dict(version=1, setup_cmd="bash run.sh setup", checks=[], not_applicable=[])
    for p in P:
        if p["id"] in done:
            m["checks"].append(dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
                technique=p["technique"], level="model_checking", level_note=p["note"]))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=p["reason"] or "no check registered yet (work in progress)"))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
main()
