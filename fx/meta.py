"""Source of properties.jsonl and MANIFEST.json (python3 fx/meta.py rewrites both)."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PR = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    PR.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
    if na: NA.append(dict(property=id, reason=na))
    else: TECH[id] = (technique, note)
TECH = {}

T_RULE = 'typestate monitors in an abstract interpretation of the compiler MIR over all operation histories'
T_CONF = 'behavioural abstraction of the compiler MIR, language inclusion in a contract automaton'
N_OBJ = ('Every object reachable through a public constructor is driven, in the abstract, through all operation histories of a legal caller while children and callbacks answer '
         'with every outcome; exhaustive up to the abstraction (integers beyond 2, container contents beyond two elements and buffer bytes are merged). Trusts rustc MIR, the models of std '
         'containers/cells/locks in fx/models.py and, for the conformance part, the committed contract automata.')
W_HIST = 'Tests drive a few polled sequences with one or two hand-placed Pending results; the claim is over every interleaving of child outcomes and calls.'

prop('C01', 'Pending is only returned with a wakeup arranged',
     'Whenever polling a future, stream, sink or I/O adaptor returns Pending, something able to make progress has been given the waker of that very call, or that waker was woken or stored before returning. A task suspended on such an object is therefore never stranded.',
     ['histories', 'inputs'], 'for every adaptor, every order of child readiness and every sequence of operations issued by a legal caller',
     W_HIST, ['futures-util/src', 'futures-channel/src', 'futures-task/src'],
     [('poll implementations of every adaptor', 'futures-util/src/{future,stream,sink,io}/**'), ('self-wake in select_next_some, LazyCache, yield budgets', 'futures-util/src/stream/stream/select_next_some.rs')],
     T_RULE, N_OBJ)
prop('C02', 'A finished child is never polled again',
     'No adaptor polls a child future after it completed, nor a child stream after it returned the end of stream, for as long as the adaptor itself is used legally. Fusing adaptors additionally protect the child from any number of illegal polls.',
     ['histories'], 'for every adaptor and every operation history of a legal caller',
     W_HIST, ['futures-util/src/future', 'futures-util/src/stream', 'futures-util/src/sink'],
     [('state enums and Option<child> slots cleared on completion', 'futures-util/src/future/future/{map,flatten,fuse}.rs, stream/stream/{flatten,chain,fuse}.rs'), ('MaybeDone in join combinators', 'futures-util/src/future/{join,try_join,maybe_done}.rs')],
     T_RULE, N_OBJ)
prop('C03', 'is_terminated tells the truth',
     'After a fused future has completed successfully or a fused stream has returned its end, it reports itself terminated; it never reports itself terminated while it can still deliver a value.',
     ['histories'], 'for every fused adaptor and every operation history',
     'Tests query termination at a handful of points of a handful of adaptors; the claim is about every reachable state of every adaptor.',
     ['futures-util/src', 'futures-channel/src', 'futures-core/src'],
     [('FusedFuture and FusedStream implementations', 'futures-util/src/{future,stream}/**')],
     T_RULE + '; language inclusion for premature termination', N_OBJ)
prop('C04', 'The sink protocol is obeyed and completed',
     'An adaptor sends an item to an inner sink only after that sink reported readiness, never after closing it, and reports a successful flush or close only when every inner sink it used has been flushed or closed and no accepted item is held back. Sink combinators and sending futures show exactly the documented sequence of inner operations and results.',
     ['histories'], 'for every sink adaptor, every answer of the inner sinks and every legal order of readiness, send, flush and close',
     W_HIST, ['futures-util/src/sink', 'futures-util/src/stream/stream/forward.rs', 'futures-util/src/stream/stream/split.rs'],
     [('buffer drain before readiness/flush/close', 'futures-util/src/sink/buffer.rs'), ('fanout, with, with_flat_map, send_all, feed', 'futures-util/src/sink/*.rs')],
     T_RULE + '; ' + T_CONF, N_OBJ)
prop('C05', 'Items are delivered exactly as produced, none lost or invented',
     'An item taken from a stream or accepted by a sink is passed on, handed to the user callback, or still held; it is discarded only by adaptors whose documented purpose is to discard it or on an error path. What a stream adaptor yields, and when it ends, is exactly what its inputs and callbacks determine.',
     ['histories', 'inputs'], 'for every adaptor, every pattern of pending and ready children and every callback answer',
     W_HIST, ['futures-util/src/stream', 'futures-util/src/sink'],
     [('pending_item / queued / buffered slots', 'futures-util/src/stream/stream/{filter,zip,peek,chunks,ready_chunks}.rs'), ('buffers', 'futures-util/src/sink/buffer.rs')],
     'ownership (drop) analysis of items in the MIR; language inclusion of yields', N_OBJ)
prop('C06', 'Errors reach the caller unchanged',
     'An error produced by a child future, stream, sink, reader or writer is returned to the caller of the operation that met it, unchanged or converted by the documented function; it is never swallowed, reordered with success, or replaced, except by adaptors documented to recover from it.',
     ['histories', 'fault_sequences'], 'for every fallible adaptor and every placement of errors in the outcomes of its children',
     'Tests inject an error at one or two places per adaptor; the claim is over every position in every history.',
     ['futures-util/src/future/try_future', 'futures-util/src/stream/try_stream', 'futures-util/src/sink', 'futures-util/src/io'],
     [('? and Try combinators on Poll/Result', 'futures-util/src/**')],
     'ownership (drop) analysis of error values; ' + T_CONF, N_OBJ)
prop('C07', 'Future adaptors compute what they document',
     'Every infallible future constructor and adaptor polls its input only while incomplete, applies its callback exactly once to the documented value at the documented moment, and completes with the documented value, independently of how often it was pending in between.',
     ['histories'], 'for all pending/ready interleavings of inputs and inner futures', W_HIST,
     ['futures-util/src/future/future', 'futures-util/src/future', 'futures-task/src/future_obj.rs'],
     [('Map, Then, Flatten, Fuse, Inspect, IntoStream, Either, Option, MaybeDone, PollImmediate, Lazy, PollFn', 'futures-util/src/future/**')], T_CONF, N_OBJ)
prop('C08', 'Fallible future adaptors route success and failure as documented',
     'Every adaptor of fallible futures applies its callback only to the branch (success or error) it documents, exactly once, passes the other branch through untouched, and chains to the future the callback returned.',
     ['histories'], 'for all pending/success/error interleavings of inputs and chained futures', W_HIST,
     ['futures-util/src/future/try_future'], [('AndThen, OrElse, MapOk, MapErr, TryFlatten, TryFlattenErr, UnwrapOrElse, IntoFuture', 'futures-util/src/future/try_future/**')], T_CONF, N_OBJ)
prop('C09', 'Joins wait for all, selects resolve with the first',
     'A join completes exactly when all its futures have, with their outputs in argument order; a fallible join completes with the first error seen. A select completes as soon as one future does, returning that output together with the futures still unfinished.',
     ['histories', 'inputs'], 'for every order of completion of the participating futures', W_HIST,
     ['futures-util/src/future/join.rs', 'futures-util/src/future/try_join.rs', 'futures-util/src/future/join_all.rs', 'futures-util/src/future/try_join_all.rs', 'futures-util/src/future/select.rs', 'futures-util/src/future/try_select.rs', 'futures-util/src/future/select_all.rs', 'futures-util/src/future/select_ok.rs'],
     [('MaybeDone / TryMaybeDone arrays', 'futures-util/src/future/{join,join_all,try_join,try_join_all}.rs'), ('swap_remove of the ready future', 'futures-util/src/future/{select_all,select_ok}.rs')], T_CONF, N_OBJ)
prop('C10', 'Stream adaptors yield the documented sequence',
     'Every stream adaptor, and every future that consumes a stream, performs exactly the documented polls of its input and calls of its callbacks and produces exactly the documented items and end of stream, whatever the pattern of pending results.',
     ['histories', 'inputs'], 'for all outcome sequences of the inputs, callback answers, and small counts', W_HIST,
     ['futures-util/src/stream/stream'], [('adaptor state machines', 'futures-util/src/stream/stream/*.rs')], T_CONF, N_OBJ)
prop('C11', 'Fallible stream adaptors yield the documented sequence',
     'Every adaptor of streams of results treats success items as its infallible counterpart does, forwards error items in order at the documented point, and keeps exactly the documented items around an error.',
     ['histories', 'fault_sequences'], 'for all sequences of success, error, pending and end of the inputs and callback futures', W_HIST,
     ['futures-util/src/stream/try_stream'], [('adaptor state machines', 'futures-util/src/stream/try_stream/*.rs')], T_CONF, N_OBJ)
prop('C12', 'Merging and source streams are complete and fair in the documented order',
     'Combining several streams delivers every item of every input, polls inputs in the documented order or alternation, and ends only when the inputs that determine the end have ended; source streams yield precisely what their generator produced.',
     ['histories'], 'for every interleaving of readiness and end of the merged inputs', W_HIST,
     ['futures-util/src/stream/select.rs', 'futures-util/src/stream/select_with_strategy.rs', 'futures-util/src/stream/select_all.rs', 'futures-util/src/stream/stream/zip.rs', 'futures-util/src/stream/stream/chain.rs', 'futures-util/src/stream/unfold.rs', 'futures-util/src/stream/futures_ordered.rs'],
     [('internal state and poll order', 'futures-util/src/stream/select_with_strategy.rs')], T_CONF, N_OBJ)
prop('C13', 'Concurrency limits are respected and used',
     'An adaptor with a concurrency limit never has more than that many child futures or streams in progress, takes a new one from its source whenever the limit allows, treats "no limit" as unbounded, and completes only when source and all started children have finished.',
     ['histories', 'configurations'], 'for limits none, one and two and every interleaving of source and children', W_HIST,
     ['futures-util/src/stream/stream/buffered.rs', 'futures-util/src/stream/stream/buffer_unordered.rs', 'futures-util/src/stream/stream/for_each_concurrent.rs', 'futures-util/src/stream/stream/try_for_each_concurrent.rs', 'futures-util/src/stream/stream/flatten_unordered.rs', 'futures-util/src/stream/try_stream/try_buffered.rs', 'futures-util/src/stream/try_stream/try_buffer_unordered.rs'],
     [('in_progress_queue.len() < max', 'futures-util/src/stream/stream/buffered.rs')], T_CONF, N_OBJ)
prop('C15', 'I/O adaptors account for every byte and every result',
     'I/O adaptors and futures forward reads, writes, flushes, closes and seeks to the wrapped object in the documented order, advance their position by exactly what the wrapped object reported, report zero-length writes and premature end as errors, and return its errors unchanged.',
     ['histories', 'inputs'], 'for every sequence of short reads and writes, pending results and errors of the wrapped object', W_HIST,
     ['futures-util/src/io'], [('buffer positions in BufReader, BufWriter, LineWriter, Take, Copy, ReadExact, WriteAll', 'futures-util/src/io/*.rs')], T_CONF, N_OBJ)

T_EFF = 'effect automaton of every function from its MIR (arbitrary arguments and shared state), guard-aware language inclusion in an effect contract'
N_EFF = ('Each function is interpreted abstractly from arbitrary arguments and arbitrary shared memory; its effects (atomics with their ordering, locks, wakes, calls, container mutations, final writes, result) '
         'must be allowed by the committed effect contract under every outcome of the values it tests. This fixes what each step of the protocol does; that these steps compose to the stated guarantee under every '
         'interleaving is argued in DESIGN.md, not machine-checked. Trusts rustc MIR, fx/models.py and the contracts.')
N_BOTH = N_OBJ + ' ' + N_EFF
W_CONC = 'Concurrency tests sample a few schedules of real threads; a missing wakeup, a weakened ordering or a wrong branch in a rare state almost never shows up in them.'
U_ = 'futures-util/src/'

prop('C14', 'Size hints stay truthful through every adaptor',
     'The bounds on remaining items reported by a stream adaptor are exactly those that follow from its own buffered items and the bounds its inputs report, so that the lower bound never exceeds and the upper bound never undercuts what is still delivered. Arithmetic on bounds never overflows.',
     ['inputs', 'histories'], 'for every combination of input bounds and internal state', 'Tests compare a few concrete hints; overflow and unusual combinations (missing upper bound, buffered item, exhausted input) are not sampled.',
     [U_ + 'stream'], [('size_hint implementations', U_ + 'stream/**')], T_EFF, N_EFF)
prop('C16', 'The atomic waker cell never loses a wakeup',
     'If a wake is issued after a registration has begun, the registered task is woken, whichever way registration, waking and taking interleave; a registration never blocks and at most one party ever accesses the stored waker at a time.',
     ['schedules'], 'for all interleavings of register, wake and take on any number of threads', W_CONC,
     ['futures-core/src/task/__internal/atomic_waker.rs'], [('WAITING/REGISTERING/WAKING state machine', 'futures-core/src/task/__internal/atomic_waker.rs')], T_EFF, N_EFF)
prop('C17', 'Multi-producer channels deliver every message once, in order, or report closure',
     'Every message accepted by a bounded or unbounded channel is received exactly once, in the order each sender sent it; a bounded channel never admits more than its capacity plus one per sender. Receivers and parked senders are woken when they can proceed, and closing or dropping either side is seen by the other while buffered messages stay receivable.',
     ['schedules', 'histories'], 'for all interleavings of any number of senders with the receiver, including drops and close', W_CONC,
     ['futures-channel/src/mpsc'], [('state word (open flag and count), message queue, parked-sender queue', 'futures-channel/src/mpsc/{mod,queue,sink_impl}.rs')], T_EFF + '; ' + T_CONF, N_BOTH)
prop('C18', 'A one-shot channel delivers its value or its cancellation, exactly once',
     'The value sent is received exactly once or handed back to the sender if the receiver is gone; the receiver is woken by a send or by the loss of the sender, and the sender is woken by the loss of the receiver. No interleaving of send, poll, close and drop leaves either side waiting forever or loses the value.',
     ['schedules'], 'for all interleavings of the two halves', W_CONC, ['futures-channel/src/oneshot.rs', 'futures-channel/src/lock.rs'],
     [('complete flag, data and task slots behind try-locks', 'futures-channel/src/oneshot.rs'), ('try-lock', 'futures-channel/src/lock.rs')], T_EFF + '; ' + T_CONF, N_BOTH)
prop('C19', 'The async mutex gives exclusive access and wakes a waiter on release',
     'At most one guard exists at any time; whenever a guard is released while tasks wait, one of the still interested waiters is woken, also when a woken waiter is dropped before it acquired the lock.',
     ['schedules', 'histories'], 'for all interleavings of lock attempts, cancellations and releases', W_CONC, [U_ + 'lock/mutex.rs'],
     [('IS_LOCKED/HAS_WAITERS bits and waiter slab', U_ + 'lock/mutex.rs')], T_EFF + '; ' + T_CONF, N_BOTH)
prop('C20', 'Split halves share their object exclusively and can be rejoined',
     'The two halves of a split stream/sink, reader/writer or two-party lock never access the shared object at the same time; a half that waits is woken when the other releases, only matching halves can be reunited, and reuniting returns the original object.',
     ['schedules', 'histories'], 'for all interleavings of operations on the two halves', W_CONC, [U_ + 'lock/bilock.rs', U_ + 'io/split.rs', U_ + 'stream/stream/split.rs'],
     [('state word of the two-party lock', U_ + 'lock/bilock.rs'), ('halves', U_ + 'stream/stream/split.rs')], T_EFF + '; ' + T_CONF, N_BOTH)
prop('C21', 'An unordered future set polls exactly the woken futures and loses none',
     'Every future added is polled at least once and again after each wake of its waker, its output is yielded exactly once, and the task polling the set is woken whenever some member becomes runnable. Futures are released exactly once, wakers outliving the set are harmless, and one call polls only a bounded number of futures before yielding.',
     ['schedules', 'histories'], 'for all interleavings of wakes from any thread with push, poll, clear, iteration and drop', W_CONC, [U_ + 'stream/futures_unordered'],
     [('intrusive ready-to-run queue', U_ + 'stream/futures_unordered/ready_to_run_queue.rs'), ('linked list of all tasks, yield budget', U_ + 'stream/futures_unordered/mod.rs'), ('task waking', U_ + 'stream/futures_unordered/task.rs')], T_EFF, N_EFF)
prop('C22', 'A shared future runs once and gives every clone the same result',
     'The inner future is polled by one clone at a time and never after completion; every clone, whenever created or dropped, obtains a clone of the single output, and every waiting clone is woken when the inner future wakes or completes. After a panic of the inner future every clone panics when polled instead of waiting for ever.',
     ['schedules', 'histories'], 'for all interleavings of polls, clones and drops of the handles', W_CONC, [U_ + 'future/future/shared.rs'],
     [('notifier state and waker slab', U_ + 'future/future/shared.rs')], T_EFF + '; ' + T_CONF, N_BOTH)
prop('C23', 'Executors run every spawned task and never sleep through a wakeup',
     'A blocking executor returns exactly when its future completes and re-polls after every wakeup, also one issued between polling and parking; every task spawned on a pool is polled whenever woken until it completes, workers stop only when the pool is gone, and executors refuse to be nested on one thread.',
     ['schedules'], 'for all interleavings of spawning, waking, polling, parking and dropping pool handles', W_CONC, ['futures-executor/src'],
     [('thread notify flag and parking', 'futures-executor/src/local_pool.rs'), ('worker loop and unpark mutex', 'futures-executor/src/{thread_pool,unpark_mutex}.rs'), ('enter guard', 'futures-executor/src/enter.rs')], T_EFF, N_EFF)
prop('C24', 'Hand-made wakers and future objects keep exact ownership',
     'Wakers built from shared or borrowed references clone, wake and drop with balanced reference counts and call the wake method of the right object exactly once per wake; type-erased futures poll and drop the very object they were made from, once.',
     ['histories'], 'for every sequence of clone, wake, wake-by-reference and drop, and every erased future', 'A reference-count imbalance or a wrong vtable entry only shows as a leak or use after free in unusual sequences.', ['futures-task/src'],
     [('waker vtables', 'futures-task/src/{waker,waker_ref,noop_waker}.rs'), ('custom future vtable', 'futures-task/src/future_obj.rs')], T_EFF + '; ' + T_CONF, N_BOTH)
prop('C26', 'Wrapper and reference implementations forward faithfully',
     'Polling, sending, reading, writing, seeking, size and termination queries made through a reference, box, pin, option, either or standard-library type have exactly the effect and result of the same operation on the wrapped object.',
     ['inputs'], 'for every operation of the core traits and every provided wrapper', 'Most forwarding methods, vectored and default ones in particular, are never called by a test.', ['futures-core/src', 'futures-sink/src', 'futures-io/src', U_ + 'future/either.rs'],
     [('blanket implementations', 'futures-{core,sink,io}/src/**, ' + U_ + 'future/either.rs')], T_EFF, N_EFF)
prop('C27', 'Aborting takes effect and wakes the aborted task',
     'After an abort, the aborted future or stream yields only its abort result from the next poll on and does not poll its input again; an abort issued at any moment relative to a poll either is seen by that poll or wakes the task.',
     ['schedules', 'histories'], 'for all interleavings of abort with polling', W_CONC, [U_ + 'abortable.rs'], [('aborted flag checked before and after waker registration', U_ + 'abortable.rs')], T_EFF + '; ' + T_CONF, N_BOTH)
prop('C28', 'Panics and results cross task boundaries intact',
     'A remote handle receives the output of its future, re-raises the panic of that future, and by default cancels it when dropped; catch-unwind adaptors turn a panic of the input into an error result and do not poll the input again afterwards.',
     ['histories', 'schedules'], 'for every outcome (value, panic, cancellation) at every point of the history', W_HIST, [U_ + 'future/future/remote_handle.rs', U_ + 'future/future/catch_unwind.rs', U_ + 'stream/stream/catch_unwind.rs'],
     [('keep-running flag and one-shot channel', U_ + 'future/future/remote_handle.rs')], T_EFF + '; ' + T_CONF, N_BOTH)
prop('C29', 'Unordered flattening re-polls after every wake and never twice at once',
     'A wake of the outer stream or of any inner stream, arriving before, during or after a poll, leads to a further poll of the woken part; the polling task is never left pending with an unserved wake.',
     ['schedules'], 'for all interleavings of wakes with polling', W_CONC, [U_ + 'stream/stream/flatten_unordered.rs'], [('shared poll state bits', U_ + 'stream/stream/flatten_unordered.rs')], T_EFF, N_EFF)
prop('C30', 'The async macros join, select and merge exactly as documented',
     'Joining macros poll every unfinished branch on every poll and complete with all outputs in order, or with the first error; selecting macros skip terminated branches, resolve with the first ready branch polled and run its arm, and take the complete or default arm exactly when documented. Merging streams by macro polls every live stream in some order, yields every item and never polls an ended stream again.',
     ['histories', 'inputs'], 'for every interleaving of pending, ready and terminated branches and every polling order', 'Macro tests expand a few shapes with futures that are ready at once or after one wake.', ['futures-macro/src', U_ + 'async_await'],
     [('generated polling code', 'futures-macro/src/{join,select,stream_select}.rs'), ('pending!, poll!, shuffling', U_ + 'async_await/*.rs')],
     'effect automaton, from the compiler MIR, of generic functions that expand each macro (state machine of the async block included); guard-aware language inclusion in an effect contract', N_EFF + ' The macros are analysed in the expansions of probe/src/lib.rs (two or three branches with arbitrary futures and streams).')
prop('C31', 'Compatibility layers translate between the two generations of futures faithfully',
     'Readiness, items, errors, notifications, I/O results and sink hand-backs pass through the 0.1 compatibility wrappers in both directions with their meaning preserved, and a wake on one side reaches the task on the other.',
     ['histories'], 'for every outcome of the wrapped object and every operation', 'The compatibility wrappers have a handful of tests with always-ready objects.', [U_ + 'compat'],
     [('01 as 03 and 03 as 01 wrappers', U_ + 'compat/{compat01as03,compat03as01,executor}.rs')], T_EFF + '; ' + T_CONF, N_BOTH)
prop('C32', 'Accessors reach the wrapped object and nothing else',
     'Borrowing or unwrapping an adaptor gives access to exactly the object it was built from, in its current state, and never to a different one of several wrapped objects; accessors leave the adaptor unchanged.',
     ['inputs'], 'for every adaptor and accessor', 'Accessors of most adaptors are never called by a test.', [U_ + 'stream', U_ + 'sink', U_ + 'io', U_ + 'future'], [('get_ref, get_mut, get_pin_mut, into_inner', U_ + '**')], T_EFF, N_EFF)
prop('C33', 'Test utilities observe without distorting',
     'Wrappers of the testing crate that interleave pending results, limit transfers, track closing or assert immobility pass every value, error and end of the wrapped object through unchanged and do only what they document in addition; counting wakers count every wake.',
     ['histories'], 'for every outcome of the wrapped object and every operation', 'The utilities are used by tests, but are themselves only tested on a few sequences.', ['futures-test/src'],
     [('interleave_pending, limited, track_closed, assert_unmoved, wake_counter', 'futures-test/src/**')], T_EFF + '; ' + T_CONF, N_BOTH)
prop('C34', 'Legal use never panics and every operation returns',
     'As long as the caller respects the documented protocol and user code does not panic, no operation of an adaptor panics, and none gets stuck in a loop that makes no progress.',
     ['histories', 'inputs'], 'for every adaptor and every legal history', W_HIST, [U_, 'futures-channel/src', 'futures-task/src'], [('expect/unwrap/unreachable states of adaptor state machines', U_ + '**')], T_CONF, N_OBJ)

T_AUTO = 'type-level analysis: trait-solver queries (Send/Sync/Unpin under every assumption on the parameters) for every public type'
N_AUTO = ('For every public type the compiler\'s own trait solver decides, on the current source, whether it is Send, Sync and Unpin when all its parameters and their associated types are, and which of these assumptions '
          'are needed; the answers must be the recorded ones. Exact, no abstraction; trusts the trait solver and the reviewed table contracts/autos.json.')
prop('C25', 'Only thread-safe contents make a type thread-safe',
     'A provided type can be moved to or shared with another thread exactly when the values it stores, shares, or may later produce or drop on that thread allow it; no type is sendable or shareable on weaker conditions, and none lost the ability its contents justify.',
     ['inputs'], 'for every public type and every assignment of sendable/shareable or not to its type parameters and their associated types', 'A bound that is too weak compiles and passes every test; it only allows user programs that race.',
     [U_, 'futures-channel/src', 'futures-core/src', 'futures-task/src', 'futures-executor/src'],
     [('unsafe impl Send/Sync', U_ + 'lock/{mutex,bilock}.rs, stream/futures_unordered/**, future/future/shared.rs, futures-task/src/future_obj.rs, futures-channel/src/lock.rs, futures-core/src/task/__internal/atomic_waker.rs')], T_AUTO, N_AUTO)
prop('C35', 'A pinned child stays where it was pinned',
     'Once an adaptor has polled a child through a pinned reference it never moves that child, hands it out by value or exposes it movably before it has been dropped, unless the child may be moved freely; and a type may itself be moved after polling only when everything it pins may be.',
     ['histories', 'inputs'], 'for every adaptor, every operation history and every choice of movable or immovable children', 'Nearly all tests use movable children, for which a violated pinning guarantee is unobservable.',
     [U_, 'futures-task/src', 'futures-test/src'], [('pin projections and Unpin implementations', U_ + '**'), ('Pin::new_unchecked / get_unchecked_mut sites', U_ + '{stream/futures_unordered,lock/bilock.rs,future/future/shared.rs}')],
     'typestate monitor (pinned address of every child) in an abstract interpretation of the compiler MIR over all histories; ' + T_AUTO, N_OBJ + ' ' + N_AUTO)

prop('C36', 'A panic in user code leaves everything shared in a defined state',
     'When a future, stream, reader or callback panics inside a library operation, locks and in-progress marks taken by that operation are released or turned into a lasting failure that every other handle sees, the panicking member is removed from its set exactly once, and executors stay usable on that thread.',
     ['histories', 'fault_sequences'], 'for every call of user code inside the concurrency primitives, executors and readers, and a panic at any of them', 'Panics inside polls are exercised by a handful of tests; cleanup during unwinding is otherwise never run.',
     [U_ + 'future/future/shared.rs', U_ + 'stream/futures_unordered', U_ + 'stream/stream/flatten_unordered.rs', U_ + 'lock', U_ + 'io', 'futures-executor/src', 'futures-task/src'],
     [('drop guards armed around user code', U_ + '{future/future/shared.rs, stream/futures_unordered/mod.rs, stream/stream/flatten_unordered.rs, io/read_line.rs, io/read_to_string.rs}'), ('enter guard', 'futures-executor/src/enter.rs')],
     'effect automaton of every function that runs user code, along the unwind edges of the compiler MIR (a panic is considered at each call of user code, drop glue during unwinding is followed); guard-aware language inclusion in a panic contract', N_EFF + ' Panics raised by wakers, allocators and clones of keys are not considered.')

def main():
    import props
    have = set(props.BY_ID)
    ids = [p['id'] for p in PR]
    assert len(set(ids)) == len(ids)
    for p in PR:
        assert len(p['title']) <= 80, p['id']
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in sorted(PR, key=lambda p: p['id']):
            f.write(json.dumps(p) + '\n')
    checks = []
    for id in sorted(TECH):
        assert id in have, id
        t, n = TECH[id]
        checks.append(dict(property=id, quick_cmd='python3 fx/check.py %s' % id, thorough_cmd='python3 fx/check.py %s --tier thorough' % id, technique=t, level='other', level_note=n))
    m = dict(version=1, setup_cmd='python3 fx/extract.py', checks=checks, not_applicable=NA)
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(PR), 'properties', len(checks), 'checks', len(NA), 'n/a')
if __name__ == '__main__':
    main()
