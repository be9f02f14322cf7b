#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import checks
S, I, P, H, F, C = 'schedules', 'inputs', 'programs', 'histories', 'fault_sequences', 'configurations'
PROPS = []
def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    a = dict(files=['src/' + f if '/' not in f else f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = list(observe)
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop('C01', 'A future completes at most once and its result never changes afterwards',
     'However many threads, sources and cancellations compete to resolve or reject a promise, cancellable or other future, exactly one outcome wins and later attempts have no effect. Once any reader has seen a future resolved or rejected, every later reader in every thread sees that same status, value or error; a pending future reports DEX_ERROR_PENDING and never a stale result.',
     [S, P], 'every interleaving of completions and reads of one future, from any number of threads',
     'The tests complete each future once, from one thread; a race between two completions or a torn result needs a particular preemption.',
     ['dex-future.c', 'dex-promise.c', 'dex-cancellable.c'],
     [('first completion wins under the object lock', 'dex_future_complete'), ('status and value read under the lock', 'dex_future_get_value, dex_future_get_status')],
     [('resolved / rejected / status', 'the result', 'struct _DexFuture')], ['dex_future_get_status', 'dex_future_get_value'])
prop('C02', 'Whoever awaits a future hears of its completion exactly once',
     'A future that is made to depend on another one - a then/catch/finally, a member of a set, an awaiting fiber - is notified exactly once when that other future completes, whether the dependency is set up before, during or after the completion and on whichever threads the two happen. No dependent is left pending once everything it waits for has completed, and none is notified of a completion that did not happen.',
     [S, P], 'every interleaving of setting up dependencies with completions and with releasing dependents, over every small dependency graph',
     'A lost wakeup needs the registration to fall between the check and the publication of the completion; the tests chain before or after, never during.',
     ['dex-future.c', 'dex-block.c', 'dex-future-set.c'],
     [('append to the chained list or notify immediately, decided under the lock', 'dex_future_chain'), ('steal and notify the chained list', 'dex_future_complete')],
     [('chained', 'dependents to notify, weak', 'struct _DexFuture')], ['callbacks of blocks', 'dex_future_get_status'])
prop('C03', 'Then, catch, finally and their loops run the right callback, once, in place',
     'A then callback runs only on resolution, a catch callback only on rejection, a finally callback on both, at most once (a loop: until its future no longer matches), on the scheduler that created it and never before its future has completed; otherwise the outcome passes through unchanged. The block takes the outcome of the future its callback returns, however long that takes, or the original outcome when the callback returns nothing. The callback data is destroyed exactly once and never before the callback has finished with it.',
     [S, P], 'every composition of blocks over resolved, rejected and pending futures, and every completion order and thread',
     'The tests run a few fixed chains to completion on one thread; the orders of completion, release and dispatch are unbounded.',
     ['dex-block.c', 'dex-future.c'],
     [('handled bit decides run versus pass through', 'dex_block_propagate'), ('synchronous dispatch or push to the scheduler', 'dex_block_propagate'), ('awaiting the returned future', 'dex_block_propagate')],
     [('handled / awaiting / callback_data', 'progress of one block', 'struct _DexBlock')], ['callbacks', 'destroy notifies', 'dex_future_get_value'])
prop('C04', 'All, any, first and race report the outcome their members force',
     'A set future completes as soon as, and only when, its members force its outcome: all after the last member, with the verdict of that member (resolved to TRUE, or rejected with DEX_ERROR_DEPENDENCY_FAILED); any at the first resolution, or rejected with that error after the last rejection; first at the first completion; all_race at the first rejection, or resolved to TRUE after the last resolution. Otherwise the outcome is that of the deciding member; every member is reachable by index with its own result, and this holds for members that are already complete, listed twice, or completed by several threads at once.',
     [S, P], 'every set kind over every combination of pre-completed, later completed and never completed members, every completion order and interleaving',
     'The tests use two or three members completed in order on one thread.',
     ['dex-future-set.c', 'dex-future.c'],
     [('counting of completed members', 'dex_future_set_propagate'), ('decision flags', 'dex_future_set_new')],
     [('n_resolved / n_rejected / n_futures', 'progress of the set', 'struct _DexFutureSet')], ['dex_future_get_value', 'dex_future_set_get_future_at'])
prop('C05', 'Unwanted work is discarded, wanted work never is',
     'When a set is decided or released, or a delayed future or async result is discarded, every pending future it depended upon and nobody else awaits is told to stop: the GCancellable of a cancellable promise or async pair is cancelled, a fiber is asked to cancel, a timeout is disarmed, and the same reaches through what these depend on. A future that some other set, block or fiber still awaits is never told to stop, nor is one that was disowned.',
     [S, P], 'every dependency graph, and every order and interleaving of releasing dependents and completing members',
     'The tests drop at most one dependent; sharing one future between several dependents and dropping them in any order is never tried.',
     ['dex-future.c', 'dex-future-set.c', 'dex-promise.c', 'dex-async-pair.c'],
     [('remaining dependents are counted before discarding', 'dex_future_discard'), ('members are discarded when the set completes or is released', 'dex_future_set_propagate, dex_future_set_finalize')],
     [], ['the cancellable of the promise or async pair', 'the outcome of the discarded future'])
prop('C06', 'A delayed future shows nothing until released, and then what it stands for',
     'A delayed future stays pending until it is released, whatever the future it stands for does. Once it has been released it takes exactly the outcome of that future, immediately if that one is complete and otherwise when it completes, and releasing it twice, before or after that completion or at the same time from another thread, changes nothing.',
     [S, P], 'every order and interleaving of release and completion',
     'The one existing test releases after completion, on one thread.',
     ['dex-delayed.c'], [('gate opened under the lock', 'dex_delayed_release'), ('held outcome', 'dex_delayed_propagate')], [], ['dex_future_get_status of the delayed future'])
prop('C07', 'Channel items arrive exactly once, in the order they were accepted',
     'Every item accepted by a channel is handed to at most one receiver, in the order of acceptance, and receivers are served in the order in which they asked; no item is lost, duplicated or invented while both sides of the channel stay open. An item that is itself a pending future occupies its place and delays only its own receiver.',
     [S, H], 'every history of sends and receives of any number of threads, with ready and pending items, capacities from one to unlimited',
     'The tests use one thread, a few items and fixed orders.',
     ['dex-channel.c'], [('one critical section per operation', 'dex_channel_send, dex_channel_receive'), ('pairing of the oldest item with the oldest receiver', 'dex_channel_one_receive_and_unlock')],
     [('queue / sendq / recvq', 'accepted items, waiting senders, waiting receivers', 'struct _DexChannel')], ['futures returned by send and receive'])
prop('C08', 'A channel applies back-pressure exactly at its capacity and strands nobody',
     'The future returned by send is pending exactly while the queue is full and resolves to the queue length when the item is taken in; no more than capacity items are ever taken in. Whenever room is made, by receiving one item or all of them at once, the longest waiting senders are taken in, and nobody waits for an item that is there. Receiving all takes every item that is queued, in order.',
     [S, H], 'every history of send, receive and receive-all, of any number of threads, for every capacity',
     'The tests never have more than one waiting sender and never mix receive-all with a full queue.',
     ['dex-channel.c'], [('capacity test', 'has_capacity_locked'), ('waiting senders advance', 'dex_channel_one_receive_and_unlock, dex_channel_receive_all')], [], ['futures returned by send, receive and receive_all'])
prop('C09', 'Closing a channel settles everybody and drops only what it must',
     'Closing the send side refuses new sends, lets queued items be received, and rejects exactly the receivers for whom no item remains, then and later. Closing the receive side, or releasing the channel, rejects every waiting sender and receiver and every later operation with DEX_ERROR_CHANNEL_CLOSED. Nobody is left pending on a closed or released channel, and can_send and can_receive report the state.',
     [S, H], 'every history with one or more closes at any point, from any thread, and the release of the channel',
     'The tests close at one or two fixed points.',
     ['dex-channel.c'], [('flags changed and waiters stolen under the lock', 'dex_channel_close_send, dex_channel_close_receive'), ('release closes both sides', 'dex_channel_dispose/finalize')], [], ['futures returned by send and receive'])
prop('C10', 'The internal semaphore wakes exactly as many waiters as it was posted',
     'The waits of a semaphore that complete are never more than the posts made so far, and never fewer than the smaller of posts and waits once everything is quiet; a wait completes on the scheduler that asked for it. Where the library counts by itself, earlier waits are served first, closing or releasing it rejects every pending wait with DEX_ERROR_SEMAPHORE_CLOSED, and callbacks may use it again (where an eventfd counts, the order is up to the kernel). A work queue built on it hands every pushed item to exactly one run, in order.',
     [S, H], 'every history of wait, post, post-many and close, from any number of threads, with waits abandoned at any point',
     'The tests count up to a total and never look at order, closing or abandoned waits.',
     ['dex-semaphore.c', 'dex-work-queue.c'], [('counter and waiters under one lock', 'dex_semaphore_wait, dex_semaphore_post_many'), ('close', 'dex_semaphore_close')], [], ['futures returned by wait', 'work items run'])
prop('C11', 'The thread pool runs every item exactly once, whatever is stolen from whom',
     'Every work item pushed to a thread pool scheduler - from any thread, from a worker, in any number - runs exactly once on a worker thread of that pool. This holds while workers take items from each other, while their queues grow or are empty, and while workers fall asleep and are woken; no item is lost, run twice, or left waiting while every worker sleeps.',
     [S, P], 'every program of pushes and every interleaving of owner, thieves and sleepers, including queue growth',
     'The tests push counts of items on real threads and see one schedule each; the windows in the lock-free queue are a few instructions wide.',
     ['dex-work-stealing-queue.c', 'dex-work-stealing-queue-private.h', 'dex-thread-pool-worker.c', 'dex-thread-pool-worker-set.c', 'dex-thread-pool-scheduler.c', 'dex-work-queue.c'],
     [('top and bottom counters with compare and swap', 'dex_work_stealing_queue_pop, dex_work_stealing_queue_steal'), ('fall back to neighbours and the global queue', 'dex_thread_pool_worker')],
     [('q_top, q_bottom, q_array', 'lock-free deque', 'struct _DexWorkStealingQueue')], ['work items run'])
prop('C12', 'The main scheduler runs items in order, once, on its own thread',
     'Work pushed to the main scheduler from any thread runs exactly once, on the thread of its main context, in the order in which it was pushed, and a main loop that is asleep is woken for it. Work pushed while other work runs is not lost and does not overtake.',
     [S, H], 'every interleaving of pushes from any number of threads with dispatches',
     'The tests push from one thread, before the loop runs.',
     ['dex-main-scheduler.c', 'dex-scheduler.c'], [('queue under a lock and wakeup', 'dex_main_scheduler_push'), ('dispatch', 'dex_main_work_queue_dispatch')], [], ['work items run'])
prop('C13', 'Awaiting in a fiber suspends it until the result is there, and only it',
     'A fiber that awaits a future continues exactly once, after the future completed, with its result, on the thread it has always run on; meanwhile other fibers and work make progress. The future of a fiber takes the outcome its function returned - also a pending one, once it completes - and is rejected if the function returns nothing; awaiting outside a fiber is an error and never blocks.',
     [S, P], 'every set of fibers over every schedule and order of completion, completions coming from any thread at any time, including while the fiber is about to suspend',
     'The tests await ready futures or ones completed from the same loop.',
     ['dex-fiber.c', 'dex-future.c', 'dex-scheduler.c'], [('runnable and blocked queues under a lock', 'dex_fiber_scheduler_*'), ('fiber is notified as a chained future', 'dex_fiber_propagate')], [], ['steps logged by fiber functions', 'the fiber future'])
prop('C14', 'A fiber nobody wants any more is told so at its next await, and not before',
     'When the last dependent of a fiber that has not ended is released, the next await of a pending future in that fiber returns DEX_ERROR_FIBER_CANCELLED at once, whether the fiber was suspended, running or not yet started at that time (one that is suspended first gets what it waits for); so does the result of a fiber that then returns a pending future. A fiber that somebody still depends on never sees it. The fiber always runs to its end and everything it holds is released exactly once.',
     [S, P], 'every point of a fiber\'s life at which it can be discarded',
     'The one test discards at a single point.',
     ['dex-fiber.c'], [('cancel mark checked when awaiting', 'dex_fiber_await'), ('wake on discard', 'dex_fiber_discard')], [], ['error of await in the fiber'])
prop('C15', 'Objects live exactly as long as they are referenced, under any interleaving',
     'An object is released exactly once, when its last reference goes, and never while a reference is held; a weak reference yields the object or nothing, never a dying object, and nothing for ever afterwards. Taking, dropping and weakly referencing the same object from several threads never deadlocks, crashes or leaks, and dropping any future at any point of its life (pending, completing, depended upon) is always allowed.',
     [S, P], 'every interleaving of ref, unref, weak set, get and clear, and of releases with completions',
     'The tests use one thread, or hammer two operations and see a few schedules.',
     ['dex-object.c', 'dex-object-private.h', 'dex-future.c'], [('watermark re-check under all locks before finalizing', 'dex_unref'), ('weak reference promotion', 'dex_weak_ref_get')],
     [('ref_count / weak_refs / weak_refs_watermark', 'liveness', 'struct _DexObject')], ['finalization', 'dex_weak_ref_get'])
prop('C16', 'A timeout fires once, never early, and not after it was discarded',
     'A timeout future stays pending until its deadline, however far away that is, and is rejected with DEX_ERROR_TIMED_OUT at the first opportunity after it, never before, on the main loop of the thread that created it (the main loop of the program, where the thread has none of its own); postponing moves the deadline. A timeout that nobody awaits any more is disarmed and leaves no source behind.',
     [S, H], 'every order of creation, postponement, passing of time, racing completions and discards',
     'The tests wait for a few real timers.',
     ['dex-timeout.c'], [('ready-time source', 'dex_timeout_new_deadline, dex_timeout_postpone_until'), ('discard destroys the source', 'dex_timeout_discard')], [], ['dex_future_get_status against the clock'])
prop('C17', 'An async pair reports what its asynchronous operation reported',
     'The future of an async pair resolves to exactly the value its operation delivered, with that type and content, or is rejected with exactly its error (domain, code and message), for every supported type and however often or late it is delivered; a value or error handed over by the caller is released exactly once. Discarding the pair cancels the operation unless cancel-on-discard was turned off, and the callback remains harmless after the pair is gone.',
     [I, S, H], 'every supported return type, value and error, every point of delivery, discard and release',
     'The tests cover one operation and one type.',
     ['dex-async-pair.c'], [('typed returns', 'dex_async_pair_return_*'), ('ready callback holds a reference', 'dex_async_pair_new_ready_callback')], [], ['dex_future_get_value, the cancellable'])
prop('C18', 'An async result calls back exactly once, in its own context, with the outcome',
     'When the future awaited by an async result completes - before, during or after the call, on any thread - or its cancellable is cancelled, the callback runs exactly once, on the main context that created the result, never from within the creating call. At that time the result propagates exactly that outcome: value, error or cancellation.',
     [S, H], 'every order and interleaving of await, completion, cancellation and main loop iterations',
     'The tests complete one future on the main thread.',
     ['dex-async-result.c'], [('idle on the creating context', 'dex_async_result_await'), ('first of future and cancellable', 'dex_async_result_await')], [], ['the callback, dex_async_result_propagate_*'])
prop('C19', 'Typed results come out as they went in, or as a type mismatch',
     'A future created or resolved with a value of some type yields exactly that value through the matching await or get, releases it exactly once, and yields DEX_ERROR_TYPE_MISMATCH and a neutral value through any other; a rejected future yields its own error through all of them. This covers all constructors (booleans, all integers, floats, strings, boxed, objects, enums, flags, fds, pointers) and all awaits.',
     [I, P], 'every pair of constructor and await, boundary values, ready and pending',
     'The tests use the matching pair and one value.',
     ['dex-future.c', 'dex-promise.c', 'dex-fd.c'], [('type test in every await', 'dex_await_*'), ('constructors', 'dex_future_new_for_*')], [], ['dex_await_*, dex_future_get_value'])
prop('C20', 'Asynchronous reads and writes do what the system calls would have done',
     'Every asynchronous read and write is carried out exactly once, at some point between the request and its completion, and completes exactly once with the byte count the corresponding system call gives at that offset (offset -1: at the current position), or rejected with the errno of that call as a G_IO_ERROR. A read stores just the bytes that it reports, a write does not change its buffer, short transfers are reported as such, and a request whose future is released before it completes is carried out all the same and causes no crash or leak. This holds with the thread pool and with io_uring.',
     [S, I, F], 'every mix of reads and writes, lengths, offsets, valid and invalid descriptors, files, pipes and system call faults, from any thread or fiber, and abandonment at any point',
     'The tests read one good file.',
     ['dex-aio.c', 'dex-posix-aio-backend.c', 'dex-posix-aio-future.c', 'dex-uring-aio-backend.c', 'dex-uring-future.c'],
     [('request runs on a pool and completes on its context', 'dex_posix_aio_future_run, dex_posix_aio_context_dispatch'), ('submission and completion queues', 'dex_uring_aio_context_*')], [], ['the future, the file, the buffer'])
prop('C21', 'Cancellables and unix signals become rejections and resolutions faithfully',
     'A future made from a GCancellable is rejected with the cancelled error exactly when that cancellable is cancelled, before or after creation, from any thread, and leaves no handler behind when it is released. A unix signal future resolves with the signal number once after that signal arrives, whichever thread created it and whatever main context that thread has, and stops watching for the signal when it is released.',
     [S, H], 'every order and interleaving of creation, cancellation, delivery and release',
     'The tests cancel once on one thread.',
     ['dex-cancellable.c', 'dex-unix-signal.c'], [('handler installed and removed', 'dex_cancellable_new_from_cancellable, dex_cancellable_finalize'), ('signal source', 'dex_unix_signal_new')], [], ['dex_future_get_value'])
prop('C22', 'GIO wrappers report exactly what the wrapped operation reported',
     'Each wrapper of a GIO operation passes its arguments on unchanged, and its future resolves to exactly the result of that operation (bytes, counts, objects, booleans, lists) or is rejected with its error. It completes once, and discarding it cancels the operation. A D-Bus call with descriptors is a set of two futures, the reply and the descriptor list, which completes as the reply does; it is discarded when it is released.',
     [I, F, H], 'every wrapper, every result and error of the wrapped operation, and discard before completion',
     'The tests use a handful of wrappers on success.',
     ['dex-gio.c'], [('async pair per operation', 'create_async_pair and the *_cb functions')], [], ['dex_future_get_value'])
prop('C23', 'Releasing a thread pool is safe whatever its threads are doing',
     'Releasing a thread pool scheduler neither hangs nor crashes, whatever its threads and other pushers do at that time, and every item pushed before the release runs exactly once, on a worker thread. Afterwards its threads end and nothing the pool owned is left behind.',
     [S, P], 'every interleaving of pushes, running work and the release',
     'The tests mostly leak the pool or release it idle.',
     ['dex-thread-pool-scheduler.c', 'dex-thread-pool-worker.c', 'dex-thread-pool-worker-set.c'], [('stop request and join', 'dex_thread_pool_worker_finalize'), ('set keeps its workers reachable for thieves', 'dex_thread_pool_worker_set_*')], [], ['threads and work items after release'])
prop('C24', 'A file descriptor handed to a future is closed exactly once, by its last owner',
     'A descriptor wrapped in a value, future or promise stays open as long as one owner remains and is closed exactly once after that; stealing or duplicating it transfers or shares ownership as documented, and peeking never does. Copying the value never lets two owners close the same descriptor.',
     [H, P], 'every sequence of wrapping, copying, peeking, stealing, awaiting and releasing',
     'The tests steal once.',
     ['dex-fd.c', 'dex-future.c'], [('descriptor box copied by dup', 'dex_fd_copy'), ('closed on free', 'dex_fd_free')], [], ['descriptors open in the process'])
prop('C25', 'Every fiber has a stack of its own, as large as it asked for',
     'From its first to its last step a fiber runs on a stack which no other fiber, on any thread, uses meanwhile, which is at least as large as was asked for when it was spawned (rounded up to whole pages), a sensible default for 0, and which ends in memory that cannot be written. What a fiber keeps there is intact after every suspension. Stacks of ended fibers are reused or given back: only a few spare ones are kept, and none once its scheduler is gone.',
     [S, P, H], 'every size, every order in which any number of fibers on any number of schedulers start, suspend and end',
     'The tests spawn fibers with small frames and default sizes, and never look at what is mapped.',
     ['dex-stack.c', 'dex-stack-private.h', 'dex-fiber.c', 'dex-fiber-context-private.h'], [('pool of spare stacks per scheduler', 'dex_stack_pool_acquire, dex_stack_pool_release'), ('mapping with a guard page', 'dex_stack_new'), ('stack chosen at the first run, released at exit', 'dex_fiber_ensure_stack, dex_fiber_scheduler_iteration')], [], ['addresses of locals in fibers, the mappings of the process'])

LEVEL = ('TLC explores the bounded instance of the specification exhaustively and explains every recorded run of the real code '
         '(compiled from /repo, every memory access a preemption point of a seeded scheduler). Exhaustive on the specification within its bounds, '
         'sampled on the schedules of the code. Trusts TLC, the driver\'s logging and the instrumenting runtime in dst/.')

def manifest():
    m = dict(version=1, setup_cmd='./setup', checks=[], not_applicable=[],
             notes='No source hooks: the drivers compile /repo/src themselves, instrumented. Defects repaired in /repo are listed in known_findings.txt and DESIGN.md.')
    for p in PROPS:
        if p['id'] in checks.CHECKS:
            m['checks'].append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                                    technique='TLA+ specification, TLC; behaviours replayed on, and recorded runs of the real code checked against it',
                                    level='model_checking', level_note=getattr(checks.CHECKS[p['id']], 'note', '') or LEVEL, evidence_file='evidence/%s.json' % p['id']))
        else:
            m['not_applicable'].append(dict(property=p['id'], reason='Not claimed yet: its specification and conformance driver are not finished.'))
    return m

open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in PROPS))
json.dump(manifest(), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
