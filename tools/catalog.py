"""
The property catalogue: single source for properties.jsonl and MANIFEST.json (run tools/build.py after editing).

Every entry: id, title, statement, over, text, why, files, mechanism [(name, where)], technique, note, (na = reason).
"""
CORE = 'scarletio/core/'
TRAPS = CORE + 'traps/'
LOOP = CORE + 'event_loop/'
PT = CORE + 'protocols_and_transports/'
HC = 'scarletio/http_client/'
WC = 'scarletio/web_common/'
WS = 'scarletio/web_socket/'

P = []


def prop(id, title, statement, *, over, text, why, files, mechanism, note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, note=note, na=na))


prop('C01', 'Futures and tasks reach exactly one outcome and every waiter sees it',
     'A future or task leaves the pending state exactly once and never changes its outcome afterwards; everyone awaiting it is resumed '
     'only after that, with that very result, exception or cancellation, and each done-callback runs exactly once. '
     'A cancellation accepted by a task is delivered at its current or next suspension point (and propagates to what it is waiting for), so a task never '
     'silently survives it. An exception nobody retrieved is reported when the future is dropped, a retrieved one is not.',
     over=['programs', 'schedules', 'inputs'],
     text='every program of tasks awaiting futures, tasks and timers, with results, exceptions, cancellations (with or without an exception), callbacks and removals at any point between two steps of the event loop',
     why='Unit tests complete or cancel one future at a chosen moment; what matters is every interleaving of completion, wake-up, cancellation and callbacks, including the one cycle between completion and wake-up.',
     files=[TRAPS + 'future.py', TRAPS + 'task.py', LOOP + 'event_loop.py'],
     mechanism=[('future completion and callbacks', TRAPS + 'future.py'), ('task stepping, wake-up and cancellation', TRAPS + 'task.py'), ('callback scheduling', LOOP + 'event_loop.py')])

prop('C02', 'Callbacks and timers run once, in order, never early, never after cancel',
     'Callbacks scheduled "soon" run exactly once, in the order they were scheduled; a timed callback runs exactly once, not before its deadline on the loop clock and '
     'no later than the first moment the loop is free after it, and timers due at different times run in deadline order. '
     'A cancelled callback never runs, a weakly scheduled one runs only while its target is alive. '
     'A callback that raises is reported and affects no other callback.',
     over=['programs', 'schedules', 'inputs'],
     text='every program of soon/after/at/weak scheduling and cancellation from tasks and callbacks, any delays (zero, negative, equal, sub-nanosecond, long), any clock tick and any lateness of the selector',
     why='Tests run a few timers against the real clock; ordering, rounding and cancellation races depend on relative deadlines, selector lateness and long callbacks that real-clock tests cannot choose.',
     files=[LOOP + 'event_loop.py', LOOP + 'handles.py', 'scarletio/utils/weak_core.py'],
     mechanism=[('timer heap and ready queue', LOOP + 'event_loop.py'), ('handles', LOOP + 'handles.py')])

prop('C03', 'Timeouts fire when due, never early, and never destroy a completed result',
     'A future or task given a timeout ends with the timeout error if it is still pending at the deadline and otherwise keeps its own outcome; it is never timed out early, '
     'and a completed operation leaves no timer that acts later. A repeated timeout interrupts an iteration that exceeds its own limit and no iteration that stays within it. '
     'Waiting from another thread with a timeout raises the timeout without changing the outcome of the waited future.',
     over=['schedules', 'inputs', 'programs'],
     text='every combination of deadline, completion instant (before, at, after), cancellation instant, and nesting of timeouts, with a late selector and slow callbacks',
     why='A test samples one completion far from the deadline; the defects are in the same-cycle races between deadline, completion and cancellation.',
     files=[TRAPS + 'future.py', TRAPS + 'task.py', TRAPS + 'timeouting.py', TRAPS + 'future_wrapper_sync.py', WC + 'helpers.py'],
     mechanism=[('apply_timeout', TRAPS + 'future.py'), ('repeat_timeout', TRAPS + 'timeouting.py'), ('Timeout', WC + 'helpers.py')])

prop('C04', 'Locks: mutual exclusion, no lost wake-up, no leak under cancellation',
     'At most one task is inside an asynchronous lock at a time and waiters get in, first come first served. '
     'A waiter that is cancelled or times out at any instant neither keeps nor loses the lock: whenever nobody is inside, the lock reads as free and the next waiter gets in, so no waiter waits forever.',
     over=['schedules', 'programs', 'fault_sequences'],
     text='every set of tasks entering, holding, nesting out of and leaving a lock, with cancellations and timeouts at every point, including between release and wake-up',
     why='The leak needs a cancellation in the cycle between the release and the wake-up of the waiter; tests cancel waiters that are far from being woken.',
     files=[TRAPS + 'locks.py'],
     mechanism=[('lock waiters queue', TRAPS + 'locks.py'), ('multi-holder lock', TRAPS + 'locks.py')])

prop('C05', 'Events: set releases every waiter, none is missed, none is released early',
     'Every task waiting on an event when it is set is released, a wait on a set event does not block, and no wait ends before the event was set. '
     'Cancelling or timing out one waiter does not disturb the others.',
     over=['schedules', 'programs'],
     text='every interleaving of set, clear, wait and cancellation over several tasks of a loop',
     why='Tests use one waiter and one set from the same loop; the missed wake-up needs set/clear to race with registration and cancellation across waiters.',
     files=[TRAPS + 'event.py'],
     mechanism=[('event waiters', TRAPS + 'event.py')])

prop('C06', 'Async queues deliver every element exactly once, in order',
     'Every element put into an asynchronous queue is received exactly once, in first-in-first-out (or last-in-first-out) order, also when getters or putters are cancelled at any moment; only elements dropped by '
     'the documented maximal length are lost. A getter never waits while an element is available, a putter waiting for room never waits while there is room, and after the queue ended every remaining element '
     'is received first and every getter then gets the given exception.',
     over=['schedules', 'histories', 'programs'],
     text='every history of put / get / no-wait get / iteration / cancellation / end over several producers and consumers, bounded and unbounded',
     why='Element loss needs a getter cancelled in the cycle in which an element was handed to it, or two getters sharing one wake-up; tests never produce this.',
     files=[TRAPS + 'queues.py'],
     mechanism=[('queue waiter hand-off', TRAPS + 'queues.py')])

prop('C07', 'Task groups account for every task and wait forms return at the right time',
     'Every future added to a task group is, at any time, in exactly one of the pending or done sets and is handed out exactly once by popping or iterating. '
     'Waiting for all / first / exception / first-n / next completes as soon as its condition holds and not before, also when members are already done, duplicated, fail, get cancelled or are added meanwhile; '
     'cancelling a wait leaves the members untouched, cancelling the group cancels all pending members.',
     over=['programs', 'schedules', 'histories'],
     text='every sequence of additions, waits of all kinds, pops, cancellations and member completions in any order and in the same or different loop cycles',
     why='Conditions on counts depend on the order in which members complete relative to the creation and wake-up of the wait; tests use a few fixed orders.',
     files=[TRAPS + 'task_group.py'],
     mechanism=[('task group', TRAPS + 'task_group.py')])

prop('C08', 'The task limiter never exceeds its limit and waits for everything',
     'A limited executor never runs more coroutines at once than its limit, leaving its scope waits for all of them, and an error of one of them is raised to the user with the rest cancelled. '
     'Cancelling the user of the executor cancels and finishes all its tasks.',
     over=['schedules', 'programs'],
     text='every limit, number and duration of coroutines, failures and cancellation instants',
     why='Over-admission and forgotten tasks need a completion, failure or cancel at the instant an addition waits.',
     files=[TRAPS + 'async_executing.py'],
     mechanism=[('admission and overflow', TRAPS + 'async_executing.py')])

prop('C09', 'Shielding and wrapping pass the outcome on and protect the source',
     'The outcome of a shielded or wrapped future is passed on unchanged, also when the source completes concurrently with the wrapping. '
     'Cancelling the shield never cancels the source and a shielded result arriving afterwards causes no error. '
     'Cancelling a wrapper created for another loop or thread cancels its source, exactly once.',
     over=['schedules', 'programs'],
     text='every instant of completion / cancellation of the source and of the wrapper, on one loop, across loops and from threads',
     why='Cross-thread completion racing with the creation of the wrapper cannot be scheduled by a test.',
     files=[TRAPS + 'future_wrapper_async.py', TRAPS + 'future_wrapper_sync.py', TRAPS + 'future_chaining.py'],
     mechanism=[('shield', TRAPS + 'future_chaining.py'), ('wrappers', TRAPS + 'future_wrapper_base.py')])

prop('C10', 'Cyclers call every function once per cycle until cancelled',
     'A cycler calls each of its functions exactly once per cycle, in priority order, at the set period; a failing function does not stop the others or later cycles, and functions added, removed or rescheduled '
     'in between take effect from the next call. After cancelling, nothing is called any more.',
     over=['programs', 'schedules'],
     text='every sequence of append, remove, period change, call-now, reschedule and cancel from inside and outside the functions, at any time',
     why='Interaction of reschedule/cancel with the pending timer depends on the instant; tests cannot afford the real-time periods.',
     files=[LOOP + 'cycler.py'],
     mechanism=[('cycler', LOOP + 'cycler.py')])

prop('C11', 'Async generators are finalised on their loop',
     'An asynchronous generator left unfinished gets closed: its cleanup code runs on the event loop that iterated it, when it is dropped or at the latest when the loop shuts its generators down, and no later failure of another generator prevents it.',
     over=['programs', 'schedules'],
     text='every number of generators, suspended at any point, dropped or alive at shutdown, with failing or awaiting cleanups',
     why='Finalisation depends on garbage collection instants and on the thread that iterates; no test reaches it.',
     files=[LOOP + 'event_loop.py', CORE + 'top_level'],
     mechanism=[('generator hooks and shutdown', LOOP + 'event_loop.py')])

prop('C12', 'Work handed to a loop from other threads runs exactly once and answers',
     'Callbacks, coroutines and futures handed to a running event loop from other threads are run exactly once, per thread in the order handed over, and wake the loop if it sleeps. '
     'The calling thread gets the outcome (or its timeout), never a hang or a lost or foreign outcome.',
     over=['schedules', 'programs'],
     text='every preemptive interleaving of the calling threads with the loop thread at bytecode-call granularity, with the loop idle, polling or busy',
     why='Lost wake-ups and check-then-act races need a thread switch between two particular instructions.',
     files=[LOOP + 'event_loop.py', TRAPS + 'future_wrapper_sync.py', TRAPS + 'future.py'],
     mechanism=[('thread safe scheduling and wake-up', LOOP + 'event_loop.py'), ('sync wrapper', TRAPS + 'future_wrapper_sync.py')])

prop('C13', 'Executor calls run once and their outcome arrives',
     'Every function handed to an executor runs exactly once on another thread and its result or exception arrives at its future, whatever the number of threads; cancelling the future before the call starts or during it never corrupts '
     'another call. Workers are reused, claimed workers run in order and are given back, and cancelling the executor ends every worker. A thread queue hands out each element once, in order.',
     over=['schedules', 'programs', 'fault_sequences'],
     text='every preemptive interleaving of submissions, completions, cancellations, claims, releases and shutdown, including failure to start a thread',
     why='The hand-over between pool, worker and loop are check-then-act sequences over threads.',
     files=[LOOP + 'executor.py', CORE + 'event_loop'],
     mechanism=[('executor', LOOP + 'executor.py')])

prop('C14', 'Moving a task to a thread and back keeps its flow; a paused loop runs nothing',
     'Code in a block that moves a task to an executor thread runs there and code after it back on the loop of the task, exactly once and in program order. '
     'Results, exceptions and cancellations cross the border unchanged, each cancellation is delivered once, and no path leaves the task hanging. '
     'A thread that pauses a loop gets it promptly, the loop runs nothing until the thread leaves the block, then goes on.',
     over=['schedules', 'programs'],
     text='every awaiting pattern inside the block, every exception / cancellation instant, any thread interleaving, failure to start a thread',
     why='The hand-over between loop and thread depends on the interleaving and on where the cancellation falls.',
     files=[TRAPS + 'task_thread_switcher.py', LOOP + 'event_thread_suspender.py', TRAPS + 'future_wrapper_sync.py'],
     mechanism=[('enter_executor', TRAPS + 'task_thread_switcher.py'), ('enter', LOOP + 'event_thread_suspender.py')])

prop('C15', 'A loop starts once, stops when told and runs what it accepted',
     'A loop started from any number of threads runs once and a starter returns only when it is usable; if the start fails, users are told and do not hang. '
     'Callbacks thrown by users, of any exception type, never end the loop and what it accepted while running runs exactly once, on its own thread. '
     'Stopping it from anywhere ends its thread within bounded time, runs what it accepted before, releases its executors and descriptors; an ended loop refuses everything and nobody waits for it forever (handing over concurrently with the stop may be dropped).',
     over=['schedules', 'crash_points'],
     text='every interleaving of starting, submitting and stopping threads, with stop at any moment, including during start',
     why='Lifecycle races need particular thread switches.',
     files=[LOOP + 'event_loop.py', LOOP + 'event_thread_suspender.py'],
     mechanism=[('start / stop', LOOP + 'event_loop.py')])

prop('C16', 'Asynchronous socket operations transfer exactly the bytes',
     'Asynchronous receive, send-all, connect and accept on raw sockets transfer exactly the bytes (or connections) in order under partial transfers, would-block answers, and errors, and raise the operating system error when there is one. '
     'A cancelled operation stops observing the socket and steals nothing from the next operation.',
     over=['fault_sequences', 'schedules', 'inputs'],
     text='every segmentation, short transfer, delay, reset, refusal and cancellation instant',
     why='Loopback tests never see short writes or would-block at chosen points, nor cancellation between readiness and retry.',
     files=[LOOP + 'event_loop.py'],
     mechanism=[('socket_receive / socket_send_all / socket_connect / socket_accept', LOOP + 'event_loop.py')])

prop('C17', 'Stream transports deliver a gap-free ordered prefix and close exactly once',
     'What the peer receives is always a prefix of what was written, in order, without loss or duplication, and all of it when the transport is closed gracefully and the connection lives. '
     'The protocol sees connection made, then data in order, then end-of-file at most once, then connection lost exactly once and nothing afterwards; after an abort or error nothing more is delivered. '
     'Pausing reading stops delivery until resumed and writing beyond the high water mark pauses the protocol until the buffer drains.',
     over=['fault_sequences', 'schedules', 'programs'],
     text='every sequence of write, write-lines, end-of-file, pause, resume, close, abort from inside and outside of the protocol callbacks over a network with segmentation, delay, short writes, stalls, half-close and reset',
     why='Ordering over partial writes, watermarks and close/abort in callbacks depend on the kernel answers that loopback never gives.',
     files=[PT + 'transport_layer.py', LOOP + 'event_loop.py'],
     mechanism=[('socket transport', PT)])

prop('C18', 'Datagram endpoints send and hand over each datagram intact and close once',
     'Each datagram sent is passed to the operating system once, in order, unmodified, also after the socket was full; each datagram received is handed to the protocol once, in arrival order, with its sender address. '
     'Send errors are reported without stopping the endpoint, and closing flushes what was buffered and reports the end of the connection exactly once.',
     over=['fault_sequences', 'schedules', 'programs'],
     text='every pattern of would-block answers, refused datagrams, loss, duplication, reordering, pause, close and abort',
     why='The buffer path is reached only when the kernel queue is full, which a loopback test cannot produce on demand.',
     files=[PT], mechanism=[('datagram transport', PT)])

prop('C19', 'Stream reads do not depend on how the bytes were cut into chunks',
     'Reading exactly n bytes, until a marker, a line, until the end, or up to n bytes returns the same bytes for any segmentation of the same stream, and consumes exactly what it returned. '
     'If the connection ends first, the read fails with the end or the connection error instead of hanging or returning wrong data; a cancelled read loses at most what it had itself taken, too much unread data pauses the sender and reading resumes it.',
     over=['inputs', 'schedules', 'fault_sequences'],
     text='every byte stream, every cut into chunks, every sequence of reads, every delay, end or reset position',
     why='Chunk boundaries inside a marker and end-of-stream at any offset are a combinatorial space; tests feed the data in one or two chunks.',
     files=[PT, LOOP], mechanism=[('read protocol', PT)])

prop('C20', 'Payload streams hand every received chunk to the consumer and end properly',
     'A streamed payload yields exactly the bytes fed, in order, read whole or chunk by chunk and for any interleaving with the producer; it ends only after everything was read, a connection error reaches the reader, and '
     'a slow reader pauses the sender. A reader which is cancelled or leaves early aborts the payload, which is reported once and never mistaken for a complete one, and messages behind it are not mixed with it.',
     over=['schedules', 'inputs', 'programs'],
     text='every feed schedule, read pattern, cancellation and error instant',
     why='Interleavings of the feeding parser and the reading task decide it.',
     files=[PT], mechanism=[('payload stream', PT)])

prop('C21', 'TLS transports carry the same stream and shut down cleanly',
     'Over TLS the peer receives exactly the bytes written, in order, for any cut of the encrypted stream; the protocol is connected only after a successful handshake and is told of the loss exactly once. '
     'A failed handshake, a corrupted record or a reset is reported as an error and never delivered as data; after close or shut down nothing is sent unencrypted, what was written before is flushed, and nothing stays open once the peer ended too.',
     over=['fault_sequences', 'schedules', 'inputs'],
     text='every segmentation of the encrypted stream, truncation, corruption, reset or stall position and close instant on either side',
     why='Handshake and shutdown states are driven by segment boundaries which loopback tests do not control.',
     files=[PT], mechanism=[('ssl transport', PT)])

prop('C22', 'Subprocesses: pipes carry all bytes and the exit code always arrives',
     'Everything the child wrote is received in order and everything fed to it arrives, without deadlock for any sizes, and every waiter gets the exit code once the child ended and its output is drained. '
     'A timeout or a cancellation ends only the wait, and closing or losing pipes early neither hangs nor reports another exit status.',
     over=['schedules', 'fault_sequences', 'programs'],
     text='every interleaving of child output, input consumption, pipe closing, child exit and kill with any pipe capacity, with pipes or inherited streams',
     why='Real children give one schedule per run; deadlocks and lost exit codes need exit and pipe end to come in a given order.',
     files=[CORE + 'subprocess'], mechanism=[('async process', CORE + 'subprocess')])

prop('C23', 'Servers serve every accepted connection and close completely',
     'Every connection accepted by a listening server gets its own protocol, connected exactly once. Closing the server stops accepting, wakes everyone who was waiting for its end once the connections are gone, and transient accept failures do not stop it from serving later connections.',
     over=['schedules', 'fault_sequences'],
     text='every timing of connecting, disconnecting, server start, close and descriptor exhaustion',
     why='Accept failure and close/connect races cannot be produced on demand.',
     files=[LOOP + 'server.py', LOOP + 'event_loop.py'], mechanism=[('server', LOOP + 'server.py')])

prop('C24', 'HTTP responses are parsed the same for every segmentation, or rejected',
     'The status, headers and body reported to the user are those of the response sent, however it was cut into segments and whichever framing (length, chunked, until close) and compression was used. '
     'A truncated or malformed response raises an error instead of returning a complete-looking response, and never hangs after the connection ended.',
     over=['inputs', 'fault_sequences', 'schedules'],
     text='every well-formed response, every segmentation and delay, every truncation point',
     why='Tests parse whole messages from memory; cut points inside a header, chunk size or compressed block are a space of their own.',
     files=[HC + 'client_response.py', WC, PT], mechanism=[('response parser', PT), ('response', HC + 'client_response.py')])

prop('C25', 'Every HTTP response belongs to its own request, on pooled connections too',
     'The response handed to a request is the response the server gave to that request: a pooled connection is reused only for the same destination, only after the previous response was received completely and only while usable. '
     'Unfinished, failed, cancelled or closed exchanges never leak bytes into a later exchange, expired idle connections are closed, and closing the client closes every connection.',
     over=['histories', 'schedules', 'fault_sequences'],
     text='every history of concurrent and consecutive requests, with partial reads, cancellations, server closes (also while idle), early responses and delays',
     why='Mixed-up responses need a particular history on a shared connection; existing tests make isolated requests.',
     files=[HC], mechanism=[('connection pool', HC + 'connector_base.py'), ('connection', HC + 'connection.py')])

prop('C26', 'HTTP requests end: timeout, cancellation and connection loss release everything',
     'A request ends with a response or an error no later than its timeout after which nothing of it runs or stays open: cancelled, timed out and failed requests close their connection and leave no task, timer or socket behind. '
     'No server behaviour makes a request hang beyond its timeout.',
     over=['fault_sequences', 'crash_points', 'schedules'],
     text='every stall, close, reset or garbage at any byte of connecting, handshake, sending, or receiving; timeout or cancellation at any instant',
     why='Tests cannot stall a server at every byte, nor cancel at every await.',
     files=[HC, WC + 'helpers.py'], mechanism=[('request execution', HC + 'http_client.py'), ('connect', HC + 'connector_base.py')])

prop('C27', 'HTTP requests are framed correctly on the wire',
     'The bytes sent for a request form exactly one well-formed request with the given method, target, headers and body, whatever the body kind (bytes, text, form, json, file, multipart, async stream), size, compression or chunking, '
     'and whatever the speed of the server.',
     over=['inputs', 'schedules', 'fault_sequences'],
     text='every body kind and size with a server that reads at any speed, in any segments, or stops reading',
     why='Back-pressure and partial writes while the body is produced lazily are not reached by tests.',
     files=[HC + 'client_request.py', PT, WC], mechanism=[('request writer', HC + 'client_request.py')])

prop('C28', 'Redirects are followed safely and within the limit',
     'Redirects are followed up to the limit with the method, body and target the protocol prescribes and end with the final response, the history, or an error, with every intermediate connection released. '
     'Credentials and cookies given for one host are not sent to a different host, and cookies are sent only where their domain, path, security and lifetime allow.',
     over=['histories', 'inputs', 'fault_sequences'],
     text='every chain of redirects over statuses, targets, hosts, methods, and failures on the way',
     why='It is a property of request sequences between several servers; tests have none.',
     files=[HC + 'http_client.py'], mechanism=[('redirect loop', HC + 'http_client.py')])

prop('C29', 'Websocket messages arrive whole, in order, unmodified',
     'Every message sent over a websocket is received by the other side exactly once, in order and unmodified, for any size, fragmentation, compression, mix of control frames and network segmentation, in both directions at once. '
     'Protocol violations by the peer (bad masking, reserved bits, opcodes, lengths, invalid text) close the connection with the right code and never deliver data. '
     'Only peers that complete a valid opening handshake get a connection, others get an error answer (or exception), and their connection is closed.',
     over=['inputs', 'schedules', 'fault_sequences'],
     text='every message sequence, fragmentation, segmentation, concurrent senders, slow consumers, and malformed frame',
     why='Frame reassembly over arbitrary cuts with interleaved control frames and concurrent senders cannot be enumerated by tests.',
     files=[WS, PT], mechanism=[('websocket protocol', WS + 'web_socket_common_protocol.py')])

prop('C30', 'Websockets always finish closing, and nobody waits forever',
     'Once either side closes, the peer fails or the network dies, both sides end closed in bounded time with matching close codes, and every pending receive, send, ping and close call returns or raises. '
     'Messages received before the close stay receivable, and no task, timer or socket is left behind.',
     over=['fault_sequences', 'crash_points', 'schedules'],
     text='every instant of close, simultaneous close, reset, stall or cancellation, from either side, during any operation',
     why='Closing handshakes race with data, peers that never answer and cancellations.',
     files=[WS], mechanism=[('closing', WS + 'web_socket_common_protocol.py')])

prop('C31', 'DNS queries return the answers of the asked servers or fail in bounded time',
     'A resolution returns the addresses of a valid answer to its own question, retries other servers and attempts when a server is silent, fails or answers garbage, and otherwise fails within the configured time. '
     'Datagrams that do not belong to the query are ignored, truncated answers are retried over TCP, and no socket is left open.',
     over=['fault_sequences', 'inputs', 'schedules'],
     text='every loss, delay, duplication, reordering, corruption, error answer and silent server',
     why='Resolver robustness is about packet loss, late answers and hostile answers which unit tests of the parser do not contain.',
     files=['scarletio/dns_query'], mechanism=[('requests', 'scarletio/dns_query/requests.py'), ('query', 'scarletio/dns_query/query.py')])

prop('C32', 'Host resolution and connection fallback reach any reachable address',
     'Connecting to a host tries its resolved addresses until one answers and fails only when all failed. Concurrent lookups of one host share one resolution, cached results expire, and a failed or cancelled lookup neither poisons the cache nor the other waiters.',
     over=['schedules', 'fault_sequences', 'histories'],
     text='every set of addresses with any of them refusing, silent or failing, concurrent requests, cancellation of any of them and time passing',
     why='Shared lookups with cancellations, and mixed address failures need a simulated resolver and network.',
     files=[HC + 'connector_tcp.py', HC + 'host_info_basket.py', LOOP + 'event_loop.py'], mechanism=[('resolution cache', HC + 'connector_tcp.py')])

prop('C33', 'Streamed archives and resources reproduce their content',
     'A zip archive produced as a stream is a valid archive containing exactly the given files, for any chunking of their content, and a streamed resource gives every consumer the same bytes. '
     'A failing or cancelled source ends the stream with the error, never with a truncated archive that looks complete.',
     over=['inputs', 'fault_sequences', 'schedules'],
     text='every set of files, sizes, chunkings, compression, name collisions, and failure or cancellation instant',
     why='Chunk boundaries, concurrent consumers and failures in the middle of a stream are not sampled by tests.',
     files=['scarletio/streaming'], mechanism=[('zip streaming', 'scarletio/streaming/zip_streaming'), ('resource streaming', 'scarletio/streaming/resource_streaming')])

prop('C34', 'The asyncio emulation keeps the semantics of its wait functions and primitives',
     'Code written against the asyncio interface gets the documented behaviour: gather keeps the order and propagates the first error, waiting forms return at their condition, timeouts raise in time and cancel what they cover, and queues, locks, semaphores and conditions neither lose wake-ups nor exceed their limit.',
     over=['programs', 'schedules'],
     text='every program over the emulated waiting functions and primitives with failures, timeouts and cancellations at any instant',
     why='The emulation maps asyncio to other primitives; equivalence is a property of programs and instants.',
     files=['scarletio/ext/asyncio/asyncio.py'], mechanism=[('emulation', 'scarletio/ext/asyncio/asyncio.py')])

prop('C35', 'Weak collections never show a dead entry and never drop a live one',
     'Weak sets, maps and dictionaries behave as their ordinary counterparts over the entries which are still alive, also when entries die while they are iterated or modified.',
     over=['histories', 'schedules'],
     text='every history of operations with objects dying at any point, including during iteration',
     why='Entries dying during an iteration depend on the instant an object is released.',
     files=['scarletio/utils/weak_set.py', 'scarletio/utils/weak_map.py', 'scarletio/utils/weak_key_dictionary.py', 'scarletio/utils/weak_value_dictionary.py', 'scarletio/utils/weak_item_dictionary.py', 'scarletio/utils/hybrid_value_dictionary.py', 'scarletio/utils/weak_core.py'],
     mechanism=[('iteration guards and pending removals', 'scarletio/utils/weak_core.py')])

prop('C36', 'URLs, headers and cookies survive parsing and rendering unchanged',
     'Parsing and rendering urls, query strings, content types, multi-value headers and cookie headers are consistent: rendering a parsed value and parsing it again gives the same value, and no input makes a parser loop or crash with an unrelated error.',
     over=['inputs'], text='every input string', why='Input space.',
     files=['scarletio/web_common/url', 'scarletio/web_common/content_type.py', 'scarletio/utils/multi_value_dictionary.py'],
     mechanism=[('parsers', 'scarletio/web_common')],
     na='Pure functions of their argument: no scheduling, clock, I/O, randomness, or other party takes part, so there is nothing for a simulator to schedule or to make fail.')

prop('C37', 'Tracebacks, highlighting and documentation helpers render any input',
     'Rendering exceptions, tracebacks, highlighted code and docstrings never fails and keeps all of the text, whatever the exception chain, frame or source file.',
     over=['inputs'], text='every exception, source and configuration', why='Input space.',
     files=['scarletio/utils/trace', 'scarletio/utils/highlight'], mechanism=[('rendering', 'scarletio/utils/trace')],
     na='Pure text rendering; no concurrency, time, I/O or multi-party behaviour for it to depend on.')
