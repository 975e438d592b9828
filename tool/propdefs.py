#!/usr/bin/env python3
"""Authoring source of properties.jsonl and MANIFEST.json (run to regenerate both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
BUILT = {os.path.splitext(f)[0].upper() for f in os.listdir(os.path.join(V, 'tool/sa/props')) if f.startswith('c') and f.endswith('.py')}


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech='path-sensitive abstract interpretation over LLVM IR', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [dict(name=n, where=w) for n, w in mech],
                           'state': [dict(name=n, meaning=m, where=w) for n, m, w in state], 'observe_at': list(observe),
                           'hook_needed': None}, tech=tech, note=note, na=na))


prop('C01', 'A cancelled coroutine cannot block',
     'While a coroutine is being closed by another one, or while code runs inside the close callback of a handle, every blocking call (yield, sleep, descriptor wait, channel send/receive/choose, bundle wait) and every launch of a coroutine or creation of a handle fails at once with ECANCELED and has no other effect. The prohibition starts before the closed coroutine can run again, ends with the close callback by restoring the previous state, and a coroutine that is not being cancelled never sees ECANCELED from these calls without having been suspended.',
     ['schedules', 'inputs', 'histories'], 'every blocking entry point, on every path, for every argument and every state in which one of the two prohibitions is in force',
     'Tests cancel a coroutine in a handful of blocking calls; a missing or late check in one call, for one of the two causes, shows only when cancellation hits exactly that call.',
     ['cr.c', 'handle.c', 'chan.c', 'libdill.c'], [('cancellation gate', 'cr.c:dill_canblock'), ('close bracket', 'handle.c:dill_hclose'), ('victim flag', 'cr.c:dill_cr_close')],
     [('no_blocking1/2', 'the two prohibitions', 'cr.h')], ['return value and errno of the blocking API', 'effects before return'])

prop('C02', 'Resumption is unique and leaves no registration behind',
     'Whatever ends a suspension (an event, the deadline, or cancellation), everything the coroutine had registered for that wait (channel, descriptor, timer, bundle) is withdrawn before anything else can use it, and no call returns while a registration of it is still in place. Each suspension ends exactly once, the coroutine is scheduled exactly once for it, and the result identifies the registration that fired and the reason.',
     ['schedules', 'histories'], 'every suspension point and every combination of events, deadlines and cancellations that may become due together',
     'Tests rarely make two causes due in the same scheduler round, which is when a stale registration resumes a coroutine twice or touches a dead stack frame.',
     ['cr.c', 'chan.c', 'libdill.c', 'epoll.c.inc', 'poll.c.inc'], [('registration', 'cr.c:dill_waitfor'), ('withdrawal', 'cr.c:dill_docancel and cancel callbacks'), ('suspension', 'cr.c:dill_wait')],
     [('clauses', 'registrations of a suspended coroutine', 'cr.h')], ['registrations reachable at suspension', 'scheduler queue'])

prop('C03', 'Every blocking operation honours its deadline',
     'The deadline given to a blocking call, at any layer from sleeping to message sockets, is the one used for every wait made on its behalf; a non-negative deadline always arms a timer, a negative one never does, and expiry is reported as ETIMEDOUT (sleep reports success). A deadline of zero makes channel operations fail with ETIMEDOUT without suspending when they cannot proceed immediately, and never makes an operation fail that could have succeeded at once.',
     ['inputs', 'schedules'], 'every blocking function, every deadline value and every nested wait on every path',
     'Tests time a few calls with friendly deadlines; a wrong deadline on a second or nested wait, or a wrong result code when it expires there, needs a peer that stalls at exactly that point.',
     ['cr.c', 'libdill.c', 'chan.c', 'fd.c', 'tcp.c', 'ipc.c', 'udp.c', 'prefix.c', 'suffix.c', 'term.c', 'ws.c', 'http.c', 'tls.c', 'socks5.c', 'bsock.c', 'msock.c'],
     [('timer clause', 'cr.c:dill_timer'), ('deadline parameter passing', 'all layers')], [], ['deadline argument at each nested blocking call', 'errno'])

prop('C04', 'Channel messages are transferred once, whole and to the right side',
     'A channel send completes together with exactly one receive on the opposite end of the same channel: the bytes go from the sender buffer to the receiver buffer before either side is told of success, the longest-waiting partner is served first, and if the sizes differ both sides fail with EMSGSIZE and nothing is copied. A choice over several clauses performs exactly one of them, the first ready in order, and reports its index.',
     ['schedules', 'inputs', 'histories'], 'every interleaving of senders, receivers and choosers on both ends, every message size',
     'Tests use one or two partners and one size; pairing mistakes (wrong end, wrong list, wrong partner, copying after waking, size compared on one path only) need several waiters or the rarely used end.',
     ['chan.c'], [('rendezvous', 'chan.c:dill_chsend, dill_chrecv, dill_choose')], [('in/out lists', 'waiting receivers and senders of one end', 'chan.c')], ['copies, wakeups and results of channel calls'])

prop('C05', 'Terminating a channel wakes everyone and frees it exactly once',
     'After one end is marked done, every coroutine waiting on the affected direction is resumed with EPIPE and every later send or receive on it fails with EPIPE, while the opposite direction keeps working; a second done on the same end fails with EPIPE. The channel lives until both ends are closed; the second close wakes all remaining waiters with EPIPE and releases the memory once, only if the library allocated it.',
     ['histories', 'schedules'], 'every order of done and close on the two ends with any number of waiting senders and receivers',
     'Tests have at most a couple of waiters and close the ends in one order; the other order, or the wake-up of the second list, is not exercised.',
     ['chan.c'], [('done', 'chan.c:dill_chdone'), ('close', 'chan.c:dill_halfchan_close')], [], ['wakeups with EPIPE', 'deallocation'])

prop('C06', 'Bundles own their coroutines until they have stopped',
     'A launched coroutine belongs to exactly one bundle until it finishes; waiting on a bundle returns success only when it holds no coroutine, and the waiter is woken when the last one finishes. Closing a bundle cancels each coroutine still in it, waits until that coroutine has stopped, and only then releases its stack, exactly once and never for caller-supplied memory; a coroutine finishing by itself is released by itself exactly once.',
     ['schedules', 'histories'], 'every order of finishing, waiting and closing among coroutines and bundles',
     'The outcome depends on who finishes first relative to a close or wait in progress; tests pick one order.',
     ['cr.c', 'stack.c'], [('launch', 'cr.c:dill_prologue'), ('finish', 'cr.c:dill_epilogue'), ('close', 'cr.c:dill_cr_close, dill_bundle_close')], [], ['bundle membership, stack release'])

prop('C07', 'Handles are valid exactly from creation to close',
     'A handle number refers to one object from its creation until it is closed or its ownership is transferred; any operation on a number that is out of range, closed or transferred fails with EBADF and touches no object. Closing runs the close callback of the object exactly once; numbers are recycled only after that, oldest first, are never handed out twice, and growing the table loses or duplicates none.',
     ['histories', 'inputs'], 'every sequence of create, transfer, query and close, every handle value, every table size and allocation failure',
     'Tests use a few dozen handles in stack order; the growth path, the empty free list and callbacks that create or close handles meanwhile are not reached.',
     ['handle.c'], [('handle table', 'handle.c')], [('free list', 'unused numbers', 'handle.c')], ['handle numbers and EBADF'])

prop('C08', 'A handle only answers for its own type',
     'An operation applied to a valid handle of a different kind fails with ENOTSUP without touching the object or any other state, and each kind of object answers exactly for its own kind and the generic socket or bundle interfaces it really implements. Functions that take a handle over (attach, detach, close) release it even then, and attach functions may report EPROTO for an underlying socket of the wrong kind. The answer for one kind is never reused for another.',
     ['inputs', 'histories'], 'every pair of operation and object kind, in every order of earlier queries on the same handle',
     'There are some 20 kinds and about 60 operations; tests only apply operations to their own kind.',
     ['handle.c', 'bsock.c', 'msock.c', 'tcp.c', 'ipc.c', 'udp.c', 'tls.c', 'http.c', 'ws.c', 'prefix.c', 'suffix.c', 'term.c', 'chan.c', 'cr.c'], [('type query', '*_hquery'), ('query cache', 'handle.c:dill_hquery')], [], ['ENOTSUP'])

prop('C09', 'Library-allocated objects are freed once; caller memory never is',
     'Every object the library allocates is released exactly once on every path: when the handle is closed, when it is detached, or when its creation fails after the allocation, and it is not used afterwards. Objects placed in caller-supplied memory (the _mem variants) are never passed to the deallocator, on success or failure.',
     ['fault_sequences', 'histories', 'inputs'], 'every creation, detach and close function, with a failure at any step',
     'Failure paths after an allocation need injected faults; leaks and frees of caller memory are silent in the tests.',
     ['tcp.c', 'ipc.c', 'udp.c', 'tls.c', 'http.c', 'ws.c', 'prefix.c', 'suffix.c', 'term.c', 'chan.c', 'cr.c', 'happyeyeballs.c', 'socks5.c'], [('mem flag', 'each object'), ('cleanup labels', 'each constructor')], [], ['allocation and release events on each path'])

prop('C10', 'Every OS descriptor the library opens is closed once',
     'A descriptor obtained by opening, accepting or receiving is, on every path, either owned by a returned or existing handle or closed exactly once; closing a socket handle closes its descriptor exactly once, and a descriptor that has been waited on is dropped from the poll set before it is closed. A failing constructor leaves no descriptor behind, and none is used after being closed.',
     ['fault_sequences', 'histories'], 'every constructor and close function with failure at any step',
     'Needs failing system calls at each step; tests never run out of anything.',
     ['tcp.c', 'ipc.c', 'udp.c', 'fd.c', 'happyeyeballs.c'], [('descriptor close', 'fd.c:dill_fd_close')], [], ['open/close events on each path'])

prop('C11', 'Protocol layers own the socket beneath them until detached',
     'Once a protocol is attached to a socket the original handle number is no longer usable and the layer owns the connection: closing the layer closes the socket beneath exactly once, and detaching hands it back exactly once. If attaching or detaching fails, the socket beneath is closed, never leaked and never closed twice, and the handle number of the layer stops being valid.',
     ['fault_sequences', 'histories'], 'every attach, detach and close function of every protocol with a failure at any step',
     'Failure in the middle of attach or detach needs a misbehaving peer or exhausted memory at one exact step.',
     ['prefix.c', 'suffix.c', 'term.c', 'http.c', 'ws.c', 'tls.c', 'tcp.c', 'ipc.c'], [('ownership transfer', 'handle.c:dill_hown')], [], ['close events of the underlying handle on each path'])

prop('C12', 'Failures are reported with their cause and never as success',
     'When a system call, allocation or lower layer an operation depends on fails, the operation reports failure; whenever an operation reports failure it has set errno to a cause, and cleanup on the way out does not overwrite that cause.',
     ['fault_sequences', 'inputs'], 'every public function and callback, every failing step on every path',
     'Tests check return values of the common failures only; a dropped result or a clobbered errno needs a fault at one step.',
     ['*.c'], [('errno discipline', 'every function')], [], ['return value and errno on each failing path'])

prop('C14', 'Half-closed and failed sockets stay that way',
     'Once a socket has been told its own direction is done, sending or a second done fails with EPIPE and sends nothing; once the orderly end of the inbound stream was reported, receiving keeps failing (with EPIPE where the protocol marks the end of the stream itself, with ECONNRESET in framings that have no end marker) and consumes nothing; once an operation in one direction of a byte stream failed midway, so that the position in the stream is lost, every later operation in that direction fails with ECONNRESET without transferring data, and an orderly close or detach no longer reports success. A message received whole but refused, or a single system call that transferred nothing, does not lose the stream.',
     ['histories', 'fault_sequences'], 'every sequence of operations on every socket type',
     'Needs a fault followed by another operation on the same socket, for each of the socket kinds and directions.',
     ['tcp.c', 'ipc.c', 'tls.c', 'http.c', 'ws.c', 'prefix.c', 'suffix.c', 'term.c'], [('direction latches', 'indone/outdone/inerr/outerr flags')], [], ['second operation after a failed or final one'])

prop('C15', 'Concurrent use of one socket direction is refused, then allowed again',
     'On a transport that owns its descriptor (TCP and IPC connections, UDP receive): while one coroutine is inside a send (receive), another send (receive) in the same direction fails with EBUSY, moves no data and leaves the state of the socket as it was. The direction becomes available again when the first call ends, on whichever path it ends.',
     ['schedules', 'fault_sequences'], 'every exit path of every send and receive implementation that excludes concurrent use',
     'An early return that leaves the direction locked needs a failure at one step and a later reuse.',
     ['tcp.c', 'ipc.c', 'udp.c'], [('busy flags', 'rbusy/sbusy')], [], ['busy state at every exit'])

prop('C16', 'The poll set mirrors exactly who waits for what',
     'A wait on a descriptor outside the valid range fails with EBADF, a second wait for the same direction of a descriptor fails with EBUSY, and cleaning a descriptor somebody waits for fails with EBUSY. When the system reports readiness or an error, exactly the coroutines waiting for that descriptor and direction are resumed; before sleeping, the set registered with the system equals the set of current waits; cleaning forgets everything remembered about a descriptor so its number can be reused.',
     ['schedules', 'histories', 'inputs'], 'every sequence of waits, cancellations, cleanups and readiness reports on any set of descriptors, both back ends',
     'Stale interest or a lost change appears only after particular sequences of wait, cancel, close and number reuse.',
     ['epoll.c.inc', 'poll.c.inc', 'libdill.c'], [('change list', 'epoll.c.inc'), ('poll array', 'poll.c.inc')], [], ['epoll_ctl/poll arguments, wakeups'])

prop('C17', 'Socket calls never block the thread or raise SIGPIPE',
     'Every descriptor the library does I/O on is in non-blocking mode first; a would-block result makes only the calling coroutine wait, for the same descriptor and the right direction, and then retry. Every write that can hit a closed peer is made so that it cannot raise SIGPIPE.',
     ['schedules', 'inputs'], 'every descriptor source and every I/O system call',
     'With a fast peer a blocking descriptor behaves the same; SIGPIPE needs a peer closing at the right time.',
     ['fd.c', 'tcp.c', 'ipc.c', 'udp.c'], [('non-blocking switch', 'fd.c:dill_fd_unblock'), ('retry loops', 'fd.c')], [], ['flags and waits around each I/O call'])

prop('C18', 'I/O lists are validated, honoured exactly and left unchanged',
     'A malformed scatter/gather list (inconsistent ends, a cycle, an element in use) is rejected with EINVAL before any I/O; the list the caller passed is left exactly as it was, on success and failure. A buffer with no address means skip and is never dereferenced, every byte of the list in order is transferred exactly once, and nothing beyond it.',
     ['inputs'], 'every list shape, element size, empty element and address-less element, every short transfer',
     'Tests use two or three plain elements; partial transfers inside an element, empty elements and cycles are combinations no test enumerates.',
     ['iol.c', 'fd.c', 'bsock.c', 'msock.c', 'prefix.c', 'suffix.c', 'term.c', 'ws.c', 'tls.c', 'udp.c'], [('list check', 'iol.c:dill_iolcheck')], [], ['stores to caller lists', 'lengths passed to the system'])

prop('C19', 'Input never makes the library write or read outside its buffers',
     'No caller argument and no byte sequence from a peer makes the library write past, or read before or after, its fixed-size buffers or the buffer the caller gave; data that does not fit is refused with EMSGSIZE or a protocol error.',
     ['inputs'], 'every length, name, address, header and frame the caller or peer can supply',
     'Needs the exact boundary size at each fixed buffer.',
     ['suffix.c', 'term.c', 'http.c', 'ws.c', 'socks5.c', 'prefix.c', 'ipaddr.c', 'ipc.c', 'fd.c', 'utils.c'], [('size checks', 'each protocol')], [], ['every copy into or read from a bounded buffer'])

prop('C20', 'Each coroutine has a private, aligned, guarded stack until it ends',
     'A stack is handed to at most one coroutine at a time and comes back exactly once; the number of cached stacks matches the cache and stays within its limit, and a stack taken from the system is given back with the address and protection it was obtained with. The lowest page of a stack is inaccessible whenever the platform supports it, lies outside the usable size reported, and the top is suitably aligned, also for caller-supplied memory.',
     ['histories', 'inputs', 'configurations'], 'every order of launches and terminations, every memory block the caller supplies, allocation and protection failures',
     'Overflow, exhaustion of the cache and failing protection calls are not provoked by tests.',
     ['stack.c', 'cr.c'], [('stack cache', 'stack.c')], [], ['allocation, protection and release addresses'])

prop('C21', 'Timers expire in deadline order',
     'The pending timer that is examined first is always one with the earliest deadline, whatever sequence of additions and removals led there; adding or removing a timer loses, duplicates or reorders no other one. The structure stays a balanced search tree, so the cost per timer stays logarithmic.',
     ['histories'], 'every sequence of insertions and removals of timers with any deadlines',
     'Tree restructuring cases depend on shapes of several dozen timers; tests use a handful.',
     ['rbtree.c'], [('timer tree', 'rbtree.c')], [], ['order of the timer tree'])

prop('C22', 'The scheduler runs ready coroutines in order and keeps polling',
     'Coroutines become running in the order in which they became ready, each exactly once per scheduling; the thread sleeps only when nothing is ready, never past the earliest timer, indefinitely only when there is no timer, and even if coroutines are always ready external events and timers are looked at within about a second. All timers due by then are fired in one go, none early; an interrupted poll is retried.',
     ['schedules', 'histories'], 'every sequence of ready coroutines, pending timers and external events',
     'Starvation, early firing or a lost wake-up shows only under sustained load or exact coincidences.',
     ['cr.c', 'qlist.h'], [('scheduler', 'cr.c:dill_wait')], [], ['poll timeout, queue order, timers fired'])

prop('C23', 'Threads are isolated and each thread is set up and torn down once',
     'All mutable state of the library is private to a thread: coroutines, handles, timers, caches and poll sets of one thread cannot be reached from another, and the few process-wide variables are written only during one-time set-up. The state of a thread is initialised completely before its first use, and at thread or process exit every part of it that owns memory or descriptors is released exactly once.',
     ['schedules', 'configurations'], 'every number of threads and every build configuration',
     'Races on forgotten shared state are invisible in single-threaded tests.',
     ['ctx.c', 'ctx.h', 'stack.c', 'now.c', 'ipaddr.c', 'pollset.c'], [('per-thread context', 'ctx.c')], [], ['storage class of all mutable variables; init/term pairing'])

prop('C24', 'Switching coroutines preserves the machine state it must',
     'Suspending and resuming a coroutine preserves the stack pointer, the instruction pointer and all registers the calling convention requires to be preserved, storing and reloading each at the same place and declaring everything else as clobbered, on every supported architecture path that is built; the switch never writes outside the saved-context area.',
     ['configurations', 'programs'], 'every user program and compiler register allocation, per supported architecture',
     'Whether a lost register matters depends on what the compiler keeps in it at that call.',
     ['libdillimpl.h', 'libdill.h', 'cr.c'], [('context switch', 'libdill.h: dill_setjmp_, dill_longjmp_, DILL_SETSP')], [], ['assembly templates and constraints'])

prop('C25', 'WebSocket frames follow the masking, size and control rules',
     'Frames sent by a client are always masked with the transmitted mask and frames sent by a server never are; the length is encoded in the shortest of the three forms and decoded the same way. A frame received with the wrong masking, a reserved bit, an opcode that is not supported (pings and pongs included) or out of sequence fails the connection with a protocol error, and so does an improper control frame. A message spread over several frames is delivered whole; a close frame is delivered with its status and text and ends the inbound stream with EPIPE, and nothing follows one that was sent.',
     ['inputs', 'histories'], 'every frame header a peer can send, every message size, both roles',
     'Header byte combinations and the size boundaries (125/126, 65535/65536) are not enumerated by tests.',
     ['ws.c'], [('framing', 'ws.c')], [], ['header bytes written; reactions to header bytes read'])

prop('C26', 'Message framings delimit exactly what was sent',
     'A length-prefixed message is preceded by its exact size in the configured width and byte order, and a size that does not fit, or a received size larger than the buffer, is refused with EMSGSIZE; a terminated message ends with exactly the configured terminator and the returned size excludes it. The receiver consumes exactly the bytes of one message, header and terminator included.',
     ['inputs'], 'every message size, header width, byte order and terminator',
     'Size boundaries of each width and terminators split over reads are not enumerated.',
     ['prefix.c', 'suffix.c', 'term.c'], [('framing', 'prefix.c, suffix.c, term.c')], [], ['bytes handed to and taken from the layer beneath'])

prop('C27', 'Peer data cannot crash the process',
     'Whatever bytes a peer sends, and whatever errors the system reports for a connection, the library returns an error from the operation concerned; it never terminates the process through an internal assertion, and never follows a null pointer for any combination of documented optional arguments.',
     ['inputs', 'fault_sequences'], 'every byte sequence from the peer, every network error, on every protocol path',
     'Assertions on peer-controlled values are reachable only by malicious input that tests do not send.',
     ['socks5.c', 'ws.c', 'http.c', 'ipc.c', 'tcp.c', 'udp.c', 'tls.c', 'fd.c', 'ipaddr.c'], [('assertions', 'utils.h:dill_assert')], [], ['abort sites reachable from received data'])

prop('C28', 'Wire integers are encoded in the documented byte order',
     'The helpers writing 16, 32 and 64-bit integers put each byte of the value at the place network (big-endian) order requires, write exactly that many bytes, and the corresponding readers read exactly those, for every value and any alignment. The port of an IP address of either family is stored in, and read from, network order.',
     ['inputs'], 'all values of each width', 'Tests send a few small sizes whose high bytes are zero.',
     ['utils.c', 'utils.h', 'ipaddr.c'], [('byte order helpers', 'utils.c'), ('ports', 'ipaddr.c')], [], ['byte lanes'])

prop('C29', 'Storage types given to users are large and aligned enough',
     'For each constructor that places an object into caller-supplied storage, the public storage type is, in every build configuration, at least as large and as strictly aligned as the object placed there, and nothing is written beyond it.',
     ['configurations', 'inputs'], 'every _mem constructor in every build configuration',
     'An overflow by a few bytes into caller memory is silent, and only some configurations have the larger layout.',
     ['libdill.h', '*.c'], [('storage types', 'libdill.h')], [], ['object sizes against storage sizes'])

prop('C30', 'Wire primitives compute their published algorithms',
     'SHA-1, Base64 and the WebSocket accept key are computed as published for every input.',
     ['inputs'], 'all byte strings', 'Only fixed vectors can be tested.', ['utils.c', 'ws.c'], [('hash', 'utils.c')], [], [],
     na='numeric equality with a published function over all inputs is not decidable by dataflow or typestate rules; a known-answer test would be a runtime test')
prop('C31', 'Round-trip equality of data through protocol stacks',
     'What one side sends through any stack of protocols arrives unchanged on the other side.',
     ['inputs', 'programs'], 'all data, all stacks of protocols', 'Infinite combinations.', ['*.c'], [('protocols', '*.c')], [], [],
     na='end-to-end value equality across two processes and the kernel is a run-time relation; the per-layer obligations it rests on are claimed as C18, C25, C26 and C28')
prop('C32', 'Timing accuracy and scheduling latency bounds',
     'A timer fires within a bounded time after its deadline and a ready coroutine runs within a bounded time.',
     ['schedules'], 'all loads', 'Depends on machine load.', ['cr.c', 'now.c'], [('scheduler', 'cr.c')], [], [],
     na='real-time bounds depend on the machine and on user code between blocking calls; the logical part (deadline forwarding, firing order, poll timeout) is claimed as C03, C21 and C22')
prop('C33', 'TLS confidentiality and certificate handling',
     'Data sent over a TLS socket is encrypted and authenticated with the negotiated session.',
     ['inputs'], 'all sessions', 'Delegated to OpenSSL.', ['tls.c'], [('TLS', 'tls.c')], [], [],
     na='a property of OpenSSL, whose source is not in the repository; the ownership and error discipline of the wrapper is covered by C09, C11, C12 and C14')
prop('C34', 'DNS answers are resolved and cached correctly',
     'Host names resolve to the addresses the configured name servers return.',
     ['inputs', 'histories'], 'all names and server replies', 'Needs a network.', ['ipaddr.c', 'dns/dns.c'], [('resolver', 'dns/')], [], [],
     na='correctness of a full DNS client against arbitrary replies (a bundled third-party library of 10k lines) is value-level protocol conformance, out of reach of a sound static argument here')

prop('C35', 'HTTP messages and the WebSocket handshake are formed and understood exactly',
     'A received request line, status line or header line yields exactly its parts, with the blanks around a value left out; a line that is not of the form is refused with EPROTO, a part that does not fit the buffer with EMSGSIZE, and the empty line ends the header, in each case after taking exactly one line. A line sent consists of exactly the arguments, and arguments that would break it (blanks or line ends in a command or resource, separators in a name, an empty value, a status out of range) are refused before anything is sent. A WebSocket handshake succeeds, on either side, exactly if every header it needs is there, once, with the right value in any case and order, and the accept key belongs to the key that was sent; otherwise it fails with EPROTO; request and response are complete, and exactly the handshake is taken from the stream.',
     ['inputs'], 'every line the peer or the caller can supply, every set of headers of a handshake',
     'A handful of well-formed messages is tested; malformed lines, missing or repeated headers and blanks in odd places are not.',
     ['http.c', 'ws.c'], [('lines', 'http.c'), ('handshake', 'ws.c')], [], ['lines and header sets compared with the grammar'])

prop('C36', 'SOCKS5 negotiation does what was asked, and only that',
     'A client offers exactly the methods it can carry out, sends credentials only if both were given and the proxy chose that method, then asks for exactly the given address or name and port, and reports success exactly if the proxy did; each reply code gives its own errno and every departure from the protocol EPROTO. A proxy lets a client in without credentials only if it demands none, and otherwise only if the application accepted exactly the credentials received; a client that must not get in is told so and the call fails with EACCES. A command yields exactly its code, host and port, and a reply is sent exactly as given. Invalid arguments are refused with EINVAL. Exactly the bytes of the negotiation are taken from the stream.',
     ['inputs', 'fault_sequences'], 'every byte sequence of the peer, every length of names and credentials, every reply code, the stream ending or failing at any point',
     'Tests negotiate between two ends of the library with few, well-formed inputs; refusals, odd methods, long names and malformed replies do not occur.',
     ['socks5.c'], [('client', 'socks5.c'), ('proxy', 'socks5.c')], [], ['negotiations compared with RFC 1928 and 1929'])

prop('C37', 'A name becomes exactly the addresses it stands for',
     'A literal, the name of an interface or the name of a host yields addresses only of the families the mode allows, the preferred family first, each with exactly the bytes found, the port given and nothing undefined; the number returned is that of the addresses which exist and fit, and no lookup is made for a literal. A port or mode that does not exist is refused whatever the name is, a name without an address is reported as the manual says, every failure of the system or of the resolver is reported with its error, waits for the resolver go in the direction it asks for and carry the deadline, and lists, queries and entries are released exactly once on every path. Family, length, port, text and equality of an address are those of its parts.',
     ['inputs', 'fault_sequences'], 'every mode, port and array size, every list of interfaces, every sequence of answers of the resolver, every step blocking or failing',
     'Tests use a few literals; lookups need a network, interfaces are those of the machine, and failures of the resolver do not occur.',
     ['ipaddr.c'], [('local names', 'ipaddr.c'), ('remote names', 'ipaddr.c')], [], ['lookups compared with a specification over all answers'])

prop('C38', 'Happy Eyeballs tries every address in turn and leaves one connection',
     'happyeyeballs_connect asks for the addresses of both families of the name; every address found, and nothing else, is attempted once, in order: an IPv6 address first if one comes within 50 ms, then the families in turn as long as both have addresses left, each attempt 300 ms after the one before or as soon after that as an address is there. The first connection made is returned, failures and the deadline are reported with their error, and on every path, including cancellation at any point, all other connections, coroutines and channels are closed, coroutines before the channels they use.',
     ['schedules', 'fault_sequences'], 'every number of addresses and time of the answers, every point of cancellation, every failure of a step',
     'A dozen hand-written timings are tested; late answers, missing families and cancellation at each step are not.',
     ['happyeyeballs.c'], [('coordination', 'happyeyeballs.c')], [], ['attempts compared with the description over all arrival times and cancellation points'])

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
        elif p['id'] not in BUILT:
            na.append({'property': p['id'], 'reason': 'no check built yet'})
        else:
            checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                           'technique': p['tech'], 'level': 'other',
                           'level_note': p['note'] or 'Static: every path of the functions named in the evidence file is enumerated over the abstract domain of the engine (loops widened or unrolled on bounded list shapes, callees inlined or summarised); no code is run. Trusts clang, the libc/kernel summaries and the list of entry points.'})
    m = {'version': 1, 'setup_cmd': 'tool/build.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks compile the current /repo sources to LLVM IR and decide on the IR; see DESIGN.md. No hooks in /repo.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'checks')
