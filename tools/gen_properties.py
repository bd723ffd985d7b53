#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Standard-library values arrive equal to what was sent",
  "Any value of a supported standard type (numbers, strings, paths, tuples of every arity, arrays, boxed slices, vectors, lists, sets, maps, Option, Result, nested in any way) that is sent through a channel, passed to a child or returned from it arrives equal to the original: same contents, same element order, same variant, every component in its own place. Reading a value consumes exactly the bytes that writing it produced, so whatever follows it in the same message is intact.",
  ["inputs", "programs"], "every supported type instantiated with any element type, and every value of it",
  "The tests send a few short samples (mostly PODs and homogeneous small collections); element order, swapped components of equal type, odd lengths and what follows a value in the same message are not sampled.",
  ["src/builtins.rs", "src/unsized_builtins.rs", "src/pod.rs", "src/serde.rs"],
  [("impl NonTrivialObject for each built-in type", "src/builtins.rs"), ("impl_serialize_for_tuple!/sequence!/map!", "src/builtins.rs"), ("Box<[T]>", "src/unsized_builtins.rs"), ("blanket Object impl", "src/pod.rs"), ("byte cursor", "src/serde.rs")])

p("C02", "Derived types arrive field for field, variant for variant",
  "Deriving the transferable-object trait on any struct or enum that the derive accepts gives a type whose values arrive with the same variant and every field holding the value it was sent with, for named, tuple and unit shapes, generics, explicit discriminants and fields of equal types alike. The derive works whatever the fields, variants and type parameters are called.",
  ["programs", "inputs"], "every struct/enum shape and naming accepted by the derive, every value of it",
  "The tests derive on three or four small types with conveniently named, differently typed fields; shapes and names of a user's types are unbounded.",
  ["crossmist-derive/src/lib.rs", "src/imp.rs"],
  [("derive_object", "crossmist-derive/src/lib.rs")])

p("C03", "Only plain data is copied bit for bit",
  "A value is transmitted as a raw memory image only if its type, all the way down, holds nothing that is meaningless in another process: no reference, pointer, box, reference-counted pointer, function or vtable address, owned handle or heap collection. This holds for built-in types, for library types and for every derived type, generic or not, and the sending and receiving side always make the same choice.",
  ["programs"], "every type for which the transferable-object trait is available",
  "Tests exercise individual types; that no type with indirection is ever treated as plain data is a statement about all types, and a wrongly plain type often still works inside one process image.",
  ["src/pod.rs", "src/builtins.rs", "src/imp.rs", "crossmist-derive/src/lib.rs", "src/platform/unix/internals.rs"],
  [("PlainOldData impls and bounds", "src/builtins.rs, src/pod.rs"), ("derived PlainOldData where-clauses", "crossmist-derive/src/lib.rs"), ("implements!(T: PlainOldData)", "src/imp.rs, src/pod.rs, src/platform/unix/internals.rs")])

p("C04", "Shared pointers stay shared, distinct ones stay distinct",
  "Within one transmitted object, reference-counted pointers that pointed to the same allocation before sending point to one common allocation after receiving, and pointers to different allocations point to different ones, with each allocation's contents equal to what was sent. This holds for any nesting: shared pointers inside shared pointers, several of them side by side, repeated in any order, and of different types.",
  ["inputs"], "every acyclic graph of Rc/Arc nodes, every order of first and repeated occurrences",
  "The only tests send a pair of clones of one flat pointer; nesting order and mixtures of several shared nodes are never sampled.",
  ["src/builtins.rs", "src/serde.rs"],
  [("learn_cyclic/get_cyclic", "src/serde.rs"), ("impl NonTrivialObject for Rc/Arc", "src/builtins.rs")],
  state=[("cyclic_ids / cyclics", "numbering of shared allocations on either side", "src/serde.rs")])

p("C05", "Every handle arrives exactly once, in its own place",
  "Every file, socket or channel end contained in an object reaches the receiver exactly once and in the field it was sent in, in objects with any number of handles and any nesting; none is dropped, duplicated, or exchanged with another. The sender keeps its own copy open until the object has been sent.",
  ["inputs"], "every object with any number of handles in any arrangement",
  "The tests send objects with one or two handles; order, batching over several packets and handles nested inside delayed or captured objects are not sampled.",
  ["src/serde.rs", "src/builtins.rs", "src/delayed.rs", "src/platform/unix/internals.rs", "src/asynchronous.rs", "src/platform/unix/entry.rs"],
  [("serialize_handle/drain_handles", "src/serde.rs"), ("OwnedHandle and file/socket impls", "src/builtins.rs"), ("descriptor window per packet", "src/platform/unix/internals.rs"), ("descriptor list of the start-up message", "src/asynchronous.rs, src/platform/unix/entry.rs")])

p("C06", "Code and static addresses are rebased into the receiving process",
  "A static reference or function pointer that is transmitted denotes, in the receiver, the same static or function as in the sender wherever either process image is loaded, and calling or dereferencing it uses exactly that address. No address of code, static data or vtables is ever transmitted as an absolute number.",
  ["configurations", "programs"], "every pair of load addresses (ASLR) and every static/function/trait-object pointer sent",
  "A test run may see equal load addresses (non-PIE or disabled ASLR) and covers a handful of pointers; independence of the base is about all load addresses.",
  ["src/relocation.rs", "src/static_ref.rs", "src/fns.rs", "src/unsized_builtins.rs"],
  [("RelocatablePtr", "src/relocation.rs"), ("StaticRef", "src/static_ref.rs"), ("StaticFn", "src/fns.rs"), ("Box<dyn Trait>", "src/unsized_builtins.rs")])

p("C07", "Boxed trait objects keep their concrete type and contents",
  "A boxed trait object arrives as the same concrete type with equal contents: it is rebuilt by the constructor belonging to the type that was sent, paired with that type's method table, and placed on the heap exactly once. Boxes of sized values arrive equal as well.",
  ["programs", "inputs"], "every trait and implementing type, every value",
  "Tests box two or three implementers of one trait; the pairing must hold for every implementer.",
  ["src/unsized_builtins.rs", "src/pod.rs"],
  [("impl NonTrivialObject for Box<T>", "src/unsized_builtins.rs"), ("deserialize_on_heap*", "src/pod.rs")])

p("C08", "Messages of any size arrive whole and separate",
  "An object of any encoded size with any number of handles is delivered as exactly one message: every byte and handle the sender produced reaches the receiver in order, no packet exceeds what the receiving side makes room for or what the OS accepts, and the end of the message is signalled on its last packet and on no earlier one. Objects sent one after another through the same channel never run into each other.",
  ["inputs"], "every message length and number of handles, in particular around packet-size and descriptor limits",
  "The tests send objects of a few sizes; boundary sizes, exact multiples of a packet and several hundred handles in a message are a matter of arithmetic over all lengths.",
  ["src/platform/unix/internals.rs"],
  [("SingleObjectSender::send_next", "src/platform/unix/internals.rs"), ("SingleObjectReceiver::recv_next", "src/platform/unix/internals.rs")],
  state=[("data_pos/fds_pos", "how much has been sent or received", "src/platform/unix/internals.rs")])

p("C09", "A transfer that has to wait resumes exactly where it stopped",
  "When an asynchronous send or receive is told by the OS to wait in the middle of a multi-packet object, it continues later with exactly the next unsent or unreceived byte and handle: nothing is sent twice, skipped, or received into the wrong position, and what was already received is kept. Progress is recorded only for packets the OS actually transferred.",
  ["schedules", "fault_sequences", "inputs"], "every point at which a packet transfer may report that it would block",
  "Whether and where a socket blocks depends on kernel buffers and scheduling; the tests send objects that fit without blocking or cannot choose where it happens.",
  ["src/platform/unix/internals.rs", "src/asynchronous.rs"],
  [("resumable cursor in the sender/receiver", "src/platform/unix/internals.rs"), ("one sender/receiver state per operation", "src/asynchronous.rs")])

p("C10", "End of stream is reported only between messages",
  "A receive reports end of stream exactly when the peer has closed its end and no part of a further message has arrived; if the peer disappears in the middle of a message the receiver gets an error, never a value and never a clean end of stream. A request whose peer closes before answering fails with an error.",
  ["crash_points", "fault_sequences"], "every point of a message at which the peer may die or close the channel",
  "Tests only close channels between messages (or not at all); the crash points inside a message are not sampled.",
  ["src/platform/unix/internals.rs", "src/asynchronous.rs"],
  [("recv_next", "src/platform/unix/internals.rs"), ("Duplex::request", "src/asynchronous.rs")])

p("C11", "Async channels never block the thread, sync channels always complete",
  "On asynchronous channels every transfer is attempted in non-blocking mode and waits through the runtime for the right direction (sends for writability, receives for readability), re-trying the transfer itself after a wake-up; on synchronous channels every operation runs to completion on the calling thread without ever suspending. This is true of every channel kind and runtime, and of channels obtained by conversion.",
  ["schedules", "configurations"], "every runtime (none, tokio, smol), operation and readiness order",
  "A wrong mode or direction usually works as long as the socket happens to be ready; smol has no running tests at all.",
  ["src/asynchronous.rs", "src/blocking.rs", "src/tokio.rs", "src/smol.rs", "src/platform/unix/internals.rs"],
  [("AsyncStream::IS_BLOCKING / blocking_read / blocking_write", "src/tokio.rs, src/smol.rs, src/blocking.rs"), ("flags of sendmsg/recvmsg", "src/platform/unix/internals.rs"), ("block_on", "src/blocking.rs")])

p("C12", "OS failures surface as errors and interruptions are invisible",
  "When the operating system fails an operation on behalf of a channel or child process, the caller gets an error: never a panic, a made-up value, or silence. A signal arriving during a transfer or a join does not make it fail, and handles the OS could not deliver (descriptor limit) make the receive fail.",
  ["fault_sequences"], "every system call the library makes and every error it can return, including interruption and truncation",
  "The tests never provoke failing system calls, signals or descriptor exhaustion.",
  ["src/platform/unix/internals.rs", "src/platform/unix/subprocess.rs", "src/asynchronous.rs", "src/platform/unix/entry.rs", "src/tokio.rs", "src/smol.rs", "src/blocking.rs"],
  [("? on every system-call result", "src/platform/unix/*.rs, src/asynchronous.rs"), ("retry on interruption", "src/platform/unix/internals.rs, src/asynchronous.rs"), ("truncation check", "src/platform/unix/internals.rs")])

p("C13", "Handles never leak into unrelated programs",
  "Every descriptor the library creates or receives is closed automatically in any program later executed by the user's process, at every instant, including a fork+exec on another thread. The only exception is a crossmist child being started, in which exactly its own channel end and the handles passed to it are made inheritable, in the child only, and are protected again there before user code runs.",
  ["schedules", "programs"], "every descriptor, every moment at which another thread may fork and exec",
  "The tests never exec an unrelated program, and the windows are schedule dependent.",
  ["src/platform/unix/internals.rs", "src/platform/unix/subprocess.rs", "src/platform/unix/entry.rs"],
  [("SOCK_CLOEXEC on socketpair, MSG_CMSG_CLOEXEC on recvmsg", "src/platform/unix/internals.rs"), ("disable_cloexec between clone and exec", "src/platform/unix/subprocess.rs"), ("enable_cloexec in the child", "src/platform/unix/entry.rs")])

p("C14", "Starting a child is safe in multi-threaded parents",
  "On the way from its creation to executing the new image, the child performs only operations that are safe while it shares the parent's memory: no heap allocation or release, no access to the parent's locks, no unwinding and no return into the parent's code. If preparing or executing the image fails, the child (after at most a diagnostic message) terminates abnormally without unwinding, exit handlers or destructors; if the process cannot be created the parent gets an error.",
  ["schedules", "fault_sequences"], "every state of the parent's other threads and every failing call in the child",
  "Deadlocks and corruption appear only if another thread holds the allocator lock at the wrong moment, and the error paths are never taken in tests.",
  ["src/platform/unix/subprocess.rs", "src/platform/unix/entry.rs"],
  [("_spawn_child, clone_callback, fork_child_main", "src/platform/unix/subprocess.rs")])

p("C15", "The parent keeps no copy of its child's channel end",
  "Once a child has been started, the parent process holds no open copy of the child's end of the start-up channel, before it sends anything or waits for anything on its own end. Hence the death of a child at any moment is seen as end of stream or an error by the parent, never as an endless wait.",
  ["crash_points", "schedules"], "every moment at which the child may die, on all ways of spawning",
  "The tests' children do not die before reading their start-up message, which is where a stray copy would hang the parent.",
  ["src/asynchronous.rs", "src/platform/unix/subprocess.rs"],
  [("child end moved into the starting routine", "src/asynchronous.rs (spawn), src/platform/unix/subprocess.rs (_spawn_child)")])

p("C16", "Killing never hits a process that was already joined",
  "A kill request sends a signal only to the child it was created for and only while that child has not been reaped; after or during the reaping it fails with an error and signals nobody, whatever threads kill and join run on. Until then, in particular while a join waits for the result, a kill request does reach the child. All kill handles of a child share this protection.",
  ["schedules"], "every interleaving of kill requests with a join on other threads",
  "The race needs a recycled process id between two instructions; a test cannot schedule it.",
  ["src/asynchronous.rs"],
  [("may_kill flag under its mutex", "src/asynchronous.rs (Child::join, KillHandle::kill)")],
  state=[("may_kill", "whether the pid may still be signalled", "src/asynchronous.rs")])

p("C17", "Joining reports the child's real outcome and always reaps it",
  "Joining a child yields its return value only if the child ended normally with status zero and delivered a value; death by signal, a non-zero status, or an exit without a value is an error. Whatever was or was not received from the child, a join that got to the end of the channel waits for exactly that child, so no zombie is left behind. It never waits for a child that is itself waiting for the rest of its message to be read.",
  ["crash_points", "fault_sequences"], "every point at which the child may exit, crash, be killed, or the channel may fail",
  "The tests kill or exit a child at one or two points; the combinations of channel outcome and exit status are not covered.",
  ["src/asynchronous.rs"],
  [("Child::join", "src/asynchronous.rs"), ("if_void", "src/imp.rs")])

p("C18", "A child never runs the user's main and spawning requires set-up",
  "In a child process initialization runs the requested function and ends the process before any of the user's main code; in the parent initialization returns and is harmless when repeated. Starting a child without initialization fails immediately, before any process is created, on every way of spawning.",
  ["programs", "configurations"], "every program and entry form (attribute or explicit call), sync or async main, every spawn variant",
  "A test binary has one main function and one initialization style.",
  ["src/imp.rs", "src/platform/unix/entry.rs", "src/asynchronous.rs", "crossmist-derive/src/lib.rs"],
  [("init / INITIALIZED / perform_sanity_checks", "src/imp.rs"), ("#[main]", "crossmist-derive/src/lib.rs"), ("child entry", "src/platform/unix/entry.rs")])

p("C19", "The child gets its start-up data through the agreed hand-shake",
  "The parent hands a child the number of the child's own channel end, then sends exactly one start-up message with the encoded function and the numbers of the inherited handles in order; the child reads them with the same types and order, adopts each handle once, and exits with the code its entry point produced. The channel end is kept open for the result until then.",
  ["programs", "inputs"], "every function, argument list and set of inherited handles",
  "Sampled by the happy path only; the two sides live in different files and agree only by convention.",
  ["src/asynchronous.rs", "src/platform/unix/subprocess.rs", "src/platform/unix/entry.rs"],
  [("spawn", "src/asynchronous.rs"), ("argv of the new image", "src/platform/unix/subprocess.rs"), ("crossmist_main", "src/platform/unix/entry.rs")])

p("C20", "Every raw handle has exactly one owner",
  "Converting a channel end or file to or from a raw handle, another runtime's type or another half transfers ownership: afterwards exactly one object closes the descriptor, exactly once, on success and failure alike, and borrowing accessors do not give up ownership. The converted object refers to the descriptor of the original.",
  ["programs", "fault_sequences"], "every conversion, including the failing ones",
  "A double close is visible only if the number is re-used in between; a leak is not visible in a short test.",
  ["src/asynchronous.rs", "src/blocking.rs", "src/builtins.rs", "src/platform/unix/entry.rs", "src/platform/unix/internals.rs", "src/tokio.rs", "src/smol.rs"],
  [("TryFrom / IntoRawFd / FromRawFd / AsRawFd impls", "src/asynchronous.rs, src/blocking.rs"), ("raw handles in builtins and entry", "src/builtins.rs, src/platform/unix/entry.rs")])

p("C21", "Bound arguments reach the function in order, for every arity",
  "Calling a partially applied function passes the bound argument first and the remaining arguments after it in their original order, by value, by shared or by mutable reference as bound, and returns the function's result; this holds for every arity, for all three call flavours, boxed or not. A static function pointer is called with its arguments in order.",
  ["programs", "inputs"], "all supported arities (0 to 20), binding and call flavours",
  "The impls are generated for some 20 arities times 3 flavours; the tests call a few small ones with arguments of different types.",
  ["src/fns.rs"],
  [("decl_fn!, impl_fn!, impl_fn_pointer!, CallWrapper", "src/fns.rs")])

p("C22", "Spawning or running a function executes it once with its arguments",
  "For any function marked as spawnable, starting it through any of its entry points (plain or async, sync, tokio or smol) runs it exactly once in the child with the caller's arguments in order, in the runtime it was declared for, and delivers its result, if it has one, as the value of the join; the run variants return exactly that. Calling it directly in-process passes the arguments in order too.",
  ["programs", "inputs"], "every function signature (arity, types, generics, async flavour) and every entry point",
  "The tests spawn a dozen signatures, mostly through the synchronous entry point; arguments of equal type are rare.",
  ["crossmist-derive/src/lib.rs", "src/asynchronous.rs", "src/blocking.rs", "src/tokio.rs", "src/smol.rs", "src/imp.rs"],
  [("#[func] expansion", "crossmist-derive/src/lib.rs"), ("per-runtime spawn", "src/blocking.rs, src/tokio.rs, src/smol.rs")])

p("C23", "Closures capture what was named, as it was named",
  "A transferable closure receives each captured variable by value, shared or mutable reference exactly as written in its capture list, followed by its call arguments in order, and evaluates to the body's result; this holds for any number and mix of captures and arguments.",
  ["programs"], "every capture list and argument list",
  "The tests have a few closures with one or two captures.",
  ["src/fns.rs"],
  [("lambda!, lambda_parse!, lambda_bind!", "src/fns.rs")])

p("C24", "Misuse that would be unsound is rejected at compile time",
  "Code that would send an untransferable type, treat a non-plain type as plain, deserialize or fabricate addresses without unsafe, use a raw conversion or static reference with a non-static target, call a captured-by-value closure repeatedly when its capture cannot be copied, or start a function that takes references as a process does not compile. The corresponding correct programs do compile.",
  ["programs"], "all client programs of the named shapes",
  "Tests only contain programs that compile.",
  ["src/serde.rs", "src/pod.rs", "src/fns.rs", "src/static_ref.rs", "src/delayed.rs", "src/asynchronous.rs", "src/blocking.rs", "src/builtins.rs", "crossmist-derive/src/lib.rs"],
  [("trait bounds, sealed traits, unsafe markers", "src/*.rs")])

p("C25", "Delayed objects are rebuilt only when asked, from their own data",
  "A delayed object travels as an opaque package of its own bytes and handles and is rebuilt only by the explicit call in the receiver, giving a value equal to the original with its own handles; nothing around it is disturbed, with any number of delayed objects per message. Rebuilding one that never travelled or sending one that did is refused rather than yielding a wrong value.",
  ["inputs", "programs"], "every payload, number of handles and position within a message",
  "The tests contain a single delayed object without handles around it.",
  ["src/delayed.rs"],
  [("Delayed", "src/delayed.rs")])

p("C26", "The Windows back end gives the same guarantees",
  "On Windows, channels, handle passing and child processes give the same guarantees as on Unix: values and handles arrive intact and once, errors and end of stream are reported as such.",
  ["configurations"], "the Windows implementation",
  "It is never compiled or run here.",
  ["src/platform/windows/internals.rs", "src/platform/windows/subprocess.rs", "src/platform/windows/entry.rs"],
  [("serialize_with_handles/deserialize_with_handles", "src/platform/windows/internals.rs")])

p("C27", "Abandoning a pending transfer leaves the channel usable",
  "Dropping the future of an asynchronous send or receive before it completes leaves the channel in a state in which later messages are delivered correctly or an error is reported.",
  ["schedules", "histories"], "every point at which a pending transfer may be dropped",
  "Tests never cancel a transfer.",
  ["src/asynchronous.rs", "src/platform/unix/internals.rs"],
  [("per-operation transfer state", "src/asynchronous.rs")])

p("C28", "Two peers that keep receiving never deadlock",
  "If both peers of a channel keep calling receive and the child does not block for other reasons, every send eventually completes.",
  ["schedules"], "all schedules and buffer sizes",
  "Liveness under every schedule and kernel buffer size.",
  ["src/asynchronous.rs", "src/platform/unix/internals.rs"],
  [("blocking sends", "src/platform/unix/internals.rs")])

p("C29", "A failed decoding is reported and releases what it had rebuilt",
  "When some part of a value cannot be rebuilt in the receiver (its own decoding returns an error: bytes that are no text, a stream that the runtime refuses, a handle that cannot be taken over, an error of a user's own type), the whole decoding fails with an error and so does the operation that asked for it: no success with a part missing or made up, no panic, no result nobody looked at. Nothing more is decoded from that point of the stream on, and every part already rebuilt, handles included, is released exactly once.",
  ["inputs", "faults"], "every type, every position of the failing part and every number of parts rebuilt before it",
  "The tests never make a nested decoding fail; each needs its own malformed input or user type and a count of what was released.",
  ["src/builtins.rs", "src/serde.rs", "src/delayed.rs", "src/imp.rs", "crossmist-derive/src/lib.rs"],
  [("deserialize_self_non_trivial of every type", "src/builtins.rs"), ("Deserializer::deserialize", "src/serde.rs"), ("derive(Object)", "crossmist-derive/src/lib.rs")])

p("C30", "A message that fails affects no other message",
  "When one message fails for what it contains (its value cannot be rebuilt, its handles could not be delivered, the user's code for its type panics or returns an error while sending or receiving), the channel stays between two messages: that receive reports the error, the next one returns the next message intact, and a failed encoding has sent nothing. No receive takes anything of another message.",
  ["inputs", "faults", "histories"], "every message size, every point of failure, every sequence of messages",
  "The tests have no message that fails and is followed by another one on the same channel.",
  ["src/platform/unix/internals.rs", "src/asynchronous.rs", "src/blocking.rs"],
  [("SingleObjectReceiver::recv_next", "src/platform/unix/internals.rs"), ("SingleObjectSender", "src/platform/unix/internals.rs")])

p("C31", "Using the library leaves the program's own surroundings alone",
  "Starting, joining and killing children and communicating with them change nothing that belongs to the whole process or to the child's user code: environment, working directory, file mode mask, signal dispositions and masks, session and process group, credentials, limits, panic hook and standard streams stay as they are, in the process that uses the library and in the child, which starts with exactly those of its parent and lives apart from it (its later changes do not reach the parent). No operation ends the calling process, and no process that the library did not start is waited for or signalled.",
  ["programs", "histories"], "every program that uses the library, whatever it keeps in that state",
  "The tests never look at this state, in the parent or in the child.",
  ["src/platform/unix/subprocess.rs", "src/platform/unix/entry.rs", "src/asynchronous.rs", "src/imp.rs", "crossmist-derive/src/lib.rs"],
  [("process creation and exec", "src/platform/unix/subprocess.rs"), ("crossmist_main", "src/platform/unix/entry.rs")])

p("C32", "Ends, children and operations can be used from any thread, and only what is safe to can be",
  "Channel ends, children and kill handles of all three flavours can be moved to another thread and referenced from several, whatever type they transfer (even one that is itself confined to a thread), and the futures of receiving, joining and - for values that can be shared - sending and requesting can be spawned on multi-threaded runtimes. What holds a value of the user (Delayed, lambdas, bound functions, derived types, boxed function objects) can be moved or shared only if that value can, and no operation of a channel end is callable through a shared reference, so that two threads never use one end at the same time.",
  ["programs", "types", "schedules"], "every transferable type and every program that uses threads or a multi-threaded runtime",
  "The tests move a handful of concrete types between tasks of one thread; soundness shows only in programs that the tests do not contain.",
  ["src/blocking.rs", "src/asynchronous.rs", "src/tokio.rs", "src/smol.rs", "src/delayed.rs", "src/fns.rs", "src/serde.rs"],
  [("channel ends", "src/asynchronous.rs"), ("Delayed", "src/delayed.rs")])

p("C33", "Dropping an object lets go of this process's copy and does nothing else",
  "Dropping an object of the library (an end of a channel, a child, a kill handle, a delayed value) closes the descriptors it owns and frees its memory, and does nothing else: it does not wait, lock, communicate, signal or reap a process, and does not end the connection for others that hold the same end, so an end that was sent to another process keeps working there whatever happens to the sender's copy, also when that copy is converted. A child that returns nothing outlives its Child, and kill handles outlive it too.",
  ["programs", "histories"], "every program, whatever it drops and whenever",
  "The tests join the children they start and use an end in one process only, mostly by exiting.",
  ["src/asynchronous.rs", "src/blocking.rs", "src/tokio.rs", "src/smol.rs", "src/delayed.rs", "src/lib.rs"],
  [("Child and KillHandle", "src/asynchronous.rs"), ("documentation of dropping a Child", "src/lib.rs")])

p("C34", "A failed start leaves nothing behind",
  "When starting a child fails, at whatever step (no descriptors, no process, the program cannot be executed, the start-up message cannot be delivered), the caller gets the error and nothing of the attempt remains: the process, if one was created, is waited for until it has ended (no zombie, nothing still running), without the parent waiting for a child that waits for the parent; both ends of its channel are closed; and the function that was to run has not been told to. A later start is not affected. (Abandoning the future of an asynchronous start is not a failure.)",
  ["schedules", "crash points"], "every step of a start at which the operating system or the child may fail, all flavours",
  "The tests start children that start. The failures need limits on descriptors or processes, or an environment too large to execute in, at a particular moment.",
  ["src/asynchronous.rs", "src/platform/unix/subprocess.rs", "src/blocking.rs", "src/tokio.rs", "src/smol.rs"],
  [("spawn", "src/asynchronous.rs"), ("_spawn_child", "src/platform/unix/subprocess.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
