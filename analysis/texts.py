"""What the rules of the channel and process analyses say (for the evidence files)."""
WIRE = {
"S0-shape": "Every sendmsg of a send operation carries a one-byte marker followed by one slice of the payload.",
"S0-sites": "Every send operation reaches a sendmsg.",
"S1-start": "The first packet starts at the first byte of the payload.",
"S1-fds-start": "The first packet carries handles from the first on.",
"S1-value": "The payload is the image of the given value, or all of what a serializer produced from exactly that value.",
"S1-handles": "The handles sent are all handles that the same serializer collected.",
"S2-next-position": "After a packet that the OS took, the next one starts right behind the bytes that the OS reports as taken (less the marker).",
"S2-next-handles": "After a packet that the OS took, the next one carries handles from right behind those it carried.",
"S2-same-value": "All packets of an operation are cut from the same payload.",
"S2-same-socket": "All packets of an operation go to the channel's own socket.",
"S3-ok-after-last": "Success is reported only behind a packet marked as the last one.",
"S3-stop-after-last": "No packet follows the one marked as the last one.",
"S4-marker-data": "A packet is marked as the last one only if it reaches the end of the payload.",
"S4-marker-handles": "A packet is marked as the last one only if it carries the last handle.",
"S4-marker-value": "The marker is 1 on the last packet and another value on every other.",
"S6-in-range": "Byte and handle ranges of a packet lie within payload and handle list (no panic, no truncation).",
"S6-packet-fits": "No packet has more bytes than any receive operation makes room for.",
"S6-handles-fit": "No packet has more handles than any receive operation makes room for.",
"S6-handles-limit": "No packet has more handles than the OS accepts (SCM_MAX_FD).",
"S7-handles-attached": "The handles of a packet are handed to sendmsg in its control message, and that cannot silently fail.",
"S8-no-panic": "No path of a send ends in a panic.",
"M1-boundary": "A receive that fails because of what a message contains has taken the whole message (its end marker was seen).",
"M2-complete-first": "Code of the value's type that rebuilds it runs only after the last packet was taken.",
"M3-one-message": "Nothing more is taken from the channel after that.",
"M4-no-retry": "Its outcome, even a failure that looks like an empty channel, is returned: the operation does not go back to waiting and then panic.",
"M4-serialized-first": "Code of the value's type that serializes it runs only before the first packet is sent.",
"R0-shape": "Every recvmsg of a receive operation reads a one-byte marker followed by the payload.",
"R0-sites": "Every receive operation reaches a recvmsg.",
"R1-start": "The first packet is stored at the start of an empty buffer.",
"R2-buffer": "What earlier packets brought is kept in place when a further packet is received.",
"R2-marker": "Reception goes on only while the marker of the packet just received is not the one of last packets.",
"R2-next-position": "The next packet is stored right behind the bytes that the OS reports for the previous one (less the marker).",
"R2-same-socket": "All packets of an operation come from the channel's own socket.",
"R3-marker": "A value is delivered only behind a packet marked as the last one.",
"R3-value-received": "The value delivered is made of what was received.",
"R3-data": "The value is decoded from the receive buffer.",
"R3-data-start": "The value is decoded from the first received byte on.",
"R3-data-length": "The value is decoded from exactly the bytes received.",
"R3-not-empty": "A value is never delivered for a recvmsg that brought nothing.",
"R4-eof-empty": "End of stream is reported only when recvmsg brought nothing at all.",
"R4-eof-between": "End of stream is reported only when no byte of a message had arrived.",
"R4-eof-handles": "End of stream is reported only when no handle of a message had arrived.",
"R4-clean-eof": "When recvmsg brings nothing, and no part of a message had arrived, end of stream is reported.",
"R5-eof-progress": "Reception does not go on once recvmsg brought nothing.",
"R8-no-panic": "No path of a receive ends in a panic (apart from those that a dead precondition excludes).",
"R9-handles-taken": "The handles of every packet are taken from its control message.",
"R9-handles-kept": "Handles taken earlier are kept when further ones are added, in order.",
"R9-handles-earlier": "Handles of earlier packets come before those of later ones.",
"R9-handles-delivered": "All handles taken are handed to the decoder of the value.",
"W1-resume-position": "After an attempt that transferred nothing the send goes on with the same bytes.",
"W1-resume-handles": "After an attempt that transferred nothing the send goes on with the same handles.",
"W2-resume-position": "After an attempt that received nothing the receive goes on at the same position.",
"W2-resume-buffer": "After an attempt that received nothing the receive keeps what it had received.",
"B1-flags": "Transfers use MSG_DONTWAIT exactly on the channels of an asynchronous runtime.",
"B2-direction": "A send waits for writability, a receive for readability.",
"B3-no-suspend": "No operation of a synchronous channel can suspend.",
"B4-can-suspend": "Operations of an asynchronous channel can suspend.",
"B5-waits": "An operation of an asynchronous channel that would block waits instead of failing.",
"E1-send-error-returned": "A failing sendmsg makes the send return that error, unless the attempt is repeated.",
"E1-recv-error-returned": "A failing recvmsg makes the receive return that error, unless the attempt is repeated.",
"S8-message-socket": "Channels are made of SOCK_SEQPACKET sockets, which keep packets apart and deliver them in order.",
"B6-socket-waits": "Sockets used by blocking operations (also the child's end of its channel) are never non-blocking.",
"W2-resume-handles": "Handles received before a wait are still there after it.",
"R4-eof-failure": "A failed recvmsg is not reported as the end of the stream.",
"E2-send-eintr": "An interrupted sendmsg is repeated, not reported.",
"E2-recv-eintr": "An interrupted recvmsg is repeated, not reported.",
"E3-send-spurious-error": "No error is made up behind a successful send.",
"E3-recv-spurious-error": "No error is made up behind a complete message.",
"E4-truncated-handles": "A message some of whose handles the OS dropped (MSG_CTRUNC) makes the receive fail.",
"E4-remembered": "... whichever packet of the message it was.",
"E5-deserialize-error": "An error of decoding is reported as such.",
}
PROC = {
"F1-errors-reach-caller": "The error of every fallible operating-system or channel operation on the way of a public function reaches its caller as an error.",
"X1-recv-cloexec": "Handles are received with MSG_CMSG_CLOEXEC.",
"X2-created-cloexec": "Descriptors the library creates are created close-on-exec (atomically).",
"X3-no-exposure": "Close-on-exec is removed from no descriptor outside the child that is about to execute its image.",
"X4-own-end": "The child makes its own channel end inheritable before executing its image.",
"X4-handles": "The child makes the handles passed to it inheritable before executing its image.",
"X4-all-handles": "... all of them, whatever their number.",
"X4-child-set": "... and the list it uses is the list of handles collected from the function to run.",
"X5-own-end": "A started child makes its channel end close-on-exec again before user code runs.",
"X5-handles": "A started child makes the inherited handles close-on-exec again before user code runs.",
"X5-all-handles": "... all of them, whatever their number.",
"X6-call-sites": "Every place that changes close-on-exec is one of those analysed.",
"P1-flags": "The child is created with the flags that keep the parent suspended and deliver SIGCHLD.",
"P1-files": "The child gets its own table of descriptors (what it changes stays its own).",
"P1-suspended": "The parent does not run while the child shares its memory.",
"P2-safe-calls": "Up to executing the image, everything the child calls is async-signal-safe (no allocation, no locks).",
"P2-exec": "The child gets to executing the image.",
"P3-no-locks": "The child takes no lock of the parent.",
"P3-no-release": "The child drops and frees nothing that belongs to the parent.",
"P4-ends": "If the image cannot be executed the child ends abnormally at once (no exit handlers, no return).",
"P4-no-unwinding": "No panic can unwind out of the child's code.",
"P5-prepared": "What the child needs is allocated before it is created.",
"P6-create-error": "If the process cannot be created the caller gets the error.",
"P6-create-pid": "Otherwise the pid the OS returned is the one recorded.",
"Q0-request-shape": "A request sends, then receives once.",
"Q1-request": "The result of a request follows from the results of its send and its receive: their errors, the answer, or an error at end of stream.",
"Q1-identified": "The child's end of the start-up channel is identified.",
"Q2-before-use": "The parent's copy of the child's end is closed before the parent sends or waits.",
"Q3-released": "The parent's copy of the child's end is closed on every way out.",
"Q4-no-copy": "The child's end is not duplicated or stored elsewhere.",
"J0-waits": "Every join reaches a wait for the child.",
"J1-exact-child": "The wait is for exactly the child joined.",
"J1-blocking-wait": "The wait is a blocking one.",
"J2-read-first": "The channel is read before waiting.",
"J3-always-reaps": "Every way out of a join that got to the end of the channel has waited.",
"J7-unread-end-closed": "When receiving the result failed, the channel end is closed before the wait: a child blocked on sending the rest gets an error instead of waiting for ever.",
"J4-outcome": "For every combination of receive result and wait status the outcome is the specified one (value only for status zero with a value, or a unit result).",
"J4-covered": "Every such combination is covered by some path.",
"J5-wait-error": "A failing wait is reported.",
"K1-one-meaning": "The permission flag means the same to kill and to join.",
"K1-revoke-locked": "Join revokes the permission under the lock.",
"K1-revoke-before-reap": "... before the child is reaped, keeping the lock until it is.",
"K2-kills": "A kill with permission sends a signal.",
"K2-locked": "A signal is sent only while the lock is held.",
"K3-permission": "A signal is sent only while the permission stands.",
"K4-signal": "The signal is SIGKILL.",
"K4-target": "It goes to the child the handle was made for.",
"K5-honest": "A kill reports success only if it sent the signal.",
"K5-usable": "A poisoned or revoked permission leads to an error or panic, never to a signal.",
"K6-shared": "All kill handles of a child share its permission.",
"K6-pid": "A kill handle holds the pid of its child.",
"K7-fresh": "A new child starts with permission.",
"K8-killable": "Waiting for the result neither holds the lock nor withdraws the permission.",
"I1-records": "Initialization is recorded.",
"I1-always-records": "... on every path.",
"I2-marker": "The argument that marks a child is the one that initialization recognises.",
"I2-first-argument": "The mark counts only as the program's whole name.",
"I2-recognised": "A process started with it runs the child's entry.",
"I3-child-ends": "The child's entry never returns.",
"I4-only-children": "Only a process so marked runs the child's entry.",
"I5-refuses": "Starting a child without initialization fails.",
"I5-spawn-checks": "... on every way of spawning, before the process is created.",
"H1-argv": "The argument vector of the child is name, number of its channel end, and a null pointer.",
"H1-image": "The image executed is the running program's own.",
"H1-number": "The number passed is that of the child's channel end ...",
"H1-same-end": "... the same end that is made inheritable.",
"H2-message": "The parent sends exactly the agreed start-up message ...",
"H2-once": "... exactly once ...",
"H2-order": "... after creating the process ...",
"H2-sent": "... and nothing but an error returns without having sent it.",
"H2-data": "Its first part is the encoding of the function to run.",
"H2-handles": "Its second part is the numbers of the collected handles in order.",
"H2-own-end": "It is sent on the parent's end.",
"H2-result-end": "The result is read from the same end.",
"H3-same-type": "Child and parent agree on the type of the message.",
"H4-own-end": "The child reads it from the channel end whose number it was given.",
"H4-adopted": "The child adopts every handle number once, in order.",
"H5-data": "The child decodes the function from the received bytes ...",
"H5-handles": "... with the adopted handles ...",
"H5-decoded": "... exactly once, as the type that was encoded.",
"H6-number-passed": "The function gets the number of the child's end for its result.",
"H6-end-kept": "The child's end stays open until then.",
"H6-status": "The exit status is the code the entry point produced.",
}
_W = "All channel operations of all channel kinds (sync, tokio, smol; sender, receiver, duplex, request; plain and other objects) with everything they call inlined; a graph of abstract states between system calls; "
_P = "The functions that create, join, kill and run a child, for every runtime, with everything they call inlined, path by path; "
EXPLAIN = {
"C08": _W + "linear arithmetic over positions, capacities and lengths per packet, and growth of the handle list.",
"C09": _W + "the state kept over a wait compared with the state before the attempt.",
"C10": _W + "what is returned at end of stream, in terms of what had been received.",
"C11": _W + "flags, wait direction and suspension points per channel kind.",
"C12": "Every fallible call on every path of every public function: where its error goes. " + _W + "errors, interruptions, lost handles.",
"C30": _W + "where errors arise and user code runs, relative to the first and last packet of a message.",
"C13": _P + "who changes close-on-exec, when, on what.",
"C14": _P + "the child's way from creation to exec: effects, calls and ends.",
"C15": _P + "ownership of the child's channel end in the parent.",
"C16": _P + "lock and permission typestate of kill and join.",
"C17": _P + "a table of outcomes per receive result and wait status.",
"C18": _P + "dominance of initialization and its check.",
"C19": _P + "both sides of the start-up hand-shake compared term by term.",
}
RULES = {p: (dict(WIRE, **PROC)) for p in EXPLAIN}
