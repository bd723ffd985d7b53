"""What MANIFEST.json says about each check."""
DEFAULT_NOTE = ("Decided from the MIR of the current tree without running it; loops by widening, the operating system and the "
                "standard library by the effect models in /verif/models and analysis/models.py; shapes the rules cannot read are "
                "reported as undecided in the evidence.")
WIRE = "abstract interpretation of MIR (inlined event graph per channel operation) with dataflow rules between consecutive system calls"
PROC = "abstract interpretation of MIR (inlined event graph per public operation) with typestate and value-tracing rules over process creation, join and kill"
CODEC = "abstract interpretation of MIR and lockstep (product) comparison of each type's encoder with its decoder, over checked state lemmas for the primitives"
CHECKS = {
    "C01": (CODEC, "Every implementation of the object trait for standard types, all values and type parameters symbolic: order, types and extent of what is written and read, and equality of the value rebuilt."),
    "C02": (CODEC, "The implementations the derive writes for a witness crate with every kind of data type it accepts (45 types, 340 variants), values and type parameters symbolic."),
    "C03": ("structural type analysis over the type-checked program (all declarations of plain data down to private fields) and dataflow facts at every raw image", "Every type declared plain data and every place where a raw memory image is made or read."),
    "C04": (CODEC, "Rc and Arc with arbitrary contents, nested and repeated: numbering on both sides, identity, what is stored under a number."),
    "C05": (CODEC + "; dataflow rules on the handle lists of channel and start-up", "Every implementation that carries handles, the handle primitives, the descriptor windows of the channels and of the start-up message."),
    "C06": (CODEC + "; value tracing of addresses", "Every address sent is a difference against the program image and the reader inverts it; uses of static pointers use exactly that address."),
    "C07": (CODEC, "Boxes of sized values and trait objects: constructor, method table, heap placement."),
    "C20": ("path-wise typestate of descriptor numbers over MIR of every public function, and value tracing of conversions", "Every public function and trait implementation on every channel back end: owners of each descriptor number along every path; what each conversion and accessor hands out."),
    "C21": ("symbolic evaluation of MIR of every call-trait implementation", "Callee, arguments in order and result of every partial application, wrapper, boxed and static function at every arity and flavour."),
    "C22": ("symbolic evaluation of the MIR that the attribute's expansion compiles to, on a witness crate of every kind of function; call-count typestate and value tracing from entry point to the user's function", "33 functions x six entry points x four direct calls, arguments symbolic: what is started, what its call comes to, what the child calls, in which runtime, what it sends."),
    "C23": ("symbolic evaluation of the MIR that the macro's expansion compiles to, on a witness crate of every mix of captures; call-count typestate and value tracing from captures and arguments to the body", "About 250 closures: all mixes of up to three captures with up to two arguments and longer ones, consumed and called repeatedly; captures, state between calls, arguments, result."),
    "C24": ("compile-fail witnesses: the compiler's type and borrow checker decides pairs of programs (misuse and correct twin) against the crate of the working tree", "157 hand-written pairs and a matrix of every place where a value is transferred with 20 kinds of values that belong to one process; misuse rejected, twins accepted."),
    "C25": (CODEC + "; typestate of the delayed object", "Package of own bytes and handles, rebuilt only on request, refused in the wrong form."),
    "C29": ("error-path analysis of MIR: every path from a failed nested decoding to its end, with loop ranges for memory managed by hand", "Every decoding function of the crate and of the derive witness, and every receive operation: what each does after a part failed, and which elements it releases."),
    "C30": (WIRE, "Every path of every public send/recv between a message system call and the next one, the code of the value's type, or an error: no error before the end marker, user code only before the first and after the last packet."),
    "C31": ("effect analysis of every external call site in MIR, and value tracing of the arguments of clone and exec", "Every external call site of the crate and of macro-generated code by what the callee changes process-wide; clone flags; environment of exec; standard streams; operations that could end the process."),
    "C32": ("type-level encoding: generic programs that need Send/Sync, and compile-fail witnesses with twins, decided by the compiler", "Send and Sync of every public end, child, kill handle and asynchronous operation for every transferable type; every holder of a user value against a value confined to its thread; every operation through a shared reference."),
    "C33": ("drop analysis: type graph of what each public type drops, effect analysis of every Drop implementation reached, and of every external call site", "All fields, transitively, of every public type and back end; every Drop implementation of the crate among them, followed into everything it calls; external call sites that change a socket for all its holders."),
    "C34": ("path analysis (typestate over the inlined control flow): process creation, wait, closing of the channel ends and transfer on every path to an error", "Every path through the public spawn functions of all three flavours that ends in an error."),
    "C08": (WIRE, "Every pair of consecutive sendmsg/recvmsg calls on every path of every public send/recv: positions, markers, buffers, handle lists, packet capacity."),
    "C09": (WIRE, "Every path from a message system call that moved nothing to the next one: position, buffer and handle list unchanged."),
    "C10": (WIRE, "Every path from recvmsg to a result: end of stream only for an empty read at position 0 with nothing pending."),
    "C11": (WIRE, "Flags of every message system call against the blocking discipline of the back end; readiness direction and WouldBlock before every suspension; no suspension in blocking operations."),
    "C12": (WIRE, "Every path from a failed system call: the error reaches the caller, EINTR is retried, truncated handle delivery makes receive fail."),
    "C13": (PROC, "Every descriptor-creating or -receiving call of every public operation, every call site of rustix/libc in the crate, the descriptors the child makes inheritable traced back to the parent's values, and their re-protection before user code."),
    "C14": (PROC, "Every call, drop and lock on every path of the function running in the new process up to exec, every way that function can end, the clone flags, and the parent's paths after a failed creation."),
    "C15": (PROC, "Every path of every public spawn operation: the child's channel end is released after creation and before the parent uses its own end or returns."),
    "C16": (PROC, "Typestate of the lock and the permission flag on every path of join and kill, their agreement on flag and meaning, target and signal, and how child, handles and flag are tied together at creation."),
    "C17": (PROC, "Outcome table of join: all combinations of exit status, signal and received value against every returning path; wait on every path, for exactly the child, after reading the result."),
    "C18": (PROC, "Every path of init and of every public spawn operation against the record kept by init and the mark given to children."),
    "C19": (PROC, "Arguments of exec and the single start-up message on every path of spawn against what init reads, adopts, decodes, calls and exits with."),
}
NOT_APPLICABLE = {
    "C26": "Windows back end: the windows crates are not in the sandbox's cargo cache, so the code cannot be type-checked here; syntax alone does not decide the property.",
    "C27": "Cancellation of an async send/recv at a suspension point followed by further use is a history property of user code holding the half-sent state; no static rule short of forbidding suspension decides it.",
    "C28": "Deadlock-freedom between communicating processes depends on the runtime communication pattern of the user's program, which no sound static argument over this library bounds.",
}
