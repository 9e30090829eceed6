WHYH = "The stable tests complete each request a few times in one fixed order; %s are never enumerated, and a flaw shows only after a particular history or interleaving."
SHM = ["src/mpi/shmem.c", "src/mpi/ext_mpi_native.c"]
IFC = ["src/mpi/ext_mpi_interface.c", "src/mpi/ext_mpi.c", "src/mpi/hash_table.c"]
P("C08", "A persistent collective can be started any number of times",
  "One initialised collective can be started and completed again and again, also with changed buffer contents, and freed and initialised again, and every round delivers the same kind of result as the first one: no round sees data, flags or messages of an earlier or later round, however far one rank runs ahead of another. This holds for every collective and for alternating and non-alternating buffers.",
  [HIS, SCH, CFG], "all collectives, numbers of rounds, re-creation histories and interleavings in which ranks are one round apart", WHYH % "long sequences of rounds with ranks running ahead",
  ["src/mpi/ext_mpi_native_exec.c", "src/mpi/ext_mpi_native.c", "src/core/no_first_barrier.c"], [("start", "EXT_MPI_Start_native"), ("round counters and flags", "ext_mpi_exec_native"), ("barriers between rounds", "src/core/no_first_barrier.c")], EXPL, NOTE)
P("C09", "Operations in flight at the same time do not disturb each other",
  "Several persistent collectives, on the same or on different (also overlapping, permuted or partial) communicators, may be initialised, started, in flight and completed in any mutually consistent order; each one delivers exactly the result it would deliver alone. No message or flag of one operation is ever taken for one of another.",
  [PRG, SCH, CFG], "pairs of all collectives on one or two communicators, triples on overlapping communicators, interleavings", WHYH % "combinations of operations on several communicators",
  CORE + ["src/mpi/shmem.c"], [("tags", "EXT_MPI_Allreduce_init_native"), ("progress", "EXT_MPI_Wait_native"), ("communicators", "EXT_MPI_Allreduce_init_general")], EXPL, NOTE)
P("C10", "Every started collective completes on every rank",
  "If every rank of the communicator starts a collective and waits for it, every rank's wait returns after finitely many steps, under every fair interleaving and under every permitted buffering behaviour of the message layer, including ranks that start different requests in different orders before they wait. No deadlock, no endless polling on a flag that nobody will set, and no mismatch of internal calls can occur.",
  [SCH, CFG, PRG], "all interleavings and message buffering behaviours within the bounds, all collectives, layouts and port schemes", "Deadlocks depend on the arrival order of ranks and on message buffering; a test run sees one order on one MPI library with small eager messages.",
  ["src/mpi/ext_mpi_native_exec.c", "src/mpi/clean_barriers.c", "src/core/no_first_barrier.c", "src/core/no_socket_barriers.c"], [("waiting", "ext_mpi_exec_native"), ("completion", "EXT_MPI_Wait_native"), ("removal of barriers", "ext_mpi_clean_barriers")], EXPL, NOTE)
P("C11", "Start, test and wait calls follow the request semantics of MPI",
  "A persistent collective can be started alone or with several others by one call, inspected without being completed, and completed with any of the single, any, some and all forms of test and wait, differently on different ranks and mixed with inactive and null requests: a test reports completion only when the operation is complete on that rank, repeated testing reaches completion, a completed request becomes inactive and can be started again, and indices, counts and flags returned identify exactly the completed requests. After any completion the receive buffer holds the result.",
  [HIS, SCH, PRG], "sequences of start, test and wait calls of all forms on up to three requests, interleavings", WHYH % "test calls, any/some/all forms and inactive requests",
  IFC + ["src/mpi/ext_mpi_native.c"], [("test", "EXT_MPI_Test"), ("wait", "EXT_MPI_Wait"), ("lists of requests", "src/mpi/ext_mpi_interface.c")], EXPL, NOTE)
P("C12", "Memory is touched only inside live buffers",
  "Initialisation, execution and release read and write only memory the library allocated and has not freed, the shared segments it has attached, and the parts of the user's buffers that the arguments describe; a receive buffer that is not significant on a rank may be null. This holds for every collective, layout, count, type, alignment and supported setting.",
  [CFG, INP, SCH], "all collectives, layouts, counts, types, misaligned buffers, null non-significant buffers, port schemes", "Out-of-range accesses of a few bytes stay unnoticed in a test run; their occurrence depends on layout and counts that no test uses.",
  CORE + ["src/mpi/shmem.c", "src/core/raw_code.c", "src/core/byte_code.c", "src/core/read_write.c"], [("buffer layout", "src/core/buffer_offset.c"), ("execution", "ext_mpi_exec_native"), ("schedule storage", "src/core/read_write.c")], EXPL, NOTE + " Accesses of compiled library code are checked individually by instrumentation; memcpy-like calls are checked by range.")
P("C13", "Send buffers and non-significant buffers are left unchanged",
  "No collective, neither while it is initialised (with or without the self check) nor while it runs, changes the contents of a send buffer, of a receive buffer on a rank where it is not significant, or of any receive buffer before the operation is started. Sizes, roots and settings do not matter.",
  [CFG, INP, HIS], "all collectives, roots, layouts, counts, port schemes, with and without self check", "The tests compare only results in receive buffers; no test looks at send buffers, at buffers of non-root ranks or at buffers between initialisation and start.",
  CORE + ["src/mpi/debug_persistent.c", "src/core/use_recvbuf.c", "src/core/use_sendbuf_recvbuf.c"], [("self check", "src/mpi/debug_persistent.c"), ("use of the user's buffers", "ext_mpi_generate_use_sendbuf_recvbuf"), ("execution", "ext_mpi_exec_native")], EXPL, NOTE)
P("C15", "Blocking collectives deliver results on every call",
  "A blocking allreduce, allgather or reduce_scatter_block delivers its result on every call, on any communicator, also repeatedly, with changing buffers and between persistent operations in flight.",
  [PRG, SCH, CFG], "sequences of blocking calls alone and between persistent operations, interleavings", WHYH % "sequences of blocking calls mixed with persistent ones",
  ["src/mpi/ext_mpi_interface.c", "src/mpi/ext_mpi_blocking.c", "src/mpi/ext_mpi_native_blocking.c"], [("entry", "src/mpi/ext_mpi_interface.c"), ("dispatch", "src/mpi/ext_mpi_blocking.c")], EXPL, NOTE)
P("C16", "Settings change the speed, never the result",
  "Port schemes, tasks per socket, alternating buffers, copy-in methods and verbosity, whether given as environment variables or as info keys of a call, only select an algorithm: the collective still delivers its result for every supported value, and a setting given through an info object affects only the call it is passed to.",
  [CFG, INP], "all collectives with enumerated port schemes, task splits, copy-in methods, alternating modes, through environment and info", WHYC % "settings",
  ["src/mpi/ext_mpi.c", "src/mpi/ext_mpi_native.c", "src/core/ports_groups.c", "src/mpi/num_ports_factors.c"], [("environment", "EXT_MPI_Init"), ("info keys", "EXT_MPI_Allreduce_init_general"), ("port schemes", "src/core/ports_groups.c")], EXPL, NOTE)
P("C18", "The user's own messages are never intercepted",
  "Point-to-point messages and requests of the user, on the same communicator as a collective and with any tag, are delivered unchanged while collectives are initialised, in flight, completed or freed, and start, wait and test calls on the user's own requests keep their meaning and return the right status, also when one list holds the user's and collective requests together.",
  [PRG, SCH], "user messages and requests at every position of a collective's life, interleavings", WHYH % "user messages mixed with collectives",
  IFC, [("interposed calls", "src/mpi/ext_mpi_interface.c"), ("recognition of own requests", "src/mpi/hash_table.c")], EXPL, NOTE)
P("C20", "Any number of requests may exist, be freed and be recreated",
  "Requests stay usable however many of them exist at the same time, in whatever order they are freed and whether or not other requests are in flight while new ones are created; freeing one never affects another, and the slots of freed requests can be reused for ever.",
  [HIS, CFG], "histories of creating, running and freeing up to several hundred requests in different orders", WHYH % "histories with more than a handful of live requests",
  ["src/mpi/hash_table.c", "src/mpi/ext_mpi_native.c", "src/mpi/ext_mpi.c"], [("request table", "ext_mpi_hash_insert"), ("handle table growth", "get_handle"), ("release", "EXT_MPI_Done_native")], EXPL, NOTE)
P("C21", "The Fortran binding behaves like the C interface",
  "An allreduce initialised, started, completed and freed through the Fortran entry points, with Fortran handles of all supported type names, delivers the same result as through the C interface, also in place, and reports success in its error argument.",
  [CFG, INP], "all Fortran type names, counts, layouts, in place, both Fortran entry points", "No stable test calls the Fortran entry points.",
  ["src/fortran/ext_mpi_f.c"], [("entry points", "src/fortran/ext_mpi_f.c")], EXPL, NOTE)
P("C22", "The self check accepts every correct operation and stays invisible",
  "With the self check of initialisation switched on or off, every supported collective initialises successfully without a complaint, leaves the user's buffers as they were, and afterwards delivers the same results.",
  [CFG, INP], "all collectives, layouts, types, in place, sub-communicators, with the self check on", "The tests run the self check for allreduce only and do not look at the buffers after initialisation.",
  ["src/mpi/debug_persistent.c", "src/mpi/ext_mpi.c"], [("self check", "ext_mpi_allgatherv_init_debug"), ("switch", "EXT_MPI_Init")], EXPL, NOTE)
P("C23", "Freeing requests and finalising releases every shared resource",
  "Every shared-memory segment created for a request is detached and removed exactly once by the time the library is finalised, for every collective, layout and order of release, also after self checks and for requests that were never started; no segment is used after it was released.",
  [HIS, CFG], "all collectives, layouts, release orders, duplicated communicators, requests never started", "A leaked segment outlives the process and no test looks for it; a use after release depends on which rank frees first.",
  SHM, [("segments", "ext_mpi_setup_shared_memory"), ("release", "EXT_MPI_Done_native"), ("destruction", "ext_mpi_destroy_shared_memory")], EXPL, NOTE)
P("C24", "In-place reductions deliver the same result",
  "An allreduce with the in-place marker on every rank, and a reduce with the marker on the root, deliver in the receive buffer the element-wise sum that includes the buffer's own previous contents, in every round, for every layout, count, type, root and supported setting.",
  [CFG, INP, SCH], "all layouts, counts, types, roots, port schemes, interleavings, two rounds", "No stable test uses the in-place marker.",
  CORE + ["src/core/reduce_copyin.c", "src/core/use_recvbuf.c"], [("recognition of the marker", "EXT_MPI_Allreduce_init_general"), ("copy in", "src/core/reduce_copyin.c")], EXPL, NOTE)
P("C14", "Repeated reductions give bit-identical results",
  "For one initialised reduction on floating-point data, started again with the same input, every rank obtains bit for bit the same result every time, whatever the relative speed of the ranks, the order in which messages and flags arrive, the buffering of messages and the way completion is waited for. Rounding may differ between ranks or between different layouts, but never between rounds or runs of the same operation.",
  [SCH, CFG, HIS], "interleavings and buffering behaviours, rounds with equal data, all reductions, layouts and port schemes, data on which every change of the order of summation is visible",
  "A test sees one arrival order and compares sums of small integers, on which the order of summation has no effect.",
  ["src/mpi/ext_mpi_native_exec.c", "src/core/parallel_memcpy.c", "src/core/optimise_buffers.c"], [("reductions", "ext_mpi_exec_native"), ("order of the schedule", "src/core/optimise_buffers.c")], EXPL,
  NOTE + " The result of every explored execution is compared bit by bit with the first explored one on data with rounding.")
P("C19", "Ranks with different environments agree on one algorithm",
  "The settings found in the environment of the first process govern all processes, whatever settings the environments of the other processes contain: every collective still initialises, completes and delivers its result, and runs exactly the messages it would run if all environments were like that of the first process.",
  [CFG, INP], "every setting present only in the first process, absent only there, or different on the others; all collectives and layouts",
  "The test runner exports one environment to all processes; a launcher that does not forward it, or a setting on one node only, leaves ranks with different views and a hang or a wrong result.",
  ["src/mpi/ext_mpi.c"], [("reading of settings", "EXT_MPI_Init"), ("distribution", "MPI_Bcast")], EXPL,
  NOTE + " Pairs of configurations (different environments, first environment everywhere) are compared message by message on a canonical schedule.")
P("C25", "An operation outlives the communicator and info it was created from",
  "Once a persistent collective has been initialised, the program may free the communicator and the info object it passed, and create others which get the same handles: the operation keeps running on the group of processes it was created for and delivers the same results, and operations created later on other communicators are unaffected by the freed ones.",
  [HIS, CFG, SCH], "histories of creating and freeing communicators before, between and after creation and runs of operations, with and without reuse of handle values; all collectives and layouts",
  "The tests use MPI_COMM_WORLD only and free nothing; whether a handle value is reused depends on the MPI library.",
  ["src/mpi/ext_mpi_native.c", "src/mpi/ext_mpi_native_exec.c", "src/mpi/shmem.c"], [("private communicator", "ext_mpi_COMM_WORLD_dup"), ("rank translation", "EXT_MPI_Init_native")], EXPL,
  NOTE)
P("C26", "The self check rejects an operation that delivers a wrong result",
  "With the self check of initialisation switched on, creating a persistent collective whose trial run delivers anything else than the reference result of the MPI library, in whichever element and on whichever process that receives a result, ends the job with an error instead of returning a request.",
  [INP, CFG], "all collectives, layouts, receiving processes and elements of the result: each single element that deviates and pairs of elements exchanged between trial run and reference, one at a time; types the self check supports",
  "On a correct library the self check never fires, so no test can show that it still looks at every element on every process.",
  ["src/mpi/debug_persistent.c"], [("comparison", "ext_mpi_allgatherv_init_debug"), ("trial run", "ext_mpi_allreduce_init_debug")], EXPL,
  "Faults are injected one at a time by the MPI model into the reference result (equivalent to a wrong trial run); at quick one byte per 8-byte element and three partners for each exchanged element. A creation in which the model recognises no reference call is judged only if it also sends no message (no trial run at all). " + NOTE)
