prop(
    "P03",
    "Each request is evaluated once and every client sees a well-formed dialogue",
    "Towards every client the server follows the documented protocol: complete 12-character headers, initialisation before (and only when needed before) positions, positions only to a client that is ready, results asked for only when the client has them, one batch per exchange up to the agreed size, and nothing after EXIT. "
    "As long as no client dies or times out, each queued request is evaluated exactly once: never sent to two clients, never sent twice, and never evaluated again after it is done; after a death or timeout it is re-sent only if its result had not arrived.",
    ["schedules", "fault_sequences", "configurations"],
    "all interleavings of polling thread, worker pool, queueing threads and clients; all segmentations and latencies; all transports and batch sizes",
    WHY_SCHED,
    [SOCK, FF, DRV],
    [
        ("status machine of a client", SOCK + ": Status, Driver.get_status, Driver.initialize, Driver.sendpos, Driver.getforce"),
        ("a request leaves the queue when it is handed out", SOCK + ": InterfaceSocket.dispatch_free_client, jobs"),
        ("one-phase and two-phase exchange", SOCK + ": Driver.dispatch, dispatch_send, dispatch_recv, InterfaceSocket._pool_distribute_select"),
    ],
    ["the messages each client receives, and which requests each client was asked to evaluate"],
)
prop(
    "P04",
    "A misbehaving client is dropped and never poisons results or stops the run",
    "A client that sends a garbage or unexpected header, an answer with a different number of atoms than it was given, extra text that is not valid, a reply nobody asked for, or that closes the connection at any byte, costs the run at most that client: "
    "its requests are served by other clients, a malformed answer never ends up in a result that is reported as done, the server threads neither die nor hang because of it, and the connections of well-behaved clients are not dropped.",
    ["fault_sequences", "schedules", "inputs"],
    "all byte-level deviations from the protocol at every message, for every transport and batch size, mixed with healthy clients",
    "No test has a misbehaving client; the space of deviations times the point in the dialogue times the schedule is far too large to enumerate by hand.",
    [SOCK],
    [
        ("errors on a connection mark the client as disconnected", SOCK + ": Driver._client_error, Disconnected, InvalidStatus, InvalidSize, get_status"),
        ("requests go back to the queue", SOCK + ": InterfaceSocket._requeue_disconnected"),
        ("a reply is checked against the request before it is accepted", SOCK + ": Driver._recv_force_data, _recv_forces_bulk, _recv_forces_bulk_batch"),
    ],
    ["status and result of each request; which connections the server still keeps"],
)
prop(
    "P05",
    "Matching: 'lock' pins a replica to a client, 'auto' returns it to its last one",
    "With matching='lock', each client serves one replica only and each replica is served by one client only, for as long as that client is connected; spare clients take over nobody's replica; all requests are answered if there are at least as many clients as replicas; and when a client that takes part is lost, the run is asked to stop cleanly rather than go on with another one or hang. "
    "With matching='auto' and at least as many clients as replicas, a replica whose previous client is free again goes back to that client.",
    ["schedules", "fault_sequences", "histories"],
    "all orders in which clients become free, all schedules, deaths and reconnections",
    WHY_SCHED,
    [SOCK, FF],
    [
        ("matching", SOCK + ": InterfaceSocket.dispatch_free_client (match_ids: match, none, free, any)"),
        ("loss of a client ends a locked run", "ipi/inputs/forcefields.py: exit_on_disconnect; " + SOCK + ": Driver.shutdown"),
    ],
    ["which client evaluated which replica, in order"],
)
prop(
    "P06",
    "Stopping a forcefield releases every client, thread and socket",
    "When a forcefield is stopped (end of run, or soft exit while requests are in flight and clients are half-way through a message), every connected client that still listens is told to exit or has its connection closed, no polling or worker thread stays behind, the listening socket is closed, unix socket files and shared-memory segments are removed, and stop returns within a bounded time whatever the clients do. "
    "With exit_on_disconnect the run is asked to stop as soon as a client is lost, and only then.",
    ["schedules", "fault_sequences", "crash_points"],
    "every instant at which stop may be called relative to the dialogue with each client and to the threads of the server",
    WHY_SCHED + " Leaks and missing EXIT messages are invisible to tests that kill their clients.",
    [SOCK, FF],
    [
        ("close of the interface", SOCK + ": InterfaceSocket.close, pool_update, SHMDriver.shutdown"),
        ("stop of the polling thread", FF + ": ForceField.stop, FFSocket.stop, FFSocket.poll"),
        ("client side", DRV + ": run_driver"),
    ],
    ["messages received by the clients, live threads, open sockets and names left behind after stop"],
)
prop(
    "P07",
    "The trajectory does not depend on how, where and by whom forces are computed",
    "A simulation produces the same sequence of states and outputs whichever way its forces are evaluated: over unix or inet sockets or shared memory, one by one or in batches of any size, by one or many clients, matched in any mode, with threads or without, or by the same potential inside the process; and whatever clients do in the meantime (late arrival, stalls, death, reconnection, garbage), as long as one stays healthy.",
    ["schedules", "fault_sequences", "configurations"],
    "all transports, batch sizes, client counts, matching modes, schedules and client faults, for many kinds of dynamics",
    "Tests compare single runs with stored numbers for one client each; they never vary who serves which request.",
    [SOCK, FF, "ipi/engine/forces.py", SIMPY, DRV],
    [
        ("beads are collected by index", "ipi/engine/forces.py: Forces.queue, f_gather, pots_gather, virs_gather"),
        ("waiting on requests", "ipi/engine/forces.py: ForceBead.get_all"),
        ("multiple systems advance in threads", SIMPY + ": Simulation.run (threading)"),
    ],
    ["outputs and final RESTART of whole runs compared with a run using an in-process potential"],
)
prop(
    "P13",
    "Continuing from any checkpoint reproduces the uninterrupted run",
    "A run that is continued from any checkpoint (periodic or RESTART) written at any step, any number of times, follows exactly the trajectory of the uninterrupted run, to the precision with which checkpoints are stored: same positions, momenta, cells, conserved-quantity bookkeeping, thermostat, barostat, optimiser and Monte Carlo state and random number stream, for every kind of motion, ensemble and number of systems; and it ends at the same final step.",
    ["crash_points", "histories", "configurations"],
    "every step at which a checkpoint is written, sequences of crashes and continuations, over a hundred kinds of set-ups",
    "Tests of restarts cover a few inputs and one restart point each.",
    ["ipi/inputs/", "ipi/engine/motion/", "ipi/engine/thermostats.py", "ipi/engine/barostats.py", "ipi/utils/prng.py", SIMPY, OUT],
    [
        ("state is stored through the input classes", "ipi/inputs/*.py: store/fetch"),
        ("random state", "ipi/inputs/prng.py, ipi/utils/prng.py: Random.state"),
        ("checkpoint writer", OUT + ": CheckpointOutput"),
    ],
    ["outputs and checkpoints written after continuing, compared with those of the uninterrupted run"],
)
prop(
    "P14",
    "A complete, recent checkpoint survives a crash at any instant",
    "Whenever the program dies (killed at any instruction, in the middle of any write, power loss, full or failing disk), every checkpoint file visible under its final name is complete, can be parsed and holds the exact state of the step it declares, and a checkpoint no older than one stride exists once the first was written. At no instant is the previous checkpoint gone before the next is in place.",
    ["crash_points", "fault_sequences", "histories"],
    "every line of Python and every file operation as a crash point, torn and reordered unsynced writes, disk errors",
    "Tests never kill the program or fail a write.",
    [OUT, SIMPY, "ipi/utils/io/io_units.py", "ipi/utils/messages.py"],
    [("checkpoints are written aside, synced and renamed", OUT + ": CheckpointOutput.write")],
    ["all files named as checkpoints on the simulated disk after the crash"],
)
prop(
    "P15",
    "Output files never lose, tear, repeat or alter a record that was due",
    "Within one life of the program every property and trajectory file contains one complete record for each step that its stride selects, in order, with the values of that step. "
    "If the program is killed or the machine loses power, all records up to the last flush implied by the configured flush stride are on disk and at most one torn record ends the file; a run that continues appends after what is there. A run that reports success has written all of them even if the disk failed meanwhile.",
    ["crash_points", "fault_sequences", "configurations"],
    "every crash point, strides and flush strides, disk faults",
    "Tests look at the files of runs that end normally.",
    [OUT, SIMPY, "ipi/utils/io/"],
    [("forced flush", OUT + ": BaseOutput.force_flush, PropertyOutput.write, TrajectoryOutput.write"), ("append on restart", OUT + ": BaseOutput.open_stream")],
    ["property and trajectory files on the simulated disk after each life"],
)
prop(
    "P16",
    "Starting or continuing a run never destroys data of an earlier one",
    "When a run is started again in a directory that has results of earlier runs, or continued from a checkpoint, then at every instant, including crashes during start-up, each earlier output and checkpoint still exists with its full contents: under its own name (possibly with new records appended), or under a backup name; older backups are never overwritten.",
    ["crash_points", "histories"],
    "sequences of up to five fresh starts and continuations in one directory, with crashes and disk faults at any point",
    "Tests start in empty directories.",
    [OUT, "ipi/utils/io/__init__.py", SIMPY],
    [("backups", "ipi/utils/io/__init__.py: open_backup"), ("append when continuing", OUT + ": BaseOutput.open_stream")],
    ["all files on the simulated disk before and after each life"],
)
prop(
    "P09",
    "In-process forcefields answer each request once, with its own result",
    "Forcefields evaluated inside the program (direct potentials one by one or in batches, Lennard-Jones, Debye, driven, committees of several members with or without a baseline, rotational averages) give every request exactly the energy, forces, virial and extras that belong to its positions and cell, with the offset applied: also when several systems and several output threads ask at the same time, with or without a polling thread. "
    "A configuration is evaluated once per step and not again while nothing changed, every request ends, nobody uses forces of an earlier configuration, and a forcefield that is stopped leaves no thread behind.",
    ["schedules", "configurations", "histories"],
    "all interleavings of systems, output threads, polling threads and worker pools at the granularity of source lines",
    "Tests evaluate these forcefields from one thread; races between threads that ask for the same forces never show.",
    [FF, "ipi/engine/forces.py", "ipi/utils/depend.py", "ipi/pes/"],
    [
        ("queueing and polling", FF + ": ForceField.queue, poll, _poll_loop, release; FFEval.poll, _eval_thread; FFDirect.poll"),
        ("members and rotations are gathered", FF + ": FFCommittee.queue, gather, poll; FFRotations.queue, gather, poll"),
        ("waiting for and collecting forces", "ipi/engine/forces.py: ForceBead.queue, get_all, ForceComponent"),
        ("cached quantities under several threads", "ipi/utils/depend.py: depend_base._refresh, taint"),
    ],
    ["what systems and output threads read from Forces, and which configurations the potential was called with"],
)
prop(
    "P10",
    "A potential that fails ends the run promptly and corrupts nothing",
    "When an evaluation of an in-process potential raises an error, at any call, in the main thread, a polling thread, a worker or an output thread, then the run ends within bounded time instead of waiting for ever; no thread receives a made-up or stale result; everything that was already written stays valid; a RESTART or checkpoint that is left behind is the exact state of the step it declares and does not claim success; and continuing from it with a repaired potential gives the results of a run that never failed.",
    ["fault_sequences", "schedules", "configurations"],
    "every evaluation as the failing one, in every threading mode, forcefield kind and kind of dynamics",
    "No test has a potential that fails.",
    [FF, "ipi/engine/forces.py", SIMPY, SOFT],
    [
        ("failures in threads ask the run to stop", FF + ": ForceField._poll_loop, FFEval._eval_thread, softexit.trigger"),
        ("waiting threads give up when the run stops", "ipi/engine/forces.py: ForceBead.get_all"),
    ],
    ["how and when the run ends, the files it leaves, and the result of continuing from them"],
)
prop(
    "P08",
    "MPI ranks: every request gets its own result, and every rank is told to exit",
    "When forcefields are served by MPI ranks launched together with i-PI, every request is answered exactly once, by a driver of its own forcefield, with the energy, forces, virial and extras of its own positions and cell: for any number of forcefields, ranks, group and batch sizes, systems with different numbers of atoms, any assignment of ranks and any timing of messages. "
    "No request waits for ever; when the run ends or is asked to stop, at any instant, every rank is told to exit; and a launch in which forcefields and ranks do not fit together is refused with an error instead of hanging.",
    ["schedules", "configurations", "inputs"],
    "all interleavings of i-PI's threads and of the ranks, all message timings, numbers and assignments of ranks, groups and batches",
    "Tests launch two ranks with one forcefield at whatever timing the machine gives.",
    ["ipi/interfaces/mpi.py", FF, DRV],
    [
        ("ranks are assigned to forcefields", "ipi/interfaces/mpi.py: MPIWorldManager"),
        ("requests are handed to free groups", "ipi/interfaces/mpi.py: InterfaceMPI.poll, _dispatch, _collect, close"),
        ("rank side", DRV + ": run_driver_mpi"),
    ],
    ["status and result of each request, the structures each rank evaluated, and how every rank ends"],
)
prop(
    "P17",
    "The Python driver answers any legal dialogue exactly and ends with its server",
    "Towards any server that follows the documented protocol (any order of legal messages, several sent ahead without waiting, split at any byte, over unix or inet sockets or shared memory, single or batched), the Python driver answers each STATUS with its true state, evaluates each structure it is given exactly once, returns the energy, forces, virial and extras of that structure, and has results in place before it says that it has them. "
    "It returns when told to EXIT; when the server vanishes, at any byte of the dialogue, it ends promptly instead of waiting or spinning; and it never removes shared memory that belongs to the server.",
    ["histories", "schedules", "fault_sequences"],
    "all legal conversations, segmentations and points at which the server may vanish",
    "Tests run the driver against i-PI only, which uses one conversation; none cuts the connection.",
    [DRV, "ipi/interfaces/utils.py"],
    [
        ("state machine of the driver", DRV + ": run_driver"),
        ("receiving and sending", DRV + ": recv_data, send_data, Message"),
    ],
    ["bytes the driver sends, structures its potential is called with, how and when it ends, names left in shared memory"],
)
prop(
    "P18",
    "A cached quantity always agrees with the values it depends on",
    "Whatever is read from i-PI's network of dependent quantities (values, arrays, views, pipes, synchronised representations such as beads and normal modes, computed quantities) is the value that follows from the current values of what it depends on: after any sequence of assignments, whole or in part, through any reference or view, in any order, and from any number of threads reading at once; a copy that was taken does not change afterwards. "
    "A quantity is computed at most once per change of its inputs; a function that fails leaves no stale value behind; and no combination of threads deadlocks.",
    ["histories", "schedules", "fault_sequences"],
    "all networks of quantities, sequences of assignments and reads, interleavings of the threads, failing functions",
    "Unit tests of the module check single-threaded chains of a few fixed objects.",
    ["ipi/utils/depend.py", "ipi/engine/forces.py", "ipi/engine/properties.py"],
    [
        ("invalidation", "ipi/utils/depend.py: depend_base.taint, tainted, add_dependant, add_dependency"),
        ("recomputation under a lock", "ipi/utils/depend.py: depend_base._refresh, update_auto, update_man, depend_array.__getitem__, __setitem__"),
        ("pipes and synchronised pairs", "ipi/utils/depend.py: dpipe, synchronizer"),
    ],
    ["values read and number of evaluations of each function"],
)
prop(
    "P19",
    "A simulation driven from Python in pieces is the same simulation",
    "An InteractiveSimulation that is run from a Python script, in pieces of any lengths, with properties, structures and weights inspected in between and structures written back unchanged, goes through the same states and writes the same files as one uninterrupted run of the same input; the properties it returns are those of the step reached. "
    "After each run() there is a RESTART of exactly that step. A stop request or the death of the process at any instant leaves a RESTART from which the run continues exactly, with no record missing or altered.",
    ["histories", "crash_points", "schedules"],
    "all ways of cutting a run into pieces, all instants for stops and kills, with and without threads",
    "The tests run a few steps in one piece and never stop or kill the script.",
    ["ipi/scripting/interactive.py", SIMPY, SOFT],
    [
        ("running in pieces", "ipi/scripting/interactive.py: InteractiveSimulation.run, run_step"),
        ("stop requests", SOFT + ": Softexit.trigger; " + SIMPY + ": softexit, step"),
    ],
    ["files of the scripted run and its continuation compared with those of one run; values returned to the script"],
)
prop(
    "P11",
    "Systems simulated in one input do not influence each other",
    "When several systems are simulated in one input without an exchange between them, each of them goes through the same states, and writes the same records to its own files, as if it were alone in the input: whatever the number, size, cell, replicas and kind of motion of its neighbours, whether systems advance in threads or one after the other, whether forcefields are shared, batched, threaded or served by clients that come, die and come back, and also across a restart. (Systems that draw random numbers share one stream and are exempt, but do not disturb those that draw none.)",
    ["schedules", "configurations", "fault_sequences"],
    "all combinations of systems, forcefields and threading, all schedules and client faults",
    "Tests with several systems compare with stored results at one schedule; none compares a system with itself alone.",
    [SIMPY, "ipi/engine/system.py", "ipi/engine/forces.py", FF, OUT],
    [
        ("systems step in threads", SIMPY + ": Simulation.run_step, executor"),
        ("requests of all systems share the queues of a forcefield", FF + ": ForceField.queue, poll, release"),
        ("each system has its own outputs", OUT + ": OutputMaker, prefixes"),
    ],
    ["output files of each system and its part of RESTART, compared with a run of that system alone"],
)

prop(
    "P20",
    "Replica exchange only permutes the ensembles, correctly, and its records say so",
    "At every exchange step of a replica exchange run, over all restarts and whatever stops or kills came between, the set of ensembles (temperature, pressure or stress, bias and Hamiltonian weights) "
    "is unchanged: only who has which changes, and the list of replicas says who. A pair is tried and accepted with the documented Metropolis probability for the current configurations. A system keeps its positions, cell "
    "and conserved quantity; its momenta and those of its barostat are the previous ones, rescaled to the temperature of its ensemble when that is asked for, and the reference cell goes with the ensemble; an exchange that is refused leaves "
    "no trace. The index file and the restart files name, for each step that is kept, the ensemble in which the outputs of each system were produced, so that the sorting tool puts every record in the file of its own ensemble.",
    ["histories", "crash_points", "schedules"],
    "all sets of ensembles, kinds of dynamics and random numbers, all instants for stops and kills, with and without threads",
    "The tests run a replica exchange input for a few steps and look at a few numbers, or only at the exit code; no exchange is checked against the method, and none is interrupted.",
    ["ipi/engine/smotion/remd.py", "ipi/engine/ensembles.py", "ipi/inputs/smotion/remd.py", "tools/py/remdsort.py"],
    [
        ("trial, acceptance and undoing of an exchange", "ipi/engine/smotion/remd.py: ReplicaExchange.step; ipi/engine/ensembles.py: ensemble_swap, Ensemble.get_lpens"),
        ("record of who has which ensemble", "ipi/engine/smotion/remd.py: repindex, swapfile; ipi/inputs/smotion/remd.py: store, fetch"),
        ("sorting of the outputs", "tools/py/remdsort.py: main"),
    ],
    ["state of all systems before and after each exchange step; index file, property files and checkpoints of each life"],
)
