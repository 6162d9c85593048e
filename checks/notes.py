"""Per property: technique, level note, and reasons for what is not claimed."""
TECH = {}
NA = {}
NOTE = {
 "C01": "TLC checks the transition system exhaustively (all states x transitions x pending); every labelled transition of the replay graph is executed on the real state machine, and free-running executions with several requesting threads are validated as behaviours. Trusts the stand-in logger and that user callbacks are where the code calls them.",
 "C02": "Exhaustive TLC check for small subscriber sets; replay of the notification graph (all accepted transitions x subscriber sets, random histories) on the real state machine with the worker held at gates inside the callbacks; free-running executions validated with TLC.",
 "C25": "TLC checks the semaphore (safety and no-lost-wake-up) for small thread counts; the replay graph (waits and bursts of signals with up to 4 blocked waits) is executed completely on both semaphore classes; free-running threads recorded and validated against the specification.",
 "C24": "TLC checks order, exactly-once, no lost wake-up and error delivery on the specification; the complete replay graph (queue up to 3, up to 3 consumers of each kind of wait, plain and stateful predicates) is executed on the real queue; free-running producers and consumers of mixed kinds are recorded, with quiet points, and validated against the specification.",
 "C27": "TLC checks the bus with overlapping emissions; the complete replay graph (2 subscribers x 2 channels, callbacks that unsubscribe themselves or emit) is executed on 56 pairs of real event/argument types; threads subscribing and emitting freely are recorded and validated against the specification.",
 "C15": "TLC checks the store specification (atomic visibility of multi-property writes and conditional updates, reads of the latest value and type, failing reads) exhaustively for small key sets; the replay graph is executed on real ProgOptions through the typed API; free-running threads are recorded and validated as linearizable behaviours of the specification.",
 "C16": "Same specification with subscribers: TLC checks one announcement per written property; the replay graph of writes, updates, deletions, (un)subscriptions is executed on real ProgOptions comparing every announcement; concurrent writers and subscribers are recorded and validated.",
 "C17": "TLC checks the meaning of every small document (precedence, defaults, other devices, agreement of all sources, idempotence); random histories of documents, command-line descriptions, single properties and channel objects over all 15 settings, generated by TLC, are applied to real configurations, comparing every property, every Channel made from them, its copies, and the channels of initialised devices. Trusts Boost's JSON reader for what is syntactically JSON.",
 "C06": "TLC checks the control role (only the holder moves the device, no take-over but by stealing, nobody waits while nobody is in control) for up to three clients and waiters; the complete replay graph (two clients, device fragment, up to three blocked waits) is executed on real PluginServices and Plugin objects with a real device; clients and waiters running freely are recorded, including the requests that reach the device, and validated against the specification. Whether giving up control without holding it is reported is left open (code and documentation differ).",
 "C08": "TLC checks conservation of messages and bytes, order and integrity on the specification of messages with both transports and cross-transport sends; random histories of two real processes generated by TLC (all constructions, sizes 0 to 3 MB, single and multipart, used/sent target messages, several segments, allocation algorithms) compare every byte, size, return value and statistic after each step; threads of two processes forwarding messages freely are recorded and validated. Empty multipart sends and copies of a message to itself are left out.",
 "C10": "TLC checks that the reference-counting mechanism (count in the buffer, uncounted region blocks until their first copy, sent messages) releases each buffer exactly once, when the last owner goes; histories of two real processes compare contents, free memory of the session and free-function calls after every step; concurrent copying/forwarding/dropping is recorded and validated, ending with all memory free. More than 65535 owners of one buffer are out of scope (16-bit count).",
 "C11": "Same specification with region blocks: exactly one acknowledgement, never while a message refers to the block; histories and concurrent executions with the region in one of the two processes, per-block and bulk callbacks, both kinds of reference-count storage, hundreds of blocks outstanding, regions that come and go, the user process ending at once, and the region ending right after the last block. Which size is acknowledged after the used size of a region message was reduced is left open.",
 "C23": "TLC checks that no operation changes what another message shows and that no message shows more than its buffer has; histories with sizes, alignments up to 256 KiB, used sizes, rebuilds, copies on both transports compare size, address, alignment and every byte of all messages after every step. After giving back a million bytes or more the address may change.",
 "C09": "TLC checks that a transfer without success has no effect and that success happens exactly when there is space or a message, for bounded queues with timeouts, interruption and signals; the replay graph and random histories over every transport, socket pair, timeout kind (zero, finite, infinite, channel default), single and multipart, are executed on real channels with interruptions and signals arriving while blocked, comparing return codes, contents, durations; free-running senders and receivers are recorded and validated. Timeouts may be exceeded by one 100 ms slice plus scheduling; an interruption arriving with a zero limit may be reported as either code.",
 "C26": "TLC checks the allocation policies (attempts, refusal, waiting, giving up on interruption) on a specification of the free memory of a segment; histories over sizes from tiny to more than the segment, all combinations of attempts, interval and throwing, both algorithms and several segments run on the real transport, comparing outcome, free memory, number of attempts and the contents of all other messages; free-running allocating and freeing threads are recorded and validated. Sizes between the largest free block minus the bookkeeping overhead and the free memory are left open.",
 "C03": "TLC checks the life of a device (hooks, channels, failures at any point) exhaustively; the complete replay graph with failures (every hook throwing standard and other exceptions, reporting an error, both; subscribers that throw or report; errors reported from outside at rest, in a blocked hook and the moment a state begins) is executed on real devices, comparing announced states, hooks, the way the device's call ends and later requests; devices under random requests from several threads are recorded and validated. An error reported in a state may still let that state's own hooks run.",
 "C04": "The same specification with hooks blocked in every kind of transfer and wait (receive, send, single and multipart, WaitFor, several threads, allocation in a full segment) on both transports, released by every request that leaves the state, including the moment the state begins and ends; all messages numbered and accounted for over the whole history; random requests from several threads recorded and validated (order of states, hooks, messages).",
 "C05": "The same specification: all walks through the life cycle with resets from every state that allows one and three configurations (number of sub-channels, transports, addresses) changed at any time, executed on real devices with transfers in every phase; random requests from several threads recorded and validated.",
 "C20": "TLC checks the callback mechanism (one polling thread per transport, mutex, flag) for safety and, with fairness, that every message is handed out and that a run ends after FALSE; histories of feeding and running generated from the specification (eight layouts: one or several channels and sub-channels, single and multipart, one and two transports; runs ended by the n-th callback, a throwing callback or a stop request, fed meanwhile) are executed on real devices and the recorded executions validated as behaviours. Sub-channels of one channel on different transports are left out.",
 "C12": "TLC checks the mechanism (event count, snapshots, late look-up, subscriptions that come and go) exhaustively for small numbers of regions and subscriptions, including that everything is heard in the end; the replay graphs of both transports (two instances that subscribe, replace, end subscriptions, list, leave and rejoin with other segments; regions with automatic, explicit, colliding and reused ids, file-backed ones, short-lived ones) are executed on real transports comparing every event with id, size, flags and the memory behind the address; free-running creators and subscribers are recorded with quiet points and validated. Two controllers of one region in different processes are left out.",
}
