"""What each check runs: scenarios with their share of the time, and text for the evidence."""
STORAGE = ["a crash leaves what had been written; power loss keeps a prefix of the metadata journal that includes everything ordered before the last "
           "successful fsync/fdatasync, and of each file's unsynchronised writes a random prefix, torn only at 4096-byte pages",
           "the simulated file system gives POSIX atomicity of single calls: O_APPEND writes, O_EXCL creation and rename are atomic between processes"]
NET = ["connections deliver bytes in order, in segments and with delays chosen by the seed; a reset loses what is in flight; there is no corruption in flight (TCP checksums)"]
PROPS = {
    "C01": dict(scenarios={"C01": 1}, level="exploration", assumptions=STORAGE,
                rule="C01 worlds: 1-3 phases of one or two writers, one of which is killed or the machine loses power at a chosen system call; after each "
                     "phase a fresh process lists and retrieves everything and compares with the model."),
    "C02": dict(scenarios={"C02": 1}, level="exploration", assumptions=STORAGE,
                rule="C02 worlds: writers and readers whose n-th write, open, sync, read or metadata call fails (EIO, ENOSPC, EDQUOT, EMFILE, ENOMEM, short, EINTR, full disk); every flush that "
                     "reported success must be readable afterwards, and no read may succeed with missing or altered data."),
    "C03": dict(scenarios={"C03": 1}, level="exploration", assumptions=STORAGE,
                rule="C03 worlds: one or two readers (list, full list, inspect, retrieve, multi-field retrieve) interleaved at system-call granularity with one or two writers, which may be killed, stalled or see the clock jump."),
    "C04": dict(scenarios={"C04": 1}, level="exploration", assumptions=STORAGE,
                rule="C04 worlds: two to four writers of the same one to three databases started together (racing creation), one of them possibly killed or stalled; everything flushed must be there afterwards."),
    "C05": dict(scenarios={"C05": 1}, level="exploration", assumptions=STORAGE,
                rule="C05 worlds: two to five rounds of one or two processes re-archiving few keys, with readers, kills and clock jumps; the order of flushes defines the version every read must return."),
    "C06": dict(scenarios={"C06": 1}, level="exploration", assumptions=STORAGE,
                rule="C06 worlds: random histories over up to three roots, then random requests (partial, multi-valued, absent values) at every list depth, axes, and multi-field retrieves, by one or more threads; compared element by element with the model."),
    "C07": dict(scenarios={"C07": 1}, level="exploration", assumptions=STORAGE,
                rule="C07 worlds: one to three writers, most with sub-tocs, killed or losing power at a chosen call (consolidation at close included), with concurrent readers."),
    "C08": dict(scenarios={"C08": 1}, level="exploration", assumptions=STORAGE,
                rule="C08 worlds: rounds of overwrites then purge, dry, killed, with storage errors or power loss, beside a reader, then purge again; visible fields, files left and idempotence are checked."),
    "C09": dict(scenarios={"C09": 1}, level="exploration", assumptions=STORAGE,
                rule="C09 worlds: wipes of databases, indexes and several databases, dry or real, with unknown files present or not; the whole file tree is compared before and after."),
    "C10": dict(scenarios={"C10": 1}, level="exploration", assumptions=STORAGE,
                rule="C10 worlds: as C09 with the wipe killed at a chosen call, meeting storage errors or losing power, beside a reader; then unlocked, verified, wiped again and re-created."),
    "C11": dict(scenarios={"C11": 1}, level="exploration", assumptions=STORAGE,
                rule="C11 worlds: random sequences of control actions by one or two processes (killed or not), archives, wipes, purges, lists and retrieves over one or two databases."),
    "C12": dict(scenarios={"C12": 1}, level="exploration", assumptions=STORAGE,
                rule="C12 worlds: two to four threads per process sharing one FDB object or using one each, preempted at synchronisation operations, system calls and in half of the worlds between basic blocks."),
    "C13": dict(scenarios={"C13": 1}, level="exploration", assumptions=NET + STORAGE,
                rule="C13 worlds: a catalogue server and one or two store servers (forking or threaded, one or two connections per client) and one or two writing clients; connections are reset, stalled or partitioned, clients and servers killed, "
                     "servers meet storage errors or lose power; dead servers come back. Every field whose flush succeeded is then listed and retrieved through the servers and, where the deployment allows it, locally."),
    "C14": dict(scenarios={"C14": 1}, level="exploration", assumptions=NET,
                rule="C14 worlds: up to three clients with one to four threads each (sharing an FDB object or not) list, inspect, retrieve, ask for axes, abandon lists and handles half read, and send requests while reading a list, beside a writer, "
                     "with connection faults in half of the worlds; every answer is compared with the model, byte for byte."),
    "C15": dict(scenarios={"C15": 1}, level="exploration", assumptions=NET,
                rule="C15 worlds: clients and servers are killed, connections reset, stalled or partitioned at a chosen call during reads and writes; every call must end within 1800 simulated seconds, clients that had no fault must not fail when only "
                     "clients had faults, and once faults have ceased new clients succeed."),
    "C16": dict(scenarios={"C16": 1}, level="exploration", assumptions=STORAGE,
                rule="C16 worlds: select lanes (with excludes), file spaces chosen by regex and several roots per space under every root handler; between rounds roots are closed to writing, reordered, run full or are hidden from visits and the machine may lose power; "
                     "writers (killed or meeting full disks) and readers run on each configuration. After each round every database must be in one root of the part its key selects, in an open root when created, and the whole configuration must list precisely the union of its roots, for whole and partial requests."),
    "C17": dict(scenarios={"C17": 1}, level="exploration", assumptions=STORAGE,
                rule="C17 worlds: the fdb-move tool (1-4 copying threads, keep or not) moves a database written by one to four writers; it is killed, meets storage errors or the machine loses power at a chosen call, beside readers and writers; "
                     "everything flushed is read back over both roots, then from the destination alone."),
    "C19": dict(scenarios={"C19": 1}, level="exploration", assumptions=STORAGE,
                rule="C19 worlds: fdb-hide, fdb-overlay (one or two sources, removed again, mounted again, target wiped) and fdb-reconsolidate-toc work on databases with and without sub-tocs, killed, meeting storage errors or losing power at a chosen call, beside readers and (hide) writers; "
                     "afterwards the hidden database shows only what was flushed later, the target shows what the order of mounts and flushes gives, everything else is as it was."),
    "C20": dict(scenarios={"C20": 1}, level="exploration", assumptions=STORAGE,
                rule="C20 worlds: processes configured with different schemas, or whose schema file was changed in between, create, fill, read, wipe and create again databases, some killed at a chosen call (also while creating) or followed by a loss of power; "
                     "the stored schema never changes, every field is indexed by the keywords of the schema of its database, and everything flushed is read back under every configuration."),
    "C24": dict(scenarios={"C24": 1}, level="exploration", assumptions=NET + STORAGE,
                rule="C24 worlds: databases written through a catalogue server and one or two store servers (sharing roots or with disks of their own; some clients have the catalogue themselves), then wiped through the servers by database, index or index keyword, dry or real; "
                     "the wiping client or a server is killed, a connection reset, stalled or partitioned, or a server meets storage errors, beside a reader; then unlocked, verified, wiped again, written again. File trees of all machines are compared before and after."),
}
NOT_APPLICABLE = {
    "C21": "pure functions of their input: no schedule, time, I/O, fault or multi-party behaviour for a simulator to decide",
    "C22": "pure encode/decode functions: no schedule, time, I/O, fault or multi-party behaviour for a simulator to decide",
    "C23": "index arithmetic over data already retrieved: nothing in it depends on schedules, faults or time",
}
