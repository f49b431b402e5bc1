# the deciding method and what its verdict rests on, per property
M = 'online reference-model monitor (every result and whole-state audits) over randomised hostile histories'
T['P01'] = M + '; far sparse offsets, many-chunk files, every chunk configuration'
T['P02'] = M + '; shrink/extend-heavy histories with recurring far offsets, structural findings masked so that data loss is seen'
T['P03'] = M + '; audits of every untouched object after localising the culprit call, ownership accounting over the persisted chunk tables'
T['P04'] = M + '; fault injection: cold instance opened on a copy of the memory at operation boundaries, whole-state audit'
T['P05'] = M + '; lookup, listing and size compared for every directory, names that existed before probed'
T['P06'] = M + '; rename-heavy histories, divergences attributed by removing the renames from the minimal history'
T['P07'] = M + '; link-heavy histories with open descriptors, link counts recomputed by the auditor'
T['P08'] = M + '; state audit after refused calls (hostile arguments), on the live instance and on a cold copy'
T['P09'] = M + '; descriptor table shadowed by the model, re-use, renumbering and stale numbers'
T['P10'] = M + '; cursor shadowed per descriptor, seeks over the whole 64-bit range'
T['P11'] = M + '; rights and flags shadowed per descriptor'
T['P12'] = 'offline conservation checker over the persisted allocation tables (each chunk owned once or free once) after random histories, plus steady-state growth monitor over repeated cycles'
T['P13'] = M + '; limits, the largest file size and 64-bit wrap-around positions'
T['P14'] = M + '; mounted memories compared byte for byte, host-side writes interleaved'
T['P15'] = M + '; mount policies, remount after unmount and upgrade, refused mounts'
T['P16'] = 'AddressSanitizer and Miri builds running generated histories with exactly-sized buffers, plus canary bytes around every buffer in the native runs'
T['P17'] = 'differential trace monitor: one history on every storage, chunk type and chunk size, all results and final state compared'
T['P18'] = 'differential trace monitor: histories side by side in one memory manager against the same histories alone, foreign memories compared byte for byte'
T['P19'] = 'reference-model monitor over histories continued on generated old-format memories and on golden images of the current release'
T['P20'] = M + '; enumeration pages replayed from every position over directories changed in between'
T['P21'] = M + '; generated equivalent and escaping spellings of each path compared'
T['P22'] = 'panic, hang and memory-access-count monitor over hostile histories and growing instances; checked against unchecked build compared result by result'
T['P23'] = M + '; metadata by descriptor, path and number compared for every object'
T['P24'] = 'differential trace monitor: the same history with and without inserted read-only calls (single, look-ahead and cache-overflowing storms); model-monitored histories attributed by removing their read-only calls'
T['P25'] = M + '; error number of every refused call compared with the documented one'
T['P26'] = 'differential trace monitor: the same history with its transfers split, concatenated or repositioned'
T['P27'] = M + '; recursive removals of subtrees with links, open files, mounts and large folders, storage accounting'
T['P28'] = 'differential trace monitor: the wasm32 build in node against the host build, memory images handed over in both directions'
T['P29'] = 'fault injection (refused memory growth at chosen points) under the online reference-model monitor, rollback and continuation audited'
T['P31'] = 'heap monitor: counting allocator; bytes held between calls compared along long runs of self-cleaning cycles, peak of every call bounded by its buffers and the stored data'
T['P30'] = 'differential trace monitor: one history on several replicas with different hash seeds and heap contents, results and stable memory bytes compared'
X = 'Observes executions of the real code only: a violation that no explored history reaches is not seen. '
for i in T:
    N[i] = X + 'Coverage of a run (cases, distinct executions, audits, objects and bytes compared) is in its evidence file; workloads and bounds in DESIGN.md.'
N['P16'] = X + 'ASan sees heap and stack accesses of the native build; Miri interprets a small number of calls per run (about 2 per second), covering the unsafe blocks with random buffers. One recorded finding: padding of raw metadata records.'
N['P19'] = X + 'No artefacts of earlier releases exist offline: old images are written from the formats which the compatibility code in storage/stable.rs, types.rs, allocator.rs and journal.rs accepts, and golden images from the pinned commit.'
N['P22'] = X + 'Runaway work is judged by memory accesses counted per call against bounds proportional to the data and directory involved.'
N['P28'] = X + 'Needs node; compares results, not machine state. A trap in the wasm build is a divergence when the host build answers.'
T['P32'] = 'online checker: random histories of direct Storage trait calls on every backend compared call by call with a model of the store, whole-store comparison at intervals and after reopening'
N['P32'] = X + 'Objects are used as files use them (the chunk type of an object with content is not changed, entry names are unique per directory). The transient storage keeps no name index; only a wrong answer of it would count.'
N['P31'] = X + 'The bound of 12 MiB for an instance with nothing open and a noise of 128 KiB between windows are the sensitivity of the monitor. A descriptor number that was once used stays remembered as free (4 bytes per distinct number ever used), which is not counted as growth.'
N['P30'] = X + 'Bytes without meaning (padding of raw metadata records, see the P16 finding) are masked at the start of each chunk.'
