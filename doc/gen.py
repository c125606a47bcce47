#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, state=(), observe=(), technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  note=note, state=state, observe=observe, technique=technique, na=na))
J, M = "dhara/journal.c", "dhara/map.c"
MAPAPI = ["return value, error code and buffer of every map call", "state of the simulated chip after every NAND operation"]
BASE = ("Sampling, not proof: seeded search over many simulated runs of the real dhara C code on a simulated chip. "
        "Trusts the chip model (sim/nand.cpp) and the reference model (sim/mapexec.cpp). ")
DST = "deterministic simulation with fault injection: "

prop("C01", "Without faults the map is a faithful sector store",
 "A read of a sector returns exactly the data most recently written or copied to it, and an unmapped (never written, trimmed or cleared) sector reads as 0xff and is reported as not found, whatever else was done to other sectors in between. The same holds after a sync and a clean restart. No call fails except for the documented reason that the map is full.",
 ["histories", "configurations"], "every sequence of write, copy, copy-page, trim, read, find, sync, gc, clear and restart; every page/block/chip geometry, gc ratio, factory bad-block pattern and initial chip content",
 "tests/map.c runs one fixed workload on one geometry of the test chip; it never restarts in the middle, never reads back every sector after every kind of call, and never uses sparse or extreme sector numbers.",
 [M, J, "dhara/map.h"], [("radix-tree walk and rebuild of the path to the root", M+" trace_path, dhara_map_write"), ("garbage collection rewrites live sectors only", M+" raw_gc"), ("resume finds the last checkpoint and root", J+" dhara_journal_resume")],
 BASE + "Chip without faults here; the nondeterminism is RAM content at power-up, old chip content, restarts, geometry. Every call's outcome is compared with an array model.",
 [("tail/head/root", "live window of the journal and the newest map node", "dhara/journal.h struct dhara_journal")], MAPAPI)
prop("C02", "The map stays faithful when blocks fail",
 "When programming, erasing or copying fails and blocks wear out, every call still succeeds (the failure is absorbed) and no sector's content changes, as long as enough good blocks remain. This includes failures during the recovery from an earlier failure.",
 ["fault_sequences", "histories", "configurations"], "every placement of up to four block failures, or of a burst of five or six neighbouring blocks on a device at most half full (page program, checkpoint program, copy, erase; failed page readable, torn, empty or full) in every workload, including several within one call and blocks that fail at a set age",
 "tests/recovery.c and the random timebomb failures of tests/sim.c sample a handful of failure positions on one geometry with an invariant checker that does not compare every sector.",
 [M, J], [("bad-block recovery: replay of the block's live pages", M+" try_recover, "+J+" recover_from"), ("metadata dump before leaving the block", J+" dump_meta"), ("assisted recovery cursor", J+" dhara_journal_next_recoverable")],
 BASE + "At most 4 failing blocks per run (6 in bursts), with spare blocks provisioned so that success is required.",
 [("recover_next/recover_root/recover_meta", "progress of the recovery", "dhara/journal.h")], MAPAPI)
prop("C03", "Synced data survive any power cut",
 "Everything that was on the device when a sync last succeeded and was not changed afterwards reads back unchanged after a power cut at any instant and a restart. No sector ever reads as data that was never written to it.",
 ["crash_points", "histories", "configurations"], "a power cut before, during (not done, done, torn, half-done) or after every NAND operation of every call, with all RAM lost; every workload and geometry",
 "No existing test cuts the power inside a call: the tests resume only at quiescent points.",
 [M, J], [("checkpoint pages commit groups of changes", J+" push_meta"), ("the tail moves only with a later checkpoint", J+" dhara_journal_dequeue, tail_sync"), ("resume from the newest valid checkpoint", J+" find_root, find_head")],
 BASE + "Cuts are taken for real (run goes on afterwards) and on copies of the chip at chosen NAND operations of a run ('shadow' cuts). A page torn by the cut is uncorrectable on read; ECC is assumed to detect that.",
 [("tail_sync", "oldest page a resumed journal may still need", "dhara/journal.h")], MAPAPI)
prop("C04", "A power cut leaves a whole prefix of the latest changes",
 "After a power cut the device shows the state of the last sync plus the effects of some number of the later changes in the order they were made, each either completely or not at all; never a mixture. The reported number of sectors agrees with that state.",
 ["crash_points", "histories", "configurations"], "a power cut at every NAND operation of every call with torn, complete or lost effect; every workload and geometry",
 "Atomicity needs a cut in the middle of a call and a comparison of the whole device with every legal prefix; no test does either.",
 [M, J], [("metadata of a group becomes valid only with its checkpoint page", J+" push_meta"), ("sector count carried by the checkpoint cookie", M+" ck_set_count, ck_get_count")],
 BASE + "Refinement check: recovered state must equal a prefix of the unsynced changes applied to the synced state.", (), MAPAPI)
prop("C05", "Power cuts and failing blocks together lose nothing synced",
 "If blocks fail and the power is cut at any instant, including while the device is recovering from a failed block, then after restart synced data are intact and the state is the synced state plus a whole prefix of later changes.",
 ["crash_points", "fault_sequences", "histories"], "every combination of up to four block failures (or a burst of six) and any number of power cuts, in particular cuts and further failures inside a recovery",
 "tests/recovery.c never restarts during a recovery; the combination of a cut and a failure has no test at all.",
 [J, M], [("bad-block recovery leaves the old block in the journal until done", J+" recover_from, finish_recovery"), ("recovered user data and dumped metadata", J+" dump_meta, restart_recovery")],
 BASE + "Every NAND operation of a recovery gets a shadow cut in most runs.", (), MAPAPI)
prop("C06", "After a power cut the device is fully usable again",
 "After any power cut and restart, writes, trims, reads, garbage collection and sync work without errors, and a later sync, power cut and restart preserve everything as usual.",
 ["crash_points", "histories", "fault_sequences"], "power cuts as in the crash properties, followed by further workloads and further cuts",
 "No test continues to use a device after an interrupted call.",
 [J, M], [("resume positions the head after the last programmed page", J+" find_head"), ("recovery not finished before the cut is taken up again", M+" try_recover")],
 BASE + "Two known findings (torn and failed checkpoint pages) are recorded in known_findings and recognised only by the exact page the device stumbles over.", (), MAPAPI)
prop("C07", "The NAND is driven within its rules",
 "Every page is programmed at most once between erases, in order within its block, within the chip's bounds; only whole good blocks are erased; no block that is marked bad, or whose failure was reported, is programmed or erased again.",
 ["histories", "fault_sequences", "crash_points"], "every workload, failure sequence and power cut, on the map and on the bare journal",
 "The test chip asserts some of these rules but only along the handful of histories the tests run, and none with a power cut.",
 [J, "dhara/nand.h"], [("head advance, skip of bad blocks, erase at block start", J+" prepare_head, skip_block, next_block")],
 BASE + "The chip model checks each rule at every operation of every scenario.", (), ["every call from dhara into the NAND driver"])
prop("C08", "Exactly the failing blocks are retired",
 "A block is marked bad if and only if programming or erasing it failed: every failure that the device survives leads to the block being marked before the call returns, and no block that did not fail is ever marked. Once a block is marked, no data that are still needed are left in it.",
 ["fault_sequences", "histories"], "every placement of failures in every workload, including failures in recovery and cuts in between",
 "Tests look at no bad-block marks after a run.",
 [J, "dhara/nand.h"], [("mark_bad after recovery, and for failed erases", J+" prepare_head, finish_recovery, recover_from")],
 BASE, (), ["mark_bad calls seen by the chip"])
prop("C09", "Perfect wear levelling",
 "As long as the power is not cut, the erase counts of any two good blocks differ by at most one, whatever is written where.",
 ["histories", "configurations", "fault_sequences"], "every workload (hot spots, trims, clears, full map, clean restarts) and geometry, with and without failing blocks",
 "README's guarantee; no test counts erases.",
 [J], [("blocks are used strictly in rotation", J+" next_block, prepare_head")],
 BASE + "Erase counts are read off the simulated chip during the run; power cuts can make one block be erased again, so this scenario has clean restarts only.", (), ["erase counters of the simulated chip"])
prop("C10", "Size and capacity tell the truth",
 "The reported size is always the number of mapped sectors; a new sector is refused with 'map full' exactly when the size has reached the capacity, and overwriting a mapped sector is never refused. The capacity stays within what a chip with that many usable blocks can hold, across restarts, failures and cuts, and is unchanged by a clean restart.",
 ["histories", "crash_points", "fault_sequences"], "every workload near and far from full, restarts, block failures and power cuts",
 "tests/map.c never fills the map, and compares sizes only in one workload.",
 [M, J], [("count kept with every change and stored in the checkpoint", M+" prepare_write, try_delete"), ("capacity from good-block statistics", M+" dhara_map_capacity, "+J+" dhara_journal_capacity")],
 BASE, (), MAPAPI)
prop("C11", "A full device keeps working for ever",
 "With the map filled to capacity, overwrites, trims and syncs keep succeeding indefinitely, through many passes over the chip and through wrap-around of the internal generation counter, and the capacity does not drift.",
 ["histories", "configurations"], "workloads on a full map, hundreds of passes over the chip (more than 256, up to more than 512), with restarts and power cuts in between",
 "tests/epoch_roll.c wraps the counter once with one fixed journal pattern; no test runs the map full or past two wraps.",
 [M, J], [("garbage collection keeps ahead of writes", M+" auto_gc"), ("generation counter comparison", J+" find_last_checkblock, find_last_group"), ("over-provisioning by gc ratio", M+" dhara_map_capacity")],
 BASE, (), MAPAPI)
prop("C12", "A transient read error is reported and does no harm",
 "If a read of the chip fails once in the middle of any call, the call either succeeds or reports that error; nothing already stored changes, and repeating the call succeeds.",
 ["fault_sequences", "histories"], "a transient ECC error at every chip read of every call, alone and combined with failing blocks",
 "No test injects read errors.",
 [M, J], [("error propagation and staged updates of the in-memory state", M+" trace_path, raw_gc, try_delete; "+J+" push_meta, recover_from")],
 BASE, (), MAPAPI)
prop("C13", "A page that rots away never turns into wrong data",
 "If stored pages become permanently unreadable, every later read returns the right data or an error; no sector ever shows another sector's data, data never written, or silently disappears.",
 ["fault_sequences", "histories"], "one to three user or checkpoint pages becoming unreadable at any time in any workload",
 "No test makes a stored page unreadable.",
 [M, J], [("read errors abort the walk instead of ending it", M+" trace_path"), ("errors in garbage collection stop the collection", M+" raw_gc, auto_gc")],
 BASE, (), MAPAPI)
prop("C14", "Cost per call is bounded; start-up is logarithmic",
 "Every call uses a number of NAND operations bounded by a constant times the gc ratio, plus at most a few times the pages of a block for each block that fails in it; a sync writes no more than the rest of one checkpoint group, and nothing if nothing changed since the last one. Start-up reads grow with the logarithm of the number of blocks only.",
 ["histories", "configurations"], "chips from 5 to several thousand blocks, with any history, clean or interrupted, with and without failing blocks",
 "No test measures cost, and all run on one chip size.",
 [J, M], [("binary searches at start-up", J+" find_last_checkblock, find_last_group, find_head"), ("bounded garbage collection per write", M+" auto_gc")],
 BASE + "Counts NAND operations, not time.", (), ["NAND operation counters per call"])
prop("C15", "Restarting and reading never write; restart is repeatable",
 "Start-up, reads, finds and statistics never program, erase or mark anything; starting up twice from the same chip gives the same state, and start-up of a chip that never held data gives an empty map.",
 ["crash_points", "histories"], "every chip state reachable by workloads, failures and power cuts; arbitrary RAM content at power-up",
 "No test observes the chip during resume, and RAM is always zeroed by the tests.",
 [J, M], [("resume only reads", J+" dhara_journal_resume")], BASE, (), MAPAPI)
prop("C16", "The journal is a reliable queue, even when blocks fail",
 "The journal hands back pages in the order they were enqueued with the data and metadata they were enqueued with, for as long as they have not been dequeued; the newest page is always the root. When a block fails, the documented recovery protocol lets the user re-enqueue exactly the pages that were in it, and nothing is lost, duplicated or reordered.",
 ["histories", "fault_sequences", "configurations"], "every sequence of enqueue, copy, dequeue, clear, sync, restart and metadata read, on every geometry, with up to four failing blocks",
 "tests/journal.c, jfill.c and recovery.c run fixed fill-and-drain patterns on one geometry.",
 [J, "dhara/journal.h"], [("enqueue/dequeue/peek", J+" dhara_journal_enqueue, dhara_journal_peek, dhara_journal_dequeue"), ("metadata buffered until the checkpoint page", J+" push_meta, dhara_journal_read_meta"), ("recovery protocol", J+" recover_from, dhara_journal_next_recoverable")],
 BASE + "A model queue is the oracle; the harness plays the documented role of the journal's user in recovery.", (), ["return value and error code of every journal call"])
prop("C17", "The journal survives power cuts",
 "After a power cut and restart the journal's root is one of the checkpoints written since the last completed one, its cookie is that checkpoint's cookie, and every entry still in it has its original data, metadata and order; a journal at a checkpoint that is restarted cleanly loses nothing, and what was dequeued or cleared before a completed checkpoint does not come back.",
 ["crash_points", "fault_sequences", "histories"], "power cuts at every NAND operation of every journal call, with and without block failures; clean restarts",
 "Tests restart the journal only at checkpoints and without interrupted operations.",
 [J, "dhara/journal.h"], [("resume from the newest valid checkpoint", J+" dhara_journal_resume, find_root, find_head"), ("cookie and statistics in the checkpoint header", J+" hdr_set_tail, dhara_journal_cookie")],
 BASE + "Two known findings recorded (entries of an uncommitted checkpoint group at the tail).", (), ["journal API after restart"])
prop("C18", "Memory-safe and terminating under every fault",
 "No call reads or writes outside the buffers it was given or its own state, executes undefined behaviour, or fails to return, for any history, geometry and fault sequence, and it never touches the chip outside its bounds.",
 ["fault_sequences", "crash_points", "histories", "configurations"], "all scenarios of the other properties, run with address and undefined-behaviour sanitizers and poisoned RAM",
 "The tests run without sanitizers and without faults in most code paths.",
 [M, J, "ecc/bch.c", "ecc/hamming.c", "ecc/crc32.c"], [("bounded loops and explicit retry limits", J+" recover loops, DHARA_MAX_RETRIES")],
 BASE + "ASan+UBSan build of the real code; a CPU limit and a NAND-operation budget decide termination.", (), ["sanitizer reports, operation budgets"])
prop("C19", "BCH corrects what it promises and never hides more",
 "When up to t bits of a stored chunk and its parity flip, the t-bit BCH code restores the exact data and parity. Up to 2t flipped bits are never taken for an undamaged chunk, and undamaged or erased (all 0xff) chunks are always accepted and left unchanged.",
 ["fault_sequences", "inputs"], "every set of bit flips in data and parity, accumulating over time between scrubs, every chunk length and content, all four codes",
 "tests/bch.c flips a few random patterns in a fixed chunk size.",
 ["ecc/bch.c", "ecc/bch.h", "ecc/gf13.c"], [("syndrome, Berlekamp-Massey and root search", "ecc/bch.c bch_repair"), ("parity comparison", "ecc/bch.c bch_verify")],
 "Sampling of flip patterns in simulated storage with an exact copy as oracle.", (), ["bch_verify/bch_repair results, chunk content"])
prop("C20", "Hamming corrects one flipped bit and detects two",
 "One flipped bit in a stored chunk or its parity is repaired exactly, two flipped bits are always detected and never make the data look clean; undamaged and erased chunks are accepted unchanged.",
 ["fault_sequences", "inputs"], "every set of one or two bit flips in data and parity, every chunk length and content",
 "tests/hamming.c samples a fixed chunk size.",
 ["ecc/hamming.c", "ecc/hamming.h"], [("syndrome and repair", "ecc/hamming.c hamming_syndrome, hamming_repair")],
 "Sampling of flip patterns in simulated storage with an exact copy as oracle.", (), ["hamming results, chunk content"])
prop("C21", "The CRC notices damage to stored data",
 "The checksum of stored data changes whenever up to three bits, or any burst of up to 32 bits, of the data flip; computing it piecewise gives the same value, and an erased page has a checksum that matches an erased checksum field.",
 ["fault_sequences", "inputs"], "every set of flips and bursts, every length, content and split",
 "tests/crc32.c compares a few values.",
 ["ecc/crc32.c", "ecc/crc32.h"], [("table-driven CRC with a bias for erased pages", "ecc/crc32.c crc32_nand")],
 "Sampling of flip patterns in simulated storage.", (), ["crc32_nand values"])
prop("C22", "Chips move freely between builds of the BCH code",
 "Parity written by the build of the BCH code with lookup tables is identical to that of the build without tables, and either build verifies and repairs what the other wrote.",
 ["configurations", "fault_sequences", "inputs"], "both builds, all four codes, every content, length and flip pattern",
 "Only the build with tables is ever compiled by the tests.",
 ["ecc/gf13.c", "ecc/gf13.h", "ecc/bch.c"], [("table and table-free field arithmetic", "ecc/gf13.h gf13_mul, gf13_wrap; ecc/gf13.c")],
 "Both builds are linked into one process and share simulated storage.", (), ["parity bytes and repaired content"])
prop("C23", "The whole stack is safe on flipping bits",
 "With the shipped error-correcting codes and checksum in the NAND driver, a device whose stored bits flip within the code's strength behaves exactly like one with perfect storage, and damage beyond it is reported as an error, never as wrong data.",
 ["fault_sequences", "histories", "crash_points", "configurations"], "bit flips accumulating in any page (data, parity, checksum) during any workload with failing blocks and power cuts, with Hamming or BCH of 1-4 bits; pages damaged beyond the code, by one bit too many or altogether",
 "The tests' chip never flips bits and never uses the ecc code together with the map.",
 [M, J, "ecc/bch.c", "ecc/hamming.c", "ecc/crc32.c"], [("ECC per chunk, checksum per page", "README; ecc/")],
 BASE + "The driver follows the README's layout (parity per chunk, CRC protected by parity).", (), MAPAPI)
prop("C24", "Garbage collection makes progress",
 "Running the collector for as many steps as there are used pages leaves (after a sync) no more pages in use than the mapped sectors need, whatever the history.",
 ["histories", "configurations", "fault_sequences"], "any workload followed by collection, any geometry and gc ratio",
 "No test calls the collector by hand or measures what it reclaims.",
 [M, J], [("collection of the oldest page", M+" dhara_map_gc, raw_gc, pad_queue")], BASE, (), ["journal size after collection"])

prop("C25", "A power cut loses only the latest few changes",
 "At most the changes of one unfinished checkpoint group are lost in a power cut: of the page-writing changes (writes, copies, trims) that were acknowledged before the cut, all are there after restart except at most the last 2^k - 2, where 2^k is the checkpoint period of the geometry, even if the user never called sync.",
 ["crash_points", "histories", "fault_sequences"], "power cuts at every NAND operation of every workload, with and without failing blocks, any distance from the last sync",
 "No test cuts the power, so none can see how much unsynced work survives.",
 [J, M], [("a checkpoint page is written as soon as a group is full", J+" push_meta"), ("resume takes the newest valid checkpoint", J+" find_root, find_last_group")],
 BASE + "The oracle finds the longest prefix of the changes that explains the recovered state and counts the acknowledged page-writing changes behind it.", (), MAPAPI)
prop("C26", "Behaviour depends on the chip and the calls alone",
 "Two devices given the same chip and the same calls, faults and power cuts do exactly the same, however the RAM handed to them was filled at power-up and whether or not the caller asks for error codes: nothing is read before it is initialised, and passing no error pointer changes no outcome.",
 ["histories", "fault_sequences", "crash_points", "configurations"], "every history with failures, read errors, rot, power cuts and restarts, on the map and on the journal; two fillings of state and buffer memory; error pointer given or not, per call",
 "The tests zero or share their memory and nearly always pass an error pointer.",
 [M, J, "dhara/error.h"], [("init and resume set every field", J+" dhara_journal_init, reset_journal; "+M+" dhara_map_init"), ("error reporting through an optional pointer", "dhara/error.h dhara_set_error")],
 BASE + "Twin runs: each plan is executed twice and the NAND command streams and results are compared call by call.", (), MAPAPI)
prop("C27", "Several devices do not disturb each other",
 "Two maps or journals on different chips, or two error-correcting codes, used in the same process with their work interleaved in any way (as by two threads, each with its own device, preempted anywhere), behave exactly as each does alone: there is no hidden shared state.",
 ["schedules", "histories", "fault_sequences", "crash_points"], "two devices of any geometry and workload with faults and power cuts, switched at any NAND operation of any call and between any two basic blocks of the library",
 "Every test uses one device.",
 [M, J, "dhara/map.h"], [("all state lives in the caller's structures and on the stack", M+", "+J)],
 BASE + "Two coroutines run the two devices; a seeded scheduler decides at every NAND operation and (library built with -fsanitize-coverage=trace-pc) at every basic block who goes on. Preemption inside a basic block is outside.", (), MAPAPI)
prop("C28", "A firmware update keeps the data",
 "A chip written by the released version of the library is taken over by the current one, and the other way round, at any restart including one after a power cut: synced data, pending groups, counters and the journal queue carry over as if it were one version.",
 ["configurations", "histories", "crash_points", "fault_sequences"], "every history with restarts and power cuts in which each start boots one of the two versions at random",
 "The tests write and read with the same build; a change of the on-flash format that is consistent in itself passes all of them.",
 [J, M, "dhara/bytes.h"], [("checkpoint header and metadata layout", J+" hdr_*; "+M+" meta_*, ck_*"), ("byte order on flash", "dhara/bytes.h dhara_w32, dhara_r32")],
 BASE + "The released version is a frozen copy of dhara/ and ecc/ in sim/ref (with the repairs listed in known_findings), linked into the simulator under prefixed names.", (), MAPAPI)
prop("C29", "A worn-out device refuses, and keeps what it has",
 "However many blocks fail, until no usable block is left: a write, trim, sync or collection that finds no good block to go to fails with a documented error (too many bad blocks, journal full, map full) and changes nothing; everything already stored stays readable; after a power cut synced data are there and the state is the synced state plus a whole prefix of later changes; size and capacity stay true to what is left, however often the refused call is repeated.",
 ["fault_sequences", "histories", "crash_points"], "every workload carried on while blocks keep failing until (and after) the device is worn out, with and without power cuts and restarts, at most half of any eight neighbouring blocks bad; without restarts also storms in which for a while nothing can be programmed (or erased either), up to eight blocks in a row, after which only reading is promised",
 "tests/recovery.c stops at a handful of failures; nothing tests a device that runs out of blocks.",
 [J, M], [("limits on retries and on the head running into the tail", J+" prepare_head, skip_block, DHARA_MAX_RETRIES"), ("what a failed recovery leaves behind", J+" recover_from, dump_meta"), ("capacity from the bad blocks counted", J+" dhara_journal_capacity, roll_stats")],
 BASE + "Once out of space the device has nowhere else to go and tries the failing page again at every call: the programming rules are not judged on that block until its next erase.", (), MAPAPI)
prop("C30", "Any mix of faults loses nothing synced",
 "When block failures, transient read errors and power cuts come together in any order, including a read error inside a recovery and a power cut before that recovery is done, every call succeeds or reports the read error, synced data survive, and after the next restart the state is the synced state plus a whole prefix of the later changes (in which a change whose call had reported an error may or may not appear).",
 ["fault_sequences", "crash_points", "histories"], "every combination of up to four failing blocks, transient read errors and power cuts in every workload",
 "No test injects any two of these faults together.",
 [M, J], [("recovery taken up again after an interruption", M+" try_recover, "+J+" recover_from"), ("checkpoints commit whole groups", J+" push_meta")],
 BASE + "Same oracle as for power cuts, with failed calls allowed where a read error was injected.", (), MAPAPI)

prop("C31", "Chips of any size behave like small ones",
 "Everything promised for small chips holds for any geometry up to 2^31 pages - hundreds of millions of blocks, thousands of pages per block, pages large enough for the metadata of hundreds of others - wherever on the chip the journal has got to and whatever its generation count: a restart finds the exact state in logarithmic time, data and sizes stay right through failures, power cuts and the wrap from the last block to the first, and capacity stays in proportion.",
 ["inputs", "crash_points", "fault_sequences", "histories"], "every geometry up to 2^31 pages, head position, generation, workload and fault sequence",
 "Tests use one small chip; a test cannot fill a chip of terabytes to get its journal to the far end.",
 [M, J], [("binary search for the newest block and group", J+" find_last_checkblock, find_last_group"), ("page arithmetic around the end of the chip", J+" next_upage, dhara_journal_dequeue, dhara_journal_size"), ("metadata offsets", J+" hdr_user_offset")],
 BASE + "The simulated chip stores only blocks that are touched. The frozen release is started in the middle of the chip to make the synced state a run begins with; blocks behind it hold synthetic pages and checkpoints of the same generation, blocks ahead those of the one before or nothing.", (), MAPAPI)

prop("C32", "A chip full of bad blocks works within its smaller capacity",
 "With up to two fifths of the blocks bad from the factory, spread evenly or gathered at one end (at most four in a row and five of any nine, or, where nothing else fails, runs of up to seven with only good blocks between them), everything promised for a good chip still holds: the capacity comes down to what the good blocks hold once the first pass has met them, from the very first write on new sectors are refused before the journal could overflow, a full device keeps working, synced data survive cuts and further failures, and wear stays even.",
 ["inputs", "crash_points", "fault_sequences", "histories"], "every pattern of bad blocks within the limits, every workload and fault sequence",
 "The tests mark two or three bad blocks at fixed places on one chip and never fill what is left.",
 [M, J], [("bad-block counters", J+" skip_block, roll_stats, dhara_journal_capacity"), ("skipping bad blocks", J+" next_upage, prepare_head, find_checkblock"), ("refusal of new sectors", M+" prepare_write, dhara_map_capacity")],
 BASE + "Base workloads: plain, full, fail, crash, crashfail, gc and wear.", (), MAPAPI)

prop("C90", "Error texts match error codes",
 "Every documented error code has its own, non-empty description and an unknown code still gives a text.",
 ["inputs"], "every error code", "tests/error.c prints a few of them.", ["dhara/error.c", "dhara/error.h"], [("table of messages", "dhara/error.c dhara_strerror")],
 "", na="A pure function of one small integer: no fault, schedule, crash or history for a simulation to decide.")
prop("C91", "The table generator tools print the tables that are shipped",
 "Running the generator tools reproduces the checksum and field tables and the code polynomials the library was built with.",
 ["inputs"], "the generator programs", "No test runs the tools.", ["tools/gentab.c", "tools/gftool.c", "ecc/gf13.c"], [("table generator", "tools/gentab.c main"), ("field and polynomial generator", "tools/gftool.c main")],
 "", na="Build-time programs without input, faults or state: comparing their output with the source is a plain test, not a simulation. The tables themselves are covered by the flip-injection checks on stored chunks.")

exec(open(os.path.join(here, "doc", "more.py")).read()) if os.path.exists(os.path.join(here, "doc", "more.py")) else None

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         observe_at=list(p["observe"]), hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["id"]
man = dict(version=1, setup_cmd="./check --setup",
  checks=[dict(property=p["id"], quick_cmd="./check " + p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
               technique=p["technique"] or "deterministic simulation with fault injection, seeded search, reference-model oracle",
               level="exploration", level_note=p["note"]) for p in P if not p["na"]],
  not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
  notes="No hooks in /repo are needed: the NAND driver interface (dhara/nand.h) is the seam for all I/O, faults and power cuts; the caller owns all RAM.")
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
