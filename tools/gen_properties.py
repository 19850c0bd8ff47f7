#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

RMA = "src/internal/rma_impl.h"; IMPL = "src/include/oshmpi_impl.h"
prop("R01", "Contiguous put/get move exactly the addressed elements",
 "A put (get) of n elements to (from) a PE copies exactly those n elements between the local buffer and the addressed place in that PE's copy of the symmetric object, whichever symmetric region the object lives in (symmetric heap, global/static data, attached memory space) and whether the default or an explicit context is used. No other byte of any PE's memory changes, and a zero-element call changes nothing.",
 ["inputs","configurations"], "all symmetric regions, offsets, element counts, buffer contents, target PEs (self included), blocking and nonblocking forms",
 "The RMA tests use one or two fixed sizes at the start of one heap or static object between two PEs; placement must hold for every region, offset, count and target.",
 [RMA, IMPL, "src/shmem/rma.c", "src/shmem/rma_typed.c.tpl"],
 [("symmetric object lookup and address translation", IMPL), ("put/get issue", RMA)],
 observe=["remote and local memory after the call (and quiet)"])
prop("R02", "Strided put/get move exactly the strided elements",
 "A strided put (get) of n elements with target stride t and source stride s copies element i from source position i*s to target position i*t for every i below n, for every positive stride and on every symmetric region, and changes no other byte.",
 ["inputs"], "all counts, all positive target/source strides (1 included, equal or different), offsets and element types",
 "The iput tests use one stride pair and one count; datatype construction has special cases for stride 1 and for differing strides which only other inputs reach.",
 [RMA, "src/internal/strided_impl.h"], [("strided datatype construction", "src/internal/strided_impl.h"), ("iput/iget", RMA)],
 observe=["remote and local memory"])
prop("R03", "Every typed, sized and byte RMA call uses its own element size",
 "Each typed (e.g. double), fixed-size (8 to 128 bits) and byte-wise put/get/p/g/iput/iget routine, blocking or not, context form or not, moves elements of exactly the size its name says, in the direction its name says, in context and argument order as documented. The same effect results on the direct path and on the active-message path.",
 ["inputs","configurations"], "all generated routines, all element values, small counts, direct and active-message transport",
 "Tests call int and byte variants only; hundreds of generated entry points are never executed.",
 ["src/shmem/rma_typed.c.tpl","src/shmem/rma_sized.c.tpl","src/shmem/rma.c","maint/rma_typedef.txt","maint/rma_sizedef.txt"],
 [("typed API templates", "src/shmem/*.c.tpl"), ("type tables", "maint/*.txt")], observe=["memory effect of each routine"])
prop("R04", "Blocking calls are complete when they return",
 "When a blocking put returns its source buffer may be overwritten without affecting the data delivered; when a blocking get or a fetching atomic returns, the fetched data is in the destination. A nonblocking get's data is in its destination after quiet.",
 ["inputs","schedules"], "all RMA/AMO routines and regions; every moment at which the network may read the source or deliver data that MPI's completion rules allow",
 "The MPI library used in tests usually completes transfers eagerly, so a missing completion call is invisible there.",
 [RMA, "src/internal/amo_impl.h", IMPL], [("local completion after issue", RMA)], observe=["completion state of issued MPI operations at return"])
prop("R05", "Active-message RMA has the effect of direct RMA",
 "Contiguous and strided puts and gets routed through active messages move exactly the same bytes to the same places as the direct route, whichever symmetric region is addressed. The target identifies the addressed object correctly even when several memory spaces are attached.",
 ["inputs","configurations","schedules"], "all regions, offsets, counts, strides, types; target services the packet at any of its progress points",
 "The active-message RMA route is off for host buffers by default; no test selects it.",
 ["src/internal/rma_am_impl.h","src/internal/rma_am_impl.c","src/internal/am_pre.h"],
 [("packet encode", "src/internal/rma_am_impl.h"), ("packet callbacks", "src/internal/rma_am_impl.c")], observe=["memory of both PEs", "message matching"])
prop("R06", "Symmetric addresses translate to the same object offset",
 "An address inside a symmetric object always denotes, on every PE, the byte at the same offset of that PE's copy: this holds for every byte of the symmetric heap an allocation can return, of the data segment and of an attached space, including first and last bytes and adjacent regions, with symmetric or asymmetric base addresses. Accessibility queries answer yes exactly for such addresses and existing PEs.",
 ["inputs","configurations"], "all addresses, heap sizes, base address differences between PEs, window kinds (allocated or dynamic)",
 "Tests touch objects near the start of each region under one memory layout; boundaries and asymmetric layouts are not reached.",
 [IMPL,"src/internal/setup_impl.c","src/internal/common.c","src/internal/util/symm_mem.c"],
 [("range check and translation", IMPL), ("attribute setup", "src/internal/setup_impl.c"), ("address symmetry detection", "src/internal/util/symm_mem.c")],
 observe=["displacement and window given to MPI", "accessibility query results"])
prop("O01", "Quiet completes every outstanding operation",
 "When quiet on the default context returns, every put, nonblocking get, and atomic update the calling PE issued earlier on the default context is complete at its target, on whatever region, space or PE and by whatever transport it was issued.",
 ["histories","configurations"], "all bounded histories of operations over all regions, PEs and transports, followed by quiet; operation tracking on or off",
 "Tests issue one operation kind on one region then quiet; MPI in tests completes eagerly, so a skipped flush is not observed.",
 ["src/internal/order_impl.h","src/internal/am_impl.h",RMA], [("flush per window/context and AM flush", "src/internal/order_impl.h")],
 [("outstanding-operation flag","set when an operation may be pending, gates the flush",IMPL)], ["pending operations at return"])
prop("O02", "Fence orders operations to each PE",
 "Updates issued before a fence are delivered to each PE before any update issued to that PE after the fence, on every region and transport.",
 ["histories","configurations"], "all bounded histories of puts and atomics before and after a fence",
 "Reordering does not occur between two processes on one host in the tests.",
 ["src/internal/order_impl.h"], [("fence", "src/internal/order_impl.h")], observe=["pending operations at return"])
prop("O03", "Explicit-context quiet and fence complete that context",
 "Quiet or fence on a context created for a space completes (orders) every put, get and atomic update issued on that context; operations on other contexts remain unaffected by it in correctness, and quiet on the default context does not lose track of them.",
 ["histories","configurations"], "all histories of operations on default and explicit contexts, atomics by active message or direct",
 "Tests use one context and one put.", ["src/internal/order_impl.h","src/internal/space_impl.c"],
 [("context quiet/fence","src/internal/order_impl.h")], observe=["pending operations at return"])
prop("O04", "Barrier completes updates and synchronises its participants",
 "When a barrier (all PEs or active set) returns on a PE, every PE of the set has entered it and every memory update previously issued by the caller on the default context is complete at its target; sync (all PEs, active set, or any valid team) synchronises the same participants. Each barrier or sync involves exactly the PEs of its set.",
 ["histories","configurations"], "all histories of operations on all regions before a barrier; all active sets",
 "Tests use barriers after heap or static puts on two PEs only.",
 ["src/internal/coll_impl.h","src/internal/coll_activeset_impl.h"], [("barrier","src/internal/coll_impl.h"),("active-set barrier","src/internal/coll_activeset_impl.h")], observe=["pending operations and communicator at the MPI barrier"])
prop("A01", "Each atomic operation has its documented effect",
 "Every atomic routine (set, swap, fetch, add, inc, and, or, xor, compare-and-swap and their fetching forms, for every supported type) leaves at the target the documented function of the old value and operands, and a fetching form returns the old value; no other byte changes. This holds on the direct and on the active-message path and on every region.",
 ["inputs","configurations"], "all old values, operands, comparands and types; heap, data and space targets; self and remote",
 "Tests exercise int atomics with a few constants.",
 ["src/shmem/amo_std_typed.c.tpl","src/shmem/amo_ext_typed.c.tpl","src/shmem/amo_bitws_typed.c.tpl","src/internal/amo_impl.h","src/internal/amo_am_impl.h","src/internal/amo_am_impl.c"],
 [("direct atomics","src/internal/amo_impl.h"),("AM callbacks","src/internal/amo_am_impl.c")], observe=["target memory and returned value"])
prop("A02", "Atomics to one location never mix incompatible mechanisms",
 "With any declared set of used atomic operations, all PEs and all declared operations use one mechanism, and the direct mechanism is selected only if the declared operations map to a single MPI operation plus at most a plain read; the hints given to MPI allow every operation that will be issued. An undeclared set (default) is treated as all operations.",
 ["configurations","inputs"], "all subsets of the declarable operations",
 "Tests run with the default setting only; there are 2^14 settings.",
 ["src/internal/setup_impl.c",IMPL], [("declared operation parsing and hint selection","src/internal/setup_impl.c")], observe=["hints and path taken by each routine"])
prop("A03", "Concurrent atomics on one location are linearizable",
 "When several PEs update one location with atomics at the same time, every update takes effect exactly once and fetched values are those of some serial order, whichever PE owns the location and however handler execution interleaves with the owner's own calls.",
 ["schedules"], "all interleavings of up to three atomics from two PEs and of handler execution at the owner",
 "Two-PE tests sample few interleavings.", ["src/internal/amo_am_impl.c","src/internal/amo_impl.h","src/internal/am_impl.c"],
 [("handlers apply read-modify-write through one path","src/internal/amo_am_impl.c")], observe=["final value and fetched values"])
prop("M01", "Active-message replies always reach the request that asked",
 "Every fetching or completing active message receives exactly its own reply, over histories of any length: message tags stay inside MPI's legal range, never collide with the request tag, and differ between operations in flight; completion of all earlier posted updates is implied by the flush reply. The number of operations a program performs is not limited by tag space.",
 ["histories","schedules"], "any number of previous operations (arbitrary counter state); any target progress",
 "Tests issue at most a few thousand messages; tag space has 2^31 values or, on some MPI libraries, 2^20.",
 ["src/internal/am_impl.h","src/internal/am_impl.c"], [("per-operation tag","src/internal/am_impl.h"),("flush protocol","src/internal/am_impl.c")],
 [("tag counter","number of tags handed out","src/internal/am_pre.h")], ["tags passed to MPI"])
prop("S01", "Wait and test return exactly when the comparison holds",
 "A test returns nonzero iff the comparison with the given value holds for the variable under the type's own ordering; a wait returns only in a state in which it held and does return once it holds. Every comparison operator, type, and scalar form behaves so, including for unsigned and boundary values.",
 ["inputs","schedules"], "all values, operators, types; the variable may change between polls",
 "Tests use one type and operator.", ["src/internal/p2p_impl.h","src/shmem/p2p_typed.c.tpl","src/shmem/p2p.c"],
 [("comparison","src/internal/p2p_impl.h")], observe=["return value", "value at return"])
prop("L01", "At most one PE holds a lock",
 "Between a PE's successful set or test and its clear of a lock, no other PE's set or successful test on that lock returns; locks on different variables do not interfere. The updates a PE issued on the default context while holding the lock are complete at their targets when its clear lets another PE in.",
 ["schedules"], "all interleavings of lock operations of up to three PEs", "Lock tests sample a few interleavings of two processes.",
 ["src/internal/lock_impl.h"], [("queue lock","src/internal/lock_impl.h")], observe=["owner set"])
prop("L02", "A released lock is handed on and never lost",
 "After the holder clears a lock, a waiting PE acquires it; with no holder and no waiter the lock is free again, so that a test or set succeeds. No interleaving of set, test and clear leaves every requester waiting forever; a PE waiting in a set or clear, or retrying a test, keeps handling the requests of other PEs.",
 ["schedules"], "all interleavings of lock operations of up to three PEs, messages delivered in any order",
 "A lost wake-up needs a release racing with an enqueue; tests do not control that.", ["src/internal/lock_impl.h"],
 [("hand-off","src/internal/lock_impl.h")], observe=["blocked states"])
prop("C01", "Team collectives deliver the documented data",
 "Team broadcast, collect, fcollect, alltoall and strided alltoall place in each member's destination exactly the data the specification gives for the members' sources, counts, strides and root, in team rank order, touching nothing else, for every type variant.",
 ["inputs"], "all counts (different per PE for collect, zero included), roots, strides, values", "Tests run two PEs, one count, world team.",
 ["src/internal/coll_impl.h","src/shmem/coll_typed.c.tpl","src/shmem/coll.c"], [("team collectives","src/internal/coll_impl.h")], observe=["destination buffers"])
prop("C02", "Active-set collectives deliver the documented data",
 "For every active set (start, log stride, size) and root given as a rank in that set, the 32- and 64-bit broadcast, collect, fcollect, alltoall, strided alltoall and the reductions give each PE of the set exactly the specified data in set order; a broadcast leaves the root's destination untouched.",
 ["inputs"], "all active sets, roots, counts, strides", "Tests use start 0, stride 0, all PEs, root 0.",
 ["src/internal/coll_activeset_impl.h","src/shmem/coll_activeset.c"], [("active-set collectives","src/internal/coll_activeset_impl.h")], observe=["destination buffers","communicator membership"])
prop("C03", "Reductions apply the named operator to the named type",
 "Every typed reduction (team and active set: and, or, xor, min, max, sum, prod) leaves in every member's destination the elementwise combination of all members' sources under the operator and type of its name, also when destination and source are the same array.",
 ["inputs"], "all generated reductions, values and counts, in place or not", "Only a few generated reductions are tested.",
 ["src/shmem/reduce_*_typed.c.tpl","maint/reduce_*_typedef.txt","src/internal/coll_impl.h"], [("reduction templates","src/shmem/reduce_sumprod_team_typed.c.tpl")], observe=["operator, datatype, buffers given to the reduction"])
prop("C04", "Cached active-set groups are always the right group",
 "In any sequence of collectives over different active sets, each collective communicates with exactly the PEs of its own active set, regardless of which sets were used before.",
 ["histories"], "all bounded sequences of active sets", "Tests repeat one active set.", ["src/internal/coll_activeset_impl.h","src/internal/coll_impl.c"],
 [("communicator cache","src/internal/coll_activeset_impl.h")], observe=["communicator used"])
prop("T01", "Team splits have the documented membership and numbering",
 "A strided split of a team contains exactly parent members start, start+stride, ..., numbered in that order; a 2D split assigns each parent member to its x- and y-axis team and position as documented; members get valid handles and non-members the invalid handle; invalid arguments are reported by a nonzero return on all PEs without creating teams. The shared team contains exactly the PEs on the caller's node.",
 ["inputs"], "all parent sizes, starts, strides, sizes, x ranges", "The team test uses one even/odd split on two PEs.",
 ["src/shmem/team.c","src/internal/team_impl.c"], [("split","src/shmem/team.c")], observe=["membership colors and keys","my_pe/n_pes of new team"])
prop("T02", "Team queries and rank translation are consistent",
 "Rank and size queries of a team agree with its membership, -1 is returned for the invalid team, and translating a member's rank between two teams gives the rank of the same PE in the destination team or -1 if there is none; invalid ranks give -1.",
 ["inputs","histories"], "all team pairs, ranks (valid or not)", "Tests translate one rank.", ["src/shmem/team.c"], [("translate","src/shmem/team.c")], observe=["return values"])
prop("H01", "Symmetric heap calls follow the allocation contract",
 "Symmetric allocation calls return null or a block wholly inside the remotely accessible heap, with the requested size and alignment, zeroed for calloc; size-zero requests return null without synchronising; realloc preserves content up to the smaller size, frees for size zero; every collective allocation call synchronises all PEs as specified and never frees memory still being targeted.",
 ["inputs","histories"], "all sizes (near the maximum included), alignments, counts", "Tests allocate a few small blocks.",
 ["src/shmem/mem.c","src/internal/mem_impl.c","src/internal/setup_impl.c"], [("allocation wrappers","src/internal/mem_impl.c")], observe=["returned pointers","barrier count"])
prop("H02", "Memory-space allocations are disjoint and inside the space",
 "Every block allocated from a memory space lies inside the space, is at least as large and as aligned as requested, and overlaps no other live block; freeing a block makes exactly it available again; a request that does not fit returns null and changes nothing.",
 ["histories","inputs"], "every reachable allocator state (inductive step from an arbitrary valid state) and every request size", "Tests make two allocations.",
 ["src/internal/util/mem_pool.c","src/internal/space_impl.c"], [("chunk allocator","src/internal/util/mem_pool.c")], [("chunk table","number of chunks of the block starting here","src/internal/util/mem_pool.c")], ["returned pointers","allocator state"])
prop("P01", "Spaces and contexts live and die cleanly",
 "In any sequence of creating, attaching, allocating, using, detaching and destroying memory spaces and contexts, an attached space is remotely accessible at all PEs through default and own contexts, never confused with another space; context creation returns a valid handle or an error, never an aliased live context; detaching and destroying leave other spaces and later operations correct.",
 ["histories"], "all bounded sequences of space and context calls, attached or not, with 0 to 2 contexts", "Tests use one space and one order of calls.",
 ["src/internal/space_impl.c","src/internal/ctx_impl.c","src/shmemx/space.c","src/shmem/context.c"], [("space lifecycle","src/internal/space_impl.c")], observe=["handles","windows used","MPI object validity"])
prop("E01", "Environment settings mean what the manual says",
 "The symmetric heap gets at least the number of bytes the size setting denotes (decimal number, optional K/M/G/T suffix, fractions rounded up, exact for integers), and the listed operation, feature and debug settings have exactly the documented effect for every documented value; values unset or empty give the documented default.",
 ["inputs","configurations"], "all size strings up to the bound, all combinations of listed tokens", "Tests run with no setting or one fixed size.",
 ["src/internal/setup_impl.c","src/include/oshmpi_util.h"], [("environment parsing","src/internal/setup_impl.c")], observe=["resulting heap size and mode"])
prop("I01", "Initialisation grants a legal thread level, exactly once",
 "Initialisation provides a thread level no higher than requested, than what was configured, and than what MPI granted, and reports the same level on later queries and repeated calls; repeated init or finalize calls are harmless and MPI is initialised at most once and only if nobody did so before.",
 ["inputs","configurations","histories"], "all requested levels, MPI levels, pre-initialised MPI, repeated calls", "Tests request three levels once each.",
 ["src/internal/setup_impl.c","src/shmem/setup.c"], [("thread level negotiation","src/internal/setup_impl.c")], observe=["provided level","MPI init calls"])
prop("I02", "Finalize completes all communication and releases everything",
 "Finalize returns only after all communication the PE issued is complete at its targets and all PEs have entered it, and it releases every MPI object (window, communicator, group, datatype, info, request) the library created, each exactly once and none while still in use.",
 ["histories","configurations"], "all bounded histories of library use before finalize", "MPI cleans up silently at exit; tests quiet before finalize.",
 ["src/internal/setup_impl.c","src/internal/am_impl.c","src/internal/space_impl.c","src/internal/strided_impl.c","src/internal/coll_impl.c"], [("finalize","src/internal/setup_impl.c")], observe=["live MPI objects and pending operations at MPI_Finalize"])
prop("D01", "Caching strided layouts never changes an operation's result",
 "The layout used by a strided operation depends only on its own count, stride and element type, whatever strided operations of whatever types and strides the PE performed before.",
 ["histories"], "all bounded sequences of strided operations, cache present or not, eviction included", "Tests repeat one layout.", ["src/internal/strided_impl.h","src/internal/strided_impl.c"],
 [("layout cache","src/internal/strided_impl.h")], observe=["layout used by each operation"])
prop("X01", "Shared library state is protected under thread multiple",
 "When the multiple thread level is provided, concurrent calls from several threads of one PE never access the allocator, space list, layout and group caches or packet dispatch outside mutual exclusion, never deadlock on them, and concurrent context creation never hands out the same context twice.",
 ["schedules","configurations"], "all interleavings of two threads' calls", "The tested build does not enable this level and tests are single threaded.",
 ["src/include/oshmpi_impl.h","src/internal/mem_impl.c","src/internal/space_impl.c","src/internal/util/thread.h"], [("critical sections",IMPL)], observe=["lock held at access","lock balance at return"])
prop("N01", "Put-with-signal delivers data before its signal",
 "When a waiting PE sees the signal of a put-with-signal, the data of that put is already visible to it.",
 ["schedules","inputs"], "all routines of the family", "No test exists.", ["src/shmem/signal.c","src/shmem/signal_typed.c.tpl","src/shmem/signal_sized.c.tpl"],
 [("not implemented: every routine aborts","src/shmem/signal_typed.c.tpl")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
