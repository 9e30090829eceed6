"""The properties and the configuration families that decide them."""
import families as F, families2 as G, pairs

RESOURCE = ("SHM_LEAK", "SHM_ATTACHED")
HANG = ("DEADLOCK", "LIVELOCK", "NONTERM", "COLL_MISMATCH")
MEM = ("GUARD", "HEAP_OOB_READ", "HEAP_OOB_WRITE", "USER_OOB_READ", "USER_OOB_WRITE", "SHM_OOB_READ", "SHM_OOB_WRITE", "SHM_RDONLY", "SHM_DETACHED", "SHM_ID", "SHM_TWICE", "SHM_DT",
       "FOREIGN", "BADFREE", "DOUBLEFREE", "CRASH", "OPAQUE")
ASSUME = [
    "memory model: the library's shared flags are accessed by single aligned loads and stores treated as release/acquire (x86-TSO hardware ordering, no compiler reordering across volatile accesses)",
    "the library's built-in latency/bandwidth table is truncated at 200 kB messages in the explorer build (sizes used stay below)",
    "message passing is modelled: MPI point-to-point/collective semantics with eager, delayed-eager and rendezvous sends, in-order matching per (source, tag, communicator)",
    "counts are passed identically on every rank of a call, types are int, long, float, double, the operation is a sum",
]

def coll(colls):
    def f(tier):
        deep, wide = F.coll_configs(colls, tier)
        return [("schedules", deep), ("parameters", wide)]
    return f

PROPS = {
    "C01": {"families": coll(["allreduce"])},
    "C02": {"families": coll(["reduce"])},
    "C03": {"families": coll(["bcast"])},
    "C04": {"families": coll(["allgather", "allgatherv"])},
    "C05": {"families": coll(["reduce_scatter", "reduce_scatter_block"])},
    "C06": {"families": coll(["gather", "gatherv"])},
    "C07": {"families": coll(["scatter", "scatterv"])},
    "C08": {"families": G.rounds},
    "C09": {"families": G.concurrent},
    "C10": {"families": G.terminate, "kinds": HANG},
    "C11": {"families": G.waittest},
    "C12": {"families": G.memory, "kinds": MEM},
    "C13": {"families": G.sendbufs, "kinds": ("SENDMOD", "RECVMOD", "SEND_WRITE", "INIT_CLOBBER")},
    "C15": {"families": G.blockingcalls},
    "C14": {"families": G.bits},
    "C16": {"families": G.settings, "extra": pairs.checker("C16", G.setting_pairs)},
    "C18": {"families": G.passthrough},
    "C19": {"families": G.rankenv, "extra": pairs.checker("C19", G.rankenv_pairs)},
    "C20": {"families": G.lifecycle},
    "C21": {"families": G.fortran},
    "C22": {"families": G.debugmode},
    "C23": {"families": G.release, "kinds": RESOURCE + ("SHM_DETACHED", "SHM_ID", "SHM_TWICE", "SHM_DT", "DOUBLEFREE", "BADFREE", "FOREIGN"), "notkinds": ()},
    "C25": {"families": G.outlive},
    "C26": {"families": G.selfcheck},
    "C24": {"families": G.inplace},
}
