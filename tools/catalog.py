#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFG, SCH, INP, HIS, PRG = "configurations", "schedules", "inputs", "histories", "programs"
L = []
def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe="public API"):
    L.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na, observe=observe))

EXPL = "stateless model checking of the real library: exhaustive bounded schedule and configuration enumeration under a controlled MPI/shared-memory machine, reference-model oracle"
NOTE = ("Every execution is the compiled library code, run for all ranks under a controlled scheduler and a modelled MPI; exhaustive within the listed configurations and the delay/timing/race bounds of DESIGN.md. "
        "Trusts the MPI model, the x86-TSO flag semantics and the bounds (ranks <= 16, small counts).")
CORE = ["src/mpi/ext_mpi_native.c", "src/mpi/ext_mpi_native_exec.c", "src/mpi/ext_mpi.c"]
GEN = ["src/core/allreduce.c", "src/core/allreduce_recursive.c", "src/core/raw_code.c", "src/core/buffer_offset.c"]
WHYC = "The stable tests run only allreduce on at most five ranks with a few fixed settings and one schedule each; %s under other rank counts, layouts, sizes, settings and interleavings is never executed."

P("C01", "Persistent allreduce delivers the sum to every rank",
  "After an initialised allreduce is started on every rank and completed, every rank's receive buffer holds the element-wise sum over all ranks of the send buffers as they were at the start, and nothing else is changed. This holds for every rank count, ranks-per-node layout, element count, supported type and supported setting, under every interleaving of the ranks and every message timing, and the operation always completes.",
  [SCH, CFG, INP], "all rank interleavings and message timings, layouts, counts, types and settings", WHYC % "allreduce",
  CORE + GEN + ["src/core/allreduce_single.c", "src/core/allreduce_short.c", "src/core/reduce_copyin.c", "src/core/reduce_copyout.c"],
  [("initialisation", "EXT_MPI_Allreduce_init_general"), ("code generation", "EXT_MPI_Allreduce_init_native"), ("execution", "ext_mpi_exec_native")], EXPL, NOTE)
P("C02", "Persistent reduce delivers the sum to the root",
  "After an initialised reduce is started on every rank and completed, the root's receive buffer holds the element-wise sum over all ranks of the send buffers, and the buffers of other ranks are not changed. This holds for every root, rank count, layout, count, type and supported setting, under every interleaving and message timing, and the operation always completes.",
  [SCH, CFG, INP], "all roots, interleavings, message timings, layouts, counts, types, settings", WHYC % "reduce",
  CORE + GEN + ["src/mpi/backward_interpreter.c", "src/core/reduce_copyin.c", "src/core/reduce_copyout.c"],
  [("initialisation", "EXT_MPI_Reduce_init_general"), ("pruning to the root", "ext_mpi_generate_backward_interpreter"), ("execution", "ext_mpi_exec_native")], EXPL, NOTE)
P("C03", "Persistent broadcast delivers the root's buffer to every rank",
  "After an initialised broadcast is started on every rank and completed, every rank's buffer equals the root's buffer as it was at the start. This holds for every root, rank count, layout, count, type and supported setting, under every interleaving and message timing, and the operation always completes.",
  [SCH, CFG, INP], "all roots, interleavings, message timings, layouts, counts, types, settings", WHYC % "broadcast",
  CORE + GEN + ["src/mpi/forward_interpreter.c", "src/core/use_recvbuf.c", "src/core/reduce_copyin.c"],
  [("initialisation", "EXT_MPI_Bcast_init_general"), ("pruning from the root", "ext_mpi_generate_forward_interpreter"), ("execution", "ext_mpi_exec_native")], EXPL, NOTE)
P("C04", "Persistent allgather(v) concatenates all contributions on every rank",
  "After an initialised allgather or allgatherv is started on every rank and completed, every rank's receive buffer holds the contributions of all ranks, in rank order, each with its own count. This holds for every rank count, layout, (irregular, possibly zero) counts, type and supported setting, under every interleaving and message timing, and the operation always completes.",
  [SCH, CFG, INP], "all interleavings, message timings, layouts, regular and irregular counts, types, settings", WHYC % "allgather(v)",
  CORE + GEN + ["src/core/raw_code_tasks_node.c", "src/core/rank_permutation.c", "src/core/swap_copyin.c"],
  [("initialisation", "EXT_MPI_Allgatherv_init_general"), ("node permutation", "ext_mpi_generate_rank_permutation_forward"), ("execution", "ext_mpi_exec_native")], EXPL, NOTE)
P("C05", "Persistent reduce_scatter(_block) gives each rank its block of the sum",
  "After an initialised reduce_scatter or reduce_scatter_block is started on every rank and completed, every rank's receive buffer holds its own block of the element-wise sum of all send buffers. This holds for every rank count, layout, (irregular, possibly zero) block sizes, type and supported setting, under every interleaving and message timing, and the operation always completes.",
  [SCH, CFG, INP], "all interleavings, message timings, layouts, regular and irregular block sizes, types, settings", WHYC % "reduce_scatter",
  CORE + GEN + ["src/core/reduce_scatter_single_node.c", "src/core/rank_permutation.c", "src/core/reduce_copyin.c"],
  [("initialisation", "EXT_MPI_Reduce_scatter_init_general"), ("code generation", "EXT_MPI_Reduce_scatter_init_native"), ("execution", "ext_mpi_exec_native")], EXPL, NOTE)
P("C06", "Persistent gather(v) collects all contributions on the root",
  "After an initialised gather or gatherv is started on every rank and completed, the root's receive buffer holds the contributions of all ranks in rank order, and the other ranks' buffers are not changed. This holds for every root, rank count, layout, (irregular, possibly zero) counts, type and supported setting, under every interleaving and message timing, and the operation always completes.",
  [SCH, CFG, INP], "all roots, interleavings, message timings, layouts, counts, types, settings", WHYC % "gather(v)",
  CORE + GEN + ["src/mpi/backward_interpreter.c", "src/core/raw_code_tasks_node.c"],
  [("initialisation", "EXT_MPI_Gatherv_init_general"), ("pruning to the root", "ext_mpi_generate_backward_interpreter"), ("execution", "ext_mpi_exec_native")], EXPL, NOTE)
P("C07", "Persistent scatter(v) hands every rank its block of the root's buffer",
  "After an initialised scatter or scatterv is started on every rank and completed, every rank's receive buffer holds its block of the root's send buffer as it was at the start. This holds for every root, rank count, layout, (irregular, possibly zero) counts, type and supported setting, under every interleaving and message timing, and the operation always completes.",
  [SCH, CFG, INP], "all roots, interleavings, message timings, layouts, counts, types, settings", WHYC % "scatter(v)",
  CORE + GEN + ["src/mpi/forward_interpreter.c", "src/core/reduce_scatter_single_node.c"],
  [("initialisation", "EXT_MPI_Scatterv_init_general"), ("pruning from the root", "ext_mpi_generate_forward_interpreter"), ("execution", "ext_mpi_exec_native")], EXPL, NOTE)
exec(open(os.path.join(HERE, "tools", "catalog2.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "catalog2.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": [p["observe"]]}}) + "\n")
M = {"version": 1, "setup_cmd": "python3 mc/build.py", "hooks": {"guard": "none", "enable": "no hooks in /repo: the explorer instruments the compiled code (compiler pass flags and symbol interposition)", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in L if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in L if p["na"]],
     "notes": "See DESIGN.md. Genuine defects found: repaired ones are fix: commits in /repo, the others are in known_findings.txt."}
json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
