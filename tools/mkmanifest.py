"""Writes /verif/MANIFEST.json from properties.jsonl and the list below."""
import json, pathlib

V = pathlib.Path("/verif")
T = dict(
    I01="online reference monitor: every emitted estimate against closed-form weights",
    I02="online reference monitor of the clipped recursion, with onset, pass-through and sign checks",
    I03="offline trace checker over the timestamps of every stream",
    I04="online reference monitor of the two-stage estimate on every tuple of the stream",
    I05="online reference monitor of predicted means on every tuple of the stream",
    I06="reference monitor on masked frames plus differential runs without the missing asset",
    V01="invariant monitor on every covariance that any public stream emits",
    V02="acceptance monitor: each valid call paired with a copy spoiled in one respect, which must raise",
    I08="trace comparison of runs on a history and on modified futures, plus reaction monitor",
    I09="metamorphic trace comparison: rescaled, relabelled, permuted and sign-flipped runs",
    I10="history checker: random interleavings, overwriting and concurrent threads over estimator streams against solo runs",
    K01="optimality certificate monitor: duality gap and barrier optimum from the public inputs, per result",
    K02="online reference monitor: blended covariance and mean recomputed from weights and experts",
    K03="trace checker of result times plus perturbation runs outside and inside the window",
    K04="trace comparison of restricted against unrestricted solves, rejection monitor",
    K05="history checker: random interleavings of streams against solo runs, snapshots re-read and overwritten",
    K06="fault injection at the solver boundary (exhaustive subsets for short streams) with a trace checker",
    K07="reference monitor: independently computed experts and their blend against from_ewmas",
    K08="snapshot monitor of every input, and of shared state, around call histories",
    K09="trace comparison over orders, containers and coverages of the experts, rejection monitor",
    R01="optimality and structure certificate monitor of every regularised matrix",
    R03="online monitor of the likelihood along EM iterations, with reference iteration",
    E01="online reference monitor: every density against a Cholesky evaluation",
    E02="online reference monitor: every matrix against the flat window average",
    E03="reference and differential monitor of the low-rank stream",
    E04="iteration monitor: objective descent, exact start, built model",
    E05="least-squares certificate monitor at every time plus causality perturbation",
    E06="schedule-controlled worker pool, history checker over sequences of backtests",
    E07="optimality certificate monitor (LP bounds, KKT residuals) of every day's portfolio",
    E08="accounting monitor over sequences of backtests and metric calls, parser of the printed table",
    E09="differential monitor: vectorised against streaming implementation",
    E10="trace checker of the yielded models, reference parts, causality perturbation",
    P01="differential monitor across freshly started interpreters in hostile environments; snapshot monitor of process-wide state around and between steps of calls",
    P02="round-trip and aliasing monitor of every result; differential monitor of copied and pickled objects",
    P03="resource monitors (traced memory, solver log, processes, threads, descriptors) around long streams, repeated calls and real-pool backtests",
    P04="paired-run monitor (common past, other future; other units and labels) and reference evaluation of the whole chain from returns to portfolios",
    E11="online reference monitors of the helper functions",
)
NOTE = {
    "K": " Trusts numpy, the reference solver in mon/ref.py and, for solver accuracy, the measured optimality gap.",
    "P": " Runs with CLARABEL for ECOS and an in-process pool, except where real worker processes are the point.",
    "E": " Runs with stand-ins for what is not installed here (ECOS/MOSEK -> CLARABEL, cvx.linalg.pca) and a schedule-controlled process pool.",
}
P = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
assert {p["id"] for p in P} == set(T), ({p["id"] for p in P} ^ set(T))
checks = [
    dict(
        property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}", evidence_file=f"evidence/{p['id']}.json",
        technique="runtime monitoring: " + T[p["id"]],
        level="fault_enumeration" if p["id"] == "K06" else "exploration",
        level_note="Held on the executions generated (counts, distinct cases and peak errors are in the evidence file); says nothing about inputs not generated. A run whose monitors observed too little exits 2, neither held nor violated." + NOTE.get(p["id"][0], ""),
    )
    for p in P
]
M = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
         notes="Pure-Python library without native code or shared-memory threads: compiler sanitizers and race detectors have nothing of this repository to instrument (DESIGN.md). No hooks in /repo: every monitor observes at the public interface or at stand-ins installed by the harness.")
(V / "MANIFEST.json").write_text(json.dumps(M, indent=1) + "\n")
