"""The registered checks: which harness decides which property."""
import os

REPO = os.environ.get("VERIF_REPO", "/repo")

FMT = ["-lfmt"]

CHECKS = {
    "P01": dict(src=["core/coords_order.cpp"], libs=FMT, level="exploration", fuzz_secs=60),
    "P02": dict(src=["core/coords_iter.cpp"], libs=FMT, level="exploration", fuzz_secs=60),
    "P03": dict(src=["core/coords_conv.cpp"], libs=FMT, level="exploration", fuzz_secs=60),
    "P04": dict(src=["core/aspect_ratio.cpp"], libs=FMT, level="exploration", fuzz_secs=60),
    "P05": dict(src=["core/gray_code.cpp"], level="exploration", fuzz_secs=60),
    "P06": dict(src=["core/combinatorics.cpp"], level="exploration", fuzz_secs=60),
    "P07": dict(src=["core/numeric.cpp"], level="exploration", fuzz_secs=60),
    "P08": dict(src=["core/containers.cpp"], libs=["-ltbb"], level="exploration", fuzz_secs=60),
    "P09": dict(src=["core/hashing.cpp"], libs=FMT, level="exploration", fuzz_secs=60),
    "P10": dict(src=["core/annealing.cpp"], level="exploration", fuzz_secs=60, min_hits=1),
    "P11": dict(src=["core/annealing_race.cpp"], level="exploration", fuzz_secs=0, min_hits=1, replays=60, schedules=True, san="thread"),
    "P12": dict(src=["core/potential.cpp"], level="exploration", fuzz_secs=30),
    "P13": dict(src=["core/csv.cpp"], level="exploration", fuzz_secs=30),
    "P14": dict(src=["core/charges.cpp"], level="exploration", fuzz_secs=30),
}
GC = ["vendors/graph-coloring/Source/%s.cpp" % n for n in
      ("coloring_algorithm", "dsatur", "hybrid_dsatur", "hybrid_lmxrlf", "lmxrlf", "mcs", "tabucol")]
CHECKS.update({
    "P15": dict(src=["core/technologies.cpp"], level="exploration", fuzz_secs=0),
    "P16": dict(src=["core/ports.cpp"], libs=FMT, level="exploration", fuzz_secs=30),
    "P17": dict(src=["core/genlib.cpp"], level="exploration", fuzz_secs=0),
    "P18": dict(src=["core/coloring.cpp"], repo_src=GC, level="exploration", fuzz_secs=60),
    "P19": dict(src=["core/ugraph.cpp"], level="exploration", fuzz_secs=60),
    "P20": dict(src=["core/printer.cpp"], libs=FMT, level="exploration", fuzz_secs=0),
})

# ---- properties of the rest of the library, built against the stand-ins in shim/ (see DESIGN.md)
DEEP = dict(shim=True, libs=FMT, level="exploration", fuzz_secs=0)
CHECKS.update({
    "P21": dict(DEEP, src=["deep/topology.cpp"], fuzz_secs=30),
    "P22": dict(DEEP, src=["deep/clocking.cpp"], fuzz_secs=30),
    "P23": dict(DEEP, src=["deep/gate_level.cpp"], fuzz_secs=60),
    "P24": dict(DEEP, src=["deep/cells.cpp"], fuzz_secs=60),
    "P25": dict(DEEP, src=["deep/networks.cpp"], fuzz_secs=60),
    "P26": dict(DEEP, src=["deep/transform.cpp"], fuzz_secs=60),
    "P27": dict(DEEP, src=["deep/paths.cpp"], fuzz_secs=60),
    "P28": dict(DEEP, src=["deep/routing.cpp"], repo_src=GC, fuzz_secs=60),
    "P29": dict(DEEP, src=["deep/orthogonal.cpp"], fuzz_secs=60),
    "P30": dict(DEEP, src=["deep/optimize.cpp"], fuzz_secs=60),
    "P31": dict(DEEP, src=["deep/charges.cpp"], fuzz_secs=60),
    "P32": dict(DEEP, src=["deep/engines.cpp"], fuzz_secs=60),
    "P33": dict(DEEP, src=["deep/gates.cpp"], fuzz_secs=60),
    "P34": dict(DEEP, src=["deep/thermal.cpp"], fuzz_secs=60),
    "P35": dict(DEEP, src=["deep/files.cpp"], fuzz_secs=60),
    "P36": dict(DEEP, src=["deep/verification.cpp"]),
    "P37": dict(DEEP, src=["deep/libraries.cpp"]),
    "P38": dict(DEEP, src=["deep/domain.cpp"]),
    "P39": dict(DEEP, src=["deep/exact.cpp"], libs=FMT + ["-lz3"], flags=["-DFICTION_Z3_SOLVER=1"]),
    "P40": dict(DEEP, src=["deep/golden.cpp"]),
    "P41": dict(DEEP, src=["deep/artefacts.cpp"]),
    "P42": dict(DEEP, src=["deep/fabrication.cpp"]),
})
