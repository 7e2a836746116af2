"""The registry: which scenarios decide a property and which deviations count against it."""
import c_blocks
import c_geom
import c_looks
import c_parts
import c_scene
import c_show
import c_src
import c_trace

HITS = [r"hit-(missing|repeated|parity|surface|unexpected|order)"]
POSE = ["pose", "last-row", "inverse", "position", "orientation", "quaternion", "to-(world|object)(-direction)?"]


NEAREST = ["hit-nearest", "hit-attribution", "hit-phantom", "lost", "interaction-.*"]
CHAIN = ["interaction-twice", "chain-.*", "segment-finite", "tilt-.*", "first-.*", "ids"]


LAWS = ["law-.*", "response.*", "snell-.*", "reflect-law"]
ENDS = ["kept-.*", "lost", "hit-nearest", "hit-attribution", "hit-phantom"]


def _both(*fs):
    def run(ctx):
        for f in fs:
            f(ctx)
    return run


CHECKS = {
    "C01": {"run": c_trace.c01, "clauses": NEAREST + ["independence"], "floor": 1000},
    "C02": {"run": c_trace.c02, "clauses": CHAIN, "floor": 1000},
    "C03": {"run": c_trace.c03, "clauses": ["kept-.*", "lost", "hit-phantom", "interaction-twice"], "floor": 1000},
    "C04": {"run": c_trace.c04, "clauses": ["independence"], "floor": 500},
    "C05": {"run": c_trace.c05, "clauses": NEAREST + CHAIN + [
        "kept-.*", "independence", "repeatable", "results", "held-results", "getter"], "floor": 1000},
    "C06": {"run": c_trace.c06, "clauses": ["ids", "first-.*", "lost", "source-ids", "chain-generation", "results"], "floor": 1000},
    "C07": {"run": c_geom.c07, "clauses": HITS + ["bounding-volume", "surface-ids"], "floor": 3000},
    "C08": {"run": c_geom.c08, "clauses": [r"merge-.*"], "floor": 20000},
    "C09": {"run": _both(c_geom.c09, c_scene.boxes), "clauses": HITS + ["bounding-volume"], "floor": 3000},
    "C10": {"run": _both(c_geom.c10, c_scene.normals), "clauses": HITS + ["normal"], "floor": 3000},
    "C11": {"run": c_scene.c11, "clauses": POSE + ["not-rejected", "argument-changed"], "floor": 3000},
    "C12": {"run": c_scene.c12, "clauses": POSE, "floor": 3000},
    "C13": {"run": c_scene.c13, "clauses": POSE + ["exception-lost"], "floor": 3000},
    "C14": {"run": c_geom.c14, "clauses": HITS, "floor": 3000},
    "C15": {"run": c_parts.c15, "clauses": LAWS, "floor": 2000},
    "C16": {"run": c_parts.c16, "clauses": ["index-.*", "abbe", "law-.*", "response-.*", "independence"], "floor": 2000},
    "C17": {"run": c_parts.c17, "clauses": HITS + ["normal", "part-material", "id-reused"], "floor": 3000},
    "C18": {"run": c_parts.c18, "clauses": HITS + ["normal", "part-material", "id-reused"] + LAWS + ENDS, "floor": 3000},
    "C19": {"run": c_parts.c19, "clauses": HITS + ["normal", "part-material", "id-reused"] + LAWS + ENDS, "floor": 3000},
    "C20": {"run": c_src.c20, "clauses": ["emit-.*", "wavelength-get", "not-rejected"], "floor": 3000},
    "C21": {"run": c_src.c21, "clauses": ["emit-.*", "lamp-.*", "wavelength-get"], "floor": 3000},
    "C22": {"run": c_src.c22, "clauses": ["camera-.*", "image-.*", "outline-.*", "drawing-.*"], "floor": 3000},
    "C23": {"run": c_src.c23, "clauses": ["rgb-.*", "lensmaker.*"], "floor": 2000},
    "C24": {"run": c_src.c24, "clauses": ["identity", "id-reused", "surface-ids", "rayset-.*"], "floor": 2000},
    "C25": {"run": c_show.c25, "clauses": ["show-.*", "drawing-.*", "results", "held-results", "repeatable"], "floor": 1000},
    "C26": {"run": c_looks.c26, "clauses": ["argument-changed", "answer-changed"], "floor": 3000},
    "C27": {"run": c_blocks.c27, "clauses": [
        "block-.*", "unit-.*", "disk", "rectangle", "box-.*", "roots", "smallest-root", "dot-product", "bundle", "argument-changed",
        "part-material", "emit-.*", "lamp-.*"] + HITS, "floor": 3000},
}
