#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C27": "Equality of written and read-back numbers quantifies over array "
           "contents, shapes and numpy broadcasting inside numpy/netCDF4; no "
           "static argument over sofar's source bounds it. The structural "
           "part (every entry stored once, under its name, with its own "
           "value and 64 bit doubles; every entry read back) is decided "
           "under C02, C03 and C05.",
    "C28": "Agreement with AES69-2022 compares the rule tables (a git "
           "submodule that is absent here) with a paper standard; there is "
           "no source to analyse. That every rule of the tables is applied "
           "to every entry is decided under C09 and C10.",
    "C29": "Depends on array ranks and sizes at run time (list nesting, "
           "atleast_nd, padding); sound shape analysis of numpy for "
           "arbitrary user values is out of reach here.",
    "C30": "Depends on the text of each cell and on the float/int parsing "
           "of run-time strings; the structural part (no line dropped, "
           "errors reported) is decided under C23.",
}
TECH = {
    "C01": "dominance of the write effect by the verify call (effect analysis on gated value terms)",
    "C02": "must-effect and value-provenance dataflow from object entries to NetCDF stores",
    "C03": "must-effect and value-provenance dataflow from the file to the object",
    "C04": "guarded must-call and event-order dataflow analysis of the reader",
    "C05": "name-mapping equivalence by abstract string terms",
    "C06": "guard analysis of attribute hooks (raise conditions vs. store conditions)",
    "C07": "typestate analysis of the protection flag over normal and exceptional exits",
    "C08": "effect-before-failure ordering analysis",
    "C09": "flow of detections to the issue channels (guarded dataflow)",
    "C10": "loop coverage and detection-condition dataflow analysis",
    "C11": "effect and alias analysis of read-only operations",
    "C12": "one-sided guard analysis of the returned verdict",
    "C13": "escape and shared-state analysis (module, class, default and cache state)",
    "C14": "typestate and guarded must-effect analysis of the upgrade",
    "C15": "effect analysis: write, delete and network sinks per public operation",
    "C16": "effect ordering, consent dominance and path containment analysis",
    "C17": "resource typestate analysis of every opened handle",
    "C18": "definite-assignment analysis with path conditions",
    "C19": "effect and exception analysis of the stream class",
    "C20": "freshness (def-use) analysis of dimension data",
    "C21": "encoding lint with dataflow of the encoding argument",
    "C22": "loop analysis: mutation of the walked collection",
    "C23": "loop coverage and provenance analysis of the compiler",
    "C24": "provenance and guard analysis of the convention selection",
    "C25": "guarded must-effect analysis of constructor and add_missing",
    "C26": "forbidden-sink and path-provenance analysis",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE,
                                                      "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            cmd = f"/usr/local/bin/python3 run.py {i}"
            checks.append({
                "property": i, "quick_cmd": cmd,
                "thorough_cmd": cmd + " --thorough",
                "technique": "static analysis: " + TECH[i],
                "level": "other",
                "level_note": "Static analysis of the current source, "
                "nothing of sofar is executed: all paths of the analysed "
                "functions at once as guarded effects, loops for an "
                "arbitrary element. Trusted: the effect models of the "
                "called libraries and the idioms the analyser understands; "
                "thorough adds the same rules on a corpus of mutants and "
                "rewrites of the current source."})
        else:
            na.append({"property": i, "reason": NA.get(
                i, "Not built yet: the static check is planned.")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
                   "not_applicable": na}, f, indent=1)
        f.write("\n")


main()
