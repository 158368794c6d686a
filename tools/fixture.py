"""Scratch copy of the package with a small set of conventions.

usage: import fixture; sf = fixture.load()      (run with cwd = repository)
The scratch directory is removed when the interpreter ends."""
import atexit
import json
import os
import shutil
import sys
import tempfile

SCRATCH = tempfile.mkdtemp(prefix="sofademo")
atexit.register(shutil.rmtree, SCRATCH, ignore_errors=True)


def e(default, flags, dims, typ):
    return {"default": default, "flags": flags, "dimensions": dims,
            "type": typ, "comment": ""}


def convention(name, version, data="TF", extra=None, drop=(), sofa="2.1"):
    d = {
        "GLOBAL:Conventions": e("SOFA", "rm", None, "attribute"),
        "GLOBAL:Version": e(sofa, "rm", None, "attribute"),
        "GLOBAL:SOFAConventions": e(name, "rm", None, "attribute"),
        "GLOBAL:SOFAConventionsVersion": e(version, "rm", None, "attribute"),
        "GLOBAL:DataType": e(data, "rm", None, "attribute"),
        "GLOBAL:RoomType": e("free field", "m", None, "attribute"),
        "GLOBAL:Title": e("", "m", None, "attribute"),
        "GLOBAL:DateCreated": e("", "m", None, "attribute"),
        "GLOBAL:DateModified": e("", "m", None, "attribute"),
        "GLOBAL:APIName": e("", "rm", None, "attribute"),
        "GLOBAL:APIVersion": e("", "rm", None, "attribute"),
        "GLOBAL:AuthorContact": e("", "m", None, "attribute"),
        "GLOBAL:Organization": e("", "m", None, "attribute"),
        "GLOBAL:License": e("No license", "m", None, "attribute"),
        "GLOBAL:ApplicationName": e("", None, None, "attribute"),
        "GLOBAL:ApplicationVersion": e("", None, None, "attribute"),
        "GLOBAL:Comment": e("", None, None, "attribute"),
        "GLOBAL:History": e("", None, None, "attribute"),
        "ListenerPosition": e([0, 0, 0], "m", "IC, MC", "double"),
        "ListenerPosition:Type": e("cartesian", "m", None, "attribute"),
        "ListenerPosition:Units": e("metre", "m", None, "attribute"),
        "ReceiverPosition": e([0, 0, 0], "m", "rCI, rCM", "double"),
        "ReceiverPosition:Type": e("cartesian", "m", None, "attribute"),
        "ReceiverPosition:Units": e("metre", "m", None, "attribute"),
        "SourcePosition": e([0, 0, 1], "m", "IC, MC", "double"),
        "SourcePosition:Type": e("spherical", "m", None, "attribute"),
        "SourcePosition:Units": e("degree, degree, metre", "m", None,
                                  "attribute"),
        "EmitterPosition": e([0, 0, 0], "m", "eCI, eCM", "double"),
        "EmitterPosition:Type": e("cartesian", "m", None, "attribute"),
        "EmitterPosition:Units": e("metre", "m", None, "attribute"),
        "SourceView": e([1, 0, 0], None, "IC, MC", "double"),
        "SourceView:Type": e("cartesian", None, None, "attribute"),
        "SourceView:Units": e("metre", None, None, "attribute"),
    }
    if data == "TF":
        d.update({
            "N": e(0, "m", "N", "double"),
            "N:LongName": e("frequency", None, None, "attribute"),
            "N:Units": e("hertz", "m", None, "attribute"),
            "Data.Real": e(0, "m", "mrn", "double"),
            "Data.Imag": e(0, "m", "MRN", "double")})
    else:
        d.update({
            "Data.IR": e([0, 0], "m", "mRn", "double"),
            "Data.Delay": e([0, 0], "m", "IR, MR", "double"),
            "Data.SamplingRate": e(48000, "m", "I, M", "double"),
            "Data.SamplingRate:Units": e("hertz", "m", None, "attribute")})
    d.update(extra or {})
    for k in drop:
        del d[k]
    return d


RULES = {
    "GLOBAL:Conventions": {"value": ["SOFA"]},
    "GLOBAL:DataType": {"value": ["FIR", "TF", "SOS"], "specific": {
        "FIR": {"Data.IR": None, "Data.SamplingRate:Units": ["hertz"]},
        "TF": {"N:LongName": ["frequency"], "Data.Real": None}}},
    "GLOBAL:RoomType": {"value": None},
    "SourcePosition": {"value": None,
                       "general": ["SourcePosition:Type",
                                   "SourcePosition:Units"]},
    "SourcePosition:Type": {
        "value": ["cartesian", "spherical", "spherical harmonics"],
        "specific": {
            "cartesian": {"SourcePosition:Units": ["metre"]},
            "spherical": {"SourcePosition:Units":
                          ["degree, degree, metre"]}}},
    "SourceView": {"value": None, "general": ["SourceView:Type",
                                              "SourceView:Units"]},
    "GLOBAL:SOFAConventions": {"value": None, "specific": {
        "SimpleFreeFieldHRIR": {"GLOBAL:DataType": ["FIR"], "_dimensions": {
            "R": {"value": [2], "value_str": "2"},
            "E": {"value": [1], "value_str": "1"}}}}},
}
UNITS = {"metre": "metre", "meter": "metre", "degree": "degree",
         "degrees": "degree", "hertz": "hertz"}
DEPRECATIONS = {"GLOBAL:SOFAConventions": {
    "SimpleFreeFieldTF": "SimpleFreeFieldHRTF"}}
UPGRADE = {
    "SimpleFreeFieldTF": {
        "from_to": [[["0.4", "1.0"], ["SimpleFreeFieldHRTF_1.0"], "id_1"]],
        "id_1": {"move": {"SourceView": {"target": "SourceLook",
                                         "moveaxis": None,
                                         "deprecated_dimensions": None}},
                 "remove": ["GLOBAL:History"], "message": "done"}},
    "SimpleFreeFieldHRIR": {
        "from_to": [[["0.4"], ["SimpleFreeFieldHRIR_1.0"], "id_1"]],
        "id_1": {"move": {}, "remove": [], "message": None}},
}


def conventions():
    hr = {"ReceiverPosition": e([[0, 0.09, 0], [0, -0.09, 0]], "m",
                                "rCI, rCM", "double")}
    return {
        ("", "GeneralTF", "1.0"): convention("GeneralTF", "1.0"),
        ("", "GeneralTF", "2.0"): convention("GeneralTF", "2.0"),
        ("", "GeneralTF-E", "1.0"): convention("GeneralTF-E", "1.0"),
        ("", "SimpleFreeFieldHRIR", "1.0"): convention(
            "SimpleFreeFieldHRIR", "1.0", "FIR", hr),
        ("", "SimpleFreeFieldHRTF", "1.0"): convention(
            "SimpleFreeFieldHRTF", "1.0", "TF", {
                "SourceLook": e([1, 0, 0], None, "IC, MC", "double"),
                "GLOBAL:DatabaseName": e("", "m", None, "attribute")},
            drop=("GLOBAL:History",)),
        ("deprecated", "SimpleFreeFieldHRIR", "0.4"): convention(
            "SimpleFreeFieldHRIR", "0.4", "FIR", hr, sofa="1.0"),
        ("deprecated", "SimpleFreeFieldTF", "0.4"): convention(
            "SimpleFreeFieldTF", "0.4", sofa="1.0"),
        ("deprecated", "SimpleFreeFieldTF", "1.0"): convention(
            "SimpleFreeFieldTF", "1.0", sofa="1.0"),
    }


def load(convs=None, rules=None, upgrade=None, deprecations=None, units=None):
    dst = os.path.join(SCRATCH, "pkg")
    shutil.copytree(os.path.join(os.getcwd(), "sofar"),
                    os.path.join(dst, "sofar"),
                    ignore=shutil.ignore_patterns("__pycache__",
                                                  "sofa_conventions"))
    base = os.path.join(dst, "sofar", "sofa_conventions")
    os.makedirs(os.path.join(base, "conventions", "deprecated"))
    os.makedirs(os.path.join(base, "rules"))
    with open(os.path.join(base, "VERSION"), "w") as f:
        f.write("AES69-2022\n")
    for (sub, name, version), d in (convs or conventions()).items():
        with open(os.path.join(base, "conventions", sub,
                               f"{name}_{version}.json"), "w") as f:
            json.dump(d, f)
    for n, d in (("rules", rules or RULES),
                 ("unit_aliases", units or UNITS),
                 ("deprecations", deprecations or DEPRECATIONS),
                 ("upgrade", upgrade or UPGRADE)):
        with open(os.path.join(base, "rules", f"{n}.json"), "w") as f:
            json.dump(d, f)
    sys.dont_write_bytecode = True
    sys.path.insert(0, dst)
    os.chdir(SCRATCH)
    import sofar
    assert sofar.__file__.startswith(dst)
    return sofar
