PROPERTY = "C24"
FILE = "sofar/sofa.py"
EDITS = [("""            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
""", """            path = sorted(path, key=lambda p: p.split('_')[-1][:-5])[-1]
""")]
NEEDS = "a convention with version numbers of different length"
BREAKS = "'latest' is the last version in the order of texts, 9.0 instead of 10.0"
DEMO = """
import json, os
sf = fixture.load()
import sofar.utils
folder = os.path.join(os.path.dirname(sofar.utils.__file__),
                      "sofa_conventions", "conventions")
with open(os.path.join(folder, "GeneralTF_2.0.json")) as f:
    table = json.load(f)
for v in ("9.0", "10.0"):
    table["GLOBAL:SOFAConventionsVersion"]["default"] = v
    with open(os.path.join(folder, f"GeneralTF_{v}.json"), "w") as f:
        json.dump(table, f)
s = sf.Sofa("GeneralTF", verify=False)
assert str(s.GLOBAL_SOFAConventionsVersion) == "10.0", s.GLOBAL_SOFAConventionsVersion
"""
