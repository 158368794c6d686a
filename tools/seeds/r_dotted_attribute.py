PROPERTY = "C03"
FILE = "sofar/io.py"
EDITS = [("""                all_attr.append(var.replace(".", "_") + "_" + attr)
""", """                all_attr.append(f"{var}_{attr}".replace(".", "_"))
""")]
NEEDS = "a variable attribute whose name contains a dot"
BREAKS = "the attribute is in the file but not in the object that is read"
DEMO = """
sf = fixture.load()
from netCDF4 import Dataset
path = os.path.join(fixture.SCRATCH, "t.sofa")
sf.write_sofa(path, sf.Sofa("GeneralTF"))
with Dataset(path, "a") as f:
    f["SourcePosition"].setncattr("v1.Note", "x")
sofa = sf.read_sofa(path, verify=False, verbose=False)
assert hasattr(sofa, "SourcePosition_v1.Note"), "lost"
"""
