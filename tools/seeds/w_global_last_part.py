PROPERTY = "C05"
FILE = "sofar/io.py"
EDITS = [("setattr(file, key[7:], str(getattr(sofa, key)))",
          "setattr(file, key.split(\"_\")[-1], str(getattr(sofa, key)))")]
NEEDS = "a global attribute whose own name contains an underscore"
BREAKS = "the attribute is stored under another name than the one it has"
DEMO = """
sf = fixture.load()
from netCDF4 import Dataset
path = os.path.join(fixture.SCRATCH, "t.sofa")
sf.write_sofa(path, sf.Sofa("GeneralTF"))
with Dataset(path, "a") as f:
    f.setncattr("Measurement_Date", "today")
sofa = sf.read_sofa(path, verbose=False)
assert sofa.GLOBAL_Measurement_Date == "today"
sf.write_sofa(path, sofa)
with Dataset(path) as f:
    assert "Measurement_Date" in f.ncattrs(), "the name was changed"
"""
