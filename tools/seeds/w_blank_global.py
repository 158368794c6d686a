PROPERTY = "C02"
FILE = "sofar/io.py"
EDITS = [("""        keys = [key for key in all_keys if key.startswith("GLOBAL_")]
""", """        keys = [key for key in all_keys if key.startswith("GLOBAL_")
                and getattr(sofa, key)]
""")]
NEEDS = "a global attribute that holds an empty string"
BREAKS = "global attributes that are empty strings are missing in the file"
DEMO = """
sf = fixture.load()
from netCDF4 import Dataset
sofa = sf.Sofa("GeneralTF")
sofa.GLOBAL_Title = ""
sofa.GLOBAL_Comment = ""
path = os.path.join(fixture.SCRATCH, "t.sofa")
sf.write_sofa(path, sofa)
with Dataset(path) as f:
    missing = {"Title", "Comment"} - set(f.ncattrs())
sys.exit(f"missing: {missing}" if missing else 0)
"""
