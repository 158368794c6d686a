PROPERTY = "C04"
FILE = "sofar/io.py"
EDITS = [("parse(version) >= parse('1.0')", "parse(version) > parse('1.0')")]
NEEDS = "an invalid file of convention version 1.0 read with verify='auto'"
BREAKS = "read_sofa returns data that were not verified"
DEMO = """
sf = fixture.load()
sofa = sf.Sofa("SimpleFreeFieldHRIR")
assert sofa.GLOBAL_SOFAConventionsVersion == "1.0"
path = os.path.join(fixture.SCRATCH, "t.sofa")
sofa.SourcePosition_Units = "parsec"
sf.io._write_sofa(path, sofa, verify=False)
try:
    sf.read_sofa(path, verbose=False)
except ValueError:
    sys.exit(0)
sys.exit("invalid data were returned")
"""
