PROPERTY = "C01"
FILE = "sofar/io.py"
EDITS = [("""    # update the dimensions
    if verify:
        sofa.verify(mode="write")
""", """    # update the dimensions
    if verify and not getattr(sofa, "_api", None):
        sofa.verify(mode="write")
""")]
NEEDS = "an object that was verified once, then made invalid, then written"
BREAKS = "an object that violates its convention is written without an error"
DEMO = """
sf = fixture.load()
sofa = sf.Sofa("GeneralTF")
sofa.verify()
sofa.SourcePosition_Units = "parsec"
try:
    sf.write_sofa(os.path.join(fixture.SCRATCH, "t.sofa"), sofa)
except ValueError:
    sys.exit(0)
sys.exit("an invalid object was written")
"""
