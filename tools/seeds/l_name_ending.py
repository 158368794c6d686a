PROPERTY = "C24"
FILE = "sofar/sofa.py"
EDITS = [("""                if os.path.basename(path).startswith(convention + "_")]
""", """                if path.rsplit("_", 1)[0].endswith(convention)]
""")]
NEEDS = "a requested name that is the ending of the name of another convention"
BREAKS = "an object of another convention instead of an error"
DEMO = """
sf = fixture.load()
s = sf.Sofa("SimpleFreeFieldHRIR", verify=False)
assert s.GLOBAL_SOFAConventions == "SimpleFreeFieldHRIR"
try:
    s = sf.Sofa("FreeFieldHRIR", verify=False)
except ValueError:
    pass
else:
    raise AssertionError(s.GLOBAL_SOFAConventions)
"""
