PROPERTY = "C10"
FILE = "sofar/sofa.py"
EDITS = [("        if len(units_ref) != len(units_test):\n",
          "        if len(units_ref) > len(units_test):\n")]
NEEDS = "a unit string with more units than the reference, e.g. metre, metre"
BREAKS = "units that do not match the reference are not detected"
DEMO = """
sf = fixture.load()
sofa = sf.Sofa("GeneralTF")
sofa.SourcePosition_Type = "cartesian"
sofa.SourcePosition_Units = "metre, metre"
issues = sofa.verify(issue_handling="return")
assert issues and "SourcePosition_Units" in issues, "not detected"
"""
