PROPERTY = "C25"
FILE = "sofar/sofa.py"
EDITS = [("""            is_mandatory = self._mandatory(self._convention[key]["flags"])
            add_data""", """            is_mandatory = self._convention[key]["flags"] == "m"
            add_data""")]
NEEDS = "a missing entry that is mandatory and read only, and add_missing for mandatory entries only"
BREAKS = "add_missing leaves out mandatory entries"
DEMO = """
sf = fixture.load()
s = sf.Sofa("GeneralTF")
s.protected = False
del s.GLOBAL_APIName
del s.GLOBAL_Title
s.protected = True
s.add_missing(mandatory=True, optional=False, verbose=False)
assert hasattr(s, "GLOBAL_Title")
assert hasattr(s, "GLOBAL_APIName"), "a mandatory entry is still missing"
"""
