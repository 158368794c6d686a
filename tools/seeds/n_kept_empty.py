PROPERTY = "C25"
FILE = "sofar/sofa.py"
EDITS = [("""            if key not in keys and add_data:
""", """            if add_data and not self._holds_data(key, keys):
"""), ("""    def add_variable(self, name, value, dtype, dimensions):
""", """    def _holds_data(self, key, keys):
        value = getattr(self, key) if key in keys else None
        return value is not None and not (
            isinstance(value, str) and value == "")

    def add_variable(self, name, value, dtype, dimensions):
""")]
NEEDS = "an attribute that was emptied on purpose, with a default that is not empty, and a later call of add_missing"
BREAKS = "add_missing overwrites existing entries"
DEMO = """
sf = fixture.load()
s = sf.Sofa("GeneralTF")
s.GLOBAL_License = ""
s.add_missing(verbose=False)
assert s.GLOBAL_License == "", "an existing entry was overwritten"
"""
