PROPERTY = "C13"
FILE = "sofar/sofa.py"
EDITS = [("""        # read convention from json file
        with open(path, "r") as file:
            convention = json.load(file)
""", """        # read convention from json file
        if path in self._tables:
            return self._tables[path]
        with open(path, "r") as file:
            convention = json.load(file)
"""), ("""            key.replace('.', '_'): value for key, value in convention.items()}

        return convention
""", """            key.replace('.', '_'): value for key, value in convention.items()}

        self._tables[path] = convention
        return self._tables[path]
"""), ("    _read_only_attr = []\n", "    _read_only_attr = []\n    # convention tables that were already loaded\n    _tables = {}\n")]
NEEDS = "a custom entry is added to one object and another object of the same convention is created afterwards"
BREAKS = "custom entries of one object appear in other objects"
DEMO = """
sf = fixture.load()
a = sf.Sofa("GeneralTF")
a.add_variable("Temperature", 20., "double", "IM")
b = sf.Sofa("GeneralTF")
assert not hasattr(b, "Temperature"), "new object has a foreign entry"
"""
