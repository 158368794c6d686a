PROPERTY = "C08"
FILE = "sofar/sofa.py"
EDITS = [("""        if dimensions is not None:
            dimensions = dimensions.upper()
            for dimension in dimensions:
                if dimension not in "ERMNCIS":
                    warnings.warn(
                        f"Added custom dimension {dimensions} to SOFA object",
                        stacklevel=2)

        # add attribute to class
        self._add_custom_api_entry(name, value, None, dimensions, dtype)
""", """        # add attribute to class
        self._add_custom_api_entry(name, value, None, dimensions, dtype)

        if dimensions is not None:
            dimensions = dimensions.upper()
            for dimension in dimensions:
                if dimension not in "ERMNCIS":
                    warnings.warn(
                        f"Added custom dimension {dimensions} to SOFA object",
                        stacklevel=2)
""")]
NEEDS = "dimensions of a wrong type, e.g. a number"
BREAKS = "the object contains the entry although the addition failed"
DEMO = """
sf = fixture.load()
sofa = sf.Sofa("GeneralTF")
try:
    sofa.add_variable("Temperature", 20.0, "double", 5)
except Exception:
    pass
assert not hasattr(sofa, "Temperature"), "rejected, but added"
"""
