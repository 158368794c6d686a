PROPERTY = "C20"
FILE = "sofar/sofa.py"
EDITS = [("""        # Check if the dimensions can be updated
        self._update_dimensions()

        if dimension not in self._api:
""", """        # Check if the dimensions can be updated
        if dimension not in getattr(self, "_api", {}):
            self._update_dimensions()

        if dimension not in self._api:
""")]
NEEDS = "a verification, a change of the size of the data and get_dimension"
BREAKS = "get_dimension returns the size of former data"
DEMO = """
import numpy as np
sf = fixture.load()
s = sf.Sofa("GeneralTF")
assert s.get_dimension("M") == 1
s.Data_Real = np.ones((5, 1, 1))
s.Data_Imag = np.ones((5, 1, 1))
assert s.get_dimension("M") == 5, s.get_dimension("M")
"""
