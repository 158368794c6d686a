PROPERTY = "C13"
FILE = "sofar/sofa.py"
EDITS = [("        return deepcopy(self)\n", """        new = Sofa(None)
        for key, value in self.__dict__.items():
            # tables and lists are nested, other entries are plain values
            new.__dict__[key] = deepcopy(value) if isinstance(
                value, (dict, list)) else value
        return new
""")]
NEEDS = "an entry that holds a numpy array, which is edited in place in the copy"
BREAKS = "editing a copy changes the original object"
DEMO = """
import numpy as np
sf = fixture.load()
a = sf.Sofa("GeneralTF")
a.SourcePosition = np.array([[0., 0., 1.]])
b = a.copy()
b.SourcePosition[0][2] = 5.
assert a.SourcePosition[0][2] == 1., "the original changed"
"""
