PROPERTY = "C20"
FILE = "sofar/sofa.py"
EDITS = [('            error_msg += "Detected variables of wrong shape:\\n"',
          '            error_msg += "Detected variables with wrong shapes:\\n"')]
NEEDS = "a variable with a shape that does not match its dimensions and get_dimension, which looks for the text of the issue"
BREAKS = "get_dimension reports sizes although shapes are wrong"
DEMO = """
import numpy as np
sf = fixture.load()
s = sf.Sofa("GeneralTF")
s.SourcePosition = np.ones((4, 3))
try:
    s.get_dimension("M")
except ValueError:
    pass
else:
    raise AssertionError("no error for data of wrong shape")
"""
