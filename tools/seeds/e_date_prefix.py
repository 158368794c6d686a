PROPERTY = "C12"
FILE = "sofar/utils.py"
EDITS = [('            keys_a = [k for k in keys_a if "Date" not in k]\n'
          '            keys_b = [k for k in keys_b if "Date" not in k]\n',
          '            keys_a = [k for k in keys_a if "_Date" not in k]\n'
          '            keys_b = [k for k in keys_b if "_Date" not in k]\n')]
NEEDS = "a variable with Date at the start or in the middle of its own name"
BREAKS = "exclude='DATE' does not exclude every entry with Date in its name"
DEMO = """
sf = fixture.load()
a, b = sf.Sofa("GeneralTF"), sf.Sofa("GeneralTF")
a.add_variable("MeasurementDates", 1., "double", "IM")
b.add_variable("MeasurementDates", 2., "double", "IM")
assert not sf.equals(a, b, verbose=False)
assert sf.equals(a, b, verbose=False, exclude="DATE"), "not excluded"
"""
