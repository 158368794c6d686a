PROPERTY = "C12"
FILE = "sofar/utils.py"
EDITS = [("    if len(keys_a) != len(keys_b):\n",
          "    if len(keys_a) > len(keys_b):\n"),
         ("    if set(keys_a) != set(keys_b):\n",
          "    if set(keys_a) - set(keys_b):\n")]
NEEDS = "the second object has all entries of the first one and a further one"
BREAKS = "objects with different entries are reported as identical"
DEMO = """
sf = fixture.load()
a, b = sf.Sofa("GeneralTF"), sf.Sofa("GeneralTF")
b.add_variable("Temperature", 1., "double", "IM")
assert not sf.equals(b, a, verbose=False)
assert not sf.equals(a, b, verbose=False), "reported as identical"
"""
