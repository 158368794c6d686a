PROPERTY = "C22"
FILE = "sofar/utils.py"
EDITS = [('            keys_a = [k for k in keys_a if "Date" not in k]\n'
          '            keys_b = [k for k in keys_b if "Date" not in k]\n',
          '            for keys in (keys_a, keys_b):\n'
          '                for key in keys:\n'
          '                    if "Date" in key:\n'
          '                        keys.remove(key)\n')]
NEEDS = "two date entries that follow each other in the order of the object"
BREAKS = ("the loop removes names from the list it walks over, so the second "
          "of two consecutive date entries is compared although excluded")
DEMO = """
sf = fixture.load()
a, b = sf.Sofa("GeneralTF"), sf.Sofa("GeneralTF")
for sofa, value in ((a, "one"), (b, "two")):
    sofa.add_attribute("GLOBAL_DateA", value)
    sofa.add_attribute("GLOBAL_DateB", value)
    sofa.GLOBAL_DateCreated = sofa.GLOBAL_DateModified = "2020"
assert not sf.equals(a, b, verbose=False)
assert sf.equals(a, b, verbose=False, exclude="DATE"), "a date is compared"
"""
