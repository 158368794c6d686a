PROPERTY = "C22"
FILE = "sofar/sofa.py"
EDITS = [('            for key in self._convention:\n'
          '                if key in self._custom:\n'
          '                    del self._custom[key]\n',
          '            for key in self._custom:\n'
          '                if key in self._convention:\n'
          '                    del self._custom[key]\n')]
NEEDS = ("a custom entry that is part of the convention the object is "
         "changed to")
BREAKS = "the table of custom entries shrinks while the loop walks over it"
DEMO = """
sf = fixture.load()
name = "GLOBAL_DatabaseName"
assert name in vars(sf.Sofa("SimpleFreeFieldHRTF"))
sofa = sf.Sofa("GeneralTF")
sofa.add_attribute(name, "mine")
sofa.add_variable("Other", 1., "double", "I")
sofa.delete("GLOBAL_History")
sofa.protected = False
sofa.GLOBAL_SOFAConventions = "SimpleFreeFieldHRTF"
sofa.GLOBAL_SOFAConventionsVersion = "1.0"
sofa.protected = True
try:
    sofa.verify(issue_handling="return")
except RuntimeError as error:
    raise SystemExit(f"lost its place: {error}")
assert "Other" in sofa._custom and name not in sofa._custom
"""
