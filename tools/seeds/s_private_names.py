PROPERTY = "C06"
FILE = "sofar/sofa.py"
EDITS = [("        if self.protected and not hasattr(self, name):\n",
          "        if self.protected and not hasattr(self, name) \\\n"
          "                and not name.startswith(\"_\"):\n")]
NEEDS = "assigning an unknown name with a leading underscore"
BREAKS = "a protected object accepts a name it does not have"
DEMO = """
sf = fixture.load()
sofa = sf.Sofa("GeneralTF")
try:
    sofa._Temperature = 20
except TypeError:
    sys.exit(0)
sys.exit("an unknown name was accepted")
"""
