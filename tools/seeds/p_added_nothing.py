PROPERTY = 'C07'
FILE = 'sofar/sofa.py'
EDITS = [('        self.protected = True\n\n        if verbose:\n            if "-" in added:\n                print(added)\n            else:\n                print("All mandatory data contained.")\n', '        if "-" not in added:\n            if verbose:\n                print("All mandatory data contained.")\n            return\n\n        self.protected = True\n        if verbose:\n            print(added)\n')]
NEEDS = 'add_missing on an object that misses nothing'
BREAKS = 'the object stays unprotected'
DEMO = '\nimport io, contextlib\nsf = fixture.load()\nsofa = sf.Sofa("GeneralTF")\nsofa.add_missing(verbose=False)\nassert sofa.protected\nwith contextlib.redirect_stdout(io.StringIO()):\n    sofa.add_missing()\nassert sofa.protected, "write protection is off"\n'
