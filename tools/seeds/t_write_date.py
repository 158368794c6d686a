PROPERTY = 'C11'
FILE = 'sofar/io.py'
EDITS = [('    # list of all attribute names\n    all_keys = [key for key in sofa.__dict__.keys() if not key.startswith("_")]\n', '    # list of all attribute names\n    all_keys = [key for key in sofa.__dict__.keys() if not key.startswith("_")]\n\n    # the API is known upon writing\n    if "GLOBAL_APIVersion" in all_keys:\n        sofa.protected = False\n        sofa.GLOBAL_APIVersion = sf.version()\n        sofa.protected = True\n'), ('        keys = [key for key in all_keys if key.startswith("GLOBAL_")]\n', '        keys = [key for key in all_keys if key[:7] == "GLOBAL_"]\n')]
NEEDS = 'an object that was written by another version of the API'
BREAKS = 'writing changes the entry GLOBAL_APIVersion of the object'
DEMO = '\nimport os, tempfile\nsf = fixture.load()\nsofa = sf.Sofa("GeneralTF")\nsofa.protected = False\nsofa.GLOBAL_APIVersion = "0.1"\nsofa.protected = True\nwith tempfile.TemporaryDirectory() as folder:\n    sf.write_sofa(os.path.join(folder, "a.sofa"), sofa)\nassert sofa.GLOBAL_APIVersion == "0.1", "entry changed"\n'
