PROPERTY = 'C11'
FILE = 'sofar/sofa.py'
EDITS = [('                if value.size < 7:\n                    info_str += "  " + \\\n                        str(np.squeeze(value)).replace("\\n", "\\n  ") + "\\n"\n', '                if value.size < 7:\n                    # do not show rounding noise\n                    shown = np.squeeze(value)\n                    if shown.dtype.kind == "f":\n                        shown[np.abs(shown) < 1e-12] = 0.\n                    info_str += "  " + \\\n                        str(shown).replace("\\n", "\\n  ") + "\\n"\n')]
NEEDS = 'a small array with values below 1e-12'
BREAKS = 'inspect sets the values of the object to zero'
DEMO = '\nimport io, contextlib\nimport numpy as np\nsf = fixture.load()\nsofa = sf.Sofa("GeneralTF")\nsofa.ListenerPosition = np.array([[1., 1e-15, 0.]])\nwith contextlib.redirect_stdout(io.StringIO()):\n    sofa.inspect()\nassert sofa.ListenerPosition[0, 1] == 1e-15, "values changed"\n'
