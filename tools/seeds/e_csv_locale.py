PROPERTY = "C21"
FILE = "sofar/update_conventions.py"
EDITS = [("""    with open(file, 'r', encoding="windows-1252") as fid:
""", """    with open(file, 'r') as fid:
""")]
NEEDS = "a csv file with a character outside ASCII, e.g. the degree sign"
BREAKS = "the text of the compiled convention depends on the locale"
DEMO = '''
import json, os, tempfile
sf = fixture.load()
from sofar.update_conventions import _compile_conventions
TEXT = ("Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
        "GLOBAL:Version\\t2.1\\trm\\t\\tattribute\\tin \\u00b0 or \\u00b5s\\n")
with tempfile.TemporaryDirectory() as folder:
    with open(os.path.join(folder, "A_1.0.csv"), "wb") as file:
        file.write(TEXT.encode("windows-1252"))
    _compile_conventions(folder)
    with open(os.path.join(folder, "A_1.0.json"), "rb") as file:
        table = json.loads(file.read())
    assert "\\u00b0" in str(list(table.values())[0]["comment"]), table
'''
