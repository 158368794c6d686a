PROPERTY = "C21"
FILE = "sofar/update_conventions.py"
EDITS = [("""        with open(f"{csv_file[:-3]}json", 'w') as file:
            json.dump(convention_dict, file, indent=4)
""", """        with open(f"{csv_file[:-3]}json", 'w') as file:
            json.dump(convention_dict, file, indent=4, ensure_ascii=False)
""")]
NEEDS = "a convention with a character outside ASCII, under a C or latin locale"
BREAKS = "the conventions cannot be written or are read back differently"
DEMO = '''
import json, os, sys, tempfile
if os.environ.get("LC_ALL") != "C":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(
        os.environ, LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"))
sf = fixture.load()
from sofar.update_conventions import _compile_conventions
TEXT = ("Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
        "GLOBAL:Version\\t2.1\\trm\\t\\tattribute\\tin \\u00b0 or \\u00b5s\\n")
with tempfile.TemporaryDirectory() as folder:
    with open(os.path.join(folder, "A_1.0.csv"), "wb") as file:
        file.write(TEXT.encode("windows-1252"))
    _compile_conventions(folder)
    with open(os.path.join(folder, "A_1.0.json"), "rb") as file:
        table = json.loads(file.read())
    assert "\\u00b0" in str(list(table.values())[0]["comment"]), table
'''
