PROPERTY = "C23"
FILE = "sofar/update_conventions.py"
EDITS = [("""            # add blank comment if it does not exist
            if len(line) == 5:
                line.append("")
""", """            # nothing to do for lines without content
            if len(line) < 3:
                continue
            # add blank comment if it does not exist
            if len(line) == 5:
                line.append("")
"""), ("""            # convert versions to strings
            if "Version" in line[0] and not isinstance(line[1], str):
                line[1] = str(float(line[1]))
""", """            # convert versions to strings
            if "Version" in line[0] and isinstance(line[1], (int, float)):
                line[1] = str(float(line[1]))
""")]
NEEDS = "a line with less than three cells"
BREAKS = "the line is dropped instead of refused"
DEMO = """
import os, tempfile
sf = fixture.load()
from sofar.update_conventions import _compile_conventions
TEXT = ("Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
        "GLOBAL:Version\\t2.1\\trm\\t\\tattribute\\tabout it\\n"
        "GLOBAL:Title\\t\\n"
        "GLOBAL:License\\tfree\\trm\\t\\tattribute\\n")
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, "A_1.0.csv")
    with open(path, "w") as file:
        file.write(TEXT)
    try:
        _compile_conventions(folder)
    except ValueError as error:
        assert path in str(error), error
    else:
        raise SystemExit("the incomplete line is dropped")
"""
