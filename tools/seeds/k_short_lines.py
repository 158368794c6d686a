PROPERTY = "C23"
FILE = "sofar/update_conventions.py"
EDITS = [("""            convention[line[0]] = {}
            for ff, field in enumerate(fields):
                convention[line[0]][field.lower()] = line[ff + 1]
""", """            convention[line[0]] = {
                field.lower(): cell for field, cell in zip(fields, line[1:])}
""")]
NEEDS = "a line of a csv file that lacks cells"
BREAKS = ("the entry silently lacks fields instead of a ValueError that "
          "names the file")
DEMO = """
import json, os, tempfile
sf = fixture.load()
from sofar.update_conventions import _compile_conventions
HEAD = "Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
with tempfile.TemporaryDirectory() as folder:
    os.mkdir(os.path.join(folder, "deprecated"))
    path = os.path.join(folder, "A_1.0.csv")
    good = "GLOBAL:Version\\t2.1\\trm\\t\\tattribute\\tabout it\\n"
    with open(path, "w") as file:
        file.write(HEAD + good + "M\\t[0 0]\\tm\\tIC\\tdouble\\tpos\\n")
    _compile_conventions(folder)
    with open(path[:-3] + "json") as file:
        table = json.load(file)
    assert set(table) == {"GLOBAL:Version", "M"}, table
    assert table["M"] == dict(default=[0, 0], flags="m", dimensions="IC",
                              type="double", comment="pos"), table
    with open(path, "w") as file:
        file.write(HEAD + good + "M\\t0\\tm\\n")
    try:
        _compile_conventions(folder)
    except ValueError as error:
        assert path in str(error), error
    else:
        raise SystemExit("the incomplete line is accepted")
"""
