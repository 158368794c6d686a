PROPERTY = "C23"
FILE = "sofar/update_conventions.py"
EDITS = [("""        with open(f"{csv_file[:-3]}json", 'w') as file:
            json.dump(convention_dict, file, indent=4)
""", """        json_file = csv_file.replace(".csv", ".json")
        with open(json_file, 'w') as file:
            json.dump(convention_dict, file, indent=4)
""")]
NEEDS = "a file or folder name that contains .csv in the middle"
BREAKS = "the json file is written to another place"
DEMO = """
import os, tempfile
sf = fixture.load()
from sofar.update_conventions import _compile_conventions
TEXT = ("Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
        "GLOBAL:Version\\t2.1\\trm\\t\\tattribute\\tabout it\\n")
with tempfile.TemporaryDirectory() as folder:
    sub = os.path.join(folder, "deprecated")
    os.mkdir(sub)
    for path in (os.path.join(folder, "A_1.0.csv"),
                 os.path.join(sub, "B.csvs_1.0.csv")):
        with open(path, "w") as file:
            file.write(TEXT)
    _compile_conventions(folder)
    assert sorted(os.listdir(folder)) == [
        "A_1.0.csv", "A_1.0.json", "deprecated"], os.listdir(folder)
    assert sorted(os.listdir(sub)) == [
        "B.csvs_1.0.csv", "B.csvs_1.0.json"], os.listdir(sub)
"""
