PROPERTY = 'C26'
FILE = 'sofar/update_conventions.py'
EDITS = [("                    cell = [float(n) if '.' in n else int(n) for n in numbers]\n", '                    cell = [eval(n) for n in numbers]\n')]
NEEDS = 'a convention file with an expression in an array'
BREAKS = 'the expression is executed'
DEMO = '\nimport os, tempfile\nsf = fixture.load()\nwith tempfile.TemporaryDirectory() as folder:\n    mark = os.path.join(folder, "mark")\n    path = os.path.join(folder, "A_1.0.csv")\n    with open(path, "w") as file:\n        file.write("Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"\n                   f"Data.IR\\t[__import__(\'os\').mkdir(\'{mark}\')]\\tm\\tI\\tdouble\\t\\n")\n    try:\n        sf.update_conventions.__globals__["_compile_conventions"](folder)\n    except ValueError:\n        pass\n    assert not os.path.exists(mark), "executed"\n'
