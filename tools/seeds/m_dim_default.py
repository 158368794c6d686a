PROPERTY = "C19"
FILE = "sofar/sofastream.py"
EDITS = [("""        if dimension not in dims.keys():
            raise ValueError((
""", """        if dimension not in dims.keys() and not dimension.isupper():
            raise ValueError((
""")]
NEEDS = "an upper case dimension that the file does not have"
BREAKS = "get_dimension raises KeyError for dimensions the file does not have"
DEMO = """
import os, tempfile
sf = fixture.load()
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, "a.sofa")
    sf.write_sofa(path, sf.Sofa("GeneralTF"))
    with sf.SofaStream(path) as stream:
        assert stream.get_dimension("C") == 3
        for name in ("q", "Q", "E2"):
            try:
                stream.get_dimension(name)
            except ValueError:
                continue
            except KeyError:
                raise SystemExit(f"KeyError for {name}")
            raise SystemExit(f"{name} is accepted")
"""
