PROPERTY = "C19"
FILE = "sofar/sofastream.py"
EDITS = [("""        dset_variables = np.array(list(self._file.variables.keys()))
""", """        dset_variables = np.array(
            list(self._file.variables.keys())
            + list(self._file.dimensions.keys()))
""")]
NEEDS = "looking up a name that is a dimension but no variable"
BREAKS = "the look up raises KeyError instead of AttributeError"
DEMO = """
import os, tempfile
sf = fixture.load()
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, "a.sofa")
    sf.write_sofa(path, sf.Sofa("GeneralTF"))
    with sf.SofaStream(path) as stream:
        assert stream.ReceiverPosition_Type == "cartesian"
        for name in ("Nothing", "Nothing_Units", "M", "R_Type"):
            try:
                found = hasattr(stream, name)
            except KeyError:
                raise SystemExit(f"KeyError for {name}")
            assert not found, name
"""
