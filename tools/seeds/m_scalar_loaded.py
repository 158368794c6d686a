PROPERTY = "C19"
FILE = "sofar/sofastream.py"
EDITS = [("""            self._data = self._file.variables[name_netcdf]
""", """            variable = self._file.variables[name_netcdf]
            is_scalar = variable.dimensions == ("I",) and var_attr is None
            self._data = variable[:] if is_scalar else variable
""")]
NEEDS = "a variable that holds a single value"
BREAKS = "the value is loaded and returned instead of the variable"
DEMO = """
import os, tempfile
from netCDF4 import Variable
sf = fixture.load()
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, "a.sofa")
    sofa = sf.Sofa("GeneralTF")
    sofa.add_variable("Temperature", 20., "double", "I")
    sf.write_sofa(path, sofa)
    with sf.SofaStream(path) as stream:
        assert isinstance(stream.ReceiverPosition, Variable)
        assert isinstance(stream.Temperature, Variable), "values are loaded"
"""
