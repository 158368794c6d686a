PROPERTY = 'C17'
FILE = 'sofar/sofastream.py'
EDITS = [('    def __exit__(self, *args):\n', '    def __exit__(self, kind, error, traceback):\n'), ('        self._file.close()\n', '        # tell why reading failed before the file is closed\n        if error is not None:\n            print(f"Error while reading {self._file.getncattr(\'Title\')}: "\n                  f"{error}")\n        self._file.close()\n')]
NEEDS = 'an exception in the with block and a file without title'
BREAKS = 'the file is not closed'
DEMO = '\nimport os, tempfile, io, contextlib\nfrom netCDF4 import Dataset\nsf = fixture.load()\nwith tempfile.TemporaryDirectory() as folder:\n    path = os.path.join(folder, "a.sofa")\n    sf.write_sofa(path, sf.Sofa("GeneralTF"))\n    with Dataset(path, "a") as file:\n        if "Title" in file.ncattrs():\n            file.delncattr("Title")\n    try:\n        with contextlib.redirect_stdout(io.StringIO()):\n            with sf.SofaStream(path) as stream:\n                raise RuntimeError("stop")\n    except (RuntimeError, AttributeError):\n        pass\n    assert not stream._file.isopen(), "file is open"\n    stream._file = None\n'
