PROPERTY = 'C18'
FILE = 'sofar/sofastream.py'
EDITS = [('        R_verbose = (\n            "receiver spherical harmonics coefficients"\n            if \'harmonic\'\n            in self._file.variables[\'ReceiverPosition\'].getncattr(\'Type\')\n            else "receiver"\n            )\n', '        receiver = self._file.variables[\'ReceiverPosition\'].getncattr(\'Type\')\n        if \'harmonic\' in receiver:\n            R_verbose = "receiver spherical harmonics coefficients"\n        elif receiver in (\'cartesian\', \'spherical\'):\n            R_verbose = "receiver"\n')]
NEEDS = 'a receiver position type in upper case'
BREAKS = 'a local variable is used unset'
DEMO = '\nimport os, tempfile, io, contextlib\nsf = fixture.load()\nwith tempfile.TemporaryDirectory() as folder:\n    path = os.path.join(folder, "a.sofa")\n    sofa = sf.Sofa("GeneralTF")\n    sofa.ReceiverPosition_Type = "Cartesian"\n    sf.write_sofa(path, sofa)\n    with sf.SofaStream(path) as stream:\n        with contextlib.redirect_stdout(io.StringIO()):\n            stream.list_dimensions\n'
