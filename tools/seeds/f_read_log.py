PROPERTY = 'C15'
FILE = 'sofar/io.py'
EDITS = [('        except:  # noqa: E722\n            raise ValueError((\n', '        except Exception as error:\n            # keep the issues for later inspection\n            with contextlib.suppress(OSError):\n                filename.with_suffix(".log").write_text(str(error))\n            raise ValueError((\n')]
NEEDS = 'reading a file that can not be verified'
BREAKS = 'a log file is written next to the file'
DEMO = '\nimport os, tempfile\nsf = fixture.load()\nwith tempfile.TemporaryDirectory() as folder:\n    path = os.path.join(folder, "a.sofa")\n    sofa = sf.Sofa("GeneralTF")\n    sf.write_sofa(path, sofa)\n    from netCDF4 import Dataset\n    with Dataset(path, "a") as file:\n        file.variables["SourcePosition"].Units = "apples"\n    assert os.listdir(folder) == ["a.sofa"]\n    try:\n        sf.read_sofa(path)\n    except ValueError:\n        pass\n    else:\n        raise AssertionError("no error")\n    assert os.listdir(folder) == ["a.sofa"], os.listdir(folder)\n'
