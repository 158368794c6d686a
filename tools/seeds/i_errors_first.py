PROPERTY = 'C09'
FILE = 'sofar/sofa.py'
EDITS = [('        # handle warnings\n        if warning_msg != "\\nWARNINGS\\n--------\\n":\n            if issue_handling == "raise":\n                warnings.warn(UserWarning(warning_msg), stacklevel=2)\n            elif issue_handling == "print":\n                print(warning_msg)\n        else:\n            warning_msg = None\n\n        # handle errors\n        if error_msg != "\\nERRORS\\n------\\n":\n            if issue_handling == "raise":\n                raise ValueError(error_msg)\n            elif issue_handling == "print":\n                print(error_msg)\n        else:\n            error_msg = None\n', '        # handle errors (more severe)\n        if error_msg != "\\nERRORS\\n------\\n":\n            if issue_handling == "raise":\n                raise ValueError(error_msg)\n            elif issue_handling == "print":\n                print(error_msg)\n        else:\n            error_msg = None\n\n        # handle warnings\n        if warning_msg != "\\nWARNINGS\\n--------\\n":\n            if issue_handling == "raise":\n                warnings.warn(UserWarning(warning_msg), stacklevel=2)\n            elif issue_handling == "print":\n                print(warning_msg)\n        else:\n            warning_msg = None\n')]
NEEDS = "an object with an error and a warning, verified with 'raise'"
BREAKS = 'the warning is not issued'
DEMO = '\nsf = fixture.load()\nsofa = sf.Sofa("SimpleFreeFieldTF", version="0.4")\nsofa.SourcePosition_Units = "apples"\nwith warnings.catch_warnings(record=True) as caught:\n    warnings.simplefilter("always")\n    try:\n        sofa.verify(mode="read")\n    except ValueError:\n        pass\n    else:\n        raise AssertionError("no error")\nassert any("preliminary" in str(x.message) for x in caught), "not warned"\n'
