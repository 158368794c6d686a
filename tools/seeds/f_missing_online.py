PROPERTY = 'C15'
FILE = 'sofar/utils.py'
EDITS = [('    if convention not in _get_conventions("name"):\n        raise ValueError(\n            f"Convention \'{convention}\' does not exist")\n', '    if convention not in _get_conventions("name"):\n        from .update_conventions import requests\n        hint = ""\n        try:\n            page = requests.get(\n                "https://www.sofaconventions.org/conventions/", timeout=2)\n            if f"{convention}_" in page.text:\n                hint = ". Run sofar.update_conventions()"\n        except Exception:\n            pass\n        raise ValueError(\n            f"Convention \'{convention}\' does not exist{hint}")\n')]
NEEDS = 'reading or verifying data of an unknown convention'
BREAKS = 'the website is contacted'
DEMO = '\nimport requests\nsf = fixture.load()\ncalls = []\nclass Reply:\n    text = ""\ndef get(url, *args, **kwargs):\n    calls.append(url)\n    return Reply()\nrequests.get = get\nsofa = sf.Sofa("GeneralTF")\nsofa.protected = False\nsofa.GLOBAL_SOFAConventions = "Unknown"\nsofa.protected = True\ntry:\n    sofa.verify()\nexcept ValueError:\n    pass\nelse:\n    raise AssertionError("no error")\nassert not calls, calls\n'
