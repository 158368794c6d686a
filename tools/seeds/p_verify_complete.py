PROPERTY = 'C07'
FILE = 'sofar/sofa.py'
EDITS = [('        for key in self._convention.keys():\n            if self._mandatory(self._convention[key]["flags"]) \\\n                    and key not in keys:\n\n                if issue_handling != "raise":\n                    # add missing data with default value\n                    self.protected = False\n                    setattr(self, key, self._convention[key]["default"])\n                    self.protected = True\n', '        # allow adding missing data\n        self.protected = issue_handling == "raise"\n\n        for key in self._convention.keys():\n            if self._mandatory(self._convention[key]["flags"]) \\\n                    and key not in keys:\n\n                if issue_handling != "raise":\n                    # add missing data with default value\n                    setattr(self, key, self._convention[key]["default"])\n'), ('                warning_msg += "Added mandatory data with default values:\\n"\n', '                self.protected = True\n                warning_msg += "Added mandatory data with default values:\\n"\n')]
NEEDS = "verify with another issue_handling than 'raise' of an object without missing data"
BREAKS = 'the object stays unprotected'
DEMO = '\nsf = fixture.load()\nsofa = sf.Sofa("GeneralTF")\nsofa.verify()\nassert sofa.protected\nsofa.delete("GLOBAL_History") if hasattr(sofa, "GLOBAL_History") else None\nassert sofa.verify(issue_handling="return") is None\nassert sofa.protected, "write protection is off"\n'
