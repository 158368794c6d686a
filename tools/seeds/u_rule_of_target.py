PROPERTY = "C14"
FILE = "sofar/sofa.py"
EDITS = [("""                    if target in targets:
                        target_id = from_to[2]
""", """                    if target in targets:
                        target_id = self._rule_id(
                            upgrade[convention_current]["from_to"], target)
"""), ("""    def _apply_upgrade(self, upgrade):
""", """    @staticmethod
    def _rule_id(from_to, target):
        ids = {name: rule[2] for rule in from_to for name in rule[1]}
        return ids[target]

    def _apply_upgrade(self, upgrade):
""")]
NEEDS = "a convention with different upgrade rules from two of its versions to the same target"
BREAKS = "the data of the older version are moved and removed by the rules of another version"
DEMO = """
rules = {"move": {}, "remove": [], "message": None}
old = {"move": {"SourceView": {"target": "SourceLook", "moveaxis": None,
                               "deprecated_dimensions": None}},
       "remove": [], "message": None}
T = ["SimpleFreeFieldHRTF_1.0"]
sf = fixture.load(upgrade={"SimpleFreeFieldTF": {
    "from_to": [[["0.4"], T, "id_1"], [["1.0"], T, "id_2"]],
    "id_1": old, "id_2": rules}})
s = sf.Sofa("SimpleFreeFieldTF", version="0.4", verify=False)
s.protected = False
s.SourceView = [1, 0, 0]
s.protected = True
s.upgrade_convention(T[0], verify=False)
assert hasattr(s, "SourceLook") and not hasattr(s, "SourceView"), \\
    "the upgrade did not move the data"
"""
