PROPERTY = "C14"
FILE = "sofar/sofa.py"
EDITS = [("""        for target in upgrade["remove"]:
            target_sofar""", """        for target in self._with_attributes(upgrade["remove"]):
            target_sofar"""), ("""    def _apply_upgrade(self, upgrade):
""", """    def _with_attributes(self, names):
        # attributes of removed variables must go, too
        names = [n.replace(".", "_").replace(":", "_") for n in names]
        return names + [k for k in self.__dict__ if k not in names
                        and any(k.startswith(n) for n in names)]

    def _apply_upgrade(self, upgrade):
""")]
NEEDS = "an entry whose name starts with the name of an entry that an upgrade removes"
BREAKS = "an upgrade removes data that its rules do not list"
DEMO = """
sf = fixture.load()
s = sf.Sofa("SimpleFreeFieldTF", version="0.4", verify=False)
s.protected = False
s.GLOBAL_History = "recorded"
s.add_attribute("GLOBAL_HistoryOfRoom", "rebuilt")
s.protected = True
s.upgrade_convention("SimpleFreeFieldHRTF_1.0", verify=False)
assert not hasattr(s, "GLOBAL_History")
assert hasattr(s, "GLOBAL_HistoryOfRoom"), "unlisted data were removed"
"""
