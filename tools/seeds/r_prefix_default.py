PROPERTY = "C03"
FILE = "sofar/io.py"
EDITS = [("""        if attr not in all_attr:
            delattr(sofa, attr)
""", """        if not any(found.startswith(attr) for found in all_attr):
            delattr(sofa, attr)
""")]
NEEDS = ("a file without an optional entry, but with a custom entry whose "
         "name starts with the name of that entry")
BREAKS = "the object that is read contains an entry that is not in the file"
DEMO = """
sf = fixture.load()
sofa = sf.Sofa("GeneralTF")
sofa.delete("GLOBAL_Comment")
sofa.add_attribute("GLOBAL_CommentAuthor", "me")
path = os.path.join(fixture.SCRATCH, "t.sofa")
sf.write_sofa(path, sofa)
new = sf.read_sofa(path, verbose=False)
assert new.GLOBAL_CommentAuthor == "me"
sys.exit("GLOBAL_Comment was made up" if hasattr(new, "GLOBAL_Comment") else 0)
"""
