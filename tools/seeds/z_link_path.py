PROPERTY = 'C26'
FILE = 'sofar/update_conventions.py'
EDITS = [("    standardized = [os.path.split(node.get('href'))[1]\n                    for node in soup.find_all('a')\n                    if node.get('href').endswith(ext)]\n", '    standardized = [node.get(\'href\').split("/conventions/")[-1]\n                    for node in soup.find_all(\'a\')\n                    if node.get(\'href\').endswith(ext)]\n')]
NEEDS = 'a link with .. in the list of conventions'
BREAKS = 'a file outside the conventions folder is written'
DEMO = '\nimport builtins, io, contextlib, os, tempfile, requests, sys\nsf = fixture.load()\nup = sys.modules["sofar.update_conventions"]\nHEAD = "Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"\n\n\ndef text(version):\n    return (HEAD + "GLOBAL:Version\\t" + version +\n            "\\trm\\t\\tattribute\\tabout it\\n").encode()\n\n\nclass Reply:\n    def __init__(self, content):\n        self.content = content\n        self.text = content.decode()\n        self.status_code = 200\n        self.ok = True\n\n    def raise_for_status(self):\n        pass\n\n\ndef run(folder, standardized, deprecated, answer, watch=None, **kw):\n    base = "https://www.sofaconventions.org/conventions/"\n\n    def get(url, *args, **kwargs):\n        if url == base:\n            names = standardized\n        elif url == base + "deprecated/":\n            names = deprecated\n        else:\n            name = url.rsplit("/", 1)[1]\n            return Reply((deprecated if "/deprecated/" in url\n                          else standardized)[name])\n        return Reply("".join(f\'<a href="{n}">{n}</a>\'\n                             for n in names).encode())\n    old = requests.get, builtins.input\n    requests.get, builtins.input = get, lambda *a: answer\n    try:\n        with contextlib.redirect_stdout(io.StringIO()):\n            sf.update_conventions(folder, **kw)\n    finally:\n        requests.get, builtins.input = old\n\n\ndef state(folder):\n    out = {}\n    for root, _, files in os.walk(folder):\n        for f in files:\n            path = os.path.join(root, f)\n            with open(path, "rb") as file:\n                out[os.path.relpath(path, folder)] = file.read()\n    return out\n\n\ndef put(folder, name, content):\n    path = os.path.join(folder, name)\n    os.makedirs(os.path.dirname(path), exist_ok=True)\n    with open(path, "wb") as file:\n        file.write(content)\n\n\n\nwith tempfile.TemporaryDirectory() as scratch:\n    tempfile.tempdir = os.path.join(scratch, "tmp")\n    os.mkdir(tempfile.tempdir)\n    folder = os.path.join(scratch, "sofa", "conventions")\n    put(folder, "B_1.0.csv", text("1"))\n    name = "x/conventions/../A_1.0.csv"\n    reply = {"B_1.0.csv": text("1"), name: text("1"), "A_1.0.csv": text("1")}\n    try:\n        run(folder, reply, {}, "y")\n    except Exception:\n        pass\n    tempfile.tempdir = None\n    assert not os.path.exists(os.path.join(scratch, "sofa", "A_1.0.csv"))\n    assert os.listdir(scratch + "/tmp") == [], os.listdir(scratch + "/tmp")\n'
