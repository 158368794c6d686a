PROPERTY = "C16"
FILE = "sofar/update_conventions.py"
EDITS = [("""                with open(os.path.join(temp, 'deprecated', convention), "wb") \\
                        as file:
                    file.write(data)
                print(f"- add deprecated""", """                for folder in (temp, conventions_path):
                    with open(os.path.join(folder, 'deprecated', convention),
                              "wb") as file:
                        file.write(data)
                print(f"- add deprecated""")]
NEEDS = 'a deprecated convention that is not yet known, and a user that declines'
BREAKS = 'the deprecated convention is added before the user was asked'
DEMO = """
import builtins, io, contextlib, os, tempfile, requests, sys
sf = fixture.load()
up = sys.modules["sofar.update_conventions"]
HEAD = "Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"


def text(version):
    return (HEAD + "GLOBAL:Version\\t" + version +
            "\\trm\\t\\tattribute\\tabout it\\n").encode()


class Reply:
    def __init__(self, content):
        self.content = content
        self.text = content.decode()
        self.status_code = 200
        self.ok = True

    def raise_for_status(self):
        pass


def run(folder, standardized, deprecated, answer, watch=None, **kw):
    base = "https://www.sofaconventions.org/conventions/"

    def get(url, *args, **kwargs):
        if url == base:
            names = standardized
        elif url == base + "deprecated/":
            names = deprecated
        else:
            name = url.rsplit("/", 1)[1]
            return Reply((deprecated if "/deprecated/" in url
                          else standardized)[name])
        return Reply("".join(f'<a href="{n}">{n}</a>'
                             for n in names).encode())
    old = requests.get, builtins.input
    requests.get, builtins.input = get, lambda *a: answer
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sf.update_conventions(folder, **kw)
    finally:
        requests.get, builtins.input = old


def state(folder):
    out = {}
    for root, _, files in os.walk(folder):
        for f in files:
            path = os.path.join(root, f)
            with open(path, "rb") as file:
                out[os.path.relpath(path, folder)] = file.read()
    return out


def put(folder, name, content):
    path = os.path.join(folder, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as file:
        file.write(content)


with tempfile.TemporaryDirectory() as folder:
    put(folder, "B_1.0.csv", text("1"))
    before = state(folder)
    run(folder, {"B_1.0.csv": text("1")}, {"A_1.0.csv": text("1")}, "n")
    assert state(folder) == before
"""
