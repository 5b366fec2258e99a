"""Numbers and texts the contracts name in their source.

Those that the original code (literals.json) does not name are handed to the
generators, which use them as domains, amounts, lengths, counts and texts beside
their own choices: behaviour that is special at a value a change brought in would
otherwise be met by chance only.  They choose inputs; they judge nothing.
Run as a program it writes literals.json.
"""
import glob, json, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))


def literals(repo):
    ints, texts = set(), set()
    for part in ("contracts", "packages"):
        for f in glob.glob(f"{repo}/{part}/**/src/**/*.rs", recursive=True):
            if re.search(r"/tests?(/|\.rs)|/mocks/|test-utils", f):
                continue
            try:
                s = open(f, encoding="utf8", errors="replace").read()
            except OSError:
                continue
            s = re.split(r"#\[cfg\(test\)\]\s*mod\s", s)[0]
            s = re.sub(r"(?m)^\s*//[^\n]*", "", s)
            texts |= set(re.findall(r'"((?:[^"\\\n]|\\.)*)"', s))
            t = re.sub(r'"(?:[^"\\]|\\.)*"', "", s)
            ints |= {int(x.replace("_", ""), 0) for x in
                     re.findall(r"(?<![A-Za-z0-9_.])(0x[0-9a-fA-F_]*[0-9a-fA-F]|0b[01_]*[01]|[1-9][0-9_]*|0)(?=_?[ui](?:8|16|32|64|128|size)\b|\b)", t)}
            ints |= {int(a) << int(b) for a, b in re.findall(r"\b(\d+)(?:_?[ui]\d+)?\s*<<\s*(\d{1,2})\b", t)}
            ints |= {2 ** int(a) - 1 for a in re.findall(r"\bu(8|16|32|64|128)::MAX", t)}
            ints |= {ord(c) for c in re.findall(r"b'([ -~])'", t)}
    return sorted(x for x in ints if x < 2 ** 96), sorted(x for x in texts if re.fullmatch(r"[ !#-\[\]-~]{1,40}", x))


def new(repo):
    n, s = literals(repo)
    old = json.load(open(os.path.join(HERE, "literals.json")))
    return {"n": [str(x) for x in n if x not in old["n"]][:12], "s": [x for x in s if x not in old["s"]][:12]}


if __name__ == "__main__":
    n, s = literals(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    json.dump({"n": n, "s": s}, open(os.path.join(HERE, "literals.json"), "w"), indent=0)
