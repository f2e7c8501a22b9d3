import glob, json, os
import yaml
import common
from core import core

Loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)


class NoMerge(Loader):
    pass


def then(ck, b):
    n = 0
    for f in glob.glob(os.path.join(ck.tmp, "yaml.*")):
        for line in open(f):
            try:
                r = json.loads(line)
            except ValueError:
                continue  # cut short by a crash, which is reported by itself
            text = bytes(r["yaml"])
            want = json.loads(bytes(r["json"]))
            try:
                got = yaml.load(text.decode("utf-8"), Loader=Loader)
            except Exception as e:
                ck.violation("yaml-malformed", "case %d: %s: %r" % (r["case"], e, text[:600]), {"case": r["case"], "yaml": text.decode("latin-1")})
                continue
            n += 1
            if json.dumps(got, sort_keys=True) != json.dumps(want, sort_keys=True):
                ck.violation("yaml-differs", "case %d: reads as %s, expected %s: %r" % (r["case"], json.dumps(got)[:500], json.dumps(want)[:500], text[:500]),
                             {"case": r["case"], "yaml": text.decode("latin-1"), "expected": want})
    ck.saw("yaml_texts_read_back", n)


def main():
    core("C41", "so", 21000, 300000,
         "random values (names and strings with control, special and astral characters; words that YAML treats specially) written as JSON, packed "
         "JSON and YAML, and read back by a strict JSON reader and by PyYAML; equality against a model; histories of unique insertions; "
         "distinct: values", then=then, require={"yaml_texts_read_back": 1000, "found": 100}, env="SO_YAML")
