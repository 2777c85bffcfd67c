"""Development helper (not run by checks): writes vp/data/langs.json.

The file holds, for every bundled language, text fragments sampled from its
patterns and an example text, so the inputs of the checks do not depend on the
code under test.
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import core
core.prepare()
from vp.sample_re import sample
from parce import introspect
from parce.registry import registry
root_lexicon = registry.lexicon

EX = {"Bash": "bash", "C": "c", "Css": "css", "Csv": "csv", "DocBook": "docbook", "Dtd": "dtd",
      "Ini": "ini", "JavaScript": "js", "Json": "json", "Html": "html", "Latex": "tex",
      "LilyPond": "ly", "Python": "py", "Tcl": "tcl", "Texinfo": "texinfo", "Troff": "1",
      "Scheme": "scm", "Toml": "toml", "XHtml": "html", "Xml": "xml", "Xslt": "xml"}
MORE = {
    "English": "twenty-one thousand three hundred and five one million ninety-nine",
    "Deutsch": "einundzwanzig tausend dreihundert neunundneunzig millionen zwölf",
    "Nederlands": "eenentwintig duizend driehonderd negenennegentig miljoen tweeëntwintig",
    "Français": "vingt et un mille trois cent quatre-vingt-dix-neuf million soixante-dix",
    "PythonConsole": ">>> a = 1\n>>> for i in a:\n...    print(\"x\")\n...\n1\nTraceback (most recent call last):\n",
}
out = {}
for qual in sorted(registry):
    lex = root_lexicon(qual)
    lang = lex.language
    frags = []
    langs = {lang} | set(introspect.languages(lang))
    for l in sorted(langs, key=lambda l: (l is not lang, l.__name__)):
        names = sorted(introspect.lexicons(l), key=lambda x: x.name)
        for lx in names:
            for p, *rule in lx.rules:
                if isinstance(p, str):
                    for s in sample(p, 2 if l is lang else 1, lx.re_flags):
                        if s not in frags and len(s) < 40:
                            frags.append(s)
    name = qual.split(".")[-2]
    ex = MORE.get(name, "")
    if name in EX:
        ex = open("/repo/tests/lang/example." + EX[name], encoding="utf-8").read()
    out[qual] = {"frags": frags[:260], "example": ex[:9000]}
    print(qual, len(frags), len(ex))
with open(os.path.join(os.path.dirname(__file__), "data", "langs.json"), "w") as f:
    json.dump(out, f, indent=0, sort_keys=True)
