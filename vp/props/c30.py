"""C30: bundled languages classify generated source text as it was written."""
import importlib
import json
import os

from vp import srcgen
from vp.core import Aspect, Violation, need


with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "words.json"), encoding="utf-8") as f:
    WORDS = json.load(f)


def family(action, label):
    """True if the action belongs to one of the standard actions in the label."""
    import parce.action as a
    for path in label.split("|"):
        obj = a
        exact = path.startswith("=")
        for p in path.lstrip("=").split("."):
            obj = getattr(obj, p)
        if action is obj if exact else action in obj:
            return True
    return False


def qualifiers(action):
    return repr(action).split(".")


def strategy_for(names):
    def strategy(s):
        lang = s.pick(names)
        w = srcgen.W(s)
        srcgen.GENERATORS[lang](w)
        return {"lang": lang, "pieces": w.out}
    return strategy


def check(case):
    import parce
    from parce.treebuilder import TreeBuilder
    modname, clsname = case["lang"].split(".")
    lexicon = getattr(importlib.import_module("parce.lang." + modname), clsname).root
    text = "".join(p[0] for p in case["pieces"])
    b = TreeBuilder(lexicon)
    b.rebuild(text)
    tokens = [t for t in b.root.tokens()]
    # which token covers a character
    cover = [None] * len(text)
    for t in tokens:
        for i in range(t.pos, t.end):
            cover[i] = t
    pos = 0
    stack = []
    labels = set()
    for n, (s, label, mark) in enumerate(case["pieces"]):
        end = pos + len(s)

        def fail(msg, *args):
            raise Violation("{}: {!r} (at {} in {!r}) {}".format(case["lang"], s, pos, text, msg.format(*args)))
        if label:
            labels.add(label)
            single = label[0] == "1"
            invalid = label[0] == "!"
            label = label.lstrip("1!")
            for i in range(pos, end):
                t = cover[i]
                if t is None:
                    if not text[i].isspace():
                        fail("is not covered at {}, expected {}", i, label)
                    continue
                if not family(t.action, label):
                    fail("is {!r} {!r}, expected {}", t.text, t.action, label)
                if ("Invalid" in qualifiers(t.action)) != invalid:
                    fail("is called {!r}", t.action)
                if single and (t.pos, t.end) != (pos, end):
                    fail("is not one token, but {!r} is", t.text)
                if t.pos < pos or t.end > end:
                    if (text[t.pos:pos] + text[end:max(end, t.end)]).strip():
                        fail("shares a token {!r} with its surroundings", t.text)
        if mark == "<":
            stack.append((cover[pos], s))
        elif mark == ">":
            opener, o = stack.pop()
            closer = cover[pos]
            ctx = closer.parent
            first = ctx.first_token()
            while opener.parent is ctx and first is not opener and first.pos < opener.pos and first.group is not None:
                first = first.next_token()      # the opening group was consumed by the context
            if first is not opener and first is not opener.next_token():
                fail("does not close the context that {!r} at {} opened", o, opener.pos)
        pos = end
    need(len(b.lexicons) <= 1, "{}: {!r} leaves {!r} open", case["lang"], text, b.lexicons)
    return len(labels) >= 3


def word_case(lang, template, label, words):
    """A text with each of the words in the template."""
    a, b = template.format("\0").split("\0")
    pieces = []
    for w in words:
        pieces += [[a, "", ""], [w, label, ""], [b, "", ""]]
    return {"lang": lang, "pieces": pieces}


def words_strategy(s):
    lang, template, label, words = s.pick(WORDS)
    return word_case(lang, template, label, s.list(lambda s: s.pick(words), 1, 12, 8))


def check_words(case):
    check(case)
    return True


AFFIXES = [["", "zq"], ["", "_x"], ["zq", ""], ["", "7"]]


def nonwords_strategy(s):
    lang, template, label, words = s.pick(WORDS)
    affixes = AFFIXES if not lang.startswith("lilypond") else AFFIXES[:2]
    return {"lang": lang, "template": template, "label": label,
            "words": s.list(lambda s: [s.pick(words)] + s.pick(affixes), 1, 12, 8)}


def check_nonwords(case):
    """A longer name is one token, and not recognized as the word that is in it."""
    from parce.treebuilder import TreeBuilder
    modname, clsname = case["lang"].split(".")
    lexicon = getattr(importlib.import_module("parce.lang." + modname), clsname).root
    a, b = case["template"].format("\0").split("\0")
    known = {w for lang, template, label, words in WORDS if lang == case["lang"] and label == case["label"] for w in words}
    count = 0
    for word, prefix, suffix in case["words"]:
        name = prefix + word + suffix
        if not word[-1].isalnum() and suffix or not word[0].isalnum() and prefix or name in known:
            continue
        builder = TreeBuilder(lexicon)
        builder.rebuild(a + name + b)
        tokens = [t for t in builder.root.tokens() if t.pos <= len(a) < t.end]
        need(tokens and tokens[0].text == name, "{}: {!r} in {!r} is not one token, but {!r} is", case["lang"], name, a + name + b,
             tokens and tokens[0].text)
        if case["label"] != "Name.Tag":
            need(not family(tokens[0].action, case["label"]), "{}: {!r} in {!r} is {!r}", case["lang"], name, a + name + b, tokens[0].action)
        count += 1
    return count


NAMES = list(srcgen.GENERATORS)
if os.environ.get("VP_LANGS"):      # only these, for trying out
    NAMES = os.environ["VP_LANGS"].split("+")
    WORDS = [w for w in WORDS if w[0] in NAMES] or WORDS

ASPECTS = [
    Aspect("source", strategy_for(NAMES), check, quick=5000, shards=8, thorough=40000,
           rule="at least 3 kinds of labelled pieces"),
    Aspect("words", words_strategy, check_words, quick=1500, shards=8, thorough=10000,
           rule="every case (1 to 12 words of the vocabulary of a language in their place)"),
    Aspect("nonwords", nonwords_strategy, check_nonwords, quick=1000, shards=8, thorough=10000,
           rule="at least one longer name that contains a word of the vocabulary"),
]
ASSUMPTIONS = ["source text is built from the constructs in vp/srcgen.py; constructs a language definition does not know "
               "(such as C character literals) are not written",
               "the vocabulary in vp/data/words.json was taken from the language definitions"]
