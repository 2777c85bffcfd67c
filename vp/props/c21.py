"""C21: documents are saved and loaded without loss."""
import codecs
import os
import shutil
import tempfile

from vp.core import Aspect, Skip, Violation, need, same

PIECES = ["a", "b", " ", "text", "\n", "line\n", "é", "ÿ", "€", "日本", "я", "𝄞", "\t", "=", "0", "{", "\"", "<", "coding", "encoding", ":", "\n\n", "\x0b", "\x85", "\u2028",
          "\0", "ü"]
ASCII = [p for p in PIECES if p.isascii()]
CR = ["\r", "\r\n"]
ENCODINGS = ["utf-8", "latin1", "ascii", "cp1252", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "utf-32-le", "utf-32-be", "koi8-r", "shift_jis", "utf-8-sig", "iso8859-15",
             "UTF-8", "Latin-1"]
# ways an encoding is declared, per language
DECL = {
    None: ["# -*- coding: {} -*-\n", "encoding: {}\n", "x encoding=\"{}\" y\n", "coding:{}\n", "% encoding : {}\n", "coding=\"{}\""],
    "parce.lang.css.Css.root": ["@charset \"{}\";\n", "@charset  \"{}\";", "/* x */ @charset \"{}\";\n"],
    "parce.lang.xml.Xml.root": ["<?xml version=\"1.0\" encoding=\"{}\"?>\n", "<?xml version='1.0' encoding='{}'?>", "<?xml encoding=\"{}\" ?>\n<!-- x -->"],
    "parce.lang.html.Html.root": ["<meta charset=\"{}\">\n", "<html><head><meta charset='{}'/></head>\n", "<?xml version=\"1.0\" encoding=\"{}\"?>",
                                  "<meta http-equiv=\"Content-Type\" content=\"text/html; charset={}\">",
                                  "<meta content='x; charset=utf-7' name='y'><meta http-equiv=' CONTENT-type' content='text/html; CharSet = {}'>"],
    "parce.lang.html.XHtml.root": ["<meta charset=\"{}\"/>\n", "<html><head><meta charset='{}'></head>\n", "<?xml version=\"1.0\" encoding=\"{}\"?>",
                                   "<meta content=\"text/html; charset={}\" http-equiv='content-type' />"],
    "parce.lang.lilypond.LilyPond.root": ["% encoding: {}\n", "%{{ -*- coding: {} -*- %}}\n"],
}
LANGS = sorted(DECL, key=str)
BOGUS = ["nonsense", "hex", "rot13", "base64", "zip", "bz2_codec", "utf-88", "-", "_", "undefined"]
NEWLINES = [None, "", "\n", "\r\n", "\r"]


def lexicon(name):
    if name is None:
        return None
    from vp import langs
    return langs.lexicon(name)


def gen_text(s, pieces=None):
    pieces = pieces or PIECES
    t = "".join(s.list(lambda s: s.pick(pieces), 0, 25, 8))
    if s.one_in(12):
        t = t + s.pick(["a", "é", "日"]) * s.pick([5001, 4999, 9000]) + t
    return t


def gen_case(s):
    lang = s.pick(LANGS)
    case = {"lang": lang, "newline": s.pick(NEWLINES)}
    k = s.int(0, 5)
    if k < 2:
        # no declaration
        case["decl"] = None
        case["encoding"] = s.pick([None, s.pick(ENCODINGS)])
    elif k < 5:
        case["decl"] = s.pick(ENCODINGS)
        case["encoding"] = s.pick([None, None, case["decl"]])
    else:
        case["decl"] = s.pick(BOGUS)
        case["encoding"] = s.pick([None, s.pick(ENCODINGS)])
    head = s.pick(DECL[lang]).replace("{{", "{").replace("}}", "}").replace("{}", case["decl"]) if case["decl"] else ""
    if head and lang in (None, "parce.lang.lilypond.LilyPond.root") and s.one_in(3):
        # the declaration comes later, but within the first 5000 bytes
        wide = case["decl"][:5].lower() in ("utf-1", "utf-3")
        head = "% some text\n" * (s.int(1, 80) if wide else s.int(1, 365)) + head
    # pieces that could form a declaration themselves are only in the text when there is none
    pieces = [p for p in PIECES if "coding" not in p]
    if s.one_in(3):
        pieces = pieces + CR
    if s.one_in(3):
        pieces = [p for p in pieces if p.isascii()]
    case["text"] = head + gen_text(s, pieces)
    case["via"] = s.pick(["bytes", "file", "functions"])
    case["attr"] = s.bool()
    case["tail"] = s.pick(["", "x", "é"])
    case["other"] = s.pick([None, "ascii", "utf-16", "latin1"])
    case["url"] = s.pick(["plain", "plain", "file", "file3"])
    case["name"] = s.pick(["file", "file", "a b", "f#g", "é.x", "#x"])
    if case["url"] == "plain":
        case["name"] = s.pick([case["name"], case["name"], "f?g", "f;g", "?x=1;y", "f%20g", "[f]"])
    case["seturl"] = s.one_in(3)
    return case


def expected_encoding(case):
    """The encoding used for writing when none is specified."""
    d = case["decl"]
    if d and d not in BOGUS:
        return d
    return "utf-8"


BOMS = [codecs.BOM_UTF8, codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE, codecs.BOM_UTF32_LE, codecs.BOM_UTF32_BE]


def check_roundtrip(case):
    import parce
    from parce import docio
    text = case["text"] + case["tail"]
    enc = case["encoding"]
    used = enc or expected_encoding(case)
    nl = case["newline"]
    lex = lexicon(case["lang"])
    written = text.replace("\n", nl) if nl not in (None, "") else text
    if nl is None:
        written = text.replace("\n", os.linesep)
    try:
        want = written.encode(used)
    except UnicodeEncodeError:
        want = None
    tmp = None
    try:
        if case["via"] == "file":
            tmp = tempfile.mkdtemp(prefix="vpc21-")
            path = os.path.join(tmp, case.get("name", "file"))
            fname = {"file": "file:", "file3": "file://"}.get(case.get("url"), "") + path
        doc = parce.Document(lex, text)
        if case["attr"]:
            doc.encoding = enc
        elif case.get("other") and enc and case["via"] != "functions":
            doc.encoding = case["other"]        # the argument takes precedence
        arg = None if case["attr"] else enc
        doc[0:0] = "x"
        doc[0:1] = ""
        need(doc.modified, "the document is not modified after an edit")
        try:
            if case["via"] == "bytes":
                data = doc.to_bytes(arg, nl)
            elif case["via"] == "functions":
                data = docio.encode_text(text, lex, enc, nl)
            else:
                if want is None:
                    with open(path, "wb") as f:
                        f.write(b"before")
                if case.get("seturl"):
                    doc.url = fname
                    doc.save(None, arg, nl)
                else:
                    doc.save(fname, arg, nl)
                with open(path, "rb") as f:
                    data = f.read()
                need(not doc.modified, "the document is still modified after saving")
                same(doc.url, fname, "the url after saving")
                if arg:
                    same(doc.encoding, arg, "the encoding after saving")
        except UnicodeEncodeError:
            need(want is None, "{!r} can be encoded in {} but is not", text[:60], used)
            need(doc.modified, "saving failed but the document is not modified anymore")
            same(doc.text(), text, "the text after saving failed")
            if case["via"] == "file":
                with open(path, "rb") as f:
                    same(f.read(), b"before", "the file after saving failed")
            return True
        need(want is not None, "{!r} can't be encoded in {} but gives {!r}", text[:60], used, data[:60])
        same(data, want, "{!r} written with declared encoding {!r}, specified {!r} and newline {!r}".format(text[:60], case["decl"], enc, nl))
        same(doc.text(), text, "the text after saving")
        if not enc and used in ("utf-16-le", "utf-16-be", "utf-32-le", "utf-32-be") or text.startswith("\0"):
            # a declaration in such an encoding can't be found without knowing it already,
            # and a NUL after the mark of UTF-16 makes it look like UTF-32
            return True
        # and back
        for read_nl in (None, ""):
            if read_nl is None:
                back = written.replace("\r\n", "\n").replace("\r", "\n")
            else:
                back = written
            if any(data.startswith(b) for b in BOMS) and used.lower() not in ("utf-8-sig", "utf-16", "utf-32"):
                # by chance the data looks like it has a byte order mark
                raise Skip()
            if case["via"] == "functions":
                r = docio.decode_data(data, lex, enc, None, read_nl)
                got, genc = r.text, r.encoding
                need(r.root_lexicon is lex, "the root lexicon is {!r}", r.root_lexicon)
            else:
                if case["via"] == "file":
                    d = parce.Document.load(fname, lex, enc, None, read_nl)
                    same(d.url, fname, "the url after loading")
                else:
                    d = parce.Document.from_bytes(data, None, lex, enc, None, read_nl)
                got, genc = d.text(), d.encoding
                need(d.root_lexicon() is lex, "the root lexicon is {!r}", d.root_lexicon())
                need(not d.modified, "a loaded document is modified")
                same(d.can_undo() if hasattr(d, "can_undo") else False, False, "a loaded document can be undone")
            same(got, back, "{!r}: the text read back (encoding declared {!r}, specified {!r}, newlines {!r} and {!r})".format(
                text[:60], case["decl"], enc, nl, read_nl))
            if enc:
                same(genc, enc, "the encoding attribute")
            elif case["decl"] and case["decl"] not in BOGUS:
                same(genc, case["decl"], "the encoding attribute")
        return not text.isascii() and bool(case["decl"] or enc)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


# -------------------------------------------------------------- reading any data

def gen_data(s):
    bom = s.pick([None, None, "utf-8", "utf-16-le", "utf-16-be", "utf-32-le", "utf-32-be"])
    decl = s.pick([None, None, s.pick(ENCODINGS), s.pick(BOGUS)])
    lang = s.pick(LANGS)
    head = s.pick(DECL[lang]).replace("{{", "{").replace("}}", "}").replace("{}", decl) if decl else ""
    pieces = [p for p in PIECES if "coding" not in p]
    text = head + gen_text(s, pieces)
    if bom:
        pad = s.list(lambda s: s.int(0, 255), 0, 3, .3) if s.one_in(4) else []
        data = list(text.encode(bom)) + pad
    else:
        data = list(head.encode("ascii")) + s.list(lambda s: s.pick([s.int(0, 255), 97, 10, 13, 0xc3, 0xa9, 0xe2, 0x82, 0xac]), 0, 30, 10)
    return {"bom": bom, "decl": decl, "lang": lang, "data": data, "encoding": s.pick([None, s.pick(ENCODINGS)]), "errors": s.pick([None, "replace", "ignore", "strict"]),
            "bytearray": s.one_in(4), "guess": s.one_in(5)}


BOMBYTES = {"utf-8": codecs.BOM_UTF8, "utf-16-le": codecs.BOM_UTF16_LE, "utf-16-be": codecs.BOM_UTF16_BE, "utf-32-le": codecs.BOM_UTF32_LE, "utf-32-be": codecs.BOM_UTF32_BE}


def check_data(case):
    from parce import docio
    body = bytes(case["data"])
    bom = case["bom"]
    if bom:
        data = BOMBYTES[bom] + body
        if bom == "utf-16-le" and body.startswith(b"\0\0"):
            raise Skip()
    else:
        data = body
        if any(data.startswith(b) for b in BOMS):
            raise Skip()
    decl = case["decl"]
    if bom or not decl or decl in BOGUS:
        d = None
    else:
        d = decl
    used = bom or d or case["encoding"] or "utf-8"
    errors = case["errors"] or "strict"
    ucodec = used
    if used in ("utf-16", "utf-32") and not bom:
        raise Skip()        # these want a byte order mark
    try:
        want = body.decode(ucodec, errors)
    except UnicodeDecodeError:
        want = None
    arg = bytearray(data) if case["bytearray"] else data
    try:
        r = docio.decode_data(arg, lexicon(case["lang"]), case["encoding"], case["errors"], "")
        got = r.text
        if bom and not case["encoding"] and not case["decl"]:
            need(r.encoding and codecs.lookup(r.encoding).name in (codecs.lookup(bom).name, "utf-8-sig"),
                 "the encoding found by byte order mark {} is {!r}", bom, r.encoding)
        elif case["encoding"]:
            same(r.encoding, case["encoding"], "the encoding that was specified")
    except UnicodeDecodeError:
        got = None
    same(got, want, "{!r} read as {} (byte order mark {}, declared {}, specified {}), errors {}".format(
        data[:40], used, bom, decl, case["encoding"], case["errors"]))
    return bool(bom or decl or case["encoding"]) and got is not None and not got.isascii()


# ------------------------------------------------------------- own IO class

def gen_own(s):
    return {"default": s.pick([None, "latin1", "utf-16", "nonsense", "cp1252", "hex"]), "find": s.pick([None, "latin1", "nonsense", "koi8-r", "", "hex", "utf-8"]),
            "text": gen_text(s, [p for p in PIECES if "coding" not in p]), "depth": s.int(0, 2), "encoding": s.pick([None, None, "utf-8", "utf-16-le"])}


def check_own(case):
    """A language (or a parent of it) with its own IO class."""
    import sys
    import types
    import parce
    from parce import docio
    mod = types.ModuleType("vp_c21_mod")
    sys.modules[mod.__name__] = mod
    try:
        class Base(parce.Language):
            @parce.lexicon
            def root(cls):
                yield "a", 1
        Base.__module__ = mod.__name__
        mod.Base = Base
        lang = Base
        for i in range(case["depth"]):
            lang = type(Base)("L{}".format(i), (lang,), {"__module__": mod.__name__})
            setattr(mod, lang.__name__, lang)

        class BaseIO(docio.IO):
            def default_encoding(self):
                return case["default"]

            def find_encoding(self, text):
                return case["find"]
        mod.BaseIO = BaseIO
        valid = lambda e: e if e not in (None, "", "nonsense", "hex") else None
        used = case["encoding"] or valid(case["find"]) or valid(case["default"]) or "utf-8"
        text = case["text"].lstrip("\0")
        try:
            want = text.encode(used)
        except UnicodeEncodeError:
            raise Skip()
        doc = parce.Document(lang.root, text)
        data = doc.to_bytes(case["encoding"], "")
        same(data, want, "bytes written for the language with default {!r} and found {!r}".format(case["default"], case["find"]))
        if any(data.startswith(b) for b in BOMS) and used != "utf-16":
            raise Skip()
        if valid(case["find"]) and case["encoding"] and valid(case["find"]) != case["encoding"]:
            return True
        back = parce.Document.from_bytes(data, None, lang.root, case["encoding"], None, "").text()
        same(back, text, "text read back for the language with default {!r} and found {!r}".format(case["default"], case["find"]))
        return not text.isascii()
    finally:
        sys.modules.pop(mod.__name__, None)


# ----------------------------------------------------- finding the language

FILES = ["a.py", "b.xml", "c.html", "d.css", "x.json", "y.ly", "z.toml", "e.ini", "noext", "f.own", "g.py.own", "Makefile", "h.tcl", "Ownfile", "own1"]
NAMES = ["python", "Python", "xml", "html", "css", "lilypond", "json", "own", "OwnLang", "nonexistent", "ownalias"]
STARTS = ["", "<?xml version=\"1.0\"?>\n", "<!DOCTYPE html>\n", "#!/usr/bin/python\n", "{\"a\": 1}", "own! é\n", "\\version \"2.24\"\n", "é text"]


def gen_guess(s):
    return {"how": s.pick(["name", "guess", "guess", "guess", "none"]), "name": s.pick(NAMES), "file": s.pick(FILES), "start": s.pick(STARTS),
            "registry": s.pick([None, "own", "fallback"]), "mimetype": s.pick([None, None, "text/x-own", "text/css"]), "via": s.pick(["load", "bytes", "decode"]),
            "nourl": s.one_in(4), "text": "".join(s.list(lambda s: s.pick([p for p in ASCII if "coding" not in p]), 0, 12, 5))}


def check_guess(case):
    """The language is looked up in the registry that is given, by name, or by file name, mimetype and contents."""
    import sys
    import types
    import parce
    from parce import docio
    from parce.registry import Registry, registry
    mod = types.ModuleType("vp_c21_own")
    sys.modules[mod.__name__] = mod
    tmp = None
    try:
        class Own(parce.Language):
            @parce.lexicon
            def root(cls):
                yield "a", 1
        Own.__module__ = mod.__name__
        mod.Own = Own

        class OwnIO(docio.IO):
            def find_encoding(self, text):
                return "latin1" if text.startswith("own!") else None
        OwnIO.__module__ = mod.__name__
        mod.OwnIO = OwnIO
        reg = None
        if case["registry"]:
            reg = Registry()
            reg.add("vp_c21_own.Own.root", name="OwnLang", desc="own", aliases=["own", "ownalias"], filenames=[("*.own", 1), ("Ownfile", 1), ("own[0-9]", .5)],
                         mimetypes=[("text/x-own", 1)], guesses=[("own!", 1)])
            if case["registry"] == "fallback":
                reg.fallback = registry
        text = case["start"] + case["text"]
        data = text.encode("latin1" if case["start"].startswith("own!") else "utf-8")
        r = registry if reg is None else reg
        url = case["file"]
        via = case["via"]
        nourl = case["nourl"] and via != "load"
        if via == "load":
            tmp = tempfile.mkdtemp(prefix="vpc21-")
            url = os.path.join(tmp, url)
            with open(url, "wb") as f:
                f.write(data)
        elif nourl:
            url = None
        else:
            url = "dir/" + url
        fname = None if nourl else case["file"]
        how = case["how"]
        if how == "name":
            arg = case["name"]
            want = r.find(arg)
        elif how == "guess":
            arg = True
            want = r.find(None, filename=fname, mimetype=case["mimetype"], contents=data.decode("latin1"))
        else:
            arg = want = None
        # what the own registry must find
        if reg is not None and how == "guess" and ((case["file"].endswith(".own") or case["file"] in ("Ownfile", "own1")) and not nourl or case["mimetype"] == "text/x-own"):
            need(want is Own.root, "the registry finds {!r}", want)
        if reg is not None and how == "name" and arg in ("own", "OwnLang", "ownalias"):
            need(want is Own.root, "the registry finds {!r}", want)
        if via == "load":
            d = parce.Document.load(url, arg, None, "replace", "", reg, case["mimetype"])
            got, gtext = d.root_lexicon(), d.text()
        elif via == "bytes":
            d = parce.Document.from_bytes(data, url, arg, None, "replace", "", reg, case["mimetype"])
            got, gtext = d.root_lexicon(), d.text()
        else:
            res = docio.decode_data(data, arg, None, "replace", "", reg, url, case["mimetype"])
            got, gtext = res.root_lexicon, res.text
        need(got is want, "{}: the root lexicon is {!r}, expected {!r} (argument {!r}, file {!r}, mimetype {!r}, text {!r})",
             via, got, want, arg, fname, case["mimetype"], text[:40])
        if want is Own.root or not text.startswith("own!"):
            same(gtext, text, "the text")
        return want is not None
    finally:
        sys.modules.pop(mod.__name__, None)
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------------- failing saves

def gen_fail(s):
    return {"text": gen_text(s), "how": s.pick(["directory", "missing", "scheme", "netloc", "encoding", "nourl"]), "edit": s.bool()}


def check_fail(case):
    import parce
    tmp = tempfile.mkdtemp(prefix="vpc21-")
    try:
        fname = os.path.join(tmp, "f")
        with open(fname, "wb") as f:
            f.write(b"before")
        doc = parce.Document(None, case["text"], fname)
        doc.append("x")
        how = case["how"]
        args = {"directory": (tmp, None), "missing": (os.path.join(tmp, "no", "f"), None), "scheme": ("http:" + fname, None),
                "netloc": ("file://host" + fname, None), "encoding": (fname, "nonsense"), "nourl": (None, None)}[how]
        if how == "nourl":
            doc.url = None
        try:
            doc.save(*args)
        except (OSError, ValueError, LookupError, TypeError, AttributeError):
            pass
        else:
            raise Violation("saving ({}) does not fail".format(how))
        need(doc.modified, "saving ({}) failed but the document is not modified anymore", how)
        same(doc.text(), case["text"] + "x", "the text after saving failed")
        with open(fname, "rb") as f:
            same(f.read(), b"before", "the file after saving ({}) failed".format(how))
        # and a local file url works
        doc.encoding = None
        if "coding" not in case["text"]:
            doc.save("file://" + fname, "utf-8", "")
            need(not doc.modified, "the document is modified after saving")
            d = parce.Document.load("file://" + fname, None, "utf-8", None, "")
            same(d.text(), case["text"] + "x", "the text loaded from a file: url")
        return case["text"] != ""
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ASPECTS = [
    Aspect("roundtrip", gen_case, check_roundtrip, quick=1200, thorough=15000, shards=4,
           rule="the text is not plain ASCII and an encoding is declared or specified, or saving is refused"),
    Aspect("data", gen_data, check_data, quick=1500, thorough=15000, shards=2,
           rule="an encoding is marked, declared or specified, and the text is not plain ASCII"),
    Aspect("ownio", gen_own, check_own, quick=500, thorough=5000, shards=2, rule="the text is not plain ASCII"),
    Aspect("guess", gen_guess, check_guess, quick=600, thorough=6000, shards=2, rule="a language is found"),
    Aspect("failing", gen_fail, check_fail, quick=200, thorough=2000, shards=2, rule="there is text"),
]
