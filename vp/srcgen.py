"""Source text in the bundled languages, written together with what each piece of it is.

A generator function appends pieces to a :class:`W`: the text, a label and a mark.
The label names the standard actions the tokens covering the piece may have
(``"String"``, ``"Name.Variable|Escape"``); ``"~"`` is code that may be anything but
a comment, a string or verbatim data, and ``""`` says nothing (white space). A label that
starts with ``1`` says that the piece is one token, ``=`` asks for exactly that action,
and ``!`` for an action that is marked as invalid. The writer adds the ``1`` itself, except
for text (:data:`RUNS`) and for labels written with a ``*``. The marks
``"<"`` and ``">"`` are put on delimiters that open and close a context.
"""

TEXT = ["abc", " ", "//", "/*", "*/", "#", "%", ";", "{", "}", "(", ")", "[", "]", "<", ">", "'", '"', "`", "$", "&",
        "if", "12", "é", "TODO", "--", "=", ",", "@", "!", "~", "|", "_", ":", ".", "'''", '"""', "#(", "${", "$(", "-", "^"]
WORDS = ["note", "TODO", "XXX", "x", "http://x.org/a", "www.ex.org", "https://a-b.nl/c?d=e", "me@site.org", "\"", "'", "/*",
         "//", "#", "<b>", "</b>", "{", "}", "(", ")", "$x", "`", "\\", "if", "0x1f", "é", "-", "*", "[", "]", ";", "%", "&",
         "-->", "*/", "<!--", "%{", "%}", "!#", "--", "'''", "\"\"\"", "@end", "\\end", "BUG"]

COMMENT_ITEMS = [(x, "=Comment.Alert") for x in ["TODO", "XXX", "XXXX", "BUG", "FIXME", "ALERT", "TEMP"]] + [
    (x, "=Comment.Url") for x in ["http://x.org", "https://a-b.nl/c?d=e", "www.ex.org", "ftp://a.b/~c/#d", "https://x.org/a_(b)"]] + [
    (x, "=Comment.Email") for x in ["me@site.org", "first.last@my-site.nl", "a+b@c", "x_1@y.z"]]


# actions of text that may consist of any number of tokens
RUNS = ("String", "Comment", "Text", "Verbatim", "Data", "Data.Bytes", "Pseudo", "Whitespace", "Name.Identifier|Escape",
        "Literal.Output", "Literal.Error", "Text.Word")


class W:
    def __init__(self, s, depth=3):
        self.s = s
        self.out = []
        self.depth = depth
        self.keyword_tags = ()

    def __call__(self, text, label="", mark=""):
        if not text:
            return
        if label[:1] == "*":
            label = label[1:]
        elif label and label[0] != "!" and label not in RUNS:
            label = "1" + label
        if label[:1] != "1" and self.out and not mark and self.out[-1][1] == label and not self.out[-1][2]:
            self.out[-1][0] += text
        else:
            self.out.append([text, label, mark])

    def seq(self, *pairs):
        for p in pairs:
            self(*p)

    def sp(self):
        """Some white space."""
        self(self.s.pick([" ", "  ", "\t"]))

    def osp(self):
        """Maybe some white space."""
        self(self.s.pick(["", "", " "]))

    def comment_words(self, forbid, multi, maxwords=4):
        """Text for a comment, without the strings in forbid."""
        s = self.s
        sep = [" ", " ", ""] + (["\n"] if multi else [])
        t = "".join(w + x for w, x in s.list(lambda s: (s.pick(WORDS), s.pick(sep)), 0, maxwords))
        return clean(t, forbid)

    def comment(self, start, end, forbid=(), multi=True, maxwords=4, last=""):
        if end:
            forbid = tuple(forbid) + (end,)
            t = self.comment_words(forbid, multi, maxwords)
            while t and (clean(t + end, (end,)) != t + "x" or t[-1] in last):      # the end may not begin earlier
                t = t[:-1]
        else:
            t = self.comment_words(forbid, False, maxwords)
        if self.s.one_in(4):
            # an address or a word that asks for attention, on its own
            word, label = self.s.pick(COMMENT_ITEMS)
            if clean(word, forbid) == word:
                self(start + " ", "Comment")
                self(word, label)
                start = " "
                if not t and not end:
                    start = ""
        self(start + t + end, "Comment")
        if not end:
            self("\n")

    def body(self, forbid, escapes, label="String", maxparts=4, extra=(), esc_label=None):
        """The contents of a string."""
        s = self.s
        for _ in range(s.int(0, maxparts)):
            if escapes and s.one_in(3):
                self(s.pick(escapes), esc_label or label + ".Escape")
            else:
                self(clean(s.pick(TEXT + list(extra)), forbid), label)


def clean(text, forbid):
    """Remove the forbidden strings from text (also the ones that appear by removing)."""
    again = True
    while again:
        again = False
        for f in forbid:
            if f in text:
                text = text.replace(f, "x" if len(f) > 1 else "y")
                again = True
    return text


def digits(s, chars="0123456789", sep="", maxn=3):
    """Some digits, maybe with separators in between."""
    return "".join((s.pick(["", sep]) if i else "") + s.pick(chars) for i in range(s.int(1, maxn)))


HEX = "0123456789abcdefABCDEF"


def hexesc(s, prefix, n):
    """An escape with exactly n hexadecimal digits."""
    return prefix + "".join(s.pick(HEX) for _ in range(n))


def real(s, sep="", trailing_dot=False, leading_dot=True, nonzero=False):
    """A decimal number with optional fraction and exponent."""
    a = digits(s, sep=sep)
    if nonzero:
        a = s.pick("123456789") + (s.pick(["", sep]) + a if s.bool() else "")
    k = s.int(0, 3)
    if k == 1:
        a += "." + digits(s, sep=sep)
    elif k == 2 and leading_dot:
        a = "." + digits(s, sep=sep)
    elif k == 3 and trailing_dot:
        a += "."
    if s.one_in(3):
        a += s.pick("eE") + s.pick(["", "+", "-"]) + digits(s, sep=sep)
    return a


# ------------------------------------------------------------------- C
C_KEYWORDS = ["return", "if", "while", "for", "static", "const", "sizeof", "goto", "inline", "_Bool", "volatile", "switch"]
C_NAMES = ["x", "foo", "_a1", "internal", "iffy", "dollar$x", "été", "returned", "Int", "x_int", "doit", "forx"]


def c_string(w):
    w('"', "String")
    w.body(('"', "\\"), ["\\" + c for c in "nrbtfav?\"'\\"] + ["\\000", "\\017", "\\377"] +
           [hexesc(w.s, "\\u", 4), hexesc(w.s, "\\U", 8)])
    if w.s.one_in(4):
        w(w.s.pick(["\\x4", "\\xfF", "\\0", "\\12"]), "String.Escape")
        w("z", "String")
    w('"', "String")


def c_comment(w):
    if w.s.bool():
        w.comment("//", "")
    else:
        w.comment("/*", "*/")


def c_number(w):
    s = w.s
    k = s.int(0, 5)
    if k == 0:
        t, l = s.pick(["0", "0o", "0O"]) + digits(s, "01234567"), "Octal"
    elif k == 1:
        t, l = s.pick(["0x", "0X"]) + digits(s, HEX), "Hexadecimal"
    elif k == 2:
        t, l = s.pick(["0b", "0B"]) + digits(s, "01"), "Binary"
    else:
        t, l = s.pick([real(s, nonzero=True), "0"]), "Decimal"
    w(s.pick(["", "", "-", "+"]) + t, "Number." + l)


def c_name(w, label):
    s = w.s
    if s.one_in(4):
        w(s.pick(["a", "_1", "été", ""]), label)
        w(hexesc(s, *s.pick([("\\u", 4), ("\\U", 8)])), "Escape")
        w("x" + s.pick(["", "12", "$"]), label)
    else:
        w(s.pick(C_NAMES), label)


def c_expr(w, depth=2):
    s = w.s
    k = s.int(0, 7 if depth else 3)
    if k == 0:
        w(s.pick(C_NAMES), "Name.Variable")
    elif k == 1:
        c_number(w)
    elif k == 2:
        c_string(w)
    elif k == 3:
        c_name(w, "Name.Variable")
    elif k == 4:
        c_name(w, "Name.Function")
        w.osp()
        w("(", "Delimiter", "<")
        for i in range(s.int(0, 2)):
            if i:
                w(",", "Delimiter.Separator")
            w.osp()
            c_expr(w, depth - 1)
        w.osp()
        w(")", "Delimiter", ">")
    elif k == 5:
        w("(", "Delimiter", "<")
        c_expr(w, depth - 1)
        w(")", "Delimiter", ">")
    else:
        c_expr(w, depth - 1)
        w.sp()
        op = s.pick(["+", "-", "*", "/", "%", "==", "!=", "<=", ">=", "<", ">", "&&", "||", "&", "|", "^", "<<", ">>", "?"])
        w(op, "=Operator")
        w.sp()
        if s.one_in(5):
            c_comment(w)
            w.sp()
        if s.one_in(4):
            w(s.pick(["!", "~", "&", "*", "++", "--", "**"]), "=Operator")
        c_expr(w, depth - 1)
        if op == "?":
            w.sp()
            w(":", "=Operator")
            w.sp()
            c_expr(w, depth - 1)


def c_stmt(w, depth=2):
    s = w.s
    k = s.int(0, 7 if depth else 5)
    if k == 0:
        w(s.pick(["int", "char", "double", "unsigned", "bool"]), "Name.Type")
        w.sp()
        w(s.pick(C_NAMES), "Name.Variable")
        w.osp()
        w(s.pick(["=", "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "<<=", ">>="]), "Operator.Assignment")
        w.sp()
        c_expr(w)
        w(";", "Delimiter")
    elif k == 1:
        c_comment(w)
    elif k == 2:
        w("#", "Delimiter.Preprocessed")
        w(s.pick(["", " "]))
        w("include", "Keyword")
        w.sp()
        if s.bool():
            w(s.pick(["<sys/x.h>", "<my file.h>", "<c++/x-y>"]), "String")
        else:
            c_string(w)
        w("\n")
    elif k == 3:
        if s.one_in(5):         # a string that is not closed ends at the end of the line
            w('"', "String")
            w(s.pick(["abc", "x y", "/*"]), "!String")
            w("\n")
            return
        c_expr(w)
        w(";", "Delimiter")
    elif k == 4:
        w(s.pick(["struct", "union", "enum"]), "Keyword")
        w(s.pick([" ", "  ", "\t", "\n"]))
        c_name(w, "Name.Class")
        w.sp()
        w(s.pick(C_NAMES), "Name.Variable")
        w(";", "Delimiter")
    elif k == 5:
        w(s.pick(C_KEYWORDS), "Keyword")
        w.sp()
        c_expr(w)
        w(";", "Delimiter")
    elif k == 6:
        w("{", "Bracket", "<")
        for _ in range(s.int(0, 2)):
            w(s.pick(["\n", " "]))
            c_stmt(w, depth - 1)
        w.osp()
        w("}", "Bracket", ">")
    else:
        w(s.pick(["if", "while", "for"]), "Keyword")
        w.osp()
        w("(", "Delimiter", "<")
        c_expr(w)
        w(")", "Delimiter", ">")
        w.osp()
        c_stmt(w, depth - 1)
    w(s.pick(["\n", "\n", " "]))


def c(w):
    for _ in range(w.s.int(1, 5)):
        c_stmt(w)


# ---------------------------------------------------------- JavaScript
JS_KEYWORDS = ["return", "if", "while", "for", "in", "of", "typeof", "delete", "throw", "instanceof", "yield"]
JS_NAMES = ["x", "foo", "$el", "_a1", "inner", "newer", "format", "été", "returned", "letx", "iffy", "x_if", "a\u200db", "el$", "\u2167x", "a\u0301b", "x\u0664", "\u4e2d\u203f"]


def js_string(w):
    s = w.s
    q = s.pick(["'", '"'])
    w(q, "String")
    w.body((q, "\\", "</"), ["\\" + c for c in "0\"'\\nrvtbf"] +
           [hexesc(s, "\\x", 2), hexesc(s, "\\u", 4), "\\u{" + digits(s, HEX, "", 6) + "}"])
    w(q, "String")


def js_template(w, depth):
    s = w.s
    w("`", "String")
    for _ in range(s.int(0, 3)):
        w.body(("`", "\\", "${", "$", "</"), ["\\n", "\\`", "\\$", "\\u0041"], maxparts=2, extra=["\n"])
        if s.bool():
            w("${", "Delimiter.Template", "<")
            w.osp()
            js_expr(w, depth - 1)
            w.osp()
            w("}", "Delimiter.Template", ">")
    w("`", "String")


def js_comment(w):
    if w.s.bool():
        w.comment("//", "", ("</",))
    else:
        w.comment("/*", "*/", ("</",))


def js_name(w, label):
    s = w.s
    w(hexesc(s, "a\\u", 4) + s.pick(["", "b", "1"]) if s.one_in(5) else s.pick(JS_NAMES), label)


def js_expr(w, depth=2):
    s = w.s
    k = s.int(0, 12 if depth > 0 else 4)
    if k == 0:
        js_name(w, "Name.Variable")
    elif k == 1:
        k = s.int(0, 5)
        if k == 0:
            n = s.pick(["0x", "0X"]) + digits(s, HEX, "_") + s.pick(["", "n"])
        elif k == 1:
            n = s.pick(["0b", "0B"]) + digits(s, "01", "_") + s.pick(["", "n"])
        elif k == 2:
            n = s.pick(["0o", "0O"]) + digits(s, "01234567", "_") + s.pick(["", "n"])
        elif k == 3:
            n = digits(s, sep="_") + "n"
        else:
            n = real(s, "_", True)
        w(n, "Number")
    elif k == 2:
        js_string(w)
    elif k == 3:
        w(s.pick(["true", "false", "null", "undefined"]), "Name.Constant")
    elif k == 4:
        js_name(w, "Name.Variable")
        w(".", "Delimiter")
        w(s.pick(JS_NAMES), "Name.Attribute")
    elif k == 5:
        w(s.pick(JS_NAMES), "Name.Function")
        w.osp()
        w("(", "Delimiter", "<")
        for i in range(s.int(0, 2)):
            if i:
                w(",", "Delimiter")
            w.osp()
            js_expr(w, depth - 1)
        w(")", "Delimiter", ">")
        if s.one_in(3):
            w(".", "Delimiter")
            w(s.pick(JS_NAMES), "Name.Method")
            w("(", "Delimiter", "<")
            w(")", "Delimiter", ">")
    elif k == 6:
        w("(", "Delimiter", "<")
        js_expr(w, depth - 1)
        w(")", "Delimiter", ">")
    elif k == 7:
        w("[", "Bracket", "<")
        for i in range(s.int(0, 3)):
            if i:
                w(",", "Separator")
            w.osp()
            js_expr(w, depth - 1)
        w("]", "Bracket", ">")
    elif k == 8:
        w("(", "Delimiter", "<")
        w("{", "Bracket", "<")
        for i in range(s.int(0, 2)):
            if i:
                w(",", "Separator")
            w.osp()
            if s.bool():
                js_string(w)
            else:
                w(s.pick(JS_NAMES), "Name.Variable")
            w(":", "Separator")
            w.osp()
            js_expr(w, depth - 1)
        w("}", "Bracket", ">")
        w(")", "Delimiter", ">")
    elif k == 9:
        js_template(w, depth)
    elif k == 10:
        w(s.pick(JS_NAMES), "Name.Variable")
        w("[", "Delimiter", "<")
        js_expr(w, depth - 1)
        w("]", "Delimiter", ">")
    elif k == 11:
        w("(", "Delimiter", "<")
        w(s.pick(["/a/", "/[/'\"]+x/", "/\\/\\*/", "/it's/", "/[\\]\"]`/", "/[\\]/]b/", "/\\[/"]) + "".join(s.list(lambda s: s.pick("dgimsuvy"), 0, 2)), "Literal.Regexp")
        w(")", "Delimiter", ">")
    else:
        js_expr(w, depth - 1)
        w.sp()
        op = s.pick(["+", "-", "*", "%", "==", "!=", "===", "!==", "<=", ">=", "<", ">", "&&", "||", "&", "|", "^", "<<", ">>",
                  ">>>", "?", "**"])
        w(op, "=Operator")
        w.sp()
        if s.one_in(4):
            w(s.pick("!~-+"), "=Operator")
        js_expr(w, depth - 1)
        if op == "?":
            w.sp()
            w(":", "Operator|Separator")
            w.sp()
            js_expr(w, depth - 1)


def js_stmt(w, depth=2):
    s = w.s
    k = s.int(0, 6 if depth > 0 else 4)
    if k == 0:
        w(s.pick(["let", "const", "var"]), "Keyword")
        w.sp()
        w(s.pick(JS_NAMES), "Name.Variable.Definition")
        w.osp()
        w("=", "Operator.Assignment")
        w.sp()
        js_expr(w)
        w(";", "Delimiter")
    elif k == 1:
        js_comment(w)
    elif k == 2:
        js_expr(w)
        w(";", "Delimiter")
    elif k == 3:
        w(s.pick(JS_KEYWORDS), "Keyword")
        w.sp()
        js_expr(w)
        w(";", "Delimiter")
    elif k == 4:
        w(s.pick(JS_NAMES), "Name.Variable")
        w.sp()
        w(s.pick(["=", "+=", "-=", "*=", "%=", "&=", "|=", "^=", "<<=", ">>=", ">>>="]), "Operator.Assignment")
        w.sp()
        if s.one_in(4):
            w("new", "Keyword")
            w.sp()
            w("Foo", "Name.Class.Definition")
            w("(", "Delimiter", "<")
            js_expr(w, 1)
            w(")", "Delimiter", ">")
        else:
            js_expr(w)
        w(";", "Delimiter")
    elif k == 5:
        w("function", "Keyword")
        w.sp()
        w(s.pick(JS_NAMES), "Name.Function.Definition")
        w.osp()
        w("(", "Delimiter", "<")
        w("a", "Name.Variable")
        w(")", "Delimiter", ">")
        w.osp()
        js_block(w, depth)
    else:
        w(s.pick(["if", "while"]), "Keyword")
        w.osp()
        w("(", "Delimiter", "<")
        js_expr(w)
        w(")", "Delimiter", ">")
        w.osp()
        js_block(w, depth)
    w(s.pick(["\n", "\n", " "]))


def js_block(w, depth):
    w("{", "Bracket", "<")
    for _ in range(w.s.int(0, 2)):
        w(w.s.pick(["\n", " "]))
        js_stmt(w, depth - 1)
    w.osp()
    w("}", "Bracket", ">")


def javascript(w):
    s = w.s
    for _ in range(s.int(1, 4)):
        if s.one_in(6):
            w("x", "Name.Variable")
            w(" ")
            w(*s.pick([("=", "Operator.Assignment"), ("/=", "Operator.Assignment"), ("/", "=Operator")]))
            w(" ")
            w("2", "Number")
            w("\n")
        else:
            js_stmt(w)


# -------------------------------------------------------------- Python
PY_KEYWORDS = ["return", "if", "while", "not", "yield", "raise", "assert", "await", "del", "elif"]
PY_NAMES = [("x", "Name.Variable"), ("foo", "Name.Variable"), ("_a1", "Name.Variable"), ("iffy", "Name.Variable"),
            ("été", "Name.Variable"), ("FOO", "Name.Constant"), ("FOO_2", "Name.Constant"), ("FooBar", "Name.Class"),
            ("_Foo", "Name.Class"), ("inner", "Name.Variable"), ("x_if", "Name.Variable"), ("printer", "Name.Variable")]
PY_ESC = ["\\" + c for c in "n'\"\\tabfrv"] + ["\\x4F", "\\xab", "\\107"]
PY_SESC = PY_ESC + ["\\u0041", "\\uaBcF", "\\U0001F60a", "\\N{DASH}", "\\N{LATIN SMALL LETTER A}", "\\N{HYPHEN-MINUS}"]


def py_string(w, depth=1, cont=""):
    """A string literal; cont is the continuation prompt in a console."""
    s = w.s
    kind = s.pick(["", "", "u", "U", "r", "f", "b", "B", "rb", "fr", "rf", "F", "R", "Br", "bR", "Rb", "FR", "fR", "Rf", "rF", "BR", "RB"])
    q = s.pick(["'", '"', "'''", '"""'])
    label = "Data.Bytes" if "b" in kind.lower() else "String"
    raw = "r" in kind.lower()
    f = "f" in kind.lower()
    w(kind, label)
    w(q, label)
    forbid = (q[0], "\\", "\n") + (("{", "}") if f else ())
    esc = [] if raw else PY_SESC if label == "String" else PY_ESC
    for _ in range(s.int(0, 3)):
        if len(q) == 3 and s.one_in(3):
            w(s.pick(["\n", "a\nb", " " + q[0] + " "]) if not cont else "\n", label)
            if cont:
                while s.one_in(4):      # a line with nothing on it
                    w(cont.rstrip(), "Literal.Prompt")
                    w("\n", label)
                w(cont, "Literal.Prompt")
        w.body(forbid, esc, label, 2)
        if f and s.bool():
            if s.one_in(3):
                w(s.pick(["{{", "}}"]), "String.Escape")
            else:
                py_field(w)
        if esc and s.one_in(6):
            w(s.pick(["\\0", "\\12"]), label + ".Escape")
            w("z", label)
        if raw and len(q) == 1 and s.one_in(3):
            w(s.pick(["\\\\z", "\\dz", "\\" + q + "z", "\\\\", "\\\\\\" + q]), label)
    w(q, label)


def py_field(w):
    s = w.s
    n, l = s.pick(PY_NAMES)
    spec = s.one_in(3)
    w("{", "Delimiter.Template", "" if spec else "<")
    w(n, l)
    if s.one_in(4):
        w("[", "Delimiter", "<")
        w("0", "Number")
        w("]", "Delimiter", ">")
    if s.one_in(3):
        w("!" + s.pick("rsa"), "Character")
    if spec:
        w(":", "Delimiter")
        w(">", "Operator")
        if s.bool():
            w("{", "Delimiter", "<")
            w("wid", "Name.Variable")
            w("}", "Delimiter", ">")
        else:
            w("12", "Number")
        w("}", "Delimiter.Template")
    else:
        w("}", "Delimiter.Template", ">")


def py_comment(w):
    w.comment("#", "")


def py_number(w):
    s = w.s
    k = s.int(0, 6)
    if k == 0:
        w(s.pick(["0o", "0O"]) + s.pick(["", "_"]) + digits(s, "01234567", "_"), "Number.Octal")
    elif k == 1:
        w(s.pick(["0x", "0X"]) + s.pick(["", "_"]) + digits(s, HEX, "_"), "Number.Hexadecimal")
    elif k == 2:
        w(s.pick(["0b", "0B"]) + s.pick(["", "_"]) + digits(s, "01", "_"), "Number.Binary")
    else:
        w(real(s, "_", True) + s.pick(["", "", "j", "J"]), "Number")


def py_expr(w, depth=2, paren=False, cont=""):
    s = w.s
    k = s.int(0, 11 if depth > 0 else 3)
    if k == 0:
        w(*s.pick(PY_NAMES))
    elif k == 1:
        py_number(w)
    elif k == 2:
        py_string(w, cont=cont)
        if s.one_in(4):
            w(" ")
            py_string(w, cont=cont)
    elif k == 3:
        w(*s.pick([("None", "Name.Constant"), ("True", "Name.Constant"), ("ValueError", "Name.Exception"),
                   ("print", "Name.Builtin"), ("self", "Name.Variable.Special"), ("...", "Delimiter.Special.Ellipsis")]))
        w(" ")
    elif k == 4:
        n, l = s.pick(PY_NAMES + [("self", "Name.Variable.Special"), ("open", "Name.Builtin"), ("KeyError", "Name.Exception")])
        if n == "self":         # the bracket belongs to the token
            w(*s.pick([("self(", "Name.Variable.Special"), ("cls (", "Name.Variable.Special")]), "<")
            py_list(w, depth, cont)
            w(")", "Delimiter", ">")
            return
        w(n, "Name.Function" if l == "Name.Variable" else l)
        w.osp()
        py_args(w, depth, cont)
    elif k == 5:
        w("(", "Delimiter", "<")
        py_expr(w, depth - 1, True, cont)
        w(")", "Delimiter", ">")
    elif k == 6:
        w("[", "Delimiter", "<")
        py_list(w, depth, cont)
        w("]", "Delimiter", ">")
    elif k == 7:
        w("{", "Delimiter", "<")
        for i in range(s.int(0, 2)):
            if i:
                w(",", "Delimiter")
            w.osp()
            py_expr(w, depth - 1, True, cont)
            w(":", "Delimiter")
            w.osp()
            py_expr(w, depth - 1, True, cont)
        w("}", "Delimiter", ">")
    elif k == 8:
        n, l = s.pick(PY_NAMES)
        w(n, l)
        w("[", "Delimiter", "<")
        py_expr(w, depth - 1, True, cont)
        w("]", "Delimiter", ">")
    elif k == 9:
        w(*s.pick(PY_NAMES))
        w(".", "Delimiter")
        n, l = s.pick(PY_NAMES)
        call = s.bool()
        w(n, ("Name.Method" if call else "Name.Attribute") if l == "Name.Variable" else
          ("Name.Method|Name.Constant|Name.Class" if call else l))
        if call:
            py_args(w, depth, cont)
    elif k == 10:
        py_expr(w, depth - 1, paren, cont)
        w.sp()
        w(s.pick(["and", "or", "in", "is", "is", "not in".split()[0]]), "Keyword")
        w.sp()
        py_expr(w, depth - 1, paren, cont)
    else:
        py_expr(w, depth - 1, paren, cont)
        w.sp()
        w(s.pick(["+", "-", "*", "/", "//", "%", "==", "!=", "<=", ">=", "<", ">", "&", "|", "^", "<<", ">>", "**", "@"]), "=Operator")
        w.sp()
        if s.one_in(5):
            w(s.pick("~-+"), "=Operator")
        elif not cont and s.one_in(5):
            w("\\\n", "Escape")
            w(s.pick(["", "  "]))
        py_expr(w, depth - 1, paren, cont)


def py_list(w, depth, cont):
    s = w.s
    for i in range(s.int(0, 3)):
        if i:
            w(",", "Delimiter")
        if not cont and s.one_in(5):
            w(" ")
            py_comment(w)
        w.osp()
        py_expr(w, depth - 1, True, cont)


def py_args(w, depth, cont):
    w("(", "Delimiter", "<")
    py_list(w, depth, cont)
    w(")", "Delimiter", ">")


def py_stmt(w, indent="", depth=2):
    s = w.s
    k = s.int(0, 7 if depth > 0 else 4)
    if k == 1:
        if indent:
            w(indent, "Whitespace")
        py_comment(w)
        return
    if indent:
        w(indent, "Whitespace")
    if k == 0:
        w(*s.pick(PY_NAMES))
        w.osp()
        w("=", "Operator.Assignment")
        w.sp()
        if s.one_in(6):         # a string that is not closed ends at the end of the line
            q = s.pick("'\"")
            w(s.pick(["", "r", "f", "u"]), "String")
            w(q, "String")
            w(s.pick(["abc", "x y", "("]), "!String")
            w("\n")
            return
        py_expr(w)
    elif k == 2:
        py_expr(w)
    elif k == 3:
        w(s.pick(PY_KEYWORDS), "Keyword")
        w.sp()
        py_expr(w)
    elif k == 4:
        w(*s.pick(PY_NAMES))
        w("[", "Delimiter", "<")
        py_number(w)
        w("]", "Delimiter", ">")
        w.sp()
        w(s.pick(["=", "+=", "-=", "*=", "/=", "//=", "**=", ">>=", "<<=", "|=", "&=", "^=", "%=", "@=", ":="]), "Operator.Assignment")
        w.sp()
        py_expr(w)
    else:
        if k == 5:
            w("def", "Keyword")
            w(" ")
            w("foo", "Name.Function.Definition")
            w("(", "Delimiter", "<")
            w("x", "Name.Variable")
            if s.bool():
                w(":", "Delimiter.Annotation")
                w(" ")
                w("Foo", "Name.Class")
            if s.bool():
                w("=", "Operator.Assignment")
                py_expr(w, 1, True)
            w(")", "Delimiter", ">")
            if s.one_in(3):
                w(" ")
                w("->", "Delimiter.Annotation")
                w(" ")
                py_expr(w, 1)
        elif k == 6:
            w("class", "Keyword")
            w(" ")
            w("Foo", "Name.Class.Definition")
            if s.bool():
                w("(", "Delimiter", "<")
                py_list(w, 1, "")
                w(")", "Delimiter", ">")
        else:
            if s.one_in(3):
                w("@", "Name.Decorator")
                w("dec", "Name.Decorator")
                while s.one_in(3):
                    w(".", "Delimiter")
                    w("x1", "Name.Decorator")
                if s.bool():
                    py_args(w, 1, "")
                if s.one_in(4):
                    w(" ")
                    py_comment(w)
                else:
                    w("\n")
                if indent:
                    w(indent, "Whitespace")
            w(s.pick(["if", "while", "elif", "with"]), "Keyword")
            w(" ")
            py_expr(w)
        w(":", "Delimiter.Indent")
        w("\n")
        for _ in range(s.int(1, 2)):
            py_stmt(w, indent + "    ", depth - 1)
        return
    if s.one_in(4):
        w(" ")
        py_comment(w)
    else:
        w("\n")


def python(w):
    for _ in range(w.s.int(1, 5)):
        py_stmt(w)


def pythonconsole(w):
    s = w.s
    for _ in range(s.int(1, 4)):
        k = s.int(0, 3)
        if k <= 1:
            w(">>> ", "Literal.Prompt")
            if s.bool():
                w(*s.pick(PY_NAMES))
                w(" ")
                w("=", "Operator.Assignment")
                w(" ")
            py_expr(w, 1, cont="... ")
            w("\n")
        elif k == 2:
            w(">>> ", "Literal.Prompt")
            w("if", "Keyword")
            w(" ")
            w("x", "Name.Variable")
            w(":", "Delimiter.Indent")
            w("\n")
            w("... ", "Literal.Prompt")
            w("    ")
            w("y", "Name.Variable")
            w(" ")
            w("=", "Operator.Assignment")
            w(" ")
            py_expr(w, 1, cont="... ")
            w("\n")
            w("...", "Literal.Prompt")
            w("\n")
        else:
            w(">>> ", "Literal.Prompt")
            w("x", "Name.Variable")
            w("\n")
            if s.one_in(3):
                w("Traceback (most recent call last):\n  File \"<stdin>\", line 1\nNameError: 'x'\n", "Literal.Error")
                if s.one_in(3):
                    w(">>>", "Literal.Prompt")
                    w("\n")
                w(">>> ", "Literal.Prompt")
                w("x", "Name.Variable")
                w("\n")
        if k <= 1 or s.bool():
            for _ in range(s.int(0, 2)):
                w(s.pick(["12", "'it''s'", "# no comment", "<x at 0x1>", "[1, 2", "\"\"\"", "if x:"]), "Literal.Output")
                w("\n")


# ---------------------------------------------------------------- Toml
TOML_ESC = ["\\" + c for c in "btnfr\"\\"] + ["\\u00e9", "\\uABCD", "\\U0001F60a"]


def toml_key(w, label):
    s = w.s
    for i in range(s.pick([1, 1, 2, 3])):
        if i:
            w.osp()
            w(".", "Delimiter")
            w.osp()
        k = s.int(0, 2)
        if k == 0:
            w(s.pick(["a", "bare-key", "1234", "true", "x_1", "inf"]), label)
        elif k == 1:
            w('"', "String")
            w.body(('"', "\\"), TOML_ESC, maxparts=2)
            w('"', "String")
        else:
            w("'", "String")
            w.body(("'",), (), maxparts=2, extra=["\\", "\\n"])
            w("'", "String")


def toml_value(w, depth=2, inline=False):
    s = w.s
    k = s.int(0, 8 if depth else 5)
    if k == 0:
        w(*s.pick([("0x" + digits(s, HEX, "_"), "Number"), ("0o" + digits(s, "01234567", "_"), "Number"), ("0b" + digits(s, "01", "_"), "Number"),
                   (s.pick(["", "+", "-"]) + s.pick(["inf", "nan"]), "Number"),
                   (s.pick(["", "+", "-"]) + real(s, "_", leading_dot=False, nonzero=True), "Number")]))
    elif k == 1:
        w('"', "String")
        w.body(('"', "\\"), TOML_ESC)
        w('"', "String")
    elif k == 2:
        w("'", "String")
        w.body(("'",), (), extra=["\\", "\\n"])
        w("'", "String")
    elif k == 3:
        w(s.pick(["true", "false"]), "Name.Constant")
    elif k == 4:
        w(s.pick(["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "1979-05-27 07:32:00.999", "00:32:00.9999999", "1979-05-27T07:32:00.1z", "1979-05-27t00:32:00-07:00"]),
          "Literal.Timestamp")
    elif k == 5:
        q = s.pick(['"""', "'''"])
        w(q, "String")
        if q == "'''" and s.bool():
            w("\n", "Whitespace")
            if s.one_in(3):
                w("\n", "String")
        for _ in range(s.int(0, 2)):
            w.body((q[0],) + (("\\",) if q == '"""' else ()), TOML_ESC if q == '"""' else (), maxparts=2, extra=[] if q == '"""' else ["\\"])
            w(s.pick(["x\nx", "x" + q[0] + "x", "x" + 2 * q[0] + "x", "x"]), "String")
            if q == '"""' and s.one_in(3):
                w(s.pick(["\\\n  ", "\\\n", "\\ \n\n\t"]), "Whitespace")
                w("z", "String")
        w(q, "String")
    elif k <= 7:
        w("[", "Bracket", "<")
        for i in range(s.int(0, 3)):
            if i:
                w(",", "Separator")
                if s.one_in(4):
                    w.osp()
                    w.comment("#", "")
            w(s.pick(["", " ", "\n"]))
            toml_value(w, depth - 1)
            w.osp()
        w("]", "Bracket", ">")
    else:
        w("{", "Bracket")
        for i in range(s.int(0, 2)):
            if i:
                w(",", "Separator")
            w.osp()
            toml_key(w, "Name.Variable")
            w(" ")
            w("=", "Operator.Assignment")
            w.osp()
            toml_value(w, depth - 1)
            w.osp()
        w("}", "Bracket")


def toml(w):
    s = w.s
    for _ in range(s.int(1, 5)):
        k = s.int(0, 5)
        if k == 0:
            w.comment("#", "")
            continue
        elif k == 5:
            if s.bool():        # a string that is not closed ends at the end of the line
                toml_key(w, "Name.Variable")
                w(" ")
                w("=", "Operator.Assignment")
                w(" ")
                q = s.pick("'\"")
                w(q, "String")
                w(s.pick(["abc", "x y", "[", "="]), "!String")
                w("\n")
                continue
            w(s.pick(["= 1", ".a = 1", "="]), "!Invalid")
        elif k == 1:
            w("[", "Bracket", "<")
            w.osp()
            toml_key(w, "Name.Namespace")
            w.osp()
            w("]", "Bracket", ">")
        elif k == 2:
            w("[[", "Bracket", "<")
            toml_key(w, "Name.Namespace")
            w("]]", "Bracket", ">")
        else:
            toml_key(w, "Name.Variable")
            w.osp()
            w("=", "Operator.Assignment")
            w.osp()
            toml_value(w)
        if s.one_in(3):
            w(" ")
            w.comment("#", "")
        else:
            w(s.pick(["\n", "\n\n"]))


# ----------------------------------------------------------------- Ini
def ini(w):
    s = w.s
    bad = ("[", "\\", "\n", ";", "=", "#", ":", "#(")
    esc = ["\\" + c for c in "\n\\'\"0abtrn;#=:"] + [hexesc(s, s.pick(["\\x", "\\X"]), 4)]
    for _ in range(s.int(1, 5)):
        k = s.int(0, 3)
        if k == 0:
            w.comment(s.pick([";", "#"]), "")
            continue
        elif k == 1:
            w("[", "Bracket", "<")
            w(clean(s.pick(["sec", "a b", "x:y", "a=b;c", "#1", "é"]), ()), "Name.Namespace")
            w("]", "Bracket", ">")
        else:
            w(clean(s.pick(["key", "a b", "x-1", "Ä", "\"q\""]), ()), "*Name.Identifier")
            w.body(bad, esc, "*Name.Identifier", 1, esc_label="Escape")
            w("=", "Operator.Assignment")
            w.body(bad, esc, "Data", 4, esc_label="Escape")
        if s.one_in(3):
            w.comment(s.pick([";", "#"]), "")
        else:
            w("\n")


# ----------------------------------------------------------------- Tcl
TCL_ESC = ["\\n", "\\\"", "\\\\", "\\$", "\\[", "\\x4F", "\\xab", "\\u0041", "\\uaBcF", "\\U0001F60a", "\\101", "\\777", "\\{", "\\}", "\\\n"]


def tcl_word(w, depth):
    s = w.s
    k = s.int(0, 7 if depth > 0 else 3)
    if k == 0:
        w(s.pick(["abc", "x1", "-opt", "a.b", "été", "set_it", "#x"]), "Text.Word") if not s.one_in(9) else w("()", "Delimiter")
    elif k == 1:
        c_number(w)
    elif k == 2:
        w(s.pick(["$x", "$::ns::var", "${a b}", "$a1", "$_A9", "${x}", "$B", "$a:::b", "$::c"]), "Name.Variable")
    elif k == 3:
        w(s.pick(["&&", "||", "<=", "==", "eq", "ne", "in", "ni", "+", "-", "*", "**", "/", "%", "?", ":", "~", "!", "<<", ">>", "<", ">", ">=", "!=", "&", "^", "|"]), "=Operator")
    elif k == 4:
        w('"', "String")
        for _ in range(s.int(0, 3)):
            w.body(('"', "\\", "$", "[", "{$"), TCL_ESC, maxparts=2, esc_label="Escape")
            j = s.int(0, 3)
            if j == 0:
                w("$var", "Name.Variable")
                w(" ", "String")
            elif j == 1:
                tcl_command_sub(w, depth)
        w('"', "String")
    elif k == 5:
        w("{", "Delimiter", "<")
        for _ in range(s.int(0, 2)):
            w(s.pick(["\n", " "]))
            tcl_line(w, depth - 1)
        w(s.pick(["\n", " "]))
        w("}", "Delimiter", ">")
    elif k == 6:
        tcl_command_sub(w, depth)
    else:
        w("$arr", "Name.Variable")
        w("(", "Delimiter", "<")
        tcl_word(w, 0)
        w(")", "Delimiter", ">")


def tcl_command_sub(w, depth):
    w("[", "Delimiter", "<")
    tcl_line(w, depth - 1)
    w("]", "Delimiter", ">")


def tcl_line(w, depth):
    s = w.s
    w(*s.pick([("set", "Keyword"), ("puts", "Keyword"), ("expr", "Keyword"), ("oo::class", "Keyword"), ("pack", "Name.Command"),
               ("ttk::button", "Name.Command"), ("myproc", "Text.Word")]))
    for _ in range(s.int(0, 3)):
        w(" ")
        if s.one_in(6):
            # words and substitutions directly behind each other
            w(s.pick(["$x", "$::n::v", "${a b}"]), "Name.Variable")
            w(s.pick([".txt", "/x", "-y", ".a,b"]), "Text.Word")
            if s.bool():
                w("$y", "Name.Variable")
            elif depth > 0:
                tcl_command_sub(w, depth)
        elif s.one_in(8):
            w(s.pick(["arr", "a-b"]), "Text.Word")
            w("(", "Delimiter", "<")
            tcl_word(w, 0)
            w(")", "Delimiter", ">")
        else:
            tcl_word(w, depth)


def tcl(w):
    s = w.s
    if s.one_in(5):
        w("#!/usr/bin/tclsh", "Comment")
        w("\n")
    for _ in range(s.int(1, 4)):
        if s.one_in(4):
            w(s.pick(["", "  ", "\t", "\n \t"]))
            w.comment("#", "", ("\\",))
            continue
        tcl_line(w, 2)
        k = s.int(0, 3)
        if k == 0:
            w(";", "Delimiter")
            w(s.pick(["", " ", "\t"]))
            w.comment("#", "", ("\\",))
        elif k == 1:
            w(";", "Delimiter")
            w(" ")
        else:
            w("\n")


# ----------------------------------------------------------------- Xml
XML_NAMES = ["a", "ns:tag", "_x", "é", "a-b.c", "A1", "para", "x\xb7y", "\xf6", "\u03a9m", "a\u203fb", "e\u0301", "\U00010400", "\u2c00"]
XML_TEXT = ["abc", "it's", "\"q\"", "//", "#1", "{}", "a b\nc", "é", "5 > 4", "]]", "-->", "x=y", "<", "/*"]
XML_ENT = ["&amp;", "&#38;", "&#x26;", "&x;"]


def xml_string(w, style=False):
    s = w.s
    q = s.pick(["'", '"'])
    w(q, "String")
    w.body((q, "&"), XML_ENT, extra=["<a>", "/>", "\n"])
    w(q, "String")


def xml_attrs(w, names):
    s = w.s
    for _ in range(s.int(0, 2)):
        w(s.pick([" ", "\n "]))
        w(s.pick(names), "Name.Attribute")
        w.osp()
        w("=", "Operator")
        w.osp()
        xml_string(w)


def xml_text(w):
    s = w.s
    t = clean("".join(s.list(lambda s: s.pick(XML_TEXT), 1, 3)), ("<", "&"))
    w(t, "Text")
    if s.one_in(3):
        w(s.pick(XML_ENT), "Escape")


def xml_comment(w):
    w.comment("<!--", "-->", ("--",), last="-")


def xml_misc(w):
    s = w.s
    k = s.int(0, 2)
    if k == 0:
        xml_comment(w)
    elif k == 1:
        w("<![", "Delimiter")
        w("CDATA", "Data.Definition")
        w("[", "Delimiter", "<")
        t = clean("".join(s.list(lambda s: s.pick(TEXT + ["<a>", "</a>", "]]", "\n", "]] >"]), 0, 3)), ("]]>",))
        while t.endswith("]"):
            t = t[:-1]
        w(t, "Data")
        w("]]>", "Delimiter", ">")
    else:
        w("<?", "Bracket", "")
        w(s.pick(["xml-stylesheet", "php", "x"]), "Name.Tag")
        if s.bool():
            w(" ", "Text")
            w("href", "Name.Attribute")
            w.osp()
            w("=", "Operator")
            w.osp()
            xml_string(w)
        w(s.pick([" ", " a > b ", " <x> "]), "Text")
        w("?>", "Bracket")


def xml_element(w, depth, names=XML_NAMES, misc=xml_misc):
    s = w.s
    name = s.pick(names)
    label = "Keyword" if name in w.keyword_tags else "Name.Tag"
    w("<", "Delimiter")
    w(name, label)
    xml_attrs(w, ["x", "xml:lang", "class", "id"])
    k = s.int(0, 3)
    w.osp()
    if k == 0:
        w(s.pick(["/>", "/>", "/ >"]), "Delimiter")
        return
    w(">", "Delimiter", "<")
    last = ""
    for _ in range(s.int(0, 3 if depth else 1)):
        last = xml_content(w, depth, last, misc, names)
    w("</", "Delimiter")
    w(name, label)
    w.osp()
    w(">", "Delimiter", ">")


def xml_content(w, depth, last, misc, names=XML_NAMES):
    k = w.s.int(0, 3)
    if k == 0 and last != "text":
        xml_text(w)
        return "text"
    elif k == 1:
        misc(w)
    elif depth:
        xml_element(w, depth - 1, names, misc)
    return ""


def dtd_decl(w):
    s = w.s
    k = s.int(0, 4)
    if k == 0:
        xml_comment(w)
        return
    w("<!", "Delimiter")
    if k == 1:
        w("ELEMENT", "Keyword")
        w(" ")
        w(s.pick(XML_NAMES), "Name.Element.Definition")
        w(" ")
        if s.one_in(3):
            w(s.pick(["ANY", "EMPTY"]), "Name.Keyword")
        elif s.one_in(6):
            w("%content.model;", "Name.Entity")
        else:
            dtd_group(w, 2)
            if s.bool():
                w(s.pick("*+?"), "Operator")
    elif k == 2:
        w("ATTLIST", "Keyword")
        w(" ")
        w(s.pick(XML_NAMES), "Name.Element.Definition")
        for _ in range(s.int(0, 2)):
            w(" ")
            w(s.pick(["x", "xml:id"]), "Name.Attribute.Definition")
            w(" ")
            if s.bool():
                w(s.pick(["CDATA", "ID", "IDREF", "IDREFS", "NMTOKEN", "ENTITY", "ENTITIES", "NMTOKENS"]), "=Name.Type")
            elif s.one_in(4):
                w("%att;", "Name.Entity")
            elif s.one_in(3):
                w("NOTATION", "=Name.Type")
                w(s.pick([" ", "\n\t"]))
                w("(", "Bracket", "<")
                for i in range(s.int(1, 3)):
                    if i:
                        w.osp()
                        w("|", "Operator")
                        w.osp()
                    w(s.pick(["gif", "jpeg", "x-1"]), "=Name.Type")
                w(")", "Bracket", ">")
            else:
                w("(", "Bracket", "<")
                w("on", "Data")
                w("|", "Operator")
                w("off", "Data")
                w(")", "Bracket", ">")
            w(" ")
            if s.bool():
                w(s.pick(["#REQUIRED", "#IMPLIED"]), "Name.Builtin")
            else:
                if s.one_in(3):
                    w("#FIXED", "Name.Builtin")
                    w(" ")
                xml_string(w)
    elif k == 3:
        w("ENTITY", "Keyword")
        w(" ")
        if s.bool():
            w("%", "Keyword")
            w(" ")
        w(s.pick(XML_NAMES), "Name.Entity.Definition")
        w(" ")
        k = s.int(0, 3)
        if k == 1:
            w("SYSTEM", "Keyword")
            w(" ")
        elif k == 2:
            w("PUBLIC", "Keyword")
            w(" ")
            xml_string(w)
            w(" ")
        xml_string(w)
        if k == 1 and s.one_in(3):
            w(" ")
            w("NDATA", "Keyword")
            w(" ")
            w("gif", "Name.Entity")
    else:
        w("NOTATION", "Keyword")
        w(" ")
        w("n1", "Name")
        w(" ")
        w(s.pick(["PUBLIC", "SYSTEM"]), "Keyword")
        w(" ")
        xml_string(w)
    w.osp()
    w(">", "Delimiter")


def dtd_group(w, depth):
    s = w.s
    w("(", "Bracket", "<")
    for i in range(s.int(1, 3)):
        if i:
            w(s.pick([",", "|"]), "Operator")
        if depth and s.one_in(3):
            dtd_group(w, depth - 1)
        else:
            w(*s.pick([("a", "Name.Element"), ("ns:b", "Name.Element"), ("#PCDATA", "Name.Builtin"), ("%ent;", "Name.Entity")]))
        if s.one_in(3):
            w(s.pick("*+?"), "Operator")
        w.osp()
    w(")", "Bracket", ">")


def dtd(w):
    s = w.s
    for _ in range(s.int(1, 4)):
        if s.one_in(5):
            w("%ent;", "Name.Entity")
        else:
            dtd_decl(w)
        w(s.pick(["\n", " ", ""]))


def xml(w):
    s = w.s
    if s.bool():
        w("<?", "Bracket")
        w("xml", "Name.Tag")
        w(" ", "Text")
        w("version", "Name.Attribute")
        w("=", "Operator")
        xml_string(w)
        w("?>", "Bracket")
        w("\n")
    if s.one_in(3):
        w("<!", "Delimiter")
        w(s.pick(["DOCTYPE", "doctype"]), "Keyword")
        w(" ")
        w("root", "Name.Tag.Definition")
        if s.bool():
            w(" ")
            w("SYSTEM", "Keyword")
            w(" ")
            xml_string(w)
        if s.bool():
            w(" ")
            w("[", "Bracket", "<")
            for _ in range(s.int(0, 2)):
                w(s.pick(["", "\n"]))
                dtd_decl(w)
            w(s.pick(["", "\n"]))
            w("]", "Bracket", ">")
        w(">", "Delimiter")
        w("\n")
    if s.one_in(3):
        xml_comment(w)
        w("\n")
    xml_element(w, 3)
    w("\n")


def docbook(w):
    w.keyword_tags = ("para", "book", "screen", "xref")
    xml_element(w, 3, ["para", "book", "screen", "xref", "p", "parameters", "x:para", "Book"])
    w("\n")


def xslt(w):
    w.keyword_tags = ("xsl:template", "xsl:if", "xsl:value-of")
    xml_element(w, 3, ["xsl:template", "xsl:if", "xsl:value-of", "template", "xsl:iff", "fo:block"])
    w("\n")


# ---------------------------------------------------------------- Html
HTML_NAMES = ["p", "div", "b", "table", "colgroup", "P", "body", "span", "h1", "Div", "article", "button", "label", "style-guide", "script-x", "scripts", "col-x", "styled"]
HTML_VOID = ["br", "img", "hr", "input", "meta", "BR", "link", "col", "wbr", "Img"]


def html_void(w):
    s = w.s
    w("<", "Delimiter")
    w(s.pick(HTML_VOID), "Name.Tag")
    xml_attrs(w, ["src", "alt", "x"])
    w.osp()
    w(s.pick([">", "/>"]), "Delimiter")


def html_embed(w, tags=("script", "style", "SCRIPT", "Style")):
    s = w.s
    tag = s.pick(tags)
    w("<", "Delimiter")
    w(tag, "Name.Tag")
    if s.bool():
        xml_attrs(w, ["type", "id"])
    w(">", "Delimiter", "<")
    w(s.pick(["", "\n"]))
    if tag.lower() == "script":
        for _ in range(s.int(0, 2)):
            js_stmt(w, 1)
    else:
        for _ in range(s.int(0, 2)):
            css_rule(w, 1)
        if s.one_in(4):     # an unfinished one ends where the style ends
            k = s.int(0, 2)
            if k == 0:
                w("h1", "Name.Tag")
            else:
                w("@", "Keyword")
                w(s.pick(["import", "media", "page"]), "Keyword")
                w(" ")
                css_string(w) if k == 1 else w("x", "Name.Symbol")
            w(s.pick(["", "\n"]))
    w("</", "Delimiter")
    w(s.pick([tag, tag.lower()]) if tag != tag.lower() else tag, "Name.Tag")
    w(">", "Delimiter", ">")


def html_styled(w):
    s = w.s
    w("<", "Delimiter")
    w("p", "Name.Tag")
    w(" ")
    w("style", "Name.Attribute")
    w.osp()
    w("=", "Operator")
    w.osp()
    w('"', "String")
    for _ in range(s.int(0, 2)):
        css_decl(w, quote="'", comments=False)
        w.osp()
    w('"', "String")
    w(">", "Delimiter", "<")
    xml_text(w)
    w("</", "Delimiter")
    w("p", "Name.Tag")
    w(">", "Delimiter", ">")


def html_misc(w):
    k = w.s.int(0, 7)
    if k <= 1:
        html_void(w)
    elif k == 6:
        # a closing tag of an element without contents closes nothing
        w("</", "Delimiter")
        w(w.s.pick(["br", "BR", "hr"]), "Name.Tag")
        w.osp()
        w(">", "Delimiter")
    elif k == 7:
        w("<", "Delimiter")
        w(w.s.pick(["script", "style"]), "Name.Tag")
        if w.s.bool():
            xml_attrs(w, ["src"])
        w("/>", "Delimiter")
    elif k == 2:
        html_embed(w)
    elif k == 3:
        html_styled(w)
    else:
        xml_comment(w)


def html(w):
    s = w.s
    if s.bool():
        w("<!", "Delimiter")
        w(s.pick(["DOCTYPE", "doctype"]), "Keyword")
        w(" ")
        w("html", "Name.Tag.Definition")
        w(">", "Delimiter")
        w("\n")
    xml_element(w, 3, HTML_NAMES, html_misc)
    w("\n")


def xhtml_misc(w):
    k = w.s.int(0, 4)
    if k == 0:
        html_embed(w, ("script", "style"))
    elif k == 4:
        w("<", "Delimiter")
        w(w.s.pick(["script", "style"]), "Name.Tag")
        xml_attrs(w, ["src", "id"])
        w("/>", "Delimiter")
    elif k == 1:
        html_styled(w)
    else:
        xml_misc(w)


def xhtml(w):
    xml_element(w, 3, HTML_NAMES, xhtml_misc)
    w("\n")


# ----------------------------------------------------------------- Css
CSS_PROPS = ["color", "font-size", "margin", "x-custom", "background", "border-left"]
CSS_ESC = ["\\41 ", "\\'", "\\\\", "\\26 ", "\\0a0b0c ", "\\z", "\\aBcDeF ", "\\F ", "\\\n"]


def css_string(w, quote=None):
    q = quote or w.s.pick(["'", '"'])
    other = ('"',) if quote else ()
    w(q, "String")
    w.body((q, "\\", "\n", "</") + other, CSS_ESC if quote else CSS_ESC + ["\\\""])
    w(q, "String")


def css_value(w, depth=1, quote=None):
    s = w.s
    k = s.int(0, 5 if depth else 3)
    if k == 0:
        w(s.pick(["", "", "+", "-"]) + real(s), "Number")
        u = s.pick(["", "px", "em", "%", "rem"])
        w(u, "Operator.Percent" if u == "%" else "Name.Unit")
    elif k == 1:
        w(s.pick([hexesc(s, "#", s.pick([3, 4, 6, 8])), "red", "transparent", "aliceblue", "darkslategray"]), "Literal.Color")
    elif k == 2:
        w(s.pick(["bold", "inherit", "x-y", "-moz-x", "redder", "solid"]), "Name.Symbol")
    elif k == 3:
        css_string(w, quote)
    elif k == 4:
        w("url", "Name")
        w("(", "Delimiter", "" if quote else "<")
        if s.bool():
            css_string(w, quote)
        else:
            pad = s.pick(["", "", "", " ", "\n "])
            w(pad)
            w(s.pick(["x.png", "../a/b.css", "http://x.org/#a", "data:x;y,z"]), "*Literal.Url")
            if s.one_in(3):
                w(s.pick(["\\)", "\\28 ", "\\'", "\\\\"]), "Escape")
                w("b.png", "*Literal.Url")
            w(pad)
        w(")", "Delimiter", "" if quote else ">")
    else:
        w(s.pick(["calc", "rgb", "x-fn"]), "Name.Symbol")
        w("(", "Delimiter", "" if quote else "<")
        for i in range(s.int(0, 3)):
            if i and s.bool():
                w(",", "Delimiter")
                w.osp()
            elif i:
                w(" ")
                w(s.pick("+-*/"), "Operator")
                w(" ")
            if s.one_in(5):
                w("(", "Delimiter", "" if quote else "<")
                css_value(w, 0, quote)
                w(" ")
                w("*", "Operator")
                w(" ")
                css_value(w, 0, quote)
                w(")", "Delimiter", "" if quote else ">")
            else:
                css_value(w, depth - 1, quote)
        w(")", "Delimiter", "" if quote else ">")


def css_comment(w):
    w.comment("/*", "*/", ("</",))


def css_decl(w, quote=None, comments=True):
    s = w.s
    w(s.pick(CSS_PROPS), "Name.Property")
    w.osp()
    w(":", "Delimiter")
    w.osp()
    for i in range(s.int(1, 2)):
        if i:
            w(" ")
            if comments and s.one_in(4):
                css_comment(w)
                w(" ")
            elif s.one_in(4):
                w("/", "Operator")
                w.osp()
        css_value(w, 1, quote)
    if s.one_in(5):
        w(" ")
        w("!important", "Keyword")
        w(";", "Delimiter")
    else:
        w(";", "Delimiter")


def css_selector(w):
    s = w.s
    for i in range(s.int(1, 3)):
        if i:
            k = s.int(0, 4)
            if k == 0:
                w(" ")
            else:
                w.osp()
                w(*s.pick([(">", "Operator"), ("+", "Operator"), ("~", "Operator"), (",", "Delimiter"), ("||", "Operator")]))
                w.osp()
        w(*s.pick([("p", "Name.Tag"), ("h1", "Name.Tag"), ("*", "Keyword"), ("x-y", "Name.Tag")]))
        for _ in range(s.int(0, 2)):
            k = s.int(0, 4)
            if k == 0:
                w(".", "Keyword")
                w(s.pick(["cls", "a-b", "_x", "é"]), "Name.Class")
            elif k == 1:
                w("#", "Name.Identifier.Definition")
                w(s.pick(["id1", "x-y"]), "Name.Identifier.Definition")
            elif k == 2:
                w("::", "Keyword")
                w("before", "Name.Tag.Pseudo")
            elif k == 3:
                w(":", "Keyword")
                if s.one_in(4):
                    w(s.pick(["is", "where", "not"]), "Name.Class.Pseudo")
                    w("(", "Delimiter", "<")
                    for i in range(s.int(1, 2)):
                        if i:
                            w(",", "Delimiter")
                            w.osp()
                        w("b", "Name.Tag")
                        if s.bool():
                            w(".", "Keyword")
                            w("cls", "Name.Class")
                    w(")", "Delimiter", ">")
                else:
                    w(s.pick(["hover", "first-child"]), "Name.Class.Pseudo")
            else:
                w("[", "Delimiter")
                w(s.pick(["href", "data-x"]), "Name.Attribute")
                if s.bool():
                    w(s.pick(["", "", " ", "  "]))
                    w(s.pick(["=", "~=", "^=", "$=", "*=", "|="]), "Operator")
                    if s.bool():
                        css_string(w)
                    else:
                        w("ident", "Name.Symbol")
                w("]", "Delimiter")


def css_rule(w, depth=2):
    s = w.s
    k = s.int(0, 5 if depth > 0 else 3)
    if k == 0:
        css_comment(w)
    elif k <= 3:
        css_selector(w)
        w.osp()
        w("{", "Bracket", "<")
        for _ in range(s.int(0, 3)):
            w(s.pick(["\n", " ", ""]))
            if s.one_in(5):
                css_comment(w)
            else:
                css_decl(w)
        w.osp()
        w("}", "Bracket", ">")
    elif k == 4:
        w("@", "Keyword")
        w(s.pick(["media", "media", "supports", "document"]), "Keyword")
        w(" ")
        w(s.pick(["screen", "print"]), "Name.Symbol")
        for _ in range(s.int(0, 2)):
            if s.one_in(3):
                w(",", "Delimiter")
                w.osp()
                w("print", "Name.Symbol")
            else:
                w(" ")
                w(s.pick(["and", "or"]), "Name.Symbol")
                w(" ")
                css_value(w, 1)
        w.osp()
        if s.one_in(8):     # not useful, but it ends here
            w(";", "Delimiter")
            w(s.pick(["\n", "", " "]))
            return
        w("{", "Bracket", "<")
        for _ in range(s.int(0, 2)):
            w("\n")
            css_rule(w, depth - 1)
        w("}", "Bracket", ">")
    else:
        if s.bool():
            w("@", "Keyword")
            w(s.pick(["import", "charset"]), "Keyword")
            w(" ")
            css_string(w)
            w(";", "Delimiter")
        else:
            w("@", "Keyword")
            w("font-face", "Keyword")
            w(" ")
            w("{", "Bracket", "<")
            css_decl(w)
            w("}", "Bracket", ">")
    w(s.pick(["\n", "", " "]))


def css(w):
    for _ in range(w.s.int(1, 4)):
        css_rule(w)


# ---------------------------------------------------------------- Bash
BASH_WORDS = ["abc", "x1", "a.b", "/usr/bin/x", "é", "12", "a#b", "a=b", "+x", "x:y", "file_1", "fi"]


def bash_dq(w, depth):
    s = w.s
    w(s.pick(["", "", "$"]) + '"', "String")
    for _ in range(s.int(0, 3)):
        w.body(('"', "\\", "$", "`"), ["\\\"", "\\\\", "\\$", "\\`", "\\\n"], maxparts=2, extra=["\n"])
        if s.bool():
            bash_sub(w, depth)
            w(" ", "String")
    w('"', "String")


def bash_sub(w, depth):
    s = w.s
    k = s.int(0, 4 if depth > 0 else 2)
    if k == 0:
        w(s.pick(["$x", "$HOME", "$_a1", "$Ab9"] + ["$" + c for c in "*@#?$!-0123456789"]), "Name.Variable")
    elif k == 1:
        w("${", "Name.Variable")
        if s.one_in(3):
            w(s.pick("!#"), "Delimiter.ModeChange")
        w(s.pick(["var", "x", "A_1"]), "Name.Variable")
        if s.one_in(3):
            w("[", "Delimiter.Bracket", "<")
            w(*s.pick([("@", "Character.Special"), ("*", "Character.Special"), ("12", "Number"), ("i", "Name.Variable"), ("$i", "Name.Variable")]))
            w("]", "Delimiter.Bracket", ">")
        w("}", "Name.Variable")
    elif k == 2:
        w("${", "Name.Variable")
        if s.one_in(4):
            w(s.pick("@*"), "Delimiter.ModeChange")
        else:
            w("v", "Name.Variable")
        w(s.pick([":-", ":=", "##", "%%", "%", "#", ":+", ":?", "^", "^^", ",", ",,", ":"]), "Delimiter.ModeChange")
        w(*s.pick([("x", "Name.Variable"), ("*.c", "Text"), ("12", "Number")]))
        w("}", "Name.Variable")
    elif k == 3:
        w("$", "Name.Variable")
        w("(", "Delimiter", "<")
        bash_command(w, depth - 1)
        w(")", "Delimiter", ">")
    else:
        w("$", "Name.Variable")
        w("((", "Delimiter", "<")
        bash_arith(w)
        w("))", "Delimiter", ">")


def bash_arith(w):
    s = w.s
    for i in range(s.int(1, 3)):
        if i:
            w.osp()
            w(*s.pick([(o, "=Operator") for o in ["+", "-", "*", "/", "%", "<<", ">>", ">=", "<=", "==", "!=", "&&", "||", "&", "|", "^", "**",
                                                  "<", ">", "?", ":"]] +
                      [(o, "Operator.Assignment") for o in ["*=", "/=", "%=", "+=", "&=", "-=", "|=", "<<=", ">>="]] + [(",", "Delimiter.Separator")]))
            w.osp()
        if s.one_in(5):
            w(s.pick(["~", "!"]), "=Operator")
        w(*s.pick([("12", "Number"), ("0x1f", "Number.Hexadecimal"), ("0XAF", "Number.Hexadecimal"), ("017", "Number.Octal"), ("x", "Name.Variable"),
                   ("2#101", "Number"), ("64#a@_Z", "Number"), ("$x", "Name.Variable")]))


def bash_word(w, depth, strings=True):
    s = w.s
    k = s.int(0, 9 if depth > 0 else 4)
    if k == 0:
        w(s.pick(BASH_WORDS), "Text")
        if s.one_in(4):
            # a string or expansion inside a word does not end the word
            (bash_sub if s.bool() else bash_dq)(w, 0)
            if s.bool():
                w(s.pick(["/x", ".c", ":y"]), "Text")
    elif k == 1:
        w(s.pick(["-f", "--long-opt", "-x1"]), "Name.Property")
    elif k == 2:
        w("'", "String")
        w.body(("'",), (), extra=["\\", "\n", "$x"])
        w("'", "String")
    elif k == 3:
        w("$'", "String")
        w.body(("'", "\\"), ["\\" + c for c in "abeEfnrtv\\\"'?"] + ["\\x4A", "\\xfe", "\\u00eF", "\\U0001f60A", "\\101", "\\cx"])
        w("'", "String")
    elif k == 4:
        w(s.pick(["\\$", "\\\"", "\\'", "\\ ", "\\#", "\\`"]), "Escape")
        w("x", "Text")
    elif k == 5 or k == 8:
        bash_dq(w, depth)
    elif k == 6:
        bash_sub(w, depth)
    elif k == 9:
        w(s.pick(["*.c", "a?b", "[a-z]x", "x*", "??"]), "Text.Template")
    else:
        w(s.pick(["{a,b}", "{1..3}", "{a..f}", "{10..20..2}", "pre{a,b,c}post", "x{,.bak}", "{a,}", "a.{c,h}"]), "Text.Preprocessed")


def bash_command(w, depth):
    """A command with arguments, without anything behind it."""
    s = w.s
    n = s.int(0, 3) if depth else 0
    w(*s.pick([("echo", "Name.Builtin" if n else "Name"), ("mycmd", "Name.Command"), ("./run.sh", "Name.Command"), ("cat", "Name.Command"),
               ("printf", "Name.Builtin" if n else "Name"), ("grep", "Name.Command")]))
    if not depth:
        return
    for _ in range(n):
        w(s.pick([" ", "  "]))
        if s.one_in(8):
            w("\\\n", "Whitespace.Escape")
            w(s.pick(["", "  "]))
        bash_word(w, depth)
    if s.one_in(5):
        w(" ")
        w("`", "Delimiter", "<")
        w("date", "Name.Command")
        if s.bool():
            w(" ")
            w("-u", "Name.Property")
        w("`", "Delimiter", ">")
    if s.one_in(6):
        w(" ")
        w("2", "*Name.Identifier")
        w(">&", "Delimiter.Direction")
        w(s.pick(["1", "1-", "-"]), "*Name.Identifier")
    elif s.one_in(5):
        w(" ")
        w(s.pick([">", ">>", "<", "&>", "&>>", ">&"]), "Delimiter.Direction")
        w(" ")
        w(s.pick(["file", "/dev/null"]), "Text")
    elif s.one_in(6):
        w(" ")
        w("<<<", "Delimiter.Direction")
        w.osp()
        if s.bool():
            w("abc", "Verbatim")
        else:
            bash_dq(w, 0)


def bash_line(w, depth=2):
    s = w.s
    k = s.int(0, 13)
    if k == 0:
        w.comment("#", "")
        return
    elif k == 1:
        w(s.pick(["x", "PATH", "a_1"]), "Name.Variable.Definition")
        w("=", "Operator.Assignment")
        j = s.int(0, 4)
        if j == 0:
            w(s.pick(["12", "0x1f", "017"]), "Number")
        elif j == 1:
            w("abc", "Verbatim")
        elif j == 2:
            bash_dq(w, depth)
        elif j == 3:
            bash_sub(w, depth)
    elif k == 2:
        bash_command(w, depth)
        w(" ")
        w(s.pick(["|", "||", "&&"]), "Delimiter.Connection")
        w(" ")
        if s.one_in(6):
            w("\\\n", "Whitespace.Escape")
        bash_command(w, depth)
    elif k == 3:
        w(s.pick(["if", "while", "until"]), "Keyword")
        w(" ")
        w("[", "Bracket", "<")
        w(" ")
        w(s.pick(["-f", "-n"]), "Name.Property")
        w(" ")
        bash_dq(w, 1)
        w(" ")
        w("]", "Bracket", ">")
        w(";", "Delimiter")
        w(" ")
        w("then", "Keyword")
        w("\n")
        bash_line(w, depth - 1) if depth > 0 else w("\n")
        w("fi", "Keyword")
    elif k == 4:
        w("cat", "Name.Command")
        w(" ")
        dash = s.one_in(3)
        w("<<-" if dash else "<<", "Delimiter.Direction")
        q = s.pick(["", "'", '"'])
        tag = s.pick(["EOF", "END", "x1"])
        if q:
            w(q + tag + q, "String")
        else:
            w(tag, "Text")
        w("\n")
        for _ in range(s.int(0, 3)):
            w("\t" if dash else "", "Verbatim")
            w.body(("\n",) + (() if q else ("$", "`", "\\")), (), "Verbatim", 2, extra=[tag + "x", " " + tag, "\\"] if q else [tag + "x"])
            if not q and s.one_in(3):
                w("x ", "Verbatim")
                bash_sub(w, 0)
            w("!\n", "Verbatim")
        w("\t" if dash and s.bool() else "", "")
        w(tag, "*Name.Identifier")
    elif k == 5:
        w("(", "Delimiter", "<")
        bash_command(w, depth - 1 if depth > 0 else 0)
        w(")", "Delimiter", ">")
    elif k == 6:
        w("{", "Bracket", "<")
        w(" ")
        bash_command(w, depth - 1 if depth > 0 else 0)
        w(";", "Delimiter")
        w(" ")
        w("}", "Bracket", ">")
    elif k == 9:
        w(s.pick(["local", "export"]), "Name.Builtin")
        w.sp()
        w(s.pick(["x", "PATH"]), "Name.Variable.Definition")
        if s.bool():
            w("=", "Operator.Assignment")
            bash_dq(w, 1) if s.bool() else w("12", "Number")
    elif k == 10:
        w("let", "Name.Builtin")
        w(" ")
        w("x", "Name.Variable.Definition")
        w("=", "Operator.Assignment")
        bash_arith(w)
    elif k == 11:
        w("[[", "Bracket", "<")
        w(" ")
        bash_dq(w, 1)
        w(" ")
        w(s.pick(["==", "!=", "<", ">"]), "=Operator")
        w(" ")
        w("$x", "Name.Variable")
        w(" ")
        w("]]", "Bracket", ">")
    elif k == 12:
        w(s.pick(["foo", "my_func", "a-b"]), "Name.Function.Definition")
        w("()", "Bracket")
        w(" ")
        w("{", "Bracket", "<")
        w("\n")
        w(s.pick(["", "  ", "\t"]))
        bash_command(w, depth - 1 if depth > 0 else 0)
        w("\n")
        w("}", "Bracket", ">")
    elif k == 13:
        kw, lab, lab2 = s.pick([(".", "Keyword", "Text"), ("exec", "Name.Builtin", "Name.Command")])
        w(kw, lab)
        w(" ")
        w(s.pick(["./lib.sh", "/etc/rc"]), lab2)
    else:
        bash_command(w, depth)
    if s.one_in(4) and k > 1 and k not in (3, 4, 5, 6, 9, 10, 11, 12):
        w(" ")
        w.comment("#", "")
    elif s.one_in(4) and k in (2, 7, 8):
        w(";", "Delimiter")
        w(" ")
    else:
        w("\n")


def bash(w):
    s = w.s
    if s.one_in(4):
        w("#!/bin/bash", "Comment.Special")
        w("\n")
    for _ in range(s.int(1, 4)):
        bash_line(w)


# -------------------------------------------------------------- Scheme
def scheme_comment(w):
    if w.s.bool():
        w.comment(";", "")
    else:
        w.comment("#!", "!#")


def scheme_string(w):
    w('"', "String")
    w.body(('"', "\\"), ["\\" + c for c in "\\\"|afnrtvb"], extra=["\n"])
    w('"', "String")


def scheme_number(w):
    """A number, in one of the notations of R5RS."""
    s = w.s
    radix, chars = s.pick([("", None), ("", None), ("#d", None), ("#D", None), ("#x", HEX), ("#X", HEX), ("#b", "01"), ("#B", "01"),
                           ("#o", "01234567"), ("#O", "01234567")])
    prefix = [radix, s.pick(["", "", "#e", "#i", "#E", "#I"])]
    if s.bool():
        prefix.reverse()

    def ureal():
        k = s.int(0, 3)
        if chars:
            t = digits(s, chars)
        elif k == 1:
            t = s.pick([digits(s) + "." + digits(s), "." + digits(s), digits(s) + "." + "#" * s.int(0, 2)])
        else:
            t = digits(s) + "#" * s.pick([0, 0, 1, 2])
        if k == 2:
            t += "/" + digits(s, chars or "0123456789")
        elif k != 2 and not chars and s.one_in(4):
            t += s.pick("esfdlESFDL") + s.pick(["", "+", "-"]) + digits(s)
        return t
    k = s.int(0, 6)
    if k == 0:
        t = s.pick("+-") + s.pick(["inf.0", "nan.0"])
        if s.one_in(3):
            t += s.pick("+-") + s.pick(["inf.0", "nan.0"]) + "i"
        prefix = ["", ""]
    elif k == 1:
        t = s.pick(["", "+", "-"]) + ureal() + s.pick("+-") + s.pick(["", ureal()]) + "i"
    elif k == 2:
        t = s.pick(["", "+", "-"]) + ureal() + "@" + s.pick(["", "+", "-"]) + ureal()
    else:
        t = s.pick(["", "+", "-"]) + ureal()
    w("".join(prefix) + t, "*Number|Operator.Sign|Separator")


def scheme_expr(w, depth, comments=True):
    s = w.s
    k = s.int(0, 8 if depth > 0 else 4)
    if k == 0:
        w(s.pick(["x", "foo-bar", "list?", "set-x!", "->y", "+", "...", "<=", "été", "definer", "a.b"][0:4] + ["+", "...", "<=", "été"]),
          "Name|Keyword")
        if comments and s.one_in(8):
            w.comment(";", "")
    elif k == 1:
        scheme_number(w)
    elif k == 2:
        scheme_string(w)
    elif k == 3:
        w(s.pick(["#t", "#f", "#T"]), "Number.Boolean")
    elif k == 4:
        w(s.pick(["#\\a", "#\\space", "#\\(", "#\\;", "#\\\"", "#\\newline"]), "Character")
    elif k in (5, 6, 7):
        w(s.pick(["", "", "'", "`", ",", ",@"]), "Delimiter.Scheme.Quote")
        if s.one_in(4):
            w("#(", "Delimiter.OpenVector", "<")
            close = "Delimiter.CloseVector"
        else:
            w("(", "Delimiter.OpenParen", "<")
            close = "Delimiter.CloseParen"
            if s.bool():
                w(s.pick(["define", "let", "if", "lambda", "begin", "quote"]), "Keyword")
                w(" ")
        n = s.int(0, 3)
        for i in range(n):
            if i:
                w(s.pick([" ", "\n "]))
            if comments and s.one_in(6):
                scheme_comment(w)
                w(" ")
            scheme_expr(w, depth - 1, comments)
        if n and s.one_in(6):
            w(" ")
            w(".", "Delimiter")
            w(" ")
            w("x", "Name")
        w(")", close, ">")
    else:
        w("'", "Delimiter.Scheme.Quote")
        w("sym", "Name")


def scheme(w):
    s = w.s
    for _ in range(s.int(1, 4)):
        if s.one_in(4):
            scheme_comment(w)
            w("\n")
        else:
            scheme_expr(w, 3)
            w(s.pick(["\n", " "]))


# --------------------------------------------------------------- Latex
LATEX_TEXT = ["abc", "a b", "12.", "(x)", "[y]", "it's", "é", "#1", "\"q\"", "x/y", "@", "\n\n", "- "]


def latex_text(w):
    w("".join(w.s.list(lambda s: s.pick(LATEX_TEXT), 1, 3)) + "z", "Text")


def latex_math(w):
    s = w.s
    for i in range(s.int(1, 4)):
        k = s.int(0, 4)
        if k == 0:
            w(s.pick(["x", "AbC"]), "Name.Variable")
            w(s.pick("-+=<>/:!'"), "Operator")
        elif k == 1:
            w(digits(s) + s.pick(["", "." + digits(s)]), "Number")
            w(*s.pick([("=", "Operator"), ("|", "Delimiter"), ("[", "Delimiter"), (")", "Delimiter"), ("^", "Character.Special"),
                       ("&", "Character.Special")]))
        elif k == 2:
            w(s.pick(["\\alpha", "\\frac"]), "Name.Function")
            w("<", "Operator")
        elif k == 3:
            w("{", "Delimiter", "<")
            w("y", "Name.Variable")
            w("}", "Delimiter", ">")
        else:
            w("\\%", "Escape")


def latex_item(w, depth, last=""):
    s = w.s
    k = s.int(0, 8 if depth > 0 else 4)
    if k == 0:
        if last != "text":
            latex_text(w)
        return "text"
    elif k == 1:
        w(s.pick(["\\item", "\\LaTeX", "\\section", "\\beginning", "\\ends", "\\foo"]), "Name.Command")
        if s.one_in(3):
            w("[", "Delimiter", "<")
            w("opt", "Pseudo")
            if s.one_in(3):
                w("][", "*Delimiter")
                w("2", "Pseudo")
            w("]", "Delimiter", ">")
        if depth and s.bool():
            w("{", "Delimiter", "<")
            latex_item(w, depth - 1)
            w("}", "Delimiter", ">")
        else:
            w("{", "Delimiter")
            w("}", "Delimiter")
    elif k == 2:
        w(s.pick(["\\%", "\\$", "\\{", "\\}", "\\&", "\\_", "\\#", "\\'{e}", "\\\"{o}", "\\ "] +
                 ["{\\" + s.pick("oe OE ae AE aa AA o O l L ss SS".split()) + "}", s.pick("!?") + "'",
                  "\\" + s.pick("`'^\"~=.uvHtcdbr") + "{" + s.pick(["e", "ab", "Z", "\\i", "\\j"]) + "}"]), "Escape")
        if s.one_in(4):
            w("\\" + s.pick("`'^\"~=.") + s.pick(["e", "ab", "Z", "\\i", "\\j"]), "Escape")
            w(" 1", "Text")
            return "text"
        if s.one_in(3):
            w(s.pick("&_^~"), "Character.Special")
    elif k == 3:
        w.comment("%", "")
    elif k == 4:
        w("\\\\", "Delimiter.Terminator")
        w(" ", "Text")
        return "text"
    elif k == 5:
        a, b = s.pick([("$", "$"), ("$$", "$$"), ("\\[", "\\]"), ("\\(", "\\)")])
        w(a, "Delimiter", "<")
        latex_math(w)
        w(b, "Delimiter", ">")
    elif k == 6:
        env = s.pick(["document", "itemize", "x*"])
        w("\\begin", "Name.Builtin")
        w("{", "Delimiter")
        w(env, "Name.Tag")
        w("}", "Delimiter", "<")
        last = ""
        for _ in range(s.int(0, 3)):
            last = latex_item(w, depth - 1, last)
        w("\\end", "Name.Builtin", ">")
        w("{", "Delimiter")
        w(env, "Name.Tag")
        w("}", "Delimiter")
    elif k == 7:
        w("\\begin", "Name.Builtin")
        if s.one_in(4):
            w("[", "Delimiter.Bracket")
            w("opt", "Pseudo")
            w("]", "Delimiter.Bracket")
        w("{", "Delimiter")
        env = s.pick(["math", "displaymath", "equation", "eqnarray", "eqnarray*"])
        w(env, "Name.Tag")
        w("}", "Delimiter", "<")
        latex_math(w)
        w("\\end", "Name.Builtin", ">")
        w("{", "Delimiter")
        w(env, "Name.Tag")
        w("}", "Delimiter")
    else:
        w("{", "Delimiter", "<")
        last = ""
        for _ in range(s.int(0, 2)):
            last = latex_item(w, depth - 1, last)
        w("}", "Delimiter", ">")
    return ""


def latex(w):
    last = ""
    for _ in range(w.s.int(1, 5)):
        last = latex_item(w, 2, last)
    w("\n", "Text" if last else "")


# ------------------------------------------------------------- Texinfo
def texinfo_text(w, last):
    if last != "text":
        w("".join(w.s.list(lambda s: s.pick(["abc", "a b\n", "12", "\"q\"", "it's", "%", "#", "[", "]", "<a>", "\\n", "é"]), 1, 3)) + "z", "Text")
    return "text"


def texinfo_item(w, depth, last=""):
    s = w.s
    k = s.int(0, 6 if depth > 1 else 3 if depth else 2)
    if k == 0:
        return texinfo_text(w, last)
    elif k == 1:
        w(s.pick(["@@", "@{", "@}", "@.", "@ ", "@" + s.pick("'\",=^`~") + "{" + s.pick("eA") + "}"]), "Escape")
        if s.one_in(4):
            w("@" + s.pick("'\",=^`~") + s.pick("eA"), "Escape")
            w(" 1", "Text")
            return "text"
    elif k == 2:
        w("@dots", "Name.Symbol")
        w("{", "Bracket")
        w("}", "Bracket")
    elif k == 3:
        w(s.pick(["@code", "@var", "@emph", "@verb", "@cite", "@TeX", "@LaTeX"]), "Name.Function")
        w("{", "Bracket", "<")
        texinfo_text(w, "")
        if depth > 1 and s.bool():
            texinfo_item(w, 1, "text")
        w("}", "Bracket", ">")
    elif k == 4:
        w.comment(s.pick(["@c ", "@comment "]), "")
    elif k == 5:
        if s.bool():
            w("@verbatim", "Keyword.Verbatim", "<")
            w("\n", "Verbatim")
            w.body((), (), "Verbatim", 3, extra=["@code{", "\n", "@end ", "@endverbatim", "@end verbatims"])
            w("\n", "Verbatim")
            w("@end", "Keyword", ">")
            w(s.pick([" ", "\t", "  "]))
            w("verbatim", "Keyword")
            w("\n", "Text")
            return "text"
        else:
            t = w.comment_words(("@end",), True)
            w("@ignore\n" + t + s.pick(["", "", "@end ignored", "@endignore"]) + "\n@end" + s.pick([" ", "\t", "  "]) + "ignore", "Comment")
            w("\n", "Text")
            return "text"
    else:
        w(s.pick(["@chapter", "@section", "@itemize", "@ignored", "@cindex", "@verbatiminclude"]), "Name.Command")
        w(" Title\n", "Text")
        return "text"
    return ""


def texinfo(w):
    s = w.s
    last = ""
    for _ in range(s.int(1, 5)):
        last = texinfo_item(w, 2, last)
    if s.one_in(4):
        if last != "text":
            w("\n", "")
        w("@lilypond", "Name.Function")
        if s.bool():
            w("[", "Bracket")
            w("quote,ragged-right", "Name.Property")
            w("]", "Bracket")
        if s.bool():
            w("{", "Bracket", "<")
            ly_list(w, 1)
            w("}", "Bracket", ">")
        else:
            w("\n")
            ly_list(w, 1)
            w("\n")
            w("@end", "Keyword")
            w(s.pick([" ", "\t", "  "]))
            w("lilypond", "Name.Function")
        last = ""
    if s.one_in(3):
        if last != "text":
            w("\n", "")
        w("@html", "Keyword", "<")
        last = ""
        w("\n")
        xml_element(w, 1, HTML_NAMES, html_void)
        w("\n")
        w("@end", "Keyword", ">")
        w(s.pick([" ", "\t", "  "]))
        w("html", "Keyword")
    w("\n", "Text")


# --------------------------------------------------------------- Troff
TROFF_ESC = ["\\-", "\\(bu", "\\[em]", "\\fB", "\\fR", "\\*[x]", "\\&", "\\e", "\\s+2", "\\n(xx", "\\l'3i'", "\\f[CW]"]


def troff_escapes(s):
    return TROFF_ESC + ["\\" + s.pick("\\'`_.%! 0|^&)/,~:{}acdeEprtu-"), "\\" + s.pick("*$fFgkmMnVY") + s.pick(["[ab]", "(ab", "x", "[]"]),
                        "\\s" + s.pick(["", "-", "+"]) + s.pick(["3", "(12", "(+12", "(-34", "[12]", "[+3]", "'-4'", "'12'"]),
                        "\\" + s.pick("AbBCDlLoRSvwxXZ") + "'" + s.pick(["", "ab", "3.5i"]) + "'"]


def troff(w):
    s = w.s
    for _ in range(s.int(1, 5)):
        k = s.int(0, 5)
        if k == 5:
            w(".", "Delimiter.Request")
            w("lilypond", "*Name.Identifier")
            w(" ")
            w("start", "Name.Command")
            w("\n")
            ly_list(w, 1)
            w("\n")
            w(".", "Delimiter.Request")
            w("lilypond", "*Name.Identifier")
            w(" ")
            w("end", "Name.Command")
            w("\n")
        elif k <= 1:
            for _ in range(s.int(1, 3)):
                w(s.pick(["abc", "a b", "12", "\"q\"", "it's", "x.", "#", "%", "é", "{"]), "Text")
                if s.bool():
                    w(s.pick(troff_escapes(s)), "Text.Escape")
            w("z", "Text")
            w("\n")
            # the newline belongs to the text
            w.out[-2][0] += w.out.pop()[0]
        elif k == 2:
            w(s.pick([".", "'"]), "Delimiter.Request")
            w(s.pick(["", " "]))
            w.comment("\\\"", "", ("\\",))
        else:
            w(s.pick([".", "'"]), "Delimiter.Request")
            w(s.pick(["", "  "]))
            w(s.pick(["SH", "br", "TH", "B", "lilypondx"]), "*Name.Identifier")
            for _ in range(s.int(0, 2)):
                if s.bool():
                    w(" ")
                    w('"', "String")
                    w.body(('"', "\\"), troff_escapes(s), "String", 3)
                    w('"', "String")
                elif s.bool():
                    w(" ", "Text")
                    w(s.pick(["", "", "+", "-"]) + s.pick([digits(s), digits(s) + "." + s.pick(["", digits(s)])]), "Number")
                    w(s.pick(["", "c", "i", "P", "p", "m", "M", "n", "u", "v", "s", "f"]), "Name.Unit")
                    if s.bool():
                        w(s.pick("-+*/%=<>&:!()"), "Operator")
                        w("." + digits(s), "Number")
                        w(s.pick(["", "p"]), "Name.Unit")
                else:
                    w(" NAME", "Text")
            if s.one_in(4):
                w(" ", "Text")
                w.comment("\\\"", "", ("\\",))
            else:
                w("\n")


# ---------------------------------------------------------- Json, Csv
def json_string(w):
    w('"', "String")
    w.body(('"', "\\"), ["\\" + c for c in "n\"\\/bfrt"] + [hexesc(w.s, "\\u", 4)])
    w('"', "String")


def json_value(w, depth, low=0):
    s = w.s
    k = s.int(low, 4 if depth else 2)
    if k == 0:
        w(s.pick(["", "-"]) + s.pick(["0", "0.5", "0e1", real(s, leading_dot=False, nonzero=True)]), "Number")
    elif k == 1:
        json_string(w)
    elif k == 2:
        w(s.pick(["true", "false", "null"]), "Name.Constant")
    elif k == 3:
        w("[", "Delimiter", "<")
        for i in range(s.int(0, 3)):
            if i:
                w(",", "Delimiter")
            w(s.pick(["", " ", "\n"]))
            json_value(w, depth - 1)
            w.osp()
        w("]", "Delimiter", ">")
    else:
        n = s.int(0, 3)
        w("{", "Delimiter", "" if n else "<")
        for i in range(n):
            if i:
                w(",", "Delimiter")
            w(s.pick(["", " ", "\n"]))
            json_string(w)
            w.osp()
            w(":", "Delimiter")
            w.osp()
            json_value(w, depth - 1)
            w.osp()
        w("}", "Delimiter", "" if n else ">")


def json_(w):
    json_value(w, 3, w.s.pick([3, 3, 3, 0]))
    w("\n")


def csv(w):
    s = w.s
    for _ in range(s.int(1, 4)):
        for i in range(s.int(1, 4)):
            if i:
                w(",", "Separator")
            k = s.int(0, 3)
            if k == 3:
                w(s.pick(["", " ", "\t", "  "]))
                bad = s.one_in(3)
                if bad:
                    w(s.pick(["ab", "a b "]), "!Invalid")
                w('"', "String")
                w("x,y", "String")
                w('"', "String")
                if bad and s.bool():
                    w(s.pick(["", " "]))
                    w("zz", "!Invalid")
                else:
                    w(s.pick(["", " ", "\t", "  "]))
            elif k == 0:
                w(s.pick(["a", "12", "a b", "é", "x;y", "it's", "#", " x"]), "Name")
            elif k == 1:
                w('"', "String")
                w.body(('"',), ['""'], "String", 3, extra=["\n", "\\"])
                w('"', "String")
        w("\n")


# ------------------------------------------------------------ LilyPond
def ly_comment(w):
    if w.s.bool():
        w.comment("% ", "")
    else:
        w.comment("%{", "%}")


def ly_string(w):
    w('"', "String")
    w.body(('"', "\\"), ["\\\"", "\\\\"], extra=["\n"])
    w('"', "String")


def ly_note(w, check=True):
    s = w.s
    w(s.pick(["c", "d", "cis", "bes", "g", "fisis", "aeses", "e", "sol", "re", "cs"]), "=Text.Music.Pitch")
    o = s.pick(["", "'", ",", "''", ",,", "'''", "' '", ", ,"])
    w(o, "=Text.Music.Pitch.Octave")
    a = s.pick(["", "", "!", "?"])
    w(a, "=Text.Music.Pitch.Accidental")
    if check and s.one_in(6):
        w("=" + s.pick(["", "'", ",,", "''"]), "=Text.Music.Pitch.Octave.OctaveCheck")


def ly_duration(w):
    s = w.s
    d = s.pick(["", "4", "8", "16", "\\breve", "1", "2", "32", "64", "128", "\\longa", "\\maxima"])
    w(d, "=Number.Duration")
    if d:
        w(s.pick(["", ".", ".."]), "*Number.Duration.Dot")
        for _ in range(s.int(0, 2) if s.one_in(4) else 0):
            w("*", "=Number.Duration")
            w.osp()
            w(s.pick(["2/3", "2", "11/12"]), "1Number.Duration.Scaling")


def ly_scheme(w):
    s = w.s
    w(s.pick(["#", "#", "$", "#@", "$@"]), "Delimiter.ModeChange")
    k = s.int(0, 3)
    if k == 0:
        w("(", "Delimiter.OpenParen", "<")
        w("foo", "Name")
        for _ in range(s.int(0, 2)):
            w(" ")
            scheme_expr(w, 1)
        if s.one_in(3):
            w(" ")
            w("#{", "Bracket.LilyPond", "<")
            w(" ")
            ly_note(w)
            w(" ")
            w("#}", "Bracket.LilyPond", ">")
        w(")", "Delimiter.CloseParen", ">")
    elif k == 1:
        w("#t", "Number.Boolean")
    elif k == 2:
        scheme_string(w)
    else:
        w("12", "Number")


def ly_music(w, depth):
    """One musical item in a music list."""
    s = w.s
    k = s.int(0, 13 if depth > 0 else 5)
    if k <= 2:
        ly_note(w)
        ly_duration(w)
        if s.one_in(6):
            w(":", "Delimiter.Tremolo")
            w(s.pick(["", "8", "16", "32", "64", "128", "256", "512", "1024", "2048"]), "Number.Duration.Tremolo")
        if s.one_in(3):
            w(*s.pick([("(", "=Name.Symbol.Spanner.Slur"), (")", "=Name.Symbol.Spanner.Slur"), ("\\(", "=Name.Symbol.Spanner.Slur.Phrasing"),
                       ("\\)", "=Name.Symbol.Spanner.Slur.Phrasing"), ("[", "=Name.Symbol.Spanner.Beam"), ("]", "=Name.Symbol.Spanner.Beam"),
                       ("\\[", "=Name.Symbol.Spanner.Ligature"), ("\\]", "=Name.Symbol.Spanner.Ligature"), ("~", "=Name.Symbol.Spanner.Tie"),
                       ("\\~", "=Name.Symbol.Spanner.PesOrFlexa"), ("\\<", "=Name.Builtin.Dynamic"), ("\\>", "=Name.Builtin.Dynamic"),
                       ("\\!", "=Name.Builtin.Dynamic")]))
        elif s.one_in(8):
            w("\\=", "=Name.Symbol.Spanner.Id")
            w.osp()
            w(*s.pick([("12", "Number"), ("foo", "Name.Symbol")]))
            w(s.pick("()"), "=Name.Symbol.Spanner.Slur")
        if s.one_in(4):
            w(s.pick("-^_"), "Direction")
            j = s.int(0, 4)
            if j <= 1:
                w(s.pick("+|!>._^-"), "Character.Script")
            elif j == 2:
                w(s.pick(["1", "2", "5", "12"]), "1Number.Fingering")
            elif j == 3:
                ly_string(w)
            else:
                ly_markup_args(w)
    elif k == 3:
        ly_comment(w)
    elif k == 4:
        w(*s.pick([("\\clef", "Keyword|Name.Builtin"), ("\\f", "Name.Builtin.Dynamic"), ("\\staccato", "Name.Script.Articulation"),
                   ("\\p", "Name.Builtin.Dynamic"), ("\\myVar", "Name.Variable"), ("r", "Text.Music.Rest"), ("|", "Separator"), ("R", "Text.Music.Rest"),
                   ("s", "Text.Music.Rest"), ("\\trill", "Name.Script.Articulation"), ("\\my-own_var", "Name.Variable"),
                   ("\\major", "Name.Type"), ("\\relative", "Keyword|Name.Builtin"), ("q", "Text.Music.Pitch"), ("\\fis", "Name.Variable"),
                   ("\\clefs", "Name.Variable"), ("\\markup-own", "Name.Variable"), ("\\breve-x", "Name.Variable"), ("\\pp", "Name.Builtin.Dynamic")]))
    elif k == 5:
        w("r", "Text.Music.Rest")
        ly_duration(w)
    elif k == 6:
        w("<", "Delimiter.Chord", "<")
        for i in range(s.int(1, 3)):
            w(" " if i else "")
            ly_note(w)
        w(">", "Delimiter.Chord", ">")
        ly_duration(w)
    elif k == 7:
        ly_list(w, depth)
    elif k == 8:
        ly_markup(w, depth)
    elif k == 9:
        ly_lyrics(w)
    elif k == 10:
        w("\\time", "Keyword|Name.Builtin")
        w(" ")
        w(s.pick(["3/4", "12/8"]), "1Number.Fraction")
    elif k == 11:
        w("\\set", "Keyword|Name.Builtin")
        w(" ")
        if s.bool():
            w(s.pick(["Staff", "Score"]), "Name.Constant.Context")
            w(".", "Separator|Delimiter")
        else:
            w("Stem", "Name.Object.Grob")
            w(".", "Separator|Delimiter")
        w(s.pick(["fooName", "bar-prop"]), "Name")
        w(" ")
        w("=", "Operator.Assignment")
        w(" ")
        ly_string(w) if s.bool() else ly_scheme(w)
    elif k == 12:
        # two voices, or a user variable with a path
        if s.bool():
            w("<<", "Bracket", "<")
            w(" ")
            ly_list(w, depth - 1)
            w(" ")
            w("\\\\", "Separator.VoiceSeparator")
            w(" ")
            ly_list(w, depth - 1)
            w(" ")
            w(">>", "Bracket", ">")
        else:
            if s.one_in(4):
                w("\\", "Name.Variable")
                ly_string(w)
            else:
                w("\\myVar", "Name.Variable")
            if s.one_in(6):
                w(".", "Separator|Delimiter")
                w(*s.pick([("12.34", "1Number"), ("12/34", "1Number"), ("12", "1Number")]))
            else:
                for _ in range(s.int(1, 2)):
                    w(".", "Separator")
                    w(*s.pick([("foo", "Name.Variable"), ("Staff", "Name.Constant.Context"), ("Stem", "Name.Object.Grob")]))
    else:
        ly_markup_args(w)
    w(s.pick([" ", "\n"]))


def ly_markup_args(w):
    """A markup without braces: it ends when the commands in it have their arguments, then there is music again."""
    s = w.s
    w("\\markup", "Keyword.Markup")
    w(" ")
    todo = 1
    steps = 0
    while todo:
        steps += 1
        k = s.int(0, 5) if steps < 5 else 0
        if k <= 1:
            w(s.pick(["abc", "it's", "c'4", "a/b"]), "Text")
            todo -= 1
        elif k == 2:
            ly_string(w)
            todo -= 1
        elif k == 3:
            w(s.pick(["\\bold", "\\italic", "\\center-align"]), "Name.Function")
        elif k == 4:
            w("\\combine", "Name.Function")
            todo += 1
        else:
            w("{", "Bracket.Markup", "<")
            w(" ")
            w("x", "Text")
            w(" ")
            w("}", "Bracket.Markup", ">")
            todo -= 1
        w(" ")
    ly_note(w, False)


def ly_list(w, depth):
    a, b = w.s.pick([("{", "}"), ("<<", ">>")])
    w(a, "Bracket", "<")
    w(" ")
    for _ in range(w.s.int(0, 4)):
        ly_music(w, depth - 1)
    w(b, "Bracket", ">")


def ly_markup(w, depth):
    s = w.s
    w(s.pick(["\\markup", "\\markuplist", "\\markuplines"]), "Keyword.Markup")
    w(" ")
    w("{", "Bracket.Markup", "<")
    for _ in range(s.int(0, 3)):
        w(" ")
        k = s.int(0, 6)
        if k == 0:
            w(s.pick(["abc", "it's", "a/b", "<x>", "é", "12"]), "Text")
        elif k == 1:
            w(s.pick(["\\bold", "\\italic", "\\column"]), "Name.Function")
        elif k == 2:
            ly_string(w)
        elif k == 3:
            ly_comment(w)
        elif k == 5:
            w("\\raise", "Name.Function")
            w(" ")
            ly_scheme(w)
            w(" ")
            ly_string(w)
        elif k == 6 and depth > 0:
            w("\\score", "Name.Function")
            w.osp()
            w("{", "Bracket", "<")
            w(" ")
            ly_list(w, 0)
            w(" ")
            w("}", "Bracket", ">")
        else:
            w("\\bold", "Name.Function")
            w(" ")
            w("{", "Bracket.Markup", "<")
            w(" ")
            w("x", "Text")
            w(" ")
            w("}", "Bracket.Markup", ">")
    w(" ")
    w("}", "Bracket.Markup", ">")


def ly_lyrics(w):
    s = w.s
    if s.bool():
        w(s.pick(["\\lyricmode", "\\lyrics", "\\addlyrics"]), "Keyword.Lyric")
    else:
        w("\\lyricsto", "Keyword.Lyric")
        w(" ")
        if s.bool():
            ly_string(w)
        else:
            w("melody", "Name.Variable")
    w(" ")
    w("{", "Bracket", "<")
    for _ in range(s.int(0, 4)):
        w(" ")
        k = s.int(0, 8)
        if k == 0:
            w(s.pick(["la", "it's", "c", "(x)", "<a>", "é", "la,", "--x", "oh!", "r"]), "Text.Lyric")
            if s.one_in(4):
                w(s.pick(["4", "8", "2"]), "1Number.Duration")
                w(s.pick(["", "."]), "*Number.Duration.Dot")
        elif k == 5:
            w("_", "Delimiter.Lyric.LyricSkip")
        elif k == 6:
            w("la", "=Text.Lyric.LyricText")
            w(*s.pick([("~", "Text.Lyric.LyricText.Tie"), ("_", "Text.Lyric.LyricText.Space")]))
            w("li", "=Text.Lyric.LyricText")
        elif k == 7:
            w("\\set", "Keyword")
            w(" ")
            w("stanza", "Name.Variable")
            w(" ")
            w("=", "Operator.Assignment")
            w(" ")
            ly_string(w)
        elif k == 8:
            w(s.pick(["\\notemode", "\\chordmode"]), "Keyword")
            w(" ")
            w("{", "Bracket", "<")
            w(" ")
            ly_note(w, False)
            w(" ")
            w("}", "Bracket", ">")
        elif k == 1:
            w("--", "Delimiter.Lyric.LyricHyphen")
        elif k == 2:
            w("__", "Delimiter.Lyric.LyricExtender")
        elif k == 3:
            ly_string(w)
        else:
            ly_comment(w)
    w(" ")
    w("}", "Bracket", ">")


def lilypond(w):
    s = w.s
    for _ in range(s.int(1, 4)):
        k = s.int(0, 9)
        if k == 0:
            ly_comment(w)
        elif k == 1:
            w("\\version", "Keyword")
            w(" ")
            ly_string(w)
        elif k == 2:
            w("mymusic", "Name.Variable.Definition")
            w.osp()
            w("=", "Operator.Assignment")
            w(" ")
            ly_list(w, 2)
        elif k == 3:
            book = s.bool()
            if book:
                w(s.pick(["\\book", "\\bookpart"]), "Keyword")
                w.osp()
                w("{", "Bracket", "<")
                w(" ")
            w("\\score", "Keyword")
            w.osp()
            w("{", "Bracket", "<")
            w(" ")
            ly_list(w, 2)
            w(" ")
            if s.bool():
                ly_block(w)
            w("}", "Bracket", ">")
            if book:
                w(s.pick([" ", "\n"]))
                if s.bool():
                    ly_block(w)
                w("}", "Bracket", ">")
        elif k == 4:
            w("\\header", "Keyword")
            w.osp()
            w("{", "Bracket", "<")
            for _ in range(s.int(0, 2)):
                w("\n")
                w(s.pick(["title", "composer", "c", "my-field"]), "Name.Attribute")
                w(" ")
                w("=", "Operator.Assignment")
                w(" ")
                j = s.int(0, 4)
                if j == 0:
                    w(s.pick(["12.5", "0.25", "120.0"]), "1Number")
                elif j == 1:
                    w("3/4", "1Number.Fraction")
                elif j == 2:
                    ly_markup(w, 1)
                elif j == 3:
                    ly_scheme(w)
                else:
                    ly_string(w)
            w("\n")
            w("}", "Bracket", ">")
        elif k == 5:
            w("myfunc", "Name.Variable.Definition")
            w(" ")
            w("=", "Operator.Assignment")
            w(" ")
            ly_scheme(w)
        elif k == 6:
            ly_list(w, 2)
        elif k == 7:
            ly_block(w)
        elif k == 8:
            ly_mode(w)
        else:
            w(s.pick(["\\new", "\\context"]), "Keyword")
            w(" ")
            w(s.pick(["Staff", "Voice", "PianoStaff"]), "Name.Constant.Context")
            w(" ")
            if s.bool():
                w("=", "Operator.Assignment")
                w(" ")
                ly_string(w)
                w(" ")
            if s.one_in(3):
                w("\\with", "Keyword")
                w(" ")
                w("{", "Bracket", "<")
                ly_settings(w, "Name.Variable")
                w("}", "Bracket", ">")
                w(" ")
            ly_list(w, 1)
        w("\n")


def ly_settings(w, label):
    s = w.s
    for _ in range(s.int(0, 2)):
        w("\n")
        k = s.int(0, 3)
        if k == 0:
            w(s.pick(["indent", "short-name"]), label)
            w(" ")
            w("=", "Operator.Assignment")
            w(" ")
            ly_scheme(w)
        elif k == 1:
            ly_comment(w)
        else:
            w("\\override", "Keyword")
            w(" ")
            w(s.pick(["NoteHead", "Stem"]), "Name.Object.Grob")
            w(".", "Separator")
            w("thickness", "Name.Variable")
            w(" ")
            w("=", "Operator.Assignment")
            w(" ")
            ly_scheme(w)
    w("\n")


def ly_block(w):
    s = w.s
    kw = s.pick(["\\paper", "\\layout", "\\midi"])
    w(kw, "Keyword")
    w.osp()
    w("{", "Bracket", "<")
    layout = kw != "\\paper"
    if layout and s.bool():
        w(" ")
        w("\\context", "Keyword")
        w(" ")
        w("{", "Bracket", "<")
        ly_settings(w, "Name.Variable")
        w("}", "Bracket", ">")
    elif not layout:
        w(" ")
        w("indent", "Name.Attribute")
        w(" ")
        w("=", "Operator.Assignment")
        w(" ")
        w("12.5", "Number")
        w("\\cm", "Name.Builtin.Unit")
    w(" ")
    w("}", "Bracket", ">")


def ly_mode(w):
    s = w.s
    k = s.int(0, 4)
    if k == 0:
        w(s.pick(["\\chordmode", "\\chords"]), "Keyword")
        w(" ")
        w("{", "Bracket", "<")
        for _ in range(s.int(0, 3)):
            w(" ")
            w(s.pick(["c", "d", "g"]), "Text.Music.Pitch")
            w(s.pick(["", "4", "2"]), "Number.Duration")
            if s.bool():
                w(":", "Separator")
                m = s.pick(["m", "maj", "dim", "7", "aug", "sus", "min"])
                w(m, "Number" if m == "7" else "Name.Symbol")
                if s.one_in(3):
                    w("13" if m != "7" else "", "1Number")
                    w(s.pick("+-"), "Operator.Alteration")
                    w(".", "Separator")
                    w("9", "Number")
                if s.one_in(3):
                    w("^", "Separator")
                    w("3", "Number")
            if s.one_in(3):
                w(s.pick(["/", "/+"]), "1Separator")
                w(s.pick(["e", "ré", "bes"]), "Name.Pitch")
    elif k == 1:
        w(s.pick(["\\drummode", "\\drums"]), "Keyword")
        w(" ")
        if s.one_in(4):
            w(s.pick(["\\sequential", "\\simultaneous"]), "Keyword")
            w.osp()
        w("{", "Bracket", "<")
        for _ in range(s.int(0, 3)):
            w(" ")
            w(s.pick(["bd", "sn", "hihat"]), "Text.Music.Pitch.Drum")
            ly_duration(w)
    elif k == 2:
        w(s.pick(["\\figuremode", "\\figures"]), "Keyword")
        w(" ")
        w("{", "Bracket", "<")
        for _ in range(s.int(0, 3)):
            w(" ")
            w("<", "Delimiter.Chord", "<")
            w(s.pick(["6", "4", "_", "11"]), "1Text.Music.Pitch.Figure")
            w(s.pick(["", "+", "-", "!", "++", "--"]), "1Text.Music.Pitch.Accidental")
            w(s.pick(["", "", "\\\\", "\\!", "\\+", "/"]), "1Character.Alteration")
            if s.bool():
                w(" ")
                w("[", "Bracket", "<")
                w("5", "Text.Music.Pitch.Figure")
                w("]", "Bracket", ">")
            w(">", "Delimiter.Chord", ">")
            ly_duration(w)
    elif k == 3:
        w("\\repeat", "Name.Builtin")
        w(" ")
        w(s.pick(["volta", "unfold", "percent", "tremolo"]), "Name.Type")
        w(" ")
        w(s.pick(["2", "12"]), "1Number")
        w(" ")
        ly_list(w, 1)
        return
    else:
        w(s.pick(["\\lyricmode", "\\lyrics", "\\addlyrics"]), "Keyword.Lyric")
        w(" ")
        w("{", "Bracket", "<")
        for _ in range(s.int(0, 3)):
            w(" ")
            if s.one_in(3):
                w("<<", "Bracket", "<")
                w(" ")
                w("la", "Text.Lyric")
                w(" ")
                w(">>", "Bracket", ">")
            else:
                w("la", "Text.Lyric")
                if s.one_in(3):
                    w("4", "Number.Duration")
    w(" ")
    w("}", "Bracket", ">")


GENERATORS = {
    "c.C": c, "javascript.JavaScript": javascript, "python.Python": python, "python.PythonConsole": pythonconsole,
    "toml.Toml": toml, "ini.Ini": ini, "tcl.Tcl": tcl, "xml.Xml": xml, "xml.Dtd": dtd, "html.Html": html,
    "html.XHtml": xhtml, "css.Css": css, "bash.Bash": bash, "scheme.Scheme": scheme, "tex.Latex": latex,
    "texinfo.Texinfo": texinfo, "troff.Troff": troff, "json.Json": json_, "csv.Csv": csv, "lilypond.LilyPond": lilypond,
    "docbook.DocBook": docbook, "xslt.Xslt": xslt,
}
