"""Texts for the bundled languages."""
import json
import os

with open(os.path.join(os.path.dirname(__file__), "data", "langs.json"), encoding="utf-8") as f:
    DATA = json.load(f)

SNIPPETS = {
    "Css": ["h1 {", "}", "color: red;", "@media screen {", "a:hover", "/* c */", "/*", "*/", "url(x.png)", "url(",
            "\"s\\41 x\"", "'", "#fff", "1.5em", "!important", "a[href^=\"x\"]", ".cls", "#id", "::before", ">", "~",
            "@import 'x';", "rgb(1, 2, 3)", "--x: y;", "\\26 ", "<!--", "-->", "p", ",", ";", "{", "@font-face {"],
    "Bash": ["if [ -f x ]; then", "fi", "$(ls", ")", "`", "${a:-b}", "<<EOF\n", "\nEOF\n", "'", "\"", "$((1+2))", "#c\n",
             "for i in 1 2; do", "done", "case x in", "esac", "f() {", "}", "[[ a == b ]]", "x=1", "|", "&&", "a[1]="],
    "Python": ["def f(x):\n", "    return", "'''", "\"\"\"", "f\"{x!r:>{w}}\"", "b'x'", "r\"\\n\"", "#c\n", "class A:\n",
               "@dec\n", "[1, 2", "]", "(", ")", "{", "}", "lambda x:", "0x1f", "1e5j", "\\\n", "'\\N{DASH}'", "f'{", "}'"],
    "Html": ["<p class=\"x\">", "</p>", "<script>", "var x = '1';", "</script>", "<style>", "p { color: red; }", "</style>",
             "&amp;", "<!-- c -->", "<!--", "-->", "<br/>", "<!DOCTYPE html>", "<p style=\"color: red\">", "<b>", "</b>",
             "style='", "<input disabled>", "<"],
    "Xml": ["<a>", "</a>", "<a b=\"c\"/>", "<![CDATA[x]]>", "<![CDATA[", "]]>", "<?pi x?>", "&lt;", "<!-- -->", "<!--",
            "<!DOCTYPE a [", "<!ENTITY x \"y\">", "]>", "<?xml version='1.0'?>", "text", "<"],
    "Json": ["{", "}", "[", "]", "\"k\"", ":", ",", "1.5e3", "true", "null", "\"\\u0041\\n\"", "-1", "\"", "false"],
    "LilyPond": ["\\relative c' {", "}", "<c e g>4", "c4. d8", "\\lyricmode {", "#(define x 1)", "%{", "%}", "% c\n",
                 "\\score", "<<", ">>", "\"s\"", "--", "__", "\\markup {", "#'", "\\with", "\\set x.y = #1", "'4", "<", ">"],
    "Scheme": ["(define", ")", "\"s\"", "#;", "#|", "|#", "'x", "#\\a", "#(1 2)", "; c\n", "`(a ,b)", "1.5", "#xff", "(", "."],
    "JavaScript": ["function f(x) {", "}", "`a${", "}`", "/re/g", "// c\n", "/*", "*/", "'s'", "\"", "=>", "1e3", "[", "]"],
    "C": ["#include <x.h>\n", "#define X \\\n", "int f(void) {", "}", "\"s\\n\"", "'c'", "/*", "*/", "// c\n", "0x1fUL", "(", ")"],
    "Latex": ["\\begin{x}", "\\end{x}", "$x$", "$$", "\\[", "\\]", "% c\n", "{", "}", "\\cmd[a]{b}", "\\verb|x|",
              "\\begin{verbatim}", "\\end{verbatim}"],
    "Texinfo": ["@chapter x\n", "@code{x}", "@end", "@ignore\n", "@end ignore\n", "@{", "@}", "{", "}", "@c c\n",
                "@verbatim\n", "@end verbatim\n", "@math{x}"],
    "Toml": ["[a.b]\n", "[[x]]\n", "a = 1\n", "b.c = \"x\"\n", "'''", "\"\"\"", "1979-05-27T07:32:00Z", "[1, 2", "]",
             "{a = 1,", "}", "# c\n", "true", "0xff", "=", "\\u0041"],
    "Ini": ["[sec]\n", "a = b\n", "; c\n", "# c\n", "a:", "\\\n", "\\n", "\"q\"", "=", "\n"],
    "Tcl": ["set x 1\n", "{", "}", "[", "]", "\"$x\"", "$a(b)", "# c\n", ";", "\\\n", "if {$x} {"],
    "Troff": [".SH NAME\n", "\\fB", "\\fR", ".\\\" c\n", ".TH X 1\n", "'br\n", "\\(em", "\\*[x]", "\"a\""],
    "Csv": ["a,b\n", "\"q\"", "\"a\"\"b\"", ",", "\n", "1", " ", "\"", "\r\n"],
    "Dtd": ["<!ELEMENT a (b)>", "<!ENTITY % x \"y\">", "<!ATTLIST a b CDATA #REQUIRED>", "%x;", "<!-- -->", "<!--", "<![INCLUDE["],
    "PythonConsole": [">>> x = 1\n", "... y\n", ">>> ", "... ", "1\n", "Traceback (most recent call last):\n", "  File\n"],
    "English": ["one", "twenty", "-", "hundred", "and", "thousand", "million", "seven", "eleven", "x", ",", "\n"],
    "Deutsch": ["ein", "und", "zwanzig", "hundert", "tausend", "million", "millionen", "elf", "drei", "x"],
    "Nederlands": ["een", "en", "twintig", "honderd", "duizend", "miljoen", "elf", "drie", "tweeën", "x"],
    "Français": ["un", "et", "vingt", "cent", "cents", "mille", "million", "quatre-vingt", "soixante", "dix", "onze", "-"],
}
SNIPPETS["XHtml"] = SNIPPETS["Html"]
SNIPPETS["DocBook"] = SNIPPETS["Xml"] + ["<para>", "</para>", "<programlisting>"]
SNIPPETS["Xslt"] = SNIPPETS["Xml"] + ["<xsl:template match=\"a\">", "select='/a/b[1]'"]

QUALNAMES = sorted(DATA)
WEIRD = ["\0", "é", "\u2028", "\ud7ff", "𝄞", "\t", "\r\n", "\x85", "ß", "İ", "\u0301", "\x1f", "\ufeff", "\\", "\"", "'"]


def name(qual):
    return qual.split(".")[-2]


def pieces(qual):
    d = DATA[qual]
    snips = SNIPPETS.get(name(qual), []) or ["x"]
    frags = d["frags"] or ["x"]
    ex = d["example"] or "x"

    def piece(s):
        k = s.int(0, 15)
        if k <= 6:
            return s.pick(snips)
        if k <= 9:
            return s.pick(frags)
        if k == 10:
            return s.pick(WEIRD)
        if k == 11:
            return s.pick("abz09_-.,;:!?()[]{}<>=+*/\\|&%$#@^~`\"' \n")
        if k == 12:
            i = s.int(0, max(0, len(ex) - 1))
            return ex[i:i + s.int(1, 25)]
        return s.pick(["\n", " ", " ", "\n  "])
    return piece


def text(s, qual, max_size=25, avg=9):
    return "".join(s.list(pieces(qual), 0, max_size, avg))


def lexicon(qual):
    """Import the root lexicon without using the registry."""
    import importlib
    module, cls, root = qual.rsplit(".", 2)
    return getattr(getattr(importlib.import_module(module), cls), root)
