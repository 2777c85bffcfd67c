"""Write data/words.json: the vocabulary of the bundled languages, with what each word is (run once, by hand)."""
import json
import os
import sys

sys.path.insert(0, "/repo")
sys.path.insert(0, "/verif")


def vocab():
    from parce.lang import (python_words as p, c, javascript_words as j, css_words, bash, docbook, xslt, html, tcl,
                            scheme_words, lilypond_words as l)
    py = ("python.Python", "({}, x)\n")
    yield py, "Keyword", p.keywords
    yield py, "Name.Constant", p.constants
    yield py, "Name.Builtin", p.builtins
    yield py, "Name.Exception", p.exceptions
    cc = ("c.C", "{};\n")
    yield cc, "Name.Type", c.C_TYPES
    yield cc, "Keyword", c.C89_WORDS + c.C99_WORDS + c.C11_WORDS
    js = ("javascript.JavaScript", "({}, 1);\n")
    yield js, "Keyword", j.JAVASCRIPT_KEYWORDS + j.JAVASCRIPT_DECLARATORS + j.JAVASCRIPT_RESERVED_KEYWORDS
    yield js, "Name.Constant", j.JAVASCRIPT_CONSTANTS
    yield js, "Name.Builtin", j.JAVASCRIPT_BUILTINS + j.JAVASCRIPT_PROTOTYPES
    yield ("css.Css", "p {{ color: {}; }}\n"), "Literal.Color", css_words.CSS3_NAMED_COLORS
    yield ("css.Css", "p {{ {}: x; }}\n"), "Name.Property.Definition", css_words.CSS3_ALL_PROPERTIES
    sh = ("bash.Bash", "{} x\n")
    yield sh, "Keyword", bash.BASH_KEYWORDS
    yield sh, "Name.Builtin", bash.BASH_BUILTINS
    yield sh, "Name.Command.Definition", bash.UNIX_COMMANDS
    yield ("docbook.DocBook", "<{} x='1'/>\n"), "Keyword", docbook.DOCBOOK_ELEMENTS
    yield ("xslt.Xslt", "<{} x='1'/>\n"), "Keyword", ["xsl:" + n for n in xslt.XSLT_ELEMENTS]
    yield ("html.Html", "<p><{}>x</p>\n"), "Name.Tag", html.HTML_VOID_ELEMENTS
    yield ("html.Html", "<p><{} x='1'>x</p>\n"), "Name.Tag", html.HTML_VOID_ELEMENTS
    yield ("tcl.Tcl", "{} x\n"), "Keyword", tcl.tcl_commands
    yield ("tcl.Tcl", "{} x\n"), "Name.Command", tcl.tk_commands
    yield ("tcl.Tcl", "x {} y\n"), "Operator", tcl.operators
    yield ("scheme.Scheme", "({} x)\n"), "Keyword", scheme_words.keywords
    ly = "lilypond.LilyPond"
    yield (ly, "{{ c4{} d }}\n"), "Name.Script.Articulation", ["\\" + w for w in l.all_articulations]
    yield (ly, "{{ c4{} d }}\n"), "Name.Builtin.Dynamic", ["\\" + w for w in l.dynamics]
    yield (ly, "{{ {} c }}\n"), "Name.Builtin", ["\\" + w for w in l.music_commands]
    yield (ly, "{{ {} c }}\n"), "Keyword", ["\\" + w for w in l.keywords]
    yield (ly, "{{ \\override {}.x = #1 c }}\n"), "Name.Object.Grob", l.grobs
    yield (ly, "\\new {} {{ c }}\n"), "Name.Constant.Context", l.contexts
    yield (ly, "{{ {}4 r }}\n"), "Text.Music.Pitch", l.all_pitch_names
    yield (ly, "\\drummode {{ {}4 r }}\n"), "Text.Music.Pitch.Drum", l.drum_pitch_names
    yield (ly, "\\markup {{ {} x }}\n"), "Name.Function.Markup", ["\\" + w for w in l.markup_commands]
    yield (ly, "{{ \\key c {} d }}\n"), "Name.Type", ["\\" + w for w in l.modes]


def main():
    from vp.props import c30
    from vp.core import Violation
    out = []
    dropped = []
    for (lang, template), label, words in vocab():
        good = []
        for w in sorted(set(words)):
            try:
                c30.check(c30.word_case(lang, template, label, [w]))
            except Violation as e:
                dropped.append((lang, w, label))
            else:
                good.append(w)
        out.append([lang, template, label, good])
    print(dropped)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "words.json"), "w", encoding="utf-8") as f:
        f.write("[" + ",\n".join(json.dumps(x) for x in out) + "]\n")


if __name__ == "__main__":
    main()
