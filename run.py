#!/usr/bin/env python3-vt
"""Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough]
[--replay FILE] [--aspect NAME] [--scale X] [--jobs N]

Exit codes: 0 the property held on everything explored, 1 it was violated
(a line "VIOLATION property=<id> replay=<path>" is printed), 2 the check itself
could not give an answer.
"""
import os
import sys

# A fixed hash seed and no byte code from or to /repo: re-exec once if needed.
if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("VP_ENV") != "1":
    env = dict(os.environ, PYTHONHASHSEED="0", VP_ENV="1",
               PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1",
               PYTHONWARNINGS="ignore::SyntaxWarning")
    env.pop("PYTHONPATH", None)
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vp import core

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
