"""Insert property definitions (stdin) before main() in vp/spec.py, keeping them sorted is not needed."""
import sys
p = "/verif/vp/spec.py"
s = open(p).read()
i = s.index("\ndef main():")
open(p, "w").write(s[:i].rstrip("\n") + "\n\n" + sys.stdin.read().strip("\n") + "\n\n" + s[i:])
