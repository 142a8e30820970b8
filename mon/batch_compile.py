"""Child process of C13: compiles the programs given as JSON on stdin, prints digests."""
import hashlib
import json
import os
import sys

sys.path.insert(0, os.environ["VERIF_SRC"])
from pygerber.gerber.compiler import Compiler  # noqa: E402
from pygerber.gerber.parser import parse  # noqa: E402

order = json.load(sys.stdin)
out = {}
for k, text, md in order:
    js = Compiler(include_metadata=md).compile(parse(text)).to_json()
    out[k] = [hashlib.sha256(js.encode()).hexdigest(), len(js)]
print(json.dumps(out))
