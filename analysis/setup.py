#!/usr/bin/env python3
"""Build what the checks need: the extractor, the dump of the library models and the dependencies."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import VERIF, BuildFailure, build_driver, models_dump, extract, witness   # noqa: E402
build_driver()
models_dump()
extract()
try:
    extract("nightly")
except BuildFailure as e:
    print("the nightly configuration does not compile here:", str(e)[-500:])
for name in sorted(os.listdir(os.path.join(VERIF, "witness"))):
    witness(name)
print("ready")
