#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
J = [Job("uleb", "leb128.c", entry="h_uleb", functions=["get_uleb128_size"], unwind=12), Job("sleb", "leb128.c", entry="h_sleb", functions=["get_sleb128_size"], unwind=12)]
if __name__ == "__main__":
    sys.exit(main("C19", J, explanation="every unsigned, every long"))
