"""Stored markings come back unchanged."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from stool import history

c = Check("C19", rule="random histories of insertions, look-ups and readings of markings (near copies, permutations, equal counts, counts around 2^8, 2^16 and 2^32, 1 to 65541 places) in the encoder and "
          "in the plain, traceable and product state sets; the bucket list alone and from several threads; every answer compared at once with a naive map; non-trivial: every marking encoded or stored is counted",
          assumptions=["ptrie replaced by a stand-in of /verif/shim, so the trie itself is not judged"])
tool = c.exe("plain", "stool", ["harness/stool.cpp"], with_main=False, optional=True)
if tool:
    c.part("encoder", history(tool, "codec"), 400, 40000)
    c.part("state-sets", history(tool, "sets"), 400, 40000)
    c.part("buckets", history(tool, "bucket"), 300, 30000)
c.finish()
