"""Every work list hands out each item exactly once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from stool import history

c = Check("C20", rule="random histories of pushes (single and in bursts, with distances from random markings and queries, by random transitions) and pops on every work list of the tool: reachability queues, potency queue, "
          "dependency graph search strategies, successor queues with extension, light deque; conservation, exactly-once and promised order checked online after every operation; non-trivial: every pop is counted",
          assumptions=["histories of at most 400 operations", "item identifiers below 2^32"])
tool = c.exe("plain", "stool", ["harness/stool.cpp"], with_main=False, optional=True)
if tool:
    c.part("queues", history(tool, "queues"), 500, 50000)
    c.part("dependency-graph", history(tool, "ctl"), 300, 30000)
    c.part("deques", history(tool, "deque"), 400, 40000)
c.finish()
