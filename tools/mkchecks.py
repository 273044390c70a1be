#!/usr/bin/env python3
"""Writes checks.json: the jobs that decide each property and their bounds."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# far more than any path needs on the unchanged tree; a path that goes on is
# a candidate for a violation, which counts if the replayed run hangs too
BIG = {"max_instr": 5 * 10**7, "max_loop": 10**8, "max_depth": 20000, "termination": True}
HUGE = {"max_instr": 10**9, "max_loop": 10**8, "max_depth": 300000, "termination": True}
C = {}

def prop(pid, outside, assumptions=(), level="model_checking", note=""):
    C[pid] = {"level": level, "jobs": [], "assumptions": list(assumptions), "outside": outside}
    if note: C[pid]["note"] = note
    return C[pid]["jobs"]

def rng(a, b=None):
    return list(range(a)) if b is None else list(range(a, b))

NS = 31   # shapes
NC = 19   # clashing
big = [9, 21, 25, 28]           # shapes with many instances
some = [s for s in rng(NS) if s not in big]
G = "every grammar of each listed shape (harness/props/generated.go), open symbols decided by the solver"

j = prop("C01", "grammars of other shapes and inputs longer than stated", ["the grammar is well-formed (C09 covers the others)"])
j += [dict(fn="C01_Accepts", tier="quick", shards={"shape": some, "len": [0, 2, 3]}, bounds=G + "; every input of exactly len bytes", **BIG),
      dict(fn="C01_Accepts", tier="quick", shards={"shape": [0, 1, 2, 6, 8, 10, 12, 20, 22], "len": [4, 5]}, bounds="as above", **BIG),
      dict(fn="C01_Accepts", tier="quick", shards={"shape": big, "len": [3]}, bounds="as above", **BIG),
      dict(fn="C01_Accepts", tier="thorough", shards={"shape": some, "len": [0, 1, 2, 3, 4, 5, 6]}, bounds="as above", **BIG),
      dict(fn="C01_Accepts", tier="thorough", shards={"shape": big, "len": [2, 3, 4]}, bounds="as above", **BIG)]
j += [dict(fn="C01_Chain", shards={"n": [24], "kind": [0, 1, 2, 3, 5, 6], "order": [0, 1, 2], "len": [2]}, thorough={"n": [2, 3, 24, 40], "kind": [0, 1, 2, 3, 5, 6], "order": [0, 1, 2], "len": [0, 1, 2]}, bounds="grammars of n rules that hand a look-ahead on (harness/props/chains.go), two open terminals; every input of len bytes", **HUGE)]
j += [dict(fn="C01_Deep", shards={"n": [300], "kind": [0, 1, 2, 3], "open": [1, 3]}, thorough={"n": [300, 20000, 70000], "kind": [0, 1, 2, 3], "open": [0, 1, 2, 3]}, bounds="inputs of n repetitions with open open bytes in the middle or at the end", **HUGE),
      dict(fn="C01_Deep", tier="quick", shards={"n": [12000], "kind": [2], "open": [1]}, bounds="as above", **HUGE),
      dict(fn="C01_Deep", tier="quick", shards={"n": [70000], "kind": [0], "open": [1]}, bounds="as above", **HUGE)]

j = prop("C02", "grammars of other shapes", ["the grammar is well-formed (C09 covers the others)"])
j += [dict(fn="C02_Small", tier="quick", shards={"s1": [a], "s2": [b], "a1": [c], "a2": [d]}, bounds="every grammar of two rules of two alternatives with the given number of symbols each (1: also the empty string), over two terminals", **BIG)
      for a, b, c, d in [(2, 1, 1, 1), (1, 2, 1, 1), (1, 1, 2, 1), (1, 1, 1, 2), (1, 1, 1, 1)]]
j += [dict(fn="C02_Small", tier="thorough", shards={"s1": [1, 2], "s2": [1, 2], "a1": [1, 2], "a2": [1, 2]}, bounds="as above", **BIG),
      dict(fn="C02_Shape", shards={"shape": [s for s in rng(NS) if s not in (3, 5, 13, 24, 25, 28)]}, thorough={"shape": rng(NS)}, bounds=G + " (lazily, all at once)", **BIG),
      dict(fn="C02_Clash", shards={"shape": [s for s in rng(NC) if s not in (9, 12)]}, thorough={"shape": rng(NC)}, bounds="the same for shapes that mostly have a conflict", **BIG)]
j += [dict(fn="C02_Chain", shards={"n": [24], "kind": [0, 1, 2, 3, 5, 6], "order": [0, 1, 2]}, thorough={"n": [3, 10, 24, 40, 70], "kind": [0, 1, 2, 3, 5, 6], "order": [0, 1, 2]}, bounds="grammars of n rules that hand a look-ahead on (harness/props/chains.go), two open terminals", **HUGE),
      dict(fn="C02_Chain", shards={"n": [8], "kind": [4], "order": [0, 1, 2]}, thorough={"n": [3, 8, 16], "kind": [4], "order": [0, 1, 2]}, bounds="as above", **HUGE)]
j += [dict(fn="C02_Chain", shards={"n": [130], "kind": [3], "order": [1]}, thorough={"n": [130, 300], "kind": [3], "order": [1]}, bounds="as above", **HUGE)]

j = prop("C03", "grammars of other shapes and inputs longer than stated", ["the grammar is well-formed (C09 covers the others)"])
j += [dict(fn="C03_Tree", tier="quick", shards={"shape": some, "len": [0, 1, 4]}, bounds=G + "; every input of exactly len bytes that is accepted", **BIG),
      dict(fn="C03_Tree", tier="quick", shards={"shape": big, "len": [3]}, bounds="as above", **BIG),
      dict(fn="C03_Tree", tier="thorough", shards={"shape": some, "len": [0, 1, 2, 3, 4, 5, 6]}, bounds="as above", **BIG),
      dict(fn="C03_Tree", tier="thorough", shards={"shape": big, "len": [2, 3, 4]}, bounds="as above", **BIG)]
j += [dict(fn="C03_Far", shards={"n": [70000], "list": [0]}, bounds="a source of n bytes with an arbitrary terminal far from its start", **HUGE),
      dict(fn="C03_Far", shards={"n": [5000], "list": [1]}, thorough={"n": [5000, 70000], "list": [1]}, bounds="as above, with a right recursive list", **HUGE)]
j += [dict(fn="C03_Wide", shards={"n": [4, 600]}, bounds="an alternative of 2n+1 symbols, three of which may be empty or not, one open byte", **HUGE)]

j = prop("C04", "larger tables and longer inputs", [])
j += [dict(fn="C04_Table", tier="quick", shards={"menu": [0, 2, 3, 4, 5, 6], "len": [0, 1, 2, 3, 4], "rows": [3]}, bounds="every table of three rows whose entries are chosen from the menu (harness/props/tables.go); every input of len bytes", **BIG),
      dict(fn="C04_Table", tier="quick", shards={"menu": [1, 7], "len": [2, 3], "rows": [3]}, bounds="as above", **BIG),
      dict(fn="C04_Table", tier="thorough", shards={"menu": rng(8), "len": [0, 1, 2, 3, 4], "rows": [3]}, bounds="as above", **BIG),
      dict(fn="C04_Table", tier="thorough", shards={"menu": [0, 2, 5, 6], "len": [5, 6], "rows": [3]}, bounds="as above", **BIG)]
j += [dict(fn="C04_Wide", shards={"n": [300], "kind": 3}, bounds="operation lists and terminals of over n entries, a row of 256 entries, two open bytes", **HUGE)]

j = prop("C05", "other grammars, longer inputs, more than two parses in parallel", ["a write to anything reachable from the frozen values is what a data race or a modification is"])
j += [dict(fn="C05_Again", shards={"grammar": 5, "x": [0, 2], "y": [2], "names": 3}, thorough={"grammar": 5, "x": [0, 1, 2, 3], "y": [0, 1, 2, 3], "names": 3}, bounds="five grammars; every pair of inputs of x and y bytes; three kinds of names", **BIG),
      dict(fn="C05_Caller", shards={"grammar": 5, "x": [2], "what": 4}, bounds="every caller action listed in harness/props/reuse.go", **BIG),
      dict(fn="C05_Buffer", shards={"grammar": 5, "x": [2]}, thorough={"grammar": 5, "x": [0, 1, 2, 3]}, bounds="a source that is the front of a larger buffer, and a buffer the caller reuses", **BIG),
      dict(fn="C05_Many", shards={"grammar": 5, "x": [2], "n": [200]}, bounds="n parses with the same parser between two of the same input", **HUGE),
      dict(fn="C05_Reenter", shards={"grammar": [0, 2, 4], "x": [2], "y": [1], "what": 3}, thorough={"grammar": 5, "x": [1, 2, 3], "y": [0, 1, 2], "what": 3}, bounds="a parse within another one's source, twice nested, or given up by its reader", **BIG),
      dict(fn="C05_Cross", shards={"grammar": 5, "x": [2], "y": [1]}, thorough={"grammar": 5, "x": [1, 2, 3], "y": [0, 1, 2]}, bounds="four parsers that share a table or names with another one", **BIG),
      dict(fn="C05_Parallel", shards={"grammar": 5, "x": [2], "form": 2}, bounds="two parses, no write to shared memory on any path", **BIG)]

j = prop("C06", "other source types; readers that violate io.Reader", [])
j += [dict(fn="C06_Forms", shards={"grammar": 5, "x": [0, 3], "form": 15}, thorough={"grammar": 5, "x": [0, 1, 2, 3, 4], "form": 15}, bounds="every input of x bytes, every split into reads", **BIG),
      dict(fn="C06_Failing", shards={"grammar": [0, 2], "x": [0, 1, 3], "err": 9}, bounds="a failure at any point of the data", **BIG),
      dict(fn="C06_Unsupported", shards={"which": 17}, bounds="every listed value", **BIG),
      dict(fn="C06_Long", shards={"n": [1000], "form": 6, "at": 4}, bounds="sources of n bytes with an arbitrary byte at one of four places", **HUGE),
      dict(fn="C06_Long", shards={"n": [6000], "form": [1, 2, 4, 5], "at": [2]}, bounds="as above", **HUGE),
      dict(fn="C06_Long", shards={"n": [70000], "form": [4], "at": [2]}, thorough={"n": [70000], "form": [0, 1, 2, 3, 4], "at": [0, 2]}, bounds="as above", **HUGE)]

NP = 16
j = prop("C07", "grammars of other shapes, longer names and terminals")
j += [dict(fn="C07_RoundTrip", shards={"shape": [0, 1, 2, 4, 6, 7, 9, 10, 11, 14, 15], "name": [1, 2]}, bounds="every grammar of each listed shape (harness/props/bnftext.go): every name of name characters, every terminal text", **HUGE),
      dict(fn="C07_RoundTrip", shards={"shape": [3, 5, 8], "name": [1]}, bounds="as above", **HUGE),
      dict(fn="C07_RoundTrip", tier="thorough", shards={"shape": [3, 5, 8, 11, 14, 15, 13], "name": [2, 3]}, bounds="as above", **HUGE),
      dict(fn="C07_RoundTrip", tier="thorough", shards={"shape": [12], "name": [1]}, bounds="as above", **HUGE),
      dict(fn="C07_RoundTrip", shards={"shape": [11], "name": [4]}, thorough={"shape": [11], "name": [4, 5]}, bounds="as above", **HUGE),
      dict(fn="C07_Self", bounds="the bundled grammar", **BIG)]
j += [dict(fn="C07_Large", shards={"n": [300], "kind": [0, 1]}, thorough={"n": [300, 2000], "kind": [0, 1]}, bounds="names and terminals of n bytes with a few open ones", **HUGE),
      dict(fn="C07_Large", shards={"n": [20], "kind": [2, 3]}, thorough={"n": [20, 100], "kind": [2, 3]}, bounds="n rules or alternatives with a few open places", **HUGE)]

j = prop("C08", "longer texts and other templates")
j += [dict(fn="C08_Free", shards={"len": rng(11)}, thorough={"len": rng(12)}, bounds="every text of len bytes", **BIG),
      dict(fn="C08_Text", shards={"text": 12}, thorough={"text": 15}, bounds="every way to fill the open bytes of each template (harness/props/bnftext.go)", **BIG)]
j += [dict(fn="C08_Large", shards={"n": [300], "kind": 6}, thorough={"n": [20, 300, 2000], "kind": 6}, bounds="long texts (harness/props/large.go) with two open bytes", **HUGE)]

j = prop("C09", "grammars of other shapes")
j += [dict(fn="C09_Any", shards={"shape": rng(16)}, thorough={"shape": rng(18)}, bounds="every grammar value of each shape over 14 kinds of symbols and 4 rule names", **BIG)]
j += [dict(fn="C09_Far", shards={"n": [20], "kind": 7}, thorough={"n": [20, 60], "kind": 7}, bounds="a grammar of n rules with one flaw at any place", **HUGE)]

j = prop("C10", "other grammars, longer names")
j += [dict(fn="C10_Names", shards={"shape": 5, "name": [0, 1, 2], "len": [2]}, thorough={"shape": 5, "name": [0, 1, 2, 3], "len": [0, 1, 2, 3]}, map_perm=True, bounds="every set of distinct names of name bytes; every order of map iteration for maps of up to five entries", **BIG),
      dict(fn="C10_Shape", shards={"shape": [0, 1, 2, 6, 7, 8, 10, 11, 12, 14, 17, 18, 19, 20, 22, 23, 27, 29], "len": [1]}, thorough={"shape": rng(NS), "len": [2, 3]}, bounds=G, **BIG),
      dict(fn="C10_Many", shards={"rules": [300]}, bounds="300 rules; every row", **HUGE)]

C.update(json.load(open(here + "/tools/bytesets.json")))
for p in ("C11", "C12"):
    for x in C[p]["jobs"]: x["termination"] = True

j = prop("C13", "larger trees")
j += [dict(fn="C13_Walk", shards={"nodes": [1, 2, 3, 5], "width": [2], "depth": [3], "mix": 4}, thorough={"nodes": [1, 2, 3, 4, 5, 6], "width": [2, 3], "depth": [3, 4], "mix": 4}, bounds="every tree of up to nodes nodes, width children and depth levels; every pruning decision", **BIG),
      dict(fn="C13_Wide", shards={"n": [300, 70000], "chain": 2}, bounds="one node of n children, and a chain of n nodes", **HUGE),
      dict(fn="C13_Node", shards={"kids": 4}, bounds="every type and span", **BIG)]

j = prop("C14", "other grammars, longer inputs; running time", ["a path that exceeds 50 million instructions is a candidate; it counts only when the replayed run does not end either"])
T = BIG
j += [dict(fn="C14_Generate", shards={"shape": rng(NC + NS)}, bounds=G, **T),
      dict(fn="C14_Parse", shards={"shape": rng(NC + NS), "len": [2]}, thorough={"shape": rng(NC + NS), "len": [0, 1, 2, 3, 4]}, bounds=G + "; every input of len bytes", **T),
      dict(fn="C14_Small", shards={"s1": [1, 2], "s2": [1, 2], "a1": [1, 2], "a2": [1, 2]}, bounds="every grammar of two rules of two alternatives of one symbol or two rules; inputs of 3 bytes", **T)]
j += [dict(fn="C14_Ring", shards={"n": [2, 24], "kind": 5}, thorough={"n": [2, 3, 24, 100], "kind": 5}, bounds="recursion through n rules", **HUGE)]

j = prop("C15", "grammars of other shapes and inputs longer than stated", ["every rule of the grammar can be reached and derives something"])
j += [dict(fn="C15_Where", tier="quick", shards={"shape": some, "len": [0, 2]}, bounds=G + "; every input of exactly len bytes that is rejected", **BIG),
      dict(fn="C15_Where", tier="quick", shards={"shape": [0, 1, 2, 3, 4, 6, 7, 8, 10, 12, 17, 19, 20, 22], "len": [3]}, bounds=G + "; every input of exactly len bytes that is rejected", **BIG),
      dict(fn="C15_Where", tier="quick", shards={"shape": big, "len": [2]}, bounds="as above", **BIG),
      dict(fn="C15_Where", tier="thorough", shards={"shape": some, "len": [0, 1, 2, 3, 4, 5]}, bounds="as above", **BIG),
      dict(fn="C15_Where", tier="thorough", shards={"shape": big, "len": [2, 3]}, bounds="as above", **BIG)]
j += [dict(fn="C15_Names", shards={"shape": [0, 1, 8, 12, 20], "len": [2], "names": [1, 2, 3]}, thorough={"shape": some, "len": [1, 2, 3], "names": [1, 2, 3]}, bounds="the same with rule names that hold format verbs, are long, or contain one another", **BIG)]

j = prop("C16", "other trees and texts, more than two unusual bindings at once")
j += [dict(fn="C16_Renumber", shards={"text": [0, 1, 3]}, thorough={"text": 4}, bounds="every renumbering into [-100,150] that keeps bound types apart", **BIG),
      dict(fn="C16_Ignore", shards={"text": 4, "n": [0, 1]}, thorough={"text": 4, "n": [0, 1, 2]}, bounds="every n ignored types that no binding looks for", **BIG),
      dict(fn="C16_Order", shards={"text": [0, 1, 3], "n": [0, 1, 2]}, thorough={"text": 4, "n": [0, 1, 2, 3]}, bounds="every order of n+2 ignored types", **BIG),
      dict(fn="C16_Bindings", shards={"text": [1], "pair": 55}, bounds="any two bindings set to any type", **BIG),
      dict(fn="C16_Bindings", tier="thorough", shards={"text": [0, 2, 3], "pair": 55}, bounds="any two bindings set to any type", **BIG),
      dict(fn="C16_Mapping", shards={"text": 4, "missing": 6}, bounds="every escape mapping with at most one of the five characters missing", **BIG),
      dict(fn="C16_Tree", shards={"form": 8}, bounds="trees of six to ten nodes of every combination of types", **BIG)]

json.dump(C, open(here + "/checks.json", "w"), indent=1)
open(here + "/checks.json", "a").write("\n")
