#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
LVL = "model_checking"
T = "TLA+/TLC: design and bit-level algorithm model-checked on symbolic cells; every model transition replayed on the real code; recorded histories validated by TLC"
TB = "TLA+/TLC: bit-level model checked on symbolic bits against the law; every model transition replayed on the real code; recorded calls validated by TLC"
TT = "TLA+/TLC: threads calling the library at once, with and without hidden memory, model-checked over all interleavings; recorded runs of the same calls alone, among other calls and in parallel compared by TLC"
TH = "TLA+/TLC: ownership and byte accesses of index memory model-checked; recorded allocations and outcomes of real calls in guarded memory, with different junk in fresh bytes, judged by TLC; model transitions replayed in guarded memory"
N = {
 "C01": "All storage flavours, widths and lengths (static/fixed exhaustive, dynamic 0..26 and boundary depths up to 513); cell values sampled, exhaustive up to 8 cell bits.",
 "C02": "Every length, depth and level around each capacity, up to usize::MAX; both overflow-checked and release-like builds.",
 "C03": "Every operation on every depth checked for side effects, plus random multi-register walks and recorded histories.",
 "C04": "Every depth up to 64, ordering, flavour and width; cell values sampled.",
 "C05": "Every supported grid depth, ordering, flavour and width; all one-hot, all-but-one and random coordinates.",
 "C06": "Every depth and number of generations (long dynamic depths at byte boundaries), path lengths around the capacity; walks.",
 "C07": "Pairs by depths, common prefix and first differing cell with adversarial tails; recorded sorts validated against the specification's order.",
 "C08": "Every operation's result compared with a fresh index of the same node (equality, hash, order, later behaviour), twelve routes to each node, random walks.",
 "C09": "Every depth and every pair of flavours and widths, there and back.",
 "C10": "Every depth and naming, displayable slices in recorded histories with decimal names computed by the specification.",
 "C11": "Every depth, flavour and width; twice inverted.",
 "C12": "Every range on 8..64-bit words, boundary ranges on u128 and byte vectors up to 11 bytes (thorough: all, up to 17 bytes).",
 "C13": "Symbolic in the model; exhaustive on 8- and 16-bit inputs, structured and random 32-bit inputs on the code.",
 "C14": "u8 exhaustive; wider types by quotient and remainder classes with extreme values.",
 "C15": "All cells and orderings; numbers 0..20, powers of two and their neighbourhoods, extremes.",
 "C17": "Every depth, number of generations, ordering, flavour and width; cell values sampled, exhaustive up to 8 cell bits.",
 "C18": "Model: 3 threads, every interleaving. Code: schedules sampled by running every family's scripts on all cores twice; a race that needs a rare schedule may escape.",
 "C19": "Model: up to 3 registers and 5 levels. Code: heap memory only; accesses past the end by up to a page kill the process, those before the start are seen if they write or change an outcome; stack memory is not guarded.",
 "C16": "Packed words of every depth and width against the symbolic packing; raw constructors; numeric against tree order.",
}
m = dict(version=1,
         setup_cmd="python3 check.py --build",
         checks=[dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                      technique=TT if p == "C18" else TH if p == "C19" else T if p not in ("C12", "C13", "C14", "C15") else TB, level=LVL,
                      level_note=n + " Assumes TLC, rustc and that cell values outside the sample behave like those in it.") for p, n in sorted(N.items())],
         not_applicable=[],
         notes="No hooks in /repo: the public API exposes all abstract state. See DESIGN.md.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
