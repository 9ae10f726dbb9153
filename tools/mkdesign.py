#!/usr/bin/env python3
"""Rewrite DESIGN.md from "## Properties, bounds, oracles" on (what stands before is kept)."""
import glob, json, os, sys
from propinfo import INFO, TECH, TECH_DEFAULT
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
old = open("DESIGN.md").read()
out = [old[:old.index("## Properties, bounds, oracles")].rstrip() + "\n"]


def emit(s=""):
    out.append(s)


emit("""## Properties, bounds, oracles

Bounds are quick (thorough); they are repeated, with the counts of the run, in `evidence/<id>.json`.""")
for l in open("properties.jsonl"):
    d = json.loads(l)
    p = d["id"]
    i = INFO[p]
    emit("\n### %s — %s\n\n*Method:* %s.\n" % (p, d["title"], TECH.get(p, TECH_DEFAULT)))
    for b in i["bounds"]:
        emit("* " + b)
    emit("\n*Oracle:* %s.\n" % i["oracle"])

MUT = """Of these, those that change a
result were found by that check or by that of another property; the rest were judged, one by one, to change no result
(other split points, capacities, shortcuts left out, leading zeros dropped later, unreachable branches)."""
COST = "20 to 75 s for each check, C05 115 s, C20 200 s"

emit("""## Hooks in /repo

Guard `cfg(babs_mc)` (never set in a normal build; with it off, nothing changes): module `src/mc.rs`, which takes the
four thresholds from the environment of the build, re-exports the `Digit` trait so that digits of small radix can be
plugged in, and makes the constructor of such numbers reachable. Commits 655c163, 849c59e.

## Genuine defects found and repaired

All were found by the checks on the tree as given, shown against the real code, and repaired in 14 `fix:` commits (the
test suite passes unedited); `known-findings.txt` lists them as `fixed`, and no finding is open:
""")
for l in open('known-findings.txt'):
    if l.startswith('fixed:'): emit("* "+l[len('fixed: property='):].strip())
emit("""
## False alarms met while building, and what was corrected

* The result of parsing "" and "0x" is not specified by the library: only the absence of panics is required.
* Thresholds for which the algorithms cannot end (Karatsuba below 4, Toom-3 below 5, odd Burnikel-Ziegler) are no legal
  settings and are not explored.
* An operation that fails by panicking may leave its moved operand in any state: C16 asks for the operand of the *fallible*
  methods only.
* Allocation failure, stack depth and timing are not judged. A process killed for memory or time is reported as no
  answer, not as a violation, unless it is reproducible and happens in an operation the property is about.
* C20 first compared results with a process in which other calls had run; state made by first uses (legal caches,
  `Once`) is now allowed for: every history starts from a pristine process, and schedules are tried with and without it.
* Correct caches, locks and thread-local storage (refactoring r1 below) led to schedules in which one thread waits for
  the other: the scheduler lets both run then.

## Edits that keep the behaviour

Six sets of refactorings were applied, and all 20 quick checks stayed quiet on each: (r1) caches behind locks, atomics and
thread-local storage; (r2) loops rewritten, helpers extracted in add, sub, cmp, long division and multiplication; (r3) a
method of the internal `Digit` trait renamed everywhere, helpers renamed; (r4) constants replaced by functions,
parse errors and panic messages changed, asserts instead of debug asserts; (r5) other capacities, other order of
statements, other square-and-multiply; (r6) other scaling, allocation and control flow in division and shifts.

## Planted bugs

`seeded/<id>/`: patch, demonstration, what it needs. Each was confirmed to build, to pass the 184 tests, and to fail its
demonstration only with the patch. All are caught by the quick check of the property they were written for; several
were missed at first and led to the spaces named.
""")
miss={
 'c01-recursive-carry':'a build without optimisation on a small stack',
 'c19-recursive-zeros':'a build without optimisation on a small stack',
 'c13-shift-of-zeros':'conversion of numbers of more than 65536 bits',
 'c20-sixteen-slots':'many calls while another is stopped',
 'c20-divisor-cache-by-ends':'calls that nearly are the same',
 'c05-bz-large-overflow-block':'large denominators of alike blocks',
 'c12-text-in-pages':'writers that fail once',
 'c11-char-truncated':'every Unicode character',
 'c09-shrinks-memory':'spare capacity in all operations',
 'c20-decimal-memo-by-address':'one object changed in place',
 'c20-square-memo':'one object changed in place',
 'c20-borrowed-buffer':'formatting within formatting','c01-spare-capacity':'operands with spare capacity',
 'c10-length-truncated':'numbers of more than 65536 digits',
}
emit("| planted bug | property | needs |")
emit("|---|---|---|")
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    n=' '.join(m['needs'].split()).replace('|','/')
    emit("| %s | %s | %s |"%(i,m['property'],n[:150]+('…' if len(n)>150 else '')+(' **(missed at first; added: %s)**'%miss[i] if i in miss else '')))
emit("""
## Mutation testing

Besides planted bugs, every line of the library outside tests was mutated mechanically (operators, comparisons,
constants, off-by-one, dropped statements): 2642 mutants, of which 592 survive all of the repository's tests. Mutants that only
change capacities, tuning thresholds or unreachable code were set aside; of the rest, one per line and then further
ones were given to the quick check of the property they concern. """ + MUT + """

## Cost

Quick tier, alone on 8 cores, binaries built in advance: """ + COST + """. Thorough tiers are bounded by 6 hours each
and use the bounds in parentheses above.

## Limits

* Bounded: between the lengths, digits and depths enumerated, nothing is claimed. Numbers of more than 65536 digits are
  explored with few operands.
* Two threads with at most two preemptions, and crowds of up to 32 threads in regular patterns; sequentially consistent
  memory.
* x86-64 and one toolchain.
* `Debug` formatting, panic messages, error texts, allocation behaviour and speed are not specified.
* Decimal digits at or above the radix handed to `UBig::new` are outside the contract and not explored.

All twenty properties are decided by model checking; `not_applicable` is empty.
""")

with open("DESIGN.md", "w") as f:
    f.write("\n".join(out).rstrip() + "\n")
