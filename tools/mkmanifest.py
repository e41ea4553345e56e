#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(f'{root}/properties.jsonl')]
note={
 "default":"Every execution of the bounded spaces named in the evidence is run on the real code, rebuilt from /repo, and compared with an oracle that shares no code with it (exact integer/rational arithmetic, Jacobi rotations, or the definition). Trusts the oracle, the error tolerances (a multiple of n*epsilon*|A| with at least ten times slack over the worst execution), rustc and ndarray. Inputs outside the spaces are not covered.",
 "C16":"Termination is judged by a watchdog (25 s for a call that takes microseconds).",
 "C28":"Complete outcomes (all bits of all values, errors, panics) of every operation are compared between four builds on the whole enumeration; unchecked out-of-bounds accesses that change nothing observable in the checked build's assertions are found by those assertions.",
 "C33":"Each history is a process of its own. Concurrent calls are scheduled exactly, at the granularity of the arithmetic operations of a float type of the harness's own (the library is generic over NdFloat), with at most one preemption of each call; preemptions between two such operations, or within f32/f64 arithmetic, are not.",
 "iter":"The environment of the solver (operator, preconditioner, start, constraints, random script, budget, tolerance) is enumerated and every callback is monitored; Rayleigh quotients, residuals and spectra come from a dense Jacobi oracle.",
}
it={"C23","C24","C25","C26","C27","C31","C32"}
checks=[]
for p in props:
    i=p['id']
    n=note["default"]
    if i in it: n=note["iter"]+" "+n
    if i in note: n=note[i]+" "+n
    checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",evidence_file=f"evidence/{i}.json",
      technique="stateless model checking under a controlled scheduler: exhaustive enumeration of call histories, nested calls and bounded-preemption interleavings of the real code, compared with each call alone" if i=="C33" else "stateless model checking: exhaustive enumeration of bounded choice sequences on the real code, monitored against an independent oracle",level="model_checking",level_note=n))
m=dict(version=1,setup_cmd="bash check.sh setup",checks=checks,not_applicable=[],notes="No hooks in /repo are needed. See DESIGN.md; known_findings.txt lists the repaired defects.")
json.dump(m,open(f'{root}/MANIFEST.json','w'),indent=1)
