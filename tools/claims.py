SCHED = "stateless model checking of the real code: every schedule within a deviation/preemption bound under a controlled scheduler"
NOTE = ("Exhaustive within the bounds listed in the evidence (operation alphabet, history depth, scheduling deviations, faults). "
        "Trusts the source rewriter and the scheduler runtime in mc/ (differentially tested), virtual time, and the reference monitors in harness/.")
CLAIMS = {id: (SCHED, NOTE) for id in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 F01 F02 F03 F04 F05 F06 S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 S11 S12 S13 S14 S15 S16 E01".split()}
NA = {}
