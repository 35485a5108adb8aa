"""What each check builds and runs."""
ASSUME = ["g++ 13 on x86-64, the library's own template code instantiated for the listed operand types",
          "the reference model in harness/model.cc (per-bit tables and boost cpp_int) states the property correctly"]
PAIR_RULE = ("Per operation and operand-type pair: all operand states when they number at most 2^exh, otherwise boundary-biased random operands "
             "(word-boundary runs, extremes, per-word and per-half-word palettes, decimal powers, operands related by sums, word swaps, products or shifts, unknown bits in 10 patterns) from VERIF_SEED. Distinct = different (operation, types, operands, "
             "arguments); non-trivial = some operand has two different bit states or is one bit wide, or some integer argument is nonzero.")


def leg(suite, parts=8, san="ub", quick=9000, thorough=40000, name=None, **kw):
    d = dict(suite=suite, name=name or suite.split(".")[0], parts=parts, san=san, cases=dict(quick=quick, thorough=thorough))
    d.update(kw)
    return d


def vast(suite, san="ub", quick=60, **kw):
    """values of more than 65536 bits, where positions and counts need more than 16 bits"""
    return leg(suite, parts=1, san=san, quick=quick, thorough=quick * 6, name=suite.split(".")[0] + "-vast", defs=["-DVAST"], words=1130, cpu=100, **kw)


CHECKS = {}
NOSWEEP = ["-DNOSWEEP"]   # without the entries for every width


def c(id, legs, rule=PAIR_RULE, **kw):
    CHECKS[id] = dict(legs=legs, rule=rule, **kw)


c("C01", [leg("c01.cc"), vast("c01.cc")])
c("C02", [leg("c02.cc"), vast("c02.cc")])
c("C03", [leg("c03.cc", quick=20000), vast("c03.cc")])
c("C04", [leg("c04.cc", quick=15000), vast("c04.cc")])
c("C05", [leg("c05.cc", quick=15000), vast("c05.cc")])
c("C06", [leg("c06.cc", san="asan", quick=15000)])
c("C07", [leg("c07.cc")])
c("C08", [leg("c08.cc", quick=30000), vast("c08.cc")])
c("C09", [leg("c09.cc", quick=25000), vast("c09.cc")])
c("C10", [leg("c10.cc", quick=25000), vast("c10.cc")])
c("C11", [leg("c11.cc", san="asan", quick=15000), vast("c11.cc", san="asan")])
c("C12", [leg("c12.cc"), vast("c12.cc")])
c("C13", [leg("c13.cc", san="asan", quick=15000), vast("c13.cc", san="asan")])
c("C14", [leg("c14.cc", san="asan", quick=5000), vast("c14.cc", san="asan")])
c("C15", [leg("c15.cc", quick=5000), vast("c15.cc", quick=25)])
HIST_RULE = ("A case is one history of operations on typed objects, generated from VERIF_SEED; after every step the observable state is compared with the "
             "reference model. evaluations = operations executed and states compared; distinct = different histories; non-trivial = at least one operation ran.")
c("C16", [leg("c16.cc", san="asan", quick=3000, thorough=15000), vast("c16.cc", san="asan")], rule=HIST_RULE)
c("C17", [leg("c17.cc", san="asan", quick=2500, thorough=12000)], rule=HIST_RULE)
REL_RULE = ("Each case generates operands (boundary-biased, VERIF_SEED), executes an operation on them and on related operands (unknown bits replaced, other kind, wider storage) "
            "and compares the results. evaluations = relations checked; distinct = different operand sets per operation; non-trivial = at least one relation was checked.")
c("C18", [leg("c18.cc", quick=1500, thorough=12000)], rule=REL_RULE)
# every suite once more, under a second compiler without optimisation and with ASan+UBSan, and a third of
# them under valgrind memcheck. only sanitizer reports, uninitialised results, crashes and hangs count
ALL = ["c%02d.cc" % i for i in range(1, 20)]
SLOW = {"c16.cc": 0.1, "c17.cc": 0.1, "c18.cc": 0.3}
c("C19", [leg(s, san="clang", quick=int(250 * SLOW.get(s, 1)), thorough=int(8000 * SLOW.get(s, 1)), exh=dict(quick=8, thorough=12), args=["--no-model"], defs=NOSWEEP, name=s[:3] + "-asan") for s in ALL] +
  [leg(s, san="memcheck", quick=int(40 * SLOW.get(s, 1)), thorough=int(300 * SLOW.get(s, 1)), exh=dict(quick=4, thorough=8), args=["--no-model"], defs=NOSWEEP, name=s[:3] + "-memcheck", cpu=100,
       pick=dict(quick=[i % 8, (i + 3) % 8, (i + 6) % 8])) for i, s in enumerate(ALL)],
  rule=PAIR_RULE + " " + "Under --no-model an evaluation is one operation executed under ASan+UBSan or memcheck.")
# entries of every suite executed by several threads at once under ThreadSanitizer, then repeated by one
TH = ["c%02d.cc" % i for i in range(1, 18)]
c("C20", [leg("c20.cc", san="tsan", parts=6, quick=64, thorough=600, args=["--threads", "6"])] +
  [leg(s, san="tsan", quick=12, thorough=60, args=["--threads", "4"], defs=NOSWEEP, name=s[:3] + "-threads",
       pick=dict(quick=[(i * 3) % 8, (i * 3 + 2) % 8, (i * 3 + 4) % 8, (i * 3 + 7) % 8])) for i, s in enumerate(TH)],
  rule="A round executes one operation/type combination in all threads at once in a process where it never ran before, then repeats it in one thread and compares. "
       "evaluations = concurrent executions compared; distinct = different (operation, types, operands) executed; non-trivial = as for the single-threaded cases; distinct_completion_orders counts the interleavings seen.")
c("C21", [leg("c21.cc", quick=1000, thorough=6000)] +
  [leg(s, quick=60, thorough=600, exh=dict(quick=6, thorough=10), args=["--orders"], defs=NOSWEEP, name=s[:3] + "-orders", san="none", parts=8,
       pick=dict(quick=[(i * 5) % 8, (i * 5 + 3) % 8])) for i, s in enumerate(TH)],
  rule=REL_RULE.replace("(unknown bits replaced, other kind, wider storage)", "(copies, the destination itself, the same operands again)") +
  " The -orders legs run cases of every suite in order, shuffled and reversed and require the same outcomes.")
c("C22", [leg("c22", gen="gen_c22.py", gen_args=dict(quick=[2, 60], thorough=[3, 90]), san="asan", parts=dict(quick=14, thorough=48), quick=6000, thorough=60000, cpu=60)],
  rule="Programs (18 typed variables, 2 packed and 1 unpacked array, 60-90 statements of nested expressions, part writes, unpacking, parsing, formatting, control flow) are generated from VERIF_SEED; "
       "a case starts from random values and executes a random sequence of 20-79 statements, comparing every variable and text after each one. evaluations = statements executed and compared; "
       "distinct = different (start values, sequence); non-trivial = at least one statement ran.")
