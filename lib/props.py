"""Single source of truth: the properties, how they are checked, and what goes into properties.jsonl / MANIFEST.json."""
PROPS = {}


def prop(pid, title, statement, over, quant, why, files, mech, harness=None, cov="", assume=None, note="", technique="", na=None, level="model_checking", observe=None, hook=None):
    PROPS[pid] = dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      harness=harness or [], cov=cov, assume=assume or [], note=note, technique=technique, na=na, level=level, observe=observe or [], hook=hook)


MC = "stateless model checking of the real code: exhaustive preemption-bounded schedule exploration under a controlled scheduler"
SEQ = "bounded-exhaustive exploration of all inputs/operation sequences on the real code against a reference model"
MC_ASSUME = [
    "sequentially consistent interleavings of atomic/synchronisation operations plus a C++11 happens-before race detector that honours the memory orders; stale relaxed reads are not simulated",
    "thread count, operations per thread and preemption bound as listed per scenario",
]

CORE = "src/core/include/"
DIS = "src/disruptor/include/"
DISD = "src/disruptor/include/disruptor/"
SER = "src/serialiser/include/"
MAJ = "src/majordomo/include/majordomo/"

import importlib, glob, os  # noqa: E402
for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p_*.py"))):
    importlib.import_module(os.path.basename(_f)[:-3])
