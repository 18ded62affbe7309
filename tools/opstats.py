"""opstats.py PROP: how often each operation and outcome occurs in the quick check's behaviours (development aid)."""
import collections, sys
sys.path.insert(0, "/verif/harness")
import common
def validate(self, module, behaviours, *a, **k):
    c = collections.Counter((e["op"], e.get("out", "")) for b in behaviours for e in b)
    n = collections.Counter(len(b) for b in behaviours)
    print(self.prop, module, len(behaviours), "behaviours; lengths", dict(n.most_common(4)))
    print("  ", dict(c.most_common()))
common.Check.validate = validate
import importlib, run
for p in sys.argv[1:]:
    importlib.import_module(run.AREA_OF[p]).run(common.Check(p))
