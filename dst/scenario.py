"""Base class of simulated workloads."""
import copy


class Scenario:
    ID = "C00"
    LEVEL = "exploration"
    TITLE = ""
    QUICK = 100
    THOROUGH = 1000
    RULE = ""
    REAL = []
    STUB = []
    ASSUME = []
    RUN_TIMEOUT = 240  # wall seconds without progress before a run counts as hung

    def generate(self, R, idx, tier):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def nontrivial(self, plan, ctx):
        return ctx.events > 2

    def simplify(self, plan):
        """Yield smaller plans.  Default: drop chunks of the list-valued parts."""
        for key in ("faults", "switches", "ops"):
            lst = plan.get(key)
            if not lst:
                continue
            n = len(lst)
            size = max(1, n // 2)
            while size >= 1:
                for i in range(0, n, size):
                    p = copy.deepcopy(plan)
                    del p[key][i : i + size]
                    if key == "ops" and not p[key]:
                        continue
                    yield p
                if size == 1:
                    break
                size //= 2
        for p in self.simplify_ops(plan):
            yield p

    def simplify_ops(self, plan):
        """Strip optional decorations (faults, modes) from single operations."""
        for i, op in enumerate(plan.get("ops", [])):
            if not isinstance(op, dict):
                continue
            for k, plain in (("fault", None), ("mode", "eager"), ("rng", None)):
                if k in op and op[k] not in (None, plain):
                    p = copy.deepcopy(plan)
                    p["ops"][i][k] = plain
                    yield p
