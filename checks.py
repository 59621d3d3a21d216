"""Registry of checks: which harness jobs decide which property."""
class Job:
    def __init__(self, name, src, mode, shards=8, asm=False, lzcnt=False, opt="-O2", flags=(), cflags_only=(), link=(), repo_srcs=(),
                 runtime=(), gen=(), pre=(), two_step=False, budget_quick=120, budget_thorough=1500, grace=120, replay_timeout=240):
        self.__dict__.update(locals()); del self.__dict__["self"]
        for k in ("flags", "cflags_only", "link", "repo_srcs", "runtime", "gen", "pre"): setattr(self, k, list(getattr(self, k)))
class Check:
    def __init__(self, jobs, level="model_checking", technique="", note="", assumptions=(), rule=""):
        self.jobs = jobs; self.level = level; self.technique = technique; self.note = note
        self.assumptions = list(assumptions); self.rule = rule
    def coverage(self, agg, extra, outcomes, tier):
        if self.level == "model_checking":
            return {"states": agg["states"], "transitions": agg["transitions"], "traces_validated_against_impl": agg["traces"], "cases": agg["evaluated"], "rule": self.rule}
        return {"evaluations": agg["evaluated"] if not agg["transitions"] else agg["transitions"], "distinct_nontrivial": agg["nontrivial"], "rule": self.rule}
CHECKS = {}
import glob, os, importlib.util
for _p in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checkdefs", "*.py"))):
    _s = importlib.util.spec_from_file_location("cd_" + os.path.basename(_p)[:-3], _p); _m = importlib.util.module_from_spec(_s)
    _m.Job = Job; _m.Check = Check; _m.CHECKS = CHECKS
    _s.loader.exec_module(_m)
