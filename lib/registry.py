"""What each check runs.  A unit is one harness lowered with one parameter set."""


class U:
    def __init__(self, name, src, over=None, extra=(), args=(), reach=("end",), defs=(), bounds="", qt=60, wall=300, thorough=False,
                 ctors=None, note="", empty_externs=True, noassert=False, replay_link=(), engine_only=False, cflags=()):
        self.name, self.src, self.over, self.extra, self.args, self.reach = name, src, over or {}, list(extra), list(args), list(reach)
        self.defs, self.bounds, self.qt, self.wall, self.thorough, self.ctors, self.note = list(defs), bounds, qt, wall, thorough, ctors, note
        self.cflags = list(cflags)
        self.empty_externs, self.noassert, self.replay_link, self.engine_only = empty_externs, noassert, replay_link, engine_only


class S:
    def __init__(self, units, explanation, outside="", assumptions=(), par=None):
        self.units, self.explanation, self.outside, self.assumptions, self.par = units, explanation, outside, list(assumptions), par


P = {}
import importlib, pkgutil, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for _m in sorted(f[:-3] for f in os.listdir(os.path.dirname(os.path.abspath(__file__))) if f.startswith("reg_")):
    importlib.import_module(_m).register(P, U, S)
