"""property id -> analysis"""
from .result import Result
def run(pid, thorough):
    if pid in ("C34", "C35"):
        from . import effects
        return getattr(effects, pid.lower())(thorough)
    if pid in ("C30", "C31", "C32"):
        from . import protocheck
        return protocheck.check(pid, thorough)
    if pid == "C33":
        from . import clicheck
        return clicheck.check(thorough)
    if pid == "C36":
        from . import front
        return front.check(pid, thorough)
    if pid == "C18":
        from . import compilecheck
        return compilecheck.check(thorough)
    if pid in ("C19", "C20"):
        from . import options
        return getattr(options, pid.lower())(thorough)
    if pid == "C21":
        from . import names
        return names.check(thorough)
    from . import wire
    if pid in wire.PLAN: return wire.check(pid, thorough)
    raise RuntimeError("no analysis registered for " + pid)
