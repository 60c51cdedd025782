"""Every loop comes to an end: no way round one repeats itself."""
import driver, progress

LEVEL = "other"
ASSUMPTIONS = [
    "linked lists, trees and collection chains have no cycles, strings end, files end",
    "a getter or callback called through a pointer does the same when given the same",
    "loops which wait for another thread (a signal, an exchange that another thread's prevented) are ended by it",
]


def check(tier):
    found, per = {}, {}
    for cfg in (["release"] if tier == "quick" else ["release", "debug", "nothread", "memonly", "noexc", "track"]):
        m = driver.load_base(cfg)
        info = {}
        progress.run(m, found, info)
        if info.get("loops", 0) < 60 or not info.get("counted"):
            raise driver.EngineError("only %d loops were found" % info.get("loops", 0))
        per[cfg] = info
    cov = {"explanation": "Transfer of one iteration of every natural loop, over LLVM IR of /repo's current C sources with file-local helpers "
           "inlined: along every way from the loop's header back to it, what each variable of the loop becomes as an expression over what it "
           "was, and what memory is written. Rules: stuck (nothing the loop's exits depend on, by data or control, is built from its own past "
           "or from input, so the way can repeat for ever; or variables that are recomputed may come out as they were, as in a bisection "
           "that keeps its middle), away (every exit compares a counter with a limit and the counter only moves away from it). "
           "counted: loops with a counter that only moves towards a limit nothing in the loop changes.",
           "per_configuration": per}
    return found, cov
