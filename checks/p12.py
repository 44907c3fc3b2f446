"""P12: the compiled entry points follow the C-API error and reference rules."""
from sa.ctx import *
from checks import libnat as N


def run(c):
    c.rule("Typestate on all paths of every entry point: each fallible C-API call forks into success and failure (exception set, NULL or -1), each allocation may throw, "
           "each thread start may fail; a failed outcome must not be used, every owned reference is released exactly once, NULL is returned exactly when an exception is set, "
           "argument and value formats match their destinations in number and type, no C-API call happens while the interpreter lock is released, no C++ exception leaves an entry "
           "point or a thread, every started thread is joined, and results of a failed worker are not used.")
    es = c.attempt("native entry points", "setup.py", lambda: N.every(c)) or []
    if not es:
        return
    N.report(c, es, N.API, lambda e: {(w, n) for w, n in e.stats["api"]} | {(w, "worker thread is joined, keeps its exceptions") for w in e.stats["threads"]} |
             {(w, "format matches") for w in e.stats["parse"]} | {(e.where, "references balanced, failure iff exception")})
