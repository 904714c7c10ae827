"""process-wide settings a library has no business with (no import of the package here)"""
import atexit
import decimal
import gc
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import warnings


def package_logs():
    return sorted(k for k in logging.root.manager.loggerDict if k == "fcsql" or k.startswith("fcsql."))


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


LOADED = []


def runtime():
    """what the classes of the ANTLR runtime consist of (as far as it is loaded)"""
    d = {}
    if not LOADED:  # the runtime imports some of its modules only when needed
        LOADED.extend((k, m) for k, m in list(sys.modules.items()) if m is not None and k.startswith("antlr4."))
    for name, m in LOADED:
        for k, v in list(vars(m).items()):
            if isinstance(v, type) and v.__module__ == name:
                for k2, v2 in list(vars(v).items()):
                    if not isinstance(v2, (int, list, dict, set)):
                        d[f"{name}.{k}.{k2}"] = v2
    return d


def surroundings():
    lg = [logging.getLogger()] + [logging.getLogger(k) for k in package_logs()]
    return {
        "recursion limit": sys.getrecursionlimit(),
        "int digits limit": sys.get_int_max_str_digits(),
        "switch interval": sys.getswitchinterval(),
        "trace function": sys.gettrace(),
        "excepthook": sys.excepthook,
        "stdin/stdout/stderr": (sys.stdin, sys.stdout, sys.stderr),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "sys.path": list(sys.path),
        "threads": sorted(t.ident for t in threading.enumerate()),
        "logging switch": (logging.root.manager.disable, logging.raiseExceptions),
        **{"logger " + l.name: (l.level, l.disabled, l.propagate, list(l.handlers), list(l.filters)) for l in lg},
        "warning filters": list(warnings.filters),
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGPIPE)],
        "builtins": {k: id(v) for k, v in vars(__import__("builtins")).items() if k != "_"},
        "random numbers": hash(random.getstate()),
        "umask": umask(),
        "decimal context": repr(decimal.getcontext()),
        "socket timeout": socket.getdefaulttimeout(),
        "thread stack size": threading.stack_size(),
        "limits": [resource.getrlimit(r) for r in (resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CPU, resource.RLIMIT_NOFILE, resource.RLIMIT_CORE)],
        "timers": (signal.getitimer(signal.ITIMER_REAL),),
        "exit handlers": atexit._ncallbacks(),
        "other hooks": (sys.getprofile(), sys.displayhook, sys.unraisablehook, threading.excepthook, list(sys.meta_path), list(sys.path_hooks)),
        "ANTLR runtime": runtime(),
    }
