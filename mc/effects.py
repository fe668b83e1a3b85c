"""What a call does to its process and its surroundings (imports nothing of the library)."""
import decimal
import gc
import io
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
BAD = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate", "os.utime", "os.putenv", "os.unsetenv", "os.system", "os.exec",
       "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.kill", "os.killpg", "os.setxattr", "os.lockf", "os.chflags", "subprocess.Popen", "shutil.", "tempfile.", "socket.", "ctypes.", "urllib.", "http.",
       "ftplib.", "smtplib.", "webbrowser.", "sqlite3.", "syslog.", "pty.", "fcntl.", "resource.setrlimit", "signal.pthread_kill", "sys.addaudithook", "sys.setprofile", "sys.settrace", "builtins.input", "builtins.breakpoint",
       "time.sleep", "gc.", "mmap.", "msvcrt.", "winreg.", "_thread.start_new_thread", "_thread.start_joinable_thread")
STATE = {"on": False, "events": []}


def hook(event, args):
    if not STATE["on"]:
        return
    if event == "open":
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        if (isinstance(mode, str) and any(c in mode for c in "wax+")) or (mode is None and isinstance(flags, int) and flags & WRITES):
            STATE["events"].append("opens %r for writing" % (path,))
    elif event.startswith(BAD):
        STATE["events"].append("%s%r" % (event, args))


def settings():
    """Everything of the process a library could switch."""
    root = logging.getLogger()
    out = {
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "directory": os.getcwd(), "environment": dict(os.environ),
        "random state": hash(random.getstate()), "locale": locale.setlocale(locale.LC_ALL), "module path": list(sys.path), "path hooks": len(sys.path_hooks), "meta path": len(sys.meta_path),
        "warning filters": list(map(repr, warnings.filters)), "showwarning": warnings.showwarning, "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
        "threads": threading.active_count(), "thread stack": threading.stack_size(), "signals": [signal.getsignal(s) for s in range(1, 32) if s not in (9, 19)], "timers": signal.getitimer(signal.ITIMER_REAL)[1],
        "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, sys.breakpointhook, threading.excepthook, threading.gettrace(), threading.getprofile(), sys.gettrace(), sys.getprofile()),
        "streams": (sys.stdin, sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__), "decimal": str(decimal.getcontext()), "builtins": sorted(vars(__import__("builtins"))),
        "builtin functions": [id(v) for k, v in sorted(vars(__import__("builtins")).items()) if k != "_"], "umask": None, "int digits": sys.get_int_max_str_digits(),
        "logging": (root.level, len(root.handlers), logging.raiseExceptions, root.manager.disable), "arguments": list(sys.argv), "descriptors": sorted(os.listdir("/proc/self/fd")),
        "at exit": __import__("atexit")._ncallbacks(), "byte code": sys.dont_write_bytecode, "asynchronous": sys.get_asyncgen_hooks(), "origin": sys.get_coroutine_origin_tracking_depth(),
        "copy and pickle tables": (len(__import__("copyreg").dispatch_table), len(__import__("copy")._deepcopy_dispatch)), "type flags": sys.flags[:], "json/enum/abc untouched": (str.__eq__, dict.__setitem__, list.__eq__),
    }
    os.umask(m := os.umask(0o22))
    out["umask"] = m
    return out


def watch():
    """Calls that change tables of the interpreter which cannot be looked at."""
    import codecs
    import copyreg
    import faulthandler
    import linecache
    import re

    for mod, name in ((codecs, "register"), (codecs, "unregister"), (codecs, "register_error"), (os, "nice"), (os, "setuid"), (os, "register_at_fork"), (os, "_exit"), (os, "abort"), (sys, "exit"),
                      (faulthandler, "enable"), (faulthandler, "disable"), (linecache, "clearcache"), (re, "purge"), (copyreg, "constructor")):
        real = getattr(mod, name, None)
        if real is None:
            continue

        def call(*a, _real=real, _name="%s.%s" % (mod.__name__, name), **k):
            f = sys._getframe(1)
            if STATE["on"] and "pylogics_modalities" in f.f_code.co_filename:
                STATE["events"].append("calls %s%r" % (_name, a))
            return _real(*a, **k)

        setattr(mod, name, call)


def observed(calls, part=None):
    """Run the calls in this (forked) process and return the first one with an effect: (label, what)."""
    sys.dont_write_bytecode = True
    watch()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        sink = open(os.path.join(tmp, "sink"), "w+b", buffering=0)
        os.dup2(sink.fileno(), 1)
        os.dup2(sink.fileno(), 2)
        sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(1), "wb"), write_through=True)
        sys.stderr = io.TextIOWrapper(os.fdopen(os.dup(2), "wb"), write_through=True)
        sys.addaudithook(hook)
        warned = []
        warnings.simplefilter("always")
        warnings.showwarning = lambda message, *a, **k: warned.append(str(message))
        try:
            before, n = settings(), 0
            listing = sorted(os.listdir(tmp))
            for label, fn in calls:
                STATE["on"] = True
                try:
                    fn()
                except Exception:
                    pass
                finally:
                    STATE["on"] = False
                n += 1
                if STATE["events"]:
                    return label, STATE["events"][0], n
                if warned:
                    return label, "a warning: %s" % warned[0], n
                if os.fstat(sink.fileno()).st_size:
                    sink.seek(0)
                    return label, "prints %r" % sink.read(300), n
                after = settings()
                if after != before:
                    k = next(k for k in before if before[k] != after[k])
                    return label, "changes the %s of the process: %s instead of %s" % (k, str(after[k])[-300:], str(before[k])[-300:]), n
                if sorted(os.listdir(tmp)) != listing:
                    return label, "leaves files behind: %s" % sorted(os.listdir(tmp)), n
            return None, None, n
        finally:
            os.chdir("/")
