"""Finds and imports the code under test from /repo's working tree, nothing else."""
import os
import sys
import logging

REPO = os.environ.get("KNXDST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
_loaded = None


def load():
    """Import knx_stack from REPO (never from site-packages)."""
    global _loaded
    if _loaded is None:
        sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
        sys.path.insert(0, REPO)
        from . import clock, sched
        clock.install()
        sched.install()
        import knx_stack
        import knx_stack.client.knxnet_ip  # noqa
        import knx_stack.client.knxnet_ip_discovery  # noqa
        import knx_stack.client.usbhid  # noqa

        where = os.path.dirname(os.path.abspath(knx_stack.__file__))
        if where != os.path.join(REPO, "knx_stack"):
            raise RuntimeError("knx_stack imported from %s" % where)
        root = logging.getLogger()
        root.handlers[:] = [logging.NullHandler()]
        root.setLevel(logging.INFO)
        logging.raiseExceptions = False
        _loaded = knx_stack
    return _loaded


def in_repo(exc):
    """Was this exception raised by code of the repository (innermost python frame)?"""
    tb = exc.__traceback__
    last = None
    inside = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + os.sep):
            inside = True
            last = "%s:%s" % (os.path.relpath(fn, REPO), tb.tb_frame.f_code.co_name)
        elif fn.startswith(VERIF + os.sep):
            inside = False
        tb = tb.tb_next
    return last if inside else None
