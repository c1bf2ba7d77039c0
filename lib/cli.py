# -*- coding: utf-8 -*-
"""run the command line tools in-process"""
import importlib
import io
import sys

from .harness import guarded


class _In(io.TextIOWrapper):
    pass


def run(module, argv, stdin=b'', seconds=60):
    """-> (status, stdout bytes, stderr bytes, outcome); status None if it hung or raised
    something other than SystemExit (outcome tells)"""
    out, err = io.BytesIO(), io.BytesIO()
    tout = io.TextIOWrapper(out, encoding='utf-8', errors='surrogateescape', write_through=True)
    terr = io.TextIOWrapper(err, encoding='utf-8', errors='surrogateescape', write_through=True)
    tin = _In(io.BytesIO(stdin), encoding='utf-8', errors='strict')
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    status = [None]

    def go():
        m = importlib.import_module('hwp5.' + module)
        try:
            rv = m.main()
        except SystemExit as e:
            rv = e.code
        if rv is None:
            rv = 0
        if not isinstance(rv, int):
            rv = 1
        status[0] = rv
        return rv
    sys.argv = [module] + list(argv)
    sys.stdin, sys.stdout, sys.stderr = tin, tout, terr
    try:
        o = guarded(go, seconds)
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
    for t in (tout, terr):
        try:
            t.flush()
        except Exception:
            pass
    so, se = out.getvalue(), err.getvalue()
    for t in (tout, terr, tin):
        try:
            t.detach()
        except Exception:
            pass
    return status[0], so, se, o
