"""Concrete form of lang.interleave: real threads that hand over to each other at the switch points of a schedule."""
from __future__ import annotations

import dis
import os
import sys
import threading
import time

REPO = os.path.realpath(os.environ.get("PV_REPO", "/repo")) + os.sep
POINTS = {"LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "LOAD_DEREF", "STORE_DEREF", "BEFORE_WITH", "BINARY_SUBSCR", "DELETE_SUBSCR",
          "STORE_SUBSCR", "CONTAINS_OP", "CALL", "STORE_GLOBAL"}
_CODE = {}


def points(co):
    r = _CODE.get(co)
    if r is None:
        r = _CODE[co] = {i.offset for i in dis.get_instructions(co) if i.opname in POINTS}
    return r


def run(fs, sched):
    n = len(fs)
    cv = threading.Condition()
    out = [None] * n
    s = {"turn": 0, "k": 0, "beat": 0}

    def wait(i):
        """until it is thread i's turn, or the thread whose turn it is waits for something"""
        while s["turn"] != i:
            b = s["beat"]
            if not cv.wait_for(lambda: s["turn"] == i or s["beat"] != b, 0.03) and out[i] is None:
                if s["beat"] == b:
                    s["turn"] = i

    def local(i):
        def tr(frame, event, arg):
            if event != "opcode" or frame.f_lasti not in points(frame.f_code):
                return tr
            with cv:
                s["beat"] += 1
                if s["turn"] != i:
                    wait(i)
                k = s["k"]
                s["k"] += 1
                j = sched.to[k] if k < len(sched.to) else -1
                if 0 <= j < n and j != i and out[j] is None:
                    s["turn"] = j
                    cv.notify_all()
                    wait(i)
            return tr
        return tr

    def main(i):
        t = local(i)

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(REPO):
                frame.f_trace_opcodes = True
                return t
            return None
        with cv:
            wait(i)
        sys.settrace(glob)
        try:
            r = ("ret", fs[i]())
        except BaseException as e:  # noqa: BLE001
            r = ("exc", e)
        sys.settrace(None)
        with cv:
            out[i] = r
            s["beat"] += 1
            rest = [j for j in range(n) if out[j] is None]
            if rest and s["turn"] == i:
                s["turn"] = rest[0]
            cv.notify_all()

    ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    end = time.time() + 3
    for t in ts:
        t.join(max(0.0, end - time.time()))
    if any(o is None for o in out):
        raise RuntimeError("deadlock")
    for k, v in out:
        if k == "exc" and not isinstance(v, Exception):
            raise v
    return tuple(out)
