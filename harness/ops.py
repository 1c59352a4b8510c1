"""Execution of specification actions on the real library.

A session is a list of actions (JSON objects with an "op").  Executing one performs the corresponding library call and
yields an event: the action together with the recorded outcome.  Nothing here judges anything."""
from __future__ import annotations

import traceback

OPS = {}


def op(name):
    def deco(fn):
        OPS[name] = fn
        return fn
    return deco


def execute(session: list[dict]) -> list[dict]:
    """Run a session; S holds the live objects."""
    S = {}
    events = [{"op": "begin"}]
    for a in session:
        try:
            e = OPS[a["op"]](a, S)
        except (MemoryError, OSError, KeyboardInterrupt):
            raise
        except Exception as x:  # noqa: BLE001   the objects at hand cannot even be read; the specification rejects this
            events.append({"op": "crash", "act": a["op"], "e": "".join(traceback.format_exception(x))[-1500:]})
            return events
        events.append({**a, **e})
    return events
