# Jython 2.7 side of the harness: reads one JSON request per line on stdin,
# writes one JSON reply per line on the original stdout.  Only the standard
# library and the code under test (/repo/src) are used.
#
#   request  {"op": "module.function", "a": [...], "k": {...}}
#   reply    {"ok": value}  or  {"exc": "ClassName", "mro": [...], "msg": "...", "tb": "..."}
import sys
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import json
import traceback

_out = sys.stdout
sys.stdout = sys.stderr


def reset():
    """Put every piece of process-wide state of the library back to its initial value."""
    from pycalendar.timezonedb import TimezoneDatabase
    from pycalendar.timezone import Timezone
    from pycalendar.parser import ParserContext
    TimezoneDatabase.sTimezoneDatabase = None
    Timezone.sDefaultTimezone = Timezone(utc=True)
    Timezone.UTCTimezone = Timezone(utc=True)
    for k, v in _parser_defaults.items():
        setattr(ParserContext, k, v)


def _snapshot():
    from pycalendar.parser import ParserContext
    return dict((k, getattr(ParserContext, k)) for k in dir(ParserContext)
                if k.isupper() and not k.startswith("_"))


_parser_defaults = None
_modules = {}


def resolve(op):
    modname, fn = op.split(".", 1)
    mod = _modules.get(modname)
    if mod is None:
        mod = _modules[modname] = __import__(modname)
    return getattr(mod, fn)


def main():
    global _parser_defaults
    # import first, so that a broken tree shows as a start-up error
    import pycalendar.icalendar.calendar
    import pycalendar.vcard.card
    _parser_defaults = _snapshot()
    _out.write('{"ready": true}\n')
    _out.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        req = json.loads(line)
        try:
            fn = resolve(req["op"])
            reset()
            reply = {"ok": fn(*req.get("a", ()), **dict((str(k), v) for k, v in req.get("k", {}).items()))}
            text = json.dumps(reply)
        except:
            et, ev, tb = sys.exc_info()
            try:
                mro = [c.__name__ for c in et.__mro__]
            except Exception:
                mro = [str(et)]
            try:
                msg = unicode(str(ev), "utf-8", "replace")
            except Exception:
                try:
                    msg = unicode(ev)
                except Exception:
                    msg = u"?"
            frames = traceback.extract_tb(tb) if tb is not None else []
            frames = [[os.path.basename(f[0]), f[1], f[2]] for f in frames][-12:]
            text = json.dumps({"exc": et.__name__ if hasattr(et, "__name__") else str(et), "mro": mro, "msg": msg[:2000], "tb": frames})
        _out.write(text.replace("\n", " ") + "\n")
        _out.flush()


if __name__ == "__main__":
    main()
