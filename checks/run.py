import importlib
import sys


def run():
    cid = sys.argv.pop(1)
    name = "checks.%s" % cid
    mod = importlib.import_module(name)
    from harness import core
    return core.main(mod)


if __name__ == "__main__":
    sys.exit(run())
