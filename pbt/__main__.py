import importlib, sys
from . import engine


def load(pid):
    m = importlib.import_module("pbt.checks." + pid.lower())
    return m.CHECK


if __name__ == "__main__":
    sys.exit(engine.main(load(sys.argv[1]), sys.argv[2:]))
