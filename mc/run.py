import importlib
import sys

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module(f"mc.{pid.lower()}")
    sys.exit(mod.CHECK().main(sys.argv[2:]))
