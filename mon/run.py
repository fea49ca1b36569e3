"""usage: run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--case GROUP:IDX] [-v]"""
import importlib, os, sys, warnings
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in (os.path.join(REPO, "usenet"), os.path.join(REPO, "bin"), REPO):
    sys.path.insert(0, p)


def main():
    prop = sys.argv[1]
    from mon import core
    mod = importlib.import_module("mon.checks." + prop.lower())
    return core.check_main(mod, sys.argv[2:])


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
