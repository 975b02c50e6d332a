import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", *sys.argv])
import lib
if lib.REPO != "/repo":
    sys.path.insert(0, lib.REPO + "/src")
if __name__ == "__main__":
    sys.exit(lib.main(sys.argv[1].lower(), sys.argv[2:]))
