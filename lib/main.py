import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
if __name__ == "__main__":
    sys.exit(harness.main(sys.argv[1:]))
