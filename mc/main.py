import os
import sys

# never read byte code that another state of /repo's sources left behind
sys.pycache_prefix = "/nonexistent-pycache"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
