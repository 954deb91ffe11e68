import sys
from . import core
if __name__ == "__main__":
    sys.exit(core.main())
