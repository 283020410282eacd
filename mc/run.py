import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core  # noqa: E402
if __name__ == '__main__':
    code = core.main(sys.argv[1].lower(), sys.argv[2:])
    sys.stdout.flush()
    os._exit(code)
