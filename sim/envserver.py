import os
import sys

sys.path[0] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from sim import ambient  # noqa: E402

ambient.serve(sys.argv[1])
