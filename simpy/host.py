"""Run the preloaded simulator inside the interpreter."""
import ctypes
import os
import sys

import rspolib  # noqa: F401  the module under test

sys.stdout.flush()
sys.exit(ctypes.CDLL(os.environ["DST_PRELOAD"]).dst_main())
