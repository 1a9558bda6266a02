import sys
import vt  # noqa: F401  must come first
import fakehttp  # noqa: F401
from common import main
sys.exit(main(sys.argv[1:]))
