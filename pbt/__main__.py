import sys

from pbt.core import main

sys.exit(main(sys.argv[1:]))
