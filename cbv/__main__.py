import sys

from cbv.core import main

sys.exit(main(sys.argv[1]))
