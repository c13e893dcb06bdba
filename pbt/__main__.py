from pbt.base import main
import sys
sys.exit(main(sys.argv[1:]))
