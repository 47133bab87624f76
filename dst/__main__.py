import sys
from dst.engine import main
sys.exit(main(sys.argv))
