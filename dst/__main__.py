import sys
from dst.runner import main
sys.exit(main())
