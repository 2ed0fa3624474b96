import sys

if sys.argv[1:2] == ["--setup"]:
    from vmon import load

    load.philtorch()
    print("extension:", load.extension())
    sys.exit(0)
from vmon.core import main

sys.exit(main())
