import sys

from . import env  # noqa: F401
from .core import main

if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
