import sys

from . import env  # noqa: F401
from .core import replay_main

if __name__ == '__main__':
    sys.exit(replay_main(sys.argv[1]))
