import sys

from . import env  # noqa: F401
from .core import shard_main

if __name__ == '__main__':
    shard_main(sys.argv[1:])
