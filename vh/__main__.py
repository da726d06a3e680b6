"""entry point; see run.sh"""
import sys

from vh import core

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
