import sys
from .runner import main
if __name__ == "__main__":
    a = sys.argv[1:]
    sys.exit(main(a[0], a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None))
