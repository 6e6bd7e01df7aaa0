import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vf  # noqa: E402

if __name__ == '__main__':
    sys.exit(vf.main(sys.argv[1:]))
