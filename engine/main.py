import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import runner

if __name__ == '__main__':
    if len(sys.argv) < 2:
        sys.exit('usage: check <property> [quick|thorough]')
    sys.exit(runner.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
