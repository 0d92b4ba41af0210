import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
    from vf.core import main
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    replay = sys.argv[3] if tier == 'replay' else None
    sys.exit(main(pid, tier, replay))
