import os
import sys


def main(argv):
    if len(argv) >= 2 and argv[0] in ('check', 'replay', 'digests'):
        from . import runner
        seed = int(os.environ.get('VERIF_SEED', '1'))
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        workers = int(os.environ.get('CTLSIM_WORKERS', '8'))
        n = os.environ.get('CTLSIM_RUNS')
        if argv[0] == 'check':
            return runner.check(argv[1], tier, seed, workers, int(n) if n else None)
        if argv[0] == 'replay':
            return runner.replay(argv[1])
        for l in runner.selftest(argv[1], seed, int(n or 60), workers):
            print(l)
        return 0
    sys.stderr.write('usage: python -m ctlsim check <ID> | replay <file> | digests <ID>\n')
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
