"""Entry point: lane | check | replay | selftest | setup"""
import os
import sys


def main():
    cmd = sys.argv[1]
    from dst import core
    if cmd == 'lane':
        core.lane_main(sys.argv[2])
        return 0
    if cmd == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 3:
            tier = sys.argv[3]
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        return core.check(sys.argv[2], tier, seed)
    if cmd == 'replay':
        rep, res = core.replay(sys.argv[2])
        cls = {v['cls'] for v in res['violations']}
        print('digest %s' % ('identical' if res['digest'] == rep['digest']
                             else 'differs'))
        if rep['class'] in cls:
            print('VIOLATION property=%s replay=%s' % (rep['property'],
                                                       sys.argv[2]))
            return 1
        return 0
    if cmd == 'selftest':
        n = int(sys.argv[2])
        props = sys.argv[3:] or ['R%02d' % i for i in range(1, 20)]
        return core.selftest(props, n, int(os.environ.get('VERIF_SEED', '1')))
    raise SystemExit('unknown command')


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
