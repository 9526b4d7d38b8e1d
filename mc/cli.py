import argparse
import os
import sys


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--replay')
    a = p.parse_args()
    from . import env        # noqa: F401  closes the system first
    from . import core
    if a.replay:
        return core.replay(a.replay)
    return core.main(a.property.upper(), a.tier)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
