"""Replay a recorded violation against the real code."""
import json
import logging
import random
import sys

from . import api, concrete, props


def main():
    with open(sys.argv[1], encoding="utf-8") as handle:
        rec = json.load(handle)
    props.load_specs()
    logging.disable(logging.CRITICAL)
    name = rec["unit"]
    if name.startswith("search:"):
        fn = next(f for fs in api.SEARCH.values() for f in fs if f.__name__ == name[7:])
    else:
        fn = api.UNITS[name].fn
    values = {k: tuple(v) for k, v in (rec["values"] or {}).items()}
    st, ctx, info = concrete.run_once(fn, random.Random(1), values, concrete.harvest(props.REPO))
    print(st, info)
    print("values:", ctx.drawn)
    return 1 if st == "fail" else 0


if __name__ == "__main__":
    import signal

    signal.signal(signal.SIGALRM, concrete.on_alarm)
    sys.exit(main())
