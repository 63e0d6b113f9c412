"""Each expression of harness/selfnp.py on symbolic arrays: what the encoding
gives is compared with numpy for inputs of every path.  Prints what differs or
is not modelled; not a check of a property."""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/stubs/common', V + '/stubs/sym']
from concurrent.futures import ProcessPoolExecutor  # noqa: E402
import harness.selfnp as z  # noqa: E402
from symx.drive import JobRunner  # noqa: E402


def one(k):
    try:
        j = JobRunner('selfnp', 'one', {'k': k}, budget=40, validate=6)
        j.run()
        x = [str(i) for i in j.inconclusive + j.violations + j.reduced
             + [q for q in j.samples if 'mismatch' in q]]
    except BaseException as e:
        x = ['failed ' + repr(e)]
    return k, x


if __name__ == '__main__':
    with ProcessPoolExecutor(6) as ex:
        for k, x in ex.map(one, range(len(z.EX))):
            if x and 'labels differ' not in x[0]:
                print(z.EX[k], '|', x[0].replace('\n', ' ')[:200])
