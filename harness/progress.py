"""What fits print: the progress tables of a captured output."""

import contextlib
import io
import re

ROW = re.compile(r'^\s*(\d+)\s*\|\s*(\S+)\s*\|\s*(\S+)\s*\|\s*(\S+)\s*$')
CONVERGED = re.compile(r'[Cc]onverged\D*(\d+)')
COMPONENTS = re.compile(r'n_components\s*=\s*(\d+)')


def _number(v, num):
    try:
        return num(float(v))
    except ValueError:
        return 'nan'


def tables(text, num):
    """[{'k', 'rows': [[n, cost, change, time]], 'met': [[n, rows before it]]}]"""
    out = []
    for line in text.splitlines():
        row, met = ROW.match(line), CONVERGED.search(line)
        if line.startswith('***') and not met:
            k = COMPONENTS.search(line)
            out.append({'k': int(k.group(1)) if k else -1, 'rows': [], 'met': []})
            continue
        if (row or met) and not out:
            out.append({'k': -1, 'rows': [], 'met': []})
        if row:
            out[-1]['rows'].append([int(row.group(1))] + [_number(v, num) for v in row.groups()[1:]])
        elif met:
            out[-1]['met'].append([int(met.group(1)), len(out[-1]['rows'])])
    return out


@contextlib.contextmanager
def captured():
    f = io.StringIO()
    with contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
        yield f
