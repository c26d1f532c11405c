"""Runs the fog command in this process on texts: the file and the output are the standard streams, unless files are asked for."""
import csv
import io
import os
import shutil
import sys
import tempfile

from fog.cli.__main__ import main


def run(args, text):
    argv, stdin, stdout = sys.argv, sys.stdin, sys.stdout
    out = io.StringIO(newline='')
    sys.argv, sys.stdin, sys.stdout = ['fog'] + list(args), io.StringIO(text, newline=''), out
    try:
        main()
    finally:
        sys.argv, sys.stdin, sys.stdout = argv, stdin, stdout
    return out.getvalue()


def run_files(args, text):
    """The same through files, in a scratch folder."""
    d = tempfile.mkdtemp(prefix='vp-cli-')
    try:
        src, dst = os.path.join(d, 'in.csv'), os.path.join(d, 'out.csv')
        with open(src, 'w', newline='', encoding='utf8') as f:
            f.write(text)
        argv = sys.argv
        k = 3 if args[0] == 'transform' else 2
        sys.argv = ['fog'] + list(args[:k]) + [src] + list(args[k:]) + ['-o', dst]
        try:
            main()
        finally:
            sys.argv = argv
        import gc
        gc.collect()
        with open(dst, newline='', encoding='utf8') as f:
            return f.read()
    finally:
        shutil.rmtree(d)


def to_csv(rows, end='\r\n'):
    out = io.StringIO(newline='')
    csv.writer(out, lineterminator=end).writerows(rows)
    return out.getvalue()


def from_csv(text):
    return list(csv.reader(io.StringIO(text, newline='')))
