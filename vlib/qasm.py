"""The assembler of the sequencers (the one that qblox_instruments ships for its dummy instruments)."""
from __future__ import annotations

import contextlib
import os
import subprocess
import tempfile


def path():
    import qblox_instruments

    return os.path.join(os.path.dirname(qblox_instruments.__file__), "assemblers", "q1asm_linux")


def assemble(program):
    """None, or why the program is rejected"""
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, "p.q1asm"), "w") as f:
            f.write(program)
        p = subprocess.run([path(), "-o", "p", "p.q1asm"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if p.returncode == 0 else [x for x in p.stdout.splitlines() if "rror" in x or x.startswith(" ")][:4]


@contextlib.contextmanager
def somewhere():
    """run in a directory of its own (the dummy instruments write files into the working directory)"""
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield
        finally:
            os.chdir(here)
