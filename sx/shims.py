# -*- coding: utf-8 -*-
"""Paths of the code under test (read at import time)."""
import os
import sys

REPO_SRC = os.path.join(os.environ.get('SX_REPO', '/repo'), 'src')
VENV = '/opt/venv/lib/python3.12/site-packages'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_paths(concrete):
    sys.dont_write_bytecode = True
    if concrete:
        sys.path.insert(0, REPO_SRC)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if VENV not in sys.path:
        sys.path.append(VENV)
