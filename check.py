#!/opt/venv/bin/python
"""Decide one property by deterministic simulation; see DESIGN.md."""

import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

from dst.cli import main  # noqa: E402

sys.exit(main())
