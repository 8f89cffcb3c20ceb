"""Bounded exhaustive model checking of mqt.qudits (harness package)."""
