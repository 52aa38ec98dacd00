"""Static analysis engine for the Qrisp source tree.

Nothing in this package imports or runs Qrisp.  Every analysis starts from the
files found under /repo/src/qrisp (or $VERIF_REPO) on the current run.
"""
