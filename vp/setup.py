"""Build the tools from the committed files, so that checks start warm."""

import os
import sys

from . import check as K


def main():
    os.makedirs(K.WORK, exist_ok=True)
    K.build_extract()
    for f in (K.build_witness, K.build_barc):
        exe, err = f()
        if exe is None:
            print(err)
            return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
