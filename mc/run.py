import importlib
import os
import sys

from . import core


def cli(argv):
    if argv == ["--setup"]:
        import numpy, torch, torchmps

        print("torch", torch.__version__, "numpy", numpy.__version__, torchmps.__file__)
        return 0
    prop = argv[0]
    rest = argv[1:]
    module = importlib.import_module(f"mc.{prop.lower()}")
    if rest[:1] == ["--replay"]:
        import torch

        torch.set_num_threads(1)
        return core.replay(prop, module, rest[1])
    tier = rest[0] if rest else os.environ.get("VERIF_TIER", "quick")
    assert tier in ("quick", "thorough"), tier
    return core.main(prop, module, tier)


if __name__ == "__main__":
    sys.exit(cli(sys.argv[1:]))
