#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "rules")]
import core          # noqa: E402
import registry      # noqa: E402
sys.exit(core.main(registry.RULES, None))
