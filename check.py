#!/usr/bin/env python3
"""usage: check.py <property id>   (VERIF_SEED, VERIF_TIER in the environment)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import props
props.main(sys.argv[1])
