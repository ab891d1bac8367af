"""Runs a list of jobs of one check: python -m mc.worker CID TIER JOBS OUT"""
import importlib
import json
import os
import sys
import warnings


def main():
    cid, tier, jobs_file, out = sys.argv[1:5]
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    from mc.common import execute_job
    mod = importlib.import_module('mc.' + cid.lower())
    jobs = json.load(open(jobs_file))
    with open(out, 'w') as f:
        for idx, job in jobs:
            f.write(json.dumps({'start': idx}) + '\n')
            f.flush()
            res = execute_job(mod, cid, job)
            f.write(json.dumps({'idx': idx, 'res': res}) + '\n')
            f.flush()
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
