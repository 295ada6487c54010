# drafted from reviewed code, parsed and never executed
import sys
import argparse
import os
import pickle
from xboa.tracking.tracking_process import TrackingProcess
from xboa.tracking.tracking_process.xboa_tracking_process import parse_args
from xboa.tracking.tracking_process.xboa_tracking_process import main

@spec("xboa.tracking.tracking_process.xboa_tracking_process:parse_args", props="P24")
def ref_parse_args():
    parser = argparse.ArgumentParser(description='Utility for handling xboa ' + 'tracking distributed processing.')
    parser.add_argument('--out-dir', dest='out_dir', type=str, help='Directory where the pickled tracking process is stored')
    args = parser.parse_args()
    return args

@spec("xboa.tracking.tracking_process.xboa_tracking_process:main", props="P24")
def ref_main():
    args = parse_args()
    out_dir = args.out_dir
    tracking_process = TrackingProcess.new_from_pickle(out_dir)
    old_hits_path = os.path.join(out_dir, TrackingProcess.pickle_sandwich)
    if os.path.exists(old_hits_path):
        os.remove(old_hits_path)
    hits = tracking_process.run()
    with open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), 'wb') as fout:
        pickle.dump(hits, fout)
