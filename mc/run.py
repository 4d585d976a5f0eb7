import importlib
import sys
from . import core

MODULES = {
    'P01': 'p01_tar', 'P02': 'p02_consistency', 'P03': 'p03_formats', 'P04': 'p04_files', 'P05': 'p05_threads',
    'P06': 'p06_blocks', 'P07': 'p07_index', 'P08': 'p08_stale', 'P09': 'p09_crash', 'P10': 'p10_placement',
    'P11': 'p11_union', 'P12': 'p12_versions', 'P13': 'p13_recursive', 'P14': 'p14_mounts', 'P15': 'p15_overlay',
    'P16': 'p16_remount', 'P17': 'p17_overlaycrash', 'P18': 'p18_commit', 'P19': 'p19_fuse', 'P20': 'p20_hashes',
    'P21': 'p21_split', 'P22': 'p22_damaged', 'P23': 'p23_detect', 'P24': 'p24_caches', 'P25': 'p25_control',
    'P26': 'p26_fsspec',
}

if __name__ == '__main__':
    pid = sys.argv[1]
    core.main(pid, lambda: importlib.import_module('mc.' + MODULES[pid]))
