"""C17: digests and checksums"""
import check_symm
LEVEL = 'other'
def run(tier): return check_symm.analyse('C17', ('hash_cases', 'hash_dep_cases', 'crc_cases'), tier)
