"""C14: every documented output byte is written, nothing beyond it"""
import check_symm
LEVEL = 'other'
def run(tier): return check_symm.analyse('C14', check_symm.GENS, tier)
