"""C19: checksums and the linear generator equal their defining polynomials (affine relations over GF(2))"""
import check_symm
LEVEL = 'other'
def run(tier): return check_symm.analyse('C19', ('poly_cases',), tier)
