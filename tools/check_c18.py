import check_symm
LEVEL = 'other'
def run(tier): return check_symm.analyse('C18', ('cipher_cases',), tier)
