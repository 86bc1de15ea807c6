import check_symm
LEVEL = 'other'
def run(tier): return check_symm.analyse('C12', ('mac_cases', 'linear_cases'), tier)
