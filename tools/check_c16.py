import check_symm
LEVEL = 'other'
def run(tier): return check_symm.analyse('C16', ('wiring_cases', 'linear_cases'), tier)
