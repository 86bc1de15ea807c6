"""C02"""
import check_own
LEVEL = "other"
def run(tier): return check_own.run("C02", tier)
