"""fregrid: second-order conservative data."""
from checks import c16

ID = 'C17'
TOOLS = c16.TOOLS
MIN = 100
RULE = ('fields on stretched and unstretched cubed spheres are regridded with second-order conservative remapping, asked for on the command line or by the attribute interp_method, plain or monotonic, with the other variations of C16; '
        'every value is compared with the average of the source value plus its Green-theorem gradient (halos across the twelve cube edges included) times the overlap offset, monotonic values with the range of the source neighbourhood, '
        'and totals with those of the source. Non-trivial: values were compared; distinct by case.')
ASSUMPTIONS = ['the stored exchange grid and its offsets are right (C15)', 'constants are kept only to discretisation error and are not claimed']


def gen(rng, tier):
    return c16.gen(rng, tier, 200 if tier == 'quick' else 2200, True)


def run_case(g, c):
    c16.run_case(g, c)
