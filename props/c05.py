import cells_matrix  # noqa: F401
import prog
from core import Suite

SUITES = [
    Suite("matrix", prog.cell_suite_gen("C05", per=(1, 4)), prog.run_cell_spec, quick=900, describe=prog.describe),
]
