import cells_math  # noqa: F401
import prog
from core import Suite

SUITES = [
    Suite("elementwise", prog.cell_suite_gen("C01"), prog.run_cell_spec, quick=2400, describe=prog.describe),
]
