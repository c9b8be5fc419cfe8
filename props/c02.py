import cells_tensor  # noqa: F401
import prog
from core import Suite

SUITES = [
    Suite("structure", prog.cell_suite_gen("C02"), prog.run_cell_spec, quick=2400, describe=prog.describe),
]
