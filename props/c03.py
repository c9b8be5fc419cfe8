import cells_nn  # noqa: F401
import prog
from core import Suite

SUITES = [
    Suite("layers", prog.cell_suite_gen("C03", per=(1, 5)), prog.run_cell_spec, quick=2400, describe=prog.describe),
]
