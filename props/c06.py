import cells_ragged  # noqa: F401
import prog
from core import Suite

SUITES = [
    Suite("ragged", prog.cell_suite_gen("C06", per=(1, 4)), prog.run_cell_spec, quick=1500, describe=prog.describe),
]
