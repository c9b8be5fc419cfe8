import cells_image  # noqa: F401
import prog
from core import Suite

SUITES = [
    Suite("images", prog.cell_suite_gen("C04", per=(1, 4)), prog.run_cell_spec, quick=1600, describe=prog.describe),
]
