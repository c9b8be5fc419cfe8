import flow
from core import Suite

SUITES = [
    Suite("flow", lambda d: flow.gen(d), flow.run, quick=640, describe=flow.describe),
    Suite("flow-v1", lambda d: flow.gen(d, v1=True), flow.run, quick=240, describe=flow.describe),
]
