"""C15: cosmology (times)"""
from .. import cosmo as M
from ..cosmo import OPS  # noqa: F401


def run(c):
    M.drive(c, "times")
    c.begin("package-wide age")
    c.do("today")
    c.validate("TR_Cosmology")
