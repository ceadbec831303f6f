"""C16: cosmology (densities)"""
from .. import cosmo as M
from ..cosmo import OPS  # noqa: F401


def run(c):
    M.drive(c, "densities")
    c.validate("TR_Cosmology")
