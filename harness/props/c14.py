"""C14: cosmology (distances)"""
from .. import cosmo as M
from ..cosmo import OPS  # noqa: F401


def run(c):
    M.drive(c, "distances")
    c.validate("TR_Cosmology")
