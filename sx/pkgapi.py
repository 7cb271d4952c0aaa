"""What harnesses may use of the package under test (same names in both modes)."""


class Pkg:
    def __init__(self):
        import aeromet_py
        from aeromet_py import Metar, Taf
        self.Metar, self.Taf = Metar, Taf
        import aeromet_py.database as db
        self.db = db
        import aeromet_py.reports.models as models
        self.models = models
        import aeromet_py.utils as utils
        self.utils = utils
