"""Property -> rules."""

import catalog
import circulation
import closed
import convert
import fields
import geometry
import grids
import gridtext
import layer
import maths
import plots
import purity
import python
import readers
import requests
import selector
import several
import summary
import values
import views

ALL = catalog.ALL
RULES = {
    "C01": [fields.gating, closed.gating_sums],
    "C02": [fields.complete, closed.complete_sums],
    "C03": [selector.criteria, selector.window, selector.default],
    "C05": [grids.deposits],
    "C06": [geometry.cartesian_cells],
    "C07": [grids.fan_out],
    "C08": [grids.normal],
    "C09": [fields.zeroed, grids.empty_copies],
    "C10": [values.velocity_modes],
    "C12": [values.fields],
    "C13": [views.projections, views.cuts],
    "C14": [values.extract],
    "C15": [maths.lookup],
    "C18": [views.outliers],
    "C19": [maths.statistics],
    "C20": [maths.meshes],
    "C21": [circulation.circulation],
    "C22": [values.lacey],
    "C23": [closed.dispersion],
    "C24": [values.concentration],
    "C25": [closed.histogram],
    "C26": [closed.granular],
    "C27": [geometry.layout],
    "C28": [geometry.cylinder],
    "C29": [requests.pairing],
    "C30": [maths.comparison],
    "C31": [requests.requests],
    "C33": [values.msd, values.msd_curve],
    "C34": [values.homogeneity],
    "C35": [closed.mean_velocity],
    "C36": [maths.rotations],
    "C37": [purity.effects],
}
#: decided on the whole crate, with the libraries that are not installed replaced by their signatures
FULL = {
    "C38": [plots.planes, plots.maps],
    "C39": [plots.arrows],
    "C40": [plots.parity],
    "C41": [readers.records],
    "C42": [readers.totals],
    "C43": [python.analyses],
    "C44": [python.records],
    "C45": [python.grids],
    "C46": [python.figures],
    "C47": [python.converting, several.dispatched],
    "C48": [python.defaults],
    "C49": [convert.vtk_records, convert.vtk_folders, convert.sorting, convert.field_names],
    "C50": [convert.vtk_reading],
    "C51": [convert.vtk_totals],
    "C52": [convert.csv_rows, convert.in_order],
    "C53": [convert.fitted],
    "C54": [convert.even],
    "C55": [convert.csv_files],
    "C56": [several.several, several.dispatched],
    "C57": [several.allotted, several.grouped, several.dispatched],
    "C58": [layer.grids],
    "C59": [layer.figures],
    "C60": [summary.summaries, summary.turns],
    "C61": [gridtext.shown, gridtext.printed],
}
RULES = {k: dict(rules=v, tier="full" if k in FULL else "core", explain=ALL[k]["explain"], assumptions=ALL[k]["assumptions"])
         for k, v in {**RULES, **FULL}.items()}
