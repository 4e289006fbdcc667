"""All the checks."""
from . import api
from .checks_laws import (AffineCheck, ComplementCheck, InclusionCheck,
                          NumbersCheck, PartsCheck, PointwiseCheck,
                          RepresentationCheck)
from .checks_context import ContextCheck
from .checks_cost import CONSTANT_COST, CostCheck
from .checks_history import HistoryCheck
from .checks_memory import MemoryCheck
from .checks_oracle import OracleCheck, ScaleCheck, pairs_of
from .checks_total import TotalityCheck

K = 1000
CHECKS = [
    OracleCheck('P01', pairs_of('point_in_segment point_in_multisegment '
                                'point_in_contour'), 100 * K, 2000 * K),
    OracleCheck('P02', pairs_of('point_in_region point_in_multiregion '
                                'point_in_polygon point_in_multipolygon'),
                60 * K, 1500 * K),
    OracleCheck('P03', pairs_of('segment_in_segment segment_in_multisegment'),
                80 * K, 2000 * K, (1, 3)),
    OracleCheck('P04', pairs_of('multisegment_in_multisegment'),
                40 * K, 800 * K),
    OracleCheck('P05', pairs_of('segment_in_contour multisegment_in_contour '
                                'contour_in_contour'), 40 * K, 800 * K,
                (2, 2, 2)),
    OracleCheck('P06', pairs_of('segment_in_region'), 100 * K, 2000 * K),
    OracleCheck('P07', pairs_of('multisegment_in_region contour_in_region'),
                60 * K, 1200 * K),
    OracleCheck('P08', pairs_of('segment_in_multiregion '
                                'multisegment_in_multiregion '
                                'contour_in_multiregion'), 50 * K, 1000 * K),
    OracleCheck('P09', pairs_of('segment_in_polygon multisegment_in_polygon '
                                'contour_in_polygon'), 50 * K, 1000 * K),
    OracleCheck('P10', pairs_of('segment_in_multipolygon '
                                'multisegment_in_multipolygon '
                                'contour_in_multipolygon'), 40 * K, 800 * K),
    OracleCheck('P11', pairs_of('region_in_region region_in_multiregion '
                                'multiregion_in_multiregion'), 40 * K,
                800 * K, (2, 3, 3)),
    OracleCheck('P12', pairs_of('region_in_polygon multiregion_in_polygon '
                                'polygon_in_polygon'), 40 * K, 800 * K,
                (2, 3, 4)),
    OracleCheck('P13', pairs_of('region_in_multipolygon '
                                'multiregion_in_multipolygon '
                                'polygon_in_multipolygon '
                                'multipolygon_in_multipolygon'), 40 * K,
                800 * K, (2, 2, 3, 3)),
    RepresentationCheck('P14', 16 * K, 300 * K),
    ComplementCheck('P15', 16 * K, 300 * K),
    AffineCheck('P16', 20 * K, 400 * K),
    NumbersCheck('P17', 20 * K, 400 * K),
    HistoryCheck('P18', 1200, 20000),
    ContextCheck('P19', 12 * K, 250 * K),
    TotalityCheck('P20', 6 * K, 100 * K),
    CostCheck('P21', 245, 1960),
    PartsCheck('P22', 16 * K, 300 * K),
    PointwiseCheck('P23', 12 * K, 250 * K),
    InclusionCheck('P24', 16 * K, 300 * K),
    ScaleCheck('P25', [pair for pair in api.ALL_PAIRS
                       if pair not in CONSTANT_COST], 1200, 20000),
    MemoryCheck('P26', 245, 2940),
]
CHECKS = {check.property: check for check in CHECKS}
