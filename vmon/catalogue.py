"""Axes of the documented ellipsoids in metres, as published (Earth: agree with PROJ to 1 mm where PROJ lists them)."""

AXES = {
    'maupertuis': (6397300.0, 6363806.283),
    'plessis': (6376523.0, 6355862.9333),
    'everest1830': (6377299.365, 6356098.359),
    'everest1830m': (6377304.063, 6356103.039),
    'everest1967': (6377298.556, 6356097.55),
    'airy': (6377563.396, 6356256.909),
    'bessel': (6377397.155, 6356078.963),
    'clarke1866': (6378206.4, 6356583.8),
    'clarke1878': (6378190.0, 6356456.0),
    'clarke1860': (6378249.145, 6356514.87),
    'helmert': (6378200.0, 6356818.17),
    'hayford': (6378388.0, 6356911.946),
    'international1924': (6378388.0, 6356911.946),
    'krassovsky1940': (6378245.0, 6356863.019),
    'wgs66': (6378145.0, 6356759.769),
    'australian': (6378160.0, 6356774.719),
    'international1967': (6378157.5, 6356772.2),
    'grs67': (6378160.0, 6356774.516),
    'sa1969': (6378160.0, 6356774.719),
    'wgs72': (6378135.0, 6356750.52001609),
    'grs80': (6378137.0, 6356752.31414036),
    'wgs84': (6378137.0, 6356752.31424518),
    'wgs84_mean': (6371008.7714, 6371008.7714),
    'iers1989': (6378136.0, 6356751.302),
    'pz90.11': (6378136.0, 6356751.3618),
    'iers2003': (6378136.6, 6356751.9),
    'gsk2011': (6378136.5, 6356751.758),
    'mercury': (2440500.0, 2438300.0),
    'venus': (6051800.0, 6051800.0),
    'moon': (1738100.0, 1736000.0),
    'mars': (3396900.0, 3376097.80585952),
    'jupiter': (71492000.0, 66770054.3475922),
    'io': (1829700.0, 1815800.0),
    'saturn': (60268000.0, 54364301.5271271),
    'uranus': (25559000.0, 24973000.0),
    'neptune': (24764000.0, 24341000.0),
    'pluto': (1188000.0, 1188000.0),
    'jupyter': (71492000.0, 66770054.3475922),
}
