"""Independent solar astronomy (no code from the package under test).

Everything here is written from Meeus, *Astronomical Algorithms* (2nd ed.),
chapters 22, 25 and 27, and the Espenak/Meeus (2006) polynomials for Delta T.
Julian days here are the ordinary astronomical ones: for a proleptic Gregorian
ordinal n (stdlib date.toordinal), midnight is n + 1721424.5.
The package under test counts its "exact" Julian days two lower
(n + 1721422.5); EXACT_SHIFT converts.
"""
import math

EXACT_SHIFT = 2.0          # true JD = package "exact" JD + 2
ORD0 = 1721424.5           # true JD of midnight starting ordinal 0 (+ n)

_27C = [
    (485, 324.96, 1934.136), (203, 337.23, 32964.467), (199, 342.08, 20.186),
    (182, 27.85, 445267.112), (156, 73.14, 45036.886),
    (136, 171.52, 22518.443), (77, 222.54, 65928.934), (74, 296.72, 3034.906),
    (70, 243.58, 9037.513), (58, 119.81, 33718.147), (52, 297.17, 150.678),
    (50, 21.02, 2281.226), (45, 247.54, 29929.562), (44, 325.15, 31555.956),
    (29, 60.93, 4443.417), (18, 155.12, 67555.328), (17, 288.79, 4562.452),
    (16, 198.04, 62894.029), (14, 199.76, 31436.921), (12, 95.39, 14577.848),
    (12, 287.11, 31931.756), (12, 320.81, 34777.259), (9, 227.73, 1222.114),
    (8, 15.45, 16859.074)]

_EQ = {  # (before 1000, after 1000): March, June, September, December
    0: ((1721139.29189, 365242.13740, 0.06134, 0.00111, -0.00071),
        (2451623.80984, 365242.37404, 0.05169, -0.00411, -0.00057)),
    1: ((1721233.25401, 365241.72562, -0.05323, 0.00907, 0.00025),
        (2451716.56767, 365241.62603, 0.00325, 0.00888, -0.00030)),
    2: ((1721325.70455, 365242.49558, -0.11677, -0.00297, 0.00074),
        (2451810.21715, 365242.01767, -0.11575, 0.00337, 0.00078)),
    3: ((1721414.39987, 365242.88257, -0.00769, -0.00933, -0.00006),
        (2451900.05952, 365242.74049, -0.06223, -0.00823, 0.00032)),
}


def equinox_jde(g_year, season=0):
    """Dynamical time (JDE) of an equinox or solstice of a Gregorian year."""
    co = _EQ[season][0 if g_year < 1000 else 1]
    y = g_year / 1000 if g_year < 1000 else (g_year - 2000) / 1000
    jde0 = sum(c * y ** i for i, c in enumerate(co))
    t = (jde0 - 2451545.0) / 36525
    w = math.radians(35999.373 * t - 2.47)
    dl = 1 + 0.0334 * math.cos(w) + 0.0007 * math.cos(2 * w)
    s = sum(a * math.cos(math.radians(b + c * t)) for a, b, c in _27C)
    return jde0 + 0.00001 * s / dl


def delta_t(year):
    """Delta T in seconds, Espenak & Meeus 2006, decimal year."""
    y = year
    if y < -500:
        u = (y - 1820) / 100
        return -20 + 32 * u * u
    if y < 500:
        u = y / 100
        return (10583.6 + u * (-1014.41 + u * (33.78311 + u * (-5.952053 + u * (
            -0.1798452 + u * (0.022174192 + u * 0.0090316521))))))
    if y < 1600:
        u = (y - 1000) / 100
        return (1574.2 + u * (-556.01 + u * (71.23472 + u * (0.319781 + u * (
            -0.8503463 + u * (-0.005050998 + u * 0.0083572073))))))
    if y < 1700:
        t = y - 1600
        return 120 - 0.9808 * t - 0.01532 * t * t + t ** 3 / 7129
    if y < 1800:
        t = y - 1700
        return (8.83 + 0.1603 * t - 0.0059285 * t * t + 0.00013336 * t ** 3
                - t ** 4 / 1174000)
    if y < 1860:
        t = y - 1800
        return (13.72 - 0.332447 * t + 0.0068612 * t ** 2 + 0.0041116 * t ** 3
                - 0.00037436 * t ** 4 + 0.0000121272 * t ** 5
                - 0.0000001699 * t ** 6 + 0.000000000875 * t ** 7)
    if y < 1900:
        t = y - 1860
        return (7.62 + 0.5737 * t - 0.251754 * t ** 2 + 0.01680668 * t ** 3
                - 0.0004473624 * t ** 4 + t ** 5 / 233174)
    if y < 1920:
        t = y - 1900
        return (-2.79 + 1.494119 * t - 0.0598939 * t ** 2
                + 0.0061966 * t ** 3 - 0.000197 * t ** 4)
    if y < 1941:
        t = y - 1920
        return 21.20 + 0.84493 * t - 0.076100 * t ** 2 + 0.0020936 * t ** 3
    if y < 1961:
        t = y - 1950
        return 29.07 + 0.407 * t - t * t / 233 + t ** 3 / 2547
    if y < 1986:
        t = y - 1975
        return 45.45 + 1.067 * t - t * t / 260 - t ** 3 / 718
    if y < 2005:
        t = y - 2000
        return (63.86 + 0.3345 * t - 0.060374 * t ** 2 + 0.0017275 * t ** 3
                + 0.000651814 * t ** 4 + 0.00002373599 * t ** 5)
    if y < 2050:
        t = y - 2000
        return 62.92 + 0.32217 * t + 0.005589 * t * t
    if y < 2150:
        return -20 + 32 * ((y - 1820) / 100) ** 2 - 0.5628 * (2150 - y)
    u = (y - 1820) / 100
    return -20 + 32 * u * u


def year_of(jd):
    return 2000 + (jd - 2451545.0) / 365.2425


def sun(jd_ut):
    """Apparent right ascension, declination (deg) and the equation of time
    helper: returns (alpha, delta, gst) in degrees, for a UT Julian day."""
    jde = jd_ut + delta_t(year_of(jd_ut)) / 86400
    t = (jde - 2451545.0) / 36525
    l0 = 280.46646 + 36000.76983 * t + 0.0003032 * t * t
    m = math.radians(357.52911 + 35999.05029 * t - 0.0001537 * t * t)
    c = ((1.914602 - 0.004817 * t - 0.000014 * t * t) * math.sin(m)
         + (0.019993 - 0.000101 * t) * math.sin(2 * m)
         + 0.000289 * math.sin(3 * m))
    om = math.radians(125.04 - 1934.136 * t)
    lam = math.radians(l0 + c - 0.00569 - 0.00478 * math.sin(om))
    eps = math.radians(23.4392911 - 0.0130041667 * t - 1.64e-7 * t * t
                       + 5.036e-7 * t ** 3 + 0.00256 * math.cos(om))
    alpha = math.degrees(math.atan2(math.cos(eps) * math.sin(lam),
                                    math.cos(lam)))
    delta = math.degrees(math.asin(math.sin(eps) * math.sin(lam)))
    tu = (jd_ut - 2451545.0) / 36525
    gst = (280.46061837 + 360.98564736629 * (jd_ut - 2451545.0)
           + 0.000387933 * tu * tu - tu ** 3 / 38710000)
    gst += -0.00478 * math.sin(om) * math.cos(eps)
    return alpha % 360, delta, gst % 360


def hour_angle(jd_ut, lon):
    """Local hour angle of the sun in degrees, (-180, 180]; lon east +."""
    a, _, g = sun(jd_ut)
    h = (g + lon - a) % 360
    return h - 360 if h > 180 else h


def altitude(jd_ut, lat, lon):
    a, d, g = sun(jd_ut)
    h = math.radians(g + lon - a)
    la, d = math.radians(lat), math.radians(d)
    return math.degrees(math.asin(math.sin(la) * math.sin(d)
                                  + math.cos(la) * math.cos(d) * math.cos(h)))


def sunset_near(jd_guess, lat, lon, h0=-0.8333):
    """UT Julian day of the sunset on the local solar day whose noon is
    nearest to jd_guess; None when the sun does not set."""
    noon = jd_guess
    for _ in range(4):
        noon -= hour_angle(noon, lon) / 360.98564736629
    t = noon + 0.25
    for _ in range(8):
        _, d, _ = sun(t)
        la, d = math.radians(lat), math.radians(d)
        ch = ((math.sin(math.radians(h0)) - math.sin(la) * math.sin(d))
              / (math.cos(la) * math.cos(d)))
        if not -1 < ch < 1:
            return None
        t += (math.degrees(math.acos(ch)) - hour_angle(t, lon)) / 361
    return t


def tol(year):
    """Seconds within which the package's sunsets agree with those here for
    a Badi' year (observed: at most 2.5 s, 7 s and 19 s)."""
    return 6 if year <= 300 else 14 if year <= 700 else 32


def tol_deg(year):
    """The same for altitudes and hour angles, in degrees (observed: 0.004,
    0.021 and 0.057)."""
    return 0.012 if year <= 300 else 0.045 if year <= 700 else 0.1
