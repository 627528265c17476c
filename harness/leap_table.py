"""Which years have five days of Ayyam-i-Ha.

Generated once from the pinned tree and committed, so that a change to the
package's tables shows up against it.  C04 checks it for the years from -260
on against the independent astronomy in astro.py.
"""
FIRST_YEAR = -1843          # one before the first supported year
FIRST_ORDINAL = -287      # proleptic Gregorian ordinal of its first day
# One bit per year from FIRST_YEAR on, after a leading 1 bit.
BITS = bin(int("""
288888884444444422222222111111110888888884444444422222222111111110888888
884444444422222222111111110888888888444444442222222211111111088888888444
444442222222211111111088888888444444442222222211111111088888888444444444
222222221111111108888888844444444222222221111111108888888844444444222222
221111111108888888844444444422222222111111110888888884444444422222222111
111110888888884444444422222222111111111108888888844444444222222221111111
108888888844444444222222221111111108888888844444444222222211111111088888
888844444442222222211111111088888888444444442222222211111111088888888444
444442222222211111111088888888444444442222222211111111088888888444444442
222222211111111088888888444444442222222211111111088888888444444442222222
21111111108888888844444444222223
""".replace("\n", ""), 16))[3:]
