P('C30', 'The place of the sun and the tilt of the earth are those of the theory',
  'The longitude (mean, true, apparent and heliocentric), latitude and '
  'distance of the sun, the arguments of moon and sun, the nutation, the '
  'obliquity of the ecliptic, the sun\'s right ascension and declination, the '
  'sidereal time and the aberration agree with the published '
  'theory for every instant of the years -2000 to 3000, whatever was '
  'computed before, in degrees and in radians alike.',
  'inputs', 'for every instant of the range, in both units',
  'Tests compare single instants, most of them with numbers that the code '
  'itself gave; each series has terms that count in other eras only.',
  [('sun', BASE + ':BaseCalendar._heliocentric_ecliptical_longitude'),
   ('distance', BASE + ':BaseCalendar._radius_vector'),
   ('nutation', BASE + ':BaseCalendar._nutation_obliquity_longitude'),
   ('obliquity', BASE + ':BaseCalendar._true_obliquity_of_ecliptic'),
   ('apparent place', BASE + ':BaseCalendar._apparent_solar_longitude'),
   ('periodic terms', AST + ':AstronomicalTerms')],
  'differential PBT against independent sums of the published series', 'Drawn instants; '
  'a few thousandths of an arc second against the same published series '
  '(VSOP87 of Meeus, IAU 1980), 20 in longitude and 0.8 in nutation against '
  'shorter ones.')
P('C01', 'Every Badí‘ day has exactly one ordinal, and ordinals count days',
  'Converting any date of the supported range to its ordinal and back gives '
  'the same date, and converting any ordinal in range to a date and back '
  'gives the same ordinal, in the short and in the long form. The day after '
  'a date has the next ordinal, ordinals are ordered as dates are, and the '
  'weekday advances by one with each. The ordinals agree with the published '
  'calendar (leap years, 19 months of 19 days, Ayyám-i-Há between the 18th '
  'and the 19th).',
  'inputs', 'for every day of the years -1842..1161, in both forms',
  'The tests convert about a dozen dates; 1.1 million days across 3004 '
  'irregularly spaced leap years cannot be sampled by hand.',
  [('date.toordinal / fromordinal', DT + ':date.toordinal'),
   ('ordinal arithmetic', TDU + ':TimeDateUtils._ymd2ord'),
   ('ordinal inverse', TDU + ':TimeDateUtils._ord2ymd'),
   ('Julian day of a date', BC + ':BahaiCalendar.jd_from_badi_date')],
  'PBT against an integer reference model', 'Every year, sampled days in the '
  'quick tier; every day in the thorough tier.')
P('C02', 'A date or time can be built exactly when the calendar has it',
  'Building a date, time or datetime from fields succeeds exactly when the '
  'fields name an existing day and time (Ayyám-i-Há has 4 or 5 days as the '
  'year is common or leap), and the object gives back the fields it was '
  'built from. Anything else is refused with an exception and never '
  'silently turned into another day.',
  'inputs', 'for every tuple of fields, short and long form, valid or not',
  'The tests try a few invalid fields in one or two years; validity depends '
  'on the length of each of 3004 years and on every field.',
  [('date validation', BC + ':BahaiCalendar._check_valid_badi_date'),
   ('time validation', TDU + ':TimeDateUtils._check_time_fields'),
   ('construction', DT + ':date.__new__'),
   ('construction', DT + ':datetime.__new__')],
  'PBT against a validity model',
  'All years for Ayyám-i-Há; drawn tuples elsewhere.')
P('C03', 'The long and the short form name the same days',
  'Turning a short form date into the long form (Kull-i-Shay, Váḥid, year) '
  'and back gives the same date and time, for positive, zero and negative '
  'years, and the long form is the year counted in cycles of 361 and 19. '
  'Packing a time into a fraction of the day and unpacking it gives the same '
  'time. Equal dates in the two forms compare and hash equal.',
  'inputs', 'for every year, date and time of the range',
  'Tests convert some twenty dates; cycle boundaries and negative years '
  'make up hundreds of cases.',
  [('long from short', BC + ':BahaiCalendar.long_date_from_short_date'),
   ('short from long', BC + ':BahaiCalendar.short_date_from_long_date'),
   ('packing', BC + ':BahaiCalendar.date_from_kvymdhms'),
   ('unpacking', BC + ':BahaiCalendar.kvymdhms_from_b_date'),
   ('comparison', DT + ':date._cmp_key')],
  'round-trip PBT with a base-19 model', 'All years; drawn dates and times.')
P('C04', 'Naw-Rúz is the day whose sunset-bounded span holds the equinox',
  'Each year begins at the sunset in Ṭihrán that starts the day on which the '
  'March equinox falls, so year lengths are 365 or 366 days and Naw-Rúz falls '
  'within two days of March 20. Leap years are exactly the years of 366 days, '
  'and the Gregorian dates given for Naw-Rúz and the first day of Riḍván are '
  'those of the 1st and the 32nd day of the year.',
  'inputs', 'for every year of the range (astronomical claim: years -260 on)',
  'Tests check published Naw-Rúz dates of a limited span; the equinox can '
  'fall seconds from sunset in any of 3004 years.',
  [('year starts', BC + ':BahaiCalendar._YEAR_START'),
   ('Naw-Rúz', BC + ':BahaiCalendar.naw_ruz_g_date'),
   ('Riḍván', BC + ':BahaiCalendar.first_day_of_ridvan_g_date'),
   ('leap rule', BC + ':BahaiCalendar._is_leap_year')],
  'exhaustive sweep against independent astronomy',
  'Exhaustive over years; independent equinox and sunset computation.')
P('C05', 'Sunset, sunrise, midday and equinox moments are astronomically right',
  'The sunset, sunrise and midday computed for a place and day agree with the '
  'sun\'s position: at sunset and sunrise its centre is 0.83° below the '
  'horizon, within half a minute over the modern era. The equinox and '
  'solstice moments and the difference between dynamical and universal time '
  'agree with the published formulas.',
  'inputs', 'for every day, and every place where the sun sets that day',
  'Tests compare a few places and days; errors depend on latitude, '
  'longitude, season and era.',
  [('sunset', BASE + ':BaseCalendar._sun_setting'),
   ('sunrise', BASE + ':BaseCalendar._sun_rising'),
   ('Delta T', BASE + ':BaseCalendar._delta_t'),
   ('equinoxes', BASE
    + ':BaseCalendar._find_moment_of_equinoxes_or_solstices'),
   ('midday', BC + ':BahaiCalendar.midday')],
  'differential PBT against independent astronomy',
  'Drawn places and days, tolerance 30 s (sunset) to 2 min (old eras).')
P('C06', 'Badí‘ dates and Julian days convert both ways, at any place',
  'Converting a Badí‘ date with a time to a Julian day and back gives the '
  'same date and time, at any place. An instant belongs to the day that '
  'began with the last sunset at the place, and its time is the time since '
  'that sunset. A later instant never gets an earlier date. No conversion '
  'yields a day, hour, minute or second that does not exist. The output '
  'options (short or long, fraction or hours, trimmed or not) describe the '
  'same moment.',
  'inputs', 'for every date, time and Julian day of the range, and every '
  'place where the sun sets daily',
  'Tests convert a few dozen dates, mostly in Ṭihrán; the day boundary '
  'moves with place and season, and rounding errors appear only next to it.',
  [('date to Julian day', BC + ':BahaiCalendar.jd_from_badi_date'),
   ('Julian day to date', BC + ':BahaiCalendar.badi_date_from_jd'),
   ('time since sunset', BC + ':BahaiCalendar._utc_to_badi_time'),
   ('day fractions', BC + ':BahaiCalendar._get_hms')],
  'round-trip and metamorphic PBT with an independent sunset',
  'Drawn dates, instants and places; rounding of 1e-6 day.')
P('C07', 'Badí‘ dates, Gregorian dates and timestamps name the same instants',
  'Converting a Badí‘ date with a time to a Gregorian date and back gives '
  'the same date and time. The Gregorian date is that of the civil instant '
  'which lies the given time after the sunset that began the Badí‘ day. The '
  'Badí‘ date of a POSIX timestamp is that of the same instant.',
  'inputs', 'for every date, time, timestamp and place',
  'Tests convert tabulated dates in Ṭihrán; sunsets, zones and the date '
  'boundary vary with every input.',
  [('to Gregorian', BC + ':BahaiCalendar.gregorian_date_from_badi_date'),
   ('from Gregorian', BC + ':BahaiCalendar.badi_date_from_gregorian_date'),
   ('from a timestamp', BC + ':BahaiCalendar.badi_date_from_timestamp')],
  'differential PBT against the standard library and astronomy',
  'Drawn instants and places.')
P('C08', 'The Gregorian calendar converts to and from Julian days correctly',
  'Gregorian dates and Julian days convert both ways without loss. From 1583 '
  'on, and throughout with the exact option, the Julian day is that of the '
  'proleptic Gregorian calendar; before the reform the historic count is '
  'that of the Julian calendar, leap days of its century years included. '
  'Invalid dates and times are refused. The '
  'packed fraction forms of a date give back the fields, and the date and '
  'time of a POSIX timestamp are those of its instant.',
  'inputs', 'for every Gregorian date and time of the years -4711 to 9999',
  'Tests convert a few dates; century years, the reform and rounding at '
  'midnight are special cases among 3.6 million days.',
  [('Julian day of a date',
    GC + ':GregorianCalendar.jd_from_gregorian_date'),
   ('date of a Julian day',
    GC + ':GregorianCalendar.gregorian_date_from_jd'),
   ('packing', GC + ':GregorianCalendar.date_from_ymdhms'),
   ('timestamp', GC + ':GregorianCalendar.posix_timestamp'),
   ('unpacking', GC + ':GregorianCalendar.ymdhms_from_date'),
   ('validation', GC + ':GregorianCalendar._check_valid_gregorian_month_day')],
  'differential PBT against datetime and a day count', 'Drawn dates.')
P('C09', 'Date arithmetic counts days',
  'Adding a timedelta to a date gives the date that many days later, '
  'subtracting two dates gives the number of days between them, and the two '
  'undo each other; fractions of a day in the timedelta are dropped. It '
  'works the same in the long form, whose results are long form dates. '
  'Results outside the range raise OverflowError; other operand types raise '
  'TypeError.',
  'inputs', 'for every pair of dates and every timedelta',
  'Tests add a handful of timedeltas; crossing Ayyám-i-Há, leap years, '
  'cycles and year 0 depends on both operands.',
  [('addition', DT + ':date.__add__'), ('subtraction', DT + ':date.__sub__'),
   ('ordinal inverse', TDU + ':TimeDateUtils._ord2ymd')],
  'PBT against an integer reference model', 'Drawn dates and timedeltas.')
P('C10', 'Datetime arithmetic is the arithmetic of instants',
  'Adding a timedelta to a datetime moves it by exactly that many days, '
  'seconds and microseconds, keeping its time zone and its form, and '
  'subtracting two datetimes gives the exact time between them, with the '
  'UTC offsets of aware ones taken into account. The two undo each other. '
  'Naive with aware, and other types, raise TypeError; results outside the '
  'range raise OverflowError.',
  'inputs', 'for every pair of datetimes, naive or with fixed offsets, and '
  'every timedelta',
  'Tests add a few timedeltas; carries through microseconds, hours, months '
  'and cycles depend on all operands.',
  [('addition', DT + ':datetime.__add__'),
   ('subtraction', DT + ':datetime.__sub__')],
  'differential PBT against the standard library', 'Drawn operands.')
P('C11', 'Dates, datetimes and times are totally ordered and hash as equal',
  'Comparing dates, datetimes or times orders them as days and instants are '
  'ordered, with Ayyám-i-Há between the 18th and the 19th month, whatever '
  'form each is in; aware objects compare by their UTC instants. Exactly '
  'one of <, == and > holds, sorting is consistent, and objects that '
  'compare equal have equal hashes. Objects of unlike types, or naive and '
  'aware, are unequal and refuse to be ordered.',
  'inputs', 'for every pair and every list of dates, datetimes and times',
  'Tests compare some twenty pairs; order and hash must agree over all '
  'pairs of forms, offsets and months.',
  [('date order', DT + ':date._cmp'), ('datetime order', DT + ':datetime._cmp'),
   ('time order', DT + ':time._cmp'), ('hash', DT + ':datetime.__hash__'),
   ('hash', DT + ':time.__hash__')],
  'PBT against an integer key, pairwise and over lists', 'Drawn pairs, close '
  'to one another half of the time.')
P('C12', 'Pickling and copying give the same object back',
  'A date, datetime, time, timezone or TZWithCoords that is pickled with any '
  'protocol and unpickled, copied or deep copied has the same class, '
  'fields, form, time zone, hash, repr and behaviour, and equals the '
  'original. So do instances of subclasses and objects inside containers.',
  'inputs', 'for every value, every protocol',
  'Tests pickle one value of each class; the byte encoding has one case per '
  'field, form and sign.',
  [('date state', DT + ':date._getstate'),
   ('datetime state', DT + ':datetime._getstate'),
   ('time state', DT + ':time._getstate'),
   ('zone state', DT + ':TZWithCoords')],
  'round-trip PBT', 'Drawn values; protocols 0-5.')
P('C13', 'Dates survive their ISO 8601 text, in every accepted shape',
  'fromisoformat reads back the date that isoformat or str wrote, for every '
  'year, and reads every ISO shape (YYYY-MM-DD, YYYYMMDD, YYYY-DDD, YYYYDDD, '
  'YYYY-MM, week dates) as the day it names. Texts naming a day the calendar '
  'does not have are refused with ValueError.',
  'inputs', 'for every date and every shape',
  'Tests parse some thirty texts; parsing is by position and sign, and '
  'day-of-year and week shapes depend on the length of the year.',
  [('writing', DT + ':date.isoformat'),
   ('reading', TDU + ':TimeDateUtils._parse_isoformat_date'),
   ('reading', TDU + ':TimeDateUtils._parse_isoformat_date_time_timezone')],
  'round-trip PBT, and texts written from a model', 'All years; drawn days.')
P('C14', 'Datetimes and times survive their ISO 8601 text',
  'fromisoformat reads back the datetime or time that isoformat wrote, with '
  'its microseconds and UTC offset, for every separator and timespec; a '
  'timespec cuts the text as the standard library does. Basic and extended '
  'times and decimal fractions of the last field are read as the moment '
  'they name. str of the long form shows all fields.',
  'inputs', 'for every datetime, time, offset, separator and timespec',
  'Tests parse some forty texts; padding, signs and fractions each have '
  'rare values that break.',
  [('writing', DT + ':datetime.isoformat'), ('writing', DT + ':time.isoformat'),
   ('reading', TDU + ':TimeDateUtils._parse_isoformat_time'),
   ('offsets', TDU + ':TimeDateUtils._parse_isoformat_timezone')],
  'round-trip and differential PBT', 'Whole-minute offsets for reading.')
P('C15', 'ISO text is read strictly: as what it says, or not at all',
  'For any text at all, fromisoformat either gives the value the ISO 8601 '
  'grammar assigns to it or refuses it, with ValueError, or AssertionError '
  'for a part that is out of range. It never drops, adds or shifts '
  'characters, accepts trailing junk, digits that are not those of ASCII or '
  'an impossible field, or fails with another kind of exception.',
  'inputs', 'for every text',
  'Tests try a dozen malformed texts; the set of malformed texts is '
  'unbounded.',
  [('splitting', TDU
    + ':TimeDateUtils._parse_isoformat_date_time_timezone'),
   ('dates', TDU + ':TimeDateUtils._parse_isoformat_date'),
   ('times', TDU + ':TimeDateUtils._parse_isoformat_time'),
   ('zones', TDU + ':TimeDateUtils._parse_isoformat_timezone')],
  'grammar-based fuzzing against a reference grammar',
  'Pieces, mutations and random letters.')
P('C16', 'strftime writes what each directive documents',
  'Each strftime directive writes what the documentation\'s table says of '
  'it, with the documented padding, for dates of positive, zero and '
  'negative years, datetimes and times, naive '
  'and aware, short and long form. A format is written as the concatenation '
  'of its parts, with literal text unchanged. Unknown directives raise '
  'ValueError.',
  'inputs', 'for every value and every format',
  'Tests format a few values per directive; weeks, 12 hour clock, offsets '
  'and cycles have their own edge values.',
  [('formatter', TDU + ':TimeDateUtils.strftime'),
   ('weeks', TDU + ':TimeDateUtils.U'), ('clock', TDU + ':TimeDateUtils.I'),
   ('offset', TDU + ':TimeDateUtils.z')],
  'differential PBT against a formatter written from the docs',
  'Every year for the week directives; drawn formats.')
P('C17', 'strptime reads back what strftime writes, or refuses the text',
  'datetime.strptime gives the value that the text states when it is read by '
  'the format: whatever strftime wrote with enough directives to name the '
  'moment is read back as that moment, in any letter case and with any '
  'permitted padding. A text that does not match the format, that leaves '
  'data unconverted or that names a day or time that does not exist is '
  'refused with ValueError, and so is a format with an unknown or '
  'contradictory directive.',
  'inputs histories', 'for every value, format and text, and after any other '
  'formats were used',
  'Tests parse one text per directive; directives interact, and matching '
  'depends on widths and on the names that begin alike.',
  [('reading', STRP + ':StrpTime._parse_found_dict'),
   ('reading', STRP + ':StrpTime._miscellaneous'),
   ('patterns', STRP + ':TimeRE'),
   ('weeks', STRP + ':_calc_julian_from_U_or_W'),
   ('entry', DT + ':datetime.strptime')],
  'round-trip PBT, and fuzzing against a backtracking reference reader',
  'Drawn formats and mutations of texts.')
P('C18', 'ISO weeks number every day once, and name it back',
  'isocalendar gives the ISO year, week and weekday of a day, where weeks '
  'run from Jalál to Istiqlál and week 1 is the first with four days in the '
  'year; successive days have successive positions. fromisocalendar and ISO '
  'week texts give back the day, and weeks or weekdays that do not exist '
  'are refused.',
  'inputs', 'for every day, and every year, week and weekday',
  'Tests check ten dates; which week a day belongs to near a year\'s ends '
  'depends on weekday and length of the year.',
  [('isocalendar', DT + ':date.isocalendar'),
   ('week to date', TDU + ':TimeDateUtils._isoweek_to_badi'),
   ('week 1', TDU + ':TimeDateUtils._isoweek1jalal')],
  'PBT against an integer week model', 'All years; drawn weeks.')
P('C19', 'POSIX timestamps and Badí‘ dates and datetimes name the same instant',
  'fromtimestamp gives the Badí‘ date or datetime at a place for a number of '
  'seconds since 1970-01-01T00:00 UTC, in local time or the given zone, and '
  'a later timestamp never gives an earlier result. The timestamp of a '
  'datetime made from a timestamp is that timestamp to the microsecond; the '
  'timestamps of aware datetimes differ by the seconds between them. now '
  'and today agree with fromtimestamp of the clock. NaN, infinite and out '
  'of range timestamps and bad zones are refused.',
  'inputs', 'for every timestamp, place and zone',
  'Tests convert some ten timestamps at one place; sunsets, fractions, year '
  'ends and negative timestamps depend on the value.',
  [('date', DT + ':date.fromtimestamp'),
   ('datetime', DT + ':datetime._fromtimestamp'),
   ('back', DT + ':datetime.timestamp'), ('back', DT + ':datetime._mktime'),
   ('clock', DT + ':datetime.now')],
  'PBT against a sunset model, and round trips', 'Years 1 to 3000; drawn '
  'timestamps and places.')
P('C20', 'Fixed offset zones and conversions work as the standard library\'s',
  'timezone objects are made, compared, hashed, printed and refused as those '
  'of the standard library. astimezone, utcoffset, tzname, dst, replace and '
  'fromutc of an aware datetime give the same instant and offsets as the '
  'standard library gives for the corresponding datetime, with any tzinfo '
  'object, equal zones are interchangeable, and a tzinfo that returns a wrong type or an offset of a day or '
  'more is refused.',
  'inputs', 'for every offset within a day, to the microsecond, and every '
  'tzinfo',
  'Tests use some ten offsets; carries into other days, months and cycles '
  'depend on offset and moment together.',
  [('zone', DT + ':timezone.__new__'), ('name', DT + ':timezone._name_from_offset'),
   ('conversion', DT + ':datetime.astimezone'),
   ('offset', DT + ':datetime.utcoffset'), ('offset', DT + ':time.utcoffset')],
  'differential PBT against the standard library', 'Drawn offsets, moments '
  'and tzinfo classes.')
P('C21', 'A place as a time zone keeps its offset, summer time and coordinates',
  'A TZWithCoords gives its latitude, longitude and offset unchanged, '
  'compares and hashes as the fixed zone of its offset, and converts '
  'datetimes like any zone. One made by fromzoneinfo tells summer time of a '
  'moment as the IANA zone does, for every year, whichever other places '
  'exist and after copying. Missing coordinates, offsets and names of wrong '
  'types, and offsets out of range are refused.',
  'inputs histories', 'for every place, zone name and moment, with other '
  'places in use',
  'Tests create four places; summer time depends on zone and moment, and '
  'places must not influence each other.',
  [('places', DT + ':TZWithCoords.__new__'),
   ('IANA zone', DT + ':TZWithCoords.fromzoneinfo'),
   ('summer time', DT + ':TZWithCoords.dst')],
  'PBT against zoneinfo', 'Whole table of IANA zones; drawn moments.')
P('C22', 'struct_time and ctime state the fields of the date or datetime',
  'timetuple and utctimetuple give the year, month, day, hour, minute, '
  'second, weekday, day of the year, DST flag, zone and offset of the object '
  '(of its UTC equivalent for utctimetuple), in the form of the object; the '
  'result is indexable, immutable and equal to its fields. ctime writes '
  'weekday, month, day, time and year of it.',
  'inputs', 'for every date and datetime, both forms',
  'Tests check some dozen values; day of the year, weekday and UTC carry '
  'change with every field.',
  [('tuple', TDU + ':TimeDateUtils._build_struct_time'),
   ('class', STR + ':struct_time'), ('datetime', DT + ':datetime.timetuple'),
   ('ctime', DT + ':datetime.ctime'), ('ctime', DT + ':date.ctime')],
  'PBT against an integer reference model', 'Drawn values and every year\'s '
  'ends.')
P('C23', 'A time of day behaves as a time of the standard library',
  'A time, naive or aware, keeps the fields, time zone and fold it was built '
  'with, cannot be changed, and gives the isoformat, string, utcoffset, '
  'tzname and dst of the standard library\'s time with those fields. '
  'replace changes the named fields only, keeps the class and refuses a '
  'field out of range. Aware times compare and hash as time of day less '
  'UTC offset, to the microsecond.',
  'inputs', 'for every time, time zone, replacement and pair of times',
  'Tests use a few times and one zone; offsets of any number of seconds, '
  'hour 24, fold and subclasses combine.',
  [('class', DT + ':time.__new__'), ('comparison', DT + ':time._cmp'),
   ('hash', DT + ':time.__hash__'), ('replacement', DT + ':time.replace'),
   ('format', DT + ':time.isoformat')],
  'PBT against the standard library', 'Drawn times, zones and pairs.')
P('C24', 'Degrees, hours, day fractions and seconds convert without loss',
  'The calendars\' conversions among degrees, minutes and seconds of arc, '
  'hours, fractions of a day, counts of seconds and microseconds, and '
  'counts of days state the same quantity: the fields are in range, converting '
  'back gives the number, and a fraction given for the last field of a '
  'datetime is carried into the smaller fields. Options that exclude each '
  'other are refused together. Trimming removes only zeros at the end.',
  'inputs', 'for every value, those next to a whole unit included',
  'Rounding goes wrong only in a narrow range below a whole minute, second '
  'or microsecond, which tests do not sample.',
  [('angles', BASE + ':BaseCalendar._decimal_from_dms'),
   ('day fraction', BASE + ':BaseCalendar._hms_from_decimal_day'),
   ('seconds', BASE + ':BaseCalendar._sec_microsec_from_seconds'),
   ('seconds', BASE + ':BaseCalendar._dhms_from_seconds'),
   ('options', BASE + ':BaseCalendar._xor_boolean'),
   ('fractional fields', DT + ':datetime.__new__')],
  'PBT with round trips and rational arithmetic',
  'Drawn values, many next to a whole unit.')
P('C25', 'A result depends only on the arguments and the set place',
  'Every operation gives the same result whatever was done before it in the '
  'process, on whichever calendar object it is done (dates are calendars '
  'too), in whichever order and in however many threads at once. Setting '
  'local coordinates affects just what is documented to use the local place, '
  'and setting another place leaves nothing of the first.',
  'inputs histories schedules', 'for every history of operations and set '
  'places, and every interleaving of threads',
  'Tests call one method at a time in a fixed order; the calendars cache '
  'nutation sums, time zones and formats, and keep state in class and '
  'module variables.',
  [('cache', BASE + ':BaseCalendar._nutation_longitude'),
   ('cache', BASE + ':BaseCalendar._nutation_obliquity'),
   ('local place', 'badidatetime/__init__.py:set_local_coordinates'),
   ('format cache', STRP + ':StrpTime'),
   ('day table', TDU + ':TimeDateUtils.__init__')],
  'stateful PBT against a fresh process', 'Histories of up to 9 operations '
  'in up to 4 threads, sampled interleavings.')
P('C26', 'replace, combine and the parts change and keep exactly the fields',
  'replace on a date or datetime gives an object of the same class and form '
  'with the named fields changed and the others, time zone and fold '
  'included, kept; it is refused exactly when the resulting fields name no '
  'day or time, or belong to the other form. date, time, timetz and combine '
  'take a datetime apart and put it together again. The original never '
  'changes.',
  'inputs', 'for every date and datetime, form and set of replaced fields',
  'Tests replace fields of a handful of dates; the day may not exist in the '
  'resulting month or year, and zero, None and True are values of '
  'different meaning.',
  [('date', DT + ':date.replace'), ('datetime', DT + ':datetime.replace'),
   ('parts', DT + ':datetime.timetz'), ('whole', DT + ':datetime.combine')],
  'PBT against a field list and a validity model', 'Drawn objects and '
  'replacements.')
P('C27', 'Long form objects do what their short form twins do',
  'Every operation on a long form date or datetime (arithmetic, comparison, '
  'ordinal, weekday, ISO calendar, timestamp, strftime, conversion to '
  'another zone, replace, calendar conversions) gives the result that the '
  'same operation on the short form of that date gives, in the long form '
  'where it is a date, and fails where that fails.',
  'inputs', 'for every date, datetime and operation, negative and zero '
  'years included',
  'The long form counts years within cycles of 19 and 361, so each method '
  'must convert first; tests try a few methods on modern dates.',
  [('conversion', BC + ':BahaiCalendar.short_date_from_long_date'),
   ('date', DT + ':date._short_from_long_form'),
   ('arithmetic', DT + ':datetime.__add__'),
   ('makers', DT + ':date.fromordinal')],
  'metamorphic PBT: long form against short form', 'Drawn dates, datetimes '
  'and operands.')
P('C28', 'The repr of an object is an expression that makes it again',
  'Evaluating the repr of a date, datetime, time, timezone or TZWithCoords '
  'gives an equal object of the same class and form with the same fields, '
  'fold and time zone; so it does for subclasses. str and format with an '
  'empty format give the ISO text (the long form its own fields). '
  'The isocalendar result is a tuple that names its fields and cannot be '
  'changed.',
  'inputs', 'for every object of these classes',
  'The text omits fields that are zero, so it is right or wrong depending '
  'on the combination of fields, form, fold, zone and name.',
  [('date', DT + ':date.__repr__'), ('datetime', DT + ':datetime.__repr__'),
   ('time', DT + ':time.__repr__'), ('zones', DT + ':timezone.__repr__'),
   ('places', DT + ':TZWithCoords.__repr__'),
   ('ISO calendar', DT + ':_IsoCalendarDate')],
  'round-trip PBT', 'Drawn objects of every class.')
P('C29', 'The place that is set, on the machine as it is, is the local place',
  'set_local_coordinates makes LOCAL_COORD the latitude and longitude given, '
  'as whole numbers or not, or those the geocoder finds for a name, with the '
  'present UTC offset of the machine, and LOCAL and timezone.local the zone '
  'of that offset, in the package and its datetime module; given nothing, '
  'Ṭihrán. Timestamps of naive datetimes, date and datetime from a '
  'timestamp, now, today and astimezone without a zone are of that place '
  'and zone, in both forms, and nothing else depends on either. A name that '
  'is not found is refused.',
  'inputs', 'for every place, zone of the machine and sequence of settings',
  'The tests run on a machine in one zone, mostly at the default place.',
  [('setting', INIT + ':set_local_coordinates'),
   ('configuration', INIT + ':_locale_config'),
   ('place and offset', INIT + ':_get_local_coordinates'),
   ('local zone', DT + ':datetime._local_timezone'),
   ('naive timestamps', DT + ':datetime._mktime')],
  'PBT over sequences of settings on machines of drawn zones', 'Drawn '
  'places, 14 zones of the machine, up to three settings in a process each.')
P('C31', 'Objects of a subclass do what those of the base do, and stay of it',
  'An object of a subclass of date, datetime or time answers every method as '
  'an object of the base class with the same fields does, equals it, hashes '
  'like it and compares with it, and what makes a new object (constructors '
  'from text, ordinals, timestamps or ISO weeks, arithmetic, replace, '
  'combine, zone conversion, pickling, copying) makes one of the subclass '
  'where the standard library does, by way of the subclass\'s constructor, '
  'and one of the base where that does.',
  'inputs', 'for every subclass, operation and object',
  'Tests build base class objects; which of the many places that make a new '
  'object does it from a fixed class shows only with a subclass.',
  [('date arithmetic', DT + ':date.__add__'),
   ('date replace', DT + ':date.replace'),
   ('datetime arithmetic', DT + ':datetime.__add__'),
   ('combine', DT + ':datetime.combine'),
   ('strptime', DT + ':datetime.strptime'),
   ('time replace', DT + ':time.replace')],
  'metamorphic and differential PBT against the base and the standard library',
  'Drawn objects of two subclasses of each class, about 40 operations.')
