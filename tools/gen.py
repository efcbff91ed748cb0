#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the MIR rustc emits for /repo (pre/postconditions, z3/cvc5), counterexamples replayed on the compiled code'
NOTE = ('Every obligation is regenerated from the MIR of the current source and discharged for all inputs. Trusted: rustc, the MIR '
        'extractor and symbolic semantics (mirv/), the models of standard-library functions (mirv/natives.py), z3/cvc5, the specification. '
        'An obligation the verifier cannot decide within its time limit falls back to a bounded search of the compiled code and is reported as not proved.')
BNOTE = ' Obligation groups marked bounded in the evidence enumerate input shapes up to the stated length and are not counted as proved beyond it.'

P = []


def p(id, title, st, over, why, files, mech, observe, state=(), level='proof', note=NOTE, built=True, na=None):
    P.append(dict(id=id, title=title, statement=st, over=over, why=why, files=files, mech=mech, observe=observe, state=state,
                  level=level, note=note, built=built, na=na))


p('P01', 'Only real calendar dates in range can be built, and they denote that day',
  'Building a date from year, month and day succeeds exactly when the year is not zero (1 BC is -1), the month is 1..12, the day exists in that month of the proleptic Gregorian calendar, and the date lies between 4714-11-24 BC and 5874897-12-31. The value built is that day\'s distance in days from 2000-01-01. Every other combination, however extreme, is reported as an error and never crashes.',
  'all 2^96 combinations of year, month and day',
  'The tests build a few dozen dates; leap rules, BC years and the range ends need every year, month and day.',
  ['src/date.rs', 'src/common.rs'], [('date construction', 'src/date.rs try_from_ymd'), ('validation of year, month, day', 'src/common.rs validate_date'), ('calendar to day number', 'src/common.rs date2julian')], ['the date returned, or the error'])
p('P02', 'Adding, subtracting and differencing whole days is exact',
  'A finite date plus or minus a number of days is the date exactly that many days later or earlier, or an error when it leaves the supported range; infinite dates stay infinite. The difference of two finite dates is the exact number of days between them, and a difference involving an infinite date is an error. No day count crashes.',
  'all dates (finite and infinite) and all 32-bit day counts',
  'The tests use a handful of dates and counts; overflow and range ends depend on the exact values.',
  ['src/date.rs'], [('day arithmetic with range checks', 'src/date.rs add_days, sub_days, sub_date')], ['the date or day count returned, or the error'])
p('P03', 'Timestamps, times and intervals built from fields are exact or refused',
  'A timestamp built from year, month, day, hour, minute and seconds is that instant rounded to a microsecond; a time of day built from hour, minute and seconds is that many microseconds since midnight, 24:00:00 being the largest. Fields outside their ranges (including NaN or infinite seconds, and anything past 24:00:00) and results outside the supported range are errors. An interval built from years, months, weeks, days, hours, minutes and seconds has 12*years+months months, 7*weeks+days days and the exact time, whenever these totals fit.',
  'all 32-bit field values and all floating-point seconds',
  'The tests use ordinary field values; every combination of limits, carries and non-finite seconds is out of reach for samples.',
  ['src/timestamp.rs', 'src/time.rs', 'src/interval.rs', 'src/common.rs'], [('timestamp construction', 'src/timestamp.rs try_from_ymd_hms'), ('time construction', 'src/time.rs try_from_hms'), ('interval construction', 'src/interval.rs try_from_ymwd_hms')], ['the value returned, or the error'])
p('P04', 'Conversions between the types lose nothing and order is chronological',
  'A date converts to the timestamp of its midnight (or an error beyond the timestamp range), and a timestamp splits into the day that contains it and the time since that day began, also before 2000; infinities convert to the same infinity and have no time of day. Times and intervals convert into each other by their time part (an interval\'s taken modulo 24 hours). Dates, times and timestamps compare chronologically with the infinities at the ends, and exactly the two infinities are not finite.',
  'all values of each type',
  'The tests convert a few values near 2000; floor division before the epoch and range ends need all values.',
  ['src/date.rs', 'src/timestamp.rs', 'src/time.rs', 'src/interval.rs'], [('conversions', 'src/date.rs, src/timestamp.rs, src/time.rs TryFrom/From impls'), ('finiteness', 'DateTime impls')], ['the converted value, order and finiteness'])
p('P05', 'Calendar arithmetic on timestamps and dates is exact or refused',
  'Adding an interval to a finite timestamp first moves by its months, keeping the day of month or taking the last day of a shorter month, then by its days, then by its time, keeping the time of day through months and days; subtracting adds the negated interval. The result is exact, or an error when a step leaves the supported range or the interval cannot be negated; it never wraps or crashes. A date behaves as the timestamp of its midnight, a time of day as an interval of that length, and infinities stay.',
  'all timestamps and dates combined with all intervals and times of day',
  'The tests add a handful of intervals; month clipping, leap days, negative months and overflow need all combinations.',
  ['src/timestamp.rs', 'src/date.rs', 'src/common.rs'], [('calendar shift', 'src/timestamp.rs add_interval'), ('negation first', 'src/timestamp.rs sub_interval'), ('calendar conversions', 'src/common.rs julian2date, date2julian, days_of_month')], ['the timestamp returned, or the error'])
p('P06', 'The difference of two timestamps is exact',
  'Subtracting two finite timestamps (or a date from a timestamp) gives an interval without months whose days and time add up to exactly the difference, with less than a day of time and days and time of the same sign. A difference that does not fit, or involves an infinity, is an error.',
  'all pairs of timestamps and dates',
  'Samples do not reach the differences that overflow or the sign combinations around multiples of a day.',
  ['src/timestamp.rs', 'src/interval.rs'], [('difference', 'src/timestamp.rs sub_timestamp, sub_date'), ('normalisation', 'src/interval.rs justify_hours')], ['the interval returned, or the error'])
p('P07', 'The age of two timestamps leads from one to the other',
  'The age between two finite timestamps is an interval of months, days and time that all have the same sign (or are zero), with fewer than 31 days and less than 24 hours. It is the number of whole calendar months, then days, then time that separate the earlier from the later timestamp, where days borrowed come from the month of the earlier one; swapping the arguments negates it. An age involving an infinity is an error.',
  'all pairs of timestamps',
  'Borrowing across seconds, days, months and years depends on both arguments; the tests try a few pairs.',
  ['src/timestamp.rs', 'src/common.rs'], [('field-wise difference with borrow', 'src/timestamp.rs age')], ['the interval returned, or the error'])
p('P08', 'Sum, difference and negation of intervals are exact or refused',
  'The sum or difference of two intervals and the negation of an interval act on months, days and time separately and exactly. When any of the three does not fit, the result is an error, never a wrapped value.',
  'all pairs of intervals',
  'Overflow of one of three fields depends on exact extreme values no test samples.',
  ['src/interval.rs'], [('checked field arithmetic', 'src/interval.rs add_interval, sub_interval, negate')], ['the interval returned, or the error'])
p('P09', 'Justifying an interval keeps its length and normalises its fields',
  'Justifying hours turns every 24 hours into a day, justifying days turns every 30 days into a month, and justifying the whole interval does both. The total length (30-day months, 24-hour days) never changes, the fields adjusted end up below 24 hours and 30 days, and the fields involved all have the same sign. This holds whenever day and month counts fit.',
  'all intervals whose justified fields fit',
  'The sign corrections depend on combinations of signs and multiples of 24 hours or 30 days.',
  ['src/interval.rs'], [('justification', 'src/interval.rs justify_hours, justify_days, justify_interval')], ['the interval returned'])
p('P10', 'Intervals are ordered, equal and hashed by their length',
  'Two intervals compare by their length with 30-day months and 24-hour days, computed without overflow. They are equal exactly when neither is less than the other, equal intervals hash alike, and an interval converts to its length in microseconds.',
  'all pairs of intervals',
  'Agreement of order, equality and hash and absence of overflow concern all pairs, especially those spelled differently but equally long.',
  ['src/interval.rs'], [('length', 'src/interval.rs From<Interval> for i128'), ('order, equality, hash', 'src/interval.rs impls')], ['comparison results, hasher input, the length'])
p('P11', 'Arithmetic on times of day wraps at 24 hours exactly',
  'A time of day plus or minus an interval is the clock time that much later or earlier modulo 24 hours, whatever the size or sign of the interval; only its time part counts. The difference of two times is the exact amount of time between them.',
  'all times of day and all intervals',
  'Wrap-around for negative and huge intervals needs all values.',
  ['src/time.rs'], [('clock arithmetic', 'src/time.rs add_interval, sub_interval, sub_time')], ['the time or interval returned'])
p('P12', 'Truncating a timestamp or date gives the start of the unit it lies in',
  'Truncating a timestamp or date to a unit (microsecond up to millennium, ISO week and quarter included) gives the first instant of the calendar unit that contains it, an error when that lies outside the supported range or the unit does not apply. Truncating an infinity gives that infinity.',
  'all timestamps and dates, all units',
  'ISO weeks around new year, BC centuries and range ends depend on exact dates.',
  ['src/timestamp.rs', 'src/date.rs', 'src/common.rs'], [('truncation', 'src/common.rs PgTime truncate_*'), ('dispatch', 'src/timestamp.rs truncate, src/date.rs truncate')], ['the value returned, or the error'])
p('P13', 'Truncating an interval or time clears everything below the unit',
  'Truncating an interval or a time of day to a unit keeps the part down to that unit and clears what is smaller, rounding towards zero (quarters, decades, centuries and millennia in whole multiples). Truncating 24:00:00 gives a clock time below 24 hours. Units that do not apply, and a time part of 2^31 hours or more, are errors.',
  'all intervals and times, all units',
  'Sign handling and huge hour counts need all values.',
  ['src/interval.rs', 'src/time.rs', 'src/common.rs'], [('truncation', 'src/common.rs PgTime truncate_interval_*')], ['the value returned, or the error'])
p('P14', 'Fields extracted from timestamps and dates are the calendar\'s',
  'Every field that can be extracted from a timestamp or date (year, month, day, hour, minute, second with its fraction, day of week and year, ISO week and year, quarter, decade, century, millennium, Julian day) is the one the proleptic Gregorian and ISO calendars assign to that instant; years (ISO years too), centuries and millennia skip zero. Fields that do not apply, the epoch included, are errors, as are dates beyond the timestamp range. For an infinity, fields that cycle are 0 and fields that grow are that infinity.',
  'all timestamps and dates, all fields',
  'ISO weeks around new year, years before 1 AD and century borders depend on the exact date.',
  ['src/timestamp.rs', 'src/date.rs', 'src/common.rs'], [('extraction', 'src/timestamp.rs date_part, src/date.rs date_part'), ('ISO week and year', 'src/common.rs date_to_iso_week, date_to_iso_year')], ['the number returned, or the error'])
p('P15', 'Fields extracted from times and intervals add up to the value',
  'The hours, minutes and seconds of a time or interval, and the years, months, days and larger units of an interval, are the parts of its value, rounded towards zero and with the sign of the value (the quarter is the third part of the months, plus one). The epoch is the total number of seconds, counting 365.25 days a year and 30 days a further month. Fields that do not apply, and clock and calendar fields of an interval with 2^31 hours or more, are errors.',
  'all times and intervals, all fields',
  'Negative and huge intervals need all values.',
  ['src/interval.rs', 'src/time.rs'], [('extraction', 'src/interval.rs date_part, src/time.rs date_part')], ['the number returned, or the error'])
p('P16', 'A formatted date is the documented text and reads back as the same date',
  'A date is written with the style\'s layout: ISO and XSD as year-month-day, SQL with slashes and Postgres with dots as month, day, year (day first under the DMY order), German always day.month.year; years have at least four digits, months and days two, years before 1 AD are written as year BC, infinities as words. Read under an order that means the same layout (any order for ISO and XSD, DMY for German, the order that was used in writing for SQL and Postgres; the two that put the month first are alike), the text gives the same date.',
  'all dates, every style and every order',
  'Reading depends on digit patterns (a two-digit year, a field that could be a day, a month or a year, BC), over all eleven billion days; tests try a few.',
  ['src/date.rs', 'src/common.rs', 'src/parse.rs', 'src/token.rs'], [('format', 'src/date.rs format, src/common.rs'), ('parse', 'src/date.rs try_from_str, src/parse.rs DateTime decoding')], ['the text written', 'the value read, or the error'])
p('P17', 'A formatted timestamp is the documented text and reads back unchanged',
  'A finite timestamp is written as its date in the style\'s layout and its clock time hh:mm:ss with the fraction down to the last non-zero microsecond digit, joined by a blank (T for XSD); Postgres writes weekday, month name and day (day first under DMY), clock time and year. BC comes last; infinities are words. Read at full precision under an order that means the same layout (any order for Postgres, ISO and XSD, DMY for German, the order used in writing for SQL), the text gives the same timestamp to the microsecond.',
  'all timestamps, every style and every order',
  'Fractions, leap days, years of five and six digits and BC interact with token-by-token decoding; tests try a few dozen.',
  ['src/timestamp.rs', 'src/common.rs', 'src/parse.rs', 'src/token.rs'], [('format', 'src/timestamp.rs format, src/common.rs'), ('parse', 'src/timestamp.rs try_from_str, src/parse.rs')], ['the text written', 'the value read, or the error'])
p('P18', 'A formatted time of day is hh:mm:ss and reads back as the same time',
  'A time of day is written in every style as hh:mm:ss with the fraction down to the last non-zero microsecond digit, 24:00:00 included, and the text reads back as the same time under every order, with no precision given and with the full precision of six digits.',
  'all times of day, every style and every order',
  'Every one of 86.4 billion microseconds must survive; fractions pass through floating point on reading.',
  ['src/time.rs', 'src/common.rs', 'src/parse.rs'], [('format', 'src/time.rs format'), ('parse', 'src/time.rs try_from_str, src/parse.rs')], ['the text written', 'the value read, or the error'])
p('P19', 'A formatted interval is the documented text and reads back unchanged',
  'An interval is written as its years, months, days and time in the layout of its style: Postgres as in "1 year -2 mons +3 days -04:05:06.7" (a plus after a negative part), verbose as in "@ 1 year -2 mons ... ago", SQL standard as in "1-2", "3 4:05:06" or, with mixed parts, "+1-2 -3 +4:05:06", ISO 8601 as in "P1Y-2M3DT-4H-5M-6.7S". Nothing is lost: the text reads back as the same months, days and time, the SQL standard text under that style and the others under any style (day counts and hours of magnitude below 2^31). A time part of 2^31 hours or more is refused.',
  'all intervals and all styles',
  'Signs of three parts, singular and plural units, omitted zero parts and up to nine-digit numbers combine; tests try a few.',
  ['src/interval.rs', 'src/parse.rs', 'src/token.rs', 'src/common.rs'], [('format', 'src/interval.rs format, format_interval'), ('parse', 'src/interval.rs try_from_str, src/parse.rs decode_interval, decode_iso8601_interval')], ['the text written', 'the value read, or the error'],
  note=NOTE + ' Proved for each part alone over its whole range and for all sign combinations of the parts in three shapes of values (ones, small, longest numbers); other combinations of the three parts are only sampled.')
p('P20', 'Reading with a precision rounds to it; restricted intervals keep their fields',
  'A timestamp read with a precision of 0 to 6 digits is rounded to that many digits of a second (halves away from 2000-01-01), or refused when rounding leaves the range; no precision (-1) keeps microseconds and any other precision is an error; infinities stay. A time of day is rounded likewise, another precision having no effect. An interval read with a field range and a precision keeps the fields down to the last one named, cuts what is below towards zero, and rounds the time to the precision (halves away from zero); undefined ranges and precisions are errors.',
  'all timestamps, times and intervals with all precisions and field ranges',
  'Rounding carries into seconds, days and past the range only for particular fractions; tests use a few.',
  ['src/timestamp.rs', 'src/time.rs', 'src/interval.rs'], [('rounding', 'adjust_by_typmod in src/timestamp.rs, src/time.rs, src/interval.rs')], ['the value read, or the error'],
  note=NOTE + ' Timestamps are covered over the whole range; interval field ranges for each part alone over its whole range (time up to 2^31 hours) and for all signs of small months and days together with any time below 24 hours.')
p('P21', 'Values survive serialization',
  'Serialized to a human-readable format, a date, time, timestamp or interval is its ISO text (the SQL standard text for an interval), and the text deserializes to the same value, infinities included. Serialized to a binary format it is its integer (the fields time, day and month for an interval), and deserializes to the same value whether the format returns the integer in its own type or as 64 bits, and the fields as a sequence or as a map in any order; integers too large for the type, and missing or repeated fields, are errors.',
  'all values of each type, all field orders',
  'Round trips concern every value; tests serialize one of each.',
  ['src/serde.rs', 'src/date.rs', 'src/time.rs', 'src/timestamp.rs', 'src/interval.rs'], [('serialization', 'src/serde.rs Serialize impls'), ('deserialization', 'src/serde.rs Deserialize impls and visitors')], ['what the serializer receives', 'the value deserialized, or the error'],
  note=NOTE + ' The data format is a minimal one in /verif/entry/src/sd.rs; serde_json and bincode themselves are outside. Interval texts as in P19.')
p('P22', 'A date read from a documented input form is the day it names or refused',
  'Reading year-month-day (four or more year digits; also with slashes, dots or blanks), month/day/year or day/month/year as the order says, run-together yyyymmdd and yymmdd, month names (full or three letters, any case) before or after the day and with the year in any usual place, year.day-of-year, and J with a Julian day number, gives exactly the day named. Years of two digits mean 1970 to 2069 (with BC, the year as written); BC marks years before 1 AD. A time of day after the date must be a valid one and is dropped. Weekday names and surrounding blanks change nothing. A day the calendar does not have, year zero, and a day outside the supported range are errors.',
  'all years, months, days, days of year and Julian day numbers in each of these forms (every digit arbitrary), each month name',
  'Which field is year, month or day is guessed from digit counts and values; only some numbers take the wrong turn.',
  ['src/date.rs', 'src/parse.rs', 'src/common.rs', 'src/token.rs'], [('decoding', 'src/parse.rs parse_date_time, decode_date_time, decode_number'), ('validation', 'src/common.rs validate_date')], ['the date read, or the error'])
p('P23', 'What is read never depends on what was read before',
  'Reading a date, time, timestamp or interval gives the same value, or is refused alike, whatever texts the same thread read before, accepted or not. Month and weekday names, AM, PM, BC, T and unit words (full, short, plural) keep their own meaning after any earlier word, also one that shares its first letters, and a word that is not in the tables is refused even when a known word beginning the same way was read before.',
  'all histories of words read by a thread, and all digits of the text read',
  'A token cache keeps the last word found; only a rare pair of words in the right order could take one for the other.',
  ['src/parse.rs', 'src/token.rs', 'src/common.rs'], [('cached look-up', 'src/token.rs, src/parse.rs decode_special, decode_units')], ['the value read, or the error'],
  state=[('token caches', 'the table entry last found for each field position, or none', 'src/token.rs thread-local caches')])
p('P24', 'A time read from a documented input form is the instant it names or refused',
  'Reading hh:mm, hh:mm:ss and fractions of up to six digits, mm:ss with a fraction, run-together hhmm and hhmmss (fractions too), these after T, with AM or PM, or as h04mm05s06, gives exactly that time of day; after a date in one of its forms they give that instant as a timestamp, and a time read from such a text is its time of day. A date alone is its midnight. 12 AM is midnight and 12 PM noon, a 60th second and 24:00:00 count as the following minute and day. Minutes above 59, seconds above 60, hours above 24 (12 with AM or PM), anything later than 24:00:00, days that do not exist and results out of range are errors.',
  'all hours, minutes, seconds, fractions and dates in each of these forms (every digit arbitrary)',
  'Run-together digits, suffixes and fractions pass different decoding branches, which go wrong for particular fields only.',
  ['src/time.rs', 'src/timestamp.rs', 'src/parse.rs', 'src/common.rs'], [('decoding', 'src/parse.rs decode_time, decode_number_field, decode_time_only, decode_date_time')], ['the value read, or the error'])
p('P25', 'An interval read from a documented input form is that interval or refused',
  'Reading amounts with units (microseconds to millennia in every spelling, any case, with or without a blank, sign or @, one or several, with AGO), a bare number of seconds, days before hh:mm[:ss[.ffffff]], SQL year-month (one leading sign covers all fields in the SQL style), and ISO 8601 with designators (each may be negative) or in the alternative formats, gives exactly the interval named: years to months, weeks to days, the clock to microseconds. Fractions of up to six digits of seconds to days are exact microseconds, of weeks and months (30 days) days and time, of years and longer whole months, rounded towards zero. Amounts that do not fit, repeated or unknown units are errors.',
  'all amounts of up to ten digits and all fractions in each of these forms (every digit arbitrary), each unit word',
  'Each unit, sign and fraction passes its own branch; float fractions and carries go wrong for particular numbers only.',
  ['src/interval.rs', 'src/parse.rs', 'src/token.rs'], [('decoding', 'src/parse.rs decode_interval, decode_interval_number_field, decode_iso8601_interval, adjust_fract_seconds, adjust_fract_days'), ('assembly', 'src/interval.rs from_pgtime')], ['the interval read, or the error'])
p('P26', 'Reading any text gives a value or an error and never crashes',
  'Whatever text is given, reading it as a date, time of day, timestamp or interval returns a value or an error: no panic, no arithmetic overflow, no access outside a table or buffer and no undefined behaviour. This holds for texts that are empty, cut off, repeated, too long, without digits, with numbers of any length, and with any byte in any place.',
  'all texts, under every date order and interval style (covered: all ASCII texts of up to three bytes; documented forms with any byte or any two bytes put in any place, every number replaced by any digits, every prefix; long repetitions)',
  'Tests read texts that are meant to be read; crashes hide in texts nobody writes.',
  ['src/parse.rs', 'src/token.rs', 'src/common.rs', 'src/date.rs', 'src/time.rs', 'src/timestamp.rs', 'src/interval.rs'],
  [('splitting into fields', 'src/parse.rs parse_date_time'), ('decoding', 'src/parse.rs decode_date_time, decode_time_only, decode_interval, decode_iso8601_interval')], ['that a value or an error comes back'],
  level='exploration', note=NOTE + ' This property is bounded, not proved: each obligation is discharged for all bytes or digits of one shape of text, and the shapes are enumerated; texts of other shapes are not covered.')
p('P27', 'Multiplying or dividing an interval scales its length or is refused',
  'Multiplying an interval by a whole number gives exactly that many times each of its fields. Multiplying or dividing by any other number keeps whole months, hands what is left of a month (30 days) to the days and what is left of a day (24 hours) to the time, and the result is as long as the interval times (or divided by) the number: to a microsecond when there is only time, a millisecond with days, a tenth of a second with months (for intervals up to ten thousand years). A product or quotient with a field that does not fit, division by zero, and a number that is infinite (when multiplying) or not a number are errors.',
  'all intervals with a time within 2^53 microseconds and all numbers up to 2^900 (larger fields to within 30 seconds), and all intervals for each of a list of 15 whole and 15 fractional numbers',
  'The cascade runs in floating point; truncation, rounding and overflow go wrong for particular fields and factors.',
  ['src/interval.rs', 'src/common.rs'], [('product', 'src/interval.rs mul_f64'), ('quotient', 'src/interval.rs div_f64'), ('rounding', 'src/common.rs timestamp_round')], ['the interval returned, or the error'],
  note=NOTE + ' The number is any real of the stated range; products are uninterpreted for the solver and rounding is bounded by error terms.')
BUILT = {x['id'] for x in P if x['built']}
props, checks, na = [], [], []
for x in P:
    if x['statement'] == 'placeholder':
        continue
    props.append(dict(id=x['id'], title=x['title'], statement=x['statement'],
                      quantifier=dict(over=['inputs'] if x['id'] != 'P23' else ['inputs', 'histories'], text=x['over']), why_tests_cant=x['why'],
                      anchors=dict(files=x['files'], state=[dict(name=a, meaning=b, where=c) for a, b, c in x['state']],
                                   mechanism=[dict(name=a, where=b) for a, b in x['mech']], observe_at=x['observe'], hook_needed=None)))
    if x['built']:
        checks.append(dict(property=x['id'], quick_cmd='./check.py ' + x['id'], thorough_cmd='./check.py %s --thorough' % x['id'],
                           technique=TECH, level=x['level'], level_note=x['note']))
    else:
        na.append(dict(property=x['id'], reason=x['na'] or 'contracts for this property are not written yet'))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for r in props:
        f.write(json.dumps(r) + '\n')
json.dump(dict(version=1, setup_cmd='./build.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the verifier reads the MIR of the unmodified crate through the entry crate /verif/entry.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
for r in props:
    assert len(r['title']) <= 80, (r['id'], len(r['title']))
