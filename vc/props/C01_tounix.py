from timecommon import *
def setup(E, st):
    epoch_setup(E, st)
def u_diff(E): Diff().verify(E)
def u_dt(E):
    st = State(); setup(E, st); Diff().install(E)
    p, f = arb(E, st, 'dt', 'a'); freeze(st, p)
    outs = E.exec_fn(st, E.mod.find(TOUNIX), [p])
    def post(s2, r): return [('result = seconds since 1970-01-01T00:00:00 in the proleptic Gregorian calendar', E.s(s2, r) == unix_of(Cal(E, s2), f))]
    returned(E, outs, post, TOUNIX)
def u_d(E):
    st = State(); setup(E, st); Diff().install(E)
    p, f = arb(E, st, 'd', 'a'); freeze(st, p)
    n = NS + 'dateToUnixSeconds(nebula::Date const&)'
    outs = E.exec_fn(st, E.mod.find(n), [p])
    returned(E, outs, lambda s2, r: [('result = seconds from the epoch to midnight of the date', E.s(s2, r) == unix_of(Cal(E, s2), f))], n)
def u_t(E):
    st = State()
    p, f = arb(E, st, 't', 'a'); freeze(st, p)
    n = NS + 'timeToSeconds(nebula::Time const&)'
    outs = E.exec_fn(st, E.mod.find(n), [p])
    returned(E, outs, lambda s2, r: [('result = 3600 h + 60 m + s', E.s(s2, r) == f['hour'] * 3600 + f['minute'] * 60 + f['sec'])], n)
def u_leap(E):
    st = State(); y = year_term(E, st, 'a')
    n = NS + 'isLeapYear(short)'
    outs = E.exec_fn(st, E.mod.find(n), [IV(16, y, -32768, 32767)])
    returned(E, outs, lambda s2, r: [('leap years are those divisible by 4, except centuries not divisible by 400', E.boolv(r) == Cal(E, s2).leap(y))], n)
class PROP(Property):
    id = 'C01'
    budget = 400
    assumptions = ['arguments are valid calendar values: month, day, hour, minute, second, microsecond in range and the day exists in its month']
    def units(self):
        mk = engine()
        return [('dateTimeDiffSeconds', mk, u_diff), ('dateTimeToUnixSeconds', mk, u_dt), ('dateToUnixSeconds', mk, u_d), ('timeToSeconds', mk, u_t), ('isLeapYear', mk, u_leap)]
    search = search_time('tounix')
