from timecommon import *
def u_from(case): return lambda E: FromUnix(case).verify(E)
def arb_s(E, st): return seconds_arg(E, st, 'seconds', UMIN, UMAX)
def u_date(E):
    st = State(); FromUnix().install(E)
    p = new_struct(E, st, 'd', 'result'); s = arb_s(E, st)
    outs = E.exec_fn(st, E.mod.find('vc_unixSecondsToDate'), [p, s])
    def post(s2, r):
        f = get(E, s2, 'd', p); C = Cal(E, s2)
        t = C.unix(f['year'], f['month'], f['day'])
        return [('the date exists', C.valid_date(f['year'], f['month'], f['day'])), ('the instant lies within the date', And(t <= s.t, s.t < t + 86400))]
    returned(E, outs, post, NS + 'unixSecondsToDate(long)')
def u_time(E):
    st = State(); FromUnix().install(E)
    p = new_struct(E, st, 't', 'result'); s = arb_s(E, st)
    outs = E.exec_fn(st, E.mod.find('vc_unixSecondsToTime'), [p, s])
    def post(s2, r):
        f = get(E, s2, 't', p); C = Cal(E, s2)
        return [('hour, minute and second are in range', C.valid_time(f['hour'], f['minute'], f['sec'])), ('microsecond is zero', I(f['microsec']) == 0),
                ('the time of day is the instant modulo 86400 s', C.mod(s.t, 86400) == f['hour'] * 3600 + f['minute'] * 60 + f['sec'])]
    returned(E, outs, post, NS + 'unixSecondsToTime(long)')
class PROP(Property):
    id = 'C02'
    budget = 780
    assumptions = ['the instant lies within years -32768 .. 32767']
    def units(self):
        mk = engine()
        return [(f'unixSecondsToDateTime[{c}]', mk, u_from(c)) for c in SPLITS] + [('unixSecondsToDate', mk, u_date), ('unixSecondsToTime', mk, u_time)]
    search = search_time('fromunix')
