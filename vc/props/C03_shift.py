from timecommon import *
def inst(kind, root, label):
    def u(E):
        st = State(); epoch_setup(E, st); Diff().install(E); FromUnix().install(E)
        p = new_struct(E, st, kind, 'result'); a, f = arb(E, st, kind, 'a'); freeze(st, a)
        off = z3.Int('offset'); L = 1 << 41
        st.pc.append(z3.And(off >= -L, off <= L)); E.set_rg(st, off, -L, L)
        C = Cal(E, st)
        if kind != 't':
            t = unix_of(C, f) + off
            st.pc.append(And(t >= UMIN, t <= UMAX))
        else:
            t = f['hour'] * 3600 + f['minute'] * 60 + f['sec'] + off
            st.pc.append(And(t >= UMIN, t <= UMAX))
        outs = E.exec_fn(st, E.mod.find(root), [p, a, IV(64, off, -L, L)])
        def post(s2, r):
            g = get(E, s2, kind, p); C = Cal(E, s2); out = []
            if kind == 'dt':
                out = [('the shifted date exists', C.valid_date(g['year'], g['month'], g['day'])), ('its time is in range', C.valid_time(g['hour'], g['minute'], g['sec'])),
                       ('it lies exactly offset seconds later', unix_of(C, g) == unix_of(C, f) + off), ('microseconds are kept', I(g['microsec']) == f['microsec'])]
            elif kind == 'd':
                u1 = C.unix(g['year'], g['month'], g['day']); u0 = C.unix(f['year'], f['month'], f['day']) + off
                out = [('the shifted date exists', C.valid_date(g['year'], g['month'], g['day'])), ('it contains midnight of the date plus the offset', And(u1 <= u0, u0 < u1 + 86400))]
            else:
                h = lambda x: x['hour'] * 3600 + x['minute'] * 60 + x['sec']
                out = [('the shifted time is in range', C.valid_time(g['hour'], g['minute'], g['sec'])), ('microseconds are kept', I(g['microsec']) == f['microsec']),
                       ('it is offset seconds later modulo one day', C.mod(h(f) + off, 86400) == h(g))]
            return out
        returned(E, outs, post, label)
    return u
class PROP(Property):
    id = 'C03'
    budget = 600
    assumptions = ['the shifted instant lies within years -32768 .. 32767',
                   'contracts of dateTimeDiffSeconds and unixSecondsToDateTime (proved by the checks C01 and C02)']
    def units(self):
        mk = engine()
        return [('dateTimeShift', mk, inst('dt', 'vc_dateTimeShift', NS + 'dateTimeShift(nebula::DateTime const&, long)')),
                ('dateShift', mk, inst('d', 'vc_dateShift', NS + 'dateShift(nebula::Date const&, long)')),
                ('timeShift', mk, inst('t', 'vc_timeShift', NS + 'timeShift(nebula::Time const&, long)'))]
    search = search_time('shift')
