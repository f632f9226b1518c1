"""Histories of edits on events, traces and logs behave like plain dictionaries and lists."""
from .. import gen
from ..core import check, check_eq
from ..fx import CN, MyEvent, MyEventLog, MyTrace

CASES = {'quick': 120000, 'thorough': 3000000}
RULE = ('sequences of up to 30 edits on two traces, a log and an event, mirrored on lists and dictionaries and compared after '
        'every step; non-trivial: at least 3 edits were applicable')

OPS = ['append', 'insert', 'set', 'delete', 'slice', 'log_append', 'log_set', 'log_delete', 'event_set', 'event_delete',
       'contains', 'index', 'new_trace', 'ctor', 'equal', 'equal', 'rename']


def generate(d):
    return {'ops': [{'op': d.choice(OPS), 't': d.below(2), 'i': d.int(-6, 6) if d.bool() else d.below(30),
                     'name': d.choice(gen.SIMPLE[:4]) if d.bool() else gen.name(d), 'key': gen.key(d)}
                    for _ in range(d.choice([130, 300]) if d.below(800) == 799 else gen.size(d, 0, 14, 60))]}


def outcome(f):
    try:
        return 'ok', f()
    except (IndexError, KeyError, ValueError) as e:
        return 'error', type(e).__name__


def run(case):
    real = [MyTrace(), MyTrace()]
    model = [[], []]
    log, mlog = MyEventLog(), []
    event, mevent = MyEvent(), {}
    applied = 0

    def same_trace(r, m):
        check_eq(len(r), len(m), 'length of a trace')
        check(all(x is y for x, y in zip(r, m)) and len(list(r)) == len(m), 'iteration yields the events in order')
        for i in range(len(m)):
            check(r[i] is m[i], 'item access by position')
            check(r[i - len(m)] is m[i - len(m)], 'item access by negative position')
        check(all(x is y for x, y in zip(reversed(r), reversed(m))), 'reversed iteration')

    for op in case['ops']:
        o, t, i = op['op'], op['t'], op['i']
        e = MyEvent({CN: op['name']})
        r, m = real[t], model[t]
        if o == 'append':
            a, b = outcome(lambda: r.append(e)), outcome(lambda: m.append(e))
        elif o == 'insert':
            a, b = outcome(lambda: r.insert(e, i)), outcome(lambda: m.insert(i, e))
        elif o == 'set':
            a, b = outcome(lambda: r.__setitem__(i, e)), outcome(lambda: m.__setitem__(i, e))
        elif o == 'delete':
            a, b = outcome(lambda: r.__delitem__(i)), outcome(lambda: m.__delitem__(i))
        elif o == 'slice':
            a = 'ok', [id(x) for x in r[i:i + 3]]
            b = 'ok', [id(x) for x in m[i:i + 3]]
        elif o == 'contains':
            a, b = ('ok', e in r), ('ok', any(x[CN] == op['name'] for x in m))
        elif o == 'index':
            a = outcome(lambda: r.index(e))
            b = outcome(lambda: [x[CN] for x in m].index(op['name']))
        elif o == 'log_append':
            a, b = outcome(lambda: log.append(r)), outcome(lambda: mlog.append(r))
        elif o == 'log_set':
            a, b = outcome(lambda: log.__setitem__(i, r)), outcome(lambda: mlog.__setitem__(i, r))
        elif o == 'log_delete':
            a, b = outcome(lambda: log.__delitem__(i)), outcome(lambda: mlog.__delitem__(i))
        elif o == 'event_set':
            a, b = outcome(lambda: event.__setitem__(op['key'], op['name'])), \
                outcome(lambda: mevent.__setitem__(op['key'], op['name']))
        elif o == 'event_delete':
            a, b = outcome(lambda: event.__delitem__(op['key'])), outcome(lambda: mevent.__delitem__(op['key']))
        elif o == 'equal':
            text = lambda ts: [[x[CN] for x in t] for t in ts]
            a = 'ok', (real[0] == real[1], log == MyEventLog([MyTrace([MyEvent({CN: n}) for n in t]) for t in text(mlog)]), event == MyEvent(dict(mevent)),
                       log == MyEventLog([r]), hash(real[0]) == hash(real[1]) or text([model[0]]) != text([model[1]]))
            b = 'ok', (text([model[0]]) == text([model[1]]), True, True, text(mlog) == text([m]), True)
        elif o == 'rename':
            if m:
                r[i % len(m)][CN] = op['name']
            a = b = 'ok', None
        elif o == 'new_trace':
            real[t], model[t] = MyTrace(), []
            a = b = 'ok', None
        else:
            real[t] = MyTrace(list(m))
            a = b = 'ok', None
        check_eq(a, b, f'outcome of {o}')
        applied += a[0] == 'ok'
        same_trace(real[0], model[0])
        same_trace(real[1], model[1])
        check_eq(len(log), len(mlog), 'number of traces')
        check(all(x is y for x, y in zip(log, mlog)), 'traces of the log in order')
        for q in range(len(mlog)):
            check(log[q] is mlog[q], 'trace by position')
        check_eq(dict(event.payload), mevent, 'payload of the event')
        check_eq(len(event), len(mevent), 'size of the event')
        check_eq(list(event), list(mevent), 'keys of the event')
        check_eq(list(event.payload_items()), list(mevent.items()), 'items of the event')
        check_eq(str(event), str(mevent), 'text of the event')
        check_eq(op['key'] in event, op['key'] in mevent, 'key membership')
        if op['key'] in mevent:
            check_eq(event[op['key']], mevent[op['key']], 'value by key')
    check(len(MyTrace()) == 0 and len(MyEventLog()) == 0 and len(MyEvent()) == 0 and MyTrace().attributes == {} and
          MyEventLog().attributes == {}, 'fresh objects are empty whatever happened to others')
    return {'nontrivial': applied >= 3, **{op['op']: True for op in case['ops']}}
