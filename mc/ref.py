"""Reference model of a reader: plain lists, linear scans.

content: list of items in key order; cursor: None or an item. Every function returns (allowed results, new cursor on success).
A result is ('ok', value), ('none',) or ('raise', class name). `allowed` is a list of acceptable results; the first is the
documented one, the others cover what the documentation leaves open.
"""
import weakref

NONE = ('none',)
VE = ('raise', 'ValueError')
IE = ('raise', 'IndexError')


def newer(content, cursor, key):
    if cursor is None:
        return list(content)
    k = key(cursor)
    return [x for x in content if key(x) > k]


def read(content, cursor, key, n=1, peek=False, ignore=False, strict=False):
    new = newer(content, cursor, key)
    if not new:
        return ([NONE] + ([VE] if strict else []) if ignore else [VE]), cursor
    if n > 1:
        if strict and len(new) < n:
            return [VE], cursor
        got = new[:n]
        return [('ok', got)], (cursor if peek else got[-1])
    return [('ok', new[0])], (cursor if peek else new[0])


def range_(content, cursor, key, start, stop, step=None, peek=False, ignore=False, only_new=False, start_le=False,
           stop_ge=False):
    if only_new and cursor is not None:
        new = newer(content, cursor, key)
        if not new:
            return ([NONE] if ignore else [VE]), cursor
        k = key(new[0])
        if k > start:
            start = k
    if start_le:
        le = [key(x) for x in content if key(x) <= start]
        if le:
            start = le[-1]
    if stop_ge:
        ge = [key(x) for x in content if key(x) >= stop]
        if not ge:
            return ([NONE] if ignore else [VE]), cursor
        stop = ge[0]
    got = [x for x in content if start <= key(x) <= stop][::step]
    if not got:
        if peek:
            return ([('ok', []), NONE] if ignore else [('ok', []), VE, IE]), cursor
        return ([NONE] if ignore else [IE, VE]), cursor
    return [('ok', got)], (cursor if peek else got[-1])


def tail(content, cursor, key, peek=False, ignore=False, only_new=False):
    if only_new:
        new = newer(content, cursor, key)
        if not new:
            if not content and cursor is None:
                return ([NONE] if ignore else [VE, IE]), cursor
            return ([NONE] if ignore else [VE]), cursor
        return [('ok', new[-1])], (cursor if peek else new[-1])
    if not content:
        return ([NONE] if ignore else [IE, VE]), cursor
    return [('ok', content[-1])], (cursor if peek else content[-1])


def head(content, cursor, key, peek=False):
    if not content:
        return [IE, VE], cursor
    return [('ok', content[0])], (cursor if peek else content[0])


FUNCS = {'read': read, 'range': range_, 'tail': tail, 'head': head}

# names of the options in the real API
RENAME = {'ignore': 'ignore_no_item_found', 'strict': 'strict_n', 'only_new': 'only_new_items'}


def call_real(reader, op):
    """op = (name, args, kwargs as tuple of pairs). Returns a normalised result."""
    name, args, kw = op
    kwargs = {RENAME.get(k, k): v for k, v in kw}
    try:
        r = getattr(reader, name)(*args, **kwargs)
    except Exception as e:
        return ('raise', type(e).__name__)
    if r is None:
        return NONE
    if type(r) is list:
        r = hand_over(reader, r)
    return ('ok', r)


HANDED = weakref.WeakKeyDictionary()


def hand_over(reader, r):
    """A list that a read returned is the caller's: the caller clears it (a buffer or a later read that shares it then shows it), and it stays as
    the caller left it."""
    last = HANDED.get(reader)
    copy = list(r)
    if last is not None and (last is r or last != [HANDED]):
        copy.append('the list returned by the previous read was used again')
    r[:] = [HANDED]
    HANDED[reader] = r
    return copy


def call_ref(content, cursor, key, op):
    name, args, kw = op
    return FUNCS[name](content, cursor, key, *args, **dict(kw))


def matches(result, allowed):
    """A raised exception matches any allowed exception it is a kind of (subclasses of ValueError/IndexError by name)."""
    return result in allowed


def op(name, *args, **kw):
    return (name, tuple(args), tuple(sorted(kw.items())))


def show(o):
    name, args, kw = o
    return '%s(%s)' % (name, ', '.join([repr(a) for a in args] + ['%s=%r' % (RENAME.get(k, k), v) for k, v in kw]))
