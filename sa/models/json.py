import _sa


class JSONDecodeError(ValueError):
    def __init__(self, msg="", doc="", pos=0):
        ValueError.__init__(self, msg)
        self.msg = msg
        self.doc = doc
        self.pos = pos


class JSONEncoder:
    def __init__(self, *a, **kw):
        _sa.broken("JSONEncoder")


class JSONDecoder:
    def __init__(self, *a, **kw):
        _sa.broken("JSONDecoder")


def dumps(o, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None, separators=None,
          default=None, sort_keys=False):
    if cls is not None or skipkeys:
        _sa.broken("json.dumps with an encoder of its own")
    if default is not None:
        o = _plain(o, default)
    return _sa.json_dumps(o)


def _plain(o, default):
    if o is None or isinstance(o, (str, int, float, bool)):
        return o
    if isinstance(o, (list, tuple)):
        return [_plain(x, default) for x in o]
    if isinstance(o, dict):
        return {k: _plain(v, default) for k, v in o.items()}
    return _plain(default(o), default)


def loads(s, *, cls=None, object_hook=None, parse_float=None, parse_int=None, parse_constant=None, object_pairs_hook=None):
    if cls is not None:
        _sa.broken("json.loads with a decoder of its own")
    try:
        v = _sa.json_loads(s)
    except ValueError as e:
        raise JSONDecodeError(str(e), s, 0)
    if parse_float is float:
        parse_float = None
    if parse_int is int:
        parse_int = None
    if object_hook is None and object_pairs_hook is None and parse_float is None and parse_int is None:
        return v
    return _hooked(v, object_hook, parse_float, parse_int, object_pairs_hook)


def _hooked(v, hook, pf, pi, pairs):
    if isinstance(v, list):
        return [_hooked(x, hook, pf, pi, pairs) for x in v]
    if isinstance(v, dict):
        l = [(k, _hooked(x, hook, pf, pi, pairs)) for k, x in v.items()]
        if pairs is not None:
            return pairs(l)
        v = dict(l)
        return v if hook is None else hook(v)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        return v if pi is None else pi(str(v))
    return v if pf is None else pf(str(v))


def load(fp, **kw):
    return loads(fp.read(), **kw)


def dump(o, fp, **kw):
    fp.write(dumps(o, **kw))
