"""Canonical C++ names: default template arguments removed."""
import re

_cache = {}


def split_top(s):
    out, d, cur, i = [], 0, '', 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            if not (c == '>' and i > 0 and s[i - 1] == '-'):
                d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


_oper = re.compile(r'operator(<<=|>>=|<=>|<<|>>|<=|>=|<|>|->\*|->)(?=[(<])')


def canon(d):
    """remove allocators, char_traits, default comparators; basic_string -> string"""
    r = _cache.get(d)
    if r is None:
        r = _cache[d] = _canon(d)
    return r


def _canon(d):
    # protect operator names
    prot = {}

    def rp(m):
        k = '\x01%d\x02' % len(prot)
        prot[k] = m.group(0)
        return k
    s = _oper.sub(rp, d)
    s = s.replace('(anonymous namespace)', '\x03anon\x04').replace('[abi:cxx11]', '')
    out = _c(s)
    for k, v in prot.items():
        out = out.replace(k, v)
    out = out.replace('\x03anon\x04', '(anonymous namespace)')
    out = out.replace('std::__cxx11::basic_string<char>', 'std::string')
    out = out.replace('std::basic_string<char>', 'std::string')
    out = re.sub(r'std::__cxx11::', 'std::', out)
    return out


def _c(s):
    i = s.find('<')
    if i < 0:
        return s
    d = 0
    j = i
    while j < len(s):
        if s[j] == '<':
            d += 1
        elif s[j] == '>' and s[j - 1] != '-':
            d -= 1
            if d == 0:
                break
        j += 1
    else:
        return s
    inner = s[i + 1:j]
    args = []
    for a in split_top(inner):
        if re.match(r'std::(allocator|char_traits|less|hash|equal_to|default_delete)<', a) and (args or True):
            if args:
                continue
        args.append(_c(a))
    return s[:i] + '<' + ', '.join(args) + '>' + _c(s[j + 1:])


def targs(name, base):
    """template arguments of the first `base<...>` in name"""
    i = name.find(base + '<')
    if i < 0:
        return None
    i += len(base)
    d, j = 0, i
    while j < len(name):
        if name[j] == '<':
            d += 1
        elif name[j] == '>' and name[j - 1] != '-':
            d -= 1
            if d == 0:
                break
        j += 1
    return split_top(name[i + 1:j])
