"""Demangled-name normalisation: 'std::vector<T, std::allocator<T>>::begin() const' -> 'std::vector::begin'."""
import re

_OPS = ['operator<<=', 'operator>>=', 'operator<=>', 'operator<<', 'operator>>', 'operator<=', 'operator>=',
        'operator->*', 'operator->', 'operator<', 'operator>', 'operator()', 'operator[]']
_ENC = {op: 'operator\x01%d\x02' % i for i, op in enumerate(_OPS)}
_DEC = {v: k for k, v in _ENC.items()}


def _enc(s):
    out = []
    i = 0
    while i < len(s):
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            for op in _OPS:
                if s.startswith(op, i):
                    nxt = s[i + len(op):i + len(op) + 1]
                    # "operator<" of a conversion or template: ambiguous cases resolved by the longest operator
                    if op in ('operator<<',) and False:
                        continue
                    out.append(_ENC[op])
                    i += len(op)
                    break
            else:
                out.append('operator')
                i += 8
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def _dec(s):
    for k, v in _DEC.items():
        s = s.replace(k, v)
    return s


def strip_templates(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def base_name(dem):
    """qualified name without return type, template arguments and parameters"""
    s = dem.replace('[abi:cxx11]', '').replace('(anonymous namespace)', '{anon}').replace("'lambda'", '{lambda}')
    s = re.sub(r"\{lambda\}\(", '{lambda}((', s) if False else s
    s = s.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    s = s.replace('std::__cxx11::basic_string', 'std::string').replace('std::filesystem::__cxx11::path', 'fs::path')
    s = s.replace('std::basic_string_view', 'std::string_view').replace('std::filesystem::', 'fs::')
    s = s.replace('std::__cxx11::', 'std::').replace('std::_V2::', 'std::')
    s = _enc(s)
    s = strip_templates(s)
    # a return type that is local to a function: 'f(args)::$_0 std::for_each(...)'
    while True:
        i = s.find('(')
        if i < 0:
            break
        d, j = 0, i
        cut = None
        while j < len(s):
            if s[j] == '(':
                d += 1
            elif s[j] == ')':
                d -= 1
            elif s[j] == ' ' and d == 0 and '(' in s[j:] and not s.startswith((' const', ' volatile', ' operator'), j):
                cut = j
                break
            j += 1
        if cut is None:
            break
        s = s[cut + 1:]
    # cut at the parameter list: first '(' at depth 0
    i = s.find('(')
    if i >= 0:
        d, j = 0, i
        while j < len(s):
            d += (s[j] == '(') - (s[j] == ')')
            j += 1
            if d == 0:
                break
        m = re.match(r'( const| volatile|&)*::(.*)$', s[j:])
        if m:       # an entity local to the function: its name goes on after the parameter list
            r = m.group(2).replace('{lambda}(', '{lambda}[', 1) if m.group(2).startswith('{lambda}(') else m.group(2)
            if r.startswith('{lambda}['):
                r = re.sub(r'^\{lambda\}\[[^)]*\)', '{lambda}', r)
            head = s[:i]
            if ' ' in head and 'operator ' not in head:
                head = head.rsplit(' ', 1)[1]
            return _dec(head) + '::' + base_name(_dec(r))
        s = s[:i]
    # conversion operators keep the target type
    m = re.search(r'(\S*)operator (.*)$', s)
    if m:
        s = m.group(1) + 'operator ' + m.group(2).strip()
        return _dec(s)
    if ' ' in s:
        s = s.rsplit(' ', 1)[1]
    return _dec(s)


if __name__ == '__main__':
    import sys
    for ln in sys.stdin:
        print(base_name(ln.strip()))
