"""Lower Cython syntax to Python syntax (declarations and types dropped), line numbers kept."""
import re

_TYPEWORDS = r"(?:const\s+|unsigned\s+|signed\s+)*(?:int|double|complex|float|size_t|void|char|long|p_t|dtype|index|object|bint|Py_ssize_t|ptrdiff_t)(?:\s+complex)?"
_CAST = re.compile(r"<\s*" + _TYPEWORDS + r"\s*(?:\[[^\]<>]*\])?\s*\**\s*>")
_ADDR = re.compile(r"(?<=[\(,=\[ ])&(?=[A-Za-z_])")


def _strip_strings(line):
    return re.sub(r"('([^'\\]|\\.)*'|\"([^\"\\]|\\.)*\")", lambda m: m.group(0)[0] + 'x' * (len(m.group(0)) - 2) + m.group(0)[0], line)


def _depth(line):
    s = _strip_strings(line).split('#')[0]
    return sum(s.count(c) for c in '([{') - sum(s.count(c) for c in ')]}')


def _split_top(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def _param(p):
    p = p.strip()
    if p.startswith('*') or not p:
        return p
    default = None
    # first '=' at depth 0
    depth = 0
    for i, ch in enumerate(p):
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        elif ch == '=' and depth == 0:
            default = p[i + 1:].strip()
            p = p[:i].strip()
            break
    m = re.search(r"([A-Za-z_]\w*)\s*(?:\[\])?$", p)
    name = m.group(1) if m else p
    return name if default is None else f"{name}={default}"


def _signature(line):
    """`[c(p)def] [type] name(args)[ except..]:` -> `def name(args):`"""
    m = re.match(r"^(\s*)(?:cdef|cpdef|def)\b(?:\s+inline)?\s*([^()]*?)([A-Za-z_]\w*)\s*\((.*)\)[^()]*:\s*(#.*)?$", line, re.S)
    if not m:
        return None
    indent, _, name, args = m.group(1), m.group(2), m.group(3), m.group(4)
    params = ', '.join(_param(p) for p in _split_top(args.replace('\n', ' ')))
    return f"{indent}def {name}({params}):"


def lower(text):
    lines = text.split('\n')
    out = []
    i = 0
    drop_indent = None
    in_doc = None
    while i < len(lines):
        line = lines[i]
        stripped = line.strip()
        # docstrings / triple quoted strings are passed through
        if in_doc:
            out.append(line)
            if in_doc in line:
                in_doc = None
            i += 1
            continue
        mdoc = re.match(r'^\s*[rub]*("""|\'\'\')', line)
        if mdoc and line.count(mdoc.group(1)) == 1:
            in_doc = mdoc.group(1)
            out.append(line)
            i += 1
            continue
        indent = len(line) - len(line.lstrip())
        if drop_indent is not None:
            if stripped and indent <= drop_indent:
                drop_indent = None
            else:
                out.append('')
                i += 1
                continue
        if re.match(r"^(ctypedef|cdef\s+extern)\b", stripped):
            out.append(' ' * indent + 'pass')
            if stripped.endswith(':'):
                drop_indent = indent
            i += 1
            continue
        m = re.match(r"^from\s+(\S+)\s+cimport\s+(.*)$", stripped)
        if m:
            out.append(' ' * indent + f"from {m.group(1)} import {m.group(2)}")
            i += 1
            continue
        m = re.match(r"^cimport\s+(.*)$", stripped)
        if m:
            out.append(' ' * indent + f"import {m.group(1)}")
            i += 1
            continue
        m = re.match(r"^cdef\s+class\s+(.*)$", stripped)
        if m:
            out.append(' ' * indent + f"class {m.group(1)}")
            i += 1
            continue
        # join multi-line def/cdef
        if re.match(r"^(cdef|cpdef|def)\b", stripped):
            j = i
            d = _depth(line)
            joined = line.split('#')[0].rstrip() if d > 0 else line
            while d > 0 and j + 1 < len(lines):
                j += 1
                d += _depth(lines[j])
                joined += '\n' + lines[j].split('#')[0]
            nextra = j - i
            code = joined.split('#')[0].rstrip() if nextra == 0 and '"' not in joined and "'" not in joined else joined.rstrip()
            if code.rstrip().endswith(':'):
                sig = _signature(code)
                if sig is not None:
                    out.append(_clean(sig))
                    out.extend([''] * nextra)
                    i = j + 1
                    continue
            if stripped.startswith(('cdef', 'cpdef')):
                # declaration
                body = re.sub(r"^\s*(cdef|cpdef)\s+(readonly\s+|public\s+)?", '', joined)
                mm = re.match(r"^(?P<type>[^=]*?)(?P<name>[A-Za-z_]\w*)\s*=(?!=)\s*(?P<val>.*)$", body, re.S)
                if mm:
                    val = mm.group('val')
                    first, *rest = (' ' * indent + f"{mm.group('name')} = {val}").split('\n')
                    out.append(_clean(first))
                    out.extend(_clean(r) for r in rest)
                else:
                    out.append(' ' * indent + 'pass')
                    out.extend([''] * nextra)
                i = j + 1
                continue
        out.append(_clean(line))
        i += 1
    return '\n'.join(out)


def _clean(line):
    line = _CAST.sub('', line)
    line = _ADDR.sub('', line)
    return line
