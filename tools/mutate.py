#!/usr/bin/env python3
"""List small mutations of the library's non-test sources: mutate.py list > mutants.jsonl
A hole finder: mutants that survive the repository's tests and every monitor are read by hand."""
import re, json, sys, pathlib, random
ROOT = pathlib.Path('/repo/stable-fs/src')
SKIP = {'fs_tests.rs', 'test_utils.rs', 'dummy.rs', 'lib.rs'}

def code_mask(s):
    """True where the character is code (no comment, string, char literal)"""
    m = [True] * len(s); i = 0
    while i < len(s):
        if s.startswith('//', i):
            j = s.find('\n', i); j = len(s) if j < 0 else j
            for k in range(i, j): m[k] = False
            i = j
        elif s.startswith('/*', i):
            j = s.find('*/', i) + 2
            for k in range(i, j): m[k] = False
            i = j
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"': j += 2 if s[j] == '\\' else 1
            for k in range(i, j + 1): m[k] = False
            i = j + 1
        elif s[i] == "'" and re.match(r"'(\\.|[^\\'])'", s[i:i+4]):
            n = len(re.match(r"'(\\.|[^\\'])'", s[i:i+4]).group(0))
            for k in range(i, i + n): m[k] = False
            i += n
        else: i += 1
    # attributes
    for x in re.finditer(r'#!?\[[^\]]*\]', s):
        for k in range(x.start(), x.end()): m[k] = False
    return m

OPS = [
    (r'(?<= )<(?= )', ['<=', '>=']), (r'(?<= )<=(?= )', ['<', '>']), (r'(?<= )>(?= )', ['>=', '<=']), (r'(?<= )>=(?= )', ['>', '<']),
    (r'(?<= )==(?= )', ['!=']), (r'(?<= )!=(?= )', ['==']),
    (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']), (r'(?<= )\*(?= )', ['+']), (r'(?<= )/(?= )', ['*']), (r'(?<= )%(?= )', ['/']),
    (r'(?<= )\+=(?= )', ['-=', '=']), (r'(?<= )-=(?= )', ['+=']),
    (r'(?<= )&&(?= )', ['||']), (r'(?<= )\|\|(?= )', ['&&']), (r'(?<= )&(?= )', ['|']), (r'(?<= )\|(?= )', ['&']),
    (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'(?<=[(\s])!(?=[a-z(])', ['']),
    (r'\b0\b(?!\.)', ['1']), (r'\b1\b(?!\.)', ['0', '2']),
    (r'saturating_sub', ['wrapping_sub']), (r'saturating_add', ['wrapping_add']),
    (r'\.\.=', ['..']), (r'(?<=\w)\.\.(?=[\w(])', ['..=']),
    (r'Some\(1\)', ['None']),
    (r'\bRights::FD_READ\b', ['Rights::FD_WRITE']), (r'\bRights::FD_WRITE\b', ['Rights::FD_READ']),
    (r'OpenFlags::(\w+)', None),
    (r'Error::(\w+)', None),
]

def mutants():
    out = []
    for p in sorted(ROOT.rglob('*.rs')):
        if p.name in SKIP: continue
        s = p.read_text()
        cut = re.search(r'#\[cfg\(test\)\]\s*mod ', s)
        end = cut.start() if cut else len(s)
        mask = code_mask(s)
        rel = str(p.relative_to(ROOT))
        def add(a, b, new, kind):
            if a >= end or not mask[a]: return
            line = s.count('\n', 0, a) + 1
            out.append(dict(file=rel, line=line, a=a, b=b, old=s[a:b], new=new, kind=kind, text=s.splitlines()[line-1].strip()))
        for rx, news in OPS:
            for x in re.finditer(rx, s):
                if news is None:
                    if rx.startswith('Error'):
                        line = s[s.rfind('\n', 0, x.start())+1:x.start()]
                        if x.group(1)[0].isupper() and p.name != 'error.rs':
                            add(x.start(), x.end(), 'Error::OperationCanceled', 'error')
                    else:
                        alt = {'CREATE': 'EXCLUSIVE', 'EXCLUSIVE': 'CREATE', 'TRUNCATE': 'DIRECTORY', 'DIRECTORY': 'TRUNCATE'}.get(x.group(1))
                        if alt: add(x.start(), x.end(), 'OpenFlags::' + alt, 'flag')
                    continue
                for n in news:
                    l = s[s.rfind('\n', 0, x.start())+1:s.find('\n', x.start())]
                    if re.match(r'\s*(use|const|pub const|static|fn|pub fn|impl|struct|pub struct|enum|type|pub\(crate\) (const|fn))\b', l) and rx in (r'(?<= )\+(?= )', r'(?<= )&(?= )'):
                        continue
                    add(x.start(), x.end(), n, 'op')
        # conditions
        for x in re.finditer(r'\bif (?!let\b)([^{};]*?) \{', s):
            add(x.start(1), x.end(1), f'false && ({x.group(1)})', 'cond')
            add(x.start(1), x.end(1), f'true || ({x.group(1)})', 'cond')
        # statements
        for x in re.finditer(r'(?m)^[ \t]+((?:self\.|fs\.|storage\.|[a-z_]+\.|\*?[a-z_.]+ [+-]?= |[a-z_]+\()[^;{}]*;)[ \t]*$', s):
            st = x.group(1)
            if st.startswith(('return', 'let', 'use', 'break', 'continue', 'pub')): continue
            add(x.start(1), x.end(1), '{}', 'stmt')
        for x in re.finditer(r'(?m)^[ \t]+(return [^;{}]*;)', s):
            if mask[x.start(1)]: pass
    return out

if __name__ == '__main__':
    ms = mutants()
    random.Random(7).shuffle(ms)
    for i, m in enumerate(ms):
        m['id'] = i
        print(json.dumps(m))
    print(len(ms), file=sys.stderr)
