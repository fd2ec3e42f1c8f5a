"""The literals of the source text: texts, characters and numbers. Those the pinned tree does not have are
handed to the bounded search as a dictionary (contracts/literals.json holds those of the pinned tree)."""
import json, os, re, sys

ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', "'": "'", '"': '"'}


def unescape(s):
    def sub(m):
        x = m.group(1)
        if x[0] == 'u':
            return chr(int(x[2:-1].replace('_', ''), 16))
        if x[0] == 'x':
            return chr(int(x[1:], 16))
        if x[0] == '\n':
            return ''
        return ESC.get(x, x)
    return re.sub(r'\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|\n\s*|.)', sub, s, flags=re.S)


TOKEN = re.compile(r'''
    (?P<comment>//[^\n]*|/\*.*?\*/)
  | b?r(?P<h>\#*)"(?P<raw>.*?)"(?P=h)
  | b?"(?P<str>(?:[^"\\]|\\.)*)"
  | b?'(?P<chr>[^'\\\n]|\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.))'
  | (?P<num>\b(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:\.[0-9]+)?)(?:[iu](?:8|16|32|64|128|size)|f32|f64)?
''', re.X | re.S)


def literals(text):
    i = text.find('#[cfg(test)]')
    if i >= 0:
        text = text[:i]
    texts, numbers = [], []
    for m in TOKEN.finditer(text):
        if m.group('raw') is not None:
            texts.append(m.group('raw'))
        elif m.group('str') is not None:
            texts.append(unescape(m.group('str')))
        elif m.group('chr') is not None:
            texts.append(unescape(m.group('chr')))
        elif m.group('num'):
            n = m.group('num').replace('_', '')
            try:
                numbers.append(int(n, 0) if '.' not in n else int(float(n)))
            except ValueError:
                try:
                    numbers.append(int(n))
                except ValueError:
                    pass
    return texts, numbers


def collect(repo):
    out = {}
    for top in ('src', 'ratelmq-passwd/src'):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            for f in sorted(fs):
                if f.endswith('.rs'):
                    p = os.path.join(d, f)
                    t, n = literals(open(p, errors='replace').read())
                    out[os.path.relpath(p, repo)] = dict(texts=sorted(set(t)), numbers=sorted(set(n)))
    return out


def novel(repo, base):
    """Literals that a file did not have in the pinned tree."""
    texts, numbers = set(), set()
    for f, l in collect(repo).items():
        b = base.get(f, dict(texts=[], numbers=[]))
        texts |= set(l['texts']) - set(b['texts'])
        numbers |= set(l['numbers']) - set(b['numbers'])
    more = set()
    for t in texts:
        # the pieces of formats
        more |= {x for x in re.split(r'\{[^}]*\}', t)}
    texts |= more
    texts = {t for t in texts if t and len(t) < 200}
    return dict(texts=sorted(texts), numbers=sorted(n for n in numbers if 0 <= n < 2**63))


if __name__ == '__main__':
    print(json.dumps(collect(sys.argv[1]), indent=1, ensure_ascii=True, sort_keys=True))
