"""Contract files (*.ct) -> CBMC contract clauses and native run-time wrappers.

contract RET NAME(ARGS)
  requires EXPR ;
  ensures [label] EXPR ;
  assigns LVALUE, LVALUE ;
end

RESULT is the return value, OLD(e) the value of e on entry.
"""
import re


class Contract:
    def __init__(self):
        self.req, self.ens, self.asg = [], [], None


def _split_args(s):
    s = s.strip()
    if s in ('', 'void'):
        return []
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([':
            depth += 1
        if ch in ')]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def parse(text):
    text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
    res = []
    pos = 0
    for m in re.finditer(r'^contract\s+(.*?)^end\s*$', text, flags=re.S | re.M):
        body = m.group(1)
        head, *clauses = re.split(r'^\s+(?=requires\b|ensures\b|assigns\b)', body, flags=re.M)
        head = ' '.join(head.split())
        hm = re.match(r'(.*?)([A-Za-z_]\w*)\s*\((.*)\)$', head)
        c = Contract()
        c.ret, c.name, c.args = hm.group(1).strip(), hm.group(2), _split_args(hm.group(3))
        c.argnames = [re.search(r'([A-Za-z_]\w*)\s*(\[\w*\])*$', a).group(1) for a in c.args]
        for cl in clauses:
            cl = cl.strip()
            assert cl.endswith(';'), cl
            cl = cl[:-1].strip()
            kw, rest = re.match(r'(\w+)\s*(.*)$', cl, flags=re.S).groups()
            rest = ' '.join(rest.split())
            if kw == 'requires':
                c.req.append(rest)
            elif kw == 'ensures':
                lm = re.match(r'\[([\w-]+)\]\s*(.*)$', rest)
                c.ens.append(lm.groups() if lm else ('post%d' % (len(c.ens) + 1), rest))
            elif kw == 'assigns':
                c.asg = rest
        res.append(c)
    return res


def _olds(expr):
    """find OLD(...) occurrences, balanced"""
    out = []
    i = 0
    while True:
        m = re.compile(r'\bOLD\s*\(').search(expr, i)
        if not m:
            return out
        j, d = m.end(), 1
        while d:
            d += (expr[j] == '(') - (expr[j] == ')')
            j += 1
        out.append((m.start(), j, expr[m.end():j - 1]))
        i = j


def gen_cbmc(contracts, want):
    o = []
    for c in contracts:
        if want is not None and c.name not in want:
            continue
        o.append('%s %s (%s)' % (c.ret, c.name, ', '.join(c.args) or 'void'))
        for r in c.req:
            o.append('__CPROVER_requires (%s)' % r)
        for lab, e in c.ens:
            e = e.replace('RESULT', '__CPROVER_return_value')
            e = re.sub(r'\bOLD\s*\(', '__CPROVER_old(', e)
            o.append('__CPROVER_ensures (%s)' % e)
        if c.asg is not None:
            o.append('__CPROVER_assigns (%s)' % c.asg)
        o.append(';')
    return '\n'.join(o) + '\n'


def gen_native(contracts):
    o = []
    for c in contracts:
        void = c.ret == 'void'
        o.append('static __attribute__((unused)) %s VTC_%s (%s)\n{' % (c.ret, c.name, ', '.join(c.args) or 'void'))
        for r in c.req:
            o.append('  vt_assume (%s);' % r)
        k, posts = 0, []
        for lab, e in c.ens:
            e2, last = '', 0
            for s, t, inner in _olds(e):
                o.append('  __typeof__ (%s) vt_old%d = (%s);' % (inner, k, inner))
                e2 += e[last:s] + '(vt_old%d)' % k
                last = t
                k += 1
            e2 += e[last:]
            posts.append((lab, e2.replace('RESULT', 'vt_ret')))
        call = '%s (%s)' % (c.name, ', '.join(c.argnames))
        o.append('  %s%s;' % ('' if void else '%s vt_ret = ' % c.ret, call))
        for lab, e in posts:
            o.append('  vt_check ((%s), "%s: ensures [%s]");' % (e, c.name, lab))
        if not void:
            o.append('  return vt_ret;')
        o.append('}')
    return '\n'.join(o) + '\n'
