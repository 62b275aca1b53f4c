#!/usr/bin/env python3
"""Expand the compact *.pbx message descriptions into .proto files.

The dingo-store-proto submodule is empty in this sandbox, so the wire types the
sources use are reconstructed here from how the sources use them.
Usage: gen.py OUTDIR   (writes OUTDIR/proto/*.proto)"""
import sys, os, re, glob
here = os.path.dirname(os.path.abspath(__file__))
out = sys.argv[1]
os.makedirs(out + '/proto', exist_ok=True)
ALIAS = {'C.': 'dingodb.pb.common.', 'X.': 'dingodb.pb.error.', 'M.': 'dingodb.pb.meta.', 'S.': 'dingodb.pb.store.',
         'SI.': 'dingodb.pb.store_internal.', 'V.': 'dingodb.pb.version.', 'CO.': 'dingodb.pb.coordinator.',
         'CI.': 'dingodb.pb.coordinator_internal.', 'RF.': 'dingodb.pb.raft.', 'IX.': 'dingodb.pb.index.', 'DC.': 'dingodb.pb.document.', 'ST.': 'dingodb.pb.stream.', 'R.':''}
PKG = {'cluster_stat': 'cluster', 'file_service': 'fileservice'}

def ty(t):
    for a, f in ALIAS.items():
        if t.startswith(a):
            return f + t[len(a):]
    m = re.match(r'map<(\S+?),(\S+)>$', t)
    if m:
        return 'map<%s,%s>' % (m.group(1), ty(m.group(2)))
    return t

def split_top(s):
    parts, d, cur = [], 0, ''
    for c in s:
        if c == '{': d += 1
        if c == '}': d -= 1
        if c == ';' and d == 0:
            parts.append(cur); cur = ''
        else:
            cur += c
    parts.append(cur)
    return [p.strip() for p in parts if p.strip()]

def emit_enum(head, body):
    name = head.split()[1]
    n = 0
    o = ['enum %s {' % name]
    seen = set(); alias = False
    for p in split_top(body):
        if '=' in p:
            k, v = p.split('='); n = int(v); p = k.strip()
        if n in seen: alias = True
        seen.add(n)
        o.append('  %s = %d;' % (p, n)); n += 1
    if alias: o.insert(1, '  option allow_alias = true;')
    return o + ['}']

def emit_msg(name, body):
    o = ['message %s {' % name]
    num = [0]
    def field(p, allow_rep=True):
        rep = ''
        if p.startswith('R '):
            rep = 'repeated '; p = p[2:]
        if p.startswith('O '):
            rep = 'optional '; p = p[2:]
        t, n = p.rsplit(None, 1)
        num[0] += 1
        return '  %s%s %s = %d;' % (rep, ty(t.replace(' ', '')), n, num[0])
    for p in split_top(body):
        i = p.find('{')
        if i >= 0:
            h, b = p[:i].strip(), p[i + 1:p.rindex('}')]
            if h.startswith('enum '):
                o += ['  ' + x for x in emit_enum(h, b)]
            elif h.startswith('oneof '):
                o.append('  oneof %s {' % h.split()[1])
                for q in split_top(b): o.append('  ' + field(q))
                o.append('  }')
            else:
                o += ['  ' + x for x in emit_msg(h, b)]
        else:
            o.append(field(p))
    return o + ['}']

for f in sorted(glob.glob(here + '/dsl/*.pbx')):
    base = os.path.basename(f)[:-4]
    pkg = PKG.get(base, base)
    text = '\n'.join(l for l in open(f).read().split('\n') if not l.startswith('#'))
    imports, rest = [], []
    for l in text.split('\n'):
        if l.startswith('import '): imports.append(l.split()[-1])
        else: rest.append(l)
    ext = {}
    keep = []
    for l in rest:
        m = re.match(r'\+(\w+)\{(.*)\}$', l.strip())
        if m: ext.setdefault(m.group(1), []).append(m.group(2))
        else: keep.append(l)
    s = ' '.join(keep)
    o = ['syntax = "proto3";', 'package dingodb.pb.%s;' % pkg, 'option cc_generic_services = true;', 'option cc_enable_arenas = true;']
    o += ['import "proto/%s";' % i for i in imports]
    i = 0
    while i < len(s):
        j = s.find('{', i)
        if j < 0: break
        head = s[i:j].strip()
        d, k = 1, j + 1
        while d:
            if s[k] == '{': d += 1
            if s[k] == '}': d -= 1
            k += 1
        body = s[j + 1:k - 1]
        if head.startswith('enum '): o += emit_enum(head, body)
        elif head.startswith('service '):
            o.append('service %s {' % head.split()[1])
            for m in split_top(body):
                a = m.split()
                rq, rs = (a[1], a[2]) if len(a) > 2 else (a[0] + 'Request', a[0] + 'Response')
                o.append('  rpc %s(%s) returns (%s);' % (a[0], ty(rq), ty(rs)))
            o.append('}')
        else:
            if head in ext: body += ';' + ';'.join(ext.pop(head))
            o += emit_msg(head, body)
        i = k
    assert not ext, (f, ext)
    new = '\n'.join(o) + '\n'
    p = out + '/proto/%s.proto' % base
    if not os.path.exists(p) or open(p).read() != new:
        open(p, 'w').write(new)
