"""Clang AST loader: runs clang on the *current* /repo sources and indexes the JSON AST.

Nothing is copied or rewritten: what the verifier sees is exactly clang's AST of the text in /repo.
"""
import json, os, subprocess, re, hashlib, tempfile
from .types import TEnum

REPO = os.environ.get('VERIF_REPO', '/repo')

class ExtractError(Exception):
    pass

BASE_FLAGS = ['-std=c++14', '-fsyntax-only', '-w', '-ferror-limit=50', '-DFLUT_STATIC_DEFINE',
              '-include', 'cstring', '-include', 'cstdlib', '-include', 'cmath', '-include', 'cxxabi.h']


def run_clang(src, flags=()):
    cmd = ['clang++'] + BASE_FLAGS + ['-I' + REPO, '-I' + REPO + '/flut'] + list(flags) + \
          ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=flut', src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.stdout, p.stderr, p.returncode


def relax(src, err, drop):
    """The wrapper names each function template by its exact signature.  When /repo declares one with other parameter
    passing (by value or by reference), name it by a call instead; lines that still fail are dropped (the functions
    they name then count as not verified).  Only lines of the wrapper change, never the text of /repo."""
    bad = {int(m.group(1)) for m in re.finditer(r'^%s:(\d+):\d+: (?:fatal )?error' % re.escape(src), err, re.M)}
    if not bad:
        return None
    lines = open(src, newline='').read().split('\n')
    for k in bad:
        t = lines[k - 1].strip()
        m = re.match(r'^template\s+(?!struct|class)(.*?)(operator\s*[^\s(<]+|operator\(\)|[\w:]+(?:<.*>)?)\s*\((.*)\)(?:\s*->.*)?;\s*$', t)
        if not t.startswith('template'):
            return None
        if drop or not m or '::' in m.group(2).split('<')[0]:
            lines[k - 1] = ''
            continue
        args, depth, cur = [], 0, ''
        for ch in m.group(3):
            depth += (ch in '<(') - (ch in '>)')
            if ch == ',' and depth == 0:
                args.append(cur)
                cur = ''
            else:
                cur += ch
        args = [a.strip() for a in args + [cur] if a.strip()]
        lines[k - 1] = 'inline void vt_use_%d( %s ) { (void)%s( %s ); }' % (k, ', '.join('%s a%d' % (a, j) for j, a in enumerate(args)), m.group(2), ', '.join('a%d' % j for j in range(len(args))))
    fd, path = tempfile.mkstemp(suffix='.cpp', prefix='tu_')
    with os.fdopen(fd, 'w', newline='') as f:
        f.write('\n'.join(lines))
    return path


FUNC_KINDS = {'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'}


class TU:
    def __init__(self, src, flags=()):
        self.src = src
        out, err, rc = run_clang(src, flags)
        tmp = []
        for drop in (False, True, True):
            if rc == 0:
                break
            p = relax(tmp[-1] if tmp else src, err, drop)
            if p is None:
                break
            tmp.append(p)
            out, err, rc = run_clang(p, flags)
        for p in tmp:
            os.unlink(p)
        self.stderr = err
        if rc != 0:
            raise ExtractError('clang failed on %s:\n%s' % (src, err[-3000:]))
        self.objs = []
        dec = json.JSONDecoder()
        i, n = 0, len(out)
        while True:
            while i < n and out[i].isspace():
                i += 1
            if i >= n:
                break
            if out[i] != '{':
                i = out.index('\n', i) + 1
                continue
            o, i = dec.raw_decode(out, i)
            self.objs.append(o)
        if not self.objs:
            raise ExtractError('empty AST for ' + src)
        self.byid = {}
        self.canon = {}      # id -> canonical (first) id
        self.defs = {}       # canonical id -> node with body
        self.qname = {}      # id -> qualified name
        self.parent_rec = {}  # method id -> record node
        self.records = {}    # qualified name (with template args as printed) -> node
        self.aliases = {}
        self.sugar = {}    # alias qualified name -> type string
        self.enums = {}      # qualified enum name -> node
        self.globals = {}    # id -> node
        self.in_template = set()
        self._line = [None]
        seen = set()
        for o in self.objs:
            self._walk(o, [], None, seen, False)
        # definitions
        for id_, nd in self.byid.items():
            if nd.get('kind') in FUNC_KINDS:
                c = self.canonical(id_)
                if self.body(nd) is not None or nd.get('explicitlyDefaulted'):
                    self.defs[c] = nd
        self.funcs = {}
        for c, nd in self.defs.items():
            if nd['id'] in self.in_template:
                continue
            self.funcs.setdefault(self.qname[nd['id']], []).append(nd)

    # -- helpers
    def canonical(self, id_):
        seen = set()
        while id_ in self.byid and 'previousDecl' in self.byid[id_] and id_ not in seen:
            seen.add(id_)
            id_ = self.byid[id_]['previousDecl']
        return id_

    @staticmethod
    def body(nd):
        for c in nd.get('inner', []):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                return c
        return None

    @staticmethod
    def params(nd):
        return [c for c in nd.get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def definition(self, id_):
        return self.defs.get(self.canonical(id_))

    def _walk(self, n, ctx, rec, seen, templ):
        if not isinstance(n, dict) or not n:
            return
        k = n.get('kind', '')
        id_ = n.get('id')
        t = n.get('type')
        if t and 'desugaredQualType' in t and '<' in t['qualType'] and not templ:
            self.sugar[t['qualType']] = t['desugaredQualType']
        if id_ and k.endswith('Decl'):
            old = self.byid.get(id_)
            if old is None or (len(old.get('inner', [])) < len(n.get('inner', []))):
                self.byid[id_] = n
            if templ:
                self.in_template.add(id_)
        name = n.get('name', '')
        if k == 'NamespaceDecl':
            for c in n.get('inner', []):
                self._walk(c, ctx + [name], rec, seen, templ)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            nm = name
            if k == 'ClassTemplateSpecializationDecl':
                nm = name + self.targs(n)
            if k == 'ClassTemplatePartialSpecializationDecl':
                templ = True
            if 'parentDeclContextId' in n and n['parentDeclContextId'] in self.qname and not ctx:
                ctx = self.qname[n['parentDeclContextId']].split('::')
            q = '::'.join(ctx + [nm])
            self.qname[id_] = q
            if n.get('completeDefinition') and not templ:
                self.records[q] = n
            n['_qname'] = q
            for c in n.get('inner', []):
                self._walk(c, ctx + [nm], n, seen, templ)
            return
        if k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                self._walk(c, ctx, rec, seen, templ or c.get('kind') == 'CXXRecordDecl')
            return
        if k == 'FunctionTemplateDecl':
            first = True
            for c in n.get('inner', []):
                if c.get('kind') in FUNC_KINDS:
                    self._walk(c, ctx, rec, seen, templ or first)
                    if not first:
                        c['_pattern'] = pat
                    else:
                        pat = c
                    first = False
            return
        if k in FUNC_KINDS:
            pctx = ctx
            if rec is not None:
                self.parent_rec[id_] = rec
            if 'parentDeclContextId' in n and (rec is None):
                pid = n['parentDeclContextId']
                if pid in self.qname:
                    pctx = self.qname[pid].split('::') if '<' not in self.qname[pid] else [self.qname[pid]]
                    self.parent_rec[id_] = self.byid.get(pid)
            self.qname[id_] = '::'.join(pctx + [name])
            for c in n.get('inner', []):
                self._walk(c, pctx + [name], None, seen, templ)
            return
        if k == 'EnumDecl':
            q = '::'.join(ctx + [name])
            self.qname[id_] = q
            self.enums[q] = n
            val = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    v = None
                    for e in c.get('inner', []):
                        v = const_value(e)
                        if v is not None:
                            break
                    val = val + 1 if v is None else v
                    c['_value'] = val
                    c['_enum'] = q
                    self.byid[c['id']] = c
            vals = [c['_value'] for c in n.get('inner', []) if c.get('kind') == 'EnumConstantDecl']
            if vals and not n.get('fixedUnderlyingType') and not n.get('scopedEnumTag') and min(vals) >= 0:
                TEnum.ranges[q] = (0, (1 << max(1, max(vals).bit_length())) - 1)
            return
        if k in ('TypedefDecl', 'TypeAliasDecl'):
            q = '::'.join(ctx + [name])
            t = n.get('type', {})
            self.aliases[q] = t.get('desugaredQualType', t.get('qualType', ''))
        if k == 'VarDecl' and id_:
            self.qname[id_] = '::'.join(ctx + [name])
            self.globals[id_] = n
        for c in n.get('inner', []):
            self._walk(c, ctx, rec, seen, templ)

    @staticmethod
    def targs(n):
        a = []
        for c in n.get('inner', []):
            if c.get('kind') == 'TemplateArgument':
                if 'type' in c:
                    t = c['type']
                    a.append(t.get('desugaredQualType', t.get('qualType')))
                elif 'value' in c:
                    a.append(str(c['value']))
                elif c.get('isPack') or 'inner' in c:
                    for d in c.get('inner', []):
                        if 'type' in d:
                            a.append(d['type'].get('desugaredQualType', d['type'].get('qualType')))
                        elif 'value' in d:
                            a.append(str(d['value']))
        return '<' + ', '.join(str(x) for x in a) + '>'

    def file_of(self, nd):
        # JSON AST prints 'file' only on change; the mangled/loc info is best effort
        for k in ('loc', 'range'):
            l = nd.get(k, {})
            if k == 'range':
                l = l.get('begin', {})
            for x in (l, l.get('expansionLoc', {}), l.get('spellingLoc', {})):
                if x.get('file'):
                    return x['file']
        return '?'

    def fields(self, rec):
        return [c for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']


def const_value(e):
    if not isinstance(e, dict):
        return None
    if 'value' in e and e.get('kind') in ('ConstantExpr', 'IntegerLiteral', 'CharacterLiteral'):
        try:
            return int(e['value'])
        except (ValueError, TypeError):
            return None
    for c in e.get('inner', []):
        v = const_value(c)
        if v is not None:
            return v
    return None


_demangle_cache = {}


def demangle(names):
    todo = [x for x in names if x not in _demangle_cache]
    if todo:
        p = subprocess.run(['c++filt'], input='\n'.join(todo), capture_output=True, text=True)
        for a, b in zip(todo, p.stdout.splitlines()):
            _demangle_cache[a] = b
    return [_demangle_cache.get(x, x) for x in names]


def line_of(n):
    """best-effort source line of an AST node"""
    r = n.get('range', {}).get('begin', {})
    for k in ('line',):
        if k in r:
            return r[k]
    for sub in ('expansionLoc', 'spellingLoc'):
        if sub in r and 'line' in r[sub]:
            return r[sub]['line']
    return None
