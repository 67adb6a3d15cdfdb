"""C++ type strings -> small tuples."""
import re
INTS = {'bool': ('bool',), 'char': ('int', 8, True), 'signed char': ('int', 8, True), 'unsigned char': ('int', 8, False),
 'short': ('int', 16, True), 'unsigned short': ('int', 16, False), 'int': ('int', 32, True), 'unsigned int': ('int', 32, False),
 'unsigned': ('int', 32, False), 'long': ('int', 64, True), 'unsigned long': ('int', 64, False), 'long long': ('int', 64, True),
 'unsigned long long': ('int', 64, False), 'std::size_t': ('int', 64, False), 'size_t': ('int', 64, False), 'SizeType': ('int', 64, False),
 'EdgeLearning::SizeType': ('int', 64, False), 'NumType': ('fp',), 'EdgeLearning::NumType': ('fp',),
 'std::uint8_t': ('int', 8, False), 'uint8_t': ('int', 8, False), 'std::uint32_t': ('int', 32, False), 'uint32_t': ('int', 32, False),
 'std::int64_t': ('int', 64, True), 'int64_t': ('int', 64, True), 'std::uint64_t': ('int', 64, False), 'uint64_t': ('int', 64, False), 'std::int32_t': ('int', 32, True),
 'std::ptrdiff_t': ('int', 64, True), 'ptrdiff_t': ('int', 64, True), 'std::streamsize': ('int', 64, True), 'streamsize': ('int', 64, True), 'std::streamoff': ('int', 64, True),
 'double': ('fp',), 'float': ('fp',), 'long double': ('fp',), 'void': ('void',), 'std::nullptr_t': ('ptr', ('void',)), 'nullptr_t': ('ptr', ('void',)),
 'std::filesystem::path': ('str',), 'fs::path': ('str',), 'filesystem::path': ('str',), 'std::string': ('str',), 'string': ('str',), 'std::basic_string<char>': ('str',), 'basic_string<char>': ('str',),
 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>': ('str',),
 'difference_type': ('int', 64, True), 'size_type': ('int', 64, False), 'wchar_t': ('int', 32, True)}

def split_args(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class Types:
    def __init__(self, ast):
        self.ast = ast
        self.cache = {}

    def of(self, td, scope=''):
        """type dict from the AST -> tuple"""
        q = td.get('desugaredQualType') or td.get('qualType')
        t = self.parse(q, scope)
        if t[0] == 'unk' and td.get('qualType') != q:
            t2 = self.parse(td['qualType'], scope)
            if t2[0] != 'unk': return t2
        return t

    def parse(self, s, scope=''):
        key = (s, scope)
        r = self.cache.get(key)
        if r is None:
            r = self._parse(s, scope); self.cache[key] = r
        return r

    def _parse(self, s, scope, depth=0):
        s = s.strip()
        s = re.sub(r'\b(struct|class|enum|typename|mutable|volatile)\s+', '', s)
        # pointer / reference suffixes
        if s.endswith('&&'): return ('ref', self.parse(s[:-2], scope))
        if s.endswith('&'): return ('ref', self.parse(s[:-1], scope))
        s2 = re.sub(r'(\*)\s*const$', r'\1', s)
        if s2.endswith('*'): return ('ptr', self.parse(s2[:-1], scope))
        if s.endswith(')') and '(' in s and not s.startswith('('):
            return ('func', s)
        s = re.sub(r'^const\s+', '', s); s = re.sub(r'\s+const$', '', s)
        s = s.strip()
        m = re.match(r'^(.*?)\s*\[(\d+)\]$', s)
        if m: return ('arr', self.parse(m.group(1), scope), int(m.group(2)))
        if s in INTS: return INTS[s]
        base = s
        if s.startswith('::'): s = s[2:]
        m = re.match(r'^([\w:]+)<(.*)>((::\w+)*)$', s)
        if m and not m.group(3):
            nm = m.group(1); args = split_args(m.group(2))
            short = nm.split('::')[-1]
            isstd = nm.startswith('std') or nm.startswith('__gnu') or '::' not in nm
            if isstd:
                if short == 'vector': return ('vec', self.parse(args[0], scope))
                if short == 'set': return ('set', self.parse(args[0], scope))
                if short in ('map',): return ('map', self.parse(args[0], scope), self.parse(args[1], scope))
                if short == 'unordered_map': return ('map', self.parse(args[0], scope), self.parse(args[1], scope))
                if short == 'basic_string': return ('str',)
                if short == 'shared_ptr' or short == '__shared_ptr': return ('sptr', self.parse(args[0], scope))
                if short == 'initializer_list': return ('vec', self.parse(args[0], scope))
                if short == 'tuple' or short == 'pair': return ('tup',) + tuple(self.parse(a, scope) for a in args)
                if short == 'array': return ('arr', self.parse(args[0], scope), int(re.sub(r'\D', '', args[1])))
                if short == 'function': return ('fun', m.group(2))
                if short == '__normal_iterator': return ('iter', self.parse(args[1], scope))
                if short in ('basic_ifstream', 'basic_istream', 'basic_stringstream', 'basic_ostream', 'basic_iostream', 'basic_istringstream', 'basic_ostringstream', 'basic_ios', 'basic_ofstream'): return ('stream', short)
                if short in ('istream_iterator', 'istreambuf_iterator'): return ('isit', self.parse(args[0], scope))
                if short in ('remove_reference_t',): return self.parse(args[0], scope)
                if short == 'reference_wrapper': return ('refw', self.parse(args[0], scope))
        if s in ('std::ifstream', 'std::istream', 'std::stringstream', 'std::ostream', 'std::istringstream', 'std::ostringstream', 'std::ofstream', 'ifstream', 'istream', 'stringstream', 'ostream', '__istream_type', '__ostream_type'):
            return ('stream', s)
        if re.match(r'^(BetterThreads::)?Future<', s): return ('int', 64, False)      # an opaque task handle
        # aliases and records in scope
        parts = scope.split('::') if scope else []
        for i in range(len(parts), -1, -1):
            c = '::'.join(parts[:i] + [s]) if i else s
            if c in self.ast.records: return ('rec', c)
            if c in self.ast.enum_names: return ('int', 32, True)
            if c in self.ast.aliases and depth < 8:
                a = self.ast.aliases[c]
                if a != s: return self._parse(a, scope, depth + 1)
        c = 'EdgeLearning::' + s
        if c in self.ast.records: return ('rec', c)
        if c in self.ast.enum_names: return ('int', 32, True)
        if c in self.ast.aliases and depth < 8: return self._parse(self.ast.aliases[c], scope, depth + 1)
        if s.endswith('<>'):            # all template arguments defaulted
            cands = [r for r in self.ast.records if re.match(r'^(\w+::)*' + re.escape(s[:-1].split('::')[-1]), r) and '::' not in r.split('<', 1)[1].split('>')[-1]]
            if len(cands) == 1: return ('rec', cands[0])
        # nested record names written relative to another record
        cands = [r for r in self.ast.records if r.endswith('::' + s)]
        if len(cands) == 1: return ('rec', cands[0])
        cands = [r for r in self.ast.enum_names if r.endswith('::' + s)]
        if len(cands) == 1: return ('int', 32, True)
        if s in ('std::_Ios_Seekdir', 'std::ios_base::seekdir', 'seekdir', 'std::_Ios_Openmode', 'std::_Ios_Fmtflags', 'fmtflags'): return ('int', 32, True)
        return ('unk', base)
