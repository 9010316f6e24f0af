"""Patterns and subjects of the bounded stand-ins, by property."""
from .native import Case, words

AB3 = words('ab', 5)
ABC = words('abc', 4)


def cases(prop, thorough=False):
    n = 1 if thorough else 0
    ab, abc = words('ab', 5 + 2 * n), words('abc', 4 + n)
    out = []

    def add(pats, subj, ops=('match', 'search'), **kw):
        for p in pats:
            out.append(Case(prop, p, ops, subj, **kw))
    if prop == 'C01':
        add(['a', 'ab', 'a|b', 'a|ab|abc', 'ab|a', '(?:a|ab)(?:c|bc)', '|a', 'a|', '', 'abc', '[ab]c', '[^a]', '[^ab]b', '.', 'a.c', '(?:|a)b',
             '(?:a|b|c)(?:a|b)', 'a(?:b|)c', '(?:(?:a|b)|c)a', 'a(?:b(?:c|)|)', '[a-b]c', '\\x61b', '(?:a)(?:b)', 'ab(?:a|b)ab'], abc)
        add(['^a', 'a$', '^', '$', '^$', 'a^', '$a', '\\Aa', 'a\\z', 'a\\Z', '^a|b$', '(?:^|a)b', 'a(?:$|b)', '\\A\\z', '\\Ab\\Z', 'a\\zb'], ab, ops=('match', 'search', 'starts_with'))
        nl = words('a\n', 4 + n) + words('a\nb', 3 + n)
        add(['^a', 'a$', '^$', '^', '$', '.', 'a.a', '\\Aa', 'a\\z', 'a\\Z', '\\n^a', 'a$\\n', '^a$', '.+', '\\Z', '^.$', '(?:^|a)b', 'a(?:$|b)'], nl, ml=True)
        add(['.', 'a.a', '^a', 'a$', 'a\\z', '\\A.'], nl)
        wb = words('a_ -', 3 + n) + words('aZ0!', 3)
        add(['\\b', '\\ba', 'a\\b', '\\Ba', 'a\\B', '\\b.\\b', '\\B', '\\B.\\B', '.\\b.', '\\b\\w+\\b', '(?:\\b|-)a'], wb, ops=('search', 'starts_with'))
    elif prop == 'C02':
        for q in ('*', '+', '?', '{2}', '{1}', '{1,}', '{2,}', '{0,1}', '{0,2}', '{1,2}', '{2,3}', '{3,}', '{1,1}', '{2,2}', '{0,}'):
            for s in ('', '?', '+'):
                if q in ('{2}', '{1}') and s:
                    continue
                add(['a%s%sb' % (q, s), '(?:ab)%s%sa' % (q, s), '(?:a|b)%s%sb' % (q, s), '(a|)%s%sb' % (q, s), '(?:a?)%s%sb' % (q, s)], ab, ops=('match', 'search'))
        add(['(?:a*)*', '(?:a*)+b', '(?:a*b*)*a', '(?:a+?b??)*?b', '(?:(?:a|b)*a)*', '(?:a{1,2}){2}', '(?:a{1,2}){1,2}b', '(?:a*?)*?b', '(?:|a)*b', '(?:|a)+b', '(?:a|)+b', '(?:|a)*?b',
             '(?:|a){2}b', '(?:a?){3}b', '(?:a?){2,}b', '(?:a?)*+b', '(?:(?:a?)*b)*', '(?:(?:a?)+?b?)+?', '(?:a|b)*?b', '(?:^a)*b', '(?:^)*a', '(?:\\b)*a', '(?:$|a)*', '(?:a|$)+',
             'a*a', 'a*?a', 'a++b', 'a*+a', 'a?+a', 'a??b', '[ab]*b', '[ab]*?b', '(?:ab|a)*b', '.*b', '.*?b', '.+b', '.{2}b', '.{1,2}b', 'a{2}{2}' if 0 else 'a{2}a', '(a*)(a*)', '(a*?)(a*)',
             '(a+)(b+)?(a*)', '(?:(a)|b)*', '(?:a(b)?)*', '(?:(a*)b)*', '(a|b)*?b', '(a?b??)*'], ab, ops=('match', 'search', 'starts_with'))
    elif prop == 'C03':
        # adjacent repeats and what follows: the optimisation that removes backtracking must not change any outcome
        atoms = ['a', 'b', '[ab]', '[^a]', '[^b]', '.', '(?:a|b)', '(?:ab)', '(a)', '\\w', '\\W']
        rest = ['', 'a', 'b', 'a?b', '(?:a|b)', '(?=a)', '(?!a).', '\\b', '$', '(?:|a)b', '[^a]', 'b*a', '(b|)a', '(?:b?)a', '(?<=a)b', '(?>a|b)', 'a{2}', '\\1' if 0 else 'c']
        for x in atoms:
            add(['%s*%s' % (x, r) for r in rest], words('ab', 4 + n) + words('abc', 3), ops=('match', 'search'))
        add(['%s+%s' % (x, r) for x in ('a', '[^a]', '(?:ab)') for r in rest] + ['%s{1,2}%s' % (x, r) for x in ('a', '[^b]', '(?:a|b)') for r in rest], words('ab', 4 + n) + words('abc', 3))
        add(['(?i)a*%s' % r for r in ('A', 'b', '[A-B]', '[^A]', '[Z-a]', '\\x41', '[[:upper:]]', '(?c)A')] + ['(?i)[a-b]*%s' % r for r in ('A', 'B', 'c', '[A-C]', 'C')], words('aAbB', 3 + n) + words('acC', 3))
        add(['a*%s' % r for r in ('A', 'B', '[A-Z]', '[^A]', '(?:b|A)')], words('aAbB', 3 + n), ci=True)
        add(['[^ab]*%s' % r for r in ('a', '[^a]', '[^ab]', '[^b]', '[^c]', 'c', '\\d', '\\D', '\\w', '\\W', '\\s', '.', '[a-c]')] + ['\\d*%s' % r for r in ('1', '\\D', 'a', '\\w', '[^0]')], words('abc1', 3 + n))
        add(['a*\\Ba', 'a*\\ba', 'a*^a', 'a*$', 'a*(?m)$', '(?m)a*^a', '(?:\\n|a)*^a' if 0 else 'a*', 'a*(?:$|b)', 'a*(?!b)', 'a*(?=a)', 'a*(?<=a)', 'a*(?<!a)', '(?:a*)*b', '(?:a*b)*a', '(a*)\\1', '(a*)*a', 'a*(?>a)', 'a*(?:(?:)|b)a', 'a*(?:)a', 'a*[]a]' if 0 else 'a*[ab]', 'a*b*a', 'a*b?a', 'a*b*?a', 'a*b*+a', '(?:a*b*)a'], ab)
    elif prop == 'C05':
        add(['(a)', '(a)(b)', '(a(b))', '((a)|b)', '(a|(b))*', '(a)|b', '(?:(a)|(b))+', '(a*)(b*)', '(a*?)(b)', '(?<x>a)(?<y>b)', '((a*)b)*', '(a|b)*(a)', '(a(b(a)))', '(a)?b', '(a)??b', '(a)*b',
             '()', '(a|)b', '(|a)b', '(?:(a)b|a(b))', '(^a)', '(a$)', '(?:(a)|b)*b', '((?:a|b)(?:a|b))*', '(?:a(b)|b(a))*', '(?=(a))a', '(?=(a)b)(a)', '(?!(a)b)(a)', '(?>(a)|(b))', '(?:(a)a|(a)b)',
             '(a)+?b', '(a)++b', '(a){2}', '(a|b){2,3}', '(?:(a)(b)?)*', '(([ab])([ab]))', '(?<n>a|b)+(?<m>b)'], ab, ops=('match', 'search', 'starts_with'))
    elif prop == 'C06':
        add(['a', 'b|ab', 'ab', 'a*', 'b*', 'a+?', '^a', 'a$', '^', '$', '\\Ab', 'b\\z', '(?:^|b)a', '^a|b', '(?:^a|^b)', '(?:^a)?b', '(?:^a)*b', '(?:^)+a', '(?:^|^b)a', '\\b^a', '(^a)', '(?<x>^)a', '(?:^)?a', '(?:^){0,1}?a',
             '(?:\\Aa|b)', '(?:(?:^a)|b)b', '(?:^a){1,2}', '(?:^a){0,2}b', '(?>^a)', '(?=^)a', '(?:^)*+a', '(?m)^a', '(?:(?m)^)a', '(?:^a)++b', 'a(?:^|b)', '\\B^a', '(?=a)', '(?!a)', 'c'], abc, ops=('match', 'search', 'starts_with'))
        nl = words('a\nb', 3 + n)
        add(['^a', '(?:^)?a', 'a$', '^b|a', '(?:^a)+', '(?:^)b', '\\Aa', '^^a', '(?:^|\\A)a', '^\\Aa', '(?s)^a', '\\b^a', '(^)a'], nl, ops=('match', 'search', 'starts_with'), ml=True)
        add(['a', 'ab', '^a', 'a$', 'b*'], [w for w in ab], ct='z', ops=('match', 'search', 'starts_with'))
    elif prop == 'C07':
        add(['a', 'a*', 'a+', 'b|', '|b', 'a?', 'a*?', 'ab|a', '^a', 'a$', '^', '$', '(a)|b', '(?=a)', '(?<=a)', '\\b', 'aa', 'a|^b', '(?:^a)?', 'ab', '[ab]', 'a{2}', '(a)(b)?', '$|a', '\\Ba', '(?<=a)b', '^b|a'], ab, ops=('search_all', 'split', 'tokenize', 'iterator'))
        add(['a', '^', '$', '^a', 'a$', '.', '^.*$', '\\n', '\\n?'], words('a\n', 4 + n), ops=('search_all', 'split', 'tokenize', 'iterator'), ml=True)
    elif prop == 'C13':
        add(['(?=a)a', '(?=a)b', '(?!a)b', '(?!a)a', 'a(?=b)', 'a(?!b)', 'a(?=b)b', '(?=ab)a', '(?=a|b)b', '(?!ab)a', '(?=.b)a', '(?=a(?=b))a', '(?=(?!a)b)b', '(?!(?=a)b)a', '(?!(?!a))a', '(?=a*b)a', '(?=a*$)a', '(?!$)', '(?=$)', '(?!a*b)a', '(?=(a*)b)a',
             '(?<=a)b', '(?<!a)b', '(?<=ab)a', '(?<!ab)a', '(?<=a|b)a', '(?<=a)(?<=a)b' if 0 else '(?<=[ab])b', '(?<!a|ba)b', '(?<=a(?:b))a', '(?<=.)a', '(?<!.)a', '(?<=a)', '(?<!a)', 'a(?<=a)b', 'ab(?<=ab)', 'ab(?<!ab)a', '(?<=ab|b)a', '(?:(?<=a)b|a)*', '(?:(?=a)a|b)*', '(?:a(?!a)|b)*',
             '(?>a|ab)b', '(?>ab|a)b', '(?>a*)a', '(?>a*)b', '(?>a*?)b', '(?>a|b)*b', '(?>(?:a|ab))a', '(?>a+b|a)', '(?>)a', '(?>a?)a', '(?>(?>a*)b|a)', '(?>(a|ab))(b)?', '(?:(?>a*)b)*', '(?>|a)b', '(?>a??)b', '(?=(?>a*))a', '(?>(?=a)a|b)'], ab, ops=('match', 'search'))
    elif prop == 'C14':
        add(['(a)\\1', '(a*)\\1', '(a|b)\\1', '(ab)\\1', '(?:(a)|b)\\1', '(a)(b)\\2\\1', '(a)(b)\\1\\2', '(?<x>a|b)\\g{x}', '(a)\\g{1}', '(a)\\g{-1}', '(a)(b)\\g{-1}', '(a)(b)\\g{-2}', '(a*)b\\1', '(a+?)b\\1', '(a*)\\1b', '(.)\\1', '(.)(.)\\2\\1', '(?:(.)\\1)+', '(a?)\\1b', '()\\1a', '(a|ab)\\1', '(?:(a)\\1)*', '(a)?\\1b',
             '(?=(a*))\\1b', '(a*)(?:\\1)b', '(.*)\\1', '(.+)\\1$', '(a)|\\1b', '([ab]*)b\\1', '(?!(a)\\1)a'], words('ab', 6 + n), ops=('match', 'search'))
        add(['(a)\\1', '(.)\\1', '(ab?)\\1', '(?<n>.)\\g{n}', '(.*)-\\1'], words('aAb-', 4) + words('1!Aa', 3), ci=True)
        add(['(?i)(a)\\1', '(?i)(.)\\1', '(a)(?i)\\1', '(?i)(a)(?c)\\1', '(.)(?i)\\1'], words('aAB', 4) + words('[{@`', 3))
    elif prop == 'C16':
        s = words('aAb', 3 + n) + words('aB\n', 3)
        add(['(?i)a', '(?c)a', '(?i)ab', '(?i)a(?c)a', '(?c)a(?i)a', 'a(?i)a', '(?i)[a-b]', '(?i)[^a]', '(?i)\\x61', '(?s).', '(?m).', '(?m)^a', '(?m)a$', '(?s)^a', '(?im)^a', '(?mi)a$', '(?ic)a', '(?ci)a', '(?ms).a', '(?sm).a', '(?i)a*b', '(?i)(a)(b)?', '(?i)(?=a)a', '(?i)(?!a)b', '(?i)(?<=a)b', '(?i)a|b', '(?m).(?s).', '(?m)$(?s)'],
            s, ops=('match', 'search'))
        add(['a', 'ab', '[a-b]', '[^a]', '(?c)a', '(?c)a(?i)b', '[A]', 'B|a', '(?i)a', 'a+'], s, ops=('match', 'search', 'starts_with'), ci=True)
        add(['^a', 'a$', '.', '(?s).', '(?s)^a', '(?m)^a', '.*', '\\Z', '(?s)\\Z'], words('a\nb', 3 + n), ops=('match', 'search', 'starts_with'), ml=True)
        add(['^a', '.b', 'a$'], words('aA\nb', 3 + n), ops=('match', 'search'), ml=True, ci=True)
    elif prop == 'C04':
        add(['(?:a*)*b', '(?:a*)+b', '(?:|a)*b', '(?:a?b?)*c', '(?:(?:a*)*)*b', '(?:\\b)*a', '(?:^)*a', '(?:$)*', '(?:(?=a))*a', '(?:(?!b))*a', '(?:(?<=a))*b', '(?:(a*))*b', '(?:a|b*)*c', '(?:a*?)*?b', '(?:a*+)*b', '(?:)*a', '(?:)+a', '(?:){3}a', '(?:a??)*+b', '(?>a*)*b',
             'a', 'abc', 'a\\b', '\\ba', 'a$', '(?m)a$', '(?m)^a', 'a\\Z', '(?<=a)b', '(?<=ab)a', '(?<!a)b', '(?=ab)', '(a)\\1', '(a*)\\1b', '.', '.*', '.*?$', '[^a]', 'a{3}', 'a{2,}b', '(?:ab){2}', '(?m).*$', '(?m)(?:^.*$)+', 'ab|abc|abcc'], abc, ops=('match', 'search', 'search_all', 'split'))
        add(['abc', 'a*', 'a$', 'ab?c', '.*', '\\b', 'a\\b', '(?m)a$', '(a)\\1', '[^a]', 'a{2}', '(?=ab)a'], words('abc', 3 + n), ct='z', ops=('match', 'search', 'starts_with'))
    elif prop == 'C10':
        every = [(c,) for c in range(256)] + [(c,) for c in (0x100, 0x167f, 0x1680, 0x180d, 0x180e, 0x1fff, 0x2000, 0x2005, 0x200a, 0x200b, 0x2027, 0x2028, 0x2029, 0x202a, 0x202f, 0x205f, 0x2060, 0x3000, 0x3001, 0xd7ff, 0xffff, 0x10000, 0x10ffff)]
        names = list(__import__('ref.pcre', fromlist=['POSIX']).POSIX)
        pats = ['\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '\\h', '\\H', '\\v', '\\V', '\\N', '.'] + ['[[:%s:]]' % x for x in names] + ['[[:^%s:]]' % x for x in names]
        pats += ['[^%s]' % x for x in ('\\d', '\\w\\s', '[:alpha:]', 'a-z', '\\W', '\\h')] + ['[a-z]', '[A-Z]', '[Z-a]', '[`-{]', '[!-~]', '[^!-~]', 'a', 'Z', '@', '[aZ]', '[^aZ]', '[a-cX-Z_]', '[\\x00-\\x1f]', '[\\x7f-\\xff]', '\\xe9', '[\\x80-\\x{2028}]', '\\u2028', '[\\d\\s]', '[^\\d\\s]', '[\\D\\s]', '[a-]' if 0 else '[a\\-z]', '[_-a]']
        add(pats, every, ops=('match',), ct='U')
        add([p for p in pats if '2028' not in p], every[:256], ops=('match',))
        add(pats, every, ops=('match',), ct='U', ci=True)
        add(['[a-z]', '[A-Z]', '[^a-z]', 'a', 'Z', '[Z-a]', '\\w', '\\xe9'], every[:256], ops=('match',), ci=True)
    elif prop == 'C12':
        pats = ['a\\.b', '\\[a\\]', '\\{2\\}', 'a\\{2', '\\(a\\)', 'a\\*', 'a\\+', 'a\\?', 'a\\|b', '\\^a', 'a\\$', 'a\\-b', 'a\\/b', 'a/b', '\\\\', 'a,b', 'a:b', 'a]', 'a-b', '-', 'a=b', 'a!b', 'a<b', 'a>b', '"', '_', 'a\\"', '[+*()]', '[.$]', '[?!=<>|"/_]', '[{}]', '[a\\]]', '[\\[\\\\]', '[\\^a]', '[a^]', '[^^]', '[\\-a]', '[!-\\/]', '[a-c-]' if 0 else '[a-c]', '[a-c1-3]', '[^a-c]', '[\\d-]' if 0 else '[\\d]',
                '\\x41', '\\x{41}', '\\x{0041}', '\\u0041', '\\u{41}', '[\\x41-\\x43]', '[\\x{41}-\\u0043]', '\\n', '\\t', '\\r', '\\0', '\\a', '\\e', '\\f', '[\\n\\t\\r\\0\\a\\e\\f]', '\\d\\D', '\\w\\W', '\\s\\S', '\\h\\H', '\\v\\V', '\\N', 'a{2}', 'a{2,}', 'a{2,3}', 'a{12}', 'a{1,12}', 'a{2,3}?a', 'a{2,3}+a', 'a{2,}?a', 'a{2,}+a', 'a*?a', 'a*+', 'a+?', 'a++', 'a??', 'a?+', '(?:a)', '(a)', '(?<nm1>a)\\g{nm1}', '(?>a)', '(?=a)a', '(?!a)b', '(?<=a)b', '(?<!a)b', '(?i)a', '(?im)a',
                'a|b|c', '(a|b|c)', '(?:a|)', '(|a)', '(?:|a)', '|', '||a' if 0 else '|a', 'a|', '()', '(?:)', '(?:())', 'ab|cd|ef', 'a(b(c)d)e', '((a)(b))', '[a][b]', '[^a][^b]', '(?:a|b)c|d', '^a$|b', '\\A\\z', 'a\\Z', '\\ba\\b', '\\Ba', '(a)\\1', '(a)(b)\\2', '(a)\\g{1}', '(a)\\g{-1}', '(a)(b)(c)(d)(e)(f)(g)(h)(i)\\9', '[[:alpha:]]', '[[:^alpha:]1]', '[a[:digit:]]', '[[:digit:]a-c]', 'a b', '[ ]', '\\.\\*', 'a~b', '@#%&', ';', "'", '`']
        subj = words('ab', 4) + [(c,) for c in range(0, 127)] + [tuple(map(ord, w)) for w in ('a.b', '[a]', '{2}', 'a{2', '(a)', 'a*', 'a+', 'a?', 'a|b', '^a', 'a$', 'a-b', 'a/b', 'a,b', 'a:b', 'a]', 'a=b', 'a!b', 'a<b', 'a>b', 'a"', 'cd', 'ef', 'abcde', 'abcd', 'd', 'ac', 'bc', 'abb', 'aba', 'aa', '1a', '\n\t', '\x0bb', ' a', 'a b', '.*', 'a~b', '@#%&', 'abcdefghii', 'abcdefghi', 'Aa', 'a' * 12, 'a' * 11, 'a' * 13, 'z1', '-a')]
        add(pats, subj, ops=('match', 'search'))
    elif prop == 'C08':
        cps = [0x61, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff]
        subj = words(cps, 2 + n) + words([0x61, 0xe9, 0x20ac, 0x1f600], 3)
        for p in ['.', '..', 'a.', '.a', '[^a]', '[^a]a', '\\x{80}', '\\x{7ff}.', '[\\x{80}-\\x{7ff}]', '[\\x{800}-\\x{ffff}]', '\\x{10000}', '\\x{10ffff}', '[\\x{10000}-\\x{10ffff}]+', '.*', '(.)(.)', '(.*?)\\x{20ac}', 'é', '€+', '[é€]', '(?<=é)a', '(?<!.)a', '\\ba', '(?=€)', '(?i)A']:
            out.append(Case(prop, p, ('match', 'search', 'search_all'), subj, ct='8'))
            out.append(Case(prop, p, ('match', 'search'), subj, ct='U'))
    return out
