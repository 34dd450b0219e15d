"""Erroneous statements for script.py programs, for the checks of what happens after an error."""


def pick(r, xs, alt):
    xs = list(xs)
    return r.choice(xs) if xs else alt


class Errors:
    """bad() -> [(text, kind)]: kind 'bad' fails with a notice and does nothing, 'quiet' is accepted and prints nothing."""

    def __init__(self, script, interactive=False):
        self.s, self.r, self.n, self.interactive = script, script.r, 0, interactive

    def un(self):
        self.n += 1
        return 'undef%d' % self.n

    def bad(self, only=None):
        k = only or self.r.choice(KINDS)
        while self.interactive and k in LATE:
            k = self.r.choice(KINDS)
        return getattr(self, 'b_' + k)(), k

    def simple(self):
        """the text of an expression that does not build"""
        r, s = self.r, self.s
        w = r.randrange(8)
        u = self.un()
        if w == 0:
            return u
        if w == 1:
            return '%s(3)' % u
        if w == 2:
            return 'I(%s + 1)' % u
        if w == 3 and s.funcs:
            f = r.choice(list(s.funcs))
            return '%s(%s)' % (f, ', '.join('1' for _ in range(s.funcs[f][0] + 2)))
        if w == 4 and s.objs:
            return '%s.%s' % (r.choice(list(s.objs)), u)
        if w == 5 and s.mods:
            return '%s.%s' % (r.choice(list(s.mods)), u)
        if w == 6 and s.ints:
            return '%s(3)' % r.choice(list(s.ints))
        return 'I(%s)' % u

    def tag(self):
        return 'printf("bad %d\\n")' % self.n

    def b_unknown(self):
        return [('%s(%d)' % (self.un(), self.r.randrange(9)), 'bad')]

    def b_expr(self):
        return [('printf("bad %%d\\n", I(%s))' % self.simple(), 'bad')]

    def b_assign(self):
        return [('%s = %s' % (pick(self.r, self.s.ints, self.un()), self.simple()), 'bad')]

    def b_multi(self):
        """several errors in one statement: each line with an undefined name has its own"""
        r = self.r

        def stmts(d):
            o = []
            for _ in range(r.choice([1, 2, 2, 3])):
                w = r.random()
                if w < 0.5 or d > 2:
                    o.append(r.choice(['%s(%d)', 'printf("bad %%d\\n", %s + %d)']) % (self.un(), r.randrange(9)))
                elif w < 0.6:
                    o.append('printf("bad\\n")')
                else:
                    o.append(r.choice(['if 1 == 1 {\n%s;\n}', 'while 1 == 1 {\n%s;\n}', 'if 1 == 1 {\n%s;\n} else {\nprintf("bad\\n");\n}',
                                       '{\n%s;\n}', 'for mv = 0, mv < 3, ++mv {\n%s;\n}']) % ';\n'.join(stmts(d + 1)))
            return o
        self.un()
        n = self.n
        w = r.randrange(3)
        t = ';\n'.join(stmts(0) + ['%s(1)' % self.un()])
        if w == 0:
            return [('if 1 == 1 {\ndef mv: Int;\n%s;\n}' % t, 'bad')]
        if w == 1:
            return [('func multi%d(): Int {\ndef mv: Int;\n%s;\nreturn %s;\n}' % (n, t, self.un()), 'quiet'), ('printf("bad %%d\\n", multi%d())' % n, 'bad')]
        return [('class Multi%d {\ndef a: %s;\ndef b: Int;\ndef c: %s;\n}' % (n, self.un(), self.un()), 'quiet'), ('def vmulti%d: Multi%d' % (n, n), 'quiet'), ('vmulti%d.b = 3' % n, 'bad')]

    def b_types(self):
        a = pick(self.r, [x for x in self.s.objs if x in self.s.mdef], None)
        b = pick(self.r, self.s.ints, None)
        if a is None or b is None:
            return self.b_unknown()
        return [(self.r.choice(['%s = %s' % (b, a), 'printf("bad %%d\\n", %s + %s)' % (b, a), '%s = "text"' % b if False else '%s = %s' % (b, a)]), 'bad')]

    def b_literal(self):
        return [(self.r.choice(['1 = 2', '"a" = 3', '5(3)', '"a".b', '3 + "a".c']), 'bad')]

    def b_block(self):
        t = self.tag()
        k = self.r.randrange(5)
        e = self.simple()
        return [(['{ %s; printf("%%d\\n", I(%s)); }', 'if 1 == 1 { %s; } else { I(%s); }', 'while 1 == 1 { %s; I(%s); }', '{ I(1); { %s; }; { I(%s); } }',
                  'if 1 == 2 { } else { %s; I(%s); }'][k] % (t, e), 'bad')]

    def b_func(self):
        n = self.s.fresh('bf')
        self.un()
        body = '%s; return %s;' % (self.tag(), self.simple())
        call = self.r.choice(['%s()', 'printf("bad %%d\\n", %s())', '{ %s; %%s() }' % self.tag()]) % n
        return [('func %s(): Int { %s }' % (n, body), 'quiet'), (call, 'bad')] + ([(call, 'bad')] if self.r.random() < 0.3 else [])

    def b_deep(self):
        # the error is some calls away
        n = [self.s.fresh('bd') for _ in range(3)]
        e = self.simple()
        return [('func %s(): Int { return %s; }' % (n[0], e), 'quiet'), ('func %s(): Int { return %s() + 1; }' % (n[1], n[0]), 'quiet'),
                ('func %s(): Int { %s; return %s(); }' % (n[2], self.tag(), n[1]), 'quiet'), ('printf("bad %%d\\n", %s())' % n[2], 'bad')]

    def b_sig(self):
        n = self.s.fresh('bs')
        return [('func %s(a: %s): Int { return 1; }' % (n, self.un()), 'quiet'), ('%s(1)' % n, 'bad')]

    def b_class(self):
        n = self.s.fresh('BC')
        o = self.s.fresh('bo')
        return [('class %s { def v: %s; }' % (n, self.un()), 'quiet'), ('def %s: %s' % (o, n), 'quiet'), ('printf("bad %%d\\n", %s.v)' % o, 'bad')]

    def b_ctor(self):
        n = self.s.fresh('BC')
        o = self.s.fresh('bo')
        return [('class %s { def v: Int; handler this~init() { %s; this.v = %s; } }' % (n, self.tag(), self.simple()), 'quiet'), ('def %s: %s' % (o, n), 'quiet'),
                ('printf("bad %%d\\n", %s.v)' % o, 'bad')]

    def b_method(self):
        n = self.s.fresh('BC')
        o = self.s.fresh('bo')
        return [('class %s { def v: Int; handler this.m(): Int { %s; return %s; } }' % (n, self.tag(), self.simple()), 'quiet'), ('def %s: %s' % (o, n), 'quiet'),
                ('printf("bad %%d\\n", %s.m())' % o, 'bad')]

    def b_init(self):
        n = self.s.fresh('bg')
        return [('def %s: Int = %s' % (n, self.simple()), 'bad')]

    def b_initp(self):
        n = self.s.fresh('bg')
        return [('def %s: Int(%s)' % (n, self.simple()), 'quiet'), ('printf("bad %%d\\n", %s)' % n, 'bad')]

    def b_macro(self):
        n = self.s.fresh('bm')
        return [('macro %s [x] I(%s) + x' % (n, self.un()), 'quiet'), ('printf("bad %%d\\n", %s[%d])' % (n, self.r.randrange(9)), 'bad')]

    def b_macroargs(self):
        m = pick(self.r, self.s.macros, None)
        return [('printf("bad %%d\\n", %s[1, 2])' % m, 'bad')] if m else self.b_macro()

    def b_tfunc(self):
        n = self.s.fresh('bt')
        return [('func %s [T: type] (a: T): T { %s; return a.%s; }' % (n, self.tag(), self.un()), 'quiet'), ('%s[Int](1)' % n, 'bad')]

    def b_targs(self):
        t = pick(self.r, self.s.tmpl, None)
        o = self.s.fresh('bo')
        return [('def %s: %s[Int]' % (o, t), 'quiet'), ('printf("bad %%d\\n", %s.v)' % o, 'bad')] if t else self.b_tfunc()

    def b_pre(self):
        return [('preprocess { printf("bad\\n"); %s(); }' % self.un(), 'bad')]

    def b_prefunc(self):
        n = self.s.fresh('bp')
        return [('func %s(): Int { preprocess { printf("bad\\n"); %s(); } return 1; }' % (n, self.un()), 'quiet'), ('printf("bad %%d\\n", %s())' % n, 'bad')]

    def b_import(self):
        return [('import "%s"' % self.r.choice(['nosuch%d' % self.n, './nosuch.alusus', '/sim/none/x', 'no\\"x']), 'bad')]

    def b_syntax(self):
        return [(self.r.choice(['def 5 6', 'x = = 3', 'if { }', 'func 5()', 'class', '+', 'def', '= 5', 'while', 'def a b', 'def x: Int ='][:9]), 'bad')]

    def b_return(self):
        return [('return %d' % self.r.randrange(5), 'bad')]

    def b_merge(self):
        m = pick(self.r, self.s.mods, None)
        if m is None:
            return self.b_unknown()
        # the initialisation of a module belongs to the next executed statement
        return [('@merge module %s { def %s: Int = %s; }' % (m, self.s.fresh('v'), self.simple()), 'late')]

    def b_module(self):
        m = self.s.fresh('BM')
        return [('module %s { def v: Int = 3; printf("bad\\n"); printf("%%d", I(%s)); }' % (m, self.simple()), 'late')]

    def b_alias(self):
        n = self.s.fresh('ba')
        return [('def %s: alias %s' % (n, self.un()), 'quiet'), ('printf("bad %%d\\n", %s(1))' % n, 'bad')]

    def b_arr(self):
        n = self.s.fresh('bar')
        return [('def %s: array[%s, 3]' % (n, self.un()), 'quiet'), ('%s(0) = 1' % n, 'bad')]

    def b_ptr(self):
        n = self.s.fresh('bpt')
        return [('def %s: ptr[%s]' % (n, self.un()), 'quiet'), ('%s = 0' % n, 'bad')]

    def b_break(self):
        return [(self.r.choice(['break', 'continue', '{ %s; break; }' % self.tag(), 'if 1 == 1 break']), 'bad')]

    def b_rec(self):
        n, m = self.s.fresh('RC'), self.s.fresh('RC')
        o = self.s.fresh('bo')
        w = self.r.randrange(3)
        if w == 0:
            d = [('class %s { def v: Int; def r: %s; }' % (n, n), 'quiet')]
        elif w == 1:
            d = [('class %s { def v: Int; def r: %s; }' % (n, m), 'quiet'), ('class %s { def r: %s; }' % (m, n), 'quiet')]
        else:
            d = [('class %s { def v: Int; def r: array[%s, 2]; }' % (n, n), 'quiet')]
        return d + [('def %s: %s' % (o, n), 'quiet'), ('printf("bad %%d\\n", %s.v)' % o, 'bad')]

    NOTHING = ['preprocess {}', 'preprocess { Spp.astMgr.insertAst(ast {}) }', 'preprocess { I(3) }']

    def b_preempty(self):
        # the construct needs what the preprocess statement does not give
        e, w, n, o = self.r.choice(self.NOTHING), self.r.randrange(9), self.s.fresh('bp'), self.s.fresh('bo')
        t = self.tag()
        if w == 0:
            return [('def %s: %s' % (n, e), 'quiet'), ('%s = 3' % n, 'bad')]
        if w == 1:
            return [('class %s { def v: Int; def w: %s }' % (n, e), 'quiet'), ('def %s: %s' % (o, n), 'quiet'), ('printf("bad %%d\\n", %s.v)' % o, 'bad')]
        if w == 2:
            return [('func %s(): Int { %s; if %s { %s } return 3; }' % (n, t, e, t), 'quiet'), ('printf("bad %%d\\n", %s())' % n, 'bad')]
        if w == 3:
            return [('func %s(a: %s): Int { return 3; }' % (n, e), 'quiet'), ('printf("bad %%d\\n", %s(1))' % n, 'bad')]
        return [(['if %s { %s }', 'while %s { %s }', '{ def i: Int; for i = 0, %s, ++i { %s } }', '{ %s; printf("bad %%d\\n", 3~cast[%s]) }',
                  '{ %s; %s.x = 3 }'][w - 4] % ((e, t) if w < 7 else (t, '(%s)' % e if w == 8 else e)), 'bad')]

    def b_prearg(self):
        n = self.s.fresh('bp')
        return [('func %s(a: Int): Int { preprocess { printf("bad %%d\\n", a) } return a; }' % n, 'quiet'), ('printf("bad %%d\\n", %s(1))' % n, 'bad')]

    def b_prenest(self):
        d = self.r.choice([1, 2, 4])
        return [('preprocess { ' * (d + 1) + 'printf("bad\\n"); %s(); ' % self.un() + '}; printf("bad\\n"); ' * d + '}', 'bad')]

    def b_use(self):
        return [('module %s { use %s; printf("bad\\n"); }' % (self.s.fresh('BM'), self.r.choice([self.un(), '5', '1 + 2', '"a"', '(%s)' % self.un()])), 'late')]

    def b_alias2(self):
        n = self.s.fresh('ba')
        return [('def %s: alias %s' % (n, self.r.choice(['5', '1 + 2', '"a"', '(%s)' % self.un()])), 'quiet'), ('printf("bad %%d\\n", %s)' % n, 'bad')]

    def b_mergeclass(self):
        return [(self.r.choice(['@merge class %s { def v: Int }', '@merge def %s: class { def v: Int }', 'module %s { use preprocess {} }']) % self.s.fresh('BC'), 'quiet'), ('printf("bad\\n")', 'bad')]


# kinds that are found when the next statement is processed, which they stop
LATE = ['mergeclass']
KINDS = sorted(x[2:] for x in dir(Errors) if x.startswith('b_'))
