"""Writes configurations of the specification (spec/Options.tla) as Rust source.

Nothing here decides what the derive should do: names, slot kinds and patterns
come from the specification through the `res` part of a case.  The only freedom
is in spelling (P20): every way to write an option that means the same is used,
chosen by a seeded generator.
"""
import random
import re


def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'


class Neutral:
    """A stand-in for random.Random that always takes the middle road."""

    def random(self):
        return 0.5

    def choice(self, s):
        return s[0]

    def randrange(self, a, b=None):
        return 0 if b is None else b - 1

    def shuffle(self, s):
        pass


class Speller:
    """plain: only spellings that give the very same tokens; neutral: one fixed spelling."""

    def __init__(self, seed, plain=False, neutral=False, env='std'):
        self.r = Neutral() if neutral else random.Random(seed)
        self.plain = plain
        self.env = env

    def frag(self, kind, text):
        """text, which a macro_rules macro may get as a fragment of that kind (see place)."""
        return f'\2{kind}\3{text}\4' if self.env == 'macro' else text

    def quoted(self, val):
        # what mentions self has to stand where the item stands
        return q(val) if re.search(r'\bself\b', val) else self.frag('literal', q(val))

    def ident(self, key, val):
        return f'{key} = {self.frag("ident", val)}' if self.r.random() < 0.3 else f'{key} = {self.quoted(val)}'

    def path(self, key, val):
        return f'{key} = {self.frag("path", val)}' if self.r.random() < 0.3 else f'{key} = {self.quoted(val)}'

    def tri(self, key, val):
        if val == 'true':
            return self.r.choice([key, key, f'{key} = {self.frag("literal", "true")}'])
        return f'{key} = {self.frag("literal", "false")}'

    def expr(self, val):
        return val if re.search(r'\bself\b', val) else self.frag('expr', val)

    def code(self, key, val):
        """An expression, quoted in several ways or not quoted."""
        n = self.r.randrange(12)
        if val.startswith('"'):
            # a string must be quoted once more, or it would be taken for code itself
            return f'{key} = {self.quoted(val)}' if n % 2 else f'{key} = r#"{val}"#'
        if not self.plain and n > 7:
            # the same value by way of other expressions, with and without quotes
            e = self.r.choice(['{{ {} }}', '({})', 'match () {{ () => {} }}', '{{ let made = {}; made }}', 'if true {{ {} }} else {{ loop {{}} }}',
                               '{{ {{ {} }} }}', '::core::option::Option::Some({}).unwrap()', '({},).0',
                               '::core::convert::identity({})', 'loop {{ break {} }}']).format(val)
            return f'{key} = {self.expr(e)}' if self.r.random() < 0.5 else f'{key} = {self.quoted(e)}'
        if n < 3:
            return f'{key} = {self.quoted(val)}'
        if n < 5:
            return f'{key} = {self.expr(val)}'
        if n == 5:
            return f'{key} = {q(val + " // note")}'
        if n == 6 and not self.plain:
            return f'{key} = {q("/* a */ let made = " + val + "; made")}'
        return f'{key} = r#"{val}"#'

    def vis(self, v):
        o = []
        if v['p']:
            o.append('public')
        if v['r']:
            o.append('private')
        if v['v'] != 'none':
            o.append(f'vis = {self.quoted(v["v"])}')
        return o

    def shuffled(self, items):
        items = list(items)
        self.r.shuffle(items)
        return items

    def group(self, key, items):
        return f'{key}({", ".join(self.shuffled(items))})'

    def attrs(self, items):
        """Spread options over one or several #[builder(..)] attributes."""
        items = self.shuffled(items)
        out = []
        while items:
            n = len(items) if self.r.random() < 0.6 else self.r.randrange(1, len(items) + 1)
            trail = ',' if self.r.random() < 0.15 else ''
            out.append(self.meta(f'builder({", ".join(items[:n])}{trail})'))
            items = items[n:]
        if self.r.random() < 0.05:
            out.append('#[builder()]')
        return out


    def meta(self, text):
        if self.env == 'macro' and 'self' not in text and self.r.random() < 0.2:
            return f'#[{self.frag("meta", whole(text))}]'
        return f'#[{text}]'


MARK = re.compile('\2(\\w+)\3([^\2\3\4]*)\4')


def whole(text):
    """text without the marks of fragments in it."""
    return MARK.sub(lambda m: m.group(2), text)


def grouped(sp, text):
    """Some of the fragments in text in the invisible groups that a macro_rules macro leaves around them, which the
    expander makes of __none{..}"""
    return MARK.sub(lambda m: m.group(2) if m.group(1) in ('ident', 'meta') or sp.r.random() < 0.4
                    else '__none{' + m.group(2) + '}', text)


def placed(sp, text):
    """text as the expansion of a macro_rules macro that gets some of its fragments as arguments."""
    args = []

    def one(m):
        if sp.r.random() < 0.4:
            return m.group(2)
        args.append(m.groups())
        return f'$a{len(args)}'
    body = MARK.sub(one, text)
    pars = ''.join(f'$a{i}: {k}, ' for i, (k, _) in enumerate(args, 1))
    return f'macro_rules! place {{ ({pars}) => {{\n{body}\n}} }}\nplace! {{ {"".join(t + ", " for _, t in args)}}}'


def pass_attr(sp, a):
    k, t = a['k'], a['t']
    if k == 'doc' and t.startswith('doc="') and '\\' not in t and not sp.plain and sp.r.random() < 0.5:
        return sp.r.choice(['///{}\n', '/**{}*/']).format(t[5:-1])
    names = {'bfa': 'builder_field_attr', 'bsa': 'builder_setter_attr',
             'bsta': 'builder_struct_attr', 'bia': 'builder_impl_attr'}
    if k in names:
        return sp.meta(f'{names[k]}({t})')
    base, _, form = k.partition('_')
    if form == 'word':
        return f'#[{names[base]}]'
    if form == 'nv':
        return f'#[{names[base]} = {q(t)}]'
    return sp.meta(t)


def interleave(r, a, b):
    """Merge two lists keeping the order within each."""
    out, a, b = [], list(a), list(b)
    while a or b:
        if a and (not b or r.random() < len(a) / (len(a) + len(b))):
            out.append(a.pop(0))
        else:
            out.append(b.pop(0))
    return out


SLOT = {'option': 'vsupport::Opt(&self.{0})', 'precise': 'vsupport::Pre(&self.{0})',
        'phantom': 'vsupport::Pha(&self.{0})'}


def own_default(c, res, f):
    d = f['dflt']
    if d == 'expr':
        return f'vsupport::dfl({q(f["id"])})'
    if d == 'fallible':
        return f'vsupport::dfl_f({q(f["id"])})?'
    if d == 'self':
        k = res['fields'][0]['slot'] if res else 'option'
        return f'vsupport::dself({q(f["id"])}, {SLOT[k].format(c["fields"][0]["id"])})'
    return ''


def field_options(sp, c, res, f, i):
    o = []
    if f['pattern'] != 'none':
        o.append(f'pattern = {sp.quoted(f["pattern"])}')
    o += sp.vis(f['vis'])
    s = f['set']
    if s['form'] == 'word':
        o.append('setter')
    elif s['form'] == 'list':
        l = []
        for k in ('prefix', 'name'):
            if s[k] != 'none':
                l.append(sp.ident(k, s[k]))
        for k, w in (('into', 'into'), ('strip', 'strip_option'), ('skip', 'skip'), ('custom', 'custom')):
            if s[k] != 'none':
                l.append(sp.tri(w, s[k]))
        if s['each'] != 'none':
            if s['each_into']:
                l.append(sp.group('each', [sp.ident('name', s['each']), sp.tri('into', 'true')]))
            else:
                n = sp.r.randrange(3)
                if n == 0:
                    l.append(sp.ident('each', s['each']))
                elif n == 1:
                    l.append(f'each({sp.ident("name", s["each"])})')
                else:
                    l.append(sp.group('each', [sp.ident('name', s['each']), 'into = false']))
        if l or sp.r.random() < 0.3:
            o.append(sp.group('setter', l))
    if f['try']:
        o.append('try_setter')
    d = f['dflt']
    if d == 'word':
        o.append('default')
    elif d == 'empty':
        o.append('default = ""')
    elif d in ('lit', 'lit0'):
        o.append(sp.code('default', res['fields'][i]['lit']))
    elif d != 'none':
        o.append(sp.code('default', own_default(c, res, f)))
    l = sp.vis(f['fld']['vis'])
    if f['fld']['ty'] != 'none':
        l.append(f'ty = {sp.quoted(res["fields"][i]["fldty"])}')
    b = f['fld']['build']
    if b == 'empty':
        l.append('build = ""')
    elif b != 'none':
        arg = SLOT[res['fields'][i]['slot']].format(f['id'])
        e = f'vsupport::bld({q(f["id"])}, {arg})' if b == 'expr' else f'vsupport::bld_f({q(f["id"])}, {arg})?'
        l.append(sp.code('build', e))
    if l or sp.r.random() < 0.02:
        o.append(sp.group('field', l))
    return o


def struct_options(sp, c, res):
    o = []
    if c['bname'] != 'none':
        o.append(sp.ident('name', c['bname']))
    if c['pattern'] != 'none':
        o.append(f'pattern = {sp.quoted(c["pattern"])}')
    o += sp.vis(c['bvis'])
    l = sp.vis(c['fvis'])
    if l:
        o.append(sp.group('field', l))
    l = []
    s = c['sset']
    if s['prefix'] != 'none':
        l.append(sp.ident('prefix', s['prefix']))
    for k, w in (('into', 'into'), ('strip', 'strip_option'), ('skip', 'skip')):
        if s[k] != 'none':
            l.append(sp.tri(w, s[k]))
    if l or sp.r.random() < 0.05:
        o.append(sp.group('setter', l))
    if c['try']:
        o.append('try_setter')
    if c['dflt'] == 'word':
        o.append('default')
    elif c['dflt'] == 'empty':
        o.append('default = ""')
    elif c['dflt'] == 'expr':
        o.append(sp.code('default', 'sd_make()'))
    elif c['dflt'] == 'fallible':
        o.append(sp.code('default', 'vsupport::sd_f(sd_value)?'))
    b = c['bf']
    l = []
    if b['skip']:
        l.append(sp.tri('skip', 'true'))
    elif sp.r.random() < 0.03:
        l.append('skip = false')
    if b['name'] != 'none':
        l.append(sp.ident('name', b['name']))
    if b['validate']:
        l.append(sp.path('validate', 'vld' if sp.plain else sp.r.choice(['vld', 'vld' if c['env'] == 'local' else 'self::vld', 'Self::vld_of', 'vld::<>'])))
    l += sp.vis(b['vis'])
    e = b['err']
    if e == 'custom':
        l.append(sp.path('error', 'CustomErr'))
    elif e == 'customNU':
        l.append(sp.path('error', 'vsupport::CustomErrNoUninit'))
    elif e == 'customG':
        l.append('error = ' + sp.quoted(sp.r.choice(['vsupport::CustomErrOf<C>', 'vsupport :: CustomErrOf < C >'])))
    elif e in ('gen_true', 'gen_false'):
        l.append(f'error({"validation_error" if e == "gen_true" and sp.r.random() < .3 else "validation_error = " + e[4:]})')
    if l:
        o.append(sp.group('build_fn', l))
    if c['derive']:
        o.append(f'derive({", ".join(c["derive"])})')
    if c['ctor']:
        o.append('custom_constructor')
    if c['empty'] != 'none':
        o.append(sp.ident('create_empty', c['empty']))
    if c['nostd']:
        o.append('no_std')
    if c['crate'] != 'none':
        o.append(sp.path('crate', c['crate']) if not c['crate'].startswith('crate') else f'crate = {q(c["crate"])}')
    return o


def item(c, res, seed, derive='#[derive(Builder)]', plain=False, neutral=False, public=False):
    """The deriving item."""
    sp = Speller(seed, plain, neutral, c['env'])
    extra = [f'#[builder({c["bad"]})]'] if c['bad'] else []
    lines = [derive] + interleave(sp.r, [pass_attr(sp, a) for a in c['attrs']],
                                  sp.shuffled(sp.attrs(struct_options(sp, c, res)) + extra))
    g = res['gen']
    vis = sp.frag('vis', c['vis']) + ' ' if c['vis'] or c['env'] == 'macro' else ''
    name = sp.frag('ident', c['name'])
    kind = c['kind']
    if kind == 'tuple':
        lines.append(f'{vis}struct {name}(V, V);')
    elif kind == 'unit':
        lines.append(f'{vis}struct {name};')
    elif kind == 'enum':
        lines.append(f'{vis}enum {name} {{ A {{ x: V }}, B }}')
    else:
        lines.append(f'{vis}{"union" if kind == "union" else "struct"} {name}{g["decl"]} {g["wh"]} {{')
        for i, f in enumerate(c['fields']):
            extra = [f'#[builder({f["bad"]})]'] if f['bad'] else []
            at = interleave(sp.r, [pass_attr(sp, a) for a in f['attrs']],
                            sp.shuffled(sp.attrs(field_options(sp, c, res, f, i)) + extra))
            fv = sp.r.choice(['', 'pub ', 'pub(crate) ']) if not public else 'pub '
            lines += ['  ' + a for a in at] + [f'  {sp.frag("vis", fv.strip())} {sp.frag("ident", f["id"])}: {sp.frag("ty", res["fields"][i]["ty"])},']
        if kind == 'union':
            lines.append('  u: C,')
        lines.append('}')
    text = '\n'.join(lines)
    return text if c['env'] != 'macro' else placed(sp, text) if derive else grouped(sp, text)


SHADOWS = ['Option', 'Result', 'String', 'Vec', 'Box', 'Into', 'From', 'TryInto', 'TryFrom',
           'ToString', 'ToOwned', 'Default', 'AsRef', 'Iterator', 'Extend', 'IntoIterator', 'Drop', 'PhantomData', 'Error',
           'Display', 'Debug_', 'UninitializedFieldError', 'derive_builder', 'export']


# another struct that derives a builder beside the one that it is about
SIBLING = ('#[derive(Builder)] #[builder(setter(into, strip_option), try_setter, derive(Debug), build_fn(validate = "Self::check"))] struct Sibling '
           '{ foo: u8, #[builder(default)] bar: ::core::option::Option<u8>, #[builder(default = "2", setter(prefix = "with"))] baz: u16, '
           '#[builder(setter(skip))] value: u8, #[builder(setter(custom), field(ty = "u8", build = "self.x"))] x: u8 }\n'
           'impl SiblingBuilder { fn check(&self) -> ::core::result::Result<(), ::vsupport::std::string::String> { ::core::result::Result::Ok(()) } }')


def c_generics(res):
    return re.findall(r'\w+', res['gen']['decl'] + res['gen']['wh'])


ITEM, REST = '// the item', '// the rest'


def module(case, seed, neutral=False, public=False, lean=False):
    """A module with the deriving item and its driver, or, lean, with next to nothing that uses the builder.

    Driver lines end with the properties that an error of the compiler there belongs to.
    """
    c, res = case['cfg'], case['res']
    tid = case['id']
    env = c['env']
    g = res['gen']
    name, B = c['name'], res['builder']
    std = '::vsupport::std'
    o = [f'pub mod m{tid} {{']
    use = ['Arr', 'C', 'CustomErr', 'HasOpt', 'HasItem', 'It', 'L', 'Lent', 'Mk', 'N', 'OptV', 'Raw', 'Show', 'Tr', 'V', 'X', 'Driver', 'Op']
    o.append(f'use ::vsupport::{{{", ".join(use)}}}; use ::vsupport::{{self, option}};')
    lib = {'alias': '::db_alias', 'reexport': '::reexp::db'}.get(env, '::derive_builder')
    o.append(f'use {lib}::Builder;')
    if env == 'shadow':
        o.append(' '.join(f'pub struct {n};' for n in SHADOWS if n not in c_generics(res)))
    if env in ('shadow', 'macro', 'local'):
        o.append(SIBLING)
    if env == 'local':
        o.insert(1, f'pub fn make() -> {std}::boxed::Box<dyn ::vsupport::Driver> {{')
    o += [ITEM, item(c, res, seed, neutral=neutral, public=public), REST] if public else [item(c, res, seed, neutral=neutral)]
    decl, wh, args, inst = g['decl'], g['wh'], g['args'], g['inst']
    # defaults of parameters are not allowed on functions and impls
    fdecl = g['fdecl']
    lits = ', '.join(f'{f["id"]}: ::vsupport::mk({q("sd:" + f["id"])})' for f in c['fields'])
    if c['dflt'] in ('expr', 'word', 'fallible'):
        o.append(f'fn sd_value{fdecl}() -> {name}{args} {wh} {{ {name} {{ {lits} }} }}')
        o.append(f'fn sd_make{fdecl}() -> {name}{args} {wh} {{ ::vsupport::sd(); sd_value() }}')
        if c['dflt'] == 'word':
            o.append(f'impl{fdecl} ::core::default::Default for {name}{args} {wh} {{ fn default() -> Self {{ sd_make() }} }}')

    kinds = {'option': 'Opt', 'precise': 'Pre', 'phantom': 'Pha'}
    slots = ', '.join(f'::vsupport::{kinds[r["slot"]]}(&b.{f["id"]})' for f, r in zip(c['fields'], res['fields']))
    if c['bf']['validate']:
        o.append(f'fn vld{fdecl}(b: &{B}{args}) -> ::core::result::Result<(), {std}::string::String> {wh} '
                 f'{{ ::vsupport::validate(::vsupport::slots![{slots}]) }}')
        o.append(f'impl{fdecl} {B}{args} {wh} {{ fn vld_of(&self) -> ::core::result::Result<(), {std}::string::String> {{ vld(self) }} }}')
    o.append(f'type B = {B}{inst};')
    if lean:
        build = '' if c['bf']['skip'] else f'let _ = b.{res["build"]}();'
        o.append(f'pub fn make() {{ let b = <B>::{res["empty"]}(); {build} }} }}')
        return '\n'.join(o)
    o.append(f'struct D {{ h: [::core::option::Option<B>; 4] }}')
    o.append(f'impl Driver for D {{ fn handle(&self, h: usize) -> ::core::option::Option<{std}::vec::Vec<{std}::string::String>> {{ '
             f'self.h[h].as_ref().map(|b| ::vsupport::slots![{slots}]) }} //@P11,P17,P18')
    o.append(f'fn apply(&mut self, op: &Op) -> {std}::string::String {{ let h = &mut self.h; match (&op.k[..], op.f) {{')
    if not c['ctor'] or 'Default' in c['derive']:
        o.append('("new", _) if op.a != "e" => { h[op.h] = ::core::option::Option::Some(<B as ::core::default::Default>::default()); ::vsupport::ok() } //@P17')
    o.append(f'("new", _) => {{ h[op.h] = ::core::option::Option::Some(<B>::{res["empty"]}()); ::vsupport::ok() }} //@P12,P17')
    for i, (f, r) in enumerate(zip(c['fields'], res['fields']), 1):
        pat = r['pattern']
        for s in r['set']:
            if not r['into']:
                a = '::vsupport::Mk::parse(&op.a)'
            elif r['into'] == 'Raw':
                a = '::vsupport::Raw(op.a.clone())'
            else:
                a = f'<{r["into"]} as ::vsupport::Mk>::mk(&op.a)'
            o.append(f'("set", {i}) => ::vsupport::call_{pat}!(h, op, {s}, {a}), //@P05,P08,P11,P12')
        for s in r['try']:
            o.append(f'("try", {i}) => ::vsupport::try_{pat}!(h, op, {s}, ::vsupport::Tr(op.a.clone())), //@P05,P06,P12')
        for s in r['each']:
            a = '::vsupport::Raw(op.a.clone())' if f['set']['each_into'] else '::vsupport::it(&op.a)' if r['item'] == 'It' else '::vsupport::mk::<C>(&op.a)'
            o.append(f'("each", {i}) => ::vsupport::call_{pat}!(h, op, {s}, {a}), //@P05,P07,P12')
        if r['slot'] != 'phantom':
            fn = 'poke_opt' if r['slot'] == 'option' else 'poke_pre'
            o.append(f'("poke", {i}) => {{ h[op.h].as_mut().unwrap().{f["id"]} = ::vsupport::{fn}(&op.a); ::vsupport::ok() }} //@P11,P17,P18')
    if res['clone']:
        o.append('("clone", _) => { let n = <B as ::core::clone::Clone>::clone(h[op.h].as_ref().unwrap()); '
                 'h[op.d] = ::core::option::Option::Some(n); ::vsupport::ok() } //@P16')
    if not c['bf']['skip']:
        m = 'build_owned' if res['owned'] else 'build_ref'
        shows = ''.join(f's.push_str({q(f["id"] + "=")}); s.push_str(&::vsupport::Show::show(&t.{f["id"]})); s.push(\';\');'
                        for f in c['fields'])
        if res['generror']:
            E = res['error']
            arms = f'{E}::UninitializedField(f) => {{ let n: &\'static str = f; s.push_str("U:"); s.push_str(n); }}'
            if res['valerror']:
                arms += f'{E}::ValidationError(m) => {{ let n: &{std}::string::String = m; s.push_str("V:"); s.push_str(n); }}'
            err = f'match &e {{ {arms} }} s.push(\':\'); s.push_str(&::vsupport::disp(&e));'
        else:
            err = 's.push_str(&e.text());'
        o.append(f'("build", _) => {{ let mut s = {std}::string::String::new(); match ::vsupport::{m}!(h, op, {res["build"]}) {{ '
                 f'::core::result::Result::Ok(t) => {{ let t: {name}{inst} = t; s.push_str("Ok:"); {shows} }} '
                 f'::core::result::Result::Err(e) => {{ s.push_str("Err:"); {err} }} }} s }} //@P02,P04,P10,P12,P17')
    o.append('_ => ::vsupport::bad() } } }')
    if res['generror'] and not c['nostd'] and not c['bf']['skip']:
        o.append(f'const _: fn() = || ::vsupport::is_error::<{res["error"]}>(); //@P10,P19')
    if c['lib'] == 'std' and not res['generror']:
        o.append(f'const _: fn() = || ::vsupport::is_error::<{lib}::UninitializedFieldError>(); //@P10,P19')
    if res['generror'] and res['valerror']:
        o.append(f'const _: fn({std}::string::String) -> {res["error"]} = <{res["error"]} as ::core::convert::From<{std}::string::String>>::from; //@P10')
    if res['generror']:
        o.append(f'const _: fn({lib}::UninitializedFieldError) -> {res["error"]} = <{res["error"]} as ::core::convert::From<{lib}::UninitializedFieldError>>::from; //@P10')
    for d in c['derive']:
        tr = {'Clone': 'clone::Clone', 'Debug': 'fmt::Debug', 'PartialEq': 'cmp::PartialEq', 'Eq': 'cmp::Eq',
              'Hash': 'hash::Hash', 'Default': 'default::Default'}[d]
        o.append(f'const _: fn() = || {{ fn f<T: ::core::{tr}>() {{}} f::<B>() }}; //@P17')
    made = (f'{std}::boxed::Box::new(D {{ h: [::core::option::Option::None, ::core::option::Option::None, '
            '::core::option::Option::None, ::core::option::Option::None] })')
    o.append(made + ' }' if env == 'local' else f'pub fn make() -> {std}::boxed::Box<dyn Driver> {{ {made} }}')
    o.append('}')
    return '\n'.join(o)


def ops_lines(case):
    def esc(s):
        return s.replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n')
    return ''.join('\t'.join([str(case['id']), o['k'], str(o['h']), str(o['f']), esc(o['a']), str(o['d']), esc(o['v']),
                              '|'.join(map(esc, o['x']))]) + '\n' for o in case['ops'])
