"""Programs for C08: type definitions with derives, what they must read and write, and definitions that must be refused."""
import json, random, re, unicodedata

KEYWORDS = ("as break const continue dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return static "
            "struct trait true type unsafe use where while async await abstract become box do final macro override priv try typeof "
            "unsized virtual yield gen").split()
SOFT = "union auto default macro_rules raw safe".split()
PLAIN = ("a b c id name key value s k v out data state self_ map seq string begin finish next visitor visit place result option error ok "
         "some none err take ok_or usize_ str_ u8_ x1 y2 zz _a _0 _ab snake_case_name camelCase CamelCase UPPER T N A E serialize deserialize "
         "miniserde_ json core std alloc this that field fragment default from into iter drop clone index len i j n f m "
         "a_very_long_field_name_that_goes_on_and_on_for_quite_a_while_and_then_some_more_to_be_sure_that_it_is_longer_than_any_buffer").split()
PRELUDE = "Option Some None Result Ok Err Box String Vec Cow str usize u8 bool Send Drop Clone Iterator Default Into From ToString Self_".split()
UNI = ["größe", "名前", "ключ", "ß", "é", "e\u0301", "ñandú", "µ", "ſ", "Ａ", "क", "ﬁx", "Ω"]
TYPES = ("Thing Node Point Map Visitor Fragment Place State Error Builder Seq Deserializer S T1 E1 Kind Item Data Record Wrapper").split()
RENAMES = ["", " ", "a", "b", "name", "type", "r#type", "r#", "a b", "A", "aa", "camelCase", "with-dash", "\"", "\\", "\\\"", "/", "\n", "\t", "\r",
           "\b", "\f", "\0", "\x01", "\x1f", "\x7f", "\u0080", "\u2028", "\ufeff", "é", "e\u0301", "日本語", "😀", "\U0010ffff", "\ud7ff", "\ue000", "null", "true", "0",
           "-1", "{}", "[]", "{a}", "{0}", "%s", "$x", "#", "@type", "$ref", "__out", "__k", "__Visitor", "__State", "_", ",", ":", "a\0b", "x" * 300, "\\u0041", "\\n",
           "a\"b", "'", "Some", "self", "crate", "r#a", "a.b.c", "\n\n", "  lead", "trail  "]


class Obj:
    """A JSON object; `of` is the definition when it stands for a struct."""
    def __init__(self, pairs, of=None, env=None):
        self.pairs, self.of, self.env = pairs, of, env


def same(want, got):
    """got: json.loads with pairs as ('obj', [...]). Returns None or what differs."""
    if isinstance(want, Obj):
        if not (isinstance(got, tuple) and got[0] == "obj"):
            return "expected an object, got %r" % (got,)
        if [k for k, _ in want.pairs] != [k for k, _ in got[1]]:
            return "expected members %r, got %r" % ([k for k, _ in want.pairs], [k for k, _ in got[1]])
        for (k, a), (_, b) in zip(want.pairs, got[1]):
            d = same(a, b)
            if d:
                return "%r: %s" % (k, d)
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or len(want) != len(got):
            return "expected %d elements, got %r" % (len(want), got)
        for i, (a, b) in enumerate(zip(want, got)):
            d = same(a, b)
            if d:
                return "[%d]: %s" % (i, d)
        return None
    if type(want) != type(got) or want != got:
        return "expected %r, got %r" % (want, got)
    return None


def read(text):
    return json.loads(text, object_pairs_hook=lambda ps: ("obj", ps))


def jstr(s, rng=None):
    out = []
    for c in s:
        o = ord(c)
        if rng and rng.random() < .15:
            if o > 0xffff:
                o -= 0x10000
                out.append("\\u%04x\\u%04X" % (0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff)))
            else:
                out.append(("\\u%04x" if rng.random() < .5 else "\\u%04X") % o)
        elif c in '"\\':
            out.append("\\" + c)
        elif o < 0x20:
            out.append("\\u%04x" % o)
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def rlit(s):
    """A Rust string literal."""
    return '"' + "".join("\\" + c if c in '"\\' else c if 0x20 <= ord(c) < 0x7f else "\\u{%x}" % ord(c) for c in s) + '"'


def rename_lit(rng, s):
    forms = ["plain"] * 3
    if "\r" not in s and "\ufeff" not in s and "\0" not in s and all(ord(c) >= 0x20 or c in "\t\n" for c in s) and not any(c in s for c in "\u2028\u0080\x7f"):
        forms += ["raw", "rawish"]
    f = rng.choice(forms)
    if f == "raw" and "\"" not in s:
        return 'r"%s"' % s
    if f != "plain":
        n = 1
        while '"' + "#" * n in s:
            n += 1
        return 'r%s"%s"%s' % ("#" * n, s, "#" * n)
    out, cont = [], rng.random() < .2
    for i, c in enumerate(s):
        o = ord(c)
        if cont and i and c not in " \t\n\r" and rng.random() < .3:
            out.append("\\\n      ")
        if c in '"\\':
            out.append("\\" + c)
        elif c in "\n\t\r\0" and rng.random() < .5:
            out.append({"\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0"}[c])
        elif o < 0x80 and (o < 0x20 or o == 0x7f or rng.random() < .1):
            out.append("\\x%02x" % o)
        elif o >= 0x80 and (rng.random() < .5 or c in "\u2028\u0080\ufeff\ue000\U0010ffff"):
            out.append("\\u{%x}" % o)
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


JUNK = ["null", "0", "-1.5e3", "\"x\"", "[]", "{}", "[1,[2,{\"a\":3}]]", "{\"a\":{\"b\":[]},\"c\":null}", "true", "\"\\u00e9\\n\"", "[[[[]]]]"]


def write(v, rng, plain=False):
    ws = (lambda: "") if plain else (lambda: rng.choice(["", "", "", " ", "\n", "\t ", "\r\n"]))
    if isinstance(v, Obj):
        items = [(k, write(x, rng, plain)) for k, x in v.pairs]
        if v.of is not None and not plain:
            rng.shuffle(items)
            names = {f.json for f in v.of.fields}
            extra = []
            for f in v.of.fields:
                if rng.random() < .2:
                    for cand in near_names(f, rng):
                        if cand not in names:
                            extra.append((cand, rng.choice(JUNK)))
            if rng.random() < .4:
                extra += [(x, rng.choice(JUNK)) for x in ("unknown", "", "__out", "r#x", "\u00e9") if x not in names]
            for e in extra[:12]:
                items.insert(rng.randint(0, len(items)), e)
            # an earlier occurrence of a member is overridden by a later one
            for f in v.of.fields:
                if rng.random() < .1:
                    at = next(i for i, (k, _) in enumerate(items) if k == f.json)
                    items.insert(rng.randint(0, at), (f.json, write(f.ty.gen(rng, v.env, 3), rng, True)))
        return "{" + ws() + ("," ).join(ws() + jstr(k, None if plain else rng) + ws() + ":" + ws() + x + ws() for k, x in items) + ws() + "}"
    if isinstance(v, list):
        return "[" + ws() + ",".join(ws() + write(x, rng, plain) + ws() for x in v) + ws() + "]"
    if isinstance(v, str):
        return jstr(v, None if plain else rng)
    if v is None or v is True or v is False:
        return {None: "null", True: "true", False: "false"}[v]
    return repr(v)


def near_names(f, rng):
    """Texts that look like the member's name and are not it."""
    j, r = f.json, f.ident
    c = [r, r.replace("r#", ""), "r#" + j, j + " ", " " + j, j.upper(), j.lower(), j.capitalize(), j + "\0", j[:-1], j[1:], j + j, j + "_", "_" + j,
         unicodedata.normalize("NFD", j), unicodedata.normalize("NFKC", j), j.replace("_", "-"), rlit(j)[1:-1], rlit(j)]
    return [x for x in c if x != j]


# ---- types ----

class Ty:    pass


class Leaf(Ty):
    def __init__(self, kind):
        self.kind = kind

    def rs(self, P, env=None):
        return P.prim(self.kind) if self.kind not in ("String", "()") else P.std(self.kind) if self.kind == "String" else "()"

    def gen(self, rng, env, d):
        k = self.kind
        if k == "()":
            return None
        if k == "bool":
            return rng.random() < .5
        if k == "String":
            return rng.choice(RENAMES + UNI)
        if k in ("f64", "f32"):
            return rng.randint(-1000, 1000) + .5
        bits = {"usize": 64, "isize": 64}.get(k) or int(k[1:])
        lo, hi = (0, 2 ** bits - 1) if k[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
        return rng.choice([lo, hi, rng.randint(lo, hi), max(lo, min(hi, rng.randint(0, 9)))])

    def expr(self, v, env):
        if self.kind == "String":
            return "String::from(%s)" % rlit(v)
        if self.kind == "()":
            return "()"
        if self.kind == "bool":
            return "true" if v else "false"
        return "(%r%s)" % (v, self.kind)

    def check(self, r, v, env):
        if self.kind == "String":
            return "%s.as_str() == %s" % (r, rlit(v))
        return "*%s == %s" % (r, self.expr(v, env))

    def missing(self, env):
        return False

    bad = property(lambda self: {"String": ["null", "1", "[]", "{}"], "()": ["0", "\"\"", "[]"], "bool": ["0", "null", "\"true\""]}.get(self.kind, ["\"1\"", "null", "[1]", "{}"]))


class Opt(Ty):
    def __init__(self, t, alias=None):
        self.t, self.alias = t, alias

    def rs(self, P, env=None):
        return "%s<%s>" % (self.alias if self.alias and not P.root else P.std("Option"), self.t.rs(P, env))

    def gen(self, rng, env, d):
        return None if rng.random() < (.4 if d > 0 else 1) else self.t.gen(rng, env, d)

    def expr(self, v, env):
        return "None" if v is None else "Some(%s)" % self.t.expr(v, env)

    def check(self, r, v, env):
        return "%s.is_none()" % r if v is None else "match %s { Some(x) => %s, None => false }" % (r, self.t.check("x", v, env))

    def missing(self, env):
        return True


class Bx(Ty):
    def __init__(self, t):
        self.t = t

    def rs(self, P, env=None):
        return "%s<%s>" % (P.std("Box"), self.t.rs(P, env))

    def gen(self, rng, env, d):
        return self.t.gen(rng, env, d)

    def expr(self, v, env):
        return "Box::new(%s)" % self.t.expr(v, env)

    def check(self, r, v, env):
        return self.t.check("(&**%s)" % r, v, env)

    def missing(self, env):
        return False


class Lst(Ty):
    def __init__(self, t, n=None):
        self.t, self.n = t, n

    def rs(self, P, env=None):
        t = self.t.rs(P, env)
        return "%s<%s>" % (P.std("Vec"), t) if self.n is None else "[%s; %s]" % (t, self.size(env) if P.root else self.n)

    def size(self, env):
        return env[self.n] if isinstance(self.n, str) and env and self.n in env else self.n

    def gen(self, rng, env, d):
        return [self.t.gen(rng, env, d - 1) for _ in range((rng.choice([0, 1, 2, 3]) if d > 0 else 0) if self.n is None else self.size(env))]

    def expr(self, v, env):
        e = ", ".join(self.t.expr(x, env) for x in v)
        return "vec![%s]" % e if self.n is None else "[%s]" % e

    def check(self, r, v, env):
        return "(%s.len() == %d%s)" % (r, len(v), "".join(" && " + self.t.check("(&%s[%d])" % (r, i), x, env) for i, x in enumerate(v)))

    def missing(self, env):
        return False


class Tup(Ty):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def rs(self, P, env=None):
        return "(%s, %s)" % (self.a.rs(P, env), self.b.rs(P, env))

    def gen(self, rng, env, d):
        return [self.a.gen(rng, env, d), self.b.gen(rng, env, d)]

    def expr(self, v, env):
        return "(%s, %s)" % (self.a.expr(v[0], env), self.b.expr(v[1], env))

    def check(self, r, v, env):
        return "(%s && %s)" % (self.a.check("(&%s.0)" % r, v[0], env), self.b.check("(&%s.1)" % r, v[1], env))

    def missing(self, env):
        return False


class Dict(Ty):
    def __init__(self, t):
        self.t = t

    def rs(self, P, env=None):
        return "::std::collections::BTreeMap<%s, %s>" % (P.std("String"), self.t.rs(P, env))

    def gen(self, rng, env, d):
        ks = sorted(set(rng.sample(RENAMES + UNI, rng.choice([0, 1, 3]) if d > 0 else 0)))
        return Obj([(k, self.t.gen(rng, env, d - 1)) for k in ks])

    def expr(self, v, env):
        return "vec![%s].into_iter().collect()" % ", ".join("(String::from(%s), %s)" % (rlit(k), self.t.expr(x, env)) for k, x in v.pairs) if v.pairs else "Default::default()"

    def check(self, r, v, env):
        return "(%s.len() == %d%s)" % (r, len(v.pairs), "".join(" && match %s.get(%s) { Some(x) => %s, None => false }" % (r, rlit(k), self.t.check("x", x, env)) for k, x in v.pairs))

    def missing(self, env):
        return False


class Var(Ty):
    """A type parameter, or an associated type of one: standing for whatever `env` says."""
    def __init__(self, name, text=None):
        self.name, self.text = name, text or name

    def rs(self, P, env=None):
        return env[self.name].rs(P, env) if P.root else self.text

    def gen(self, rng, env, d):
        return env[self.name].gen(rng, env, d)

    def expr(self, v, env):
        return env[self.name].expr(v, env)

    def check(self, r, v, env):
        return env[self.name].check(r, v, env)

    def missing(self, env):
        return env[self.name].missing(env)


class Fixed(Ty):
    """A type given by its text, with the values it can take: (json, root expression, check of a reference)."""
    def __init__(self, text, values, root=None, miss=False):
        self.text, self.values, self.root, self.miss = text, values, root or text, miss

    def rs(self, P, env=None):
        return self.root if P.root else self.text

    def gen(self, rng, env, d):
        return rng.choice(self.values)[0]

    def expr(self, v, env):
        return next(e for j, e, _ in self.values if same(v, j) is None or v is j)

    def check(self, r, v, env):
        return next(c for j, _, c in self.values if same(v, j) is None or v is j).replace("$", r)

    def missing(self, env):
        return self.miss


class User(Ty):
    def __init__(self, d, args=(), text=None):
        self.d, self.args, self.text = d, list(args), text

    def rs(self, P, env=None):
        if P.root:
            args = [a.rs(P, env) if isinstance(a, Ty) else str(env.get(a, a) if env else a) for a in self.args]
            return self.d.path + ("<%s>" % ", ".join(args) if args else "")
        if self.text:
            return self.text
        args = [a.rs(P, env) if isinstance(a, Ty) else str(a) for a in self.args]
        return self.d.name + ("<%s>" % ", ".join(args) if args else "")

    def env(self, env):
        out = {}
        for (k, n), a in zip(self.d.params, self.args):
            if k == "type":
                out[n] = Bound(a, env)
            elif k == "const":
                out[n] = env.get(a, a) if env else a
        return out

    def gen(self, rng, env, d):
        return self.d.gen(rng, self.env(env), d - 1)

    def expr(self, v, env):
        return self.d.expr(v, self.env(env))

    def check(self, r, v, env):
        return self.d.check(r, v, self.env(env))

    def missing(self, env):
        return False


class Bound(Ty):
    """An argument with the environment it was given in."""
    def __init__(self, t, e):
        self.t, self.e = t, e

    def rs(self, P, env=None):
        return self.t.rs(P, self.e)

    def gen(self, rng, env, d):
        return self.t.gen(rng, self.e, d)

    def expr(self, v, env):
        return self.t.expr(v, self.e)

    def check(self, r, v, env):
        return self.t.check(r, v, self.e)

    def missing(self, env):
        return self.t.missing(self.e)


class Field:
    def __init__(self, ident, js, ty, attrs=()):
        self.ident, self.json, self.ty, self.attrs = ident, js, ty, list(attrs)


class Def:
    """A struct or an enum. params: (kind, name); decl: the text between < and >."""
    def __init__(self, name, path, fields=None, variants=None, params=(), decl="", where="", derives=("Serialize", "Deserialize"), head="", tail=""):
        self.name, self.path, self.fields, self.variants = name, path, fields, variants
        self.params, self.decl, self.where, self.derives, self.head, self.tail = list(params), decl, where, derives, head, tail

    def gen(self, rng, env, d):
        if self.variants is not None:
            return rng.choice(self.variants).json
        return Obj([(f.json, f.ty.gen(rng, env, d)) for f in self.fields], self, env)

    def expr(self, v, env):
        if self.variants is not None:
            return "%s::%s" % (self.path, next(x.ident for x in self.variants if x.json == v))
        return "%s { %s }" % (self.path, ", ".join("%s: %s" % (f.ident, f.ty.expr(x, env)) for f, (_, x) in zip(self.fields, v.pairs)))

    def check(self, r, v, env):
        if self.variants is not None:
            return "matches!(%s, %s)" % (r, self.expr(v, env))
        return "(true%s)" % "".join(" && " + f.ty.check("(&%s.%s)" % (r, f.ident), x, env) for f, (_, x) in zip(self.fields, v.pairs))

    def text(self, P, derive):
        out = [self.head.replace("@DERIVE", derive) if "@DERIVE" in self.head else derive + "\n" + self.head]
        if self.variants is not None:
            out.append("pub enum %s {" % self.name)
            for x in self.variants:
                out += ["    " + a for a in x.attrs]
                out.append("    %s%s," % (x.ident, x.ty or ""))
        else:
            out.append("pub struct %s%s %s {" % (self.name, "<%s>" % self.decl if self.decl else "", "where " + self.where if self.where else ""))
            for f in self.fields:
                out += ["    " + a for a in f.attrs]
                out.append("    pub %s: %s," % (f.ident, f.ty.rs(P)))
        out.append("}")
        return "\n".join(out) + "\n" + self.tail


class Paths:
    def __init__(self, abs_=False, root=False, primabs=False):
        self.abs, self.root, self.primabs = abs_, root, primabs

    def std(self, n):
        if not self.abs:
            return n
        return {"Option": "::std::option::Option", "Box": "::std::boxed::Box", "Vec": "::std::vec::Vec", "String": "::std::string::String"}[n]

    def prim(self, n):
        return "::core::primitive::" + n if self.primabs else n


ROOT = Paths(root=True)
LEAVES = "u8 u16 u32 u64 i8 i16 i32 i64 usize isize bool String f64 f32 ()".split()


class Gen:
    def __init__(self, rng, n, edition):
        self.rng, self.n, self.edition = rng, n, edition
        self.root = "m%d" % n
        self.P = Paths()
        self.defs = []
        self.alias = None
        self.names = set()

    # -- names --
    def type_name(self, pool=None):
        while True:
            n = self.rng.choice(pool or TYPES)
            if n not in self.names:
                self.names.add(n)
                return n

    def ident(self, used, pools=None):
        r = self.rng
        while True:
            k = r.choice(pools or ["plain", "plain", "plain", "kw", "prelude", "uni", "soft", "raw", "gen"])
            i = (r.choice(PLAIN) if k == "plain" else "r#" + r.choice(KEYWORDS) if k == "kw" else r.choice(PRELUDE) if k == "prelude"
                 else r.choice(UNI) if k == "uni" else r.choice(["", "r#"]) + r.choice(SOFT) if k == "soft" else "r#" + r.choice(PLAIN + UNI + PRELUDE) if k == "raw"
                 else "%s%d" % (r.choice(["f", "x_", "F", "é"]), r.randint(0, 99)))
            bare = unicodedata.normalize("NFC", i.replace("r#", ""))
            if bare not in used and bare not in ("self", "Self", "super", "crate", "_"):
                used.add(bare)
                return i

    def members(self, n, ty):
        """n fields or variants with different JSON names; ty() gives each one's type."""
        r, used, out = self.rng, set(), []
        style = r.choice(["any", "any", "any", "none", "all", "swap"])
        for i in range(n):
            if n > 60 and r.random() < .9:
                ident = "f%d_" % i
                used.add(ident)
            else:
                ident = self.ident(used)
            out.append(Field(ident, unicodedata.normalize("NFC", ident.replace("r#", "")), ty()))
        if style == "swap" and n > 1:
            js = [f.json for f in out]
            k = r.randint(1, n - 1)
            for f, j in zip(out, js[k:] + js[:k]):
                self.rename(f, j)
        elif style != "none":
            taken = {f.json for f in out}
            for f in out:
                if style == "all" or r.random() < .35:
                    new = r.choice(RENAMES + PLAIN + KEYWORDS + ["%s-%d" % (r.choice(PLAIN), r.randint(0, 999))])
                    if new not in taken or new == f.json:
                        taken.add(new)
                        self.rename(f, new)
        for f in out:
            self.decorate(f)
        return out

    def rename(self, f, new):
        f.json = new
        a = "serde(rename = %s)" % rename_lit(self.rng, new)
        k = self.rng.random()
        f.attrs.append("#[%s]" % a if k < .8 else "#[cfg_attr(all(), %s)]" % a if k < .9 else "#[cfg_attr(all(), allow(unused), %s)]" % a)

    def decorate(self, f):
        r = self.rng
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            a = r.choice([
                "/// rename = \"no\"", "#[doc = \"serde(rename = \\\"no\\\")\"]", "#[allow(dead_code)]", "#[deprecated]",
                "#[cfg(all())]", "#[cfg_attr(any(), serde(rename = \"no\"))]", "#[cfg_attr(any(), serde(skip))]", "#[doc(hidden)]", "/** block */",
                "#[cfg_attr(all(), doc = \"x\")]", "#[doc(alias = \"no\")]", "#[allow(non_snake_case, deprecated)]"])
            if a not in f.attrs:
                f.attrs.insert(r.randint(0, len(f.attrs)), a)

    # -- types --
    def ty(self, d=2, extra=()):
        r = self.rng
        if extra and r.random() < .35:
            return r.choice(extra)
        k = r.random()
        if d == 0 or k < .5:
            return Leaf(r.choice(LEAVES))
        if k < .65:
            return Opt(self.ty_noopt(d - 1, extra), self.alias if r.random() < .4 else None)
        if k < .72:
            return Bx(self.ty(d - 1, extra))
        if k < .82:
            return Lst(self.ty(d - 1, extra))
        if k < .87:
            return Lst(self.ty(d - 1, extra), r.choice([0, 1, 2, 3]))
        if k < .94:
            return Tup(self.ty(d - 1, extra), self.ty(d - 1, extra))
        return Dict(self.ty(d - 1, extra))

    def ty_noopt(self, d, extra=()):
        """Option<Option<T>> and Option<()> lose information when written."""
        while True:
            t = self.ty(d, extra)
            if not nullable(t):
                return t

    def users(self):
        out = []
        for d in self.defs:
            if len(d.derives) == 2 and (d.variants is None or d.variants):
                if not d.params:
                    out.append(User(d))
                elif all(k in ("type", "const") for k, _ in d.params) and d.open:
                    out.append(User(d, self.args(d)))
        return out

    def args(self, d):
        return [self.rng.choice([Leaf("u8"), Leaf("String"), Opt(Leaf("i32")), Lst(Leaf("bool")), Tup(Leaf("u8"), Leaf("bool"))]) if k == "type" else self.rng.choice([0, 1, 2, 3])
                for k, _ in d.params]

    def new(self, name, **kw):
        open_ = kw.pop("open_", True)
        d = Def(name, "%s::%s" % (self.root, name) if self.root else name, **kw)
        d.open = open_
        self.defs.append(d)
        return d

    def enum(self, n=None, pool=None):
        r = self.rng
        n = n if n is not None else r.choice([1, 1, 2, 3, 5, 9, 20])
        vs = self.members(n, lambda: "")
        head = ""
        rep = r.choice(["", "", "#[repr(u8)]", "#[repr(i64)]", "#[derive(Clone, Copy, Debug, PartialEq)]", "#[non_exhaustive]", "#[repr(C)]"])
        if not n and "repr" in rep:
            rep = ""
        if r.random() < .4 and n and n < 100:
            base = r.randint(0, 5)
            for i, v in enumerate(vs):
                v.ty = " = %d" % (base + i * 2) if r.random() < .7 or "repr(i64)" not in rep else " = -%d" % (i + 1)
        return self.new(self.type_name(pool), variants=vs, head=rep)

    def struct(self, n=None, pool=None, derives=None, extra_head=True):
        r = self.rng
        n = n if n is not None else r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 12])
        users = self.users()
        head = r.choice(["", "", "", "#[must_use]", "#[repr(C)]", "#[repr(align(64))]", "#[deprecated]", "#[non_exhaustive]", "/// docs"]) if extra_head else ""
        depth = 2 if n < 20 else 0
        d = self.new(self.type_name(pool), fields=[], head=head, derives=derives or ("Serialize", "Deserialize"))
        d.fields = self.members(n, lambda: self.ty(depth, users if n < 20 else ()))
        return d

    def recursive(self):
        d = self.new(self.type_name(), fields=[])
        selfs = [User(d, text=t) for t in ("Self", d.name, "self::" + d.name if self.root else d.name)]
        def one():
            s = self.rng.choice(selfs)
            return self.rng.choice([Opt(Bx(s)), Opt(Bx(s)), Lst(s), Dict(s), Opt(Lst(s)), Lst(Tup(Leaf("u8"), s)), Opt(Tup(Bx(s), Bx(s))), Leaf("u8"), Leaf("String")])
        d.fields = self.members(self.rng.choice([1, 2, 3, 4]), one)
        return d

    def generic(self):
        """Type and const parameters with bounds, defaults and where clauses."""
        r = self.rng
        params, decl, where = [], [], []
        P = self.P
        clone = "::std::clone::Clone"
        name = self.type_name()
        used = set(self.names)
        k = r.choice([1, 1, 2, 3])
        tnames = []
        for i in range(k):
            n = r.choice([x for x in ("T", "U", "V", "S", "E", "A", "r#type", "K", "Visitor_", "Map_") if x not in tnames and x not in used])
            tnames.append(n)
        consts = [n for n in ("N", "M") if r.random() < .3 and n not in used][:1]
        order = tnames + consts
        if r.random() < .5:
            r.shuffle(order)
        defaults = r.random() < .3 and not self.P.abs
        for n in order:
            if n in consts:
                params.append(("const", n))
                decl.append("const %s: %s%s" % (n, P.prim("usize"), " = 2" if defaults else ""))
            else:
                params.append(("type", n))
                b = r.choice(["", "", "", clone, "%s + %s" % (clone, clone), "::std::marker::Sized", "crate::rt::Any_", "crate::rt::AsSelf<%s>" % n])
                decl.append("%s%s%s" % (n, ": " + b if b else "", " = " + P.prim("u8") if defaults else ""))
        for n in tnames:
            w = r.choice([None, None, "%s: %s" % (n, clone), "%s<%s>: %s" % (P.std("Vec"), n, clone), "for<'x> &'x %s: ::std::marker::Sized" % n, "[%s; 2]: crate::rt::Any_" % n,
                          "Self: ::std::marker::Sized", "for<'x> &'x Self: crate::rt::Any_", "%s<Self>: crate::rt::Any_" % P.std("Vec"), "fn(Self) -> [Self; 1]: crate::rt::Any_",
                          "%s: crate::rt::AsSelf<%s>, Self: crate::rt::AsSelf<Self>" % (n, n), "%s: crate::rt::AsSelf<%s>" % (n, n), "(%s, %s): crate::rt::Any_" % (P.prim("u8"), n), "for<'x> fn(&'x %s): ::std::marker::Sized" % n,
                          "%s: 'static" % n])
            if w:
                where.append(w)
        d = self.new(name, fields=[], params=params, decl=", ".join(decl), where=", ".join(where) + ("," if where and r.random() < .5 else ""), open_=True)
        d.env_args = [Leaf("u8") if kk == "type" else 1 for kk, _ in params]
        vs = [Var(n) for n in tnames]
        me = User(d, [Var(n) if kk == "type" else n for kk, n in params], text=r.choice(["Self", None]))

        def one():
            v = r.choice(vs)
            c = r.random()
            if c < .3:
                return v
            if c < .4:
                return Opt(Bx(me))
            if c < .5:
                return Lst(v)
            if c < .6:
                return Bx(v)
            if c < .7 and consts:
                return Lst(r.choice([v, Leaf("u8")]), consts[0])
            if c < .8:
                return Tup(v, Leaf("bool"))
            if c < .85:
                return Lst(me)
            if c < .9:
                return Dict(v)
            return self.ty(1)
        fs = self.members(r.choice([2, 3, 4]), one)
        # every type parameter must be used by the struct
        fs += self.members_more(fs, [Var(n) for n in tnames])
        d.fields = fs
        return d

    def members_more(self, fs, tys):
        used_i = {unicodedata.normalize("NFC", f.ident.replace("r#", "")) for f in fs}
        used_j = {f.json for f in fs}
        out = []
        for t in tys:
            i = 0
            while "p%d" % i in used_i or "p%d" % i in used_j:
                i += 1
            used_i.add("p%d" % i)
            out.append(Field("p%d" % i, "p%d" % i, t))
        return out

    # -- fixed shapes with random names --
    def special(self):
        r = self.rng
        n = self.type_name()
        nul = [(None, "crate::rt::ph()", "crate::rt::is_ph($)")]
        F = lambda *tys: self.members(len(tys), iter(tys).__next__)
        u8 = Leaf("u8")
        pick = r.randrange(15)
        if pick == 0:    # lifetimes, both derives, invariant
            return self.new(n, fields=F(Fixed("crate::rt::Ph<'a, u8>", nul, "rt::Ph<'static, u8>"), u8), params=[("life", "'a")], decl="'a")
        if pick == 1:
            return self.new(n, fields=F(Fixed("crate::rt::Ph<'a, T>", nul, "rt::Ph<'static, u8>"), Fixed("crate::rt::Ph<'b, ()>", nul, "rt::Ph<'static, ()>"), Var("T"), u8),
                            params=[("life", "'a"), ("life", "'b"), ("type", "T")], decl="'a, 'b: 'a, T: 'a", where=r.choice(["", "'b: 'a", "T: 'b", "'a: 'a, T: 'a + 'b"]))
        if pick == 2:    # borrowed, Serialize only
            return self.new(n, derives=("Serialize",), params=[("life", "'a")], decl="'a", fields=F(
                Fixed("&'a str", [("x\n", "\"x\\n\"", ""), ("", "\"\"", "")]), Fixed("&'a [u8]", [([1, 2], "&[1, 2]", ""), ([], "&[]", "")]),
                Fixed("::std::borrow::Cow<'a, str>", [("é", "std::borrow::Cow::Borrowed(\"é\")", ""), ("o", "std::borrow::Cow::Owned(String::from(\"o\"))", "")]),
                Fixed("Option<&'a u8>", [(7, "Some(&7)", ""), (None, "None", "")])))
        if pick == 3:    # ?Sized parameter behind a reference
            return self.new(n, derives=("Serialize",), params=[("life", "'a"), ("type", "T")], decl="'a, T: ?Sized" + r.choice(["", " + 'a"]), where=r.choice(["", "T: 'a"]),
                            fields=F(Fixed("&'a T", [("dyn", "\"dyn\"", "")]), u8), open_=False, )
        if pick == 4:    # trait objects
            return self.new(n, derives=("Serialize",), params=[("life", "'a")], decl="'a", fields=F(
                Fixed("Box<dyn miniserde::Serialize + 'a>", [([1], "Box::new(vec![1u8])", ""), (None, "Box::new(())", "")]),
                Fixed("&'a (dyn miniserde::Serialize + 'a)", [(5, "&5u8", ""), (True, "&true", "")])))
        if pick == 5:    # an associated type; the bounds are the user's
            one = r.choice(["Serialize", "Deserialize"])
            w = "T: crate::rt::Assoc, T::Out: miniserde::%s" % one
            return self.new(n, derives=(one,), params=[("type", "T")], decl=r.choice(["T", "T: crate::rt::Assoc"]), where=w,
                            fields=F(Fixed(r.choice(["T::Out", "<T as crate::rt::Assoc>::Out"]), [(3, "3u16", "*$ == 3u16"), (500, "500u16", "*$ == 500u16")], "u16"), Var("T")), open_=False)
        if pick == 6:    # Self in paths and bounds
            return self.new(n, where=r.choice(["Self: crate::rt::Assoc", "Self: crate::rt::Assoc, <Self as crate::rt::Assoc>::Out: Clone"]),
                            fields=F(Fixed("<Self as crate::rt::Assoc>::Out", [(9, "9u8", "*$ == 9u8")], "u8"), u8),
                            tail="impl crate::rt::Assoc for %s { type Out = u8; }\n" % n)
        if pick == 7:    # Drop
            return self.new(n, fields=F(Leaf("String"), Opt(u8), Lst(Leaf("String"))), tail="impl Drop for %s { fn drop(&mut self) {} }\n" % n, )
        if pick == 8:    # inherent methods with the traits' names
            return self.new(n, fields=F(u8, Leaf("String"), Opt(u8)), tail="impl %s { pub fn begin(&self) {} pub fn finish(self) {} pub fn key() {} pub fn next(&mut self) {} pub fn default() {} "
                            "pub fn map(&self) {} pub fn string(&self) {} pub fn new() {} pub fn from() {} pub fn take(&self) {} pub fn clone(&self) {} }\n" % n)
        if pick == 9:    # const parameters of every kind
            return self.new(n, params=[("const", "B"), ("const", "C"), ("const", "I")], decl="const B: bool, const C: char, const I: i64", fields=F(u8, Fixed("[u8; 2]", [([1, 2], "[1, 2]", "*$ == [1, 2]")])), open_=False)
        if pick == 10:   # types given by macros and aliases
            return self.new(n, fields=F(Fixed("crate::ty_u8!()", [(4, "4u8", "*$ == 4u8")], "u8"), Fixed("crate::rt::Alias<u8>", [([1], "vec![1u8]", "*$ == vec![1u8]")], "Vec<u8>"),
                                        Fixed("crate::rt::MaybeByte", [(4, "Some(4u8)", "*$ == Some(4u8)"), (None, "None", "$.is_none()")], "Option<u8>", miss=True),
                                        Fixed("crate::opt!(u8)", [(4, "Some(4u8)", "*$ == Some(4u8)"), (None, "None", "$.is_none()")], "Option<u8>", miss=True)))
        if pick == 11:   # array length expressions
            return self.new(n, fields=F(Fixed("[u8; { 1 + 2 }]", [([1, 2, 3], "[1u8, 2, 3]", "*$ == [1u8, 2, 3]")]), Fixed("[u8; ::core::mem::size_of::<u16>()]", [([8, 9], "[8u8, 9]", "*$ == [8u8, 9]")]),
                                        Fixed("[u8; Self::LEN]", [([5], "[5u8]", "*$ == [5u8]")], "[u8; 1]")), tail="impl %s { pub const LEN: usize = 1; }\n" % n)
        if pick == 12:   # Deref to something with fields of the same names
            fs = F(u8, Leaf("bool"))
            other = "%s_" % n
            return self.new(n, fields=fs, tail="pub struct %s { %s }\nimpl ::std::ops::Deref for %s { type Target = %s; fn deref(&self) -> &%s { loop {} } }\n"
                            % (other, ", ".join("pub %s: String" % f.ident for f in fs), n, other, other))
        if pick == 13:   # hand-written types as fields, optional ones by their own impl
            return self.new(n, fields=F(Fixed("crate::rt::Lax", [(1, "rt::Lax(1)", "$.0 == 1"), (2, "rt::Lax(2)", "$.0 == 2")], "rt::Lax", miss="$.0 == 77"), u8))
        if pick == 14:   # a parameter used through a hand-written generic only
            return self.new(n, fields=F(Fixed("crate::rt::Ph<'static, T>", nul, "rt::Ph<'static, u8>"), Var("T")), params=[("type", "T")], decl="T: 'static + ::std::marker::Copy")

    # -- tests --
    def instance(self, d):
        args = []
        for k, n in d.params:
            args.append(Leaf("u8") if k == "type" and not d.open else "'static" if k == "life" else self.rng.choice([Leaf("u8"), Leaf("String"), Opt(Leaf("i32")), Lst(Leaf("bool")), Bx(Leaf("i8"))])
                        if k == "type" and d.open and not any("Ph<" in f.ty.rs(self.P) for f in d.fields) else Leaf("u8") if k == "type" else self.rng.choice([0, 1, 2, 3]))
        if d.decl.startswith("const B: bool"):
            args = ["true", "'x'", "-3"]
        if "T: ?Sized" in d.decl:
            args = ["'static", Fixed("str", [], "str")]
        return args

    def tests(self, tier):
        r, out = self.rng, []
        for d in self.defs:
            for _ in range(1 if not d.params else 2):
                out += self.test(d)
        return out

    def test(self, d):
        r, out = self.rng, []
        args = self.instance(d)
        u = User(d, args)
        env = {}
        for (k, n), a in zip(d.params, args):
            if k == "type":
                env[n] = Bound(a, {})
            elif k == "const":
                env[n] = a
        ty = u.rs(ROOT, {})
        rd = "miniserde::json::from_str::<%s>(%s)"

        def emit(what, body, doc=""):
            out.append((what, d.name, body, doc))

        def wr(v):
            emit("write", "let __t: %s = %s; ck.out(%%d, &miniserde::json::to_string(&__t));" % (ty, d.expr(v, env)), v)

        def ok(text, cond):
            emit("read", "match %s { Ok(__t) => ck.ok(%%d, %s, \"wrong content\"), Err(_) => ck.ok(%%d, false, \"refused\") }" % (rd % (ty, rlit(text)), cond), text)

        def no(text):
            emit("refuse", "ck.ok(%%d, %s.is_err(), \"accepted\");" % (rd % (ty, rlit(text))), text)
        ser, de = "Serialize" in d.derives, "Deserialize" in d.derives
        if d.variants is not None:
            names = {v.json for v in d.variants}
            vs = d.variants if len(d.variants) < 40 else d.variants[:3] + d.variants[-3:] + r.sample(d.variants, 30) + d.variants[254:258]
            for v in vs:
                if ser:
                    wr(v.json)
                if de:
                    ok(r.choice(["", " "]) + jstr(v.json, r), d.check("(&__t)", v.json, env))
                    for cand in r.sample(near_names(v, r), 4) + [v.ident, v.ident.replace("r#", "")]:
                        if cand not in names:
                            no(jstr(cand))
            if de:
                for t in ("null", "0", "1", "true", "[]", "{}", "\"\"" if "" not in names else "2", "-1", "0.5", "[\"a\"]"):
                    no(t)
                for v in vs[:2]:
                    no("[%s]" % jstr(v.json))
                    no("{%s:null}" % jstr(v.json))
            return out
        for _ in range(3 if len(d.fields) < 30 else 1):
            v = d.gen(r, env, 3)
            if ser:
                wr(v)
            if de:
                ok(write(v, r, plain=True), d.check("(&__t)", v, env))
                ok(write(v, r), d.check("(&__t)", v, env))
        if de:
            v = d.gen(r, env, 3)
            for i in r.sample(range(len(d.fields)), min(len(d.fields), 6)):
                f = d.fields[i]
                rest = Obj(v.pairs[:i] + v.pairs[i + 1:])
                # the Rust name of a renamed field is not its JSON name
                if f.ident.replace("r#", "") not in {g.json for g in d.fields} and r.random() < .5:
                    rest.pairs.insert(r.randint(0, len(rest.pairs)), (f.ident.replace("r#", ""), v.pairs[i][1]))
                text = write(rest, r, plain=True)
                m = f.ty.missing(env)
                if m:
                    got = "(&(&__t).%s)" % f.ident
                    cond = "(true%s)" % "".join(" && " + g.ty.check("(&__t.%s)" % g.ident, x, env) for j, (g, (_, x)) in enumerate(zip(d.fields, v.pairs)) if j != i)
                    ok(text, cond + " && " + (m.replace("$", got) if isinstance(m, str) else got + ".is_none()"))
                else:
                    no(text)
            for t in r.sample(["null", "0", "1.5", "true", "[]", "[1,2]", "\"\"", "\"x\""], 3):
                no(t)
            if d.fields:
                no("[%s]" % ",".join(write(x, r, True) for _, x in v.pairs))
                if not all(f.ty.missing(env) for f in d.fields):
                    no("{}")
                k = r.randrange(len(d.fields))
                if isinstance(d.fields[k].ty, Leaf):
                    no(write(Obj(v.pairs[:k]), r, True)[:-1] + ("," if k else "") + jstr(v.pairs[k][0]) + ":" + r.choice(d.fields[k].ty.bad)
                       + ("," if k + 1 < len(d.fields) else "") + write(Obj(v.pairs[k + 1:]), r, True)[1:])
            else:
                ok("{}", "true")
                ok("{\"a\":[1,{\"b\":null}]}", "true")
        return out


def nullable(t):
    if isinstance(t, (Opt, Var)) or isinstance(t, Leaf) and t.kind == "()":
        return True
    if isinstance(t, Bx):
        return nullable(t.t)
    return isinstance(t, Fixed)


SHADOWS = {
    "Option": ["struct Option;", "pub struct Option<T>(T);", "type Option = ();", "trait Option {}", "mod Option {}", "enum Option { Some, None }"],
    "Some": ["struct Some;", "const Some: ::core::primitive::u8 = 0;", "static Some: ::core::primitive::u8 = 0;", "fn Some() {}", "struct Some(u8);", "mod Some {}"],
    "None": ["struct None;", "const None: ::core::primitive::u8 = 0;", "fn None() {}", "static None: ::core::primitive::i8 = 1;"],
    "Ok": ["struct Ok;", "const Ok: ::core::primitive::u8 = 0;", "fn Ok() {}", "struct Ok(u8);"],
    "Err": ["struct Err;", "const Err: ::core::primitive::u8 = 0;", "fn Err() {}", "type Err = u8;"],
    "Result": ["struct Result;", "type Result = ();", "type Result<T> = ::std::result::Result<T, ()>;", "enum Result { Ok, Err }", "trait Result {}"],
    "Box": ["struct Box;", "struct Box<T>(T);", "mod Box {}", "enum Box {}"],
    "String": ["struct String;", "type String = ();", "enum String {}"],
    "Vec": ["struct Vec;", "type Vec = ();"],
    "Cow": ["struct Cow;", "type Cow = u8;"],
    "str": ["struct str;", "type str = u8;", "mod str {}", "enum str {}"],
    "usize": ["struct usize;", "type usize = u8;", "trait usize {}"],
    "u8": ["struct u8;", "type u8 = bool;"],
    "bool": ["type bool = ();"],
    "core": ["mod core {}"], "std": ["mod std {}", "mod std { pub mod option { pub struct Option; } }"], "alloc": ["mod alloc { pub mod boxed { pub struct Box; } }"],
    "de": ["mod de { pub trait Visitor {} }"], "ser": ["mod ser {}"], "json": ["mod json {}"],
    "Deserialize": ["trait Deserialize {}", "struct Deserialize;"], "Serialize": ["trait Serialize {}", "fn Serialize() {}"],
    "Visitor": ["struct Visitor;"], "Map": ["type Map = ();"], "Fragment": ["enum Fragment {}"], "Error": ["struct Error;", "const Error: () = ();"],
    "s": ["const s: &'static ::core::primitive::str = \"\";", "static s: ::core::primitive::i8 = 0;"], "value": ["const value: ::core::primitive::i8 = 0;", "static value: ::core::primitive::i8 = 0;", "fn value() {}"],
    "state": ["const state: ::core::primitive::i32 = 3;"], "data": ["static data: ::core::primitive::i32 = 3;"], "out": ["const out: ::core::primitive::i32 = 3;"], "k": ["const k: ::core::primitive::i32 = 0;"],
    "key": ["struct key;"], "this": ["struct this;"], "a": ["const a: ::core::primitive::i32 = 0;"], "id": ["static id: ::core::primitive::i32 = 0;", "struct id;"], "name": ["const name: ::core::primitive::i32 = 0;"],
    "v": ["const v: ::core::primitive::i32 = 0;"], "x": ["struct x;"], "result": ["const result: ::core::primitive::i32 = 0;"],
    "!unreachable": ["macro_rules! unreachable { ($($t:tt)*) => { compile_error!(\"user macro\") } }"], "!Some": ["macro_rules! Some { () => {} }"],
    "!vec": ["macro_rules! vec { () => {} }"], "!panic": ["macro_rules! panic { ($($t:tt)*) => { compile_error!(\"user macro\") } }"],
    "blanket": ["pub trait Blanket { fn begin(&self) {} fn finish(&mut self) {} fn key(&self) {} fn next(&mut self) {} fn map(&self) {} fn string(&self) {} fn as_ref(&self) {} fn borrow(&self) {} fn default() where Self: ::std::marker::Sized {} "
                "fn ignore() where Self: ::std::marker::Sized {} fn new(&self) {} fn fmt(&self) {} fn clone(&self) {} } impl<T: ?::std::marker::Sized> Blanket for T {}"],
}

RT = r'''
pub mod rt {
    use std::cell::Cell;
    use std::marker::PhantomData;
    pub struct Ph<'a, T: ?Sized>(PhantomData<Cell<&'a T>>);
    pub fn ph<'a, T: ?Sized>() -> Ph<'a, T> { Ph(PhantomData) }
    pub fn is_ph<'a, T: ?Sized>(_: &Ph<'a, T>) -> bool { true }
    miniserde::make_place!(Place);
    impl<'a, T: ?Sized> miniserde::Deserialize for Ph<'a, T> {
        fn begin(out: &mut Option<Self>) -> &mut dyn miniserde::de::Visitor { Place::new(out) }
    }
    impl<'a, T: ?Sized> miniserde::de::Visitor for Place<Ph<'a, T>> {
        fn null(&mut self) -> miniserde::Result<()> { self.out = Some(ph()); Ok(()) }
    }
    impl<'a, T: ?Sized> miniserde::Serialize for Ph<'a, T> {
        fn begin(&self) -> miniserde::ser::Fragment<'_> { miniserde::ser::Fragment::Null }
    }
    /// May be left out, and is 77 then.
    pub struct Lax(pub u8);
    impl miniserde::Deserialize for Lax {
        fn begin(out: &mut Option<Self>) -> &mut dyn miniserde::de::Visitor { Place::new(out) }
        fn default() -> Option<Self> { Some(Lax(77)) }
    }
    impl miniserde::de::Visitor for Place<Lax> {
        fn nonnegative(&mut self, n: u64) -> miniserde::Result<()> { self.out = Some(Lax(n as u8)); Ok(()) }
    }
    impl miniserde::Serialize for Lax {
        fn begin(&self) -> miniserde::ser::Fragment<'_> { miniserde::ser::Fragment::U64(self.0 as u64) }
    }
    pub trait Any_ {}
    impl<T: ?Sized> Any_ for T {}
    pub trait AsSelf<X: ?Sized> {}
    impl<T: ?Sized> AsSelf<T> for T {}
    pub trait Assoc { type Out; }
    impl Assoc for u8 { type Out = u16; }
    pub type Alias<T> = Vec<T>;
    pub type MaybeByte = Option<u8>;

    pub struct Ck { pub n: usize, pub bad: usize }
    impl Ck {
        pub fn ok(&mut self, id: usize, b: bool, what: &str) { self.n += 1; if !b { self.bad += 1; println!("FAIL {} {}", id, what); } }
        pub fn out(&mut self, id: usize, s: &str) { self.n += 1; let mut h = String::new(); for b in s.bytes() { h.push_str(&format!("{:02x}", b)); } println!("OUT {} {}", id, h); }
    }
}
#[macro_export] macro_rules! ty_u8 { () => { u8 } }
#[macro_export] macro_rules! opt { ($t:ty) => { ::std::option::Option<$t> } }
'''


def module(seed, n, edition, kind):
    """Returns (module text, tests, stats)."""
    rng = random.Random("%s/%d/%s" % (seed, n, kind))
    g = Gen(rng, n, edition)
    pre, attrs = [], []
    derive = "#[derive(%s)]"
    path = ""
    if kind in ("plain", "many", "generic", "special", "enum", "recursive", "oneway"):
        pre.append("use miniserde::{Deserialize, Serialize};")
        if rng.random() < .3:
            pre.append("pub type Maybe<T> = Option<T>;")
            g.alias = "Maybe"
        if rng.random() < .2:
            pre.append("use miniserde::{de, ser, json, Error, Result};")
            g.names |= {"Error"}
        if rng.random() < .3:
            attrs.append("#[forbid(unsafe_code)]")
    big = None
    if kind == "plain":
        for _ in range(rng.choice([1, 2, 3])):
            g.enum() if rng.random() < .25 else g.struct()
    elif kind == "enum":
        g.enum(rng.choice([0, 1, 2, 3, 8, 30]))
        g.enum()
    elif kind.startswith("many"):
        pre.append("use miniserde::{Deserialize, Serialize};") if kind != "many" else None
        big = int(kind[4:] or 60)
        g.enum(big) if n % 2 else g.struct(big)
    elif kind == "generic":
        g.generic()
        if rng.random() < .5:
            g.struct(2)
    elif kind == "special":
        g.special()
    elif kind == "recursive":
        g.recursive()
        if rng.random() < .4:
            g.struct(2)
    elif kind == "oneway":
        g.struct(derives=(rng.choice(["Serialize", "Deserialize"]),))
    elif kind in ("shadow", "noprelude"):
        g.P = Paths(abs_=True, primabs=True)
        path = "::miniserde::"
        names = rng.sample(sorted(SHADOWS), rng.choice([3, 8, 20, len(SHADOWS)]))
        taken = set()
        for s in names:
            pre.append(rng.choice(SHADOWS[s]))
            taken.add(s)
        g.names |= {s for s in taken}
        if kind == "noprelude":
            attrs.append("#[no_implicit_prelude]")
            pre.insert(0, "use ::core::prelude::v1::derive; use ::miniserde;" if rng.random() < .5 else "use ::std::prelude::v1::derive; use ::miniserde;")
            # names are what the property is about: methods of the prelude's traits stay callable
            pre.insert(1, "use ::core::{clone::Clone as _, cmp::{Eq as _, Ord as _, PartialEq as _, PartialOrd as _}, convert::{AsMut as _, AsRef as _, From as _, "
                          "Into as _, TryFrom as _, TryInto as _}, default::Default as _, iter::{DoubleEndedIterator as _, ExactSizeIterator as _, Extend as _, "
                          "FromIterator as _, IntoIterator as _, Iterator as _}}; use ::std::{borrow::ToOwned as _, string::ToString as _};")
            pre = [p for p in pre if "compile_error!" not in p]
        pool = None
        if rng.random() < .6:
            pool = [x for x in PRELUDE + TYPES if x not in taken and x not in ("u8", "bool", "usize", "str") and x not in ("Send", "Drop", "Clone", "Iterator", "Default", "Into", "From", "ToString")]
        # fields of shadowed names are ordinary fields
        for _ in range(rng.choice([1, 2])):
            c = rng.random()
            if c < .25:
                g.enum(pool=pool)
            elif c < .45:
                g.recursive()
            elif c < .6 and kind == "shadow":
                g.generic()
            else:
                g.struct(pool=pool)
    elif kind == "macro":
        pre.append("use miniserde::{Deserialize, Serialize};")
        g.enum() if rng.random() < .3 else g.struct()
    elif kind == "local":
        g.root = ""
        for _ in range(rng.choice([1, 2])):
            g.enum() if rng.random() < .3 else g.recursive() if rng.random() < .3 else g.struct()
    texts = []
    for d in g.defs:
        dv = list(d.derives)
        rng.shuffle(dv)
        if kind == "macro":
            texts.append(as_macro(g, d, dv))
            continue
        if len(dv) == 2 and rng.random() < .3:
            texts.append(d.text(g.P, "".join("#[derive(%s%s)]\n" % (path if kind in ("shadow", "noprelude") else rng.choice(["", "miniserde::"]) if kind != "local" else "miniserde::", x) for x in dv)))
        else:
            extra = []
            texts.append(d.text(g.P, derive % ", ".join((path if kind in ("shadow", "noprelude") else "miniserde::" if kind == "local" else "") + x for x in dv + extra)))
    # the first shadowing name must not be one of the definitions
    defs = {d.name for d in g.defs}
    pre = [p for p in pre if not any(re.search(r"\b(struct|enum|mod|type|trait|const|static|fn) %s\b" % re.escape(x), p) for x in defs)]
    tests = g.tests(None)
    body = "\n".join(pre + texts)
    if kind == "local":
        return None, body, tests, g
    return "%s\npub mod m%d {\n%s\n}\n" % ("\n".join(attrs), n, body), None, tests, g


def as_macro(g, d, dv):
    """The same definition made by macro_rules, with names, types and literals coming in as fragments."""
    r = g.rng
    name = "mk%d" % r.randrange(10 ** 9)
    if d.variants is not None:
        body = "$(#[$m:meta])* $n:ident { $( $(#[$a:meta])* $v:ident $(= $x:expr)? ),* $(,)? }"
        mac = "macro_rules! %s { (%s) => { $(#[$m])* pub enum $n { $( $(#[$a])* $v $(= $x)? ),* } } }" % (name, body)
        inner = ",\n".join("%s %s%s" % (" ".join("\n" + a + "\n" for a in v.attrs), v.ident, v.ty) for v in d.variants)
    else:
        lit = r.random() < .5
        if lit:
            body = "$n:ident { $( $l:literal $v:ident : $t:ty ),* $(,)? }"
            mac = ("macro_rules! %s { (%s) => { #[derive(%s)] pub struct $n { $( #[serde(rename = $l)] pub $v: $t ),* } } }" % (name, body, ", ".join(dv)))
            inner = ",\n".join("%s %s: %s" % (rename_lit(r, f.json), f.ident, f.ty.rs(g.P)) for f in d.fields)
            return "%s\n%s! { %s { %s } }\n" % (mac, name, d.name, inner)
        body = "$(#[$m:meta])* $n:ident { $( $(#[$a:meta])* $v:ident : $t:ty ),* $(,)? }"
        mac = "macro_rules! %s { (%s) => { $(#[$m])* pub struct $n { $( $(#[$a])* pub $v: $t ),* } } }" % (name, body)
        inner = ",\n".join("%s %s: %s" % (" ".join("\n" + a + "\n" for a in f.attrs), f.ident, f.ty.rs(g.P)) for f in d.fields)
    return "%s\n%s! { #[derive(%s)] %s %s { %s } }\n" % (mac, name, ", ".join(dv), d.head if "///" not in d.head else "", d.name, inner)


def program(seed, first, kinds, edition):
    """One program: prints FAIL/OUT lines. Returns (parts, main, tests by id): parts[i] is the text of module i."""
    parts, fns, tests = [], [], []
    for i, kind in enumerate(kinds):
        n = first + i
        text, local, ts, g = module(seed, n, edition, kind)
        body = []
        for what, name, b, doc in ts:
            tid = len(tests)
            tests.append((i, kind, what, name, doc))
            body.append("    { " + b.replace("%d", str(tid)) + " }")
        # several smaller functions: rustc is slow on huge ones
        chunks = [body[k:k + 60] for k in range(0, max(1, len(body)), 60)] if not local else [body]
        fn = ""
        for c, chunk in enumerate(chunks):
            fn += "fn t%d_%d(ck: &mut rt::Ck) {\n%s\n%s\n}\n" % (i, c, local or "", "\n".join(chunk))
        fn += "fn t%d(ck: &mut rt::Ck) { %s }\n" % (i, " ".join("t%d_%d(ck);" % (i, c) for c in range(len(chunks))))
        g.alone = text if not local else "fn t() {\n%s\n}\n" % local
        g.shown = g.alone
        parts.append(((text or "") + "\n" + fn, g))
    return parts, tests


def main_text(live):
    return ("fn main() {\n    let mut ck = rt::Ck { n: 0, bad: 0 };\n"
            + "".join("    println!(\"START %d\"); if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t%d(&mut ck))).is_err() { println!(\"PANIC %d\"); }\n" % (i, i, i) for i in live)
            + "    println!(\"DONE {}\", ck.n);\n}\n")


HEADER = "#![allow(warnings)]\n"


# ---- what must be refused ----

def rejections(rng, full=False):
    """(derive, snippet) pairs; each compiles with derives that do nothing."""
    shapes = ["struct T;", "struct T();", "struct T(u8);", "struct T(u8, String);", "struct T<A>(A);", "struct T(#[serde(rename = \"a\")] u8);", "union T { a: u8, b: u16 }",
              "union T { a: u8 }", "#[repr(C)] union T { a: u8, b: u16 }", "struct T<'a>(&'a u8);", "struct T<const N: usize>;", "struct T where u8: Copy;", "struct T<A>(A) where A: Copy;"]
    enums = ["enum T<const N: usize> { A, B }", "enum T where u8: Copy { A, B }", "enum T<'a> { A(&'a u8) }", "enum T<A> { X(A), Y }", "enum T<A> { Y, X { a: A } }",
             "enum T<A: Copy> { X(A) }", "enum T<A> where A: Copy { X(A) }", "enum T<const B: bool> {}"]
    data = ["(u8)", "{ x: u8 }", "()", "{}", "(u8, String)", "(Box<T>)", "{ a: u8, b: u8 }", "([u8; 0])", "(())", "(Option<u8>)"]
    for dt in data:
        enums += ["enum T { A %s }" % dt, "enum T { A, B %s }" % dt, "enum T { A %s, B }" % dt, "enum T { A, B %s, C }" % dt, "enum T { #[serde(rename = \"b\")] B %s, C }" % dt,
                  "enum T { %s, Z %s }" % (", ".join("V%d" % i for i in range(20)), dt)]
    attrs = ["skip", "default", "default = \"d\"", "flatten", "with = \"m\"", "alias = \"x\"", "rename(serialize = \"a\")", "rename(serialize = \"a\", deserialize = \"b\")", "rename(\"a\")", "rename",
             "rename = 1", "rename = b\"x\"", "rename = 'c'", "rename = true", "rename = x", "rename = concat!(\"a\", \"b\")", "rename = stringify!(x)", "rename = \"a\" \"b\"", "rename = ", "rename \"a\"",
             "rename = \"a\", rename = \"b\"", "rename = \"a\", rename = \"a\"", "rename = \"a\", skip", "skip, rename = \"a\"", "rename = \"a\", default", "borrow", "bound = \"\"", "rename_all = \"lowercase\"",
             "other", "skip_serializing", "skip_deserializing", "skip_serializing_if = \"f\"", "serialize_with = \"f\"", "deserialize_with = \"f\"", "getter = \"f\"", "untagged", "tag = \"t\"",
             "Rename = \"x\"", "renam = \"x\"", "rename_ = \"x\"", "name = \"x\"", "serde::rename = \"x\"", "rename::x = \"a\"", "\"rename\"", "rename == \"x\"", "= \"x\"", "rename = \"a\";", "rename = {\"a\"}", "rename = (\"a\")",
             "rename: \"a\"", "1", "rename = \"a\" = \"b\"", "rename = 1.5", "rename = c\"a\""]
    whole = ["#[serde(%s)]" % a for a in attrs if a not in ("rename = ",)] + ["#[serde]", "#[serde = \"rename\"]", "#[serde(rename = \"a\")] #[serde(rename = \"b\")]", "#[serde(rename = \"a\")] #[serde(rename = \"a\")]",
            "#[serde(rename = \"a\")] #[serde(skip)]", "#[serde(skip)] #[serde(rename = \"a\")]", "#[cfg_attr(all(), serde(skip))]", "#[serde(rename = \"a\")] #[doc = \"x\"] #[serde(rename = \"b\")]",
            "#[serde(rename = \"a\")] #[cfg_attr(all(), serde(rename = \"b\"))]", "#[serde[rename]]", "#[serde{skip}]", "#[serde(rename = \"\")] #[serde(rename = \"b\")]",
            "#[serde(rename = \"x\")] #[serde(rename = \"b\")] #[serde(rename = \"x\")]"]
    hosts = ["struct T { %s a: u8 }", "struct T { a: u8, %s b: u8, c: u8 }", "struct T { a: u8, b: u8, %s c: Option<u8> }", "struct T<A> { a: A, %s b: u8 }", "enum T { %s A }", "enum T { A, %s B }", "enum T { A, %s B, C }", "enum T { %s A = 5, B }",
             "struct T { %s r#type: u8, b: u8 }", "struct T { #[serde(rename = \"ok\")] a: u8, %s b: u8 }", "struct T { %s #[serde(rename = \"ok\")] a: u8 }", "struct T { %s pub(crate) a: Option<Box<T>> }",
             "struct T { " + ", ".join("x%d: u8" % i for i in range(30)) + ", %s b: u8 }", "enum T { " + ", ".join("X%d" % i for i in range(30)) + ", %s B }"]
    out = []
    for d in ("Serialize", "Deserialize"):
        for s in shapes + enums:
            out.append((d, s))
        for a in whole:
            for h in (hosts if full else rng.sample(hosts, 6)):
                out.append((d, h % a))
    return out
