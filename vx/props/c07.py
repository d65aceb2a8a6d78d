"""C07: a configuration either is rejected, or every option that applies holds a valid value of its type."""

import ast
import configparser
import copy
import json
import math
import operator

import numpy as np
import z3

from ..core import *
from .. import core
from ..load import imp, need, inject, HarnessGap


def run(R):
    cs = imp("common.configuration_schema")
    cf = imp("common.configuration")
    ee = imp("common.eval_expr")
    com = imp("common")
    Range, Field, Schema, CErr = need(cs, "ConfigFieldRange", "ConfigurationField", "ConfigurationSchema", "ConfigValueError")
    Config = cf.Configuration
    R.under_contract(
        "common.configuration_schema.ConfigFieldRange.__init__/_make_base_validate/make_validate",
        "common.configuration_schema.ConfigurationField.__init__/read",
        "common.configuration.Configuration._get_option",
        "common.eval_expr._eval (structural induction step)",
    )
    R.trust("configparser and json of the standard library", "the converters int(), float(), str.lower()")

    # ------------------------------------------------------------------ range validation, all values and bounds
    def mk(kind):
        return double if kind == "double" else (integer if kind == "int" else real)

    def rng(kind, has_min, has_max, shape):
        def body(c):
            v = mk(kind)
            lo = v("lo") if has_min else None
            hi = v("hi") if has_max else None
            try:
                val = Range(lo, hi).make_validate()
            except ValueError:
                c.prove("a range is refused only when it is empty", lo > hi if has_min and has_max else SBool(False))
                return
            if has_min and has_max:
                c.prove("an empty range is refused", NOT(lo > hi))
            xs = [v(f"x{i}") for i in range(max(shape, 1))]
            ok = val(xs[: shape] if shape else xs[0])
            inside = []
            for x in xs[: shape] if shape else xs[:1]:
                if has_min:
                    inside.append(x >= lo)
                if has_max:
                    inside.append(x <= hi)
            spec = AND(*inside) if inside else SBool(True)
            c.prove("valid exactly when inside the range", EQ(SBool(bool(ok)), spec))

        return body

    for kind in ("int", "real", "double"):
        for a in (False, True):
            for b in (False, True):
                for sh in (0, 1, 3) if kind != "double" else (0, 1):
                    R.symbolic(f"range {kind} min={a} max={b} {'scalar' if not sh else f'list of {sh}'}", rng(kind, a, b, sh))

    def sel(c):
        v = Range(None, None, [integer("s0"), integer("s1"), integer("s2")]).make_validate()
        x = integer("x")
        ok = bool(v(x))
        c.prove("selectable values", EQ(SBool(ok), OR(x == integer("s0"), x == integer("s1"), x == integer("s2"))))

    R.symbolic("range selectables", sel)

    def sel_list(c):
        ss = [integer("s0"), integer("s1")]
        v = Range(None, None, list(ss)).make_validate()
        xs = [integer("x0"), integer("x1"), integer("x2")]
        ok = bool(v(list(xs)))
        c.prove("a list is valid exactly when every entry is selectable", EQ(SBool(ok), AND(*[OR(*[x == t for t in ss]) for x in xs])))

    R.symbolic("range selectables list", sel_list)

    def both(c):
        try:
            Range(integer("lo"), None, [integer("s")])
            c.prove("bounds and selectables together are refused", SBool(False))
        except ValueError:
            c.prove("bounds and selectables together are refused", SBool(True))

    R.symbolic("range bounds and selectables", both)

    def bad_ranges(ck):
        for lo, hi, sel, ok in (
            (1, None, [1, 2], False), (None, 1, [1, 2], False), (0, 1, [0, 1], False), (0, 0, ["a"], False), (0.0, None, [1.5], False),
            (2, 1, None, False), (1.0, 0.999, None, False), (1, 1, None, True), (-2, -1, None, True), (0, 3, None, True), (None, None, [1], True),
            (None, 0, None, True), (0, None, None, True),
        ):
            ck.case(min=lo, max=hi, selectables=sel)
            try:
                Range(lo, hi, sel)
                made = True
            except ValueError:
                made = False
            ck.check("a range that makes no sense is refused, any other is accepted", made == ok, made)

    R.concrete("ranges that make no sense", bad_ranges, bound="13 ranges")

    # ------------------------------------------------------------------ reading a field
    class Parser:
        def __init__(self, outcome):
            self.outcome = outcome
            self.asked = []

        def get(self, section, name, **k):
            self.asked.append((section, name))
            if isinstance(self.outcome, Exception):
                raise self.outcome
            return self.outcome

        def has_option(self, s, n):
            return not isinstance(self.outcome, Exception)

        def has_section(self, s):
            return not isinstance(self.outcome, configparser.NoSectionError)

        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise HarnessGap(f"parser.{k}")

    def field(outcome, has_default, has_min, has_max):
        def body(c):
            lo, hi = (integer("lo") if has_min else None), (integer("hi") if has_max else None)
            x, d = integer("x"), integer("d")
            if has_min and has_max:
                c.assume(lo <= hi)

            def conv(text):
                if outcome == "malformed":
                    raise ValueError("bad text")
                return x

            inside = lambda v: AND(*([v >= lo] if has_min else []), *([v <= hi] if has_max else []), SBool(True))
            try:
                f = Field("opt", "Sec", d if has_default else None, conv, False, Range(lo, hi), None, "")
            except ValueError:
                c.prove("a default is refused only outside the range", NOT(inside(d)) if has_default else SBool(False))
                return
            if has_default:
                c.prove("a default outside the range is refused", inside(d))
            p = Parser(
                {
                    "given": "text",
                    "malformed": "text",
                    "no option": configparser.NoOptionError("opt", "Sec"),
                    "no section": configparser.NoSectionError("Sec"),
                }[outcome]
            )
            try:
                got = f.read(p)
            except CErr:
                got = None
            if outcome == "given":
                if got is None:
                    c.prove("a value is refused only outside its range", NOT(inside(x)))
                else:
                    c.prove("the value read is the one in the file", EQ(got, x))
                    c.prove("an accepted value is inside its range", inside(x))
            elif outcome == "malformed":
                c.prove("a malformed value is refused", SBool(got is None))
            else:
                if has_default:
                    c.prove("a missing option takes its default", EQ(got, d) if got is not None else SBool(False))
                else:
                    c.prove("a missing mandatory option is refused", SBool(got is None))
            c.prove("the option is looked up under its own section and name", SBool(all(a == ("Sec", "opt") for a in p.asked)))

        return body

    for o in ("given", "malformed", "no option", "no section"):
        for dflt in (False, True):
            for a in (False, True):
                for b in (False, True):
                    R.symbolic(f"read {o} default={dflt} min={a} max={b}", field(o, dflt, a, b))

    # ------------------------------------------------------------------ expressions: induction step
    OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv}

    def induct(c):
        a, b = real("a"), real("b")
        L, Rr = ast.Name("L"), ast.Name("R")
        orig = need(ee, "_eval")
        calls = []

        def stub(node):
            calls.append(node)
            return a if node is L else b

        with inject(ee, _eval=stub):
            for op in [o for o in vars(ast).values() if isinstance(o, type) and issubclass(o, ast.operator) and o is not ast.operator]:
                try:
                    v = orig(ast.BinOp(L, op(), Rr))
                except Exception:
                    v = None
                if op in OPS:
                    c.prove(f"{op.__name__} of two sub-expressions", EQ(v, OPS[op](a, b)) if v is not None else SBool(False))
                else:
                    c.prove(f"operator {op.__name__} is refused", SBool(v is None))
            for op in [o for o in vars(ast).values() if isinstance(o, type) and issubclass(o, ast.unaryop) and o is not ast.unaryop]:
                try:
                    v = orig(ast.UnaryOp(op(), L))
                except Exception:
                    v = None
                if op is ast.USub:
                    c.prove("negation", EQ(v, -a) if v is not None else SBool(False))
                elif op is ast.UAdd:
                    c.prove("unary plus is refused or harmless", EQ(v, a) if v is not None else SBool(True))
                else:
                    c.prove(f"operator {op.__name__} is refused", SBool(v is None))
        bad = ["f(1)", "a.b", "[1]", "(1,2)", "{1:2}", "x if y else z", "lambda: 1", "a[0]", "'s'", "None", "1j", "1<2",
               "1 and 2", "{1}", "[x for x in y]", "f'{1}'", "b'x'", "...", "e", "inf", "__import__('os')", "(x := 3)"]
        for t in bad:
            try:
                v = ee.eval_expr(t)
                ok = False
            except Exception:
                ok = True
            c.prove(f"{t} is refused", SBool(ok))
        for t, e in (("3", 3), ("2.5", 2.5), ("pi", math.pi), ("PI", math.pi), ("1e3", 1e3)):
            c.prove(f"literal {t}", SBool(ee.eval_expr(t) == e))

    R.symbolic("expression evaluation", induct)

    # ------------------------------------------------------------------ bounded: random schemas and files
    def conv(t):
        return {
            "int": int, "float": float, "float64": float, "float32": np.float32,
            "str": lambda s: s.lower(), "lc-str": lambda s: s.lower(), "lower-case-str": lambda s: s.lower(),
            "cs-str": str, "case-sensitive-str": str, "bool": lambda s: bool(int(s)),
        }[t]

    def expected_value(f, raw):
        """('ok', value) / ('bad',)"""
        t = f["type"]
        is_list = t.startswith("list-")
        base = t[5:] if is_list else t
        cv = conv(base)
        if raw is None:
            if "default" not in f:
                return ("bad",)
            d = f["default"]
            if is_list:
                val = [cv(x) for x in (d if isinstance(d, list) else [d])]
            else:
                val = cv(d) if not isinstance(d, str) or base.endswith("str") else cv(f["default_value"])
        else:
            try:
                if is_list:
                    try:
                        val = [cv(raw)]
                    except ValueError:
                        val = [cv(x) for x in json.loads(raw)]
                else:
                    val = cv(raw)
            except Exception:
                return ("bad",)
        for x in val if isinstance(val, list) else [val]:
            if "min" in f and not x >= conv(base)(f["min"]):
                return ("bad",)
            if "max" in f and not x <= conv(base)(f["max"]):
                return ("bad",)
            if "selectables" in f and x not in [cv(s) for s in f["selectables"]]:
                return ("bad",)
        return ("ok", val)

    def same(a, b):
        if isinstance(a, list) or isinstance(b, list):
            return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if isinstance(a, (float, np.floating)) and a != a:
            return b != b
        return a == b

    def gen_schema(r):
        fields = []
        nf = int(r.integers(3, 9))
        for i in range(nf):
            t = r.choice(["int", "float", "str", "cs-str", "bool", "list-int", "list-float", "float32", "float64", "lc-str"])
            f = {"name": f"opt_{i}", "type": str(t)}
            num = t in ("int", "float", "list-int", "list-float", "float32", "float64")
            mode = r.integers(0, 5)
            if num and mode == 1:
                f["min"] = int(r.integers(-5, 3))
            elif num and mode == 2:
                f["max"] = int(r.integers(0, 8))
            elif num and mode == 3:
                f["min"], f["max"] = -3, int(r.integers(0, 8))
            elif mode == 4 and t != "bool":
                f["selectables"] = [0, 1, 4] if num else ["Alpha", "beta", "GAMMA"]
            if r.random() < 0.6:
                if num:
                    dv = 1 if "selectables" in f else int(r.integers(-2, 1))
                    dv = min(max(dv, f.get("min", dv)), f.get("max", max(dv, f.get("min", dv))))
                    f["default"] = [dv] if t.startswith("list") and r.random() < 0.5 else dv
                elif t == "bool":
                    f["default"] = int(r.integers(0, 2))
                else:
                    f["default"] = "beta"
            if i > 0 and r.random() < 0.35:
                roots = [g for g in fields if "dependency" not in g and not g["type"].startswith("list")]
                if roots:
                    g = roots[int(r.integers(len(roots)))]
                    b = g["type"]
                    vals = {"str": ["alpha", "beta"], "lc-str": ["alpha", "beta"], "cs-str": ["Alpha"], "bool": [True]}.get(b, [0, 1])
                    f["dependency"] = {"name": g["name"], "values": vals if r.random() < 0.7 else vals[:1]}
            fields.append(f)
        return fields

    def gen_raw(r, f):
        t = f["type"]
        if r.random() < 0.3:
            return None
        if t == "bool":
            return str(r.choice(["0", "1", "2", "yes", "true", ""]))
        if t.endswith("str"):
            return str(r.choice(["Alpha", "beta", "GAMMA", "alpha", "other Text", "run # 4", "a;b ; c", "x = y: z"]))
        if t.startswith("list"):
            return str(r.choice(["1", "[0, 1]", "[1, 4, 1]", "[-9, 0]", "[]", "x", "[0, \"a\"]", "[0, 100]", "0", "[0, 2, 4]", "[4, 0, 3, 1]", "[1, 0, -7, 2]"]))
        if t == "int":
            return str(r.choice(["0", "1", "4", "-3", "-4", "7", "8", "1.5", "abc", "1e3", " 2 ", "100"]))
        return str(r.choice(["0", "1", "4.0", "-3", "-3.0001", "7.5", "abc", "1e3", "nan", "inf", "-inf", "0.1"]))

    def bounded(ck):
        r = np.random.default_rng(R.seed)
        for trial in range(4000 if R.thorough else 900):
            fields = gen_schema(r)
            layout = r.integers(0, 4)
            secs = ["A", "B"]
            where = {f["name"]: secs[int(r.integers(2))] for f in fields}
            if layout == 0:
                js = {"version": "1", "fields": [dict(f, section=where[f["name"]]) for f in fields]}
            elif layout == 3:
                js = {"version": "1", "sections": [{"name": "A", "fields": [f for f in fields if where[f["name"]] == "A"]}],
                      "fields": [dict(f, section="B") for f in fields if where[f["name"]] == "B"]}
            else:
                js = {"version": "1", "sections": [{"name": s, "fields": [f for f in fields if where[f["name"]] == s]} for s in secs]}
            raw = {f["name"]: gen_raw(r, f) for f in fields}
            lines = []
            for s in secs:
                opts = [f"{n} = {v}" for n, v in raw.items() if v is not None and where[n] == s]
                if opts or r.random() < 0.5:
                    lines += [f"[{s}]"] + opts
            # an option under the wrong section must not count
            text = "\n".join(lines) + "\n"
            ck.case(schema=js, config=text)
            # oracle
            env, bad = {}, False
            order = [f for f in fields if "dependency" not in f] + [f for f in fields if "dependency" in f]
            for f in order:
                dep = f.get("dependency")
                if dep is not None and not (dep["name"] in env and env[dep["name"]] in dep["values"]):
                    continue
                e = expected_value(f, raw[f["name"]])
                if e[0] == "bad":
                    bad = True
                    break
                env[f["name"]] = e[1]
            try:
                schema = Schema(json.dumps(js))
            except Exception as e:
                ck.fail("a well-formed schema is accepted", None, repr(e))
                continue
            try:
                c = Config(text, schema, load_post_config=False)
                err = None
            except Exception as e:
                c, err = None, e
            if bad:
                ck.check("an invalid configuration is rejected", c is None, lambda: {n: getattr(c, n, None) for n in where})
            else:
                if err is not None:
                    ck.fail("a valid configuration is accepted", None, repr(err))
                    continue
                for f in fields:
                    n = f["name"]
                    if n in env:
                        ck.check(
                            "option value",
                            hasattr(c, n) and same(getattr(c, n), env[n]),
                            lambda: f"{n}: {getattr(c, n, None)!r} expected {env[n]!r}",
                        )
                        base = f["type"][5:] if f["type"].startswith("list-") else f["type"]
                        ty = {"int": int, "float": float, "float64": float, "float32": np.float32, "bool": bool}.get(base, str)
                        vs = getattr(c, n)
                        for x in vs if isinstance(vs, list) else [vs]:
                            ck.check("option type", isinstance(x, ty), lambda: f"{n}: {type(x)}")
                        ck.check("listed in its section", n in c.sections.get(where[n], []), c.sections)
                    else:
                        ck.check("an option that does not apply is not set", not hasattr(c, n), lambda: f"{n}={getattr(c, n)}")
                # a copy is independent and equal
                d = copy.deepcopy(c)
                for n, v in env.items():
                    ck.check("deep copy has the same values", same(getattr(d, n), v), n)
                    if isinstance(v, list):
                        getattr(d, n).append(999)
                        ck.check("deep copy is independent", 999 not in getattr(c, n))
                # list defaults are not shared between configurations
                c2 = Config(text, schema, load_post_config=False)
                for n, v in env.items():
                    if isinstance(getattr(c2, n), list):
                        getattr(c2, n).append(12345)
                        c3 = Config(text, schema, load_post_config=False)
                        ck.check("defaults are not shared", 12345 not in getattr(c3, n), n)

    R.concrete("random schemas and files", bounded, bound="900 (4000) random schema/file pairs")

    def shipped(ck):
        schema = com.load_default_schema()
        js = json.loads(open(com.default_schema_path).read())
        flds = [dict(f, section=s["name"]) for s in js.get("sections", []) for f in s["fields"]]
        ck.case(schema="default")
        ck.check("every shipped field is loaded once", sorted(f.name for f in schema.fields) == sorted(f["name"] for f in flds))
        for f in schema.fields:
            if f.field_default is not None:
                ck.check("shipped defaults are valid", f.validate(f.field_default), f.name)
        names = {f["name"] for f in flds}
        for f in flds:
            if "dependency" in f:
                ck.check("dependencies exist", f["dependency"]["name"] in names, f["name"])

        def conf(over):
            sec = {}
            for f in flds:
                v = over.get(f["name"])
                if v is None and "default" not in f:
                    if "selectables" in f:
                        v = f["selectables"][0]
                    else:
                        b = f["type"]
                        v = "text" if b.endswith("str") else "1"
                        if "min" in f and float(v) < float(f["min"]) if isinstance(f.get("min"), (int, float)) else False:
                            v = str(f["min"])
                if v is not None:
                    sec.setdefault(f["section"], []).append(f"{f['name']} = {v}")
            return "\n".join(f"[{s}]\n" + "\n".join(o) for s, o in sec.items())

        base = {"num_solpts": 3, "discretization": "dg", "equations": "shallow_water", "num_elements_horizontal": 7}
        ck.case(over=base)
        c = Config(conf(base), schema)
        ck.check("initial_num_solpts", c.initial_num_solpts == 3)
        ck.check("total elements", c.num_elements_horizontal_total == 7)
        ck.check("string options", c.discretization == "dg" and c.equations == "shallow_water")
        for n in (1, 2, 5):
            ck.case(discretization="fv", num_solpts=n)
            try:
                Config(conf(dict(base, discretization="fv", num_solpts=n)), schema)
                ok = True
            except ValueError:
                ok = False
            ck.check("finite volumes need exactly one solution point", ok == (n == 1), ok)
        ck.case(dt="negative")
        try:
            Config(conf(dict(base, dt="-1.0")), schema)
            ok = True
        except ValueError:
            ok = False
        ck.check("negative time step is rejected", not ok)
        # a few expressions against Python's own arithmetic
        r = np.random.default_rng(R.seed)

        def gen(d):
            k = r.integers(0, 6) if d else 0
            if k <= 1:
                return str(r.choice(["1", "2.5", "pi", "7", "0.125"]))
            if k == 2:
                return f"-({gen(d - 1)})"
            return f"({gen(d - 1)}) {r.choice(['+', '-', '*', '/'])} ({gen(d - 1)})"

        for _ in range(400):
            t = gen(4)
            ck.case(expression=t)
            try:
                e = eval(t, {"pi": math.pi, "__builtins__": {}})
            except ZeroDivisionError:
                continue
            ck.check("expression value", ee.eval_expr(t) == e, t)
        for t in ("1 - 2 - 3", "2 * 3 + 4 * 5", "8 / 4 / 2", "-2 * -3", "1 + 2 * pi"):
            ck.case(expression=t)
            ck.check("precedence", ee.eval_expr(t) == eval(t, {"pi": math.pi}), ee.eval_expr(t))

    R.concrete("shipped schema", shipped, bound="default schema, 400 expressions")
