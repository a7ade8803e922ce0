"""Setup-time self test of the verifier: correct bodies are accepted, broken bodies are rejected with a replayed input."""
import sys
import types


def run():
    from . import boot
    boot.load()
    import jax
    import jax.numpy as jnp
    from . import contract as ct, terms as tm
    from .contract import Contract, Param, Session, pos, sqrt, dot, norm, where, cmp
    m = types.ModuleType("jv_selftest_mod")
    sys.modules["jv_selftest_mod"] = m
    good = {
        "a": lambda x, y: jnp.sqrt(x * x * y) / jnp.sqrt(y),
        "b": lambda x, y: jnp.where(x < 0, -x, x),
        "c": lambda x, y: jax.lax.fori_loop(0, 3, lambda i, s: s + x, jnp.zeros_like(x)) / y,
    }
    spec = {"a": lambda x, y: where(cmp("lt", x, tm.ZERO), -x, x), "b": lambda x, y: where(cmp("lt", x, tm.ZERO), -x, x),
            "c": lambda x, y: 3 * x / y}
    bad = {
        "a": lambda x, y: jnp.sqrt(x * x * y) / y,
        "b": lambda x, y: jnp.where(x < -1e-7, -x, x),
        "c": lambda x, y: jax.lax.fori_loop(0, 3, lambda i, s: s + x, jnp.zeros_like(x)) / (y + 1e-9),
    }
    fails = 0
    for kind, fs in (("good", good), ("bad", bad)):
        for n, f in fs.items():
            setattr(m, n, f)
            c = Contract("st_" + n, f"jv_selftest_mod:{n}", [Param("x"), Param("y", "pos")], spec[n], lambda x, y: pos(y), batch=[{}])
            ct.REGISTRY.pop("st_" + n)
            o = c.verify(Session({"st_" + n: c}))
            failed = [x for x in o if x.status != "proved"]
            ok = (not failed) if kind == "good" else any(x.witness for x in failed)
            print("selftest", kind, n, "ok" if ok else "FAILED", [(x.name, x.why[:80]) for x in failed][:2])
            fails += not ok
    from . import battery
    res = battery.check()
    bad = {n: r for n, r in res.items() if r[0] == "WRONG"}
    for n, r in bad.items():
        print("selftest extraction", n, "FAILED", r[1])
    print("selftest extraction: %d programs, %d agree with the real execution" % (len(res), sum(r[0] == "ok" for r in res.values())))
    from . import leanfacts
    facts = leanfacts.check()
    for n, (ok, why) in facts.items():
        if not ok:
            print("selftest lean", n, "FAILED", why)
    print("selftest lean: %d of %d facts proved" % (sum(v[0] for v in facts.values()), len(facts)))
    return 1 if fails or bad or not all(v[0] for v in facts.values()) else 0
