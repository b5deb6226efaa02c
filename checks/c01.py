"""C01: segments and selectors."""
from checks.common import *  # noqa: F403


def run(c):
    jp = core.load_repo()
    inv = "INVARIANT NodesExist\nINVARIANT Roundtrip\nINVARIANT PathsSelect\n"
    docs = menus.SMALL
    r = c.explore("MC_Query", f"INIT Init\nNEXT Next\n{inv}CONSTANTS MaxSegs=2 Rich=TRUE\n", key="segments2",
                  env=docs_env(c, docs))
    c.sample({"spec case": E.uncodes(r.prints[500]["t"][2]), "doc": r.prints[500]["d"]})
    replay_queries(c, r.prints, docs, jp.findall)
    r = c.explore("MC_Query", f"INIT Init\nNEXT Next\n{inv}CONSTANTS MaxSegs=1 Rich=TRUE\n", key="scalars",
                  env=docs_env(c, menus.SCALAR[2:]))
    replay_queries(c, r.prints, menus.SCALAR[2:], jp.findall)
    if c.thorough:
        for n in (0, 1, 2, 5):
            r = c.explore("MC_Query", f"INIT Init\nNEXT Next\n{inv}CONSTANTS MaxSegs=3 Rich=FALSE\n", key=f"segments3.{n}",
                          env=docs_env(c, [docs[n]]))
            replay_queries(c, r.prints, [docs[n]], jp.findall)
    random_finds(c, "small", c.n(400, 3000), 20, filters=False)
    random_finds(c, "deep", c.n(60, 500), 20, filters=False, docgen=lambda r: gen.gen_doc(r, depth=6, maxsize=80))
